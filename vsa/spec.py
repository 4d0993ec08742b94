"""Vocabulary of the rules: questions about one path."""
from .pyvals import *  # noqa
from .pyvals import V

OBJ = Sym('param', 'obj')
CHK = Sym('param', 'checker')
NAME = Sym('param', 'name')
X = Sym('param', 'x')
Y = Sym('param', 'y')


def param(n):
    return Sym('param', n)


def mentions(key, what):
    """the origin `key` is, or is built from, the origin `what`"""
    if key == what:
        return True
    if isinstance(key, tuple):
        return any(mentions(k, what) for k in key)
    return False


def args_of(e):
    return list(e.args) + list((e.kw or {}).values())


def func_key(e):
    if e.kind == 'call' and isinstance(e.name, V):
        return e.name.key
    return None


def is_call_of(e, base_key, meth):
    """e calls the method meth of the opaque value base_key"""
    k = func_key(e)
    if k == ('attr', base_key, meth):
        return True
    return False


def calls_of(p, base_key, meth):
    return [e for e in p.events if is_call_of(e, base_key, meth)]


def involves(e, key):
    """the event operates on or passes on `key` or something made from it"""
    if any(mentions(a.key, key) for a in args_of(e)):
        return True
    k = func_key(e)
    return k is not None and mentions(k, key)


def direct(e, key):
    """`key` itself is operated on"""
    if e.args and e.args[0].key == key and e.kind != 'call':
        return True
    k = func_key(e)
    return k is not None and (k == key or k[:2] == ('attr', key))


def call_term(v):
    """(function key, argument keys) if v is the result of a call"""
    if isinstance(v, Sym) and v.term[0] == 'call':
        return v.term[1], v.term[2]
    return None


def is_proxied(v, chk_key):
    """v is checker.proxy(something); that something's key or None"""
    c = call_term(v)
    if c and c[0] == ('attr', chk_key, 'proxy') and len(c[1]) == 1:
        return c[1][0]
    return None


def exc_class(p):
    """label of the class of the exception a path ends with"""
    if p.kind != 'raise':
        return None
    v = p.value
    if isinstance(v, Inst):
        c = v.cls
        return c.label if isinstance(c, Class) else (
            c.term[1] if isinstance(c, Sym) and c.term[0] == 'ext'
            else show(c.key))
    if isinstance(v, Class):
        return v.label
    if isinstance(v, Sym):
        return 'opaque'
    return '?'


def exc_args(p):
    v = p.value
    if isinstance(v, Inst) and v.args is not None:
        return [a.key for a in v.args]
    return None


def kind_of(exc):
    """zope.security.interfaces.Unauthorized -> Unauthorized"""
    return exc.rsplit('.', 1)[-1] if exc else exc


def raised_by(p):
    """the event whose error the path ends with, if any"""
    if p.kind == 'raise':
        for e in p.events:
            if e.raised is not None and e.raised is p.value:
                return e
    return None


def names_in(p, v):
    """(allowed constants or None, excluded constants) of v on the path"""
    ins, nots = p.dom.get(v.key, (None, frozenset()))
    return (None if ins is None else {k[2] for k in ins},
            {k[2] for k in nots})


def live(paths):
    return [p for p in paths if p.kind != 'truncated']


IFACE = 'zope.security.interfaces.'
UNAUTH = IFACE + 'Unauthorized'
FORBID = IFACE + 'ForbiddenAttribute'
FORBIDDEN = IFACE + 'Forbidden'

AVAILABLE = {'__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__',
             '__hash__', '__bool__', '__class__', '__providedBy__',
             '__implements__', '__repr__', '__conform__', '__name__',
             '__parent__'}


def is_fact(p, a, b):
    """True / False / None: a is b (both values) on this path"""
    if a.key == b.key:
        return True
    r = p.facts.get(('is',) + tuple(sorted((a.key, b.key), key=repr)))
    if r is not None:
        return r
    return p.run.known_is(a, b)


def inst_fact(p, key, ck):
    """True / False / None: the value `key` is an instance of class ck"""
    r = p.facts.get(('inst', key, ck))
    if r is not None:
        return r
    for a, v in p.facts.items():
        if a[0] == 'inst' and a[1] == key:
            if v and p.run.subclass_keys(a[2], ck):
                return True
            if not v and p.run.subclass_keys(ck, a[2]):
                return False
    return None


def exc_is(p, exc, ck):
    """the exception is an instance of class ck (label)"""
    if isinstance(exc, Inst):
        return any(p.run.class_key(k) == ck for k in p.run.mro(exc.cls))
    if isinstance(exc, Class):
        return any(p.run.class_key(k) == ck for k in p.run.mro(exc))
    return inst_fact(p, exc.key, ck)


def same_exc(p, exc):
    return p.kind == 'raise' and p.value.key == exc.key


def has_fact(p, mapping, key):
    return p.facts.get(('has', mapping.key, key.key))


def had_fact(p, mapping, key):
    """did the mapping have the key before the path changed it"""
    a = ('has', mapping.key, key.key)
    return p.first.get(a, p.facts.get(a))


def truth_fact(p, v):
    r = p.facts.get(('truthy', v.key))
    return r if r is not None else p.run.known_truth(v)


def hasattr_fact(p, v, name):
    return p.facts.get(('hasattr', v.key, name))


def snippet(w, src, mod):
    """a function of ours (a client of the analysed code), to be followed by
    the analysis as if it were defined in the module `mod`"""
    import ast
    from .pyai import Frame
    node = ast.parse(src).body[0]
    m = w.modules[w.package + '.' + mod]
    fr = Frame(m, m, qual='<client>')
    w.run.frames.append(fr)
    try:
        return w.run.make_func(node, node.name, fr)
    finally:
        w.run.frames.pop()


def set_global(run, w, dotted, value):
    mod, name = dotted.split('.')
    m = w.modules[w.package + '.' + mod]
    run.touch(m)
    m.ns[name] = value


class Slots:
    """Before and after of the attributes of one object on a path, from the
    facts the path established and the writes it did."""

    def __init__(self, p, o, names):
        self.p, self.o = p, o
        self.before, self.after, self.writes = {}, {}, []
        for n in names:
            a = ('hasattr', o.key, n)
            self.before[n] = p.first.get(a, p.facts.get(a))
            self.after[n] = 'same'
        for e in p.events:
            if e.kind in ('setattr', 'delattr') and e.args[0].key == o.key \
                    and e.raised is None:
                self.writes.append(e)
                self.after[e.name] = e.args[1] if e.kind == 'setattr' \
                    else None

    def value(self, n):
        return Sym('attr', self.o.key, n)

    def none_before(self, n):
        """no value, or None, before: True / False / unknown"""
        b = self.before[n]
        if b is False:
            return True
        none = self.p.is_const(self.value(n), None)
        if b is True or none is True:
            return none
        return None

    def absent_after(self, n):
        a = self.after[n]
        if a is None:
            return True
        if isinstance(a, str):
            return self.before[n] is False
        return False

    def unchanged(self, n):
        a = self.after[n]
        if a == 'same' if isinstance(a, str) else False:
            return True
        if a is None:
            return self.before[n] is False
        return not isinstance(a, str) and a.key == self.value(n).key and \
            self.before[n] is True

    def is_after(self, n, key):
        a = self.after[n]
        if isinstance(a, str):
            return self.before[n] is True and key == self.value(n).key
        return a is not None and a.key == key


def make_proxy(w, run, wrapped, checker, label):
    """a value known to be a security proxy around `wrapped`"""
    P = w.get('proxy.Proxy')
    if isinstance(P, Class):
        o = Inst(P, label=label)
        o.attrs['_wrapped'] = wrapped
        o.attrs['_checker'] = checker
        return o
    o = param(label)
    run.proxies[o.key] = (wrapped, checker)
    run.facts[('inst', o.key, run.class_key(P))] = True
    run.facts[('is',) + tuple(sorted((('type', o.key), P.key),
                                     key=repr))] = True
    run.facts[('is',) + tuple(sorted((o.key, wrapped.key),
                                     key=repr))] = False
    return o


def make_bare(w, run, label):
    """an opaque value known not to be a security proxy"""
    o = param(label)
    run.bare.add(o.key)
    P = w.get('proxy.Proxy')
    run.facts[('inst', o.key, run.class_key(P))] = False
    run.facts[('is',) + tuple(sorted((('type', o.key), P.key),
                                     key=repr))] = False
    return o


def classes_of(p):
    """value key -> set of keys known to be the same value"""
    if 'classes' in p.info:
        return p.info['classes']
    cl = {}

    def join(a, b):
        x, y = cl.setdefault(a, {a}), cl.setdefault(b, {b})
        if x is not y:
            x |= y
            for k in y:
                cl[k] = x
    for a, v in p.facts.items():
        if a[0] in ('is', 'eq') and v is True:
            join(a[1], a[2])
    for k, (ins, nots) in p.dom.items():
        if ins is not None and len(ins) == 1:
            join(k, next(iter(ins)))
    p.info['classes'] = cl
    return cl


def known_same(p, a, b):
    """are two values (keys) known to be the same / different"""
    if a == b:
        return True
    cl = classes_of(p)
    x, y = cl.get(a, {a}), cl.get(b, {b})
    if x is y:
        return True
    for m in x:
        for n in y:
            if m[0] == 'const' and n[0] == 'const':
                return False
            for u, v in ((m, n), (n, m)):
                ins, nots = p.dom.get(u, (None, frozenset()))
                if v in nots or ins is not None and v[0] == 'const' and \
                        v not in ins:
                    return False
            k = tuple(sorted((m, n), key=repr))
            if p.facts.get(('eq',) + k) is False or \
                    p.facts.get(('is',) + k) is False:
                return False
    return None


def contradictory(p):
    """whether the equalities of the path cannot hold together (equality
    taken to be transitive)"""
    cl = classes_of(p)
    return any(a[0] in ('is', 'eq') and v is False and
               a[1] in cl and a[2] in cl[a[1]]
               for a, v in p.facts.items())
