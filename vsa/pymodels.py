"""What the value-flow analysis knows about Python's builtins and the few
library functions that matter."""
import builtins as _b

from .pyvals import *  # noqa
from .pyvals import V
from . import pyai
from .pyai import (_ABSENT, _Absent, BOOLEAN, Frame, PyRaise, builtin_class,
                   Infeasible)

MODELS = {}
CONSTS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


class _Stop(Exception):
    pass


# ------------------------------------------------------------ containers
def make_set(run, items, kind='set'):
    out = List((), kind)
    for x in items:
        set_add(run, out, x)
    return out


def set_add(run, s, x):
    if not run.in_values(x, s.items):
        run.touch(s)
        s.items.append(x)


def set_op(run, op, a, b, inplace=False):
    if op == '__or__':
        items = a.items + b.items
        r = make_set(run, items, a.kind)
    elif op == '__sub__':
        r = List([x for x in a.items if not run.in_values(x, b.items)],
                 a.kind)
    else:
        r = List([x for x in a.items if run.in_values(x, b.items)], a.kind)
    if inplace:
        run.touch(a)
        a.items = r.items
        return a
    return r


def dict_items(run, d):
    """list of (key, value) of a Dict, opaque layers by generic elements"""
    seen = []

    def cb(k):
        v = run.dict_get(d, k)
        seen.append((k, v if v is not None else Sym('item', d.key, k.key)))
    run.iterate(d, cb)
    return seen


def dict_update(run, d, src, kw, obj=None):
    run.touch(d)
    e = run.event('update', 'update', [obj or d] + (
        [src] if src is not None else []), kw)
    data = []
    if src is not None:
        if isinstance(src, Inst) and getattr(src, 'dictval', None) is not None:
            src = src.dictval
        if isinstance(src, Dict):
            for lay in src.layers:
                data += list(lay.values()) if isinstance(lay, dict) else [
                    lay if isinstance(lay, Sym) else None]
            if len(d.layers) == 1 and src.closed():
                for k, v in src.explicit():
                    run.dict_set(d, k, v)
            else:
                d.layers = d.layers + src.snapshot()
        elif isinstance(src, (List, Gen, Wrapped)):
            for it in run.to_items(src):
                k, v = (run.getitem(it, Const(0)), run.getitem(it, Const(1)))
                data.append((k, v))
                run.dict_set(d, k, v)
        elif isinstance(src, Sym):
            data.append(src)
            d.layers = d.layers + [src]
        else:
            data.append(None)
    if '**' in kw:
        data.append(kw['**'])
        d.layers = d.layers + [kw['**']]
    for k, v in kw.items():
        if k != '**':
            data.append((Const(k), v))
            run.dict_set(d, Const(k), v)
    if e is not None:
        e.data = data
    return NONE


def call_bmeth(run, o, name, args, kw):
    if isinstance(o, Dict):
        r = dict_method(run, o, name, args, kw)
        run.dict_of(o)
        return r
    if isinstance(o, List):
        return list_method(run, o, name, args, kw)
    if isinstance(o, Const):
        return const_method(run, o, name, args, kw)
    if isinstance(o, Class) and name == 'mro':
        return List(run.mro(o))
    if isinstance(o, Gen):
        if name in ('__iter__',):
            return o
        if name in ('__next__', 'send'):
            return next_(run, [o], {})
        return run.opaque_call(Sym('attr', o.key, name), args, kw)
    raise pyai.AnalysisError(f'method {name} of {o!r}')


def dict_method(run, d, name, args, kw, obj=None):
    if name in ('get',):
        v = run.dict_get(d, args[0])
        if v is None:
            return args[1] if len(args) > 1 else kw.get('default', NONE)
        return v
    if name == '__getitem__':
        return run.getitem(d, args[0])
    if name == '__contains__':
        return TRUE if run.dict_get(d, args[0], probe=True) is not None \
            else FALSE
    if name == '__setitem__':
        run.event('setitem', '__setitem__', [obj or d] + args)
        run.dict_set(d, args[0], args[1])
        return NONE
    if name == '__delitem__':
        if obj is not None:
            run.event('delitem', '__delitem__', [obj] + args)
            if run.dict_get(d, args[0], probe=True) is None:
                run.raise_builtin('KeyError', args[0])
            return NONE
        run.delitem(d, args[0])
        return NONE
    if name == 'setdefault':
        v = run.dict_get(d, args[0])
        if v is None:
            v = args[1] if len(args) > 1 else NONE
            run.event('setitem', '__setitem__', [obj or d, args[0], v])
            run.dict_set(d, args[0], v)
        return v
    if name == 'pop':
        v = run.dict_get(d, args[0])
        if v is None:
            if len(args) > 1:
                return args[1]
            run.raise_builtin('KeyError', args[0])
        run.event('delitem', '__delitem__', [obj or d, args[0]])
        run.touch(d)
        for lay in d.layers:
            if isinstance(lay, dict):
                lay.pop(args[0].key, None)
        return v
    if name == 'update':
        return dict_update(run, d, args[0] if args else None, kw, obj)
    if name == 'clear':
        run.event('clear', 'clear', [obj or d])
        run.touch(d)
        d.layers = [{}]
        return NONE
    if name in ('copy', '__copy__'):
        n = Dict()
        n.layers = d.snapshot()
        return n
    if name in ('keys', '__iter__'):
        return List([k for k, _ in dict_items(run, d)], 'dict_keys')
    if name == 'values':
        return List([v for _, v in dict_items(run, d)], 'dict_values')
    if name == 'items':
        return List([tup(k, v) for k, v in dict_items(run, d)],
                    'dict_items')
    if name == '__len__':
        if d.closed():
            return Const(len(d.explicit()))
        return Sym('op', '__len__', d.key)
    if name == 'fromkeys':
        n = Dict()
        for k in run.to_items(args[0]):
            if run.dict_get(n, k, probe=True) is None:
                run.dict_set(n, k, args[1] if len(args) > 1 else NONE)
        return n
    return run.opaque_call(Sym('attr', d.key, name), args, kw)


def list_method(run, l, name, args, kw):
    if name in ('append', 'add') and args:
        run.event('append', name, [l] + args)
        if name == 'add':
            set_add(run, l, args[0])
        else:
            run.touch(l)
            l.items.append(args[0])
        return NONE
    if name in ('extend', 'update'):
        for x in run.to_items(args[0]):
            run.event('append', 'append', [l, x])
            if l.kind == 'set':
                set_add(run, l, x)
            else:
                run.touch(l)
                l.items.append(x)
        return NONE
    if name == 'insert':
        run.event('append', 'insert', [l, args[1], args[0]])
        run.touch(l)
        i = args[0].value if isinstance(args[0], Const) else 0
        l.items.insert(i, args[1])
        return NONE
    if name in ('remove', 'discard'):
        run.event('remove', name, [l] + args)
        for i, x in enumerate(l.items):
            if run.decide_eq(x, args[0]):
                run.touch(l)
                del l.items[i]
                return NONE
        if name == 'discard':
            return NONE
        run.raise_builtin('ValueError')
    if name == 'pop':
        run.event('remove', name, [l] + args)
        if not l.items:
            run.raise_builtin('IndexError')
        run.touch(l)
        i = args[0].value if args and isinstance(args[0], Const) else -1
        try:
            return l.items.pop(i)
        except IndexError:
            run.raise_builtin('IndexError')
    if name == 'clear':
        run.event('clear', 'clear', [l])
        run.touch(l)
        l.items = []
        return NONE
    if name == 'copy':
        return List(l.items, l.kind)
    if name == 'sort':
        r = sort_items(run, l.items, kw)
        run.touch(l)
        l.items = r.items
        l.order = r.order
        return NONE
    if name == 'reverse':
        run.touch(l)
        l.items.reverse()
        return NONE
    if name == 'index':
        for i, x in enumerate(l.items):
            if run.decide_eq(x, args[0]):
                return Const(i)
        run.raise_builtin('ValueError')
    if name == 'count':
        return Const(sum(1 for x in l.items if run.decide_eq(x, args[0])))
    if name == '__len__':
        return Const(len(l.items))
    if name == '__contains__':
        return TRUE if run.contains(args[0], l) else FALSE
    if name == '__getitem__':
        return run.getitem(l, args[0])
    if name == '__iter__':
        return Wrapped('iterator', List(l.items), l.kind)
    if name in ('union', 'difference', 'intersection', 'issubset',
                'issuperset', 'isdisjoint'):
        bs = [x for a in args for x in run.to_items(a)]
        b = List(bs, 'set')
        if name == 'issubset':
            return Const(all(run.in_values(x, bs) for x in l.items))
        if name == 'issuperset':
            return Const(all(run.in_values(x, l.items) for x in bs))
        if name == 'isdisjoint':
            return Const(not any(run.in_values(x, bs) for x in l.items))
        return set_op(run, {'union': '__or__', 'difference': '__sub__',
                            'intersection': '__and__'}[name], l, b)
    if name == 'difference_update':
        for a in args:
            set_op(run, '__sub__', l, List(run.to_items(a), 'set'), True)
        return NONE
    return run.opaque_call(Sym('attr', l.key, name), args, kw)


def const_method(run, c, name, args, kw):
    if isinstance(c.value, str):
        if name == 'join' and args:
            items = run.to_items(args[0])
            if all(isinstance(x, Const) for x in items):
                return Const(c.value.join(str(x.value) for x in items))
            run.fmt_event('join', items)
            return Sym('fmt', 'join', (c.key,) + tuple(x.key for x in items))
        if name == 'format':
            if all(isinstance(x, Const) for x in args) and \
                    all(isinstance(x, Const) for x in kw.values()):
                try:
                    return Const(c.value.format(
                        *[x.value for x in args],
                        **{k: v.value for k, v in kw.items()}))
                except Exception as e:
                    run.raise_builtin(type(e).__name__)
            run.fmt_event(c.value, args + list(kw.values()))
            return Sym('fmt', c.value, tuple(x.key for x in args) + tuple(
                kw[k].key for k in sorted(kw)))
        if name in ('startswith', 'endswith') and args and \
                isinstance(args[0], List):
            return Const(any(
                isinstance(x, Const) and getattr(c.value, name)(x.value)
                for x in args[0].items))
    if all(isinstance(x, Const) for x in args) and not kw:
        try:
            r = getattr(c.value, name)(*[x.value for x in args])
        except Exception as e:
            run.raise_builtin(type(e).__name__)
        if r is None or isinstance(r, (str, int, bool, float, bytes)):
            return Const(r)
        if isinstance(r, (list, tuple)):
            return List([Const(x) for x in r],
                        'tuple' if isinstance(r, tuple) else 'list')
    return run.opaque_call(Sym('attr', c.key, name), args, kw)


def decide_less(run, a, b):
    """whether a < b, of values that are ordered by '<' and '=='"""
    if isinstance(a, List) and isinstance(b, List) and a.kind == b.kind:
        for x, y in zip(a.items, b.items):
            x, y = (Const(run.truth(q)) if isinstance(q, Sym) and
                    q.term[0] in BOOLEAN else q for q in (x, y))
            if not run.decide_eq(x, y):
                return decide_less(run, x, y)
        return len(a.items) < len(b.items)
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return a.value < b.value
        except TypeError:
            run.raise_builtin('TypeError')
    if isinstance(a, Sym) and a.term[0] in BOOLEAN:
        a = Const(run.truth(a))
    if isinstance(b, Sym) and b.term[0] in BOOLEAN:
        b = Const(run.truth(b))
    if isinstance(a, Const) and isinstance(b, Const):
        return a.value < b.value
    if run.known_eq(a, b):
        return False
    return run.decide(('less', a.key, b.key))


@model('zope.schema.vocabulary.SimpleTerm')
def simple_term(run, args, kw):
    r = run.opaque_call(ext('zope.schema.vocabulary.SimpleTerm'), args, kw)
    d = dict(zip(('value', 'token', 'title'), args), **kw)
    if isinstance(r, Sym) and 'value' in d and set(d) <= {
            'value', 'token', 'title'}:
        for k in ('value', 'token'):
            if k in d:
                run.store[(r.term, k)] = d[k]
        run.store[(r.term, 'title')] = d.get('title', NONE)
    return r


def sort_items(run, items, kw):
    key = kw.get('key')
    keys = []
    run.noraise += 1
    try:
        for x in items:
            if key is not None and not (isinstance(key, Const)):
                keys.append(run.call(key, [x], {}))
            else:
                keys.append(x)
    finally:
        run.noraise -= 1
    rev = kw.get('reverse')
    rev = bool(rev is not None and run.truth(rev))
    pairs = list(zip(keys, items))
    if run.order_sorts and not all(isinstance(k, Const) for k in keys):
        out = []
        for p in pairs:     # stable insertion, the order being decided
            i = len(out)
            while i and (decide_less(run, out[i - 1][0], p[0]) if rev else
                         decide_less(run, p[0], out[i - 1][0])):
                i -= 1
            out.insert(i, p)
        return List([x for _, x in out])
    if all(isinstance(k, Const) for k in keys):
        try:
            pairs.sort(key=lambda p: p[0].value, reverse=rev)
        except TypeError:
            run.raise_builtin('TypeError')
    else:
        # tuples are ordered by their constant first elements, as far as
        # these differ; the rest of the order is not known
        heads = []
        for k, _ in pairs:
            h = k.items[0] if isinstance(k, List) and k.kind == 'tuple' and \
                k.items else None
            heads.append(h.value if isinstance(h, Const) and
                         isinstance(h.value, (int, str)) else None)
        if pairs and None not in heads and len({
                isinstance(h, str) for h in heads}) == 1:
            order = sorted(range(len(pairs)), key=heads.__getitem__,
                           reverse=rev)
            pairs = [pairs[i] for i in order]
    out = List([x for _, x in pairs])
    out.order = (rev, [k.key for k, _ in pairs], [x.key for _, x in pairs])
    e = run.event('sort', 'sorted', [out])
    out.sortkeys = [(k, x) for k, x in pairs]
    e.data = (rev, out.sortkeys)
    return out


# --------------------------------------------------- methods of opaque values
SYM_METHODS = {}


def symmeth(*names):
    def deco(f):
        for n in names:
            SYM_METHODS[n] = f
        return f
    return deco


@symmeth('get')
def _sget(run, base, args, kw):
    if not 1 <= len(args) <= 2 or kw:
        return NotImplemented
    v = run.map_get(base, args[0])
    if v is None:
        return args[1] if len(args) > 1 else NONE
    return v


@symmeth('__getitem__')
def _sgetitem(run, base, args, kw):
    return run.getitem(base, args[0])


@symmeth('__contains__')
def _scontains(run, base, args, kw):
    return TRUE if run.contains(args[0], base) else FALSE


@symmeth('__setitem__')
def _ssetitem(run, base, args, kw):
    if len(args) != 2:
        return NotImplemented
    run.setitem(base, args[0], args[1])
    return NONE


@symmeth('__delitem__')
def _sdelitem(run, base, args, kw):
    run.delitem(base, args[0])
    return NONE


@symmeth('setdefault')
def _ssetdefault(run, base, args, kw):
    if not args:
        return NotImplemented
    v = run.map_get(base, args[0])
    if v is not None:
        return v
    v = args[1] if len(args) > 1 else NONE
    run.setitem(base, args[0], v)
    return v


@symmeth('pop')
def _spop(run, base, args, kw):
    if len(args) == 2:
        v = run.map_get(base, args[0])
        if v is None:
            return args[1]
        run.event('delitem', '__delitem__', [base, args[0]])
        run.store[('kv', base.key, args[0].key)] = _ABSENT
        run.facts.change(('has', base.key, args[0].key), False)
        return v
    if len(args) == 1 and not (isinstance(args[0], Const) and
                               isinstance(args[0].value, int)):
        v = run.map_get(base, args[0])
        if v is None:
            run.raise_builtin('KeyError', args[0])
        run.event('delitem', '__delitem__', [base, args[0]])
        run.store[('kv', base.key, args[0].key)] = _ABSENT
        run.facts.change(('has', base.key, args[0].key), False)
        return v
    return NotImplemented


@symmeth('update')
def _supdate(run, base, args, kw):
    e = run.event('update', 'update', [base] + args, kw)
    srcs = list(args)
    data = []
    for s in srcs:
        if isinstance(s, Inst) and getattr(s, 'dictval', None) is not None:
            s = s.dictval
        if isinstance(s, Dict):
            for lay in s.layers:
                if isinstance(lay, dict):
                    data += list(lay.values())
                else:
                    data.append(lay)
            for k, v in dict_items(run, s):
                run.store[('kv', base.key, k.key)] = v
        elif isinstance(s, (List, Gen, Wrapped)):
            for it in run.to_items(s):
                k, v = run.getitem(it, Const(0)), run.getitem(it, Const(1))
                data.append((k, v))
                run.store[('kv', base.key, k.key)] = v
        else:
            # opaque mappings: the event stands for all their entries
            data.append(s if isinstance(s, Sym) else None)
    for k, v in kw.items():
        if k != '**':
            data.append((Const(k), v))
            run.store[('kv', base.key, Const(k).key)] = v
        else:
            data.append(v)
    if e is not None:
        e.data = data
    return NONE


@symmeth('clear')
def _sclear(run, base, args, kw):
    run.event('clear', 'clear', [base])
    return NONE


@symmeth('__iter__')
def _siter(run, base, args, kw):
    return iter_(run, [base], {})


@symmeth('__next__')
def _snext(run, base, args, kw):
    return next_(run, [base], {})


@symmeth('__lt__', '__le__', '__eq__', '__ne__', '__gt__', '__ge__')
def _scmp(run, base, args, kw):
    return NotImplemented


# ----------------------------------------------------------------- builtins
@model('zope.security._proxy.getObject')
def m_getobject(run, args, kw):
    if len(args) == 1 and not kw:
        if args[0].key in run.proxies:
            return run.proxies[args[0].key][0]
        if args[0].key in run.bare:
            return args[0]
    return run.opaque_call(ext('zope.security._proxy.getObject'), args, kw)


@model('zope.security._proxy.getChecker')
def m_getchecker(run, args, kw):
    if len(args) == 1 and not kw:
        if args[0].key in run.proxies:
            return run.proxies[args[0].key][1]
        if args[0].key in run.bare:
            run.raise_builtin('TypeError')
    return run.opaque_call(ext('zope.security._proxy.getChecker'), args, kw)


@model('builtins.isinstance')
def isinstance_(run, args, kw):
    return TRUE if run.isinstance_(args[0], args[1]) else FALSE


@model('builtins.issubclass')
def issubclass_(run, args, kw):
    a, b = args
    cs = b.items if isinstance(b, List) else [b]
    for c in cs:
        if isinstance(a, Class):
            if any(run.class_key(k) == run.class_key(c) for k in run.mro(a)):
                return TRUE
        elif builtin_class(a) and builtin_class(c):
            if issubclass(builtin_class(a), builtin_class(c)):
                return TRUE
        elif run.decide(('subclass', a.key, run.class_key(c))):
            return TRUE
    return FALSE


@model('builtins.hasattr')
def hasattr_(run, args, kw):
    if isinstance(args[1], Const):
        return TRUE if run.hasattr_(args[0], args[1].value) else FALSE
    run.event('getattr', args[1], [args[0]])
    return TRUE if run.decide(('hasattr', args[0].key, args[1].key)) \
        else FALSE


@model('builtins.getattr')
def getattr__(run, args, kw):
    o, n = args[0], args[1]
    if not isinstance(n, Const):
        res = Sym('dynattr', o.key, n.key)
        if len(args) > 2:
            e = run.event('getattr', n, [o], result=res)
            if not run.decide(('hasattr', o.key, n.key)):
                return args[2]
            return res
        if isinstance(o, Inst):
            r = run.class_lookup(o.cls, '__getattribute__')
            if r is not None and isinstance(r[0], Func):
                return run.call(Bound(r[0], o), [n], {})
        e = run.event('getattr', n, [o], result=res)
        run.may_raise(e, ('getattr', o.key, n.key))
        return res
    if len(args) > 2:
        if isinstance(o, Sym) and o.term[0] != 'ext':
            return run.getattr_(o, n.value) if _has(run, o, n.value) \
                else args[2]
        run.handlers += 1
        try:
            v = run.getattr_opt(o, n.value)
        except PyRaise as e:
            run.handlers -= 1
            if run.exc_matches(e.exc, ext('builtins.AttributeError')):
                return args[2]
            raise
        run.handlers -= 1
        return args[2] if v is None else v
    return run.getattr_(o, n.value)


def _has(run, o, name):
    if (o.term, name) in run.store:
        return True
    if (o.term, name) in run.deleted:
        return False
    known = run.facts.get(('hasattr', o.term, name))
    if known is not None:
        return known
    e = run.event('getattr', name, [o])
    if run.handlers:
        # a property may raise something else than AttributeError
        n = run.handlers
        if not run.module_mode and not run.noraise and run.choose(2):
            exc = Sym('exc', ('getattr*', o.term, name))
            run.facts[('inst', exc.term, 'builtins.AttributeError')] = False
            if e:
                e.raised = exc
            run.raise_(exc)
    r = run.decide(('hasattr', o.term, name))
    return r


@model('builtins.setattr')
def setattr__(run, args, kw):
    o, n, v = args
    if isinstance(n, Const):
        run.setattr_(o, n.value, v)
    else:
        if isinstance(o, Inst):
            r = run.class_lookup(o.cls, '__setattr__')
            if r is not None and isinstance(r[0], Func):
                return run.call(Bound(r[0], o), [n, v], {})
        e = run.event('setattr', n, [o, v])
        run.may_raise(e, ('setattr', o.key, n.key))
    return NONE


@model('builtins.delattr')
def delattr__(run, args, kw):
    o, n = args
    if isinstance(n, Const):
        run.delattr_(o, n.value)
    else:
        if isinstance(o, Inst):
            r = run.class_lookup(o.cls, '__delattr__')
            if r is not None and isinstance(r[0], Func):
                return run.call(Bound(r[0], o), [n], {})
        e = run.event('delattr', n, [o])
        run.may_raise(e, ('delattr', o.key, n.key))
    return NONE


@model('builtins.type')
def type_(run, args, kw):
    if len(args) == 1:
        return run.type_of(args[0])
    name = args[0].value if isinstance(args[0], Const) else '?'
    c = Class(name, run.to_items(args[1]), run.frames[-1].module)
    if isinstance(args[2], Dict):
        for k, v in args[2].explicit():
            if isinstance(k, Const):
                c.ns[k.value] = v
    return c


@model('builtins.super')
def super_(run, args, kw):
    return SuperV(args[0], args[1])


@model('builtins.property')
def property_(run, args, kw):
    p = (args + [NONE] * 3)[:3]
    for i, k in enumerate(('fget', 'fset', 'fdel')):
        if k in kw:
            p[i] = kw[k]
    return Wrapped('property', *p)


@model('builtins.staticmethod')
def static_(run, args, kw):
    return Wrapped('staticmethod', args[0])


@model('builtins.classmethod')
def classm_(run, args, kw):
    return Wrapped('classmethod', args[0])


@model('builtins.object')
def object_(run, args, kw):
    return Inst(ext('builtins.object'))


@model('builtins.dict')
def dict_(run, args, kw):
    d = Dict()
    if args or kw:
        dict_update(run, d, args[0] if args else None, kw)
        if run.events and run.events[-1].kind == 'update':
            run.events.pop()
    return d


@model('builtins.dict.fromkeys')
def dict_fromkeys(run, args, kw):
    return dict_method(run, Dict(), 'fromkeys', args, kw)


@model('builtins.list')
def list_(run, args, kw):
    if args and run.module_mode and isinstance(args[0], Sym):
        return Sym('listof', args[0].key)
    return List(run.to_items(args[0]) if args else ())


@model('builtins.tuple')
def tuple_(run, args, kw):
    if args and run.module_mode and isinstance(args[0], Sym):
        return Sym('listof', args[0].key)
    return List(run.to_items(args[0]) if args else (), 'tuple')


@model('builtins.set', 'builtins.frozenset')
def set_(run, args, kw):
    return make_set(run, run.to_items(args[0]) if args else ())


@model('builtins.len')
def len_(run, args, kw):
    v = args[0]
    if isinstance(v, List):
        return Const(len(v.items))
    if isinstance(v, Dict) and v.closed():
        return Const(len(v.explicit()))
    if isinstance(v, Const):
        try:
            return Const(len(v.value))
        except TypeError:
            run.raise_builtin('TypeError')
    return run.unop('__len__', v)


@model('builtins.bool')
def bool_(run, args, kw):
    if not args:
        return FALSE
    return TRUE if run.truth(args[0]) else FALSE


@model('builtins.str')
def str_(run, args, kw):
    if not args:
        return Const('')
    v = args[0]
    if isinstance(v, Const):
        return Const(str(v.value))
    return run.unop('__str__', v)


@model('builtins.repr')
def repr_(run, args, kw):
    v = args[0]
    if isinstance(v, Const):
        return Const(repr(v.value))
    return run.unop('__repr__', v)


@model('builtins.int', 'builtins.float', 'builtins.complex')
def num_(run, args, kw):
    if not args:
        return Const(0)
    v = args[0]
    if isinstance(v, Const):
        try:
            return Const(int(v.value))
        except (ValueError, TypeError) as e:
            run.raise_builtin(type(e).__name__)
    return run.unop('__int__', v)


MODELS['builtins.float'] = lambda run, args, kw: (
    Const(0.0) if not args else
    (Const(float(args[0].value)) if isinstance(args[0], Const)
     and isinstance(args[0].value, (int, float))
     else run.unop('__float__', args[0])))
MODELS['builtins.complex'] = lambda run, args, kw: run.unop(
    '__complex__', args[0])


def _unary(name):
    def f(run, args, kw):
        return run.unop(name, args[0])
    return f


for _n, _o in (('abs', '__abs__'), ('hash', '__hash__'),
               ('bytes', '__bytes__'), ('round', '__round__'),
               ('format', '__format__'), ('dir', '__dir__'),
               ('vars', '__dict__'), ('hex', '__index__'),
               ('bin', '__index__'), ('oct', '__index__'),
               ('chr', '__index__')):
    MODELS['builtins.' + _n] = _unary(_o)


@model('builtins.divmod')
def divmod_(run, args, kw):
    return run.binop('__divmod__', args[0], args[1])


@model('builtins.pow')
def pow_(run, args, kw):
    if len(args) == 3:
        term = ('op', '__pow__') + tuple(a.key for a in args)
        res = Sym(*(term + (run.seq(term),)))
        e = run.event('op', '__pow__', args, result=res)
        run.may_raise(e, res.term)
        return res
    return run.binop('__pow__', args[0], args[1])


@model('builtins.iter')
def iter_(run, args, kw):
    v = args[0]
    if isinstance(v, List):
        return Wrapped('iterator', List(v.items), v.kind)
    if isinstance(v, (Gen, Wrapped)):
        if isinstance(v, Wrapped) and v.what == 'lazyiter':
            return Wrapped('iterator', List(run.to_items(v)))
        return v
    if isinstance(v, Dict):
        return Wrapped('iterator', List(run.to_items(v)), 'dict_key')
    if isinstance(v, Sym):
        e = run.event('op', '__iter__', [v])
        res = Sym('iterof', v.key)
        if e:
            e.result = res
        run.may_raise(e, res.term)
        return res
    return run.unop('__iter__', v)


@model('builtins.next')
def next_(run, args, kw):
    v = args[0]
    if isinstance(v, Gen):
        if v.cache is None:
            run.touch(v)
            v.cache = run.to_items(v)
        st = v.cache
        if st:
            run.touch(v)
            v.cache = st[1:]
            return st[0]
        if len(args) > 1:
            return args[1]
        run.raise_builtin('StopIteration')
    if isinstance(v, Wrapped) and v.what == 'lazyiter':
        items = run.to_items(v)
        if items:
            return items[0]
        if len(args) > 1:
            return args[1]
        run.raise_builtin('StopIteration')
    if isinstance(v, Wrapped) and v.what == 'iterator':
        st = v.parts[0]
        if st.items:
            run.touch(st)
            return st.items.pop(0)
        if len(args) > 1:
            return args[1]
        run.raise_builtin('StopIteration')
    if isinstance(v, Sym) and v.term[0] == 'iterof':
        base = Sym(*v.term[1])
        els = run.elems(base)
        n = run.seq(('next', v.key))
        if n < len(els):
            return els[n]
        if len(args) > 1:
            return args[1]
        run.raise_builtin('StopIteration')
    return run.unop('__next__', v)


@model('builtins.enumerate')
def enumerate_(run, args, kw):
    start = args[1].value if len(args) > 1 else (
        kw['start'].value if 'start' in kw else 0)
    return List([tup(Const(i), x) for i, x in
                 enumerate(run.to_items(args[0]), start)])


@model('builtins.zip', 'itertools.zip_longest')
def zip_(run, args, kw):
    ls = [run.to_items(a) for a in args]
    return List([tup(*t) for t in zip(*ls)])


@model('builtins.map')
def map_(run, args, kw):
    if len(args) == 2:
        def go(cb):
            run.iterate(args[1], lambda x: cb(run.call(args[0], [x], {})))
        return Wrapped('lazyiter', go)
    ls = [run.to_items(a) for a in args[1:]]
    return List([run.call(args[0], list(t), {}) for t in zip(*ls)])


@model('builtins.filter', )
def filter_(run, args, kw):
    def go(cb):
        def one(x):
            t = x if isinstance(args[0], Const) and args[0].value is None \
                else run.call(args[0], [x], {})
            if run.truth(t):
                cb(x)
        run.iterate(args[1], one)
    return Wrapped('lazyiter', go)


@model('builtins.any', 'builtins.all')
def any_(run, args, kw):
    raise NotImplementedError


def _anyall(want):
    def f(run, args, kw):
        found = []

        def one(x):
            if run.truth(x) == want:
                found.append(1)
                raise _Stop()
        try:
            run.iterate(args[0], one)
        except _Stop:
            pass
        return Const(bool(found) == want)
    return f


MODELS['builtins.any'] = _anyall(True)
MODELS['builtins.all'] = _anyall(False)


@model('builtins.sorted')
def sorted_(run, args, kw):
    return sort_items(run, run.to_items(args[0]), kw)


@model('builtins.reversed')
def reversed_(run, args, kw):
    return List(list(reversed(run.to_items(args[0]))))


@model('builtins.range')
def range_(run, args, kw):
    if all(isinstance(a, Const) for a in args):
        return List([Const(i) for i in range(*[a.value for a in args])])
    return Sym('call', ('ext', 'builtins.range'),
               tuple(a.key for a in args), 0)


@model('itertools.chain')
def chain_(run, args, kw):
    def go(cb):
        for a in args:
            run.iterate(a, cb)
    return Wrapped('lazyiter', go)


@model('itertools.chain.from_iterable')
def chainfi_(run, args, kw):
    def go(cb):
        run.iterate(args[0], lambda x: run.iterate(x, cb))
    return Wrapped('lazyiter', go)


@model('builtins.callable')
def callable_(run, args, kw):
    v = args[0]
    if isinstance(v, (Func, Class, Bound, BMeth)):
        return TRUE
    if isinstance(v, (Const, List, Dict)):
        return FALSE
    return TRUE if run.decide(('callable', v.key)) else FALSE


@model('builtins.globals')
def globals_(run, args, kw):
    return run.scope_dict(run.frames[-1].module)


@model('builtins.id')
def id_(run, args, kw):
    return Sym('call', ('ext', 'builtins.id'), (args[0].key,), 0)


@model('builtins.print')
def print_(run, args, kw):
    run.event('call', ext('builtins.print'), args, kw)
    return NONE


@model('builtins.__import__', 'importlib.import_module')
def import_(run, args, kw):
    if isinstance(args[0], Const):
        return run.import_(args[0].value, run.frames[-1])
    return run.opaque_call(ext('builtins.__import__'), args, kw)


# ------------------------------------------------------------------ library
@model('functools.update_wrapper')
def update_wrapper(run, args, kw):
    run.copy_func_meta(args[1], args[0])
    return args[0]


@model('functools.wraps')
def wraps(run, args, kw):
    return Wrapped('wraps', args[0])


@model('functools.partial', 'functools.partialmethod')
def partial(run, args, kw):
    return Wrapped('partial', args[0], list(args[1:]), dict(kw))


@model('functools.reduce')
def reduce_(run, args, kw):
    items = run.to_items(args[1])
    if len(args) > 2:
        acc = args[2]
    elif items:
        acc = items.pop(0)
    else:
        run.raise_builtin('TypeError')
    for x in items:
        acc = run.call(args[0], [acc, x], {})
    return acc


@model('functools.lru_cache', 'functools.cache')
def lru(run, args, kw):
    if args and isinstance(args[0], (Func, Bound)):
        return Wrapped('cached', args[0])
    return Wrapped('pyfunc', lambda r, a, k: Wrapped('cached', a[0]))


@model('operator.attrgetter')
def attrgetter(run, args, kw):
    return Wrapped('attrgetter', [a.value for a in args])


@model('operator.itemgetter')
def itemgetter(run, args, kw):
    return Wrapped('itemgetter', *args)


@model('operator.methodcaller')
def methodcaller(run, args, kw):
    return Wrapped('methodcaller', args[0].value, list(args[1:]), dict(kw))


@model('contextlib.contextmanager')
def contextmanager(run, args, kw):
    fn = args[0]

    def mk(r, a, k):
        return Wrapped('gencm', r.call(fn, a, k))
    return Wrapped('pyfunc', mk, fn)


@model('contextlib.suppress')
def suppress(run, args, kw):
    return Wrapped('suppress', *args)


@model('contextlib.ExitStack')
def exitstack(run, args, kw):
    return Wrapped('exitstack', List())


@model('threading.local')
def tlocal(run, args, kw):
    return Inst(ext('threading.local'))


@model('sys._getframe', 'inspect.currentframe')
def getframe(run, args, kw):
    n = args[0].value if args and isinstance(args[0], Const) else 0
    i = len(run.frames) - 1
    f = run.real_frame(i)
    for _ in range(n):
        if f is None:
            break
        i = run.frames.index(f) - 1
        f = run.real_frame(i)
    return FrameV(f)


@model('platform.python_implementation')
def pyimpl(run, args, kw):
    return Const('CPython')


@model('os.getenv')
def getenv(run, args, kw):
    return dict_method(run, run.world.consts['os.environ'], 'get', args, kw)


@model('os.environ')
def environ(run, args, kw):
    run.raise_builtin('TypeError')


# operator module -----------------------------------------------------------
_BIN = ('add sub mul truediv floordiv mod pow lshift rshift and or xor '
        'matmul').split()


def _mk_bin(op, inplace):
    def f(run, args, kw):
        if len(args) != 2 or kw:
            run.raise_builtin('TypeError')
        return run.binop(f'__{op}__', args[0], args[1], inplace)
    return f


for _op in _BIN:
    for _nm in (_op, f'__{_op}__', _op + '_'):
        MODELS['operator.' + _nm] = _mk_bin(_op, False)
    for _nm in ('i' + _op, f'__i{_op}__'):
        MODELS['operator.' + _nm] = _mk_bin(_op, True)
for _op in ('neg', 'pos', 'abs', 'invert', 'index'):
    for _nm in (_op, f'__{_op}__'):
        MODELS['operator.' + _nm] = _unary(f'__{_op}__')
MODELS['operator.length_hint'] = _unary('__length_hint__')
MODELS['operator.truth'] = bool_
MODELS['operator.not_'] = lambda run, a, kw: run.not_(a[0])
MODELS['operator.getitem'] = lambda run, a, kw: run.getitem(a[0], a[1])


@model('operator.setitem')
def osetitem(run, args, kw):
    run.setitem(*args)
    return NONE


@model('operator.delitem')
def odelitem(run, args, kw):
    run.delitem(*args)
    return NONE


@model('operator.contains')
def ocontains(run, args, kw):
    return TRUE if run.contains(args[1], args[0]) else FALSE


@model('operator.is_')
def ois(run, args, kw):
    return run.cmp('is', args[0], args[1])


@model('operator.is_not')
def oisnot(run, args, kw):
    return run.not_(run.cmp('is', args[0], args[1]))


def _mk_cmp(cls):
    def f(run, args, kw):
        return run.compare(cls(), args[0], args[1])
    return f


import ast as _ast  # noqa: E402
for _op, _c in (('lt', _ast.Lt), ('le', _ast.LtE), ('eq', _ast.Eq),
                ('ne', _ast.NotEq), ('ge', _ast.GtE), ('gt', _ast.Gt)):
    MODELS['operator.' + _op] = _mk_cmp(_c)
    MODELS[f'operator.__{_op}__'] = _mk_cmp(_c)


# methods reached through a builtin class ------------------------------------
def _on_builtin(kind):
    def f(run, args, kw, name):
        if not args:
            run.raise_builtin('TypeError')
        o, rest = args[0], args[1:]
        if name == '__new__':
            if isinstance(o, Class):
                n = Inst(o)
                if kind == 'dict':
                    n.dictval = Dict()
                bcs = [builtin_class(k) for k in run.mro(o)]
                if any(b and issubclass(b, BaseException) for b in bcs):
                    n.args = list(rest)
                return n
            return run.opaque_call(ext(f'builtins.{kind}.{name}'), args, kw)
        if kind == 'dict':
            d = o if isinstance(o, Dict) else getattr(o, 'dictval', None)
            if d is None and isinstance(o, Inst) and name in (
                    '__setitem__', '__delitem__', 'update', 'clear',
                    '__getitem__', 'get', '__contains__', 'setdefault',
                    'pop', '__init__'):
                d = o.dictval = Dict()
                d.layers.insert(0, Sym('attr', o.key, 'contents'))
            if name == '__init__' and d is not None:
                if rest or kw:
                    dict_update(run, d, rest[0] if rest else None, kw, o)
                return NONE
            if d is not None:
                return dict_method(run, d, name, rest, kw,
                                   o if o is not d else None)
            if isinstance(o, Sym) and name in SYM_METHODS:
                r = SYM_METHODS[name](run, o, rest, kw)
                if r is not NotImplemented:
                    return r
        if kind in ('list', 'tuple', 'set', 'frozenset') and \
                isinstance(o, List):
            return list_method(run, o, name, rest, kw)
        if kind == 'str' and isinstance(o, Const):
            return const_method(run, o, name, rest, kw)
        return run.opaque_call(ext(f'builtins.{kind}.{name}'), args, kw)
    return f


for _k in ('dict', 'list', 'tuple', 'set', 'frozenset', 'str'):
    MODELS[f'builtins.{_k}.*'] = _on_builtin(_k)


def _object_method(run, args, kw, name):
    o, rest = args[0], args[1:]
    if name == '__new__':
        n = Inst(o)
        if isinstance(o, Class):
            bcs = [builtin_class(k) for k in run.mro(o)]
            if any(b and issubclass(b, BaseException) for b in bcs):
                n.args = list(rest)
        return n
    if name == '__init__':
        return NONE
    if name in ('__init_subclass__', '__subclasshook__'):
        return NONE
    if isinstance(o, Inst):
        if is_proxy_inst(run, o):
            return proxy_base(run, args, kw, name, 'builtins.object')
        if name == '__getattribute__' and isinstance(rest[0], Const):
            v = run.generic_getattr(o, rest[0].value)
            if v is None:
                run.raise_builtin('AttributeError', rest[0])
            return v
        if name == '__setattr__' and isinstance(rest[0], Const):
            run.generic_setattr(o, rest[0].value, rest[1])
            return NONE
        if name == '__delattr__' and isinstance(rest[0], Const):
            if rest[0].value in o.attrs:
                run.touch(o)
                del o.attrs[rest[0].value]
            return NONE
    if name == '__getattribute__':
        return getattr__(run, args, kw)
    if name == '__setattr__':
        return setattr__(run, args, kw)
    if name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
                '__hash__', '__repr__', '__str__'):
        e = run.event('op', 'object.' + name, args)
        return Sym('op', 'object.' + name, *[a.key for a in args])
    return run.opaque_call(ext('builtins.object.' + name), args, kw)


MODELS['builtins.object.*'] = _object_method


def _exc_method(run, args, kw, name):
    o = args[0]
    if name == '__init__':
        if isinstance(o, Inst):
            o.args = list(args[1:])
        return NONE
    if name == '__new__':
        n = Inst(o)
        n.args = list(args[1:])
        return n
    return run.opaque_call(ext('builtins.Exception.' + name), args, kw)


for _n in dir(_b):
    _c = getattr(_b, _n)
    if isinstance(_c, type) and issubclass(_c, BaseException):
        MODELS[f'builtins.{_n}.*'] = _exc_method


# --- zope.proxy's Python proxy base class -----------------------------------
PROXY_BASES = ('zope.proxy.PyProxyBase', 'zope.proxy.AbstractPyProxyBase')


def is_proxy_inst(run, o):
    return isinstance(o, Inst) and isinstance(o.cls, Class) and any(
        is_ext(k) and k.term[1] in PROXY_BASES for k in run.mro(o.cls))


def slot_get(run, o, name):
    if name not in o.attrs:
        run.touch(o)
        o.attrs[name] = Sym('attr', o.key, name)
    return o.attrs[name]


def proxy_slots(run, cls):
    out = {'_wrapped'}
    for k in run.mro(cls):
        if isinstance(k, Class):
            s = k.ns.get('__slots__')
            if isinstance(s, List):
                out |= {x.value for x in s.items if isinstance(x, Const)}
            elif isinstance(s, Const):
                out.add(s.value)
    return out


def proxy_base(run, args, kw, name, base='zope.proxy.PyProxyBase'):
    """PyProxyBase.<name>: performs the operation <name> on the wrapped
    object (zope.proxy, trusted)"""
    if name == '__new__':
        cls = args[0]
        o = Inst(cls)
        fr = Frame(Scope('zope.proxy.__new__'), run.frames[-1].module if
                   run.frames else None, qual='zope.proxy.PyProxyBase.__new__')
        v = args[1] if len(args) > 1 else NONE
        fr.scope.ns.update(cls=cls, inst=o, value=v)
        if not is_ext(cls, 'zope.proxy.PyProxyBase'):
            run.frames.append(fr)
            try:
                run.setattr_(o, '_wrapped', v)
            finally:
                run.frames.pop()
        return o
    o, rest = args[0], args[1:]
    if not isinstance(o, Inst):
        return run.opaque_call(ext(base + '.' + name), args, kw)
    if name == '__init__':
        if rest and base != 'builtins.object':
            fr = Frame(Scope('zope.proxy.__init__'), run.frames[-1].module,
                       qual='zope.proxy.PyProxyBase.__init__')
            fr.scope.ns.update(self=o, obj=rest[0])
            run.frames.append(fr)
            try:
                run.setattr_(o, '_wrapped', rest[0])
            finally:
                run.frames.pop()
        return NONE
    slots = proxy_slots(run, o.cls)
    if name in ('__getattribute__', '__setattr__', '__delattr__',
                '__getattr__'):
        n = rest[0]
        for s in sorted(slots):
            if run.decide_eq(n, Const(s)):
                if name == '__getattribute__':
                    return slot_get(run, o, s)
                if name == '__setattr__':
                    run.event('slotset', s, [o, rest[1]])
                    run.touch(o)
                    o.attrs[s] = rest[1]
                    return NONE
                if name == '__delattr__':
                    run.event('slotdel', s, [o])
                    return NONE
        w = slot_get(run, o, '_wrapped')
        nm = n.value if isinstance(n, Const) else n
        if name in ('__getattribute__', '__getattr__'):
            res = Sym('attr', w.key, nm) if isinstance(nm, str) else \
                Sym('dynattr', w.key, n.key)
            if isinstance(nm, str) and nm in ('__reduce__', '__reduce_ex__'):
                res = Bound(ext(base + '.' + nm), o)
                return res
            e = run.event('getattr', nm, [w], result=res)
            run.may_raise(e, ('getattr', w.key, n.key))
            return res
        if name == '__setattr__':
            e = run.event('setattr', nm, [w, rest[1]])
            run.may_raise(e, ('setattr', w.key, n.key))
            return NONE
        e = run.event('delattr', nm, [w])
        run.may_raise(e, ('delattr', w.key, n.key))
        return NONE
    w = slot_get(run, o, '_wrapped')
    kwt = tuple(('kw', k, v.key) for k, v in sorted(kw.items()))
    term = ('op', name, w.key) + tuple(a.key for a in rest) + kwt
    res = Sym(*(term + (run.seq(term),)))
    e = run.event('op', name, [w] + rest, kw, result=res)
    run.may_raise(e, res.term)
    if name.startswith('__i') and name in INPLACE_NAMES:
        # zope.proxy replaces the wrapped object by the result
        run.event('slotset', '_wrapped', [o, res])
        run.touch(o)
        o.attrs['_wrapped'] = res
        return o
    return res


INPLACE_NAMES = {'__iadd__', '__isub__', '__imul__', '__itruediv__',
                 '__ifloordiv__', '__imod__', '__ilshift__', '__irshift__',
                 '__iand__', '__ixor__', '__ior__', '__ipow__'}
for _n in PROXY_BASES:
    MODELS[_n + '.*'] = proxy_base


CONSTS['sys.platform'] = Const('linux')
CONSTS['sys.maxsize'] = Const(2 ** 63 - 1)
CONSTS['sys.version_info'] = tup(Const(3), Const(12), Const(3))
