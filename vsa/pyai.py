"""Path-sensitive interprocedural value-flow analysis of Python source.

An abstract interpreter over the syntax tree.  Values are origins (pyvals);
branches on something the analysis does not know are followed both ways, the
assumption being recorded as a fact, and facts that contradict each other
literally (x is None / x is not None, x == 'a' / x in ('b',), ...) prune the
path.  There is no constraint solver and nothing of the analysed program is
executed.  The result for an entry point is the set of its paths, each with
its facts, the ordered events it has on opaque objects, and its outcome.
"""
import ast
import functools
import builtins as _b
import os

from .pyvals import *  # noqa
from .pyvals import V


class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""


class ImportFails(AnalysisError):
    """a module of the package cannot be imported"""


class PyRaise(Exception):
    def __init__(self, exc, site=None):
        self.exc = exc
        self.site = site


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Truncated(Exception):
    """path abandoned: loop bound"""


def function_like(w):
    """a decorated function that binds like a function does"""
    return (w.what == 'pyfunc' and len(w.parts) > 1) or w.what == 'cached'


class Infeasible(Exception):
    pass


class Event:
    __slots__ = ('kind', 'name', 'args', 'kw', 'result', 'site', 'idx',
                 'raised', 'stack', 'data')

    def __init__(self, kind, name, args, kw, result, site, idx, stack):
        self.kind = kind
        self.name = name
        self.args = args
        self.kw = kw
        self.result = result
        self.site = site
        self.idx = idx
        self.raised = None
        self.stack = stack
        self.data = None

    def __repr__(self):
        kw = ''.join(f', {k}={v!r}' for k, v in (self.kw or {}).items())
        n = self.name if isinstance(self.name, str) else repr(self.name)
        s = f"{self.kind} {n}({', '.join(map(repr, self.args))}{kw})"
        if self.raised is not None:
            s += f' !raises {self.raised!r}'
        return s + f'  [{self.site}]'


class Site:
    __slots__ = ('path', 'line', 'func')

    def __init__(self, path, line, func):
        self.path, self.line, self.func = path, line, func

    def __repr__(self):
        return f'{self.path}:{self.line} in {self.func}'


class Frame:
    __slots__ = ('scope', 'module', 'parent', 'func', 'locals', 'globals_',
                 'nonlocals', 'is_class', 'cls', 'yield_cb', 'line', 'qual',
                 'first_arg', 'handling', 'comp')

    def __init__(self, scope, module, parent=None, func=None, locals_=(),
                 is_class=False, qual=''):
        self.scope = scope
        self.module = module
        self.parent = parent
        self.func = func
        self.locals = locals_
        self.globals_ = set()
        self.nonlocals = set()
        self.is_class = is_class
        self.cls = None
        self.yield_cb = None
        self.line = 0
        self.qual = qual
        self.first_arg = None
        self.handling = []
        self.comp = False


class Facts(dict):
    """What a path found out; `first` remembers what was found out before
    the path changed it itself (None: changed without looking)."""

    def __init__(self):
        dict.__init__(self)
        self.first = {}

    def __setitem__(self, k, v):
        self.first.setdefault(k, v)
        dict.__setitem__(self, k, v)

    def change(self, k, v):
        self.first.setdefault(k, None)
        if v is None:
            self.pop(k, None)
        else:
            dict.__setitem__(self, k, v)


class Path:
    def __init__(self, run, kind, value, site):
        self.facts = dict(run.facts)
        # what was found out about the state before the path changed it
        self.first = dict(run.facts.first)
        self.dom = dict(run.dom)
        self.events = run.events
        self.store = dict(run.store)
        self.kind = kind            # 'return' 'raise' 'truncated'
        self.value = value
        self.site = site
        self.run = run
        self.info = {}
        # what the objects the path changed look like at its end
        self.final = {uid: (obj, obj.snapshot())
                      for uid, (obj, _) in run.journal.items()}

    def dict_layers(self, d):
        return self.final[d.uid][1] if d.uid in self.final else d.layers

    def fresh(self, o):
        """made on this path"""
        return o.uid > self.run.uid0

    def dict_items(self, d):
        """[(key, value)] of a dict without opaque parts, else None"""
        out = {}
        for lay in self.dict_layers(d):
            if not isinstance(lay, dict):
                return None
            out.update(lay)
        return list(out.values())

    def list_items(self, v):
        return self.final[v.uid][1][0] if v.uid in self.final else v.items

    def attrs(self, o):
        return self.final[o.uid][1] if o.uid in self.final else o.attrs

    def attr(self, o, name):
        """value of an attribute of an analysed object at the end"""
        a = self.attrs(o)
        v = a.get(name)
        return None if isinstance(v, _Absent) else v

    def __repr__(self):
        return f'<path {self.kind} {self.value!r}>'

    def describe(self):
        out = ['facts:']
        for a, v in self.facts.items():
            out.append(f"   {'' if v else 'not '}{show(a)}")
        for t, (ins, nots) in self.dom.items():
            if ins is not None:
                out.append(f"   {show(t)} in {{{', '.join(sorted(repr(x[2]) for x in ins))}}}")
            elif nots:
                out.append(f"   {show(t)} not in {{{', '.join(sorted(repr(x[2]) for x in nots))}}}")
        out.append('events:')
        for e in self.events:
            out.append(f'   {e!r}')
        out.append(f'outcome: {self.kind} {self.value!r} [{self.site}]')
        return '\n'.join(out)

    # -- queries used by the rules ------------------------------------
    def fact(self, atom):
        return self.facts.get(atom)

    def is_const(self, v, c):
        """True/False/None(unknown): the value v is the constant c"""
        if isinstance(v, Const):
            return type(v.value) is type(c) and v.value == c
        if isinstance(v, Obj) or isinstance(v, (Bound, BMeth, Wrapped)):
            return False
        k = Const(c).key
        ins, nots = self.dom.get(v.key, (None, frozenset()))
        if ins is not None:
            if ins == frozenset([k]):
                return True
            if k not in ins:
                return False
        if k in nots:
            return False
        return self.run.query_is_const(v, k)

    def excludes(self, v, consts):
        return all(self.is_const(v, c) is False for c in consts)

    def truthy(self, v):
        return self.run.known_truth(v)


SAFE_STR = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'startswith',
            'endswith', 'replace', 'title', 'capitalize', 'isidentifier',
            'encode', 'decode', 'isalpha', 'isupper', 'islower', 'find',
            'removeprefix', 'removesuffix', 'count', 'index', 'zfill'}

BINOPS = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__',
          ast.Div: '__truediv__', ast.FloorDiv: '__floordiv__',
          ast.Mod: '__mod__', ast.Pow: '__pow__', ast.LShift: '__lshift__',
          ast.RShift: '__rshift__', ast.BitOr: '__or__',
          ast.BitXor: '__xor__', ast.BitAnd: '__and__',
          ast.MatMult: '__matmul__'}
UNOPS = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}
CMPOPS = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__',
          ast.GtE: '__ge__', ast.Eq: '__eq__', ast.NotEq: '__ne__'}


def builtin_class(v):
    """the real builtin class an ext value stands for (literals only)"""
    if is_ext(v) and v.term[1].startswith('builtins.'):
        c = getattr(_b, v.term[1][9:], None)
        if isinstance(c, type):
            return c
    return None


class World:
    """All modules of the package, evaluated under one configuration."""

    def __init__(self, root, package='zope.security', env=None, only=None,
                 c_ext=True):
        self.root = root
        self.package = package
        self.env = env or {}
        self.modules = {}
        self.loading = []
        self.c_ext = c_ext
        self.asts = {}
        self.functions_analysed = set()
        self.degraded = 0       # explorations repeated with shorter loops
        self.run = Run(self, [], module_mode=True)
        from . import pymodels
        self.models = pymodels.MODELS
        self.consts = dict(pymodels.CONSTS)
        self.consts['os.environ'] = Dict(
            [(Const(k), Const(v)) for k, v in self.env.items()],
            label='os.environ')
        self.module_errors = []
        self.cleanups = []
        self.module_calls = {}  # result key -> arguments, at import
        self.declared = []      # (how, object, interfaces), at import
        base = os.path.join(root, *package.split('.'))
        names = sorted(f[:-3] for f in os.listdir(base) if f.endswith('.py'))
        self.load(package)
        for n in names if only is None else only:
            if n != '__init__':
                self.load(package + '.' + n)
        self.run.module_mode = False
        self.uid_end = Obj.counter[0]
        self.late = {}
        from .state import open_state
        open_state(self)

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def is_ours(self, name):
        if name != self.package and not name.startswith(self.package + '.'):
            return False
        return os.path.exists(self.path_of(name))

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.path_of(name)
        try:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        except OSError as e:
            raise AnalysisError(f'cannot read module {name}: {e}')
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisError(f'{path}: {e}')
        m = Module(name, os.path.relpath(path, os.path.dirname(self.root)))
        self.modules[name] = m
        self.asts[name] = tree
        m.ns['__name__'] = Const(name)
        m.ns['__file__'] = Const(path)
        m.ns['__doc__'] = Const(ast.get_docstring(tree))
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            if parent in self.modules:
                self.modules[parent].ns.setdefault(leaf, m)
        fr = Frame(m, m, qual='<module>')
        self.run.frames.append(fr)
        try:
            self.run.exec_block(tree.body, fr)
        except PyRaise as e:
            raise ImportFails(
                f'evaluating module {name} raises {e.exc!r} [{e.site}]')
        finally:
            self.run.frames.pop()
        return m

    def get(self, dotted):
        """value of a global such as 'checker.CheckerPy' or
        'checker.CheckerPy.check' (method)"""
        parts = dotted.split('.')
        m = self.modules.get(f'{self.package}.{parts[0]}')
        if m is None:
            raise AnalysisError(f'anchor vanished: module {parts[0]}')
        v = m
        for p in parts[1:]:
            if isinstance(v, Module):
                if p not in v.ns:
                    raise AnalysisError(f'anchor vanished: {dotted}')
                v = v.ns[p]
            elif isinstance(v, Class):
                r = self.run.class_lookup(v, p)
                if r is None:
                    raise AnalysisError(f'anchor vanished: {dotted}')
                v = r[0]
            else:
                raise AnalysisError(f'anchor vanished: {dotted}')
        return v

    def explore(self, thunk, limit=20000, K=2, setup=None):
        """All paths of thunk(run).  thunk returns a value."""
        paths = []
        stack = [[]]
        n = 0
        while stack:
            dec = stack.pop()
            n += 1
            if n > (8000 if K > 2 else limit):
                if K > 1:       # follow fewer elements of opaque loops
                    self.degraded += 1
                    return self.explore(thunk, limit, K - 1, setup)
                raise AnalysisError(f'more than {limit} paths')
            run = Run(self, dec)
            run.K = K
            try:
                try:
                    v = thunk(run)
                    p = Path(run, 'return', v, run.last_site)
                except PyRaise as e:
                    p = Path(run, 'raise', e.exc, e.site)
                except Truncated:
                    p = Path(run, 'truncated', NONE, run.last_site)
                except Infeasible:
                    p = None
                except RecursionError:
                    raise AnalysisError('recursion too deep')
                if p is not None:
                    if run.observe:
                        run.observe(p)
                    paths.append(p)
            finally:
                run.rollback()
            for i in range(len(dec), len(run.trace)):
                for alt in range(1, run.arity[i]):
                    stack.append(run.trace[:i] + [alt])
        return paths


BOOLEAN = ('cmp', 'instq', 'hasq', 'not', 'gt')


def singleton(v):
    return isinstance(v, Const) and (v.value is None or v.value is True or
                                     v.value is False)


def unique(v):
    """equal to this constant means being it"""
    return singleton(v) or not isinstance(
        v.value, (str, bytes, int, float, complex, tuple, frozenset))


def eq_atom(a, b):
    return ('eq',) + tuple(sorted((a.key, b.key), key=repr))


@functools.lru_cache(None)
def from_outside(term):
    """an origin that depends on what the analysed function is given"""
    return term[:1] == ('param',) or any(
        isinstance(x, tuple) and from_outside(x) for x in term)


def tls_item(d, k):
    return isinstance(d, Wrapped) and d.what == 'tlsdict' and \
        isinstance(k, Const) and isinstance(k.value, str)


class Run:
    """One path."""

    def __init__(self, world, decisions, module_mode=False):
        self.world = world
        self.uid0 = Obj.counter[0]
        self.proxies = {}       # opaque values known to be proxies
        self.bare = set()       # opaque values known not to be
        self.decisions = decisions
        self.trace = []
        self.arity = []
        self.module_mode = module_mode
        self.facts = Facts()
        self.dom = {}
        self.events = []
        self.store = {}
        self.deleted = set()
        self.journal = {}
        self.frames = []
        self.handlers = 0
        self.handling = []
        self.calls = {}
        self.last_site = None
        self.K = 2
        self.depth = 0
        self.cut_recursions = 0
        self.order_sorts = True    # decide the order of opaque sort keys
        self.observe = None
        self.fresh = 0
        self.noraise = 0
        self.quiet = 0
        self.stubs = {}
        self.results = {}   # (function key, argument keys) -> value

    # ---------------------------------------------------------- basics
    def choose(self, n):
        i = len(self.trace)
        c = self.decisions[i] if i < len(self.decisions) else 0
        self.trace.append(c)
        self.arity.append(n)
        if len(self.trace) > 400:
            raise Truncated()
        return c

    def touch(self, obj):
        if not self.module_mode and obj.uid not in self.journal:
            self.journal[obj.uid] = (obj, obj.snapshot())

    def rollback(self):
        for obj, s in self.journal.values():
            obj.restore(s)
        self.journal = {}

    def site(self):
        if not self.frames:
            return Site('<entry>', 0, '<entry>')
        f = self.frames[-1]
        return Site(f.module.path, f.line, f.qual)

    def event(self, kind, name, args=(), kw=None, result=None):
        if self.module_mode:
            return None
        s = self.site()
        stack = tuple(f.qual for f in self.frames)
        e = Event(kind, name, list(args), kw or {}, result, s,
                  len(self.events), stack)
        self.events.append(e)
        self.last_site = s
        return e

    def seq(self, term):
        n = self.calls.get(term, 0)
        self.calls[term] = n + 1
        return n

    def raise_(self, exc):
        raise PyRaise(exc, self.site())

    def raise_builtin(self, name, *args):
        e = Inst(ext('builtins.' + name))
        e.args = list(args)
        self.raise_(e)

    def may_raise(self, ev, term):
        """an opaque operation: it may raise anything, which matters if
        something in the analysed code would notice"""
        if self.module_mode or self.noraise:
            return
        if self.handlers > 0:
            if self.choose(2):
                exc = Sym('exc', term)
                if ev is not None:
                    ev.raised = exc
                self.raise_(exc)

    # ----------------------------------------------------------- facts
    def dom_of(self, key):
        return self.dom.get(key, (None, frozenset()))

    def query_is_const(self, v, k):
        if isinstance(v, Sym):
            t = v.term
            if t[0] in ('ext', 'exc', 'type'):
                return False
            if self.facts.get(('truthy', t)) is True and not k[2]:
                return False
            for (a, val) in self.facts.items():
                if val and a[0] == 'is' and t in a[1:]:
                    o = a[1] if a[2] == t else a[2]
                    if o[0] == 'obj' or o[0] == 'ext':
                        return False
                if val and a[0] == 'inst' and a[1] == t:
                    c = _const_is_instance(k, a[2])
                    if c is False:
                        return False
        return None

    def decide_in(self, v, keys):
        """is Sym v equal to one of the constant keys"""
        keys = frozenset(keys)
        ins, nots = self.dom_of(v.key)
        if ins is not None:
            if ins <= keys:
                return True
            if not (ins & keys):
                return False
        else:
            keys = keys - nots
            keys = frozenset(k for k in keys
                             if self.query_is_const(v, k) is not False)
            if not keys:
                return False
        if self.module_mode:
            return False
        if self.choose(2) == 0:
            new = keys if ins is None else ins & keys
            self.dom[v.key] = (frozenset(new), frozenset())
            return True
        if ins is None:
            self.dom[v.key] = (None, nots | keys)
        else:
            self.dom[v.key] = (ins - keys, frozenset())
        return False

    def decide(self, atom):
        if atom in self.facts:
            return self.facts[atom]
        if self.module_mode:
            return False
        r = self.choose(2) == 0
        self.facts[atom] = r
        return r

    def assume(self, atom, value):
        if self.facts.get(atom, value) != value:
            raise Infeasible()
        self.facts[atom] = value

    # ----------------------------------------------------------- truth
    def known_truth(self, v):
        if isinstance(v, Const):
            return bool(v.value)
        if isinstance(v, Sym):
            t = v.term
            if t in self.facts:
                return self.facts[t]
            if ('truthy', t) in self.facts:
                return self.facts[('truthy', t)]
            if t[0] == 'ext':
                return True
            ins, nots = self.dom_of(t)
            if ins is not None:
                s = {bool(k[2]) for k in ins}
                if len(s) == 1:
                    return s.pop()
            if t[0] == 'not':
                r = self.known_truth(Sym(*t[1]))
                return None if r is None else not r
            return None
        if isinstance(v, Dict):
            if v.explicit():
                return True
            if v.closed():
                return False
            return None
        if isinstance(v, List):
            return bool(v.items)
        if isinstance(v, Inst):
            for m in ('__bool__', '__len__'):
                r = self.class_lookup(v.cls, m)
                if r is not None and isinstance(r[0], Func):
                    return None
            return True
        return True

    def truth(self, v):
        k = self.known_truth(v)
        if k is not None:
            return k
        if isinstance(v, Sym):
            t = v.term
            if t[0] == 'cmp':
                return self.decide_cmp(t[1], v)
            if t[0] == 'instq':
                return self.decide_inst_atom(t[1], t[2])
            if t[0] == 'hasq':
                return self.decide(('hasattr', t[1], t[2]))
            if t[0] == 'not':
                return not self.truth(Sym(*t[1]))
            e = self.event('op', '__bool__', [v])
            self.may_raise(e, ('bool', t))
            if self.module_mode:
                return False
            r = self.choose(2) == 0
            self.facts[('truthy', t)] = r
            if r:
                ins, nots = self.dom_of(t)
                if ins is not None:
                    self.dom[t] = (frozenset(k for k in ins if k[2]), nots)
            else:
                ins, nots = self.dom_of(t)
                if ins is not None:
                    self.dom[t] = (frozenset(k for k in ins if not k[2]),
                                   nots)
            return r
        if isinstance(v, Dict):
            for s in v.syms():
                if self.truth(s):
                    return True
            return False
        if isinstance(v, Inst):
            for m in ('__bool__', '__len__'):
                r = self.class_lookup(v.cls, m)
                if r is not None and isinstance(r[0], Func):
                    return self.truth(self.call(Bound(r[0], v), [], {}))
        return True

    # --------------------------------------------------------- compare
    CMPS = {}

    def cmp(self, op, a, b):
        """lazy comparison result"""
        r = self.cmp_now(op, a, b)
        if r is not None:
            return TRUE if r else FALSE
        s = Sym('cmp', op, a.key, b.key)
        self.CMPS[s.term] = (a, b)
        return s

    def cmp_now(self, op, a, b):
        """definite answer without forking, or None"""
        if op == 'is':
            return self.known_is(a, b)
        if op == '==':
            return self.known_eq(a, b)
        return None

    def known_is(self, a, b):
        if a.key == b.key:
            if isinstance(a, Const) and isinstance(a.value, (str, int, float, bytes)) \
                    and not isinstance(a.value, bool):
                return True
            return True
        if isinstance(a, (Const, Obj, Bound, Wrapped, BMeth, SuperV)) and \
                isinstance(b, (Const, Obj, Bound, Wrapped, BMeth, SuperV)):
            return False
        if is_ext(a) and is_ext(b):
            return False
        if isinstance(b, Const) and not isinstance(a, Const):
            a, b = b, a
        if isinstance(a, Const):
            ins, nots = self.dom_of(b.key)
            if ins is not None:
                if ins == frozenset([a.key]):
                    # equal strings and numbers need not be the same object
                    return True if unique(a) or self.module_mode else \
                        self.facts.get(('same', a.key, b.key))
                if a.key not in ins:
                    return False
            if a.key in nots:
                return False
            if self.query_is_const(b, a.key) is False:
                return False
            return None
        atom = ('is',) + tuple(sorted((a.key, b.key), key=repr))
        if atom in self.facts:
            return self.facts[atom]
        # one of them is a Sym
        s, o = (a, b) if isinstance(a, Sym) and not is_ext(a) else (b, a)
        ins, nots = self.dom_of(s.key)
        if ins is not None and (isinstance(o, Obj) or is_ext(o)):
            return False
        if isinstance(o, Obj) or is_ext(o):
            # s is known to be another object
            for (at, val) in self.facts.items():
                if val and at[0] == 'is' and s.key in at[1:]:
                    other = at[1] if at[2] == s.key else at[2]
                    if other[0] in ('obj', 'ext') and other != o.key:
                        return False
                if not val and at[0] == 'inst' and at[1] == s.key:
                    # s is no instance of that class but o is
                    if isinstance(o, Inst) and self.known_inst_key(o, at[2]):
                        return False
        return None

    def known_eq(self, a, b):
        if a.key == b.key and not self.analysed_method(a, '__eq__'):
            return True
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return bool(a.value == b.value)
            except Exception:
                return None
        if isinstance(a, Sym) and isinstance(b, Sym) and \
                a.term[0] == b.term[0] == 'elem' and a.term != b.term and \
                a.term[1] == b.term[1] and a.term[1][0] == 'attr' and \
                a.term[1][-1] in ('get_permissions', 'set_permissions'):
            return False        # two keys of one mapping
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and isinstance(y, Sym):
                if is_ext(y):
                    return False
                ins, nots = self.dom_of(y.key)
                if ins is not None:
                    if ins == frozenset([x.key]):
                        return True
                    if x.key not in ins:
                        return False
                if singleton(x) and not self.module_mode and \
                        y.term[0] not in BOOLEAN:
                    # anything may say it is equal to None, True or False
                    return self.facts.get(eq_atom(x, y))
                if x.key in nots:
                    return False
                if self.query_is_const(y, x.key) is False:
                    return False
                return None
            if isinstance(x, Const) and isinstance(y, (List, Dict, Func,
                                                       Class, Module)):
                return False
            if isinstance(x, Const) and isinstance(y, Inst):
                if self.analysed_method(y, '__eq__'):
                    return None
                return False
        if isinstance(a, List) and isinstance(b, List):
            if a.kind != b.kind or len(a.items) != len(b.items):
                return False
            rs = [self.known_eq(x, y) for x, y in zip(a.items, b.items)]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if isinstance(a, (Func, Class, Module, Bound)) and \
                isinstance(b, (Func, Class, Module, Bound)):
            return a.key == b.key
        if is_ext(a) and is_ext(b):
            return a.key == b.key
        if isinstance(a, (Sym, Obj)) and isinstance(b, (Sym, Obj)):
            atom = ('is',) + tuple(sorted((a.key, b.key), key=repr))
            if self.facts.get(atom) is True:
                return True
            atom = ('eq',) + tuple(sorted((a.key, b.key), key=repr))
            if atom in self.facts:
                return self.facts[atom]
            if isinstance(a, Obj) and isinstance(b, Obj):
                if isinstance(a, Inst) and (self.analysed_method(a, '__eq__')):
                    return None
                return False
        return None

    def analysed_method(self, v, name):
        if isinstance(v, Inst):
            r = self.class_lookup(v.cls, name)
            return r is not None and isinstance(r[0], Func)
        return False

    def decide_cmp(self, op, sym):
        a, b = self.CMPS[sym.term]
        if op == 'is':
            return self.decide_is(a, b)
        if op == '==':
            return self.decide_eq(a, b)
        if op == 'in':
            return self.contains(a, b)
        return self.decide(sym.term)

    def decide_is(self, a, b):
        r = self.known_is(a, b)
        if r is not None:
            return r
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and isinstance(y, Sym):
                if not self.decide_in(y, [x.key]):
                    return False
                return unique(x) or self.module_mode or \
                    self.decide(('same', x.key, y.key))
        # type(x) is C   =>  isinstance(x, C)
        atom = ('is',) + tuple(sorted((a.key, b.key), key=repr))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.term[0] == 'type':
                ck = self.class_key(y)
                if ck is not None:
                    if self.facts.get(('inst', x.term[1], ck)) is False:
                        return False
                    r = self.decide(atom)
                    if r:
                        self.facts[('inst', x.term[1], ck)] = True
                    return r
        return self.decide(atom)

    def decide_eq(self, a, b):
        r = self.known_eq(a, b)
        if r is not None:
            return r
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and isinstance(y, Sym):
                if singleton(x) and not self.module_mode and \
                        y.term[0] not in BOOLEAN:
                    r = self.decide(eq_atom(x, y))
                    ins, nots = self.dom_of(y.key)
                    if not r and ins is None:
                        self.dom[y.key] = (None, nots | {x.key})
                    return r
                return self.decide_in(y, [x.key])
        if isinstance(a, List) and isinstance(b, List):
            return all(self.decide_eq(x, y)
                       for x, y in zip(a.items, b.items))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst) and self.analysed_method(x, '__eq__'):
                f = self.class_lookup(x.cls, '__eq__')[0]
                return self.truth(self.call(Bound(f, x), [y], {}))
        atom = ('eq',) + tuple(sorted((a.key, b.key), key=repr))
        return self.decide(atom)

    def contains(self, x, c):
        """x in c"""
        if tls_item(c, x):
            return self.tls_get(c.parts[0], x.value) is not None
        if isinstance(c, List):
            return self.in_values(x, c.items)
        if isinstance(c, Dict):
            r = self.dict_get(c, x, probe=True)
            return r is not None
        if isinstance(c, Const) and isinstance(c.value, (str, bytes, tuple)):
            if isinstance(x, Const):
                try:
                    return x.value in c.value
                except TypeError:
                    self.raise_builtin('TypeError')
            return self.decide(('instr', x.key, c.key))
        if isinstance(c, Gen):
            return self.in_values(x, self.to_items(c))
        if isinstance(c, Inst) and self.analysed_method(c, '__contains__'):
            f = self.class_lookup(c.cls, '__contains__')[0]
            return self.truth(self.call(Bound(f, c), [x], {}))
        if isinstance(c, Inst) and isinstance(getattr(c, 'dictval', None), Dict):
            return self.dict_get(c.dictval, x, probe=True) is not None
        if isinstance(c, Sym) and c.term[0] == 'listof':
            return self.in_values(x, self.to_items(c))
        e = self.event('op', '__contains__', [c, x])
        self.may_raise(e, ('contains', c.key, x.key))
        return self.has_key(c, x)

    def has_key(self, c, x):
        return self.decide(('has', c.key, x.key))

    def in_values(self, x, values):
        for v in values:
            if v.key == x.key:
                return True
        consts = [v for v in values if isinstance(v, Const)]
        others = [v for v in values if not isinstance(v, Const)]
        if isinstance(x, Const):
            for v in consts:
                if self.known_eq(x, v):
                    return True
        elif consts and isinstance(x, Sym):
            for v in consts:
                if singleton(v) and not is_ext(x):
                    r = self.known_is(x, v)
                    if r or r is None and self.decide_eq(x, v):
                        return True
            consts = [v for v in consts if not singleton(v)]
            if consts and not is_ext(x) and self.decide_in(x, [v.key for v in consts]):
                return True
        for v in others:
            if self.decide_eq(x, v):
                return True
        return False

    # -------------------------------------------------------- classes
    def class_key(self, c):
        if isinstance(c, Class):
            return c.label
        if is_ext(c):
            return c.term[1]
        if isinstance(c, Sym):
            return show(c.term)
        return None

    def mro(self, c):
        if isinstance(c, Class):
            if c.mro is None:
                seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
                out = [c]
                seqs = [s for s in seqs if s]
                while seqs:
                    for s in seqs:
                        h = s[0]
                        if not any(h.key in [y.key for y in t[1:]]
                                   for t in seqs):
                            break
                    else:
                        raise AnalysisError(f'no MRO for {c!r}')
                    out.append(h)
                    seqs = [[y for y in t if y.key != h.key] for t in seqs]
                    seqs = [s for s in seqs if s]
                if not any(is_ext(x, 'builtins.object') for x in out):
                    out.append(ext('builtins.object'))
                c.mro = out
            return c.mro
        bc = builtin_class(c)
        if bc is not None:
            return [ext('builtins.' + k.__name__) for k in bc.__mro__]
        extra = self.world.models and EXT_MRO.get(
            c.term[1] if is_ext(c) else None)
        if extra:
            return [ext(n) for n in extra]
        return [c, ext('builtins.object')]

    def class_lookup(self, cls, name):
        """(value, owner) following the MRO; ext owners give ext attrs only
        for names they may define"""
        for k in self.mro(cls):
            if isinstance(k, Class):
                if name in k.ns:
                    return k.ns[name], k
            elif is_ext(k):
                bc = builtin_class(k)
                if bc is not None:
                    if name in bc.__dict__ and bc is not object:
                        return ext(k.term[1] + '.' + name), k
                    if bc is object and name in object.__dict__:
                        return ext(k.term[1] + '.' + name), k
                else:
                    names = EXT_MEMBERS.get(k.term[1])
                    if names is None or name in names:
                        return ext(k.term[1] + '.' + name), k
            else:
                return Sym('attr', k.key, name), k
        return None

    def known_inst_key(self, v, ck):
        """is the object v (Inst) an instance of the class with key ck"""
        if isinstance(v, Inst):
            return any(self.class_key(k) == ck for k in self.mro(v.cls))
        return False

    def isinstance_(self, x, cls):
        if isinstance(cls, List):
            for c in cls.items:
                if self.isinstance_(x, c):
                    return True
            return False
        if isinstance(cls, Wrapped) and cls.what == 'union':
            return any(self.isinstance_(x, c) for c in cls.parts)
        if is_ext(cls):
            al = ALIASES.get(cls.term[1])
            if al:
                cls = ext(al)
        ck = self.class_key(cls)
        if ck == 'builtins.object':
            return True
        bc = builtin_class(cls)
        if isinstance(x, Const):
            return bc is not None and isinstance(x.value, bc)
        if isinstance(x, Inst):
            m = self.mro(x.cls)
            if any(self.class_key(k) == ck for k in m):
                return True
            unknown = [k for k in m if not isinstance(k, Class)
                       and builtin_class(k) is None
                       and not (is_ext(k) and k.term[1] in CLOSED_EXT)]
            if not unknown:
                return False
            return self.decide_inst_atom(x.key, ck)
        if isinstance(x, Dict):
            return ck in ('builtins.dict', 'collections.abc.Mapping',
                          'collections.abc.MutableMapping')
        if isinstance(x, List):
            if ck == 'builtins.' + x.kind:
                return True
            return False
        if isinstance(x, Func):
            return ck in ('types.FunctionType',
                          'collections.abc.Callable')
        if isinstance(x, Class):
            return ck == 'builtins.type'
        if isinstance(x, Module):
            return ck == 'types.ModuleType'
        if isinstance(x, (Bound, BMeth, Wrapped, Gen)):
            return ck == {'Bound': 'types.MethodType'}.get(
                type(x).__name__)
        if isinstance(x, Sym) and x.term[0] in ('fmt', 'str'):
            return ck == 'builtins.str'
        # classes named by an unknown value: isinstance(x, param)
        return self.decide_inst_atom(x.key, ck)

    def decide_inst_atom(self, xkey, ck):
        atom = ('inst', xkey, ck)
        if atom in self.facts:
            return self.facts[atom]
        ins, nots = self.dom_of(xkey)
        if ins is not None:
            rs = {_const_is_instance(k, ck) for k in ins}
            if len(rs) == 1 and None not in rs:
                return rs.pop()
        # implications along known hierarchies
        for (a, val) in list(self.facts.items()):
            if a[0] == 'inst' and a[1] == xkey:
                if val and self.subclass_keys(a[2], ck):
                    return True
                if not val and self.subclass_keys(ck, a[2]):
                    return False
                if val and ck in EXCLUSIVE and a[2] in EXCLUSIVE:
                    return False
            if val and a[0] == 'is' and xkey in a[1:]:
                o = a[1] if a[2] == xkey else a[2]
                ob = OBJECTS.get(o)
                if isinstance(ob, Inst) and self.known_inst_key(ob, ck):
                    return True
        r = self.decide(atom)
        if r:
            ins, nots = self.dom_of(xkey)
            if ins is not None:
                keep = frozenset(k for k in ins
                                 if _const_is_instance(k, ck) is not False)
                self.dom[xkey] = (keep, nots)
        return r

    def subclass_keys(self, a, b):
        """class key a is a subclass of class key b (known)"""
        if a == b:
            return True
        ca = self.class_from_key(a)
        if ca is None:
            return False
        return any(self.class_key(k) == b for k in self.mro(ca))

    def class_from_key(self, k):
        for m in self.world.modules.values():
            if k.startswith(m.name + '.'):
                v = m.ns.get(k[len(m.name) + 1:])
                if isinstance(v, Class):
                    return v
        if k.startswith('builtins.'):
            return ext(k)
        if k in EXT_MRO:
            return ext(k)
        return None

    # ------------------------------------------------------ exceptions
    def exc_matches(self, exc, cls):
        if isinstance(cls, List):
            for c in cls.items:
                if self.exc_matches(exc, c):
                    return True
            return False
        ck = self.class_key(cls)
        if isinstance(exc, Inst):
            m = self.mro(exc.cls)
            if any(self.class_key(k) == ck for k in m):
                return True
            unknown = [k for k in m if not isinstance(k, Class)
                       and builtin_class(k) is None]
            if not unknown:
                return False
            if builtin_class(cls) in (Exception, BaseException):
                return True
            return self.decide_inst_atom(exc.key, ck)
        if isinstance(exc, Class):
            return any(self.class_key(k) == ck for k in self.mro(exc))
        if isinstance(exc, Sym):
            if ck == 'builtins.BaseException':
                return True
            t = exc.term
            r = self.decide_inst_atom(t, ck)
            if len(t) > 1 and isinstance(t[1], tuple) and t[1][0] == 'getattr':
                # failing to read an attribute, as AttributeError
                if ck == 'builtins.AttributeError':
                    if r:
                        self.facts.setdefault(
                            ('hasattr', t[1][1], t[1][2]), False)
            return r
        return False

    # ------------------------------------------------------- attributes
    def getattr_(self, o, name, quiet=False):
        v = self.getattr_opt(o, name)
        if v is None:
            self.raise_builtin('AttributeError', Const(name))
        return v

    def getattr_opt(self, o, name):
        """value, or None if definitely missing"""
        if isinstance(o, Sym):
            if o.term[0] == 'ext':
                full = o.term[1] + '.' + name
                if full in self.world.consts:
                    return self.world.consts[full]
                if name == '__name__':
                    return Const(o.term[1].rsplit('.', 1)[1])
                bc = builtin_class(o)
                if bc is not None and not hasattr(bc, name):
                    return None
                mm = self.world.modules.get(full)
                if mm is not None:
                    return mm
                if full in self.store:
                    return self.store[full]
                return ext(full)
            if (o.term, name) in self.store:
                self.event('getattr', name, [o])
                return self.store[(o.term, name)]
            if (o.term, name) in self.deleted:
                return None
            h = self.facts.get(('hasattr', o.term, name))
            if h is False:
                return None
            res = Sym('attr', o.term, name)
            e = self.event('getattr', name, [o], result=res)
            if self.handlers and not self.noraise and not self.module_mode \
                    and h is None:
                if self.choose(2):
                    exc = Sym('exc', ('getattr', o.term, name))
                    if e is not None:
                        e.raised = exc
                    self.raise_(exc)
                self.facts[('hasattr', o.term, name)] = True
            return res
        if isinstance(o, Inst):
            return self.inst_getattr(o, name)
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            if name == '__dict__':
                return self.scope_dict(o)
            sub = o.name + '.' + name
            if sub in self.world.modules:
                return self.world.modules[sub]
            if self.world.is_ours(sub):
                return self.world.load(sub)
            if os.path.isdir(os.path.join(os.path.dirname(
                    self.world.path_of(o.name)), name)):
                return ext(sub)
            return None
        if isinstance(o, Class):
            return self.class_getattr(o, name)
        if isinstance(o, Func):
            if name in o.ns:
                return o.ns[name]
            if name == '__name__':
                return Const(o.name)
            if name == '__qualname__':
                return Const(o.qual)
            if name == '__module__':
                return Const(o.module.name)
            if name == '__doc__':
                return Const(ast.get_docstring(o.node)
                             if not isinstance(o.node, ast.Lambda) else None)
            if name == '__call__':
                return o
            if name == '__get__':
                return Wrapped('func_get', o)
            if name == '__dict__':
                d = self.scope_dict(o)
                if not self.module_mode:
                    d.layers.insert(0, Sym('state', o.label + '.__dict__'))
                return d
            if name in ('__defaults__', '__code__', '__kwdefaults__',
                        '__annotations__', '__wrapped__', '__globals__',
                        '__closure__'):
                return Sym('attr', o.key, name)
            return None
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            return self.getattr_opt(o.func, name)
        if isinstance(o, SuperV):
            return self.super_getattr(o, name)
        if isinstance(o, Const):
            if not hasattr(o.value, name):
                return None
            if name == '__class__':
                return ext('builtins.' + type(o.value).__name__)
            if name == '__doc__':
                return Const(o.value.__doc__)
            return BMeth(o, name)
        if isinstance(o, Dict):
            if not hasattr({}, name):
                return None
            if name == '__class__':
                return o.cls or ext('builtins.dict')
            return BMeth(o, name)
        if isinstance(o, List):
            if name == '__class__':
                return ext('builtins.' + o.kind)
            if not hasattr(getattr(_b, o.kind, object), name):
                return None
            return BMeth(o, name)
        if isinstance(o, Gen):
            return BMeth(o, name)
        if isinstance(o, BMeth):
            if name == '__name__':
                return Const(o.name)
            if name == '__self__':
                return o.self
            return Sym('attr', o.key, name)
        if isinstance(o, FrameV):
            f = o.frame
            if name == 'f_locals':
                if f is None:
                    return Sym('param', 'caller.f_locals')
                d = Dict(label='f_locals')
                for k, v in f.scope.ns.items():
                    d.layers[0][Const(k).key] = (Const(k), v)
                return d
            if name == 'f_globals':
                if f is None:
                    return Sym('param', 'caller.f_globals')
                return self.scope_dict(f.module)
            if name == 'f_back':
                if f is None:
                    return Sym('param', 'caller.f_back')
                i = self.frames.index(f)
                return FrameV(self.real_frame(i - 1))
            return Sym('attr', o.key, name)
        if isinstance(o, Wrapped) and o.what == 'exitstack' and \
                name == 'callback':
            def add(r, a, k):
                r.touch(o.parts[0])
                o.parts[0].items.append(Wrapped(
                    'pyfunc', lambda r2, a2, k2: r2.call(a[0], a[1:], k)))
                return a[0]
            return Wrapped('pyfunc', add)
        if isinstance(o, Wrapped) and o.what == 'tlsdict' and \
                name in ('get', 'pop', 'setdefault'):
            return Wrapped('pyfunc', lambda r, a, k: r.tls_method(o, name, a))
        if isinstance(o, Wrapped):
            if o.what == 'property' and name in ('setter', 'getter',
                                                 'deleter'):
                return Wrapped('propset', o, name)
            if o.what == 'property' and name in ('fget', 'fset', 'fdel'):
                return o.parts[('fget', 'fset', 'fdel').index(name)]
            return Sym('attr', o.key, name)
        raise AnalysisError(f'attribute {name} of {o!r}')

    def real_frame(self, i):
        while i >= 0 and (self.frames[i].comp or self.frames[i].is_class):
            i -= 1
        return self.frames[i] if i >= 0 else None

    def scope_dict(self, scope):
        d = Dict(label=f'{scope.label}.__dict__')
        for k, v in scope.ns.items():
            d.layers[0][Const(k).key] = (Const(k), v)
        return d

    def class_getattr(self, c, name):
        if name == '__name__':
            return Const(c.name)
        if name == '__module__' and name not in c.ns:
            return Const(c.module.name)
        if name == '__mro__':
            return tup(*self.mro(c))
        if name == '__bases__':
            return tup(*c.bases)
        if name == '__dict__':
            return self.scope_dict(c)
        if name == '__qualname__':
            return Const(c.name)
        if name == '__doc__' and name not in c.ns:
            return Const(None)
        if name == '__class__':
            return ext('builtins.type')
        if name == 'mro':
            return BMeth(c, 'mro')
        r = self.class_lookup(c, name)
        if r is None:
            return None
        v, owner = r
        if not isinstance(owner, Class) and builtin_class(owner) is None and \
                not (is_ext(owner) and
                     owner.term[1] + '.*' in self.world.models):
            # inherited from an external base, e.g. IFoo.providedBy
            return Sym('attr', c.key, name)
        if isinstance(v, Wrapped):
            if v.what == 'staticmethod':
                return v.parts[0]
            if v.what == 'classmethod':
                return Bound(v.parts[0], c)
            return v
        if isinstance(v, Inst) and self.analysed_method(v, '__get__'):
            f = self.class_lookup(v.cls, '__get__')[0]
            return self.call(Bound(f, v), [NONE, c], {})
        return v

    def inst_getattr(self, o, name):
        r = self.class_lookup(o.cls, '__getattribute__')
        if r is not None and isinstance(r[0], Func):
            try:
                return self.call(Bound(r[0], o), [Const(name)], {})
            except PyRaise as e:
                g = self.class_lookup(o.cls, '__getattr__')
                if g is not None and isinstance(g[0], Func) and \
                        self.exc_matches(e.exc, ext('builtins.AttributeError')):
                    return self.call(Bound(g[0], o), [Const(name)], {})
                raise
        try:
            v = self.generic_getattr(o, name)
        except PyRaise as e:
            g = self.class_lookup(o.cls, '__getattr__')
            if g is not None and isinstance(g[0], Func) and \
                    self.exc_matches(e.exc, ext('builtins.AttributeError')):
                return self.call(Bound(g[0], o), [Const(name)], {})
            raise
        if v is None:
            g = self.class_lookup(o.cls, '__getattr__')
            if g is not None and isinstance(g[0], Func):
                return self.call(Bound(g[0], o), [Const(name)], {})
        return v

    def may_have(self, o, name):
        """an earlier call may have given o this attribute"""
        fs = self.world.late.get(name)
        if not fs or o.args is not None:
            return False
        if o.uid <= self.world.uid_end:
            return any(f not in MAKERS for f in fs)
        return not getattr(o, 'made', False)

    def generic_getattr(self, o, name):
        if is_ext(o.cls, 'threading.local'):
            return self.tls_get(o, name)
        if name == '__class__' and '__class__' not in o.attrs:
            r = self.class_lookup(o.cls, name)
            if r is None or is_ext(r[0]):
                return o.cls
        if name == '__dict__':
            d = Dict(label='instance dict')
            for k, v in o.attrs.items():
                d.layers[0][Const(k).key] = (Const(k), v)
            if o.lazy:
                d.layers.insert(0, Sym('attr', o.key, '__dict__'))
            d.of = o
            return d
        r = self.class_lookup(o.cls, name)
        if r is not None and isinstance(r[0], Wrapped) and \
                r[0].what == 'property':
            fget = r[0].parts[0]
            return self.call(fget, [o], {})
        if r is not None and isinstance(r[0], Inst) and \
                self.analysed_method(r[0], '__set__') and \
                self.analysed_method(r[0], '__get__'):
            f = self.class_lookup(r[0].cls, '__get__')[0]
            return self.call(Bound(f, r[0]), [o, o.cls], {})
        if name in o.attrs:
            v = o.attrs[name]
            return v
        if o.args is not None and name == 'args':
            return tup(*o.args)
        if self.may_have(o, name) and (r is None or not isinstance(
                r[0], (Func, Wrapped)) and isinstance(r[1], Class)):
            if r is not None or self.decide(('hasattr', o.key, name)):
                return Sym('attr', o.key, name)
        if r is not None:
            v, owner = r
            if isinstance(v, Func):
                return Bound(v, o)
            if isinstance(v, Wrapped):
                if v.what == 'staticmethod':
                    return v.parts[0]
                if v.what == 'classmethod':
                    return Bound(v.parts[0], o.cls)
                if function_like(v):
                    return Bound(v, o)
                return v
            if isinstance(v, Inst) and self.analysed_method(v, '__get__'):
                f = self.class_lookup(v.cls, '__get__')[0]
                return self.call(Bound(f, v), [o, o.cls], {})
            if isinstance(owner, Class):
                return v
            # an external base class may define it
            bc = builtin_class(owner)
            if bc is not None:
                return Bound(v, o)
            if o.lazy or EXT_MEMBERS.get(owner.term[1] if is_ext(owner)
                                         else None) is None:
                # unknown: method or attribute of an external base
                if name in METHODISH or (name.startswith('__')
                                         and name.endswith('__')):
                    return Bound(v, o)
                res = Sym('attr', o.key, name)
                self.event('getattr', name, [o], result=res)
                return res
            return Bound(v, o)
        if o.lazy:
            res = Sym('attr', o.key, name)
            return res
        return None

    # thread-local objects: attributes may be there or not
    def tls_method(self, d, name, args):
        o, n = d.parts[0], args[0].value
        v = self.tls_get(o, n)
        if v is None:
            if len(args) > 1:
                if name == 'setdefault':
                    self.setattr_(o, n, args[1])
                return args[1]
            if name == 'pop':
                self.raise_builtin('KeyError', args[0])
            return NONE
        if name == 'pop':
            self.delattr_(o, n)
        return v

    def tls_get(self, o, name):
        if name in o.attrs:
            self.event('getattr', name, [o], result=o.attrs[name])
            v = o.attrs[name]
            return v if not isinstance(v, _Absent) else None
        if name == '__dict__':
            return Wrapped('tlsdict', o)
        if name.startswith('__'):
            return Sym('attr', o.key, name)
        e = self.event('getattr', name, [o])
        self.touch(o)
        if self.decide(('hasattr', o.key, name)):
            o.attrs[name] = Sym('attr', o.key, name)
            if e:
                e.result = o.attrs[name]
            return o.attrs[name]
        o.attrs[name] = _ABSENT
        return None

    def super_getattr(self, s, name):
        if isinstance(s.self, Inst):
            m = self.mro(s.self.cls)
        elif isinstance(s.self, Class):
            m = self.mro(s.self)
        else:
            return Sym('attr', s.key, name)
        keys = [k.key for k in m]
        if s.cls.key in keys:
            rest = m[keys.index(s.cls.key) + 1:]
        else:
            rest = m
        for k in rest:
            if isinstance(k, Class):
                if name in k.ns:
                    v = k.ns[name]
                    if isinstance(v, Func):
                        if name == '__new__':
                            return v
                        return Bound(v, s.self)
                    if isinstance(v, Wrapped):
                        if v.what == 'staticmethod':
                            return v.parts[0]
                        if v.what == 'classmethod':
                            return Bound(v.parts[0],
                                         s.self if isinstance(s.self, Class)
                                         else s.self.cls)
                        if v.what == 'property':
                            return self.call(v.parts[0], [s.self], {})
                        if function_like(v):
                            return Bound(v, s.self)
                    return v
            elif is_ext(k):
                bc = builtin_class(k)
                if bc is not None and name not in bc.__dict__:
                    continue
                names = EXT_MEMBERS.get(k.term[1])
                if bc is None and names is not None and name not in names:
                    continue
                v = ext(k.term[1] + '.' + name)
                if name == '__new__':
                    return v
                return Bound(v, s.self)
        return None

    def setattr_(self, o, name, value):
        if isinstance(o, Inst):
            r = self.class_lookup(o.cls, '__setattr__')
            if r is not None and isinstance(r[0], Func):
                self.call(Bound(r[0], o), [Const(name), value], {})
                return
            self.generic_setattr(o, name, value)
            return
        if isinstance(o, (Module, Class, Func)):
            self.touch(o)
            o.ns[name] = value
            if isinstance(o, (Class, Func)) and name == '__name__' and \
                    isinstance(value, Const):
                pass
            self.event('setattr', name, [o, value])
            return
        if isinstance(o, Sym):
            e = self.event('setattr', name, [o, value])
            self.may_raise(e, ('setattr', o.key, name))
            if o.term[0] == 'ext':
                self.store[o.term[1] + '.' + name] = value
                if self.module_mode:
                    self.world.consts[o.term[1] + '.' + name] = value
            else:
                self.store[(o.term, name)] = value
                self.deleted.discard((o.term, name))
                self.facts.change(('hasattr', o.term, name), None)
            return
        if isinstance(o, (Bound, Wrapped, Gen, Dict, List)):
            self.event('setattr', name, [o, value])
            return
        self.raise_builtin('AttributeError', Const(name))

    def generic_setattr(self, o, name, value):
        r = self.class_lookup(o.cls, name)
        if r is not None and isinstance(r[0], Wrapped) and \
                r[0].what == 'property':
            fset = r[0].parts[1]
            if fset is None or fset is NONE:
                self.raise_builtin('AttributeError', Const(name))
            self.call(fset, [o, value], {})
            return
        if r is not None and isinstance(r[0], Inst) and \
                self.analysed_method(r[0], '__set__'):
            f = self.class_lookup(r[0].cls, '__set__')[0]
            self.call(Bound(f, r[0]), [o, value], {})
            return
        e = self.event('setattr', name, [o, value])
        if isinstance(o.cls, Sym) and not is_ext(o.cls, 'threading.local') \
                and builtin_class(o.cls) is None:
            self.may_raise(e, ('setattr', o.key, name))
        self.touch(o)
        o.attrs[name] = value
        if name == '__class__':
            o.cls = value

    def dict_of(self, d):
        """what was done to an instance's dictionary is done to it"""
        o = getattr(d, 'of', None)
        if o is None:
            return
        now = {k.value: v for k, v in d.explicit() if isinstance(k, Const)
               and isinstance(k.value, str)}
        for n, v in now.items():
            if n not in o.attrs or o.attrs[n] is not v:
                self.event('setattr', n, [o, v])
                self.touch(o)
                o.attrs[n] = v
        for n in [n for n in o.attrs if n not in now]:
            self.touch(o)
            del o.attrs[n]

    def delattr_(self, o, name):
        if isinstance(o, Inst):
            r = self.class_lookup(o.cls, '__delattr__')
            if r is not None and isinstance(r[0], Func):
                self.call(Bound(r[0], o), [Const(name)], {})
                return
            if is_ext(o.cls, 'threading.local'):
                cur = self.tls_get(o, name)
                if cur is None:
                    self.raise_builtin('AttributeError', Const(name))
                self.event('delattr', name, [o])
                self.touch(o)
                o.attrs[name] = _ABSENT
                return
            self.event('delattr', name, [o])
            if name in o.attrs:
                self.touch(o)
                del o.attrs[name]
                return
            if o.lazy:
                return
            self.raise_builtin('AttributeError', Const(name))
        elif isinstance(o, (Module, Class, Func)):
            if name not in o.ns:
                self.raise_builtin('AttributeError', Const(name))
            self.touch(o)
            del o.ns[name]
            self.event('delattr', name, [o])
        elif isinstance(o, Sym):
            e = self.event('delattr', name, [o])
            self.may_raise(e, ('delattr', o.key, name))
            self.store.pop((o.term, name), None)
            self.deleted.add((o.term, name))
        else:
            self.raise_builtin('AttributeError', Const(name))

    def hasattr_(self, o, name):
        """True / False, forking if unknown"""
        if isinstance(o, Sym) and o.term[0] != 'ext':
            if (o.term, name) in self.store:
                return True
            if (o.term, name) in self.deleted:
                return False
            e = self.event('getattr', name, [o])
            if self.handlers and ('hasattr', o.term, name) not in self.facts:
                # a property may raise something else than AttributeError
                self.may_raise(e, ('getattr*', o.term, name))
            return self.decide(('hasattr', o.term, name))
        self.noraise += 1
        try:
            if isinstance(o, Inst) and (o.lazy or self.may_have(o, name)) \
                    and name not in o.attrs and \
                    self.class_lookup(o.cls, name) is None:
                return self.decide(('hasattr', o.key, name))
            return self.getattr_opt(o, name) is not None
        except PyRaise as e:
            if self.exc_matches(e.exc, ext('builtins.AttributeError')):
                return False
            raise
        finally:
            self.noraise -= 1

    # --------------------------------------------------------- mappings
    def dict_get(self, d, k, probe=False):
        """value, or None if missing (forks on unknown keys)"""
        for lay in reversed(d.layers):
            if isinstance(lay, dict):
                if k.key in lay:
                    return lay[k.key][1]
                cands = []
                if isinstance(k, Sym) and not is_ext(k):
                    cs = [kv for kv, _ in lay.values()
                          if isinstance(kv, Const)]
                    others = [kv for kv, _ in lay.values()
                              if isinstance(kv, Sym) and not is_ext(kv)]
                    if cs and self.decide_in(k, [c.key for c in cs]):
                        if probe:
                            return TRUE
                        vals = {lay[c.key][1].key: lay[c.key][1] for c in cs}
                        if len(vals) == 1:
                            return next(iter(vals.values()))
                        for c in cs:
                            if self.decide_in(k, [c.key]):
                                return lay[c.key][1]
                        raise Infeasible()
                    cands = others
                    cands += [kv for kv, _ in lay.values()
                              if isinstance(kv, Obj) or is_ext(kv)]
                elif isinstance(k, Const):
                    for kv, vv in lay.values():
                        if isinstance(kv, Const) and self.known_eq(kv, k):
                            return vv
                    cands = [kv for kv, _ in lay.values()
                             if isinstance(kv, Sym) and not is_ext(kv)]
                else:
                    cands = [kv for kv, _ in lay.values()
                             if isinstance(kv, Sym) and not is_ext(kv)]
                if not self.module_mode:
                    if len(cands) > 12:
                        # unknown key in a big table: some entry or none
                        if self.decide(('has', d.key, k.key)):
                            return Sym('item', d.key, k.key)
                        continue
                    for c in cands:
                        if self.decide_eq(k, c):
                            return lay[c.key][1]
            else:
                r = self.map_get(lay, k)
                if r is not None:
                    return r
        return None

    def map_get(self, s, k, ev='get'):
        """opaque mapping s: value or None"""
        if ('kv', s.key, k.key) in self.store:
            r = self.store[('kv', s.key, k.key)]
            return None if isinstance(r, _Absent) else r
        e = self.event('mapget', ev, [s, k])
        if self.has_key(s, k):
            r = Sym('item', s.key, k.key)
            if e:
                e.result = r
            return r
        return None

    def dict_set(self, d, k, v):
        self.touch(d)
        if not isinstance(d.layers[-1], dict):
            d.layers.append({})
        if isinstance(k, Const):
            for kk, (kv, vv) in list(d.layers[-1].items()):
                if isinstance(kv, Const) and kk != k.key and \
                        self.known_eq(kv, k):
                    k = kv
        if not self.module_mode and k.key not in d.layers[-1]:
            def opaque(x):
                return isinstance(x, Sym) and from_outside(x.term)
            cands = [kv for kv, _ in d.layers[-1].values()
                     if (opaque(kv) and (opaque(k) or isinstance(k, Const)))
                     or (opaque(k) and isinstance(kv, Const))]
            for kv in cands if len(cands) <= 12 else ():
                if self.decide_eq(kv, k):
                    k = kv
                    break
        d.layers[-1][k.key] = (k, v)

    # ---------------------------------------------------------- iterate
    def count(self, base):
        """number of generic elements of an opaque iterable"""
        atom = ('len', base.key)
        if atom in self.facts:
            return self.facts[atom]
        if self.module_mode:
            return 0
        n = self.choose(self.K + 1)
        self.facts[atom] = n
        tatom = ('truthy', base.key)
        if tatom in self.facts and self.facts[tatom] != (n > 0):
            raise Infeasible()
        return n

    def strip_iter(self, s):
        while isinstance(s, Sym) and s.term[0] in ('iterof', 'listof'):
            s = Sym(*s.term[1])
        return s

    def elems(self, base):
        base = self.strip_iter(base)
        t = base.term
        n_base = base
        # d.items() / d.keys() / d.values()
        if t[0] == 'call' and t[1][0] == 'attr' and not t[2] and \
                t[1][2] in ('items', 'keys', 'values') and len(t[1]) == 3:
            m = Sym(*t[1][1])
            out = []
            for i in range(self.count(m)):
                k = Sym('elem', m.key, i)
                val = Sym('item', m.key, k.key)
                self.facts[('has', m.key, k.key)] = True
                out.append({'items': tup(k, val), 'keys': k,
                            'values': val}[t[1][2]])
            return out
        out = []
        for i in range(self.count(n_base)):
            k = Sym('elem', base.key, i)
            self.facts[('has', base.key, k.key)] = True
            out.append(k)
        return out

    def to_items(self, v):
        """all elements of an iterable (eagerly)"""
        out = []
        self.iterate(v, out.append)
        return out

    def iterate(self, v, cb):
        if isinstance(v, List):
            i = 0
            while i < len(v.items):
                cb(v.items[i])
                i += 1
                if i > 200:
                    if self.module_mode:
                        continue
                    raise Truncated()
            return
        if isinstance(v, Dict):
            seen = []
            for lay in v.layers:
                if isinstance(lay, dict):
                    for kv, _ in list(lay.values()):
                        seen.append(kv)
                else:
                    self.event('op', '__iter__', [lay])
                    seen.extend(self.elems(lay))
            done = []
            for kv in seen:
                if not any(kv.key == d.key for d in done):
                    done.append(kv)
                    cb(kv)
            return
        if isinstance(v, Const):
            try:
                it = [Const(x) for x in v.value]
            except TypeError:
                self.raise_builtin('TypeError')
            for x in it:
                cb(x)
            return
        if isinstance(v, Gen):
            if v.cache is not None:
                for x in v.cache:
                    cb(x)
                return
            self.run_gen(v, cb)
            return
        if isinstance(v, Wrapped) and v.what in ('lazyiter',):
            v.parts[0](cb)
            return
        if isinstance(v, Wrapped) and v.what == 'iterator':
            st = v.parts[0]
            while st.items:
                self.touch(st)
                cb(st.items.pop(0))
            return
        if isinstance(v, Inst):
            if self.analysed_method(v, '__iter__'):
                f = self.class_lookup(v.cls, '__iter__')[0]
                self.iterate(self.call(Bound(f, v), [], {}), cb)
                return
            dv = getattr(v, 'dictval', None)
            if dv is not None:
                self.iterate(dv, cb)
                return
            self.event('op', '__iter__', [v])
            for x in self.elems(Sym(*v.key) if v.term else
                                Sym('iterof', v.key)):
                cb(x)
            return
        if isinstance(v, Sym):
            e = self.event('op', '__iter__', [v])
            self.may_raise(e, ('iter', v.key))
            for x in self.elems(v):
                cb(x)
            return
        if isinstance(v, Bound) or isinstance(v, BMeth):
            self.raise_builtin('TypeError')
        if isinstance(v, (Module, Class, Func)):
            self.raise_builtin('TypeError')
        raise AnalysisError(f'iterating {v!r}')

    def run_gen(self, g, cb):
        fr = g.frame
        fr.yield_cb = cb
        self.frames.append(fr)
        try:
            self.exec_block(g.func.node.body, fr)
        except _Return:
            pass
        finally:
            self.frames.pop()

    # ------------------------------------------------------------- calls
    def call(self, f, args, kw, node=None):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.self] + args, kw)
            return self.call(f.func, [f.self] + args, kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, BMeth):
            from . import pymodels
            return self.model(pymodels.call_bmeth, f.self, f.name, args, kw)
        if isinstance(f, Wrapped):
            return self.call_wrapped(f, args, kw)
        if isinstance(f, Inst):
            r = self.class_lookup(f.cls, '__call__')
            if r is not None and isinstance(r[0], Func):
                return self.call_func(r[0], [f] + args, kw)
            if r is not None or f.lazy:
                return self.opaque_call(f, args, kw)
            self.raise_builtin('TypeError')
        if isinstance(f, Sym):
            if f.term[0] == 'ext':
                name = ALIASES.get(f.term[1], f.term[1])
                if name.endswith('.__init__') and args and \
                        isinstance(args[0], Inst):
                    # what the library's part of it is made with
                    args[0].made_with = (list(args[1:]), dict(kw or {}))
                m = self.world.models.get(name)
                if m is None and '.' in name and \
                        name.rsplit('.', 1)[0] in EXT_MAPPINGS:
                    from . import pymodels
                    b, meth = name.rsplit('.', 1)
                    sm = pymodels.SYM_METHODS.get(meth)
                    if sm is not None:
                        r = self.model(sm, ext(b), args, kw)
                        if r is not NotImplemented:
                            return r
                if m is None and '.' in name:
                    m = self.world.models.get(name.rsplit('.', 1)[0] + '.*')
                    if m is not None:
                        return self.model(m, args, kw, name.rsplit('.', 1)[1])
                if m is not None:
                    return self.model(m, args, kw)
                bc = builtin_class(f)
                if bc is not None and issubclass(bc, BaseException):
                    e = Inst(f)
                    e.args = list(args)
                    return e
                return self.opaque_call(f, args, kw)
            if f.term[0] == 'call' and f.term[1][0] == 'ext' and \
                    f.term[1][1] in TRANSPARENT and len(args) == 1:
                self.note_declared(f, args[0])
                return args[0]
            if f.term[0] == 'attr':
                from . import pymodels
                m = pymodels.SYM_METHODS.get(f.term[2])
                if m is not None:
                    base = SYMS.get(f.term[1]) or Sym(*f.term[1])
                    r = self.model(m, base, args, kw)
                    if r is not NotImplemented:
                        return r
            return self.opaque_call(f, args, kw)
        if isinstance(f, (Const, List, Dict, Module)):
            self.raise_builtin('TypeError')
        raise AnalysisError(f'calling {f!r}')

    def model(self, m, *a):
        """m(self, *a), which is called with too few arguments if it misses
        one"""
        try:
            return m(self, *a)
        except IndexError as e:
            if e.__traceback__.tb_next.tb_next is not None:
                raise
        self.raise_builtin('TypeError')

    def note_declared(self, dec, v):
        """a decorator made by a call declares the interfaces of v"""
        if self.module_mode:
            self.world.declared.append((
                dec.term[1][1].rsplit('.', 1)[-1], v,
                self.world.module_calls.get(dec.key, ((), {}))[0]))

    def opaque_call(self, f, args, kw):
        kwt = tuple(('kw', k, v.key) for k, v in sorted(kw.items())) \
            if kw else ()
        base = (f.key, tuple(a.key for a in args) + kwt)
        if base in self.results:
            res = self.results[base]
            self.event('call', f, args, kw, res)
            return res
        n = self.seq(base)
        if isinstance(f, Sym) and (
                f.term[0] == 'attr' and f.term[2] in PURE_METHODS or
                f.term[0] == 'ext' and
                f.term[1].rsplit('.', 1)[-1] in PURE_METHODS):
            n = 0
        res = Sym('call', base[0], base[1], n)
        if self.module_mode and is_ext(
                f, 'zope.testing.cleanup.addCleanUp') and args:
            self.world.cleanups.append(args[0])
        if self.module_mode:
            self.world.module_calls[res.key] = (args, kw)
        if self.module_mode and is_ext(f):
            how = f.term[1].rsplit('.', 1)[-1]
            if how == 'moduleProvides' and self.frames:
                self.world.declared.append((
                    how, self.frames[-1].module, list(args)))
            elif how in DECLARING and args:
                self.world.declared.append((how, args[0], list(args[1:])))
        e = self.event('call', f, args, kw, res)
        if isinstance(f, Sym) and f.term[0] == 'ext' and \
                f.term[1] in PURE_EXT:
            return Sym('call', base[0], base[1], 0)
        self.may_raise(e, res.term)
        return res

    def call_wrapped(self, f, args, kw):
        if f.what == 'partial':
            k = dict(f.parts[2])
            k.update(kw)
            return self.call(f.parts[0], list(f.parts[1]) + args, k)
        if f.what == 'attrgetter':
            vals = []
            for nm in f.parts[0]:
                v = args[0]
                for p in nm.split('.'):
                    v = self.getattr_(v, p)
                vals.append(v)
            return vals[0] if len(vals) == 1 else tup(*vals)
        if f.what == 'itemgetter':
            vals = [self.getitem(args[0], k) for k in f.parts]
            return vals[0] if len(vals) == 1 else tup(*vals)
        if f.what == 'methodcaller':
            return self.call(self.getattr_(args[0], f.parts[0]),
                             list(f.parts[1]), dict(f.parts[2]))
        if f.what == 'wraps':
            self.copy_func_meta(f.parts[0], args[0])
            return args[0]
        if f.what == 'transparent':
            return args[0]
        if f.what == 'propset':
            p, which = f.parts
            parts = list(p.parts)
            parts[('getter', 'setter', 'deleter').index(which)] = args[0]
            return Wrapped('property', *parts)
        if f.what == 'func_get':
            if len(args) > 0 and not (isinstance(args[0], Const)
                                      and args[0].value is None):
                return Bound(f.parts[0], args[0])
            return f.parts[0]
        if f.what in ('staticmethod', 'classmethod'):
            return self.call(f.parts[0], args, kw)
        if f.what == 'pyfunc':
            return f.parts[0](self, args, kw)
        if f.what == 'cached':
            # a caching decorator: the answer may be one remembered from
            # an earlier call
            fn = f.parts[0]
            if not self.module_mode and self.decide(
                    ('cachehit', fn.key) + tuple(a.key for a in args)):
                res = Sym('cached', fn.key, tuple(a.key for a in args))
                self.event('cachehit', getattr(fn, 'label', None) or repr(fn), args, kw, res)
                return res
            return self.call(fn, args, kw)
        self.raise_builtin('TypeError')

    def copy_func_meta(self, src, dst):
        if isinstance(dst, Func):
            self.touch(dst)
            nm = self.getattr_opt(src, '__name__')
            if nm is not None:
                dst.ns['__name__'] = nm
            dst.ns['__wrapped__'] = src

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        ns = {}
        kw = dict(kw)
        args = list(args)
        for i, n in enumerate(pos):
            if i < len(args):
                ns[n] = args[i]
                if n in kw and n not in [x.arg for x in a.posonlyargs]:
                    self.raise_builtin('TypeError')
            elif n in kw:
                ns[n] = kw.pop(n)
            else:
                j = i - (len(pos) - len(f.defaults))
                if j < 0:
                    self.raise_builtin('TypeError', Const(
                        f'{f.name}() missing argument {n}'))
                ns[n] = f.defaults[j]
        extra = args[len(pos):]
        if a.vararg:
            ns[a.vararg.arg] = tup(*extra)
        elif extra:
            self.raise_builtin('TypeError', Const(
                f'{f.name}() takes {len(pos)} arguments'))
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                ns[x.arg] = kw.pop(x.arg)
            elif f.kwdefaults[i] is not None:
                ns[x.arg] = f.kwdefaults[i]
            else:
                self.raise_builtin('TypeError')
        if a.kwarg:
            d = Dict(label='kwargs')
            star = kw.pop('**', None)
            if star is not None:
                d.layers = [star, {}] if not isinstance(star, Dict) else \
                    star.snapshot()
                if not isinstance(d.layers[-1], dict):
                    d.layers.append({})
            for k, v in kw.items():
                d.layers[-1][Const(k).key] = (Const(k), v)
            ns[a.kwarg.arg] = d
        elif kw:
            kw.pop('**', None)
            if kw:
                self.raise_builtin('TypeError', Const(
                    f'{f.name}() unexpected {sorted(kw)}'))
        return ns

    def call_func(self, f, args, kw):
        if not self.module_mode:
            self.world.functions_analysed.add(f.label)
        if self.depth > 60 or sum(1 for fr in self.frames
                                  if fr.func is f) > 3:
            if self.module_mode:
                raise AnalysisError(f'recursion in {f.label}')
            # like a loop followed for as long as its bound allows
            self.cut_recursions += 1
            raise Truncated()
        if self.stubs and f.label in self.stubs:
            return self.opaque_call(Sym('param', self.stubs[f.label]), args,
                                    kw)
        ns = self.bind(f, args, kw)
        scope = Scope(f.qual)
        scope.ns = ns
        fr = Frame(scope, f.module, f.frame, f, f.locals, qual=f.qual)
        fr.globals_ = f.globals_
        fr.nonlocals = f.nonlocals_
        fr.cls = f.cls
        fr.line = f.node.lineno
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        fr.first_arg = names[0] if names else (
            a.vararg.arg if a.vararg else None)
        if f.is_gen:
            return Gen(f, fr)
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                fr.line = f.node.body.lineno
                return self.ev(f.node.body, fr)
            try:
                self.exec_block(f.node.body, fr)
            except _Return as r:
                self.last_site = self.site()
                return r.v
            self.last_site = self.site()
            return NONE
        finally:
            self.frames.pop()
            self.depth -= 1

    def instantiate(self, c, args, kw):
        m = self.mro(c)
        new = self.class_lookup(c, '__new__')
        if new is not None and isinstance(new[0], (Func, Wrapped)):
            fn = new[0]
            if isinstance(fn, Wrapped):
                fn = fn.parts[0]
            o = self.call(fn, [c] + args, kw)
            if not (isinstance(o, Inst) and isinstance(o.cls, Class)
                    and c in self.mro(o.cls)):
                return o
        else:
            bcs = [builtin_class(k) for k in m]
            bcs = [b for b in bcs if b is not None and b is not object]
            o = Inst(c)
            o.made = True
            o.made_with = (list(args), dict(kw or {}))
            if any(issubclass(b, BaseException) for b in bcs):
                o.args = list(args)
            elif dict in bcs:
                d = Dict(label=f'{c.name} contents')
                o.dictval = d
            elif list in bcs:
                o.listval = List()
            unk = [k for k in m if not isinstance(k, Class)
                   and builtin_class(k) is None]
            if unk:
                o.lazy = True
        init = self.class_lookup(c, '__init__')
        if init is not None:
            if isinstance(init[0], Func):
                self.call_func(init[0], [o] + args, kw)
            elif getattr(o, 'dictval', None) is not None:
                from . import pymodels
                pymodels.call_bmeth(self, o.dictval, 'update', args, kw)
            elif is_ext(init[0]) and builtin_class(init[1]) is None:
                self.call(init[0], [o] + args, kw)
            elif is_ext(init[1], 'builtins.object') and (args or kw) and \
                    o.args is None and new is not None and \
                    is_ext(new[1], 'builtins.object'):
                self.raise_builtin('TypeError')
        return o

    # --------------------------------------------------------- subscripts
    def getitem(self, o, k):
        if tls_item(o, k):
            v = self.tls_get(o.parts[0], k.value)
            if v is None:
                self.raise_builtin('KeyError', k)
            return v
        if isinstance(o, Dict):
            v = self.dict_get(o, k)
            if v is None:
                self.raise_builtin('KeyError', k)
            return v
        if isinstance(o, List):
            if isinstance(k, Const) and isinstance(k.value, int):
                try:
                    return o.items[k.value]
                except IndexError:
                    self.raise_builtin('IndexError')
            if isinstance(k, Wrapped) and k.what == 'slice':
                lo, hi, st = [(x.value if isinstance(x, Const) else 'x')
                              for x in k.parts]
                if 'x' not in (lo, hi, st):
                    return List(o.items[lo:hi:st], o.kind)
            return Sym('item', o.key, k.key)
        if isinstance(o, Const):
            if isinstance(k, Const):
                try:
                    return Const(o.value[k.value])
                except Exception as e:
                    self.raise_builtin(type(e).__name__)
            if isinstance(k, Wrapped) and k.what == 'slice':
                p = [(x.value if isinstance(x, Const) else 'x')
                     for x in k.parts]
                if 'x' not in p:
                    return Const(o.value[slice(*p)])
            return Sym('item', o.key, k.key)
        if isinstance(o, Inst):
            if self.analysed_method(o, '__getitem__'):
                f = self.class_lookup(o.cls, '__getitem__')[0]
                return self.call(Bound(f, o), [k], {})
            if getattr(o, 'dictval', None) is not None:
                return self.getitem(o.dictval, k)
        if isinstance(o, Class) or (is_ext(o) and builtin_class(o)):
            return o
        if is_ext(o, 'sys.modules') and isinstance(k, Const):
            return self.module_value(k.value)
        if isinstance(o, Sym):
            if isinstance(k, Wrapped) and k.what == 'slice':
                return Sym('slice', o.key, k.key)
            if ('kv', o.key, k.key) in self.store:
                r = self.store[('kv', o.key, k.key)]
                if isinstance(r, _Absent):
                    self.raise_builtin('KeyError', k)
                return r
            e = self.event('op', '__getitem__', [o, k])
            res = Sym('item', o.key, k.key)
            if e:
                e.result = res
            known = self.facts.get(('has', o.key, k.key))
            if known is True:
                return res
            if known is False:
                self.raise_builtin('KeyError', k)
            if self.handlers and not self.noraise and not self.module_mode:
                # a missing key is an exact event, others are unknown
                if self.decide(('has', o.key, k.key)):
                    return res
                self.raise_builtin('KeyError', k)
            if not self.module_mode:
                self.facts[('has', o.key, k.key)] = True
            return res
        if isinstance(o, Bound) or isinstance(o, BMeth):
            self.raise_builtin('TypeError')
        return Sym('item', o.key, k.key)

    def setitem(self, o, k, v):
        if tls_item(o, k):
            self.setattr_(o.parts[0], k.value, v)
            return
        self.event('setitem', '__setitem__', [o, k, v])
        if isinstance(o, Dict):
            self.dict_set(o, k, v)
            self.dict_of(o)
            return
        if isinstance(o, List):
            self.touch(o)
            if isinstance(k, Const) and isinstance(k.value, int):
                try:
                    o.items[k.value] = v
                except IndexError:
                    self.raise_builtin('IndexError')
                return
            if isinstance(k, Wrapped) and k.what == 'slice':
                p = [(x.value if isinstance(x, Const) else None)
                     for x in k.parts]
                o.items[slice(*p)] = self.to_items(v)
            return
        if isinstance(o, Inst):
            if self.analysed_method(o, '__setitem__'):
                self.events and self.events.pop() if not self.module_mode \
                    else None
                f = self.class_lookup(o.cls, '__setitem__')[0]
                self.call(Bound(f, o), [k, v], {})
                return
            if getattr(o, 'dictval', None) is not None:
                self.dict_set(o.dictval, k, v)
            return
        if isinstance(o, Sym):
            self.may_raise(self.events[-1] if self.events else None,
                           ('setitem', o.key, k.key))
            if isinstance(k, Wrapped) and k.what == 'slice':
                return
            self.store[('kv', o.key, k.key)] = v
            self.facts.change(('has', o.key, k.key),
                              None if self.module_mode else True)
            return

    def delitem(self, o, k):
        if tls_item(o, k):
            if self.tls_get(o.parts[0], k.value) is None:
                self.raise_builtin('KeyError', k)
            self.delattr_(o.parts[0], k.value)
            return
        self.event('delitem', '__delitem__', [o, k])
        if isinstance(o, Dict):
            if self.dict_get(o, k, probe=True) is None:
                self.raise_builtin('KeyError', k)
            self.touch(o)
            for lay in o.layers:
                if isinstance(lay, dict):
                    lay.pop(k.key, None)
            self.dict_of(o)
            return
        if isinstance(o, List):
            self.touch(o)
            if isinstance(k, Const) and isinstance(k.value, int):
                try:
                    del o.items[k.value]
                except IndexError:
                    self.raise_builtin('IndexError')
            elif isinstance(k, Wrapped) and k.what == 'slice':
                p = [(x.value if isinstance(x, Const) else None)
                     for x in k.parts]
                del o.items[slice(*p)]
            return
        if isinstance(o, Inst):
            if self.analysed_method(o, '__delitem__'):
                if not self.module_mode:
                    self.events.pop()
                f = self.class_lookup(o.cls, '__delitem__')[0]
                self.call(Bound(f, o), [k], {})
                return
            if getattr(o, 'dictval', None) is not None:
                self.delitem(o.dictval, k)
            return
        if isinstance(o, Sym):
            known = self.facts.get(('has', o.key, k.key))
            if self.handlers and not self.noraise and not self.module_mode:
                if not self.decide(('has', o.key, k.key)):
                    if self.events:
                        self.events[-1].raised = Const('KeyError')
                    self.raise_builtin('KeyError', k)
            elif known is False:
                self.raise_builtin('KeyError', k)
            self.store[('kv', o.key, k.key)] = _ABSENT
            self.facts.change(('has', o.key, k.key), False)

    # --------------------------------------------------------- operators
    def binop(self, op, a, b, inplace=False):
        if isinstance(a, Const) and isinstance(b, Const):
            fn = CONST_BIN.get(op)
            if fn is not None:
                try:
                    r = fn(a.value, b.value)
                    if not isinstance(r, (str, bytes)) or len(r) < 100000:
                        return Const(r)
                except Exception as e:
                    self.raise_builtin(type(e).__name__)
        if isinstance(a, List) and op == '__add__' and \
                isinstance(b, List) and a.kind == b.kind:
            if inplace and a.kind == 'list':
                self.touch(a)
                a.items.extend(b.items)
                return a
            return List(a.items + b.items, a.kind)
        if isinstance(a, List) and inplace and op == '__add__' and \
                a.kind == 'list':
            self.touch(a)
            for x in self.to_items(b):
                a.items.append(x)
            return a
        if isinstance(a, List) and a.kind in ('set', 'frozenset') and \
                isinstance(b, List) and op in ('__or__', '__sub__',
                                               '__and__'):
            from . import pymodels
            return pymodels.set_op(self, op, a, b, inplace)
        if isinstance(a, Dict) and isinstance(b, Dict) and op == '__or__':
            d = Dict()
            if inplace:
                d = a
                self.touch(d)
                d.layers = a.snapshot() + b.snapshot()
                return d
            d.layers = a.snapshot() + b.snapshot()
            return d
        if op == '__or__' and isinstance(b, (Dict, Sym)) and (
                isinstance(a, Dict) or inplace and isinstance(a, Sym) and
                a.term[0] == 'attr' and a.term[-1] in (
                    'get_permissions', 'set_permissions')):
            # permission tables are dictionaries: their `|=` is an update
            if not inplace:
                d = Dict()
                d.layers = a.snapshot()
                a = d
            self.call(self.getattr_(a, 'update'), [b], {})
            return a
        if isinstance(a, Const) and isinstance(a.value, str) and \
                op == '__mod__':
            items = b.items if isinstance(b, List) and b.kind == 'tuple' \
                else [b]
            self.fmt_event(a.value, items)
            return Sym('fmt', a.value, tuple(x.key for x in items))
        if op == '__or__' and (isinstance(a, Class) or builtin_class(a)) and \
                (isinstance(b, Class) or builtin_class(b)):
            return Wrapped('union', a, b)
        if isinstance(a, Sym) and a.term[0] == 'fmt' or \
                isinstance(b, Sym) and b.term[0] == 'fmt':
            return Sym('fmt', op, (a.key, b.key))
        if inplace and op == '__add__' and isinstance(b, List) and \
                b.kind == 'list' and isinstance(a, Sym) and \
                a.term[0] == 'ext' and a.term[1].endswith(
                    '._zope_security_checker._available_by_default'):
            # the accelerator's list: in place
            self.event('call', 'extend', [a, b])
            return a
        for x, nm, y in ((a, op, b),):
            if isinstance(x, Inst) and self.analysed_method(x, nm):
                f = self.class_lookup(x.cls, nm)[0]
                return self.call(Bound(f, x), [y], {})
        name = ('__i' + op[2:]) if inplace else op
        term = ('op', name, a.key, b.key)
        n = self.seq(term)
        res = Sym('op', name, a.key, b.key, n)
        e = self.event('op', name, [a, b], result=res)
        self.may_raise(e, res.term)
        return res

    def fmt_event(self, fmt, items):
        for x in items:
            if not isinstance(x, Const):
                e = self.event('fmt', fmt, [x])

    def compare(self, op, a, b):
        """value of a comparison"""
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.cmp('is', a, b)
            return r if isinstance(op, ast.Is) else self.not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (List, Dict, Const)) and isinstance(a, Const) or \
                    isinstance(b, (List, Dict)) and not \
                    [1 for _ in ()]:
                r = TRUE if self.contains(a, b) else FALSE
            else:
                s = Sym('cmp', 'in', a.key, b.key)
                self.CMPS[s.term] = (a, b)
                r = s
                if isinstance(b, (Inst, Gen, Wrapped)):
                    r = TRUE if self.contains(a, b) else FALSE
                elif isinstance(b, Sym):
                    r = TRUE if self.contains(a, b) else FALSE
            return r if isinstance(op, ast.In) else self.not_(r)
        name = CMPOPS[type(op)]
        if name in ('__eq__', '__ne__'):
            if isinstance(a, Inst) and self.analysed_method(a, name):
                f = self.class_lookup(a.cls, name)[0]
                return self.call(Bound(f, a), [b], {})
            if isinstance(b, Inst) and self.analysed_method(b, name) and \
                    isinstance(a, (Inst, Const, Class, Func)):
                # the left one does not know how, so the right one is asked
                f = self.class_lookup(b.cls, name)[0]
                return self.call(Bound(f, b), [a], {})
            e = None
            if isinstance(a, Sym) and not is_ext(a) or \
                    isinstance(b, Sym) and not is_ext(b):
                e = self.event('op', name, [a, b])
            r = self.cmp('==', a, b)
            r = r if name == '__eq__' else self.not_(r)
            if e:
                e.result = r
            return r
        if isinstance(a, Const) and isinstance(b, Const):
            fn = {'__lt__': lambda x, y: x < y, '__le__': lambda x, y: x <= y,
                  '__gt__': lambda x, y: x > y,
                  '__ge__': lambda x, y: x >= y}[name]
            try:
                return Const(fn(a.value, b.value))
            except TypeError:
                self.raise_builtin('TypeError')
        if isinstance(a, Inst) and self.analysed_method(a, name):
            f = self.class_lookup(a.cls, name)[0]
            return self.call(Bound(f, a), [b], {})
        inv = {'__ge__': '__lt__', '__le__': '__gt__', '__gt__': '__le__'}
        if name in inv and isinstance(a, Sym) and isinstance(b, Sym):
            pass
        # canonical ordering facts about ints: (cmp, '<', a, b)
        res = Sym('op', name, a.key, b.key, 0)
        canon = self.canon_order(name, a, b)
        e = self.event('op', name, [a, b], result=res)
        self.may_raise(e, res.term)
        if canon is not None:
            return canon
        return res

    def canon_order(self, name, a, b):
        """a > c, c < a, a >= c+1 with an int constant: one canonical
        atom"""
        flip = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__',
                '__ge__': '__le__'}
        if isinstance(a, Const) and isinstance(b, Sym):
            a, b, name = b, a, flip[name]
        if isinstance(a, Sym) and isinstance(b, Const) and \
                isinstance(b.value, int) and not isinstance(b.value, bool):
            c = b.value
            neg = False
            if name == '__ge__':
                c = c - 1
            elif name == '__le__':
                neg = True
            elif name == '__lt__':
                c = c - 1
                neg = True
            s = Sym('gt', a.key, c)
            return self.not_(s) if neg else s
        return None

    def not_(self, v):
        k = self.known_truth(v)
        if k is not None:
            return FALSE if k else TRUE
        if isinstance(v, Sym) and v.term[0] == 'not':
            return Sym(*v.term[1])
        if isinstance(v, Sym):
            if v.term[0] in ('cmp', 'instq', 'hasq', 'gt'):
                s = Sym('not', v.term)
                return s
        return FALSE if self.truth(v) else TRUE

    # ------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        fr.line = st.lineno
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise AnalysisError(f'{fr.module.path}:{st.lineno}: statement '
                                f'{type(st).__name__} not supported')
        m(st, fr)

    def st_Expr(self, st, fr):
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Global(self, st, fr):
        pass

    st_Nonlocal = st_Global

    def st_Return(self, st, fr):
        v = self.ev(st.value, fr) if st.value is not None else NONE
        raise _Return(v)

    def st_Break(self, st, fr):
        raise _Break()

    def st_Continue(self, st, fr):
        raise _Continue()

    def st_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            self.raise_builtin('AssertionError')

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.store_name(t.id, self.binop(
                op, cur, self.ev(st.value, fr), True), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            n = self.mangle(t.attr, fr)
            cur = self.getattr_(o, n)
            self.setattr_(o, n, self.binop(
                op, cur, self.ev(st.value, fr), True))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(
                op, cur, self.ev(st.value, fr), True))

    def st_Delete(self, st, fr):
        for t in st.targets:
            self.delete(t, fr)

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            s = self.scope_for(t.id, fr)
            if t.id not in s.ns:
                self.raise_builtin('NameError', Const(t.id))
            self.touch(s)
            del s.ns[t.id]
        elif isinstance(t, ast.Attribute):
            self.delattr_(self.ev(t.value, fr), self.mangle(t.attr, fr))
        elif isinstance(t, ast.Subscript):
            self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, fr)

    def st_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)

        def body(x):
            line = fr.line
            self.assign(st.target, x, fr)
            try:
                self.exec_block(st.body, fr)
            except _Continue:
                pass
            fr.line = line
        try:
            self.iterate(it, body)
        except _Break:
            return
        self.exec_block(st.orelse, fr)

    def st_While(self, st, fr):
        n = 0
        while True:
            fr.line = st.lineno
            if not self.truth(self.ev(st.test, fr)):
                break
            n += 1
            if n > (1000 if self.module_mode else self.K + 1):
                raise Truncated()
            try:
                self.exec_block(st.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, fr)

    def st_Raise(self, st, fr):
        if st.exc is None:
            if not self.handling:
                self.raise_builtin('RuntimeError')
            raise PyRaise(self.handling[-1], self.site())
        v = self.ev(st.exc, fr)
        if isinstance(v, Class):
            v = self.instantiate(v, [], {})
        elif is_ext(v):
            e = Inst(v)
            e.args = []
            v = e
        if st.cause is not None:
            self.ev(st.cause, fr)
        self.last_site = self.site()
        raise PyRaise(v, self.site())

    def st_Try(self, st, fr):
        has = bool(st.handlers) or bool(st.finalbody)

        def inner():
            raised = None
            self.handlers += 1 if has else 0
            nframes = len(self.frames)
            try:
                self.exec_block(st.body, fr)
            except PyRaise as e:
                raised = e
            finally:
                self.handlers -= 1 if has else 0
            if raised is None:
                self.exec_block(st.orelse, fr)
                return
            assert len(self.frames) == nframes
            for h in st.handlers:
                if h.type is None:
                    ok = True
                else:
                    ok = self.exc_matches(raised.exc, self.ev(h.type, fr))
                if ok:
                    if h.name:
                        self.store_name(h.name, raised.exc, fr)
                    self.handling.append(raised.exc)
                    try:
                        self.exec_block(h.body, fr)
                    finally:
                        self.handling.pop()
                    if h.name:
                        s = self.scope_for(h.name, fr)
                        self.touch(s)
                        s.ns.pop(h.name, None)
                    return
            raise raised
        if not st.finalbody:
            inner()
            return
        self.handlers += 1
        pend = None
        try:
            inner()
        except (PyRaise, _Return, _Break, _Continue) as e:
            pend = e
        finally:
            self.handlers -= 1
        self.exec_block(st.finalbody, fr)
        if pend is not None:
            raise pend

    def st_With(self, st, fr):
        self.with_items(st.items, st.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.exec_block(body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)

        def run_body(value):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, value, fr)
            self.with_items(items[1:], body, fr)
        if isinstance(cm, Wrapped) and cm.what == 'suppress':
            self.handlers += 1
            try:
                run_body(NONE)
            except PyRaise as e:
                for c in cm.parts:
                    if self.exc_matches(e.exc, c):
                        return
                raise
            finally:
                self.handlers -= 1
            return
        if isinstance(cm, Wrapped) and cm.what == 'exitstack':
            self.handlers += 1
            pend = None
            try:
                run_body(cm)
            except (PyRaise, _Return, _Break, _Continue) as e:
                pend = e
            finally:
                self.handlers -= 1
            for f in reversed(cm.parts[0].items):
                try:
                    f.parts[0](self, [], {})
                except PyRaise as e:
                    pend = e
            if pend is not None:
                raise pend
            return
        if isinstance(cm, Wrapped) and cm.what == 'gencm':
            gen = cm.parts[0]

            def on_yield(v):
                gframe = self.frames.pop()
                try:
                    run_body(v)
                except (_Return, _Break, _Continue) as sig:
                    self.frames.append(gframe)
                    raise _CMSignal(sig)
                except PyRaise:
                    self.frames.append(gframe)
                    raise
                else:
                    self.frames.append(gframe)
            try:
                self.run_gen(gen, on_yield)
            except _CMSignal as s:
                # the generator sees the with-block end, then continues
                raise s.sig
            return
        if isinstance(cm, Inst):
            ent = self.class_lookup(cm.cls, '__enter__')
            ex = self.class_lookup(cm.cls, '__exit__')
            if ent and isinstance(ent[0], Func) and ex and \
                    isinstance(ex[0], Func):
                v = self.call(Bound(ent[0], cm), [], {})
                self.handlers += 1
                pend = None
                try:
                    run_body(v)
                except (PyRaise, _Return, _Break, _Continue) as e:
                    pend = e
                finally:
                    self.handlers -= 1
                if isinstance(pend, PyRaise):
                    r = self.call(Bound(ex[0], cm), [
                        self.type_of(pend.exc), pend.exc, NONE], {})
                    if self.truth(r):
                        return
                    raise pend
                self.call(Bound(ex[0], cm), [NONE, NONE, NONE], {})
                if pend is not None:
                    raise pend
                return
        self.event('call', Sym('attr', cm.key, '__enter__'), [cm])
        v = Sym('call', ('attr', cm.key, '__enter__'), (), 0)
        self.handlers += 1
        pend = None
        try:
            run_body(v)
        except (PyRaise, _Return, _Break, _Continue) as e:
            pend = e
        finally:
            self.handlers -= 1
        self.event('call', Sym('attr', cm.key, '__exit__'), [cm])
        if pend is not None:
            raise pend

    def st_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                self.store_name(a.asname, self.import_(a.name, fr), fr)
            else:
                self.import_(a.name, fr)
                top = a.name.split('.')[0]
                self.store_name(top, self.module_value(top), fr)

    def module_value(self, name):
        if name in self.world.modules:
            return self.world.modules[name]
        return ext(name)

    def import_(self, name, fr):
        if self.world.is_ours(name):
            return self.world.load(name)
        if name.startswith(self.world.package + '._'):
            if not self.world.c_ext:
                self.raise_builtin('ImportError', Const(name))
        self.event('import', name)
        return self.module_value(name)

    def st_ImportFrom(self, st, fr):
        mod = st.module or ''
        if st.level:
            base = fr.module.name.split('.')
            if not fr.module.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        m = self.import_(mod, fr)
        for a in st.names:
            if a.name == '*':
                if isinstance(m, Module):
                    for k, v in m.ns.items():
                        if not k.startswith('_'):
                            self.store_name(k, v, fr)
                continue
            if isinstance(m, Module):
                v = self.getattr_opt(m, a.name)
                if v is None:
                    self.raise_builtin('ImportError', Const(a.name))
            else:
                full = mod + '.' + a.name
                if self.world.is_ours(full):
                    v = self.world.load(full)
                else:
                    v = self.getattr_(m, a.name)
            self.store_name(a.asname or a.name, v, fr)

    def st_FunctionDef(self, st, fr):
        f = self.make_func(st, st.name, fr)
        v = f
        for d in reversed(st.decorator_list):
            dec = self.ev(d, fr)
            v = self.decorate(dec, v)
        self.store_name(st.name, v, fr)

    st_AsyncFunctionDef = st_FunctionDef

    def make_func(self, node, name, fr):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [self.ev(d, fr) if d is not None else None
               for d in a.kw_defaults]
        qual = name if fr.qual in ('', '<module>') else f'{fr.qual}.{name}'
        f = Func(name, node, fr, fr.module, defaults, kwd, qual)
        f.cls = fr.scope if fr.is_class else fr.cls
        info = _FUNCINFO.get(id(node))
        if info is None:
            info = _scan(node)
            _FUNCINFO[id(node)] = info
            _KEEP.append(node)
        f.locals, f.globals_, f.nonlocals_, f.is_gen = info
        return f

    def decorate(self, dec, v):
        if isinstance(dec, Sym) and dec.term[0] == 'ext':
            n = dec.term[1]
            if n in CACHING:
                return Wrapped('cached', v)
        if isinstance(dec, Sym) and dec.term[0] == 'call' and \
                dec.term[1][0] == 'ext':
            n = dec.term[1][1]
            if n in CACHING:
                return Wrapped('cached', v)
            if n.startswith(('zope.interface.', 'zope.component.')):
                self.note_declared(dec, v)
                return v
        return self.call(dec, [v], {})

    def st_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        kws = {k.arg: self.ev(k.value, fr) for k in st.keywords}
        c = Class(st.name, bases, fr.module, st)
        sub = Frame(c, fr.module, fr, None, (), True,
                    st.name if fr.qual in ('', '<module>')
                    else f'{fr.qual}.{st.name}')
        sub.cls = c
        d = ast.get_docstring(st)
        if d:
            c.ns['__doc__'] = Const(d)
        # an interface: its instances are specifications, opaque
        self.frames.append(sub)
        try:
            self.exec_block(st.body, sub)
        finally:
            self.frames.pop()
        v = c
        for dn in reversed(st.decorator_list):
            dec = self.ev(dn, fr)
            v = self.decorate(dec, v)
        self.store_name(st.name, v, fr)

    def st_Match(self, st, fr):
        v = self.ev(st.subject, fr)
        for c in st.cases:
            if self.match(c.pattern, v, fr) and (
                    c.guard is None or self.truth(self.ev(c.guard, fr))):
                self.exec_block(c.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.decide_eq(v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.decide_is(v, Const(p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and \
                not p.kwd_patterns:
            return self.isinstance_(v, self.ev(p.cls, fr))
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, List):
                if len(v.items) != len(p.patterns):
                    return False
                return all(self.match(q, x, fr)
                           for q, x in zip(p.patterns, v.items))
        raise AnalysisError(f'{fr.module.path}:{fr.line}: match pattern')

    # ----------------------------------------------------------- names
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and \
                fr.cls is not None:
            return '_' + fr.cls.name.lstrip('_') + name
        return name

    def scope_for(self, name, fr):
        if name in fr.globals_:
            return fr.module
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if not p.is_class and name in p.scope.ns:
                    return p.scope
                p = p.parent
        if fr.comp:
            return fr.scope
        return fr.scope

    def store_name(self, name, v, fr):
        name = self.mangle(name, fr)
        s = self.scope_for(name, fr)
        if s is fr.module or s is not fr.scope:
            self.touch(s)
            if s is fr.module and not self.module_mode:
                self.event('setglobal', name, [v])
        s.ns[name] = v
        if isinstance(s, Module) and isinstance(v, (Inst, Dict, List)) and \
                v.label is None and self.module_mode:
            v.label = f'{s.name}.{name}'

    def lookup(self, name, fr):
        name = self.mangle(name, fr)
        if name in fr.scope.ns and name not in fr.globals_:
            return fr.scope.ns[name]
        if name in fr.locals and name not in fr.globals_ and \
                name not in fr.nonlocals:
            self.raise_builtin('UnboundLocalError', Const(name))
        if name not in fr.globals_:
            p = fr.parent
            while p is not None:
                if not p.is_class and not isinstance(p.scope, Module) and \
                        name in p.scope.ns:
                    return p.scope.ns[name]
                p = p.parent
        if name == '__class__' and fr.cls is not None:
            return fr.cls
        if name in fr.module.ns:
            return fr.module.ns[name]
        if hasattr(_b, name):
            return BUILTIN_CONST.get(name) or ext('builtins.' + name)
        if name == '__file__':
            return Const(fr.module.path)
        self.raise_builtin('NameError', Const(name))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                items = self.to_items(v)
                i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                after = n - i - 1
                if len(items) < n - 1:
                    self.raise_builtin('ValueError')
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, List(
                    items[i:len(items) - after]), fr)
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y, fr)
                return
            if isinstance(v, Sym):
                e = self.event('unpack', '__iter__', [v])
                for i, x in enumerate(t.elts):
                    self.assign(x, Sym('item', v.key, Const(i).key), fr)
                return
            items = self.to_items(v)
            if len(items) != n:
                self.raise_builtin('ValueError')
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise AnalysisError(f'assignment target {type(t).__name__}')

    # ------------------------------------------------------- expressions
    def ev(self, n, fr):
        if hasattr(n, 'lineno'):
            fr.line = n.lineno
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError(f'{fr.module.path}:{fr.line}: expression '
                                f'{type(n).__name__} not supported')
        v = m(n, fr)
        if isinstance(v, Sym):
            SYMS.setdefault(v.term, v)
        return v

    def ex_Constant(self, n, fr):
        return Const(n.value)

    def ex_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def ex_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f.comp:
            f = f.parent
        self.store_name(n.target.id, v, f)
        return v

    def ex_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        fr.line = n.lineno
        return self.getattr_(o, self.mangle(n.attr, fr))

    def ex_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        k = self.ev(n.slice, fr)
        return self.getitem(o, k)

    def ex_Slice(self, n, fr):
        return Wrapped('slice', *[self.ev(x, fr) if x is not None else NONE
                                  for x in (n.lower, n.upper, n.step)])

    def ex_Tuple(self, n, fr):
        return List(self.elts(n.elts, fr), 'tuple')

    def ex_List(self, n, fr):
        return List(self.elts(n.elts, fr), 'list')

    def ex_Set(self, n, fr):
        from . import pymodels
        return pymodels.make_set(self, self.elts(n.elts, fr))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_items(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, n, fr):
        d = Dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v, fr)
                m = getattr(m, 'dictval', None) or m
                if isinstance(m, Dict) and len(d.layers) == 1 and m.closed():
                    for kv, vv in m.explicit():
                        self.dict_set(d, kv, vv)
                elif isinstance(m, Dict):
                    d.layers = d.layers + m.snapshot()
                else:
                    d.layers.append(m)
            else:
                kv = self.ev(k, fr)
                self.dict_set(d, kv, self.ev(v, fr))
        return d

    def ex_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != isand:
                if isinstance(v, Sym) and v.term[0] == 'cmp' and \
                        v.term[1] in ('is', 'is not', 'in', 'not in'):
                    return Const(not isand)
                return v

    def ex_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return self.not_(v)
        name = UNOPS[type(n.op)]
        if isinstance(v, Const):
            try:
                return Const({'__neg__': lambda x: -x,
                              '__pos__': lambda x: +x,
                              '__invert__': lambda x: ~x}[name](v.value))
            except TypeError:
                self.raise_builtin('TypeError')
        return self.unop(name, v)

    def unop(self, name, v):
        if isinstance(v, Inst) and self.analysed_method(v, name):
            f = self.class_lookup(v.cls, name)[0]
            return self.call(Bound(f, v), [], {})
        term = ('op', name, v.key)
        res = Sym('op', name, v.key, self.seq(term))
        e = self.event('op', name, [v], result=res)
        self.may_raise(e, res.term)
        return res

    def ex_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(BINOPS[type(n.op)], a, b)

    def ex_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, fr)
            v = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                return v
            if not self.truth(v):
                return v
            left = right

    def ex_IfExp(self, n, fr):
        if self.truth(self.ev(n.test, fr)):
            return self.ev(n.body, fr)
        return self.ev(n.orelse, fr)

    def ex_Lambda(self, n, fr):
        return self.make_func(n, '<lambda>', fr)

    def ex_JoinedStr(self, n, fr):
        parts = []
        items = []
        const = ''
        allconst = True
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(('const', 'str', x.value))
                const += x.value
            else:
                v = self.ev(x.value, fr)
                if isinstance(v, Const) and x.format_spec is None and \
                        x.conversion == -1:
                    const += str(v.value)
                else:
                    allconst = False
                parts.append(v.key)
                items.append(v)
        if allconst:
            return Const(const)
        self.fmt_event('f-string', items)
        return Sym('fmt', 'f', tuple(parts))

    def ex_Call(self, n, fr):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            f = self.lookup('super', fr)
            if is_ext(f, 'builtins.super'):
                g = fr
                while g.comp:
                    g = g.parent
                selfv = g.scope.ns.get(g.first_arg) if g.first_arg else None
                if isinstance(selfv, List) and selfv.kind == 'tuple':
                    selfv = selfv.items[0]
                if g.cls is None or selfv is None:
                    self.raise_builtin('RuntimeError')
                return SuperV(g.cls, selfv)
        f = self.ev(n.func, fr)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                sv = self.ev(x.value, fr)
                if isinstance(sv, Sym) and not self.module_mode and \
                        sv.term[0] != 'ext' and False:
                    pass
                args.extend(self.to_items(sv))
            else:
                args.append(self.ev(x, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Dict):
                    for kv, vv in v.explicit():
                        if isinstance(kv, Const):
                            kw[kv.value] = vv
                    if v.syms():
                        kw['**'] = v.syms()[0]
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        fr.line = n.lineno
        return self.call(f, args, kw, n)

    def ex_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def comp(self, gens, fr, leaf):
        sub = Frame(Scope('<comp>'), fr.module, fr, None, (), qual=fr.qual)
        sub.cls = fr.cls
        sub.comp = True
        sub.line = fr.line

        def rec(i, f):
            if i == len(gens):
                leaf(sub)
                return
            g = gens[i]
            it = self.ev(g.iter, fr if i == 0 else sub)

            def body(x):
                self.assign(g.target, x, sub)
                for c in g.ifs:
                    if not self.truth(self.ev(c, sub)):
                        return
                rec(i + 1, f)
            self.iterate(it, body)
        self.frames.append(sub)
        try:
            rec(0, leaf)
        finally:
            self.frames.pop()

    def ex_ListComp(self, n, fr):
        out = []
        self.comp(n.generators, fr, lambda s: out.append(self.ev(n.elt, s)))
        return List(out, 'list')

    def ex_SetComp(self, n, fr):
        from . import pymodels
        out = []
        self.comp(n.generators, fr, lambda s: out.append(self.ev(n.elt, s)))
        return pymodels.make_set(self, out)

    def ex_GeneratorExp(self, n, fr):
        def go(cb):
            self.comp(n.generators, fr, lambda s: cb(self.ev(n.elt, s)))
        return Wrapped('lazyiter', go)

    def ex_DictComp(self, n, fr):
        d = Dict()

        def leaf(s):
            k = self.ev(n.key, s)
            self.dict_set(d, k, self.ev(n.value, s))
        self.comp(n.generators, fr, leaf)
        return d

    def ex_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else NONE
        g = fr
        while g.comp:
            g = g.parent
        cb = g.yield_cb
        if cb is None:
            raise AnalysisError('yield outside of an iterated generator')
        cb(v)
        return NONE

    def ex_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        g = fr
        while g.comp:
            g = g.parent
        self.iterate(v, g.yield_cb)
        return NONE

    def ex_FormattedValue(self, n, fr):
        v = self.ev(n.value, fr)
        self.fmt_event('f', [v])
        return Sym('fmt', 'f', (v.key,))

    def type_of(self, v):
        if isinstance(v, Const):
            return ext('builtins.' + type(v.value).__name__)
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Dict):
            return v.cls or ext('builtins.dict')
        if isinstance(v, List):
            return ext('builtins.' + v.kind)
        if isinstance(v, Class):
            return ext('builtins.type')
        if isinstance(v, Func):
            return ext('types.FunctionType')
        if isinstance(v, Module):
            return ext('types.ModuleType')
        if isinstance(v, Gen):
            return ext('types.GeneratorType')
        if isinstance(v, Wrapped) and v.what == 'iterator' and \
                len(v.parts) > 1:
            return ext('builtins.' + v.parts[1].replace(
                'keys', 'key').replace('values', 'value').replace(
                'items', 'item') + ('iterator' if 'dict' in v.parts[1]
                                    else '_iterator'))
        return Sym('type', v.key)


class _CMSignal(Exception):
    def __init__(self, sig):
        self.sig = sig


class _Absent(V):
    key = ('absent',)

    def __repr__(self):
        return '<absent>'


_ABSENT = _Absent()
_FUNCINFO = {}
_KEEP = []
SYMS = {}
OBJECTS = {}

CONST_BIN = {
    '__add__': lambda a, b: a + b, '__sub__': lambda a, b: a - b,
    '__mul__': lambda a, b: a * b if (isinstance(a, int) and
                                      isinstance(b, int)) else a * b,
    '__truediv__': lambda a, b: a / b, '__floordiv__': lambda a, b: a // b,
    '__mod__': lambda a, b: a % b,
    '__pow__': lambda a, b: a ** b if abs(b) < 200 else None,
    '__lshift__': lambda a, b: a << b if b < 200 else None,
    '__rshift__': lambda a, b: a >> b, '__or__': lambda a, b: a | b,
    '__and__': lambda a, b: a & b, '__xor__': lambda a, b: a ^ b,
}

BUILTIN_CONST = {'True': TRUE, 'False': FALSE, 'None': NONE,
                 'Ellipsis': Const(...),
                 'NotImplemented': ext('builtins.NotImplemented')}

EXT_MAPPINGS = {'zope.security._zope_security_checker._checkers'}
TRANSPARENT = {'zope.interface.implementer', 'zope.interface.provider',
               'zope.interface.implementer_only',
               'zope.interface.declarations.implementer'}
DECLARING = {'classImplements', 'classImplementsFirst', 'classImplementsOnly',
             'directlyProvides', 'alsoProvides'}
PURE_METHODS = {'providedBy', 'implementedBy', 'isOrExtends', 'getName'}

MAKERS = {'__init__', '__new__'}
CACHING = {'functools.lru_cache', 'functools.cache',
           'functools.cached_property'}

METHODISH = set()
EXT_MRO = {
    'zope.proxy.PyProxyBase': ['zope.proxy.PyProxyBase',
                               'zope.proxy.AbstractPyProxyBase',
                               'builtins.object'],
    'zope.proxy.AbstractPyProxyBase': ['zope.proxy.AbstractPyProxyBase',
                                       'builtins.object'],
    'threading.local': ['threading.local', 'builtins.object'],
    'abc.ABC': ['abc.ABC', 'builtins.object'],
}
EXT_MEMBERS = {'threading.local': set(), 'abc.ABC': set()}
EXT_MEMBERS['zope.proxy.PyProxyBase'] = set()
EXT_MEMBERS['zope.proxy.AbstractPyProxyBase'] = set('''
    __new__ __init__ __call__ __repr__ __str__ __reduce__ __reduce_ex__ __lt__
    __le__ __eq__ __ne__ __gt__ __ge__ __bool__ __hash__ __getattribute__
    __getattr__ __setattr__ __delattr__ __len__ __getitem__ __setitem__
    __delitem__ __iter__ next __next__ __contains__ __neg__ __pos__ __abs__
    __invert__ __complex__ __int__ __float__ __index__ __add__ __sub__ __mul__
    __floordiv__ __truediv__ __mod__ __divmod__ __pow__ __radd__ __rsub__
    __rmul__ __rfloordiv__ __rtruediv__ __rmod__ __rdivmod__ __rpow__
    __lshift__ __rshift__ __and__ __xor__ __or__ __rlshift__ __rrshift__
    __rand__ __rxor__ __ror__ __iadd__ __isub__ __imul__ __itruediv__
    __ifloordiv__ __imod__ __ilshift__ __irshift__ __iand__ __ixor__ __ior__
    __ipow__ __module__ __doc__'''.split())
CLOSED_EXT = {'threading.local', 'abc.ABC'}
ALIASES = {
    'types.NoneType': 'builtins.NoneType',
    'builtins.EnvironmentError': 'builtins.OSError',
    'types.BuiltinMethodType': 'types.BuiltinFunctionType',
}
# externals whose call has no effect and the same answer each time
PURE_EXT = {'builtins.id', 'builtins.hash', 'zope.proxy.getProxiedObject'}
EXCLUSIVE = {'builtins.str', 'builtins.int', 'builtins.dict',
             'builtins.list', 'builtins.tuple', 'builtins.set',
             'builtins.type', 'types.ModuleType', 'types.FunctionType'}
EXCLUSIVE -= {'builtins.int'}


def _const_is_instance(k, ck):
    """constant key k is an instance of the class with key ck"""
    if ck.startswith('builtins.'):
        c = getattr(_b, ck[9:], None)
        if isinstance(c, type):
            return isinstance(k[2], c)
    return False


def _scan(node):
    """names bound in a function, its global/nonlocal names, generator?"""
    bound, glob, nonl = set(), set(), set()
    gen = False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        bound.add(x.arg)
    if a.vararg:
        bound.add(a.vararg.arg)
    if a.kwarg:
        bound.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            bound.add(n.name)
            todo.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            todo.append(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    bound.add(w.target.id)
            continue
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        elif isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            bound.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                bound.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            bound.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return frozenset(bound - glob - nonl), glob, nonl, gen
