"""Abstract values of the Python value-flow analysis.

Every value the analysed code can hold is one of
  Const      a literal,
  Sym        an opaque value, known only by its *origin* (a nested tuple: the
             parameter, the attribute of another origin, the result of a call..),
  Obj        an object created by the analysed code itself (function, class,
             instance, dict, list ...), known exactly.
"""


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value

    @property
    def key(self):
        return ('const', type(self.value).__name__, self.value)

    def __repr__(self):
        return repr(self.value)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Sym(V):
    __slots__ = ('term',)

    def __init__(self, *term):
        self.term = term

    @property
    def key(self):
        return self.term

    def __repr__(self):
        return show(self.term)


class Obj(V):
    counter = [0]
    kind = 'object'

    def __init__(self, label=None):
        Obj.counter[0] += 1
        self.uid = Obj.counter[0]
        self.label = label

    @property
    def key(self):
        return ('obj', self.uid, self.label or self.kind)

    def __repr__(self):
        return f'<{self.kind} {self.label or self.uid}>'

    # state that the analysed code may change: name of attributes
    mutable = ()


class Dict(Obj):
    kind = 'dict'
    mutable = ('layers',)

    def __init__(self, items=(), label=None, cls=None):
        super().__init__(label)
        self.layers = [dict()]      # oldest first: dict key->(kv, vv) | Sym
        self.cls = cls
        for k, v in items:
            self.layers[0][k.key] = (k, v)

    def snapshot(self):
        return [dict(x) if isinstance(x, dict) else x for x in self.layers]

    def restore(self, s):
        self.layers = s

    def explicit(self):
        out = {}
        for lay in self.layers:
            if isinstance(lay, dict):
                out.update(lay)
        return list(out.values())

    def syms(self):
        return [x for x in self.layers if not isinstance(x, dict)]

    def closed(self):
        return not self.syms()


class List(Obj):
    """list, tuple, set, frozenset"""
    mutable = ('items', 'order')

    def __init__(self, items=(), kind='list', label=None):
        super().__init__(label)
        self.items = list(items)
        self.kind = kind
        self.order = None       # (keydesc, [keys of items]) when last sorted

    @property
    def key(self):
        if self.kind == 'tuple':
            return ('tuple',) + tuple(x.key for x in self.items)
        return super().key

    def snapshot(self):
        return (list(self.items), self.order)

    def restore(self, s):
        self.items, self.order = s

    def __repr__(self):
        o, c = {'list': '[]', 'tuple': '()', 'set': '{}'}.get(self.kind, '{}')
        return o + ', '.join(map(repr, self.items)) + c


class Inst(Obj):
    kind = 'instance'
    mutable = ('attrs',)

    def __init__(self, cls, label=None, lazy=False, term=None):
        super().__init__(label)
        self.cls = cls
        self.attrs = {}
        self.lazy = lazy        # unknown attributes exist and are opaque
        self.term = term
        self.args = None        # exceptions: constructor arguments

    def snapshot(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    @property
    def key(self):
        if self.term is not None:
            return self.term
        return super().key

    def __repr__(self):
        name = getattr(self.cls, 'name', None) or repr(self.cls)
        if self.args is not None:
            return f"{name}({', '.join(map(repr, self.args))})"
        return f'<{name} {self.label or self.uid}>'


class Scope(Obj):
    """A namespace: module, class body or function locals."""
    kind = 'scope'
    mutable = ('ns',)

    def __init__(self, label=None):
        super().__init__(label)
        self.ns = {}

    def snapshot(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns = s


class Module(Scope):
    kind = 'module'

    def __init__(self, name, path):
        super().__init__(name)
        self.name = name
        self.path = path


class Class(Scope):
    kind = 'class'

    def __init__(self, name, bases, module, node=None):
        super().__init__(f'{module.name}.{name}' if module else name)
        self.name = name
        self.bases = bases
        self.module = module
        self.node = node
        self.decorated = False
        self.mro = None

    def __repr__(self):
        return f'<class {self.label}>'


class Func(Scope):
    """ns: function attributes"""
    kind = 'function'

    def __init__(self, name, node, frame, module, defaults, kwdefaults,
                 qual):
        super().__init__(f'{module.name}.{qual}')
        self.name = name
        self.node = node
        self.frame = frame          # defining frame
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.cls = None             # class whose body defines it
        self.is_gen = False
        self.cm = False             # contextlib.contextmanager
        self.locals = ()


class Bound(V):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    @property
    def key(self):
        return ('bound', self.func.key, self.self.key)

    def __repr__(self):
        return f'<bound {self.func!r} of {self.self!r}>'


class BMeth(V):
    """method of a builtin container or constant"""
    __slots__ = ('self', 'name')

    def __init__(self, self_, name):
        self.self = self_
        self.name = name

    @property
    def key(self):
        return ('bmeth', self.self.key, self.name)

    def __repr__(self):
        return f'{self.self!r}.{self.name}'


class Wrapped(V):
    """property, staticmethod, classmethod, partial, attrgetter ..."""
    __slots__ = ('what', 'parts')

    def __init__(self, what, *parts):
        self.what = what
        self.parts = parts

    @property
    def key(self):
        return ('wrapped', self.what) + tuple(
            p.key if isinstance(p, V) else repr(p) for p in self.parts)

    def __repr__(self):
        return f'<{self.what} {self.parts!r}>'


class SuperV(V):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_

    @property
    def key(self):
        return ('super', self.cls.key, self.self.key)


class FrameV(V):
    __slots__ = ('frame',)

    def __init__(self, frame):
        self.frame = frame

    @property
    def key(self):
        return ('frame', id(self.frame))


class Gen(Obj):
    kind = 'generator'
    mutable = ('cache',)

    def __init__(self, func, frame):
        super().__init__(func.label)
        self.func = func
        self.frame = frame
        self.cache = None

    def snapshot(self):
        return self.cache

    def restore(self, s):
        self.cache = s


def show(t):
    """readable form of an origin term"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    h = t[0]
    if h == 'const':
        return repr(t[2])
    if h == 'param':
        return str(t[1])
    if h == 'ext':
        return t[1].split('.', 1)[1] if t[1].startswith('builtins.') else t[1]
    if h == 'attr':
        return f'{show(t[1])}.{t[2]}'
    if h == 'item':
        return f'{show(t[1])}[{show(t[2])}]'
    if h == 'elem':
        return f'elem{t[2]}({show(t[1])})'
    if h == 'call':
        r = f"{show(t[1])}({', '.join(show(x) for x in t[2])})"
        return r if not t[3] else f'{r}#{t[3]}'
    if h == 'obj':
        return str(t[2])
    if h == 'tuple':
        return '(' + ', '.join(show(x) for x in t[1:]) + ')'
    if h == 'bound':
        return f'{show(t[1])}<{show(t[2])}>'
    if h == 'not':
        return f'not {show(t[1])}'
    if not isinstance(h, str):
        return '(' + ', '.join(show(x) for x in t) + ')'
    return h + '(' + ', '.join(show(x) if isinstance(x, tuple) else str(x)
                               for x in t[1:]) + ')'


def ext(name):
    return Sym('ext', name)


def is_ext(v, name=None):
    return (isinstance(v, Sym) and v.term[0] == 'ext'
            and (name is None or v.term[1] == name))


def tup(*items):
    return List(items, 'tuple')
