"""State that outlives one call.

A function analysed on its own starts from a state that earlier calls may
have changed.  This module finds, in the syntax trees of all modules, what
functions of the package may change besides their arguments and their own
variables: module variables, containers in module variables, class bodies and
argument defaults, and attributes of functions, classes and instances.  The
evaluated program then has an unknown value in each of these places, except
for the state the rules model themselves (KNOWN)."""
import ast

from .pyvals import *  # noqa
from .pyvals import V

KNOWN = {
    'checker': {'_checkers', '_default_checkers', '_available_by_default',
                'BasicTypes', '_defaultChecker', '_getChecker'},
    'management': {'_defaultPolicy', 'thread_local'},
    '_definitions': {'thread_local', 'system_user'},
}
MUTATORS = {'append', 'add', 'update', 'setdefault', 'pop', 'clear',
            'extend', 'insert', 'remove', 'popitem', 'discard', 'sort',
            'reverse', '__setitem__', '__delitem__', 'appendleft',
            'move_to_end', 'difference_update', 'intersection_update',
            '__setattr__', '__delattr__'}
MAKERS = {'__init__', '__new__', '__init_subclass__', '__set_name__'}


def root(n):
    """(name, path of attributes) of a chain such as name.a.b"""
    path = []
    while True:
        if isinstance(n, ast.Attribute):
            path.append(n.attr)
            n = n.value
        elif isinstance(n, ast.Subscript):
            path = []
            n = n.value
        else:
            break
    if isinstance(n, ast.Name):
        return n.id, tuple(reversed(path))
    return None, tuple(reversed(path))


def targets(n):
    if isinstance(n, (ast.Tuple, ast.List)):
        for x in n.elts:
            yield from targets(x)
    elif isinstance(n, ast.Starred):
        yield from targets(n.value)
    else:
        yield n


class Scan(ast.NodeVisitor):
    """What the functions of one module change."""

    def __init__(self):
        self.names = set()      # module variables rebound
        self.contents = set()   # (name, attributes) whose value is changed
        self.attrs = {}         # attributes stored -> {function names}
        self.inner = set()      # attributes whose value is changed
        self.stack = []

    def function(self, n):
        self.stack.append((n, self.local_names(n)))
        for x in n.body if isinstance(n.body, list) else [n.body]:
            self.visit(x)
        self.stack.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = function

    @staticmethod
    def local_names(n):
        a = n.args
        out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x is not None:
                out.add(x.arg)
        gl = set()
        todo = list(n.body) if isinstance(n.body, list) else [n.body]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef)):
                out.add(x.name)
                continue
            if isinstance(x, ast.Lambda):
                continue
            if isinstance(x, ast.Global):
                gl |= set(x.names)
            elif isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                out.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(y.asname or y.name).split('.')[0] for y in x.names}
            todo.extend(ast.iter_child_nodes(x))
        return out - gl

    def is_local(self, name):
        return any(name in loc for _, loc in self.stack)

    def fn(self):
        return getattr(self.stack[-1][0], 'name', '<lambda>')

    def changed(self, n):
        """the value of expression n is changed in place"""
        # aliases made in the function
        name, path = root(n)
        if path:
            self.inner.add(path[-1])
        if name is None:
            return
        if self.is_local(name):
            for v in self.aliases(name):
                self.changed(v)
            self.contents.add(('arg', self.fn(), name))
        else:
            self.contents.add((name, path))

    def aliases(self, name):
        for f, loc in reversed(self.stack):
            if name in loc:
                out = []
                for x in ast.walk(f):
                    if isinstance(x, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == name
                            for t in x.targets):
                        v = x.value
                        while isinstance(v, ast.Call) and isinstance(
                                v.func, ast.Attribute) and v.func.attr in (
                                    'get', 'setdefault'):
                            v = v.func.value
                        if isinstance(v, ast.Subscript):
                            v = v.value
                        n2, _ = root(v)
                        if isinstance(v, (ast.Name, ast.Attribute)) and \
                                n2 != name:
                            out.append(v)
                return out
        return []

    def store(self, t):
        if isinstance(t, ast.Name):
            if not self.is_local(t.id):
                self.names.add(t.id)
        elif isinstance(t, ast.Attribute):
            self.attrs.setdefault(t.attr, set()).add(self.fn())
            name, path = root(t.value)
            if name is not None and not self.is_local(name):
                self.contents.add((name, path + (t.attr, '=')))
            elif name is not None:
                for v in self.aliases(name):
                    n2, p2 = root(v)
                    if n2 is not None and not self.is_local(n2):
                        self.contents.add((n2, p2 + path + (t.attr, '=')))
        elif isinstance(t, ast.Subscript):
            self.changed(t.value)

    def visit_Assign(self, n):
        if self.stack:
            for t in n.targets:
                for x in targets(t):
                    self.store(x)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if self.stack and n.value is not None:
            self.store(n.target)
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        if self.stack:
            self.store(n.target)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if self.stack:
            self.store(n.target)
            if not isinstance(n.target, ast.Subscript):
                self.changed(n.target)
        self.generic_visit(n)

    def visit_Delete(self, n):
        if self.stack:
            for t in n.targets:
                for x in targets(t):
                    self.store(x)
        self.generic_visit(n)

    def visit_For(self, n):
        if self.stack:
            for x in targets(n.target):
                self.store(x)
        self.generic_visit(n)

    def visit_With(self, n):
        if self.stack:
            for i in n.items:
                if i.optional_vars is not None:
                    for x in targets(i.optional_vars):
                        self.store(x)
        self.generic_visit(n)

    def visit_Call(self, n):
        if self.stack:
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                self.changed(f.value)
            if isinstance(f, ast.Name) and f.id in ('setattr', 'delattr') \
                    and len(n.args) > 1 and isinstance(
                        n.args[1], ast.Constant):
                self.store(ast.Attribute(n.args[0], n.args[1].value,
                                         ast.Store()))
        self.generic_visit(n)


def container(v):
    return isinstance(v, Dict) or isinstance(v, List) and v.kind != 'tuple'


def open_state(w):
    """Make the values of what functions may change unknown."""
    w.state = []                # what was found
    w.late = {}                 # attribute -> functions that store it
    scans = {}
    for name, tree in w.asts.items():
        s = scans[name] = Scan()
        s.visit(tree)
        for a, fs in s.attrs.items():
            w.late.setdefault(a, set()).update(fs)
    inner = set()
    for s in scans.values():
        inner |= s.inner
    swap = {}                   # uid of a container -> unknown
    known = set()
    for mn, names in KNOWN.items():
        m = w.modules.get(f'{w.package}.{mn}')
        for n in names:
            v = m.ns.get(n) if m is not None else None
            if isinstance(v, Obj):
                known.add(v.uid)

    def unknown(v, label):
        if v.uid in known or v.uid in swap:
            return
        w.state.append(label)
        s = Sym('state', label)
        if isinstance(v, Dict):
            v.layers = [s]
            known.add(v.uid)
        else:
            swap[v.uid] = s

    for name, s in scans.items():
        m = w.modules[name]
        short = name[len(w.package) + 1:]
        mine = KNOWN.get(short, ())
        for n in s.names:
            if n in m.ns and n not in mine:
                label = f'{short}.{n}'
                w.state.append(label)
                m.ns[n] = Sym('state', label)
        for c in s.contents:
            if c[0] == 'arg':
                for f in functions(w, m):
                    if f.name == c[1]:
                        for v in default_of(f, c[2]):
                            if container(v):
                                unknown(v, f'{short}.{c[1]}({c[2]})')
                continue
            n, path = c
            v = m.ns.get(n)
            if v is None or n in mine:
                continue
            store = path[-1:] == ('=',)
            if store:
                attr, path = path[-2], path[:-2]
            for a in path:
                v = v.ns.get(a) if isinstance(v, (Module, Class, Func)) \
                    else v.attrs.get(a) if isinstance(v, Inst) else None
            label = '.'.join((short, n) + path)
            if store:
                if isinstance(v, (Func, Class)) or isinstance(v, Module) \
                        and attr not in KNOWN.get(
                            v.name[len(w.package) + 1:], ()):
                    w.state.append(f'{label}.{attr}')
                    v.ns[attr] = Sym('state', f'{label}.{attr}')
            elif v is not None and container(v):
                unknown(v, label)
        # containers in class bodies and function attributes
        for k in list(m.ns.values()):
            if isinstance(k, (Class, Func)) and k.module is m:
                for a, v in list(k.ns.items()):
                    if a in inner and container(v):
                        unknown(v, f'{k.label}.{a}')
    if swap:
        for m in w.modules.values():
            replace(m.ns, swap)
            for k in list(m.ns.values()):
                if isinstance(k, (Class, Func)):
                    replace(k.ns, swap)
                if isinstance(k, Inst):
                    replace(k.attrs, swap)
            for f in functions(w, m):
                if f.defaults:
                    f.defaults = [swap.get(getattr(v, 'uid', None), v)
                                  for v in f.defaults]
                if f.kwdefaults:
                    f.kwdefaults = [swap.get(getattr(v, 'uid', None), v)
                                    for v in f.kwdefaults]


def replace(ns, swap):
    for k, v in list(ns.items()):
        if isinstance(v, Obj) and v.uid in swap:
            ns[k] = swap[v.uid]


def functions(w, m):
    for v in list(m.ns.values()):
        if isinstance(v, Func) and v.module is m:
            yield v
        elif isinstance(v, Class) and v.module is m:
            for x in list(v.ns.values()):
                if isinstance(x, Func):
                    yield x
                elif isinstance(x, Wrapped):
                    for y in x.parts:
                        if isinstance(y, Func):
                            yield y


def default_of(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = list(f.defaults or ())
    for x, v in zip(pos[len(pos) - len(d):], d):
        if x.arg == name:
            yield v
    for x, v in zip(a.kwonlyargs, f.kwdefaults or ()):
        if x.arg == name and v is not None:
            yield v
