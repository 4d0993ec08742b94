"""Path-sensitive interpretation of the C extensions' LLVM IR.

Every path of a function (helpers inlined, the CPython API modelled) is
followed over symbolic values; nothing is executed and no solver is used.
A path carries its events, the facts it decided, the references it owns, the
error indicator and the problems (bad uses) found on it.
"""
import os
import sysconfig
from collections import namedtuple

from .cir import compile_ir, IRError
from .pyai import AnalysisError     # noqa

Ptr = namedtuple('Ptr', 'base off')
IS = namedtuple('IS', 'key')            # a symbolic integer
NULL = Ptr(None, 0)
UNDEF = ('undef',)

NONE = ('ext', 'None')
TRUE = ('ext', 'True')
FALSE = ('ext', 'False')
NOTIMPL = ('ext', 'NotImplemented')
IMMORTAL = {NONE, TRUE, FALSE, NOTIMPL, ('ext', 'Ellipsis')}

GLOBAL_OBJECTS = {
    '_Py_NoneStruct': NONE, '_Py_TrueStruct': TRUE, '_Py_FalseStruct': FALSE,
    '_Py_NotImplementedStruct': NOTIMPL,
    '_Py_EllipsisObject': ('ext', 'Ellipsis'),
    'PyBaseObject_Type': ('ext', 'object'), 'PyDict_Type': ('ext', 'dict'),
    'PyUnicode_Type': ('ext', 'str'), 'PyList_Type': ('ext', 'list'),
    'PyTuple_Type': ('ext', 'tuple'), 'PyType_Type': ('ext', 'type'),
    'PyLong_Type': ('ext', 'int'), 'PyBool_Type': ('ext', 'bool'),
    'PyCapsule_Type': ('ext', 'PyCapsule'),
    'PyModule_Type': ('ext', 'module'),
}
PROXYBASE = ('ext', 'zope.proxy.ProxyBase')
# the slots zope.proxy's ProxyBase fills (all of them unchecked)
BASE_SLOTS = set('''tp_dealloc tp_repr tp_as_number tp_as_sequence
    tp_as_mapping tp_hash tp_call tp_str tp_getattro tp_setattro tp_traverse
    tp_clear tp_richcompare tp_iter tp_iternext tp_methods tp_init tp_new
    nb_add nb_subtract nb_multiply nb_remainder nb_divmod nb_power
    nb_negative nb_positive nb_absolute nb_bool nb_invert nb_lshift nb_rshift
    nb_and nb_xor nb_or nb_int nb_float nb_inplace_add nb_inplace_subtract
    nb_inplace_multiply nb_inplace_remainder nb_inplace_power
    nb_inplace_lshift nb_inplace_rshift nb_inplace_and nb_inplace_xor
    nb_inplace_or nb_floor_divide nb_true_divide nb_inplace_floor_divide
    nb_inplace_true_divide nb_index sq_length sq_contains mp_length
    mp_subscript mp_ass_subscript'''.split())

TYPE_STRUCTS = {'tp_as_mapping': 'PyMappingMethods',
                'tp_as_number': 'PyNumberMethods',
                'tp_as_sequence': 'PySequenceMethods',
                'tp_as_async': 'PyAsyncMethods'}
NEVER_NULL_SLOTS = {'tp_free', 'tp_alloc', 'tp_dealloc', 'tp_name', 'tp_new',
                    'tp_init', 'tp_getattro', 'tp_setattro', 'tp_repr',
                    'tp_str', 'tp_hash', 'tp_richcompare'}

# predicates on integers
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle',
       'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge',
        'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


class Stop(Exception):
    """the path ends here (a fatal problem was recorded)"""


class Truncated(Exception):
    pass


class Infeasible(Exception):
    pass


class Event:
    __slots__ = ('kind', 'name', 'args', 'res', 'ok', 'line', 'fn', 'py',
                 'extra', 'err')

    def __init__(self, kind, name, args, line, fn, py):
        self.kind, self.name, self.args = kind, name, args
        self.line, self.fn, self.py = line, fn, py
        self.res = None
        self.ok = True
        self.extra = None
        self.err = None

    def __repr__(self):
        a = ', '.join(show(x) for x in self.args)
        r = '' if self.res is None else f' = {show(self.res)}'
        return (f'{self.kind} {self.name or ""}({a}){r}'
                f'{"" if self.ok else " [fails]"} @{self.fn}:{self.line}')


def show(k):
    if isinstance(k, tuple) and k:
        if k[0] in ('param', 'ext', 'str', 'global'):
            return str(k[1]) if k[0] != 'str' else repr(k[1])
        if k[0] == 'import':
            return f'{k[1]}.{k[2]}'
        if k[0] == 'field':
            return f'{show(k[1])}->{k[2]}'
        if k[0] == 'tslot':
            return f'{show(k[2])}.{k[1]}'
        if k[0] == 'type':
            return f'type({show(k[1])})'
        if k[0] == 'r':
            return f'r{k[1]}:{k[2]}'
        return '(' + ' '.join(show(x) for x in k) + ')'
    return str(k)


class CPath:
    def __init__(self, run, kind, value):
        self.run = run
        self.kind = kind            # return, truncated, stopped
        self.value = value
        self.events = run.events
        self.facts = run.facts
        self.problems = run.problems
        self.err = run.err
        self.site = run.last_site

    def key(self):
        """origin of the returned object, None for NULL"""
        v = self.value
        if isinstance(v, Ptr):
            if self.run.isnull(v):
                return None
            return self.run.okey(v)
        return v

    def rep(self, k):
        return self.run.rep(k)

    def same(self, a, b):
        return self.run.same(a, b)

    def describe(self):
        out = []
        for e in self.events:
            out.append('  ' + repr(e))
        for k, v in self.run.facts.items():
            out.append(f'  fact {show(k)} = {v}')
        for k in self.run.ranges:
            out.append(f'  range {show(k)} {self.run.ranges[k]}')
        out.append(f'  {self.kind} '
                   f'{show(self.key()) if self.kind == "return" else ""} '
                   f'error={show(self.err) if self.err else None}')
        for p in self.problems:
            out.append(f'  problem {p}')
        return '\n'.join(out)


class CProgram:
    """both extension modules, after their initialisation"""

    def __init__(self, src):
        self.files = []
        self.functions_analysed = set()
        self.modules = {}
        repo = os.path.dirname(src)
        inc = sysconfig.get_path('include')
        flags = ['-I' + inc]
        ip = os.path.join(repo, 'include')
        for d in sorted(os.listdir(ip)) if os.path.isdir(ip) else ():
            flags.append('-I' + os.path.join(ip, d))
        for name in ('_proxy', '_zope_security_checker'):
            rel = f'zope/security/{name}.c'
            path = os.path.join(src, rel)
            self.files.append('src/' + rel)
            try:
                m = compile_ir(path, flags)
            except FileNotFoundError as e:
                raise AnalysisError(f'cannot compile {rel}: {e}')
            except IRError as e:
                raise AnalysisError(f'cannot read {rel}: {e}')
            self.modules[name] = CModule(self, name, m, 'src/' + rel)

    def __getitem__(self, name):
        m = self.modules[name]
        m.initialise()
        return m


class CModule:
    def __init__(self, prog, name, ir, rel):
        self.prog = prog
        self.name = name
        self.ir = ir
        self.rel = rel
        self.base_mem = {}
        self.ready = set()
        self.init_path = None
        self.init_paths = None
        self.exports = {}
        self.truncated = 0
        self.late_globals = self.find_late_globals()

    # -- static facts
    def cstring(self, name):
        t, v, c = self.ir.globals[name]
        if v and v[0] == 'bytes':
            return v[1].split(b'\0')[0].decode('latin-1')
        if v and v[0] == 'zero':
            return ''
        return None

    def find_late_globals(self):
        """global variables some function other than module initialisation
        stores to -> [(function, line)]"""
        init = {f for f in self.ir.functions if f.startswith('PyInit_')}
        # functions only initialisation reaches belong to it
        callers = {}
        for f in self.ir.functions.values():
            for b in f.blocks.values():
                for i in b:
                    for g in refs_of(i):
                        if g in self.ir.functions:
                            callers.setdefault(g, set()).add(f.name)
        used = set()
        for g, (t, v, c) in self.ir.globals.items():
            used |= const_refs(v)
        changed = True
        while changed:
            changed = False
            for f in self.ir.functions:
                if f in init or f in used:
                    continue
                cs = callers.get(f)
                if cs and cs <= init:
                    init.add(f)
                    changed = True
        self.init_functions = init
        out = {}
        for f in self.ir.functions.values():
            if f.name in init:
                continue
            for b in f.blocks.values():
                for i in b:
                    if i.op == 'store':
                        g = base_global(i.a[2])
                        if g and not self.ir.globals.get(g, (0, 0, 0))[2]:
                            out.setdefault(g, []).append(
                                (f.name, self.ir.line(i.line)))
        return out

    # -- module initialisation
    def initialise(self):
        if self.init_path is not None:
            return
        self.init_path = False
        def setup(run):
            run.returns = 'new'
        paths = self.explore(f'PyInit_{self.name}', [], loop_limit=400,
                             setup=setup)
        self.init_paths = paths
        good = [p for p in paths if p.kind == 'return' and p.key() is not None
                and not p.err]
        if not good:
            raise AnalysisError(f'{self.name}: initialisation never succeeds')
        # the path on which everything worked and was absent before
        best = [p for p in good if all(e.ok for e in p.events)]
        p = (best or good)[0]
        self.init_path = p
        # objects made during initialisation are called by the global
        # variable that keeps them
        names = {}
        for (b, o), v in p.run.mem.items():
            if b[0] == 'g' and isinstance(v, Ptr) and v.base and \
                    v.base[0] == 'o' and v.base[1][0] == 'r':
                names[v.base[1]] = ('const', b[1])

        def ren(x):
            return names.get(x, x)
        self.renamed = names
        self.base_mem = {}
        for (b, o), v in p.run.mem.items():
            if b[0] not in 'go':
                continue
            if b[0] == 'o':
                b = ('o', ren(b[1]))
            if isinstance(v, Ptr) and v.base and v.base[0] == 'o':
                v = Ptr(('o', ren(v.base[1])), v.off)
            self.base_mem[(b, o)] = v
        self.ready = set(p.run.ready)
        self.exports = {}
        for e in p.events:
            if e.kind == 'export' and e.ok:
                self.exports[e.name] = ren(e.args[1])

    def explore(self, fname, mkargs, loop_limit=2, limit=6000, setup=None):
        """all paths of function fname; mkargs: list of values or a function
        of the run giving it"""
        if fname not in self.ir.functions:
            raise AnalysisError(f'{self.name}: no function {fname}')
        paths = []
        stack = [[]]
        n = 0
        while stack:
            dec = stack.pop()
            n += 1
            if n > limit:
                raise AnalysisError(f'{fname}: more than {limit} paths')
            run = CRun(self, dec, loop_limit)
            try:
                if setup:
                    setup(run)
                args = mkargs(run) if callable(mkargs) else list(mkargs)
                v = run.call_function(fname, args)
                run.check_end(v)
                p = CPath(run, 'return', v)
            except Stop:
                p = CPath(run, 'stopped', NULL)
            except Truncated:
                self.truncated += 1
                p = CPath(run, 'truncated', NULL)
            except Infeasible:
                p = None
            except RecursionError:
                raise AnalysisError(f'{fname}: recursion too deep')
            if p is not None:
                paths.append(p)
            for i in range(len(dec), len(run.trace)):
                for alt in range(1, run.arity[i]):
                    stack.append(run.trace[:i] + [alt])
        return paths

    # -- tables
    def cells(self, g):
        """{offset: value} of a global aggregate after initialisation"""
        run = CRun(self, [], 1)
        run.ready = set()           # what the source fills in itself
        t, v, c = self.ir.globals[g]
        out = {}

        def walk(t, off):
            if t[0] == 'st':
                t = self.ir.struct(t[1])
            if t[0] == 'lit':
                for i, x in enumerate(t[1]):
                    o, ft = self.ir.field(t, i)
                    walk(ft, off + o)
            elif t[0] == 'arr' and t[2] != ('i', 8):
                s = self.ir.size(t[2])
                for i in range(t[1]):
                    walk(t[2], off + i * s)
            elif t[0] != 'arr':
                out[off] = run.load(Ptr(('g', g), off), t)
        walk(t, 0)
        return out

    def named_cells(self, g, struct):
        mem = self.ir.members.get(struct)
        if mem is None:
            raise AnalysisError(f'{self.name}: no layout of {struct}')
        c = self.cells(g)
        return {n: c[o] for o, n in mem.items() if o in c}

    def type_slots(self, g):
        """{slot: value} of a static type, its method tables included"""
        out = {}
        for n, v in self.named_cells(g, '_typeobject').items():
            out[n] = v
            if n in TYPE_STRUCTS and isinstance(v, Ptr) and v.base and \
                    v.base[0] == 'g':
                for m, x in self.named_cells(v.base[1],
                                             TYPE_STRUCTS[n]).items():
                    out[m] = x
        return out

    def table(self, g, struct):
        """rows of an array of structs up to its all-null end"""
        mem = self.ir.members.get(struct)
        t = self.ir.globals[g][0]
        if t[0] != 'arr':
            return []
        size = self.ir.size(t[2])
        c = self.cells(g)
        rows = []
        for i in range(t[1]):
            row = {n: c.get(i * size + o) for o, n in mem.items()}
            name = row.get('ml_name', row.get('name'))
            if not isinstance(name, Ptr) or name.base is None:
                break
            row['name'] = self.text(name)
            rows.append(row)
        return rows

    def text(self, p):
        if isinstance(p, Ptr) and p.base and p.base[0] == 'g' and p.off == 0:
            return self.cstring(p.base[1])
        return None


def const_refs(v):
    """globals mentioned in a constant"""
    out = set()
    if not isinstance(v, (tuple, list)):
        return out
    if isinstance(v, tuple) and v and v[0] == 'g':
        out.add(v[1])
        return out
    for x in v:
        out |= const_refs(x)
    return out


def refs_of(ins):
    return const_refs(ins.a) if isinstance(ins.a, (tuple, list)) else set()


def base_global(v):
    if v[0] == 'g':
        return v[1]
    if v[0] == 'gep':
        return base_global(v[2])
    if v[0] == 'cast':
        return base_global(v[2])
    return None


def wrap(v, bits):
    v &= (1 << bits) - 1
    if v >> (bits - 1) and bits > 1:
        v -= 1 << bits
    return v


FULL = (-(1 << 63), (1 << 63) - 1)


class CRun:
    def __init__(self, mod, decisions, loop_limit):
        self.mod = mod
        self.ir = mod.ir
        self.decisions = decisions
        self.trace = []
        self.arity = []
        self.loop_limit = loop_limit
        self.mem = dict(mod.base_mem)
        self.ready = set(mod.ready)
        self.facts = {}
        self.parent = {}            # alias classes of object origins
        self.distinct = []          # pairs known to differ
        self.nullable = set()
        self.ranges = {}
        self.events = []
        self.problems = []
        self.err = None             # None, or a term for the set error
        self.n = 0
        self.depth = 0
        self.last_site = ''
        self.site_fn = ''
        self.site_line = 0
        # ownership
        self.delta = {}             # references gained (lost) per origin
        self.is_init = mod.init_path is False
        self.initial = {}           # heap cell -> value at entry
        self.fresh = set()          # objects made on this path
        self.borrowed = {}          # origin -> (owner, event count)
        self.freed = {}             # origin -> count
        self.untracked = set()
        self.arb = 0                # arbitrary code ran so many times
        self.dead = {}              # borrowed origins arb code may have freed
        self.stable = set()         # origins someone holds throughout
        self.unmodelled = set()
        self.tuples = {}            # contents of tuples made here
        self.is_dealloc = False
        self.own_ok = True
        self.saved_err = {}
        self.kinds = {}             # origin -> 'type' ...
        self.wheretaken = {}

    # -- decisions
    def choose(self, n):
        i = len(self.trace)
        v = self.decisions[i] if i < len(self.decisions) else 0
        self.trace.append(v)
        self.arity.append(n)
        return v

    def new(self, label):
        self.n += 1
        return ('r', self.n, label)

    def problem(self, rule, detail, fatal=False):
        self.problems.append((rule, detail, self.site()))
        if fatal:
            raise Stop()

    at_end = None

    def site(self):
        return self.at_end or f'{self.mod.rel}:{self.site_line} in {self.site_fn}'

    # -- objects
    def obj(self, key, nullable=False):
        if nullable:
            self.nullable.add(key)
        return Ptr(('o', key), 0)

    def okey(self, p):
        """origin of the object a pointer refers to"""
        if not isinstance(p, Ptr):
            return ('int', p) if isinstance(p, int) else ('?', p)
        if p.base is None:
            return None
        if p.base[0] == 'o' and p.off == 0:
            return p.base[1]
        if p.base[0] == 'g' and p.off == 0:
            return GLOBAL_OBJECTS.get(p.base[1], ('global', p.base[1]))
        return ('mem', p.base, p.off)

    def nullfact(self, key):
        """True, False or None (not known)"""
        if key in self.nullable:
            return self.facts.get(('null', key))
        return False

    def isnull(self, p):
        """decides whether a pointer is null"""
        if p.base is None:
            return p.off == 0
        if p.base[0] != 'o':
            return False
        k = p.base[1]
        if p.off:
            return False
        f = self.nullfact(k)
        if f is None:
            f = self.choose(2) == 1
            self.facts[('null', k)] = f
        return f

    def maybe_null(self, p):
        if not isinstance(p, Ptr):
            return not (isinstance(p, int) and p)
        if p.base is None:
            return True
        return p.base[0] == 'o' and not p.off and \
            self.nullfact(p.base[1]) is not False

    # -- alias classes
    def rep(self, k):
        while k in self.parent:
            k = self.parent[k]
        return k

    def unlike(self, a, b):
        """is one an instance of a class the other is none of"""
        a, b = self.rep(a), self.rep(b)
        for x, y in ((a, b), (b, a)):
            if x in IMMORTAL and any(
                    v and len(q) == 3 and q[0] == 'inst' and
                    q[2] not in (('ext', 'object'), ('ext', 'int')) and self.rep(q[1]) == y
                    for q, v in self.facts.items()):
                return True
        return False

    def is_const(self, k):
        return isinstance(k, tuple) and k and k[0] in (
            'ext', 'str', 'global', 'import', 'const') or k in self.fresh

    def same(self, a, b):
        """True, False or None without deciding"""
        a, b = self.rep(a), self.rep(b)
        if a == b:
            return True
        for x, y in self.distinct:
            x, y = self.rep(x), self.rep(y)
            if (x, y) in ((a, b), (b, a)):
                return False
        if self.is_const(a) and self.is_const(b):
            return False
        # an object made on this path is not one that existed before
        for x, y in ((a, b), (b, a)):
            if x in self.fresh and not (isinstance(y, tuple) and y and
                                        y[0] == 'r' and y[1] > x[1]):
                return False
        return None

    def identical(self, a, b):
        r = self.same(a, b)
        if r is None and self.unlike(a, b):
            self.distinct.append((self.rep(a), self.rep(b)))
            r = False
        if r is None:
            r = self.choose(2) == 1
            if r:
                a, b = self.rep(a), self.rep(b)
                # keep the more telling origin as representative
                if self.is_const(a) or (isinstance(b, tuple) and
                                        b[0] == 'r' and a[0] != 'r'):
                    a, b = b, a
                self.parent[a] = b
                self.facts[('is', a, b)] = True
            else:
                self.distinct.append((a, b))
                self.facts[('is', a, b)] = False
        return r

    # -- integers
    def rng(self, k):
        return self.ranges.get(k, (FULL[0], FULL[1], frozenset()))

    def sym(self, key, lo=FULL[0], hi=FULL[1], ex=()):
        if key not in self.ranges:
            self.ranges[key] = (lo, hi, frozenset(ex))
        lo, hi, ex = self.ranges[key]
        if lo == hi:
            return lo
        return IS(key)

    def compare(self, pred, a, b, bits=64):
        """decides an integer comparison"""
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 'u':
                m = (1 << bits) - 1
                a, b = a & m, b & m
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b,
                    'le': a <= b, 'ge': a >= b}[
                        pred if pred in ('eq', 'ne') else pred[1:]]
        if isinstance(a, int):
            return self.compare(SWAP[pred], b, a, bits)
        if isinstance(b, int):
            lo, hi, ex = self.rng(a.key)
            if pred[0] == 'u':
                if lo >= 0 and b >= 0:
                    pred = 's' + pred[1:]
                else:
                    return self.fact(('icmp', pred, a.key, b))
            yes = self.restrict(lo, hi, ex, pred, b)
            no = self.restrict(lo, hi, ex, NEG[pred], b)
            if yes is None and no is None:
                raise Infeasible()
            if yes is None:
                r = False
            elif no is None:
                r = True
            else:
                r = self.choose(2) == 0
            self.ranges[a.key] = yes if r else no
            return r
        if a == b:
            return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
        return self.fact(('icmp', pred, a.key, b.key))

    @staticmethod
    def restrict(lo, hi, ex, pred, c):
        if pred == 'eq':
            if c < lo or c > hi or c in ex:
                return None
            return (c, c, frozenset())
        if pred == 'ne':
            ex = ex | {c}
        elif pred == 'slt':
            hi = min(hi, c - 1)
        elif pred == 'sle':
            hi = min(hi, c)
        elif pred == 'sgt':
            lo = max(lo, c + 1)
        elif pred == 'sge':
            lo = max(lo, c)
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        if lo > hi:
            return None
        return (lo, hi, frozenset(x for x in ex if lo < x < hi))

    def fact(self, k):
        if k not in self.facts:
            self.facts[k] = self.choose(2) == 1
        return self.facts[k]

    # -- memory
    def const(self, v, t=None):
        k = v[0]
        if k == 'c':
            return wrap(v[1], t[1]) if t and t[0] == 'i' else v[1]
        if k == 'null':
            return NULL
        if k == 'g':
            if v[1] in self.ir.functions or v[1] not in self.ir.globals:
                return Ptr(('f', v[1]), 0)
            return Ptr(('g', v[1]), 0)
        if k == 'zero':
            return NULL if t and t[0] == 'p' else 0
        if k == 'undef':
            return UNDEF
        if k == 'gep':
            return self.gep(v[1], self.const(v[2]),
                            [(None, self.const(x)) for x in v[3]])
        if k == 'cast':
            x = self.const(v[2])
            if v[1] == 'inttoptr' and x == 0:
                return NULL
            return x
        if k == 'fp':
            return IS(('float', v[1]))
        return UNDEF

    def gep(self, t, base, idx):
        if not isinstance(base, Ptr):
            base = NULL if base == 0 else Ptr(('o', ('?', base)), 0)
        off = base.off
        first = True
        for it, i in idx:
            if first:
                s = self.ir.size(t)
                first = False
            elif t[0] in ('st', 'lit'):
                o, t = self.ir.field(t, i)
                off += o
                continue
            else:
                t = t[2]
                s = self.ir.size(t)
            if isinstance(i, int):
                off += i * s
            elif isinstance(i, IS):
                return Ptr(('o', ('elem', base.base, off, i.key)), 0)
            else:
                return Ptr(('o', ('elem', base.base, off, '?')), 0)
        return Ptr(base.base, off)

    def init_cell(self, t, v, off, want):
        """value at offset `want` in a constant aggregate"""
        if v is None:
            return None
        if t[0] == 'st':
            t = self.ir.struct(t[1])
        if t[0] == 'lit':
            for i, x in enumerate(t[1]):
                o, ft = self.ir.field(t, i)
                if off + o <= want < off + o + max(self.ir.size(ft), 1):
                    if v[0] == 'agg':
                        return self.init_cell(ft, v[1][i][1], off + o, want)
                    return self.init_cell(ft, v, off + o, want)
            return 0
        if t[0] == 'arr':
            if v[0] == 'bytes':
                i = want - off
                b = v[1]
                return wrap(b[i], 8) if i < len(b) else 0
            s = self.ir.size(t[2])
            i = (want - off) // s
            if v[0] == 'agg':
                if i >= len(v[1]):
                    return None
                return self.init_cell(t[2], v[1][i][1], off + i * s, want)
            return self.init_cell(t[2], v, off + i * s, want)
        if off != want:
            return None
        return self.const(v, t)

    def load(self, p, t):
        if not isinstance(p, Ptr):
            return self.opaque(('load', p), t)
        if p.base is None:
            self.problem('null pointer dereferenced', 'a NULL pointer is '
                         'dereferenced', fatal=True)
        if p.base[0] == 'o':
            self.use_memory(p)
        cell = (p.base, p.off)
        if cell in self.mem:
            v = self.mem[cell]
            return self.fit(v, t)
        k = p.base[0]
        if k == 's':
            return UNDEF
        if k == 'f':
            return self.opaque(('code', p.base[1]), t)
        if k == 'g':
            g = p.base[1]
            gt, gv, gc = self.ir.globals[g]
            ready = p.base in self.ready
            if gv is None:          # external
                if gt[0] == 'p' and p.off == 0:
                    key = ('ext', g[6:]) if g.startswith('PyExc_') else \
                        ('ext', g)
                    v = Ptr(('o', key), 0)
                else:
                    v = self.member(('ext', g), p.off, t)
            elif g in self.mod.late_globals and not gc and \
                    self.mod.init_path:
                return self.late(g, p.off, t, gt, gv)
            else:
                v = self.init_cell(gt, gv, 0, p.off)
                if v is None:
                    v = self.opaque(('global', g, p.off), t)
                if ready and isinstance(v, Ptr) and v.base is None:
                    v = self.member(('global', g), p.off, t)
            self.mem[cell] = v
            return self.fit(v, t)
        key = p.base[1]
        if isinstance(key, tuple) and key[0] == 'utf8':
            # equal to an ASCII letter exactly if the character is
            return self.sym(('char', key[1], p.off), 0, 0x10ffff)
        v = self.member(key, p.off, t)
        self.mem[cell] = v
        self.initial.setdefault(cell, v)
        return v

    def late(self, g, off, t, gt, gv):
        """a global that functions write: what it was initially, or
        something a previous call put there"""
        key = ('late', g, off)
        if key not in self.facts:
            self.facts[key] = self.choose(2) == 1
        if self.facts[key]:
            v = self.opaque(('global state', g, off), t)
            if isinstance(v, Ptr):
                self.stable.add(self.okey(v))
        else:
            v = self.init_cell(gt, gv, 0, off)
        self.mem[(('g', g), off)] = v
        return v

    def fit(self, v, t):
        if t and t[0] == 'p' and v == 0 and not isinstance(v, Ptr):
            return NULL
        if t and t[0] == 'i' and v == NULL and isinstance(v, Ptr):
            return 0
        return v

    def opaque(self, key, t):
        if t and t[0] == 'p':
            return self.obj(key, nullable=True)
        if t and t[0] == 'i':
            b = t[1]
            return self.sym(key, -(1 << (b - 1)), (1 << (b - 1)) - 1)
        return UNDEF

    def is_type(self, key):
        return isinstance(key, tuple) and key and (
            key[0] == 'type' or self.kinds.get(key) == 'type' or
            key == PROXYBASE or key[0] == 'global' and
            key[1] in self.ir.globals and
            self.ir.globals[key[1]][0] == ('st', '%struct._typeobject') or
            key[0] == 'ext' and key[1] in ('object', 'type', 'dict', 'str'))

    def member(self, key, off, t):
        """first value of a field of something not made here"""
        if self.is_type(key) and off >= 24:
            n = self.ir.members['_typeobject'].get(off)
            if n:
                if t and t[0] == 'i':
                    return self.opaque(('tslot', n, key), t)
                return self.obj(('tslot', n, key),
                                nullable=n not in NEVER_NULL_SLOTS and not (
                                    key == PROXYBASE and n in BASE_SLOTS))
        if key[0] == 'tslot' and key[1] in TYPE_STRUCTS:
            n = self.ir.members.get(TYPE_STRUCTS[key[1]], {}).get(off)
            if n:
                return self.obj(('tslot', n, key[2]), nullable=True)
        if off == 8:
            return self.obj(('type', key))
        if key in self.fresh and off >= 16:
            return NULL if t and t[0] == 'p' else 0
        f = ('field', key, off)
        if t and t[0] == 'p':
            if off in self.mutable and key == ('param', 'self'):
                self.borrowed[f] = None
            elif key[0] == 'param':
                self.stable.add(f)
            return self.obj(f, nullable=not self.filled(key, off))
        return self.opaque(f, t)

    def filled(self, key, off):
        """the field of an instance of one of our types is never NULL"""
        for g, offs in self.notnull.items():
            if off in offs and any(
                    self.facts.get(('inst', k, ('global', g)))
                    for k in (key, self.rep(key))):
                return True
        return False

    notnull = {}
    mutable = frozenset()
    returns = None              # what the analysed function returns
    fields = ()                 # (origin, offset) cells a dealloc must release

    ending = False

    def use_memory(self, p):
        if self.ending:
            return
        key = p.base[1]
        f = self.nullfact(key)
        if f is not False:
            if f is None:
                self.problem('possibly null pointer dereferenced',
                             f'{show(key)} may be NULL here')
                self.facts[('null', key)] = False
            else:
                self.problem('null pointer dereferenced',
                             f'{show(key)} is NULL here', fatal=True)
        if key in self.freed and key not in self.fresh:
            self.problem('used after being freed', show(key))
        self.alive(key)

    def alive(self, key):
        """a borrowed object is used"""
        if not self.dead:
            return
        r = self.rep(key)
        for k in list(self.dead):
            if self.rep(k) == r and self.owned(key) <= 0 and \
                    not self.held(key):
                self.problem('borrowed reference used after other code ran',
                             f'{show(key)}, {self.dead[k]}')
                del self.dead[k]

    def owned(self, key):
        r = self.rep(key)
        return sum(n for k, n in self.delta.items() if self.rep(k) == r)

    def held(self, key):
        """somebody who stays alive keeps the object alive"""
        r = self.rep(key)
        if r in self.stable or key in self.stable or self.is_const(r) and \
                r not in self.fresh:
            return True
        for s in self.stable:
            if self.rep(s) == r:
                return True
        for (b, o), v in self.mem.items():
            if b[0] == 'g' and isinstance(v, Ptr) and v.base and \
                    v.base[0] == 'o' and self.rep(v.base[1]) == r and \
                    b[1] not in self.mod.late_globals:
                return True
        return False

    def store(self, p, v, t=None):
        if not isinstance(p, Ptr) or p.base is None:
            self.problem('null pointer dereferenced',
                         'stores through a NULL pointer', fatal=True)
        cell = (p.base, p.off)
        if p.base[0] == 'o':
            self.use_memory(p)
            if cell not in self.mem:
                self.load(p, t or ('p',))
            self.initial.setdefault(cell, self.mem[cell])
            if p.off >= 16 and not self.is_type(p.base[1]):
                self.event('store', p.off, [p.base[1], self.okey(v)
                                            if isinstance(v, Ptr) else v])
        elif p.base[0] == 'g':
            if self.mod.init_path:
                if cell not in self.mem:
                    self.load(p, t or ('p',))
                self.initial.setdefault(cell, self.mem[cell])
            self.events_global(p, v)
        self.mem[cell] = v

    def events_global(self, p, v):
        if self.mod.init_path:
            self.event('storeglobal', p.base[1],
                       [self.okey(v) if isinstance(v, Ptr) else v])

    # -- events
    def event(self, kind, name, args, py=False):
        e = Event(kind, name, [self.rep(a) if isinstance(a, tuple) else a
                               for a in args],
                  self.site_line, self.site_fn, py)
        self.events.append(e)
        if py:
            if self.err is not None:
                self.problem('Python code called with an error set',
                             f'{e!r} while {show(self.err)} is set')
            self.arbitrary(e)
        return e

    def arbitrary(self, e):
        self.arb += 1
        for k in self.borrowed:
            if k not in self.dead:
                self.dead[k] = f'{e.kind} {show(e.name)} at line {e.line}'

    # -- references
    def gain(self, key, n=1):
        if key is None:
            return
        self.delta[key] = self.delta.get(key, 0) + n
        if n > 0:
            self.wheretaken[key] = self.site()

    def result(self, e, label, fresh=False):
        """a new reference"""
        k = self.new(label)
        if fresh:
            self.fresh.add(k)
        self.gain(k)
        e.res = k
        return Ptr(('o', k), 0)

    def fail(self, e, err=None):
        e.ok = False
        self.err = err or ('error of', len(self.events), e.kind)
        e.err = self.err

    def incref(self, p, x=False):
        if not isinstance(p, Ptr):
            return
        if x:
            if self.isnull(p):
                return
        else:
            self.nonnull(p, 'Py_INCREF')
        k = self.okey(p)
        if k in IMMORTAL:
            return
        self.alive(k)
        self.gain(k)

    def decref(self, p, x=False):
        if not isinstance(p, Ptr):
            return
        if x:
            if self.isnull(p):
                return
        else:
            self.nonnull(p, 'Py_DECREF')
        k = self.okey(p)
        if self.rep(k) in IMMORTAL:
            return
        self.gain(k, -1)
        self.event('decref', None, [k])
        if not self.own_ok:
            return
        r = self.rep(k)
        bal = self.owned(k) - self.stored_change(r)
        if bal < 0 and not (self.is_dealloc and
                            ('param', 'self') in self.untracked):
            self.problem('reference released that is not owned',
                         f'{show(k)} is released while still in use',
                         )
        # dropping the last reference we know of may run other code
        if bal <= 0 or k not in self.stable:
            self.arbitrary(self.events[-1])

    def stored_change(self, r):
        """change of the number of heap cells holding an origin"""
        n = 0
        for cell, old in self.initial.items():
            cur = self.mem.get(cell, old)
            n += self.holds(cur, r) - self.holds(old, r)
        if self.is_init:
            for (b, o), v in self.mem.items():
                if b[0] == 'g':
                    n += self.holds(v, r)
        return n

    def holds(self, v, r):
        if not isinstance(v, Ptr) or v.base is None or v.base[0] != 'o' or \
                v.off:
            return 0
        k = v.base[1]
        if k[0] in ('type', 'tslot', 'ext', 'const'):
            return 0
        if self.rep(k) != r:
            return 0
        if self.nullfact(k) is True:
            return 0
        return 1

    def nonnull(self, p, what):
        """the argument must not be NULL"""
        if isinstance(p, tuple) and not isinstance(p, Ptr):
            return
        if not isinstance(p, Ptr):
            if p == 0:
                p = NULL
            else:
                return
        if p.base is None:
            self.problem('NULL passed', f'NULL passed to {what}', fatal=True)
        if p.base[0] == 'o' and not p.off:
            f = self.nullfact(p.base[1])
            if f is None:
                self.problem('possibly NULL passed',
                             f'{show(p.base[1])} may be NULL, passed to '
                             f'{what}')
                self.facts[('null', p.base[1])] = False
            elif f:
                self.problem('NULL passed', f'{show(p.base[1])} is NULL, '
                             f'passed to {what}', fatal=True)

    def imported(self, k):
        for e in self.events:
            if e.kind == 'import' and e.res == k and e.args and \
                    e.args[0][0] == 'str':
                return e.args[0][1]
        return None

    def stored_anywhere(self, k):
        r = self.rep(k)
        return any(b[0] in 'og' and self.holds(v, r)
                   for (b, o), v in self.mem.items())

    def initial_steal(self, k):
        r = self.rep(k)
        if r not in IMMORTAL and self.own_ok and \
                self.owned(k) - self.stored_change(r) < 0:
            self.problem('reference given away that is not owned', show(k))

    # -- the end of a path
    def check_end(self, value):
        """ownership and the error indicator when the function returns"""
        how = self.returns
        if how is None:
            return
        self.at_end = self.last_site
        gone = {}
        self.ending = True
        for k, off in self.fields:
            v = self.load(Ptr(('o', k), off), ('p',))
            if not self.isnull(v):
                r = self.rep(self.okey(v))
                gone[r] = gone.get(r, 0) + 1
        ret = None
        if isinstance(value, Ptr) and how in ('new', 'next'):
            if value.base is not None and not self.isnull(value):
                ret = self.okey(value)
                self.alive(ret)
        fail = isinstance(value, Ptr) and ret is None \
            if how in ('new', 'next') else \
            isinstance(value, int) and (value == -1 if how == 'hash'
                                        else value < 0)
        if not self.unmodelled and not (self.is_init and fail):
            reps = {self.rep(k) for k in self.delta} | set(gone)
            for cell, old in self.initial.items():
                for v in (old, self.mem.get(cell, old)):
                    if isinstance(v, Ptr) and v.base and v.base[0] == 'o':
                        reps.add(self.rep(v.base[1]))
            if ret is not None:
                reps.add(self.rep(ret))
            for r in sorted(reps, key=repr):
                if r in IMMORTAL or r == ('param', 'self') and \
                        self.is_dealloc:
                    continue
                need = self.stored_change(r) - gone.get(r, 0)
                if ret is not None and self.rep(ret) == r:
                    need += 1
                have = self.owned(r)
                if have > need:
                    where = [self.wheretaken[k] for k in self.wheretaken
                             if self.rep(k) == r]
                    self.problem('reference leaked', f'{show(r)}: {have} '
                                 f'taken, {need} stored or returned '
                                 f'{where[:1]}')
                elif have < need:
                    self.problem(
                        'borrowed reference returned' if ret is not None and
                        self.rep(ret) == r else
                        'reference stored or released that is not owned',
                        f'{show(r)}: {have} taken, {need} needed')
        if how == 'void':
            if self.err is not None:
                self.problem('returns with an error set', show(self.err))
        elif how in ('new', 'next', 'int', 'tri', 'hash', 'len'):
            if isinstance(value, IS):
                lo, hi, ex = self.rng(value.key)
                fail = False
                if lo < 0 and -1 not in ex and self.err is None and \
                        not self.unmodelled:
                    self.problem('may report failure without an error',
                                 f'returns {show(value.key)}')
            if value == UNDEF:
                self.problem('uninitialised value used', 'it is returned')
            if fail and self.err is None:
                done = how == 'next' and any(
                    e.extra == 'exhausted' for e in self.events)
                if not done:
                    self.problem('failure reported without an error',
                                 'no error is set')
            if not fail and self.err is not None:
                self.problem('error lost: success reported with an error '
                             'set', show(self.err))
            if how in ('int', 'tri') and isinstance(value, int) and \
                    value not in ((0, -1) if how == 'int' else (0, 1, -1)):
                self.problem('unexpected status', f'returns {value}')

    # -- functions
    def call_function(self, name, args):
        f = self.ir.functions[name]
        self.mod.prog.functions_analysed.add(f'{self.mod.rel}:{name}')
        if self.depth > 40:
            raise RecursionError
        self.depth += 1
        regs = {}
        for (t, n), a in zip(f.params, args):
            regs[n] = a
        saved = (self.site_fn, self.site_line)
        blk, prev = f.order[0], None
        visits = {}
        while True:
            c = visits.get(blk)
            d = len(self.trace)
            if c is None:
                visits[blk] = [1, d]
            else:
                if d > c[1]:
                    c[0] += 1
                    c[1] = d
                c.append(0)
                if c[0] > self.loop_limit + 1 or len(c) > 5000:
                    raise Truncated()
            nxt = None
            for ins in f.blocks[blk]:
                if ins.line:
                    ln = self.ir.line(ins.line)
                    if ln:
                        self.site_line = ln
                self.site_fn = name
                op = ins.op
                if op == 'br':
                    if len(ins.a) == 1:
                        nxt = ins.a[0]
                    else:
                        nxt = ins.a[1] if self.truth(
                            self.val(ins.a[0], regs, ('i', 1))) else ins.a[2]
                    break
                if op == 'ret':
                    self.last_site = self.site()
                    self.depth -= 1
                    t, v = ins.a
                    r = None if v is None else self.val(v, regs, t)
                    self.site_fn, self.site_line = saved
                    return r
                if op == 'switch':
                    t, v, d, cases = ins.a
                    x = self.val(v, regs, t)
                    nxt = d
                    for cv, lab in cases:
                        if self.compare('eq', x, self.val(cv, regs, t)):
                            nxt = lab
                            break
                    break
                if op == 'unreachable':
                    raise Infeasible()
                r = self.step(ins, regs, prev)
                if ins.res is not None:
                    regs[ins.res] = r
            if nxt is None:
                raise AnalysisError(f'{name}: block {blk} does not end')
            prev, blk = blk, nxt

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, IS):
            return self.compare('ne', v, 0)
        if v == UNDEF:
            self.problem('uninitialised value used', 'a branch depends on it',
                         fatal=True)
        return self.fact(('truth', v))

    def val(self, v, regs, t=None):
        if v[0] == 'l':
            try:
                return regs[v[1]]
            except KeyError:
                raise AnalysisError(f'no value %{v[1]}')
        return self.const(v, t)

    def step(self, ins, regs, prev):
        op, a = ins.op, ins.a
        if op == 'alloca':
            self.n += 1
            return Ptr(('s', self.n, ins.res), 0)
        if op == 'load':
            return self.load(self.val(a[1], regs, ('p',)), a[0])
        if op == 'store':
            self.store(self.val(a[2], regs, ('p',)),
                       self.val(a[1], regs, a[0]), a[0])
            return None
        if op == 'getelementptr':
            return self.gep(a[0], self.val(a[1], regs, ('p',)),
                            [(t, self.val(v, regs, t)) for t, v in a[2]])
        if op == 'icmp':
            x, y = self.val(a[2], regs, a[1]), self.val(a[3], regs, a[1])
            if a[1] == ('p',):
                return int(self.ptrcmp(a[0], x, y))
            if UNDEF in (x, y):
                self.problem('uninitialised value used', 'it is compared',
                             fatal=True)
            bits = a[1][1]
            return int(self.compare(a[0], self.num(x), self.num(y), bits))
        if op in ('zext', 'sext', 'trunc'):
            v = self.val(a[1], regs, a[0])
            if isinstance(v, int):
                if op == 'zext':
                    v &= (1 << a[0][1]) - 1
                return wrap(v, a[2][1]) if a[2][1] > 1 else v & 1
            if isinstance(v, IS):
                lo, hi, ex = self.rng(v.key)
                if op == 'trunc':
                    b = a[2][1]
                    if lo < -(1 << (b - 1)) or hi >= 1 << b:
                        return self.opaque(('trunc', b, v.key), a[2])
                elif op == 'zext' and lo < 0:
                    return self.sym(('zext', v.key), 0, (1 << a[0][1]) - 1)
            return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            v = self.val(a[1], regs, a[0])
            if op == 'inttoptr' and v == 0:
                return NULL
            return v
        if op == 'phi':
            for v, lab in a[1]:
                if lab == prev:
                    return self.val(v, regs, a[0])
            raise AnalysisError('phi without predecessor')
        if op == 'select':
            c = self.truth(self.val(a[0], regs, ('i', 1)))
            return self.val(a[2] if c else a[3], regs, a[1])
        if op in BIN:
            x, y = self.num(self.val(a[1], regs, a[0])), \
                self.num(self.val(a[2], regs, a[0]))
            return self.arith(op, x, y, a[0])
        if op == 'call':
            return self.do_call(ins, regs)
        return self.opaque(('value of', op, self.n), None)

    def num(self, v):
        if isinstance(v, Ptr):
            return 0 if v.base is None else IS(('address', v))
        return v

    def arith(self, op, x, y, t):
        if UNDEF in (x, y):
            return UNDEF
        b = t[1] if t[0] == 'i' else 64
        if isinstance(x, int) and isinstance(y, int):
            m = (1 << b) - 1
            r = {'add': lambda: x + y, 'sub': lambda: x - y,
                 'mul': lambda: x * y, 'and': lambda: x & y,
                 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'shl': lambda: x << (y & 63),
                 'lshr': lambda: (x & m) >> (y & 63),
                 'ashr': lambda: x >> (y & 63),
                 'sdiv': lambda: int(x / y) if y else 0,
                 'udiv': lambda: (x & m) // (y & m) if y else 0,
                 'srem': lambda: x - y * int(x / y) if y else 0,
                 'urem': lambda: (x & m) % (y & m) if y else 0}[op]()
            return r & 1 if b == 1 else wrap(r, b)
        kx = x.key if isinstance(x, IS) else x
        ky = y.key if isinstance(y, IS) else y
        if op == 'and' and isinstance(y, int) and y >= 0:
            return self.sym(('and', kx, y), 0, y)
        if op in ('add', 'sub') and isinstance(y, int):
            lo, hi, ex = self.rng(kx)
            d = y if op == 'add' else -y
            if lo + d >= FULL[0] and hi + d <= FULL[1]:
                return self.sym((op, kx, y), lo + d, hi + d,
                                [e + d for e in ex])
        return self.opaque((op, kx, ky), t)

    def ptrcmp(self, pred, x, y):
        if isinstance(x, int):
            x = NULL if x == 0 else Ptr(('o', ('int', x)), 0)
        if isinstance(y, int):
            y = NULL if y == 0 else Ptr(('o', ('int', y)), 0)
        if x == UNDEF or y == UNDEF:
            self.problem('uninitialised value used', 'a pointer is compared',
                         fatal=True)
        if not isinstance(x, Ptr) or not isinstance(y, Ptr):
            return self.fact(('pcmp', pred, x, y))
        if pred not in ('eq', 'ne'):
            return self.fact(('pcmp', pred, x, y))
        xn, yn = self.isnull(x), self.isnull(y)
        if xn or yn:
            eq = xn and yn
        elif x == y:
            eq = True
        elif x.base == y.base:
            eq = False
        elif x.base[0] in ('s',) or y.base[0] in ('s',):
            eq = False
        elif x.base[0] == 'f' and y.base[0] == 'f':
            eq = False
        else:
            eq = self.identical(self.okey(x), self.okey(y))
        return eq if pred == 'eq' else not eq

    def do_call(self, ins, regs):
        t, fv, args = ins.a
        if fv[0] == 'meta':
            return None
        vals = [self.val(v, regs, at) for at, v in args if v != ('meta',)]
        if fv[0] == 'g':
            return self.call_named(fv[1], vals, t)
        f = self.val(fv, regs, ('p',))
        return self.call_pointer(f, vals, t)

    def call_named(self, name, args, t):
        from . import cmodels
        if name.startswith('llvm.'):
            return cmodels.intrinsic(self, name, args, t)
        h = cmodels.lookup(name)
        if h is not None:
            return h(self, name, args, t)
        if name in self.ir.functions:
            return self.call_function(name, args)
        return cmodels.unknown(self, name, args, t)

    def call_pointer(self, f, args, t):
        from . import cmodels
        if not isinstance(f, Ptr):
            self.problem('uninitialised value used', 'it is called',
                         fatal=True)
        if f.base is None:
            self.problem('null pointer dereferenced', 'NULL is called',
                         fatal=True)
        if f.base[0] == 'f':
            return self.call_named(f.base[1], args, t)
        if f.base[0] == 'o':
            self.nonnull(f, 'a call')
            return cmodels.slot_call(self, f.base[1], args, t)
        raise AnalysisError(f'call of {f}')


BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'sdiv', 'udiv', 'srem', 'urem'}
