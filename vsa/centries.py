"""Every way the interpreter may enter an extension module: the slots of its
static types, their methods and properties, the module's functions."""
from .cai import Ptr, IS, NULL, FULL

S = ('param', 'self')

BINARY = ['nb_add', 'nb_subtract', 'nb_multiply', 'nb_remainder',
          'nb_divmod', 'nb_lshift', 'nb_rshift', 'nb_and', 'nb_xor', 'nb_or',
          'nb_floor_divide', 'nb_true_divide', 'nb_matrix_multiply']
INPLACE = ['nb_inplace_add', 'nb_inplace_subtract', 'nb_inplace_multiply',
           'nb_inplace_remainder', 'nb_inplace_lshift', 'nb_inplace_rshift',
           'nb_inplace_and', 'nb_inplace_xor', 'nb_inplace_or',
           'nb_inplace_floor_divide', 'nb_inplace_true_divide',
           'nb_inplace_matrix_multiply']
UNARY = ['nb_negative', 'nb_positive', 'nb_absolute', 'nb_invert', 'nb_int',
         'nb_float', 'nb_index']

# slot -> (parameters, what it returns); a parameter: o object, O object or
# NULL, i index, n comparison number, v visitor, a its argument, p proxy or
# not (number slots: at least one is an instance), t a type
SIG = {
    'tp_dealloc': ('s', 'void'), 'tp_repr': ('s', 'new'),
    'tp_str': ('s', 'new'), 'tp_hash': ('s', 'hash'),
    'tp_call': ('soO', 'new'), 'tp_getattro': ('so', 'new'),
    'tp_setattro': ('soO', 'int'), 'tp_traverse': ('sva', 'visit'),
    'tp_clear': ('s', 'int'), 'tp_richcompare': ('son', 'new'),
    'tp_iter': ('s', 'new'), 'tp_iternext': ('s', 'next'),
    'tp_init': ('soO', 'int'), 'tp_new': ('toO', 'new'),
    'tp_finalize': ('s', 'void'), 'tp_del': ('s', 'void'),
    'tp_descr_get': ('sOO', 'new'), 'tp_descr_set': ('soO', 'int'),
    'am_await': ('s', 'new'), 'am_aiter': ('s', 'new'),
    'am_anext': ('s', 'new'),
    'nb_power': ('ppp', 'new'), 'nb_inplace_power': ('soo', 'new'),
    'nb_bool': ('s', 'tri'),
    'sq_length': ('s', 'len'), 'mp_length': ('s', 'len'),
    'sq_item': ('si', 'new'), 'sq_ass_item': ('siO', 'int'),
    'sq_contains': ('so', 'tri'), 'sq_concat': ('so', 'new'),
    'sq_repeat': ('si', 'new'), 'sq_inplace_concat': ('so', 'new'),
    'sq_inplace_repeat': ('si', 'new'),
    'mp_subscript': ('so', 'new'), 'mp_ass_subscript': ('soO', 'int'),
}
for _n in BINARY:
    SIG[_n] = ('pp', 'new')
for _n in INPLACE:
    SIG[_n] = ('so', 'new')
for _n in UNARY:
    SIG[_n] = ('s', 'new')

PARAMS = {
    'tp_call': ['self', 'args', 'kwds'], 'tp_getattro': ['self', 'name'],
    'tp_setattro': ['self', 'name', 'value'],
    'tp_init': ['self', 'args', 'kwds'], 'tp_new': ['type', 'args', 'kwds'],
    'tp_traverse': ['self', 'visit', 'arg'],
    'tp_richcompare': ['self', 'other', 'op'],
    'nb_power': ['self', 'other', 'modulus'],
    'nb_inplace_power': ['self', 'other', 'modulus'],
    'sq_item': ['self', 'index'], 'sq_ass_item': ['self', 'index', 'value'],
    'sq_contains': ['self', 'value'], 'mp_subscript': ['self', 'key'],
    'mp_ass_subscript': ['self', 'key', 'value'],
}


class Entry:
    def __init__(self, label, func, sig, ret, names, typ, kind):
        self.label = label          # '_Proxy.tp_call'
        self.func = func
        self.sig = sig
        self.ret = ret
        self.names = names
        self.type = typ             # the static type concerned, or None
        self.kind = kind            # slot, method, getter, setter, function
        self.name = label.split('.')[-1]

    def __repr__(self):
        return f'{self.label} ({self.func})'


def static_types(m):
    return sorted(g for g, (t, v, c) in m.ir.globals.items()
                  if t == ('st', '%struct._typeobject') and v is not None)


def type_name(m, g):
    t = m.text(m.named_cells(g, '_typeobject').get('tp_name')) or g
    return t.split('.')[-1]


def func_of(v):
    if isinstance(v, Ptr) and v.base and v.base[0] == 'f':
        return v.base[1]
    return None


METH = {1: ('so', ['self', 'args']), 2: ('soO', ['self', 'args', 'kwds']),
        3: ('soO', ['self', 'args', 'kwds']),
        4: ('s0', ['self', 'nothing']), 8: ('so', ['self', 'arg'])}


def method_rows(m, v):
    if isinstance(v, Ptr) and v.base and v.base[0] == 'g':
        return m.table(v.base[1], 'PyMethodDef')
    return []


def getset_rows(m, v):
    if isinstance(v, Ptr) and v.base and v.base[0] == 'g':
        return m.table(v.base[1], 'PyGetSetDef')
    return []


def member_rows(m, v):
    if isinstance(v, Ptr) and v.base and v.base[0] == 'g':
        return m.table(v.base[1], 'PyMemberDef')
    return []


def method_entry(m, label, row, typ, kind):
    f = func_of(row.get('ml_meth'))
    flags = row.get('ml_flags') or 0
    base = flags & 0xf
    sig, names = METH.get(base, ('so', ['self', 'args']))
    if flags & 0x10:        # METH_CLASS
        sig = 't' + sig[1:]
    if flags & 0x20:        # METH_STATIC
        sig = 'O' + sig[1:]
    if kind == 'function':
        sig = 'O' + sig[1:]
    return Entry(label, f, sig, 'new', names, typ, kind)


def entries(m):
    """all entry points of an initialised module"""
    out = []
    for g in static_types(m):
        tn = type_name(m, g)
        slots = m.type_slots(g)
        for s, v in slots.items():
            f = func_of(v)
            if f is None or f not in m.ir.functions or s not in SIG:
                continue
            sig, ret = SIG[s]
            names = PARAMS.get(s) or ['self', 'other', 'third'][:len(sig)]
            out.append(Entry(f'{tn}.{s}', f, sig, ret, names, g, 'slot'))
        for row in method_rows(m, slots.get('tp_methods')):
            out.append(method_entry(m, f'{tn}.{row["name"]}()', row, g,
                                    'method'))
        for row in getset_rows(m, slots.get('tp_getset')):
            f = func_of(row.get('get'))
            if f:
                out.append(Entry(f'{tn}.{row["name"]} get', f, 's0', 'new',
                                 ['self', 'closure'], g, 'getter'))
            f = func_of(row.get('set'))
            if f:
                out.append(Entry(f'{tn}.{row["name"]} set', f, 'sO0', 'int',
                                 ['self', 'value', 'closure'], g, 'setter'))
    for row in module_functions(m):
        out.append(method_entry(m, row['name'] + '()', row, None,
                                'function'))
    return [e for e in out if e.func in m.ir.functions]


def module_functions(m):
    """rows of the module's own method table"""
    for g, (t, v, c) in m.ir.globals.items():
        if t == ('st', '%struct.PyModuleDef') and v is not None:
            c = m.named_cells(g, 'PyModuleDef')
            return method_rows(m, c.get('m_methods'))
    return []


def struct_of(m, g):
    """pointer fields {offset: name} of a type's instances, from its basic
    size and the debug information"""
    size = m.named_cells(g, '_typeobject').get('tp_basicsize')
    best = None
    for n, t in m.ir.structs.items():
        if t[0] == 'lit' and t[1] and m.ir.size(t) == size and \
                not n.startswith('%struct._object'):
            if starts_with_object(m, t):
                # the struct the module's own functions use
                best = n if best is None else best
    return size, best


def starts_with_object(m, t):
    while t[0] == 'st':
        if t[1] == '%struct._object':
            return True
        t = m.ir.structs.get(t[1], ('other',))
    return t[0] == 'lit' and t[1] and starts_with_object(m, t[1][0])


def object_fields(m, g):
    """offsets of the fields of instances beyond the object header"""
    size, n = struct_of(m, g)
    return list(range(16, size or 16, 8))


def make_args(run, e, proxies=()):
    """symbolic arguments of an entry; proxies: names of the parameters of a
    number slot that are instances (the others are not)"""
    out = []
    for c, n in zip(e.sig, e.names):
        k = ('param', n)
        if c == 's':
            run.stable.add(k)
            if e.type:
                run.facts[('inst', k, ('global', e.type))] = True
            out.append(run.obj(k))
        elif c == 'p':
            run.stable.add(k)
            run.facts[('inst', k, ('global', e.type))] = n in proxies
            out.append(run.obj(k))
        elif c in 'ot':
            run.stable.add(k)
            if c == 't':
                run.kinds[k] = 'type'
            if c == 'o' and n == 'args':
                run.facts[('inst', k, ('ext', 'tuple'))] = True
            out.append(run.obj(k))
        elif c == 'O':
            run.stable.add(k)
            out.append(run.obj(k, nullable=True))
        elif c == '0':
            out.append(NULL)
        elif c in 'va':
            out.append(run.obj(k, nullable=c == 'a'))
        elif c == 'i':
            out.append(run.sym(k))
        elif c == 'n':
            out.append(run.sym(k, 0, 5))
    return out


class Analysed:
    """every entry point of a module, explored on all its paths"""

    def __init__(self, m, loop_limit=2):
        self.m = m
        self.loop_limit = loop_limit
        self.entries = entries(m)
        self.cache = {}
        self.mutable = {}           # type -> offsets replaced during life
        self.notnull = {}           # type -> offsets never NULL in use
        for g in static_types(m):
            self.mutable[g] = frozenset()
            self.notnull[g] = frozenset()
        self.settle()

    def combos(self, e):
        """which operands of a number slot are instances"""
        ps = [n for c, n in zip(e.sig, e.names) if c == 'p']
        if not ps:
            return [()]
        return [tuple(n for i, n in enumerate(ps) if b >> i & 1)
                for b in range(1, 1 << len(ps))] + [()]

    def paths(self, e, proxies=(), **more):
        k = (e.label, proxies, tuple(sorted(more.items())))
        if k not in self.cache:
            def setup(run):
                run.returns = e.ret
                g = e.type
                if g is not None:
                    dying = e.name in ('tp_dealloc', 'tp_clear',
                                       'tp_traverse', 'tp_new')
                    if not dying:
                        run.notnull = self.notnull
                        run.mutable = self.mutable[g]
                    if e.name == 'tp_dealloc':
                        run.is_dealloc = True
                        run.fields = [(S, o) for o in
                                      object_fields(self.m, g)]
                else:
                    run.notnull = self.notnull
                for a, v in more.items():
                    setattr(run, a, v)
            self.cache[k] = self.m.explore(
                e.func, lambda run: make_args(run, e, proxies),
                loop_limit=self.loop_limit, setup=setup)
        return self.cache[k]

    def all_paths(self, e):
        for c in self.combos(e):
            for p in self.paths(e, c):
                yield c, p

    def settle(self):
        """which fields of instances change, or may be NULL, during life"""
        for g in static_types(self.m):
            mine = [e for e in self.entries if e.type == g]
            new = [e for e in mine if e.name == 'tp_new']
            fields = object_fields(self.m, g)
            nn = None
            for e in new:
                for p in self.paths(e):
                    k = p.key()
                    if p.kind != 'return' or k is None:
                        continue
                    ok = set()
                    for o in fields:
                        v = p.run.mem.get((('o', k), o))
                        if isinstance(v, Ptr) and not p.run.maybe_null(v):
                            ok.add(o)
                    nn = ok if nn is None else nn & ok
            nn = set(nn or ())
            mut = set()
            for e in mine:
                if e.name in ('tp_dealloc', 'tp_new'):
                    continue
                for c, p in self.all_paths(e):
                    for ev in p.events:
                        if ev.kind == 'store' and p.same(ev.args[0], S):
                            if e.name != 'tp_clear':
                                mut.add(ev.name)
                            if ev.args[1] is None or \
                                    ev.args[1] in p.run.nullable and \
                                    p.run.nullfact(ev.args[1]) is not False:
                                nn.discard(ev.name)
            if mut != self.mutable[g] or nn != self.notnull[g]:
                self.mutable[g] = frozenset(mut)
                self.notnull[g] = frozenset(nn)
                self.cache = {}
