"""What the CPython API functions the extensions call do.

Each model states which arguments must not be NULL, whether the function may
run Python code, how it can fail, and what reference it returns.
"""
from .cai import (Ptr, IS, NULL, UNDEF, NONE, TRUE, FALSE, IMMORTAL, FULL,
                  PROXYBASE, Infeasible, show)

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def lookup(name):
    return MODELS.get(name)


def key(run, p):
    if isinstance(p, Ptr):
        return None if run.isnull(p) else run.okey(p)
    if isinstance(p, IS):
        return p.key
    return ('int', p)


def text(run, p):
    """the C string a pointer refers to, or None"""
    if isinstance(p, Ptr) and p.base and p.base[0] == 'g' and not p.off:
        g = run.ir.globals.get(p.base[1])
        if g and g[1] and (g[2] or True) and g[1][0] in ('bytes', 'zero'):
            return run.mod.cstring(p.base[1])
    return None


# ---- generic functions: name -> (event kind, event name, args, ret, flags)
# args: o object, O object or NULL, s C string, i integer, _ anything
# ret: N new reference or NULL and an error; I 0 or -1 and an error;
#      T 1, 0 or -1 and an error; L length or -1 and an error; H hash;
#      B 1 or 0, no error; n integer, no error; v nothing;
#      b borrowed or NULL and an error
NUMBER = {
    'Add': '__add__', 'Subtract': '__sub__', 'Multiply': '__mul__',
    'MatrixMultiply': '__matmul__', 'TrueDivide': '__truediv__',
    'FloorDivide': '__floordiv__', 'Remainder': '__mod__',
    'Divmod': '__divmod__', 'Lshift': '__lshift__', 'Rshift': '__rshift__',
    'And': '__and__', 'Xor': '__xor__', 'Or': '__or__',
}
INPLACE = {
    'Add': '__iadd__', 'Subtract': '__isub__', 'Multiply': '__imul__',
    'MatrixMultiply': '__imatmul__', 'TrueDivide': '__itruediv__',
    'FloorDivide': '__ifloordiv__', 'Remainder': '__imod__',
    'Lshift': '__ilshift__', 'Rshift': '__irshift__', 'And': '__iand__',
    'Xor': '__ixor__', 'Or': '__ior__',
}
UNARY = {'Negative': '__neg__', 'Positive': '__pos__',
         'Absolute': '__abs__', 'Invert': '__invert__', 'Long': '__int__',
         'Float': '__float__', 'Index': '__index__'}
GENERIC = {
    'PyObject_GetItem': ('getitem', None, 'oo', 'N', 'p'),
    'PyObject_SetItem': ('setitem', None, 'ooo', 'I', 'p'),
    'PyObject_DelItem': ('delitem', None, 'oo', 'I', 'p'),
    'PySequence_GetItem': ('getitem', 'seq', 'oi', 'N', 'p'),
    'PySequence_SetItem': ('setitem', 'seq', 'oio', 'I', 'p'),
    'PySequence_DelItem': ('delitem', 'seq', 'oi', 'I', 'p'),
    'PyObject_Size': ('len', None, 'o', 'L', 'p'),
    'PyObject_Length': ('len', None, 'o', 'L', 'p'),
    'PySequence_Size': ('len', 'seq', 'o', 'L', 'p'),
    'PySequence_Length': ('len', 'seq', 'o', 'L', 'p'),
    'PyMapping_Size': ('len', 'map', 'o', 'L', 'p'),
    'PyMapping_Length': ('len', 'map', 'o', 'L', 'p'),
    'PyObject_LengthHint': ('lengthhint', None, 'oi', 'L', 'p'),
    'PySequence_Contains': ('contains', None, 'oo', 'T', 'p'),
    'PyObject_Hash': ('hash', None, 'o', 'H', 'p'),
    'PyObject_IsTrue': ('truth', None, 'o', 'T', 'p'),
    'PyObject_Not': ('not', None, 'o', 'T', 'p'),
    'PyObject_Str': ('str', None, 'o', 'N', 'p'),
    'PyObject_Repr': ('repr', None, 'o', 'N', 'p'),
    'PyObject_ASCII': ('ascii', None, 'o', 'N', 'p'),
    'PyObject_Bytes': ('bytes', None, 'o', 'N', 'p'),
    'PyObject_Format': ('format', None, 'oO', 'N', 'p'),
    'PyObject_Dir': ('dir', None, 'o', 'N', 'p'),
    'PyObject_GetIter': ('iter', None, 'o', 'N', 'p'),
    'PyObject_SelfIter': ('selfiter', None, 'o', 'N', ''),
    'PyObject_RichCompare': ('richcmp', None, 'ooi', 'N', 'p'),
    'PyObject_RichCompareBool': ('richcmpbool', None, 'ooi', 'T', 'p'),
    'PyIter_Check': ('itercheck', None, 'o', 'B', ''),
    'PyCallable_Check': ('callablecheck', None, 'o', 'B', ''),
    'PyIndex_Check': ('indexcheck', None, 'o', 'B', ''),
    'PySequence_Check': ('seqcheck', None, 'o', 'B', ''),
    'PyMapping_Check': ('mapcheck', None, 'o', 'B', ''),
    'PyNumber_Check': ('numcheck', None, 'o', 'B', ''),
    'PyObject_IsInstance': ('isinstance', None, 'oo', 'T', 'p'),
    'PyObject_IsSubclass': ('issubclass', None, 'oo', 'T', 'p'),
    'PyObject_Type': ('typeof', None, 'o', 'N', ''),
    'PyNumber_Power': ('number', '__pow__', 'ooo', 'N', 'p'),
    'PyNumber_InPlacePower': ('number', '__ipow__', 'ooo', 'N', 'p'),
    'PySequence_Concat': ('number', 'concat', 'oo', 'N', 'p'),
    'PySequence_Repeat': ('number', 'repeat', 'oi', 'N', 'p'),
    'PySequence_InPlaceConcat': ('number', 'iconcat', 'oo', 'N', 'p'),
    'PySequence_InPlaceRepeat': ('number', 'irepeat', 'oi', 'N', 'p'),
    'PySequence_List': ('sequence', 'list', 'o', 'N', 'p'),
    'PySequence_Tuple': ('sequence', 'tuple', 'o', 'N', 'p'),
    'PyDict_SetItem': ('dictset', None, 'ooo', 'I', 'p'),
    'PyDict_SetItemString': ('dictset', None, 'oso', 'I', 'p'),
    'PyDict_DelItem': ('dictdel', None, 'oo', 'I', 'p'),
    'PyDict_Contains': ('dicthas', None, 'oo', 'T', 'p'),
    'PyDict_Copy': ('dictcopy', None, 'o', 'N', ''),
    'PyDict_Size': ('dictlen', None, 'o', 'L', ''),
    'PyDict_Update': ('dictupdate', None, 'oo', 'I', 'p'),
    'PyDict_Clear': ('dictclear', None, 'o', 'v', 'p'),
    'PyList_Append': ('append', None, 'oo', 'I', ''),
    'PyList_Size': ('len', 'list', 'o', 'L', ''),
    'PyTuple_Size': ('len', 'tuple', 'o', 'L', ''),
    'PyUnicode_FromFormat': ('textformat', None, 's*', 'N', 'p'),
    'PyUnicode_Concat': ('textop', None, 'oo', 'N', ''),
    'PyUnicode_Join': ('textop', None, 'oo', 'N', 'p'),
    'PyUnicode_Format': ('textformat', None, 'oo', 'N', 'p'),
    'PyUnicode_Substring': ('textop', None, 'oii', 'N', ''),
    'PyUnicode_Contains': ('textcontains', None, 'oo', 'T', ''),
    'PyUnicode_RichCompare': ('textcompare', None, 'ooi', 'N', ''),
    'PyObject_GenericGetAttr': ('genericgetattr', None, 'oo', 'N', 'p'),
    'PyObject_GenericSetAttr': ('genericsetattr', None, 'ooO', 'I', 'p'),
    'PyImport_ImportModule': ('import', None, 's', 'N', 'p'),
    'PyImport_Import': ('import', None, 'o', 'N', 'p'),
    'PyModule_AddIntConstant': ('exportint', None, 'osi', 'I', ''),
    'PyModule_AddStringConstant': ('exportstr', None, 'oss', 'I', ''),
    'PyObject_GC_Track': ('gctrack', None, 'o', 'v', ''),
    'PyObject_ClearWeakRefs': ('clearweakrefs', None, 'o', 'v', 'p'),
    'PyErr_WriteUnraisable': ('unraisable', None, 'O', 'v', 'p'),
    'PyErr_WarnEx': ('warn', None, 'osi', 'I', 'p'),
    'PyLong_FromLong': ('int', None, 'i', 'N', ''),
    'PyLong_FromSsize_t': ('int', None, 'i', 'N', ''),
    'PyLong_FromSize_t': ('int', None, 'i', 'N', ''),
    'PyLong_FromLongLong': ('int', None, 'i', 'N', ''),
    'PyLong_FromVoidPtr': ('int', None, '_', 'N', ''),
    'PyFloat_FromDouble': ('float', None, '_', 'N', ''),
    'PyLong_AsLong': ('asint', None, 'o', 'L-', 'p'),
    'PyLong_AsSsize_t': ('asint', None, 'o', 'L-', 'p'),
    'PyNumber_AsSsize_t': ('asint', None, 'oO', 'L-', 'p'),
    'Py_ReprEnter': ('reprenter', None, 'o', 'T', ''),
    'Py_ReprLeave': ('reprleave', None, 'o', 'v', ''),
    'strlen': ('strlen', None, 's', 'n', ''),
}
for n, d in NUMBER.items():
    GENERIC['PyNumber_' + n] = ('number', d, 'oo', 'N', 'p')
for n, d in INPLACE.items():
    GENERIC['PyNumber_InPlace' + n] = ('number', d, 'oo', 'N', 'p')
for n, d in UNARY.items():
    GENERIC['PyNumber_' + n] = ('number', d, 'o', 'N', 'p')

FRESH = {'int', 'float', 'textformat', 'dictcopy'}


def arguments(run, name, spec, args):
    """checked arguments as event arguments"""
    out = []
    for i, a in enumerate(args):
        c = spec[i] if i < len(spec) and '*' not in spec[:i + 1] else '*'
        if isinstance(a, tuple) and a == UNDEF:
            run.problem('uninitialised value used', f'passed to {name}',
                        fatal=True)
        if c == 'o':
            run.nonnull(a, name)
            k = key(run, a)
            use(run, k)
            out.append(k)
        elif c == 'O':
            k = key(run, a) if isinstance(a, Ptr) else None
            if k is not None:
                use(run, k)
            out.append(k)
        elif c == 's':
            run.nonnull(a, name)
            t = text(run, a)
            out.append(('str', t) if t is not None else key(run, a))
        elif c == '*':
            if isinstance(a, Ptr):
                t = text(run, a)
                out.append(('str', t) if t is not None else key(run, a))
                if t is None and a.base and a.base[0] == 'o':
                    use(run, out[-1])
            else:
                out.append(key(run, a))
        else:
            out.append(key(run, a))
    return out


def use(run, k):
    """an object is used"""
    if k is None:
        return
    if k in run.freed and k not in run.fresh:
        run.problem('used after being freed', show(k))
    run.alive(k)
    if k[0] == 'r' and k in run.delta and k not in run.borrowed and \
            run.owned(k) <= 0 and not run.held(k) and \
            not run.stored_anywhere(k):
        run.problem('used after its last reference was released', show(k))


def passed_borrowed(run, e):
    """borrowed arguments of a call that may run other code must be kept
    alive by somebody"""
    for a in e.args:
        if isinstance(a, tuple) and a in run.borrowed and \
                run.owned(a) <= 0 and not run.held(a):
            run.problem('borrowed reference passed to code that may '
                        'release it', f'{show(a)} to {e!r}')


def finish(run, e, ret, t, label, fresh=False):
    """outcomes of a call by the kind of its result"""
    if ret == 'N':
        if run.choose(2):
            run.fail(e)
            return NULL
        return run.result(e, label, fresh)
    if ret == 'I':
        if run.choose(2):
            run.fail(e)
            return -1
        return 0
    if ret == 'T':
        c = run.choose(3)
        e.res = ('int', (1, 0, -1)[c])
        if c == 2:
            run.fail(e)
        return (1, 0, -1)[c]
    if ret in ('L', 'L-', 'H'):
        sure = (e.kind == 'dictlen' or e.name == 'tuple') and e.args and \
            e.args[0] in (('param', 'kwds'), ('param', 'args'))
        if not sure and run.choose(2):
            run.fail(e)
            return -1
        e.res = run.new(label)
        return run.sym(e.res, 0 if ret == 'L' else FULL[0], FULL[1],
                       () if ret == 'L-' else (-1,))
    if ret == 'B':
        c = run.choose(2)
        e.res = ('int', c)
        return c
    if ret == 'n':
        e.res = run.new(label)
        b = t[1] if t and t[0] == 'i' else 32
        return run.sym(e.res, -(1 << (b - 1)), (1 << (b - 1)) - 1)
    return None


def generic(run, name, args, t):
    kind, ename, spec, ret, flags = GENERIC[name]
    a = arguments(run, name, spec, args)
    e = run.event(kind, ename, a, False)
    if kind in PURE and ret == 'B':
        k = (kind,) + tuple(e.args)
        if k in run.facts:
            e.res = ('int', int(run.facts[k]))
            return int(run.facts[k])
        r = finish(run, e, ret, t, name)
        run.facts[k] = bool(r)
        return r
    if 'p' in flags:
        e.py = True
        pending(run, e)
        passed_borrowed(run, e)
        run.arbitrary(e)
    return finish(run, e, ret, t, kind, kind in FRESH)


PURE = {'itercheck', 'callablecheck', 'indexcheck'}


def pending(run, e):
    if run.err is not None:
        run.problem('Python code called with an error set',
                    f'{e!r} while {show(run.err)} is set')


for n in GENERIC:
    MODELS[n] = generic


def pyevent(run, kind, name, args):
    e = run.event(kind, name, args)
    e.py = True
    pending(run, e)
    passed_borrowed(run, e)
    run.arbitrary(e)
    return e


# ---- reference counts
@model('Py_INCREF', 'Py_IncRef', '_Py_IncRef')
def m_incref(run, name, args, t):
    run.incref(args[0], x=name == 'Py_IncRef')


@model('Py_XINCREF')
def m_xincref(run, name, args, t):
    run.incref(args[0], x=True)


@model('Py_DECREF', '_Py_DecRef')
def m_decref(run, name, args, t):
    if name != '_Py_DecRef' and len(args) > 1:
        args = args[-1:]
    run.decref(args[0])


@model('Py_XDECREF', 'Py_DecRef')
def m_xdecref(run, name, args, t):
    run.decref(args[-1], x=True)


@model('_Py_NewRef', 'Py_NewRef')
def m_newref(run, name, args, t):
    run.incref(args[0])
    return args[0]


@model('_Py_XNewRef', 'Py_XNewRef')
def m_xnewref(run, name, args, t):
    run.incref(args[0], x=True)
    return args[0]


@model('_Py_Dealloc')
def m_dealloc(run, name, args, t):
    run.event('dealloc', None, [key(run, args[0])])


# ---- types
@model('Py_TYPE')
def m_type(run, name, args, t):
    run.nonnull(args[0], 'Py_TYPE')
    p = args[0]
    if isinstance(p, Ptr) and p.base and p.base[0] == 'g':
        return run.obj(('type', run.okey(p)))
    return run.load(Ptr(p.base, p.off + 8), ('p',))


def instance_fact(run, ob, ty):
    ob, ty = run.rep(ob), run.rep(ty)
    k = ('inst', ob, ty)
    if k in run.facts:
        return run.facts[k]
    if ty == ('ext', 'object'):
        return True
    for (f, o, x), v in [(q, v) for q, v in run.facts.items()
                         if len(q) == 3 and q[0] == 'inst']:
        if run.rep(o) == ob and run.rep(x) == ty:
            return v
    if run.same(('type', ob), ty):
        run.facts[k] = True
        return True
    if ob in run.fresh or run.is_const(ob):
        kt = KNOWN_TYPES.get(ob[2] if ob[0] == 'r' else ob[0])
        if ob in IMMORTAL:
            run.facts[k] = False
            return False
        if kt is not None:
            run.facts[k] = ty == kt
            return run.facts[k]
    return run.fact(k)


KNOWN_TYPES = {'str': ('ext', 'str'), 'int': ('ext', 'int'),
               'tuple': ('ext', 'tuple'), 'dict': ('ext', 'dict')}


@model('PyObject_TypeCheck')
def m_typecheck(run, name, args, t):
    run.nonnull(args[0], name)
    run.nonnull(args[1], name)
    r = instance_fact(run, key(run, args[0]), key(run, args[1]))
    run.event('typecheck', None, [key(run, args[0]), key(run, args[1])]
              ).res = ('int', int(r))
    return int(r)


@model('PyType_IsSubtype')
def m_issubtype(run, name, args, t):
    a, b = key(run, args[0]), key(run, args[1])
    if isinstance(a, tuple) and a[0] == 'type':
        return int(instance_fact(run, a[1], b))
    if run.same(a, b):
        return 1
    return int(run.fact(('subtype', a, b)))


FEATURES = {1 << 28: ('ext', 'str'), 1 << 29: ('ext', 'dict'),
            1 << 26: ('ext', 'tuple'), 1 << 25: ('ext', 'list'),
            1 << 24: ('ext', 'int'), 1 << 31: ('ext', 'type'),
            1 << 27: ('ext', 'bytes'), 1 << 30: ('ext', 'BaseException')}


@model('PyType_HasFeature')
def m_feature(run, name, args, t):
    k = key(run, args[0])
    f = args[1]
    if isinstance(f, int):
        f &= (1 << 64) - 1
    if isinstance(k, tuple) and k[0] == 'type' and f in FEATURES:
        return int(instance_fact(run, k[1], FEATURES[f]))
    return int(run.fact(('feature', k, f)))


@model('PyType_GetFlags')
def m_flags(run, name, args, t):
    return run.opaque(('tslot', 'tp_flags', key(run, args[0])), ('i', 64))


@model('PyType_Ready')
def m_ready(run, name, args, t):
    e = run.event('ready', None, [key(run, args[0])])
    r = finish(run, e, 'I', t, 'ready')
    if r == 0:
        run.ready.add(args[0].base)
    return r


@model('PyType_GenericAlloc', 'PyType_GenericNew')
def m_alloc(run, name, args, t):
    run.nonnull(args[0], name)
    e = run.event('alloc', None, [key(run, args[0])])
    r = finish(run, e, 'N', t, 'alloc', fresh=True)
    if r != NULL:
        run.facts[('inst', e.res, key(run, args[0]))] = True
        run.mem[(('o', e.res), 8)] = args[0]
    return r


@model('PyObject_GC_Del', 'PyObject_Free', 'PyObject_Del')
def m_gcdel(run, name, args, t):
    return free(run, key(run, args[0]))


@model('PyObject_GC_UnTrack', '_PyObject_GC_UNTRACK')
def m_untrack(run, name, args, t):
    k = key(run, args[0])
    run.event('untrack', None, [k])
    run.untracked.add(k)


def free(run, k):
    run.event('free', None, [k])
    run.freed[k] = run.freed.get(k, 0) + 1


# ---- errors
def error_class(run, p):
    run.nonnull(p, 'PyErr')
    return key(run, p)


@model('PyErr_SetString')
def m_setstring(run, name, args, t):
    c = error_class(run, args[0])
    run.nonnull(args[1], name)
    tx = text(run, args[1])
    e = run.event('seterr', None, [c, ('str', tx)])
    run.err = ('exc', c, (('str', tx),))
    e.err = run.err


@model('PyErr_SetObject')
def m_setobject(run, name, args, t):
    c = error_class(run, args[0])
    v = key(run, args[1])
    use(run, v)
    e = run.event('seterr', None, [c, v])
    run.err = ('exc', c, run.tuples.get(v, (v,)))
    e.err = run.err


@model('PyErr_SetNone')
def m_setnone(run, name, args, t):
    c = error_class(run, args[0])
    run.err = ('exc', c, ())
    run.event('seterr', None, [c]).err = run.err


@model('PyErr_Format')
def m_format(run, name, args, t):
    c = error_class(run, args[0])
    a = arguments(run, name, '_s*', args)
    run.err = ('exc', c, ('text',) + tuple(a[1:]))
    run.event('seterr', None, a).err = run.err
    return NULL


@model('PyErr_NoMemory', 'PyErr_BadInternalCall', 'PyErr_BadArgument')
def m_nomem(run, name, args, t):
    run.err = ('exc', ('ext', {'PyErr_NoMemory': 'MemoryError',
                               'PyErr_BadInternalCall': 'SystemError'}.get(
                                   name, 'TypeError')), ())
    run.event('seterr', None, [run.err[1]]).err = run.err
    return NULL if t and t[0] == 'p' else 0


@model('PyErr_Clear')
def m_clear(run, name, args, t):
    run.event('clearerr', None, []).err = run.err
    run.err = None


@model('PyErr_Occurred')
def m_occurred(run, name, args, t):
    if run.err is None:
        return NULL
    return run.obj(error_type(run))


def error_type(run):
    if run.err[0] == 'exc':
        return run.err[1]
    return ('errtype', run.err)


@model('PyErr_ExceptionMatches')
def m_matches(run, name, args, t):
    c = error_class(run, args[0])
    if run.err is None:
        run.problem('error examined without one being set', name)
        return 0
    return matches(run, c)


def matches(run, c):
    if run.err[0] == 'exc' and run.err[1][0] == 'ext' and c[0] == 'ext':
        if run.err[1] == c or c in (('ext', 'Exception'),
                                    ('ext', 'BaseException')):
            return 1
        return 0
    if run.err[0] == 'exc' and run.rep(run.err[1]) == run.rep(c):
        return 1
    return int(run.fact(('errmatch', run.err, c)))


@model('PyErr_GivenExceptionMatches')
def m_given(run, name, args, t):
    a, c = key(run, args[0]), key(run, args[1])
    if run.err is not None and a == error_type(run):
        return matches(run, c)
    return int(run.fact(('errmatch', a, c)))


@model('PyErr_Fetch')
def m_fetch(run, name, args, t):
    if run.err is None:
        for a in args:
            run.store(a, NULL)
        return
    k = run.new('error')
    run.saved_err[k] = run.err
    run.gain(k)
    run.store(args[0], run.obj(k))
    for i, a in enumerate(args[1:]):
        j = ('errpart', i, k)
        run.nullable.add(j)
        run.gain(j, 0)
        run.store(a, run.obj(j))
    run.err = None


@model('PyErr_Restore')
def m_restore(run, name, args, t):
    p = args[0]
    if run.isnull(p):
        run.err = None
        return
    k = run.okey(p)
    run.gain(k, -1)
    run.err = run.saved_err.get(k, ('exc', k, ()))


@model('PyErr_NormalizeException')
def m_normalize(run, name, args, t):
    return None


@model('PyErr_GetRaisedException')
def m_getraised(run, name, args, t):
    if run.err is None:
        return NULL
    k = run.new('error')
    run.saved_err[k] = run.err
    run.gain(k)
    run.err = None
    return run.obj(k)


@model('PyErr_SetRaisedException')
def m_setraised(run, name, args, t):
    p = args[0]
    if run.isnull(p):
        run.err = None
        return
    k = run.okey(p)
    run.gain(k, -1)
    run.err = run.saved_err.get(k, ('exc', k, ()))


# ---- attributes
@model('PyObject_GetAttr', 'PyObject_GetAttrString')
def m_getattr(run, name, args, t):
    a = arguments(run, name, 'oo' if name == 'PyObject_GetAttr' else 'os',
                  args)
    e = pyevent(run, 'getattr', None, a)
    r = finish(run, e, 'N', t, 'getattr')
    if r != NULL and run.imported(a[0]) and a[1][0] == 'str':
        k = ('import', run.imported(a[0]), a[1][1])
        run.delta[k] = run.delta.pop(e.res)
        e.res = k
        return run.obj(k)
    return r


@model('PyObject_SetAttr', 'PyObject_SetAttrString', 'PyObject_DelAttr',
       'PyObject_DelAttrString')
def m_setattr(run, name, args, t):
    s = 's' if name.endswith('String') else 'o'
    if 'Del' in name:
        args = list(args[:2]) + [NULL]
    a = arguments(run, name, 'o' + s + 'O', args)
    e = pyevent(run, 'delattr' if a[2] is None else 'setattr', None,
                a[:2] if a[2] is None else a)
    return finish(run, e, 'I', t, 'setattr')


@model('PyObject_HasAttr', 'PyObject_HasAttrString',
       'PyObject_HasAttrWithError', 'PyObject_HasAttrStringWithError')
def m_hasattr(run, name, args, t):
    a = arguments(run, name, 'os' if 'String' in name else 'oo', args)
    e = pyevent(run, 'hasattr', None if name.endswith('Error') else 'quiet',
                a)
    return finish(run, e, 'T' if name.endswith('Error') else 'B', t,
                  'hasattr')


@model('_PyObject_LookupAttr', 'PyObject_GetOptionalAttr')
def m_optattr(run, name, args, t):
    a = arguments(run, name, 'oo_', args)
    e = pyevent(run, 'getattr', None, a[:2])
    c = run.choose(3)
    if c == 0:
        r = run.result(e, 'getattr')
        run.store(args[2], r)
        return 1
    run.store(args[2], NULL)
    e.ok = False
    if c == 1:
        e.extra = 'absent'
        return 0
    run.fail(e)
    return -1


# ---- calls
def call_result(run, e, t):
    return finish(run, e, 'N', t, 'call')


@model('PyObject_CallFunctionObjArgs')
def m_callfn(run, name, args, t):
    a = varargs(run, name, args, 1)
    e = pyevent(run, 'call', None, a)
    return call_result(run, e, t)


@model('PyObject_CallMethodObjArgs')
def m_callmeth(run, name, args, t):
    a = varargs(run, name, args, 2)
    e = pyevent(run, 'callmethod', a[1], [a[0]] + a[2:])
    return call_result(run, e, t)


def varargs(run, name, args, n):
    out = []
    for i, x in enumerate(args):
        if i < n:
            run.nonnull(x, name)
        elif run.isnull(x):
            break
        k = key(run, x)
        use(run, k)
        out.append(k)
    else:
        run.problem('argument list is not ended', name)
    return out


@model('PyObject_CallNoArgs', 'PyObject_CallOneArg', '_PyObject_CallNoArgs')
def m_callone(run, name, args, t):
    a = arguments(run, name, 'ooo', args)
    return call_result(run, pyevent(run, 'call', None, a), t)


@model('PyObject_CallMethodNoArgs', 'PyObject_CallMethodOneArg')
def m_callmethone(run, name, args, t):
    a = arguments(run, name, 'ooo', args)
    return call_result(run, pyevent(run, 'callmethod', a[1],
                                    [a[0]] + a[2:]), t)


def array(run, p, n):
    out = []
    for i in range(n):
        v = run.load(Ptr(p.base, p.off + 8 * i), ('p',))
        run.nonnull(v, 'an argument array')
        use(run, key(run, v))
        out.append(key(run, v))
    return out


@model('PyObject_Vectorcall', '_PyObject_Vectorcall', 'PyObject_VectorcallDict')
def m_vectorcall(run, name, args, t):
    f = arguments(run, name, 'o', args[:1])[0]
    n = args[2] & ((1 << 62) - 1) if isinstance(args[2], int) else None
    if n is None:
        a = [f, ('args', args[2].key)]
    else:
        a = [f] + array(run, args[1], n)
    return call_result(run, pyevent(run, 'call', None, a), t)


@model('PyObject_VectorcallMethod')
def m_vectormeth(run, name, args, t):
    m = arguments(run, name, 'o', args[:1])[0]
    n = args[2] & ((1 << 62) - 1) if isinstance(args[2], int) else 1
    return call_result(run, pyevent(run, 'callmethod', m,
                                    array(run, args[1], n)), t)


@model('PyObject_Call', 'PyObject_CallObject')
def m_call(run, name, args, t):
    spec = 'ooO' if name == 'PyObject_Call' else 'oO'
    a = arguments(run, name, spec, args)
    tup = a[1]
    if tup is None:
        a = [a[0]]
    elif tup in run.tuples:
        a = [a[0]] + list(run.tuples[tup])
    else:
        a = [a[0], ('*', tup)]
    if name == 'PyObject_Call':
        kw = arguments(run, name, '__O', args)[2]
        if kw is not None:
            a.append(('**', kw))
    return call_result(run, pyevent(run, 'call', None, a), t)


@model('PyObject_CallFunction', '_PyObject_CallFunction_SizeT')
def m_callfmt(run, name, args, t):
    f = arguments(run, name, 'o', args[:1])[0]
    a = [f]
    if len(args) > 1 and isinstance(args[1], Ptr) and not \
            run.isnull(args[1]):
        v = build(run, text(run, args[1]), args[2:])
        if v is None:
            return NULL
        a += v
    e = pyevent(run, 'call', None, a)
    return call_result(run, e, t)


@model('PyObject_CallMethod', '_PyObject_CallMethod_SizeT')
def m_callmethfmt(run, name, args, t):
    o, m = arguments(run, name, 'os', args[:2])
    a = [o]
    if len(args) > 2 and isinstance(args[2], Ptr) and not \
            run.isnull(args[2]):
        v = build(run, text(run, args[2]), args[3:])
        if v is None:
            return NULL
        a += v
    return call_result(run, pyevent(run, 'callmethod', m, a), t)


def build(run, fmt, args, steal=False):
    """the values a format string makes; None if one cannot be made"""
    out = []
    i = 0
    if fmt is None:
        run.unmodelled.add('format')
        return [('built', run.new('built'))]
    f = fmt.strip('()') if fmt.startswith('(') else fmt
    j = 0
    while j < len(f):
        c = f[j]
        j += 1
        if c in ' ,\t:':
            continue
        if c in 'OSN':
            if j < len(f) and f[j] == '&':
                j += 1
                i += 2
                out.append(('built', run.new('built')))
                continue
            run.nonnull(args[i], 'a format string')
            k = key(run, args[i])
            use(run, k)
            if c == 'N':
                run.gain(k, -1)
                run.initial_steal(k)
            out.append(k)
            i += 1
        elif c in 'szUy':
            tx = text(run, args[i])
            out.append(('str', tx) if tx is not None else
                       ('text', key(run, args[i])))
            i += 1
        elif c == '{':
            j0 = j
            while j < len(f) and f[j] != '}':
                j += 1
            inner = f[j0:j].strip(' ,')
            j += 1
            if inner:
                v = build(run, inner, args[i:])
                i += len(v)
                out.append(('dictof',) + tuple(v))
            else:
                out.append(('emptydict',))
        elif c == '[':
            j0 = j
            while j < len(f) and f[j] != ']':
                j += 1
            inner = f[j0:j].strip(' ,')
            j += 1
            if inner:
                v = build(run, inner, args[i:])
                i += len(v)
                out.append(('listof',) + tuple(v))
            else:
                out.append(('emptylist',))
        elif c in 'ilhbkLKInBHpdfDcC':
            out.append(key(run, args[i]) if i < len(args) else None)
            i += 1
        elif c in '()':
            pass
        else:
            run.unmodelled.add('format ' + fmt)
    return out


@model('Py_BuildValue', '_Py_BuildValue_SizeT')
def m_build(run, name, args, t):
    fmt = text(run, args[0])
    e = run.event('build', fmt, [])
    v = build(run, fmt, args[1:])
    e.args = v
    n = len(v)
    if fmt is not None and not fmt.startswith('(') and n == 1 and \
            fmt in ('O', 'N', 'S'):
        if fmt == 'N':
            run.gain(v[0])
        else:
            run.gain(v[0])
        e.res = v[0]
        return args[1]
    if run.choose(2):
        run.fail(e)
        return NULL
    r = run.result(e, 'tuple', fresh=True)
    run.tuples[e.res] = tuple(v)
    return r


@model('PyTuple_Pack')
def m_pack(run, name, args, t):
    n = args[0]
    a = arguments(run, name, '_' + 'o' * 20, args)[1:]
    if isinstance(n, int) and n != len(a):
        run.problem('wrong number of tuple items', f'{n} for {len(a)}')
    e = run.event('build', 'tuple', a)
    if run.choose(2):
        run.fail(e)
        return NULL
    r = run.result(e, 'tuple', fresh=True)
    run.tuples[e.res] = tuple(a)
    return r


@model('PyTuple_New', 'PyList_New', 'PyDict_New', 'PySet_New')
def m_newcont(run, name, args, t):
    e = run.event('new' + name[2:-4].lower(), None,
                  [key(run, a) for a in args])
    return finish(run, e, 'N', t, name[2:-4].lower(), fresh=True)


@model('PyTuple_SetItem', 'PyList_SetItem', 'PyTuple_SET_ITEM',
       'PyList_SET_ITEM')
def m_tupset(run, name, args, t):
    k = key(run, args[2])
    run.event('settuple', None, [key(run, args[0]), key(run, args[1]), k])
    if k is not None:
        run.gain(k, -1)
        run.initial_steal(k)
    tk = key(run, args[0])
    i = args[1]
    if isinstance(i, int):
        cur = list(run.tuples.get(tk, ()))
        while len(cur) <= i:
            cur.append(None)
        cur[i] = k
        run.tuples[tk] = tuple(cur)
    return 0


@model('PyTuple_GetItem', 'PyList_GetItem', 'PyTuple_GET_ITEM')
def m_tupget(run, name, args, t):
    k = key(run, args[0])
    i = args[1]
    e = run.event('tupleitem', None, [k, key(run, i)])
    if name != 'PyTuple_GET_ITEM' and run.choose(2):
        run.fail(e, ('exc', ('ext', 'IndexError'), ()))
        return NULL
    tp = run.tuples.get(k)
    if tp and isinstance(i, int) and i < len(tp):
        return run.obj(tp[i])
    r = ('item', k, key(run, i))
    if k in run.stable:
        run.stable.add(r)
    return run.obj(r)


# ---- dictionaries
@model('PyDict_GetItem', 'PyDict_GetItemString')
def m_dictget(run, name, args, t):
    a = arguments(run, name, 'os' if name.endswith('String') else 'oo', args)
    e = pyevent_quiet(run, 'dictget', 'quiet', a)
    return dict_result(run, e, False)


@model('PyDict_GetItemWithError', '_PyDict_GetItemWithError')
def m_dictgeterr(run, name, args, t):
    a = arguments(run, name, 'oo', args)
    e = pyevent(run, 'dictget', None, a)
    return dict_result(run, e, True)


def pyevent_quiet(run, kind, name, args):
    """PyDict_GetItem saves and restores an error that is set"""
    e = run.event(kind, name, args)
    e.py = True
    passed_borrowed(run, e)
    run.arbitrary(e)
    return e


def dict_result(run, e, err):
    c = run.choose(3 if err else 2)
    if c == 2:
        run.fail(e)
        return NULL
    e.ok = c == 0
    if c == 1:
        e.extra = 'absent'
        return NULL
    k = run.new('dictget')
    e.res = k
    run.borrowed[k] = e
    return run.obj(k)


@model('PyDict_GetItemRef')
def m_dictgetref(run, name, args, t):
    a = arguments(run, name, 'oo_', args)
    e = pyevent(run, 'dictget', None, a[:2])
    c = run.choose(3)
    if c == 0:
        r = run.result(e, 'dictget')
        run.store(args[2], r)
        return 1
    run.store(args[2], NULL)
    e.ok = False
    if c == 1:
        e.extra = 'absent'
        return 0
    run.fail(e)
    return -1


# ---- numbers, text
@model('PyBool_FromLong')
def m_bool(run, name, args, t):
    v = args[0]
    c = run.compare('ne', v, 0) if isinstance(v, (int, IS)) else True
    e = run.event('bool', None, [key(run, v)])
    e.res = TRUE if c else FALSE
    return run.obj(e.res)


@model('PyUnicode_InternFromString', 'PyUnicode_FromString')
def m_intern(run, name, args, t):
    run.nonnull(args[0], name)
    tx = text(run, args[0])
    if tx is None:
        tx = string_at(run, args[0])
    e = run.event('string', tx, [])
    if run.choose(2):
        run.fail(e)
        return NULL
    k = ('str', tx) if tx is not None else run.new('text')
    e.res = k
    run.gain(k)
    return run.obj(k)


def string_at(run, p):
    return None


def is_str(run, k):
    if isinstance(k, tuple) and k[0] == 'str':
        return True
    for q, v in run.facts.items():
        if q[0] == 'inst' and run.rep(q[1]) == run.rep(k) and \
                q[2] == ('ext', 'str'):
            return v
    return None


@model('PyUnicode_GetLength', 'PyUnicode_GET_LENGTH')
def m_textlen(run, name, args, t):
    k = arguments(run, name, 'o', args)[0]
    run.event('textlen', None, [k])
    if name == 'PyUnicode_GET_LENGTH':
        is_text(run, k, name)
    elif is_str(run, k) is not True:
        if run.choose(2):
            run.fail(run.events[-1])
            return -1
    if k[0] == 'str':
        return len(k[1])
    return run.sym(('textlen', run.rep(k)), 0)


def is_text(run, k, what):
    if is_str(run, k) is not True:
        run.problem('text function on something that may not be text',
                    f'{what}({show(k)})')


@model('PyUnicode_DATA')
def m_textdata(run, name, args, t):
    k = arguments(run, name, 'o', args)[0]
    is_text(run, k, name)
    return Ptr(('o', ('textdata', run.rep(k))), 0)


@model('PyUnicode_READ')
def m_textread(run, name, args, t):
    p = args[1]
    k = run.okey(p) if isinstance(p, Ptr) else None
    if isinstance(k, tuple) and k[0] == 'textdata':
        return m_readchar(run, 'PyUnicode_READ_CHAR',
                          [run.obj(k[1]), args[2]], t)
    return run.sym(run.new('char'), 0, 0x10ffff)


@model('PyUnicode_AsUTF8', 'PyUnicode_AsUTF8AndSize')
def m_utf8(run, name, args, t):
    k = arguments(run, name, 'o', args[:1])[0]
    e = run.event('utf8', None, [k])
    if k[0] != 'str' and run.choose(2):
        run.fail(e)
        return NULL
    if len(args) > 1 and isinstance(args[1], Ptr) and \
            not run.isnull(args[1]):
        run.store(args[1], run.sym(('utf8len', run.rep(k)), 0))
    return Ptr(('o', ('utf8', run.rep(k))), 0)


def utf8_of(run, p):
    """(text object, offset) a pointer to encoded text refers to"""
    if isinstance(p, Ptr) and p.base and p.base[0] == 'o' and \
            isinstance(p.base[1], tuple) and p.base[1][0] == 'utf8':
        return p.base[1][1], p.off
    return None


def text_order(run, k, tx):
    if k[0] == 'str':
        return (k[1] > tx) - (k[1] < tx)
    return run.sym(('texteq', run.rep(k), tx), -1, 1)


def starts(run, k, tx):
    for i, ch in enumerate(tx):
        c = run.sym(('char', run.rep(k), i), 0, 0x10ffff)
        if not run.compare('eq', c, ord(ch)):
            return 0
    return 1


@model('strcmp', 'strncmp')
def m_strcmp(run, name, args, t):
    run.event('strcmp', None, [])
    for x, y in ((args[0], args[1]), (args[1], args[0])):
        u, tx = utf8_of(run, x), None
        if u is not None and u[1] == 0:
            tx = text(run, y)
        if tx is None:
            continue
        if name == 'strcmp':
            return text_order(run, u[0], tx)
        if isinstance(args[2], int):
            if args[2] <= len(tx):
                return int(not starts(run, u[0], tx[:args[2]]))
            return text_order(run, u[0], tx)
    a, b = text(run, args[0]), text(run, args[1])
    if a is not None and b is not None:
        if name == 'strncmp' and isinstance(args[2], int):
            a, b = a[:args[2]], b[:args[2]]
        return (a > b) - (a < b)
    return run.sym(run.new('strcmp'), -1, 1)


@model('PyUnicode_Compare')
def m_textcmp(run, name, args, t):
    a, b = arguments(run, name, 'oo', args)
    e = run.event('textcompare', None, [a, b])
    for x, y in ((a, b), (b, a)):
        y = run.rep(y)
        if isinstance(y, tuple) and y[0] == 'str':
            if is_str(run, x) is not True and run.choose(2):
                run.fail(e)
                return -1
            return text_order(run, x, y[1])
    if run.choose(2):
        run.fail(e)
        return -1
    return run.sym(run.new('textcompare'), -1, 1)


@model('PyUnicode_ReadChar', 'PyUnicode_READ_CHAR')
def m_readchar(run, name, args, t):
    k = arguments(run, name, 'oi', args)[0]
    i = args[1]
    ik = i if isinstance(i, int) else i.key
    e = run.event('readchar', ik, [k])
    lo = run.rng(('textlen', run.rep(k)))[0] if k[0] != 'str' else len(k[1])
    if name == 'PyUnicode_READ_CHAR':
        is_text(run, k, name)
    elif is_str(run, k) is not True or not isinstance(i, int) or i < 0 or \
            i >= lo:
        if run.choose(2):
            run.fail(e)
            return -1
    if k[0] == 'str' and isinstance(i, int) and i < len(k[1]):
        return ord(k[1][i])
    return run.sym(('char', run.rep(k), ik), 0, 0x10ffff)


@model('PyUnicode_CompareWithASCIIString')
def m_ascii(run, name, args, t):
    k = arguments(run, name, 'os', args)[0]
    if is_str(run, k) is not True:
        run.problem('text function on something that may not be text',
                    f'{name}({show(k)})')
    tx = text(run, args[1])
    run.event('textcompare', tx, [k])
    return text_order(run, k, tx)


@model('PyUnicode_EqualToUTF8', '_PyUnicode_EqualToASCIIString')
def m_asciieq(run, name, args, t):
    r = m_ascii(run, name, args, t)
    return int(run.compare('eq', r, 0))


@model('PyUnicode_Tailmatch')
def m_tailmatch(run, name, args, t):
    a = arguments(run, name, 'ooiii', args)
    e = run.event('tailmatch', None, a)
    if is_str(run, a[0]) is not True and run.choose(2):
        run.fail(e)
        return -1
    if a[1][0] == 'str' and args[2] == 0 and args[4] == -1:
        for i, ch in enumerate(a[1][1]):
            c = run.sym(('char', run.rep(a[0]), i), 0, 0x10ffff)
            if not run.compare('eq', c, ord(ch)):
                return 0
        return 1
    return int(run.fact(('tailmatch',) + tuple(a)))


# ---- arguments
@model('PyArg_ParseTuple', '_PyArg_ParseTuple_SizeT')
def m_parse(run, name, args, t):
    return parse(run, args[0], None, text(run, args[1]), None, args[2:])


@model('PyArg_ParseTupleAndKeywords', '_PyArg_ParseTupleAndKeywords_SizeT')
def m_parsekw(run, name, args, t):
    names = []
    p = args[3]
    i = 0
    while isinstance(p, Ptr) and i < 30:
        v = run.load(Ptr(p.base, p.off + 8 * i), ('p',))
        if not isinstance(v, Ptr) or v.base is None:
            break
        names.append(text(run, v))
        i += 1
    return parse(run, args[0], args[1], text(run, args[2]), names, args[4:])


def parse(run, tup, kw, fmt, names, outs):
    run.nonnull(tup, 'argument parsing')
    k = key(run, tup)
    if kw is not None and isinstance(kw, Ptr):
        key(run, kw)
    spec = (fmt or '').split(':')[0].split(';')[0]
    e = run.event('parse', fmt, [k])
    e.extra = names
    e.py = True
    run.arbitrary(e)
    if run.choose(2):
        run.fail(e, ('parse error',))
        return 0
    opt = False
    n = 0
    oi = 0
    i = 0
    while i < len(spec):
        c = spec[i]
        i += 1
        if c in '|$':
            opt = True
            continue
        if c != 'O':
            run.unmodelled.add('argument format ' + spec)
            return 1
        typ = None
        if i < len(spec) and spec[i] == '!':
            i += 1
            typ = outs[oi]
            oi += 1
        out = outs[oi]
        oi += 1
        label = names[n] if names and n < len(names) else n
        ak = ('arg', label)
        n += 1
        if opt:
            if run.choose(2):
                run.facts[('given', label)] = False
                continue
            run.facts[('given', label)] = True
        run.stable.add(ak)
        if typ is not None:
            run.facts[('inst', ak, key(run, typ))] = True
        run.store(out, run.obj(ak))
    if names is not None and n != len(names):
        run.problem('argument names do not fit the format',
                    f'{names} for {spec}')
    if oi != len(outs):
        run.problem('argument targets do not fit the format', spec)
    return 1


@model('PyArg_UnpackTuple')
def m_unpack(run, name, args, t):
    e = run.event('parse', text(run, args[1]), [key(run, args[0])])
    lo, hi = args[2], args[3]
    if run.choose(2):
        run.fail(e, ('parse error',))
        return 0
    for i, out in enumerate(args[4:]):
        if i >= lo and run.choose(2):
            break
        run.stable.add(('arg', i))
        run.store(out, run.obj(('arg', i)))
    return 1


# ---- modules
@model('Proxy_Import')
def m_proxyimport(run, name, args, t):
    e = run.event('import', 'zope.proxy C API', [])
    if run.choose(2):
        run.fail(e)
        return -1
    if '_proxy_api' in run.ir.globals:
        api = ('const', 'zope.proxy C API')
        run.mem[(('g', '_proxy_api'), 0)] = run.obj(api)
        run.mem[(('o', api), 0)] = run.obj(PROXYBASE)
        for o in (8, 16, 24):
            run.mem[(('o', api), o)] = run.obj(('const', 'zope.proxy', o))
    return 0


@model('PyModule_Create2', 'PyModuleDef_Init')
def m_modcreate(run, name, args, t):
    e = run.event('module', None, [key(run, args[0])])
    return finish(run, e, 'N', t, 'module', fresh=True)


@model('PyModule_AddObject', 'PyModule_AddObjectRef', 'PyModule_Add')
def m_addobject(run, name, args, t):
    run.nonnull(args[0], name)
    run.nonnull(args[2], name)
    k = key(run, args[2])
    use(run, k)
    e = run.event('export', text(run, args[1]), [key(run, args[0]), k])
    # an initialisation failing here is not followed
    if not run.is_init and run.choose(2):
        run.fail(e)
        if name == 'PyModule_Add':
            run.gain(k, -1)
        return -1
    if name != 'PyModule_AddObjectRef':
        run.gain(k, -1)
        run.initial_steal(k)
    return 0


@model('PyModule_AddType')
def m_addtype(run, name, args, t):
    k = key(run, args[1])
    nm = None
    if k[0] == 'global':
        v = run.load(Ptr(args[1].base, 24), ('p',))
        nm = (text(run, v) or '').split('.')[-1]
    e = run.event('export', nm, [key(run, args[0]), k])
    run.ready.add(args[1].base)
    return finish(run, e, 'I', t, 'export')


@model('PyState_FindModule', 'PyModule_GetState')
def m_state(run, name, args, t):
    return run.opaque(('module state',), ('p',))


# ---- iteration
@model('PyIter_Next')
def m_next(run, name, args, t):
    a = arguments(run, name, 'o', args)
    if run.facts.get(('itercheck', run.rep(a[0]))) is not True:
        run.problem('PyIter_Next on something that may not be an iterator',
                    show(a[0]))
    e = pyevent(run, 'next', None, a)
    c = run.choose(3)
    if c == 0:
        return run.result(e, 'next')
    e.ok = False
    if c == 1:
        e.extra = 'exhausted'
        return NULL
    run.fail(e)
    return NULL


# ---- calls through pointers
SLOT_PURE = {'tp_free', 'tp_dealloc', 'tp_clear', 'tp_alloc'}


def slot_call(run, k, args, t):
    """a call through a slot of an unknown type, or an unknown function"""
    ks = []
    for a in args:
        if isinstance(a, Ptr):
            kk = key(run, a)
            use(run, kk) if kk is not None else None
            ks.append(kk)
        else:
            ks.append(key(run, a))
    if k[0] == 'tslot':
        slot, ty = k[1], k[2]
        if slot in ('tp_free',):
            return free(run, ks[0])
        if slot == 'tp_alloc':
            return m_alloc(run, 'PyType_GenericAlloc',
                           [run.obj(ty) if not args else args[0]], t)
        if slot in ('tp_dealloc', 'tp_clear') and ty == PROXYBASE:
            return base_slot(run, slot, args[0], ks[0])
        e = pyevent(run, 'slot', slot, ks)
        e.extra = ty
        if slot in ('nb_bool', 'sq_contains'):
            ret = 'T'
        elif slot in ('tp_hash', ):
            ret = 'H'
        elif slot in ('mp_length', 'sq_length'):
            ret = 'L'
        elif t and t[0] == 'p':
            ret = 'N'
        elif t and t[0] == 'i':
            ret = 'I'
        else:
            ret = 'v'
        if slot == 'tp_iternext':
            c = run.choose(3)
            if c == 0:
                return run.result(e, 'next')
            e.ok = False
            if c == 1:
                e.extra = 'exhausted'
                return NULL
            run.fail(e)
            return NULL
        return finish(run, e, ret, t, slot)
    if k == ('param', 'visit'):
        e = run.event('visit', None, ks)
        c = run.choose(3)
        e.res = ('int', (0, 1, -1)[c])
        return (0, 1, -1)[c]
    run.unmodelled.add(f'call of {show(k)}')
    e = pyevent(run, 'callpointer', k, ks)
    return finish(run, e, {'p': 'N', 'i': 'I'}.get(t[0], 'v'), t, 'pointer')


def base_slot(run, slot, p, k):
    """the base proxy type's tp_clear and tp_dealloc: release the wrapped
    object (and free)"""
    e = run.event('slot', slot, [k])
    e.extra = PROXYBASE
    if slot == 'tp_dealloc':
        run.untracked.add(k)
    v = run.load(Ptr(p.base, 16), ('p',))
    if not run.isnull(v):
        run.store(Ptr(p.base, 16), NULL)
        run.decref(v)
    if slot == 'tp_dealloc':
        free(run, k)
        return None
    return 0


# ---- intrinsics and anything else
def intrinsic(run, name, args, t):
    if name.startswith('llvm.memset'):
        p, v, n = args[0], args[1], args[2]
        if isinstance(n, int) and v == 0:
            for o in range(0, min(n, 4096), 8):
                run.mem[(p.base, p.off + o)] = 0
        return None
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        d, s, n = args[0], args[1], args[2]
        if isinstance(n, int):
            for o in range(0, min(n, 4096), 8):
                run.mem[(d.base, d.off + o)] = run.load(
                    Ptr(s.base, s.off + o), ('p',))
        return None
    if name.startswith('llvm.expect') or name.startswith('llvm.launder'):
        return args[0]
    if name.startswith('llvm.trap') or name.startswith('llvm.debugtrap'):
        raise Infeasible()
    return run.opaque((name, run.new('x')), t)


@model('abort', 'Py_FatalError', '__assert_fail', '_Py_FatalErrorFunc')
def m_abort(run, name, args, t):
    run.problem('aborts the process', name, fatal=True)


@model('printf', 'puts', 'fprintf', 'fflush', 'PySys_WriteStderr',
       'putchar', 'fputs', 'PySys_WriteStdout')
def m_print(run, name, args, t):
    return run.opaque((name, run.new('x')), t)


def unknown(run, name, args, t):
    """a function without a model"""
    run.unmodelled.add(name)
    ks = []
    for a in args:
        if isinstance(a, Ptr):
            tx = text(run, a)
            ks.append(('str', tx) if tx is not None else key(run, a))
        else:
            ks.append(key(run, a))
    e = run.event('unknown', name, ks)
    e.py = True
    run.arbitrary(e)
    ret = {'p': 'N', 'i': 'I'}.get(t[0], 'v')
    return finish(run, e, ret, t, name)
