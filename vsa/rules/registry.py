"""C26 - C29: the registry, the default protections, checker builders and
decorators."""
from ..core import rule
from ..ctx import CONFIGS
from ..pyai import PyRaise, World
from ..spec import *  # noqa
from .checkers import open_registry, REG
from .declarations import (table_writes, opaque_error, values_on,
                           name_bases, MANY)

T, CHK = param('type'), param('checker')
TYPES = ('builtins.type', 'types.ModuleType')


def reg_of(w, run):
    return Sym(*open_registry(w, run))


def open_dict(run, d, label):
    """a dictionary of the program may hold anything"""
    run.touch(d)
    d.layers = [param(label)]
    return d


def is_duplication(p):
    v = p.value
    return (exc_class(p) or '').endswith('DuplicationError') or \
        raised_by(p) is None and 'DuplicationError' in repr(
            call_term(v) and call_term(v)[0] or '')


def is_type_fact(p, t):
    fs = [inst_fact(p, t.key, k) for k in TYPES]
    if True in fs:
        return True
    if all(f is False for f in fs):
        return False
    return None


def writes_of(p, keys):
    ws = table_writes(p)
    out = []
    for k in keys:
        out += ws.pop(k, [])
    return out, ws


# ------------------------------------------------------------------- C26
@rule('C26', 'defineChecker, undefineChecker and lookups',
      'every path for any type, checker and registry contents: what changes '
      'in the registry')
def c26(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        define(ctx, rep, w, config)
        undefine(ctx, rep, w, config)
        lookups(ctx, rep, w, config)
        resetting(ctx, rep, w, config)
        basic_types(ctx, rep, w, config)
    rep.floor('paths', 40)


def define(ctx, rep, w, config):
    c = f'defineChecker ({config})'
    f = w.get('checker.defineChecker')
    seen = set()

    def thunk(run):
        run.info_reg = reg_of(w, run)
        return run.call(f, [T, CHK], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        reg = p.run.info_reg
        ws, others = writes_of(p, {reg.key, w.get('checker._checkers').key})
        had = had_fact(p, reg, T)
        typ = is_type_fact(p, T)
        if p.kind == 'raise':
            what = exc_class(p)
            rep.ob(c, not ws and not others, 'a refused definition changes '
                   'something', path=p, rule='refusal changes something')
            if what == 'builtins.TypeError':
                seen.add('type')
                rep.ob(c, typ is False, 'refuses something that may be a '
                       'type or module', path=p, rule='wrong refusal')
            elif is_duplication(p):
                seen.add('duplicate')
                rep.ob(c, had is True, 'reports a duplicate that may not be '
                       'one', path=p, rule='wrong refusal')
            else:
                rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                       rule='wrong error')
            continue
        seen.add('defined')
        rep.ob(c, typ is True, 'accepts something that may not be a type or '
               'module', path=p, rule='defines for a non-type')
        rep.ob(c, had is False, 'replaces a checker that may be defined',
               path=p, rule='replaces a checker')
        rep.ob(c, ws == [('set', T.key, CHK.key)] and not others,
               f'changes {ws} {others}', path=p, rule='wrong change')
    for s in ('type', 'duplicate', 'defined'):
        rep.ob(c, s in seen, f'no path: {s}', rule='case missing: ' + s)


def undefine(ctx, rep, w, config):
    c = f'undefineChecker ({config})'
    f = w.get('checker.undefineChecker')
    done = 0

    def thunk(run):
        run.info_reg = reg_of(w, run)
        return run.call(f, [T], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        reg = p.run.info_reg
        ws, others = writes_of(p, {reg.key, w.get('checker._checkers').key})
        if p.kind == 'raise':
            rep.ob(c, had_fact(p, reg, T) is not True or opaque_error(p),
                   'fails although there is a checker', path=p,
                   rule='fails')
            rep.ob(c, not [x for x in ws if x != ('del', T.key)] and
                   not others, 'changes something', path=p,
                   rule='wrong change')
            continue
        done += 1
        ok = ws == [('del', T.key)] or not ws and \
            had_fact(p, reg, T) is False
        rep.ob(c, ok and not others, f'changes {ws} {others}', path=p,
               rule='wrong change')
    rep.ob(c, done > 0, 'always fails', rule='case missing')


def lookups(ctx, rep, w, config):
    reg = None
    for name, args in (('getCheckerForInstancesOf', [T]),
                       ('selectChecker', [param('value')]),
                       ('selectCheckerPy', [param('value')])):
        c = f'{name} ({config})'
        f = w.get('checker.' + name)
        if is_ext(f):
            continue

        def thunk(run):
            run.info_reg = reg_of(w, run)
            return run.call(f, args, {})
        for p in live(w.explore(thunk, K=ctx.K)):
            rep.count('paths')
            ws = table_writes(p)
            rep.ob(c, not ws, f'a lookup changes {ws}', path=p,
                   rule='lookup changes something')
            if name == 'getCheckerForInstancesOf' and p.kind == 'return':
                reg = p.run.info_reg
                had = had_fact(p, reg, T)
                rep.ob(c, p.value.key == ('item', reg.key, T.key)
                       if had else had is False and
                       p.is_const(p.value, None) is True,
                       f'answers {p.value!r}', path=p, rule='wrong answer')


def effective(tables):
    """entries of the registry after the tables were put into it in turn"""
    out = {}
    for d in tables:
        for k, v in d:
            out[k.key] = v.key
    return out


def entries_of(d):
    d = getattr(d, 'dictval', None) or d
    return [x for lay in d.layers if isinstance(lay, dict)
            for x in lay.values()]


def resetting(ctx, rep, w, config):
    c = f'resetting ({config})'
    f = w.get('checker._clear')
    rep.ob(c, any(f is x for x in w.cleanups), 'the reset is not registered '
           'with the test cleanup', where='checker.py',
           rule='reset not registered')
    default = entries_of(w.get('checker._default_checkers'))
    basic = entries_of(w.get('checker.BasicTypes'))
    want = effective([default, basic])
    rep.count('default entries', len(want))

    def thunk(run):
        run.info_reg = reg_of(w, run)
        return run.call(f, [], {})
    regs = {REG.key, w.get('checker._checkers').key}
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        state = None
        bad = p.kind != 'return'
        for e in p.events:
            if not e.args or e.args[0].key not in regs or \
                    e.raised is not None:
                continue
            if e.kind == 'clear':
                state = {}
            elif e.kind == 'update':
                for d in e.data or [None]:
                    if isinstance(d, tuple) and state is not None:
                        state[d[0].key] = d[1].key
                    else:
                        bad = True
            elif e.kind == 'setitem':
                if state is not None:
                    state[e.args[1].key] = e.args[2].key
            elif e.kind == 'delitem':
                if state is not None:
                    state.pop(e.args[1].key, None)
        rep.ob(c, not bad and state == want, 'resetting does not leave '
               'exactly the default and basic-type entries', path=p,
               rule='wrong reset')
        ws, others = writes_of(p, regs)
        rep.ob(c, not others, f'changes {others}', path=p,
               rule='changes something else')
    # the state at import
    d = w.get('checker._checkers')
    if isinstance(d, Dict):
        have = effective([entries_of(d)])
        rep.ob(c, have == want, 'the registry does not start with the '
               'default and basic-type entries', where='checker.py',
               rule='wrong initial entries')


CLIENTS = {
    'set': ('def f(b, k, v):\n    b[k] = v\n'),
    'del': ('def f(b, k, v):\n    del b[k]\n'),
    'clear': ('def f(b, k, v):\n    b.clear()\n'),
    'update': ('def f(b, k, v):\n    b.update(v)\n'),
}


def basic_types(ctx, rep, w, config):
    B = w.get('checker.BasicTypes')
    inner = getattr(B, 'dictval', None)
    if inner is None:
        rep.ob(f'BasicTypes ({config})', False, 'not a dictionary',
               where='checker.py', rule='not a dictionary')
        return
    K, V = param('key'), param('entries')
    for op, src in CLIENTS.items():
        c = f'BasicTypes: {op} ({config})'
        f = snippet(w, src, 'checker')
        done = 0

        def thunk(run):
            run.info_reg = reg_of(w, run)
            open_dict(run, inner, 'basic')
            return run.call(f, [B, K, V], {})
        for p in live(w.explore(thunk, K=ctx.K)):
            rep.count('paths')
            regs = {REG.key, p.run.info_reg.key,
                    w.get('checker._checkers').key}
            own = {inner.key, B.key, param('basic').key}
            changed = {'own': [], 'reg': []}
            others = []
            for e in p.events:
                if e.kind not in ('setitem', 'delitem', 'clear', 'update') \
                        or e.raised is not None:
                    continue
                k = e.args[0].key
                x = {'setitem': 'set', 'delitem': 'del'}.get(e.kind, e.kind)
                what = (x,) + tuple(a.key for a in e.args[1:]) if x in (
                    'set', 'del') else (x,) + tuple(
                    d.key if hasattr(d, "key") else None if d is None else
                    (d[0].key, d[1].key) for d in e.data or ())
                raw = [a for a in e.args[1:] if x == 'update']
                (changed['own'] if k in own else changed['reg'] if k in regs
                 else others).append((what, raw))
            a = [x for x, _ in changed['own']]
            b = [x for x, _ in changed['reg']]
            if op == 'clear':
                rep.ob(c, p.kind == 'raise' and not a and not b, 'can be '
                       'cleared', path=p, rule='can be cleared')
                done += 1
                continue
            if p.kind == 'raise':
                rep.ob(c, opaque_error(p) or op == 'del' or
                       exc_class(p) == 'builtins.KeyError',
                       f'raises {p.value!r}', path=p,
                       rule='unexpected error')
                continue
            done += 1
            want = {'set': ('set', K.key, V.key), 'del': ('del', K.key)}
            if op == 'update':
                # each made of all that was given, which is used only once
                uses = [r for _, raw in changed['own'] + changed['reg']
                        for r in raw if r.key == V.key]
                rep.ob(c, len(uses) < 2, 'uses what it is given twice, so '
                       'that the entries of an iterator get lost', path=p,
                       rule='iterator used twice')
                ok = a == b and len(a) == 1 and a[0] == ('update', V.key) \
                    or sorted(a) == sorted(b) and a and \
                    all(x[0] in ('set', 'update') for x in a)
                # entry by entry: as many as there are
                n = p.facts.get(('len', V.key))
                if n is not None and all(x[0] == 'set' for x in a):
                    ok = len(a) == n and (
                        sorted(a) == sorted(b) or b == [('update', V.key)])
                elif n is not None and all(x[0] == 'set' for x in b):
                    ok = len(b) == n and a == [('update', V.key)]
                rep.ob(c, ok, f'the table changes by {a}, the registry by '
                       f'{b}', path=p, rule='out of step')
            else:
                rep.ob(c, a == b == [want[op]], f'the table changes by {a}, '
                       f'the registry by {b}', path=p, rule='out of step')
        rep.ob(c, done > 0, 'no path', rule='case missing')
    cls = B.cls
    for n in CLIENTS:
        name = {'set': '__setitem__', 'del': '__delitem__'}.get(n, n)
        rep.ob(f'BasicTypes ({config})', True, name)


# ------------------------------------------------------------------- C27
# values of these types cannot be changed
IMMUTABLE = {
    'builtins.' + x for x in (
        'object', 'int', 'float', 'complex', 'NoneType', 'str', 'bytes',
        'bool', 'frozenset',
        'ellipsis', 'NotImplementedType', 'range')
} | {'datetime.' + x for x in ('timedelta', 'datetime', 'date', 'time',
                               'tzinfo', 'timezone')} | {
    'types.NoneType', 'zope.i18nmessageid.Message',
    'zope.i18nmessageid.message.Message',
    'types.EllipsisType', 'types.NotImplementedType'}
IMMUTABLE -= {'builtins.frozenset'}    # may hold anything

CHANGING = set('''
__setitem__ __delitem__ __setattr__ __delattr__ __set__ __delete__
__iadd__ __isub__ __imul__ __imatmul__ __itruediv__ __ifloordiv__ __imod__
__ipow__ __ilshift__ __irshift__ __iand__ __ixor__ __ior__ __init__
__setstate__ __set_name__ __del__ __clear__
append extend insert remove pop popitem clear update setdefault sort
reverse add discard difference_update intersection_update
symmetric_difference_update appendleft extendleft popleft rotate
move_to_end subtract send throw close asend athrow aclose write writelines
truncate seek read readline readlines release cast set_trace
__abstractmethods__ register _abc_registry _abc_cache
'''.split())
INTERNAL = set('''
__dict__ __code__ __globals__ __closure__ __defaults__ __kwdefaults__
__func__ __self__ __wrapped__ __subclasses__ __builtins__ __getattribute__
__getattr__ __annotations__ __reduce__ __reduce_ex__ __getstate__
__getnewargs__ __getnewargs_ex__ __copy__ __deepcopy__ __init_subclass__
__subclasshook__ __weakref__ __loader__ __spec__ __path__ __file__
__cached__ __slots__ __get__ __objclass__ __new__ __type_params__
__callback__ __base__ __dictoffset__ __basicsize__ __sizeof__ __dir__
__thisclass__ __self_class__ __getslice__ gi_frame gi_code gi_yieldfrom
cr_frame cr_code cr_await f_globals f_locals f_builtins f_back f_code
func_globals func_code func_closure func_dict func_defaults im_func im_self
im_class co_code co_consts mapping mro __proxied__ _wrapped _checker
'''.split())
# what no default checker grants, not even one of an interface
GENERIC = {n for n in CHANGING if n.startswith('__')} | {
    'unsubscribe', 'changed', 'weakref', 'dependents', 'sort', 'clear',
    'pop', 'update'}
ALWAYS = set('''
__lt__ __le__ __eq__ __gt__ __ge__ __ne__ __cmp__ __hash__ __bool__
__nonzero__ __class__ __providedBy__ __implements__ __implemented__
__provides__ __repr__ __conform__ __name__ __parent__
'''.split())
# of these only the interface machinery is spoken of by the property
SPECIFICATIONS = ('zope.interface', 'providedBy', 'Interface')


def tables_of(p_or_none, w, v, known=()):
    """(get layers, set layers) of a checker made by the module"""
    if isinstance(v, Inst):
        out = []
        for n in ('get_permissions', 'set_permissions'):
            d = v.attrs.get(n)
            out.append(d.layers if isinstance(d, Dict) else None)
        return out
    t = call_term(v)
    if t is None or t[0] != w.get('checker.Checker').key:
        return None
    args, kw = w.module_calls.get(v.key, ((), {}))
    if kw or not args:
        return None
    out = [d.layers if isinstance(d, Dict) else None for d in args]
    return out + [[{}]] * (2 - len(out))


def specification_type(k):
    t = repr(k)
    return any(s in t for s in SPECIFICATIONS)


@rule('C27', 'default registrations',
      'every entry of the default and basic-type tables, as the import '
      'builds them: type, names, permissions')
def c27(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        defaults(ctx, rep, w, config)
    names = ctx.world('pure').get('checker._available_by_default')
    c = 'always-available names'
    if rep.ob(c, isinstance(names, List), 'not a list',
              where='checker.py', rule='not a list'):
        for n in names.items:
            rep.count('always-available names')
            rep.ob(c, isinstance(n, Const) and n.value in ALWAYS,
                   f'{n!r} is available without any declaration',
                   where='checker.py _available_by_default',
                   rule=f'too much available: {n!r}')
    rep.floor('default entries', 60)
    rep.floor('always-available names', 8)


def defaults(ctx, rep, w, config):
    noproxy = w.get('checker.NoProxy')
    public = w.get('checker.CheckerPublic')
    P = w.get('proxy.Proxy')
    tabs = [('default', w.get('checker._default_checkers')),
            ('basic', w.get('checker.BasicTypes'))]
    for tab, d in tabs:
        for k, v in entries_of(d):
            rep.count('default entries')
            c = f'{tab} checker of {k!r} ({config})'
            where = 'checker.py'
            if v.key == noproxy.key or isinstance(v, Const) and \
                    v.value is None:
                t = k.term[1] if isinstance(k, Sym) and k.term[0] == 'ext' \
                    else None
                ok = t in IMMUTABLE or k.key == P.key or \
                    'pytz' in repr(k) or specification_type(k)
                rep.ob(c, ok, f'values of {k!r} are left unwrapped',
                       where=where, rule='mutable value left unwrapped')
                continue
            if isinstance(v, (Func, Bound)):
                function_entry(ctx, rep, w, c, k, v)
                continue
            ts = tables_of(None, w, v)
            if ts is None or ts[0] is None or ts[1] is None:
                rep.ob(c, False, f'not understood: {v!r}', where=where,
                       rule='not a checker with its own tables')
                continue
            rep.ob(c, all(isinstance(x, dict) and not x for x in ts[1]),
                   'something can be set', where=where,
                   rule='attributes can be set')
            for lay in ts[0]:
                if not isinstance(lay, dict):
                    ok = specification_type(k) and isinstance(lay, Sym)
                    rep.ob(c, ok, f'grants the names of {lay!r}',
                           where=where, rule='grants unknown names')
                    continue
                for n, perm in lay.values():
                    one_name(rep, w, c, k, n, perm, public)


def one_name(rep, w, c, k, n, perm, public):
    rep.count('granted names')
    rep.ob(c, perm.key == public.key, f'{n!r} is granted by {perm!r}',
           where='checker.py', rule=f'not public: {n!r}')
    if not isinstance(n, Const):
        ok = specification_type(k)
        rep.ob(c, ok, f'grants the unknown name {n!r}', where='checker.py',
               rule='grants unknown names')
        return
    rep.ob(c, n.value not in CHANGING and n.value not in INTERNAL or
           specification_type(k) and n.value not in INTERNAL and
           n.value not in GENERIC,
           f'{n!r} of {k!r} is granted to everybody', where='checker.py',
           rule=f'grants {n!r}')


def function_entry(ctx, rep, w, c, k, f):
    """a registered function: only for modules, answering what is
    registered for the module or a checker of no more than its name"""
    public = w.get('checker.CheckerPublic')
    M = param('module')

    def thunk(run):
        run.info_reg = reg_of(w, run)
        return run.call(f, [M], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        reg = p.run.info_reg
        v = p.value
        if v.key == ('item', reg.key, M.key):
            continue
        ts = tables_of(p, w, v)
        ok = ts is not None and ts[0] is not None and ts[1] is not None and \
            all(isinstance(x, dict) and not x for x in ts[1])
        if not rep.ob(c, ok, f'answers {v!r}', path=p,
                      rule='function answers something else'):
            continue
        for lay in ts[0]:
            for n, perm in lay.values():
                one_name(rep, w, c, k, n, perm, public)


@rule('C23', 'checkers of modules',
      'every path of the registration for module objects over an arbitrary '
      'registry: it answers the checker registered for the very module')
def c23_module_entry(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        c = f'types.ModuleType ({config})'
        found = [v for k, v in entries_of(w.get('checker._default_checkers'))
                 if getattr(k, 'term', None) == ('ext', 'types.ModuleType')]
        if not rep.ob(c, len(found) == 1 and isinstance(found[0], Func),
                      'modules have no function for an entry: what is '
                      'declared for them is not used', where='checker.py',
                      rule='module checkers not used'):
            continue
        module_entry(ctx, rep, w, c, found[0])
        if isinstance(w.get('checker.moduleChecker'), Func):
            module_entry(ctx, rep, w, f'moduleChecker ({config})',
                         w.get('checker.moduleChecker'))
    rep.floor('paths', 4)


def module_entry(ctx, rep, w, c, f):
    M = param('module')

    def thunk(run):
        run.info_reg = reg_of(w, run)
        return run.call(f, [M], {})
    hit = 0
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        reg = p.run.info_reg
        if p.value.key == ('item', reg.key, M.key):
            hit += 1
            continue
        # (a checker that is false may go unnoticed)
        rep.ob(c, p.facts.get(('has', reg.key, M.key)) is False or
               truth_fact(p, Sym('item', reg.key, M.key)) is False,
               f'answers {p.value!r} for a module that may have a '
               'checker of its own', path=p, rule='module checkers not used')
    rep.ob(c, hit > 0, 'never answers the checker registered for the module',
           where='checker.py', rule='module checkers not used')


# ------------------------------------------------------------------- C40
ITERATION = '__iter__ __next__ __len__'.split()
CONTAINER = '__len__ __iter__ __contains__ __str__'.split()
SEQUENCE = CONTAINER + '__getitem__ __add__ __radd__'.split()
SETLIKE = CONTAINER + '''
__and__ __or__ __sub__ __xor__ __rand__ __ror__ __rsub__ __rxor__ __eq__
__ne__ __lt__ __gt__ __le__ __ge__'''.split()
SET = SETLIKE + '''copy difference intersection issubset issuperset
symmetric_difference union'''.split()
CALLABLE = '__call__ __name__ __str__'.split()
TYPE = '__str__ __name__ __module__ __bases__ __mro__'.split()
DECIMAL = '''__bool__ __eq__ __ne__ __hash__ __str__ __neg__ __pos__ __abs__
__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__
__divmod__ __rdivmod__ __mod__ __rmod__ __floordiv__ __rfloordiv__ __float__
__int__ __pow__ __rpow__ adjusted as_tuple compare max min normalize quantize
remainder_near same_quantum sqrt to_eng_string to_integral'''.split()
READING = {
    'dict': CONTAINER + '__getitem__ get keys values items copy'.split(),
    'list': SEQUENCE + ['index', 'count'],
    'tuple': SEQUENCE,
    'set': SET, 'frozenset': SET,
    'dict_keys': SETLIKE, 'dict_items': SETLIKE, 'dict_values': CONTAINER,
    'list_iterator': ITERATION, 'tuple_iterator': ITERATION,
    'set_iterator': ITERATION, 'dict_keyiterator': ITERATION,
    'dict_valueiterator': ITERATION, 'dict_itemiterator': ITERATION,
    'generator': ITERATION, 'sequence iterator': ITERATION,
    'function': CALLABLE, 'method': CALLABLE,
    'builtin_function_or_method': CALLABLE,
    'type': TYPE, 'abc.ABCMeta': TYPE,
    'decimal.Decimal': DECIMAL,
    'weak reference': ['__call__'],
    'method-wrapper': CALLABLE, 'builtin_method': CALLABLE,
    'itertools.tee': ITERATION, 'BTrees._base._TreeItems': ITERATION,
    'interface': ['__str__', '_implied', 'subscribe'],
    'interface method': [],
}
for _t in ('ProvidesClass', 'ClassProvides', 'Implements', 'Declaration'):
    READING['zope.interface.declarations.' + _t] = [
        '_implied', 'subscribe', 'unsubscribe', '__call__']
for _t in ('IF', 'II', 'IO', 'OI', 'OO'):
    for _f in ('family32', 'family64'):
        for _v in ('keys', 'values', 'items'):
            READING[f'BTrees.{_f}.{_t}: {_v}'] = ITERATION
            READING[f'BTrees.{_f}.{_t}: {_v} iterator'] = ITERATION
        READING[f'BTrees.{_f}.{_t}: iterator'] = ITERATION
ODICT = ['collections.OrderedDict: ' + x for x in (
    'iterator', 'keys', 'keys iterator', 'values', 'values iterator',
    'items', 'items iterator')]
ITERTOOLS = ['itertools.' + x for x in '''groupby count cycle dropwhile islice
permutations product repeat starmap takewhile accumulate compress
combinations combinations_with_replacement'''.split()] + ['itertools.groupby: '
                                                        'group']
for _t in ODICT + ITERTOOLS:
    READING[_t] = ITERATION
BARE = '''int float complex NoneType str bytes bool object datetime.timedelta
datetime.datetime datetime.date datetime.time datetime.tzinfo
zope.i18nmessageid.Message zope.interface.declarations.Provides pytz.UTC
'''.split()
SAME_TYPE = {
    'types.FunctionType': 'function', 'types.LambdaType': 'function',
    'types.MethodType': 'method',
    'types.BuiltinFunctionType': 'builtin_function_or_method',
    'types.BuiltinMethodType': 'builtin_function_or_method',
    'types.GeneratorType': 'generator', 'types.NoneType': 'NoneType',
    'weakref.ref': 'weak reference',
    'weakref.ReferenceType': 'weak reference',
    'zope.i18nmessageid.message.Message': 'zope.i18nmessageid.Message',
    '_collections_abc.dict_keys': 'dict_keys',
    'types.MethodWrapperType': 'method-wrapper',
    'zope.interface.interface.InterfaceClass': 'interface',
    'zope.interface.interface.Method': 'interface method',
    'itertools.tee': None,  # (makes iterators of another type)
    'itertools._tee': 'itertools.tee',
}


def kind_of_type(w, k):
    """the types a key of the tables can be, by the name they have here"""
    t = getattr(k, 'term', None)
    if t is None:
        return None
    if t[0] == 'ext':
        n = t[1]
        n = SAME_TYPE.get(n, n)
        if n is None:
            return None
        return n[9:] if n.startswith('builtins.') else n
    if t[0] != 'type':
        return None
    v = t[1]
    if v[0] == 'call' and v[1] == ('ext', 'weakref.ref'):
        return 'weak reference'
    if v[0] == 'call' and v[1] == ('ext', 'zope.interface.providedBy'):
        return 'zope.interface.declarations.Provides'
    if v == ('ext', 'zope.interface.Interface'):
        return 'interface'
    if v[:2] == ('ext', 'pytz.UTC'):
        return 'pytz.UTC'
    if v[0] == 'bmeth' and v[2].startswith('__'):
        return 'method-wrapper'
    if v[0] == 'attr' and v[2] == 'getbuffer' and 'io.BytesIO' in repr(v):
        return 'builtin_method'
    if 'itertools.tee' in repr(v) and v[0] == 'item':
        return 'itertools.tee'
    if v[0] == 'op' and v[1] == '__iter__' and v[2][0] == 'obj':
        return 'sequence iterator'
    after = ''
    if v[0] == 'iterof' and v[1][0] == 'iterof' or v[0] == 'iterof' and \
            v[1][0] == 'call' and v[1][1][0] == 'attr':
        v, after = v[1], ' iterator'
        if v[0] == 'iterof':
            after = ''
    view = None
    if v[0] == 'iterof':
        v, view = v[1], 'iterator'
    elif v[0] == 'call' and v[1][0] == 'attr' and not v[2]:
        view, v = v[1][2], v[1][1]
    if v[0] == 'call' and v[1][0] == 'ext' and view and \
            v[1][1].startswith('BTrees.') and v[1][1].endswith('.BTree'):
        return f'{v[1][1][:-6]}: {view}{after}'
    if v[0] == 'call' and v[1] == ('ext', 'collections.OrderedDict') and view:
        return f'collections.OrderedDict: {view}{after}'
    if v[0] == 'call' and v[1][0] == 'ext' and \
            v[1][1].startswith('itertools.') and view is None:
        return v[1][1]
    if 'itertools.groupby' in repr(v):
        return 'itertools.groupby: group'
    return None


@rule('C40', 'reading by default',
      'the tables as the import builds them hold, for each of the built-in '
      'types named, an entry that lets every one of its reading operations '
      'through')
def c40(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        public = w.get('checker.CheckerPublic')
        noproxy = w.get('checker.NoProxy')
        found = {}
        for d in (w.get('checker._default_checkers'),
                  w.get('checker.BasicTypes')):
            for k, v in entries_of(d):
                n = kind_of_type(w, k)
                if n is not None:
                    found.setdefault(n, []).append(v)
        for t in BARE:
            c = f'{t} ({config})'
            rep.count('types')
            rep.ob(c, t in found and all(v.key == noproxy.key
                                         for v in found[t]),
                   f'{t} values are not left unwrapped: {found.get(t)}',
                   where='checker.py', rule='basic type wrapped')
        for t, names in READING.items():
            c = f'{t} ({config})'
            rep.count('types')
            if not rep.ob(c, t in found, f'no entry for {t}: nothing can be '
                          'read', where='checker.py', rule='no entry'):
                continue
            for v in found[t]:
                ts = tables_of(None, w, v)
                if not rep.ob(c, ts is not None and ts[0] is not None,
                              f'not understood: {v!r}', where='checker.py',
                              rule='not a checker with its own tables'):
                    continue
                got = {n.value: perm for lay in ts[0]
                       if isinstance(lay, dict)
                       for n, perm in lay.values() if isinstance(n, Const)}
                for n in names:
                    rep.count('reading operations')
                    rep.ob(c, n in got and got[n].key == public.key,
                           f'{n!r} of {t} is not available',
                           where='checker.py', rule=f'not readable: {n!r}')
        names = w.get('checker._available_by_default')
        if config == 'c' and not isinstance(names, List):
            # the extension's own list, filled by the same statement
            continue
        have = {n.value for n in names.items if isinstance(n, Const)} \
            if isinstance(names, List) else set()
        for n in EVERYWHERE:
            rep.count('always-available names')
            rep.ob(f'always-available names ({config})', n in have,
                   f'{n!r} is not available on every proxied object',
                   where='checker.py _available_by_default',
                   rule=f'not available: {n!r}')
    rep.floor('types', 2 * (len(BARE) + len(READING)))


EVERYWHERE = '''__lt__ __le__ __eq__ __gt__ __ge__ __ne__ __hash__ __bool__
__class__ __providedBy__ __implements__ __repr__ __conform__ __name__
__parent__'''.split()


# ------------------------------------------------------------------- C28
A, B_, A2 = param('name1'), param('name2'), param('name3')
P1, P2 = param('permission1'), param('permission2')
Q = param('other permission')
IF_, NAMES, KW, SPECS = (param('iface'), param('names'), param('keywords'),
                         param('specs'))


def builder_oracle(rep, c, p, w, declared, seen):
    """declared: [(name key, permission key)] or None if not all of it was
    looked at; bulk: mappings all of whose entries count as declared"""
    pairs, bulk = declared
    if p.kind == 'raise':
        if is_duplication(p):
            seen.add('refused')
            ok = any(known_same(p, pairs[i][0], pairs[j][0]) is True and
                     known_same(p, pairs[i][1], pairs[j][1]) is False
                     for i in range(len(pairs)) for j in range(i))
            rep.ob(c, ok, 'reports a duplicate that may not be one', path=p,
                   rule='wrong refusal')
        else:
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
        return
    seen.add('done')
    for i in range(len(pairs)):
        for j in range(i):
            (n, a), (m, b) = pairs[i], pairs[j]
            ok = known_same(p, n, m) is False or \
                known_same(p, a, b) is True
            rep.ob(c, ok, f'{show(n)} and {show(m)} may be one name with '
                   'two permissions', path=p, rule='duplicate not noticed')
    ts = final_tables(p, w, p.value)
    if not rep.ob(c, ts is not None, f'does not make a checker of its own: '
                  f'{p.value!r}', path=p, rule='no checker'):
        return
    get, set_ = ts
    rep.ob(c, all(isinstance(x, dict) and not x for x in set_), 'something '
           'can be set', path=p, rule='something can be set')
    have, have_bulk = [], []
    for lay in get:
        if isinstance(lay, dict):
            have += [(n.key, v.key) for n, v in lay.values()]
        else:
            have_bulk.append(lay.key)
    rep.ob(c, set(have_bulk) <= set(bulk), f'contains all of {have_bulk}',
           path=p, rule='grants other names')
    bulkp = {m: [x for x in pairs if x[1][:2] == ('item', m)] for m in bulk}
    for b in bulk:
        if b not in have_bulk:
            rep.ob(c, p.facts.get(('len', b)) == 0 or
                   truth_fact(p, Sym(*b)) is False or
                   p.facts.get(('len', b)) is not None, 'misses the '
                   f'entries of {show(b)}', path=p, rule='names missing')
    for n, v in pairs:
        m = [x for x in have if known_same(p, x[0], n) is True]
        ok = bool(m) and all(known_same(p, x[1], v) is True for x in m) or \
            not m and v[:1] == ('item',) and v[1] in have_bulk or \
            not m and any(p.facts.get(('has', b, n)) is True and
                          known_same(p, ('item', b, n), v) is True
                          for b in have_bulk)
        rep.ob(c, ok, f'{show(n)} does not get its permission {show(v)}: '
               f'{m}', path=p, rule='wrong permission')
    for n, v in have:
        ok = any(known_same(p, n, x) is True for x, _ in pairs)
        rep.ob(c, ok, f'grants {show(n)}', path=p,
               rule='grants other names')


def final_tables(p, w, v):
    if isinstance(v, Inst):
        if not any(getattr(c, 'key', None) == w.get('checker.Checker').key
                   for c in v.cls.mro):
            return None
        out = []
        for n in ('get_permissions', 'set_permissions'):
            d = p.attr(v, n)
            if not isinstance(d, Dict):
                return None
            out.append(p.dict_layers(d))
        return out
    t = call_term(v)
    if t is None or t[0] != w.get('checker.Checker').key:
        return None
    es = [e for e in p.events if e.result is not None and
          e.result.key == v.key]
    if not es:
        return None
    ds = args_of(es[0])
    if not ds or not all(isinstance(d, Dict) for d in ds):
        return None
    out = [p.dict_layers(d) for d in ds[:2]]
    return out + [[{}]] * (2 - len(out))


def followed(p, v):
    """keys of the elements of a sequence, None if not looked at"""
    if isinstance(v, List):
        return [x.key for x in v.items]
    n = p.facts.get(('len', v.key))
    if n is None:
        return [] if truth_fact(p, v) is False else None
    return [('elem', v.key, i) for i in range(n)]


def iface_names(p, i):
    """names of an interface, all of them, inherited ones included"""
    how = name_bases(i)
    for a, n in p.facts.items():
        if a[0] == 'len' and how(a[1]):
            e = [('elem', a[1], j) for j in range(n)]
            return [('item', x, Const(0).key) for x in e] \
                if how(a[1]) == 'pair' else e
    return None


@rule('C28', 'checker builders',
      'every path of NamesChecker, InterfaceChecker and MultiChecker over '
      'opaque names, interfaces and permissions: the tables of the checker '
      'made, against what was declared')
def c28(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        public = w.get('checker.CheckerPublic')
        foo, bar = Const('foo'), Const('bar')
        forms = [
            ('NamesChecker', [List([A, B_]), P1], {'foo': Q},
             lambda p: [(A.key, P1.key), (B_.key, P1.key),
                        (foo.key, Q.key)], ()),
            ('NamesChecker', [List(MANY), P1], {'foo': Q},
             lambda p: [(x.key, P1.key) for x in MANY] + [
                 (foo.key, Q.key)], ()),
            ('MultiChecker', [List([tup(List(MANY), P1),
                                    mapping(foo, Q), mapping(bar, P2)])], {},
             lambda p: [(x.key, P1.key) for x in MANY] + [
                 (foo.key, Q.key), (bar.key, P2.key)], ()),
            ('MultiChecker', [List([tup(List([x]), P1) for x in MANY])], {},
             lambda p: [(x.key, P1.key) for x in MANY], ()),
            ('NamesChecker', [List([A])], {'foo': Q},
             lambda p: [(A.key, public.key), (foo.key, Q.key)], ()),
            ('NamesChecker', [], {'foo': Q, 'bar': P1},
             lambda p: [(foo.key, Q.key), (bar.key, P1.key)], ()),
            ('NamesChecker', [NAMES, P1], {},
             lambda p: times(followed(p, NAMES), P1.key), ()),
            ('NamesChecker', [NAMES, P1], {'**': KW},
             lambda p: with_map(p, KW, times(followed(p, NAMES), P1.key)),
             (KW.key,)),
            ('InterfaceChecker', [IF_, P1], {'foo': Q},
             lambda p: plus(times(iface_names(p, IF_.key), P1.key),
                            [(foo.key, Q.key)]), ()),
            ('InterfaceChecker', [IF_], {},
             lambda p: times(iface_names(p, IF_.key), public.key), ()),
            ('MultiChecker', [List([tup(List([A]), P1),
                                    tup(List([B_]), P2)])], {},
             lambda p: [(A.key, P1.key), (B_.key, P2.key)], ()),
            ('MultiChecker', [List([tup(NAMES, P1)])], {},
             lambda p: either_names(p, NAMES, P1.key), ()),
            ('MultiChecker', [List([tup(List([A]), P1), mapping(foo, Q)])],
             {}, lambda p: [(A.key, P1.key), (foo.key, Q.key)], ()),
            ('MultiChecker', [List([KW, tup(List([A]), P1)])], {},
             lambda p: spec_pairs(p, [KW.key], [(A.key, P1.key)]), ()),
            ('MultiChecker', [SPECS], {},
             lambda p: spec_pairs(p, followed(p, SPECS), []), ()),
        ]
        for k, (fn, args, kw, decl, bulk) in enumerate(forms):
            form(ctx, rep, w, config, k, fn, args, kw, decl, bulk)
    rep.floor('forms', 20)
    rep.floor('paths', 100)


def mapping(k, v):
    d = Dict()
    d.layers = [{k.key: (k, v)}]
    return d


def times(names, perm):
    return None if names is None else [(n, perm) for n in names]


def plus(a, b):
    return None if a is None else a + b


def with_map(p, m, pairs):
    """plus the entries of a mapping the path found out about"""
    if pairs is None:
        return None
    out = list(pairs)
    for a, v in p.facts.items():
        if a[0] == 'has' and a[1] == m.key and v:
            out.append((a[2], ('item', m.key, a[2])))
    return out


def either_names(p, v, perm):
    """a sequence of names, or an interface if it is one"""
    i = provides(p, v.key)
    if i is None:
        return None
    return times(iface_names(p, v.key) if i else followed(p, v), perm)


def provides(p, k):
    for a, v in p.facts.items():
        if a[0] == 'truthy' and isinstance(a[1], tuple) and \
                a[1][:1] == ('call',) and 'IInterface' in repr(a[1][1]) and \
                a[1][2] == (k,):
            return v
    return None


def spec_pairs(p, specs, rest):
    if specs is None:
        return None
    out = []
    for s in specs:
        t = inst_fact(p, s, 'builtins.tuple')
        if t is None:
            return None
        if t:
            n = Sym('item', s, Const(0).key)
            perm = ('item', s, Const(1).key)
            if p.kind == 'raise' and provides(p, n.key) is None:
                continue        # failed before looking further
            q = either_names(p, n, perm)
            if q is None:
                if p.kind == 'raise':
                    continue
                return None
            out += q
        else:
            q = map_pairs(p, s)
            if q is None:
                if p.kind == 'raise':
                    continue
                return None
            out += q
    return out + rest


def map_pairs(p, s):
    for a, n in p.facts.items():
        if a[0] != 'len':
            continue
        b = a[1]
        if b[:1] == ('call',) and b[1] == ('attr', s, 'items'):
            e = [('elem', b, j) for j in range(n)]
            return [(('item', x, Const(0).key), ('item', x, Const(1).key))
                    for x in e]
        if b == s:
            return [(('elem', s, j), ('item', s, ('elem', s, j)))
                    for j in range(n)]
    return None


def form(ctx, rep, w, config, k, fn, args, kw, decl, bulk):
    c = f'{fn} form {k} ({config})'
    rep.count('forms')
    f = w.get('checker.' + fn)
    seen = set()
    for p in live(w.explore(lambda run: run.call(f, list(args), dict(kw)),
                            K=ctx.K)):
        if any(a[0] == 'truthy' and v and 'IInterface' in repr(a[1]) and
               "('obj'" in repr(a[1]) for a, v in p.facts.items()):
            continue        # our lists of names are not interfaces
        cl = classes_of(p)
        if contradictory(p):
            continue        # cannot happen: names and ids are strings
        rep.count('paths')
        pairs = decl(p)
        if pairs is None:
            if p.kind == 'raise':
                rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                       rule='unexpected error')
                continue
            rep.ob(c, False, 'does not look at all that is declared',
                   path=p, rule='names missing')
            continue
        builder_oracle(rep, c, p, w, (pairs, bulk), seen)
    rep.ob(c, 'done' in seen, 'always fails', rule='case missing')


# ------------------------------------------------------------------- C29
INST_, OWNER = param('instance'), param('class')


@rule('C29', 'decorated checkers',
      'every path of the checker descriptor for a decorated object that is '
      'a security proxy, declares a checker, has one selected or has none')
def c29(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        D = w.get('decorator.DecoratedSecurityCheckerDescriptor')
        for case in ('proxy', 'bare', 'any'):
            decorated(ctx, rep, w, config, D, case)
            decorated(ctx, rep, w, config, D, case, True)
        c = f'descriptor ({config})'
        for p in live(w.explore(lambda run: run.call(run.getattr_(
                run.call(D, [], {}), '__get__'), [Const(None), OWNER],
                {}))):
            rep.ob(c, p.kind == 'return' and isinstance(p.value, Inst) and
                   p.value.cls is D, 'the class attribute is not the '
                   'descriptor', path=p, rule='class attribute')
        for p in live(w.explore(lambda run: run.call(run.getattr_(
                run.call(D, [], {}), '__set__'), [INST_, param('v')], {}))):
            rep.count('paths')
            rep.ob(c, p.kind == 'raise' and not [
                e for e in p.events if e.kind == 'setattr'], 'a checker can '
                'be set on a decorated object', path=p, rule='can be set')
        found = 0
        for name in ('SecurityCheckerDecoratorBase', 'DecoratorBase'):
            k = w.get('decorator.' + name)
            v = None
            for b in bases_of(k):
                if isinstance(b, Class) and '__Security_checker__' in b.ns:
                    v = b.ns['__Security_checker__']
                    break
            found += 1
            rep.ob(c, isinstance(v, Inst) and v.cls is D, f'{name} does not '
                   'have the descriptor', where='decorator.py',
                   rule=f'no descriptor: {name}')
        v = w.consts.get('zope.location.location.LocationProxy.'
                         '__Security_checker__')
        rep.ob(c, isinstance(v, Inst) and v.cls is D, 'location proxies do '
               'not get the descriptor', where='decorator.py',
               rule='no descriptor: LocationProxy')
        rep.count('classes', found + 1)
        first_import(ctx, rep, config)
    rep.floor('paths', 20)
    rep.floor('classes', 6)


def first_import(ctx, rep, config):
    """whoever imports the proxies gets protected location proxies"""
    env, c_ext = CONFIGS[config]
    w = World(ctx.src, env=env, c_ext=c_ext, only=('proxy',))
    v = w.consts.get('zope.location.location.LocationProxy.'
                     '__Security_checker__')
    m = w.modules.get('zope.security.decorator')
    D = m and m.ns.get('DecoratedSecurityCheckerDescriptor')
    rep.ob(f'import zope.security.proxy ({config})',
           isinstance(v, Inst) and v.cls is D, 'location proxies do not get '
           'the descriptor when the proxy module is imported',
           where='__init__.py', rule='no descriptor: LocationProxy')


def bases_of(k):
    yield k
    if isinstance(k, Class):
        for b in k.bases:
            yield from bases_of(b)


def decorated(ctx, rep, w, config, D, case, earlier=False):
    c = f'checker of a decorated object: {case} ({config})'
    if earlier:
        c += ' after another one'
    C1, C2, DECL = (param('proxy checker'), param('wrapped'),
                    param('declared'))
    seen = set()
    label = w.get('checker.selectChecker')

    def thunk(run):
        run.noraise += 1
        if case == 'proxy':
            W = make_proxy(w, run, C2, C1, 'decorated')
        elif case == 'bare':
            W = make_bare(w, run, 'decorated')
        else:
            W = param('decorated')
        run.info_w = W
        run.results[(('ext', 'zope.proxy.getProxiedObject'),
                     (INST_.key,))] = W
        run.noraise -= 1
        none = frozenset([Const(None).key])
        run.dom[INST_.key] = (None, none)
        run.dom[C1.key] = (None, none)
        init = w.get('checker.CheckerPy').ns.get('__init__')
        if isinstance(init, Func):
            run.stubs[init.label] = 'Checker.__init__'
        if isinstance(label, Func):
            run.stubs[label.label] = 'selectChecker'
        d = run.call(D, [], {})
        if earlier:
            first = param('earlier decorator')
            run.dom[first.key] = (None, none)
            run.results[(('ext', 'zope.proxy.getProxiedObject'),
                         (first.key,))] = make_bare(w, run, 'earlier one')
            try:
                run.call(run.getattr_(d, '__get__'), [first, OWNER], {})
            except PyRaise:
                pass
        run.info_start = len(run.events)
        return run.call(run.getattr_(d, '__get__'), [INST_, OWNER], {})
    CC = w.get('checker.CombinedChecker')
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        W = p.run.info_w
        if p.kind == 'raise' and opaque_error(p):
            continue
        selected = {}
        for e in p.events:
            if e.kind == 'call' and e.raised is None and 'selectChecker' in \
                    repr(func_key(e)) and len(e.args) == 1:
                selected[e.args[0].key] = e.result
        own = selected.get(INST_.key)
        isp = case == 'proxy'
        if case == 'any':
            isp = inst_fact(p, W.key, p.run.class_key(w.get('proxy.Proxy')))
        if isp is None:
            rep.ob(c, False, 'does not find out whether it is a security '
                   'proxy', path=p, rule='proxy not recognised')
            continue
        if isp:
            seen.add('proxy')
            if case == 'any':
                continue
            theirs = C1
        else:
            a = Sym('attr', W.key, '__Security_checker__')
            h = hasattr_fact(p, W, '__Security_checker__')
            none = p.is_const(a, None)
            if h is False or none is True:
                seen.add('selected')
                theirs = selected.get(W.key)
                if not rep.ob(c, theirs is not None, 'no checker is '
                              'selected for the decorated object', path=p,
                              rule='nothing selected'):
                    continue
            else:
                seen.add('declared')
                rep.ob(c, none is False, 'does not find out whether there '
                       'is a declared checker', path=p,
                       rule='declared checker')
                theirs = a
        if not rep.ob(c, own is not None, 'does not look up the '
                      'decorator\'s own checker', path=p,
                      rule='own checker missing'):
            continue
        on = p.is_const(own, None)
        tn = False if isp or theirs.term[0] == 'attr' else \
            p.is_const(theirs, None)
        if not rep.ob(c, on is not None and tn is not None, 'does not find '
                      'out which checkers there are', path=p,
                      rule='wrong checker'):
            continue
        seen.add((on, tn))
        if on and tn:
            rep.ob(c, p.kind == 'raise' and exc_class(p) ==
                   'builtins.AttributeError', 'answers a checker although '
                   'there is none', path=p, rule='wrong checker')
            continue
        if not rep.ob(c, p.kind == 'return', f'raises {p.value!r}', path=p,
                      rule='unexpected error'):
            continue
        if on or tn:
            want = theirs if on else own
            rep.ob(c, p.value.key == want.key, f'answers {p.value!r}',
                   path=p, rule='wrong checker')
            continue
        v = p.value
        ok = isinstance(v, Inst) and v.cls is CC
        if rep.ob(c, ok, f'answers {v!r}, not a combined checker', path=p,
                  rule='wrong checker'):
            parts = {x.key for x in p.attrs(v).values()
                     if hasattr(x, 'key')}
            for e in p.events:
                # a checker as good as the one whose tables it has
                if e.kind == 'call' and 'Checker.__init__' in \
                        repr(func_key(e)) and e.args[0].key == v.key:
                    t = [a.key for a in e.args[1:]]
                    for x in (own, theirs):
                        if t == [('attr', x.key, 'get_permissions'),
                                 ('attr', x.key, 'set_permissions')]:
                            parts.add(x.key)
                            rep.ob(c, x is own, 'the decorator\'s own '
                                   'checker does not come first', path=p,
                                   rule='wrong order')
            rep.ob(c, {own.key, theirs.key} <= parts, 'does not combine '
                   'both checkers', path=p, rule='wrong checker')
    want = {'proxy': [(False, False), (True, False)],
            'bare': ['selected', 'declared', (True, True), (True, False),
                     (False, True), (False, False)],
            'any': ['proxy', 'selected', 'declared']}[case]
    for s in want:
        rep.ob(c, s in seen, f'no path: {s}', rule=f'case missing: {s}')
