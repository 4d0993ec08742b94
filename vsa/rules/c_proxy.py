"""C01 - C05 for the C proxy."""
from ..core import rule
from ..cai import Ptr, NONE, TRUE, FALSE, NOTIMPL, BASE_SLOTS
from ..centries import S, BINARY, INPLACE, UNARY, func_of, member_rows, \
    getset_rows
from ..cspec import *  # noqa

NUMBER = {
    'nb_add': 'add', 'nb_subtract': 'sub', 'nb_multiply': 'mul',
    'nb_remainder': 'mod', 'nb_divmod': 'divmod', 'nb_lshift': 'lshift',
    'nb_rshift': 'rshift', 'nb_and': 'and', 'nb_xor': 'xor', 'nb_or': 'or',
    'nb_floor_divide': 'floordiv', 'nb_true_divide': 'truediv',
    'nb_matrix_multiply': 'matmul', 'nb_power': 'pow'}
UNARY_NAMES = {
    'nb_negative': '__neg__', 'nb_positive': '__pos__',
    'nb_absolute': '__abs__', 'nb_invert': '__invert__',
    'nb_int': '__int__', 'nb_float': '__float__', 'nb_index': '__index__'}
# what reversed(), iteration by index, containment and so on go through
NEEDED = {'sq_item', 'sq_contains', 'mp_subscript', 'mp_ass_subscript',
          'tp_iter', 'tp_iternext', 'tp_call', 'tp_getattro', 'tp_setattro'}
OTHER = ('param', 'other')
MOD = ('param', 'modulus')
KEY = ('param', 'key')
VALUE = ('param', 'value')
NAME = ('param', 'name')
UNCHECKED = {'tp_richcompare', 'tp_hash', 'nb_bool', 'tp_str', 'tp_repr'}
STRUCTURAL = {'tp_dealloc', 'tp_traverse', 'tp_clear', 'tp_new', 'tp_init',
              'tp_as_number', 'tp_as_sequence', 'tp_as_mapping',
              'tp_methods', 'tp_finalize', 'tp_del'}


class Proxy:
    """the C proxy type as the module's initialisation leaves it"""

    def __init__(self, ctx):
        self.A = ctx.centries('_proxy')
        self.m = self.A.m
        ts = [g for g in self.A.mutable
              if any(e.type == g and e.name == 'tp_new'
                     for e in self.A.entries)]
        if not ts:
            ts = list(self.A.mutable)
        self.g = ts[0]
        self.slots = self.m.type_slots(self.g)
        self.es = {e.name: e for e in self.A.entries
                   if e.type == self.g and e.kind == 'slot'}
        self.entries = [e for e in self.A.entries if e.type == self.g]
        # where instances keep the pair
        self.o, self.c = 16, 24
        new = self.es.get('tp_new')
        for p in self.A.paths(new) if new else ():
            k = p.key()
            if p.kind != 'return' or k is None:
                continue
            for (b, off), v in p.run.mem.items():
                if b == ('o', k) and isinstance(v, Ptr) and v.base and \
                        v.base[0] == 'o':
                    x = v.base[1]
                    if x in (('arg', 'object'), ('arg', 0)) and off == 16:
                        self.o = off
                    if x in (('arg', 'checker'), ('arg', 1)):
                        self.c = off

    def pair(self, P):
        return ('field', P, self.o), ('field', P, self.c)

    def filled(self, slot):
        """is the slot set by the type itself, and is it analysed"""
        v = self.slots.get(slot)
        return isinstance(v, Ptr) and v.base is not None

    def special(self, e, combo):
        """(proxy acted for, special name, wanted operations)"""
        n = e.name
        if n in NUMBER:
            nm = NUMBER[n]
            names = [x for c, x in zip(e.sig, e.names) if c == 'p']
            P = ('param', combo[0])
            O, C = self.pair(P)
            ops = [('param', x) for x in names]
            ops[ops.index(P)] = O
            d = f'__{nm}__'
            if combo[0] == 'other':
                d = f'__r{nm}__'
            elif combo[0] == 'modulus':
                d = '__3pow__'
            want = [('number', f'__{nm}__', ops)]
            if n == 'nb_power':
                want.append(('number', '__pow__', ops))
            return P, d, want
        P = S
        O, C = self.pair(P)
        if n.startswith('nb_inplace_'):
            nm = NUMBER['nb_' + n[11:]]
            d = f'__i{nm}__'
            if n == 'nb_inplace_power':
                return P, d, [
                    ('number', d, [O, OTHER, NONE]),
                    ('number', d, [O, OTHER, MOD])]
            return P, d, [('number', d, [O, OTHER])]
        if n in UNARY_NAMES:
            d = UNARY_NAMES[n]
            return P, d, [('number', d, [O]), ('slot', n, [O])]
        if n in ('sq_length', 'mp_length'):
            return P, '__len__', [('len', None, [O]), ('slot', n, [O])]
        if n == 'mp_subscript':
            return P, '__getitem__', [('getitem', None, [O, KEY])]
        if n == 'sq_item':
            return P, '__getitem__', [('getitem', None, [O, index])]
        if n == 'sq_contains':
            return P, '__contains__', [('contains', None, [O, VALUE])]
        if n == 'tp_call':
            return P, '__call__', [
                ('call', None, [O, ('*', ('param', 'args')),
                                ('**', ('param', 'kwds'))]),
                ('call', None, [lambda p, x: same(p, O, x) and
                                no_keywords(p), ('*', ('param', 'args'))])]
        if n == 'tp_iter':
            return P, '__iter__', [('iter', None, [O])]
        if n == 'tp_iternext':
            return P, '__next__', [('next', None, [O]),
                                   ('slot', 'tp_iternext', [O])]
        if n == 'tp_getattro':
            return P, NAME, [('getattr', None, [O, NAME])]
        other = {'sq_concat': '__add__', 'sq_repeat': '__mul__',
                 'sq_inplace_concat': '__iadd__',
                 'sq_inplace_repeat': '__imul__', 'am_await': '__await__',
                 'am_aiter': '__aiter__', 'am_anext': '__anext__',
                 'tp_descr_get': '__get__', 'tp_descr_set': '__set__'}
        return P, other.get(n), None

    def operations(self):
        """the checked read operations and conversions"""
        for e in self.es.values():
            if e.name in STRUCTURAL | UNCHECKED | {
                    'tp_setattro', 'sq_ass_item', 'mp_ass_subscript'}:
                continue
            for combo in self.A.combos(e):
                yield e, combo


def no_keywords(p):
    k = ('param', 'kwds')
    return p.run.facts.get(('null', k)) is True or any(
        ev.kind == 'dictlen' and same(p, ev.args[0], k) and
        p.run.rng(ev.res)[:2] == (0, 0) for ev in p.events if ev.ok)


def index(p, k):
    """the index of sq_item, as it is or as an object"""
    if isinstance(k, tuple):
        if k == ('param', 'index'):
            return True
        for ev in p.events:
            if ev.kind == 'int' and ev.res is not None and \
                    same(p, ev.res, k):
                return ev.args and ev.args[0] in (
                    ('param', 'index'), ('int', ('param', 'index')))
    return getattr(k, 'key', None) == ('param', 'index')


def wanted(e):
    if e.name == 'tp_getattro':
        return ('slot', 'check_getattr')
    return ('slot', 'check', 'check_getattr')


def more(combo):
    return f' [proxies: {", ".join(combo)}]' if combo else ''


def judge(rep, X, e, combo, p, results):
    """C01 (results False) or C03 on one path of an operation"""
    if p.kind != 'return':
        return
    c = f'C {e.label}'
    ps = [n for x, n in zip(e.sig, e.names) if x == 'p']
    if ps and not combo:
        for n in ps:
            O, C = X.pair(('param', n))
        if not results:
            rep.ob(c, p.key() == NOTIMPL or not succeeded(p), 'neither '
                   'operand is a proxy but something is done', path=p,
                   rule='operation for no proxy')
        return
    P, d, want = X.special(e, combo)
    O, C = X.pair(P)
    name = d if isinstance(d, tuple) else ('str', d)
    if not results:
        if not check_first(rep, c, p, O, C, name, wanted(e), more(combo)):
            return
        if want is not None:
            performs(rep, c, p, O, C, want, more(combo))
        return
    i = ask_event(p, C)
    if i is None or not p.events[i].ok:
        return
    ops = [ev for ev in p.events[i + 1:] if touches(p, ev, O)
           and wraps(p, ev, C) is None and
           (want is None or matches(p, ev, want))]
    if not ops:
        return
    inplace = e.name.startswith('nb_inplace_') or \
        e.name.startswith('sq_inplace_')
    result_wrapped(rep, c, p, O, C, ops[-1], P if inplace else None,
                   raw=e.ret in ('len', 'tri', 'int'), more=more(combo))


@rule('C01', 'C proxy operations',
      'every slot the C proxy type fills, and every slot it would inherit '
      'unchecked from zope.proxy\'s type, all operand combinations: no use '
      'of the wrapped object before the checker agreed to the operation\'s '
      'own name; a refusal is reported unchanged with nothing done; then '
      'exactly that operation with the same operands')
def c01(ctx, rep):
    X = Proxy(ctx)
    for s in sorted(BASE_SLOTS - STRUCTURAL - UNCHECKED):
        rep.count('inheritable slots')
        rep.ob(f'C _Proxy.{s}', X.filled(s), 'the type does not fill this '
               'slot, so it inherits zope.proxy\'s unchecked one',
               rule='unchecked operation inherited')
        if X.filled(s):
            rep.ob(f'C _Proxy.{s}', s in X.es, 'the slot is filled by '
                   f'{X.slots[s]}, which is not a function of the module',
                   rule='unchecked operation')
    for e, combo in X.operations():
        rep.count('C proxy operations')
        for p in X.A.paths(e, combo):
            rep.count('paths')
            judge(rep, X, e, combo, p, False)
    rep.floor('C proxy operations', 40)


@rule('C03', 'C proxy results',
      'the same paths: what the operation yielded is returned only as the '
      'checker\'s wrapping of it; in-place operations return the very same '
      'proxy exactly when the object returned itself')
def c03(ctx, rep):
    X = Proxy(ctx)
    for e, combo in X.operations():
        rep.count('C proxy operations')
        for p in X.A.paths(e, combo):
            rep.count('paths')
            judge(rep, X, e, combo, p, True)
            unchanged(rep, X, e, p)
    for s in sorted(NEEDED):
        rep.ob(f'C _Proxy.{s}', X.filled(s), 'the type does not fill this '
               'slot, so the operation fails on every proxy',
               rule='operation missing')
    rep.floor('C proxy operations', 40)


def unchanged(rep, X, e, p):
    bad = [ev for ev in p.events if ev.kind == 'store' and
           ev.name in (X.o, X.c) and p.run.facts.get(
               ('inst', ev.args[0], ('global', X.g)))
           and ev.args[0] not in p.run.fresh]
    rep.ob(f'C {e.label}', not bad, 'the proxy\'s object or checker is '
           'replaced', path=p, rule='proxy altered')


@rule('C02', 'C proxy mutations',
      'all paths of setting and deleting attributes and items of the C '
      'proxy: the mutation of the wrapped object only after the checker '
      'agreed to setting that very name (to the item operation)')
def c02(ctx, rep):
    X = Proxy(ctx)
    O, C = X.pair(S)
    for s in ('tp_setattro', 'mp_ass_subscript', 'sq_ass_item'):
        e = X.es.get(s)
        if e is None:
            rep.ob(f'C _Proxy.{s}', s not in BASE_SLOTS, 'not a function of '
                   'the module: the mutation is not checked',
                   rule='unchecked mutation')
            continue
        rep.count('mutating operations')
        done = {}
        for p in X.A.paths(e):
            rep.count('paths')
            if p.kind != 'return':
                continue
            c = f'C {e.label}'
            null = p.run.facts.get(('null', VALUE))
            if s == 'tp_setattro':
                name, want = NAME, ('check_setattr',)
                ops = [('delattr', None, [O, NAME])] if null else [
                    ('setattr', None, [O, NAME, VALUE])]
            else:
                k = KEY if s == 'mp_ass_subscript' else index
                if null is None and ask_event(p, C) is not None:
                    rep.ob(c, False, 'setting and deleting are not told '
                           'apart', path=p, rule='wrong question to the '
                           'checker')
                    continue
                name = ('str', '__delitem__' if null else '__setitem__')
                want = ('slot', 'check')
                ops = [('delitem', None, [O, k])] if null else [
                    ('setitem', None, [O, k, VALUE])]
            if check_first(rep, c, p, O, C, name, want):
                ev = performs(rep, c, p, O, C, ops)
                if ev is not None and ev.ok:
                    done[bool(null)] = True
                    rep.ob(c, p.value == 0, 'the mutation succeeds but '
                           'failure is reported', path=p,
                           rule='failure reported')
            unchanged(rep, X, e, p)
        rep.ob(f'C {e.label}', done.get(True) and done.get(False),
               'setting or deleting is never performed',
               rule='operation not performed')
    rep.floor('mutating operations', 2)


@rule('C04', 'C comparisons, hash, truth',
      'all paths of the unchecked operations of the C proxy: the answer is '
      'the wrapped object\'s own for the same operation and operand; a '
      'comparison answer is raw only where it is known to be True or False')
def c04(ctx, rep):
    X = Proxy(ctx)
    O, C = X.pair(S)
    for s, kinds in (('tp_richcompare', ('richcmp',)), ('tp_hash', ('hash',)),
                     ('nb_bool', ('truth', 'not'))):
        e = X.es.get(s)
        c = f'C _Proxy.{s}'
        if e is None:
            rep.ob(c, False, 'not a function of the module',
                   rule='own answer missing')
            continue
        rep.count('unchecked operations')
        for p in X.A.paths(e):
            if p.kind != 'return':
                continue
            rep.count('paths')
            asked = ask_event(p, C)
            rep.ob(c, asked is None or p.events[asked].ok or succeeded(p),
                   'refused by the checker', path=p, rule='needs permission')
            evs = [ev for ev in p.events if touches(p, ev, O) and
                   not asks(p, ev, C) and wraps(p, ev, C) is None]
            good = []
            for ev in evs:
                if s == 'tp_richcompare':
                    op = ev.args[2] if len(ev.args) > 2 else None
                    good.append(ev.kind in kinds and
                                same(p, ev.args[0], O) and
                                same(p, ev.args[1], OTHER) and
                                same_op(p, op))
                else:
                    good.append(ev.kind in kinds and ev.args and
                                same(p, ev.args[0], O))
            rep.ob(c, all(good) and len(evs) == 1, f'does not do exactly '
                   f'what was asked: {evs!r}', path=p, rule='wrong answer')
            if not evs or not all(good) or not evs[-1].ok:
                continue
            res = evs[-1].res
            if s == 'tp_richcompare':
                k = p.key()
                if k is None:
                    rep.ob(c, any(not x.ok for x in p.events), 'the answer '
                           'is lost', path=p, rule='wrong answer')
                elif same(p, k, res):
                    rep.ob(c, p.rep(res) in (TRUE, FALSE) or p.facts.get(
                        ('is', ('type', res), ('ext', 'bool'))) is True or
                        p.facts.get(('inst', res, ('ext', 'bool'))) is True,
                        'an answer that '
                           'may be any object is handed out raw', path=p,
                           rule='raw comparison answer')
                else:
                    ws = [x for x in p.events if wraps(p, x, C) is not None
                          and x.ok and same(p, x.res, k)]
                    rep.ob(c, ws and same(p, wraps(p, ws[0], C), res),
                           'answers something else', path=p,
                           rule='wrong answer')
            elif s == 'nb_bool':
                want = res[1] if res[0] == 'int' else None
                if evs[-1].kind == 'not' and want in (0, 1):
                    want = 1 - want
                rep.ob(c, p.value == want, 'wrong truth value', path=p,
                       rule='wrong answer')
            else:
                rep.ob(c, getattr(p.value, 'key', p.value) == res or
                       ('int', p.value) == res, 'another hash value', path=p,
                       rule='wrong answer')
    rep.floor('unchecked operations', 3)


@rule('C04', 'C length hints',
      'all paths of the C proxy\'s length hint: the wrapped object\'s own '
      'hint, or none where the object is known to have none; other errors '
      'propagate')
def c04_hint(ctx, rep):
    X = Proxy(ctx)
    O, C = X.pair(S)
    for e in X.A.entries:
        if not e.name.startswith('__length_hint__'):
            continue
        c = f'C {e.label}'
        rep.count('length hints')
        for p in X.A.paths(e):
            if p.kind != 'return':
                continue
            rep.count('paths')
            asked = ask_event(p, C)
            rep.ob(c, asked is None or p.events[asked].ok or succeeded(p),
                   'refused by the checker', path=p, rule='needs permission')
            evs = [ev for ev in p.events if touches(p, ev, O) and
                   not asks(p, ev, C) and wraps(p, ev, C) is None]
            bad = [ev for ev in p.events if not ev.ok]
            k = p.key()
            if bad:
                none = p.facts.get(('errmatch', bad[0].err,
                                    ('ext', 'AttributeError'))) is True or \
                    bad[0].extra == 'absent'
                rep.ob(c, fails_with(p, bad[0]) or none and k == NOTIMPL,
                       f'an error is taken for no hint: {bad[0]!r}', path=p,
                       rule='error swallowed')
            else:
                rep.ob(c, evs and same(p, k, evs[-1].res) and
                       '__length_hint__' in repr(evs[0]) or k == NOTIMPL and
                       any(p.run.facts.get(('hasattr', O, x)) is False
                           for x in ('__length_hint__',)),
                       f'answers {k}', path=p, rule='wrong answer')


def same_op(p, op):
    if op == ('param', 'op') or getattr(op, 'key', None) == ('param', 'op'):
        return True
    lo, hi, ex = p.run.rng(('param', 'op'))
    return lo == hi and (op == lo or op == ('int', lo))


CLASS_NAMES = ('__module__', '__name__', '__qualname__')


@rule('C04', 'C text conversion',
      'all paths of str() and repr() of the C proxy: the wrapped object\'s '
      'own text only after the checker allowed the operation; otherwise '
      'text built from the class\'s module and name and the address')
def c04_text(ctx, rep):
    X = Proxy(ctx)
    O, C = X.pair(S)
    for s, name, kind in (('tp_str', '__str__', 'str'),
                          ('tp_repr', '__repr__', 'repr')):
        e = X.es.get(s)
        c = f'C _Proxy.{s}'
        if e is None:
            rep.ob(c, False, 'not a function of the module: the text is made '
                   'unchecked', rule='text without permission')
            continue
        for p in X.A.paths(e):
            if p.kind != 'return':
                continue
            rep.count('text paths')
            i = None
            for j, ev in enumerate(p.events):
                a = asks(p, ev, C)
                if a and a[0] != 'check_setattr' and same(p, a[1], O) and \
                        is_str(p, a[2], name):
                    i = j
                    break
            allowed = i is not None and p.events[i].ok
            own = []
            for j, ev in enumerate(p.events):
                if not touches(p, ev, O) or asks(p, ev, C) or \
                        wraps(p, ev, C) is not None:
                    continue
                if ev.kind in ('str', 'repr'):
                    rep.ob(c, allowed and i < j and ev.kind == kind,
                           'the wrapped object\'s own text is used without '
                           'permission', path=p,
                           rule='text without permission')
                    own.append(ev)
                else:
                    rep.ob(c, neutral(p, ev, O), 'the neutral text is made '
                           f'with {ev!r}', path=p,
                           rule='neutral text discloses')
            k = p.key()
            if k is None:
                # a refusal alone does not make it fail
                fails = [ev for j, ev in enumerate(p.events)
                         if not ev.ok and j != i]
                rep.ob(c, bool(fails), 'no text although nothing but the '
                       'checker refused', path=p, rule='neutral text missing')
                continue
            ws = [x for x in p.events if wraps(p, x, C) is not None and
                  x.ok and same(p, x.res, k)]
            k = wraps(p, ws[0], C) if ws else k
            if any(same(p, ev.res, k) for ev in own if ev.ok):
                rep.ob(c, True)
                continue
            rep.ob(c, neutral_text(p, k, O), f'returns {k}', path=p,
                   rule='text discloses')
            rep.ob(c, not allowed, 'the permitted text is not given',
                   path=p, rule='permitted text withheld')
    rep.floor('text paths', 6)


def class_of(p, k, O):
    """k is the class of the wrapped object"""
    if k == ('type', O) or isinstance(k, tuple) and len(k) == 2 and \
            k[0] == 'type' and same(p, k[1], O):
        return True
    for ev in p.events:
        if ev.ok and ev.res is not None and ev.res == k:
            if ev.kind == 'typeof' and same(p, ev.args[0], O):
                return True
            if ev.kind == 'getattr' and same(p, ev.args[0], O) and \
                    is_str(p, ev.args[1], '__class__'):
                return True
    return False


def neutral(p, ev, O):
    """an event on the wrapped object that tells its class only"""
    if ev.kind == 'getattr':
        return is_str(p, ev.args[1], '__class__')
    if ev.kind == 'textformat':
        return neutral_text(p, ev.res, O)
    if ev.kind == 'slot' or ev.kind == 'callmethod':
        return False
    return ev.kind in ('typeof',)


def neutral_text(p, k, O, depth=0):
    """built from the class's module and name, and the address"""
    if depth > 12 or k is None:
        return k is None
    if isinstance(k, tuple) and k[0] == 'str' or isinstance(k, int) or \
            isinstance(k, tuple) and k[0] == 'int':
        return True
    if isinstance(k, tuple) and k[0] == 'tslot' and k[1] == 'tp_name':
        return True
    for ev in p.events:
        if not ev.ok or ev.res is None or not same(p, ev.res, k):
            continue
        if ev.kind == 'getattr':
            return class_of(p, ev.args[0], O) and any(
                is_str(p, ev.args[1], n) for n in CLASS_NAMES)
        if ev.kind == 'textformat':
            f = ev.args[0]
            if isinstance(f, tuple) and f[0] == 'str' and \
                    f[1] is not None:
                confs = conversions(f[1])
                if len(confs) != len(ev.args) - 1:
                    return False
                return all(
                    cv == 'p' or not same(p, a, O) and
                    neutral_text(p, a, O, depth + 1)
                    for cv, a in zip(confs, ev.args[1:]))
            return all(neutral_text(p, a, O, depth + 1) for a in ev.args)
        if ev.kind in ('textop', 'str', 'repr', 'tuple', 'build'):
            return all(neutral_text(p, a, O, depth + 1) for a in ev.args)
    return False


def conversions(f):
    out, i = [], 0
    while i < len(f):
        if f[i] == '%':
            i += 1
            if i < len(f) and f[i] == '%':
                i += 1
                continue
            while i < len(f) and not f[i].isalpha():
                i += 1
            while i < len(f) and f[i] in 'lzhjt':
                i += 1
            if i < len(f):
                out.append(f[i])
        i += 1
    return out


@rule('C05', 'C proxy pair',
      'the C proxy type and module as initialisation leaves them: no member, '
      'property, dictionary or method shows or replaces the pair; all paths '
      'of construction and of getObject and getChecker')
def c05(ctx, rep):
    X = Proxy(ctx)
    m, g = X.m, X.g
    raw = m.named_cells(g, '_typeobject')
    for n in ('tp_dictoffset', 'tp_members'):
        v = X.slots.get(n)
        none = v in (0, None) or isinstance(v, Ptr) and v.base is None or \
            n == 'tp_members' and not member_rows(m, v)
        if n == 'tp_members' and not none:
            rows = member_rows(m, v)
            none = not any(r.get('offset') in (X.o, X.c) for r in rows)
        rep.ob(f'C _Proxy.{n}', none, 'gives access to the proxy\'s own '
               'state', rule='pair reachable')
    for s in ('tp_getattr', 'tp_setattr'):
        rep.ob(f'C _Proxy.{s}', not X.filled(s), 'an attribute slot besides '
               'the checked ones', rule='pair reachable')
    # methods and properties of the type
    for e in X.entries:
        if e.name in ('tp_dealloc', 'tp_clear', 'tp_new', 'tp_traverse'):
            continue
        for combo, p in X.A.all_paths(e):
            if p.kind != 'return':
                continue
            rep.count('paths')
            unchanged(rep, X, e, p)
            k = p.key()
            if k is None or not isinstance(k, tuple):
                continue
            for P in [('param', n) for n in e.names]:
                if p.run.facts.get(('inst', P, ('global', g))):
                    O, C = X.pair(P)
                    if same(p, k, O) or same(p, k, C):
                        known = e.name == 'tp_richcompare' and \
                            p.rep(k) in (TRUE, FALSE)
                        rep.ob(f'C {e.label}', known, 'hands out the '
                               'proxy\'s object or checker', path=p,
                               rule='pair reachable')
    construction(rep, X)
    # the base type's __init__ would replace the wrapped object
    e = X.es.get('tp_init')
    rep.ob('C _Proxy.tp_init', e is not None, 'inherits zope.proxy\'s '
           'initialiser, which replaces the wrapped object',
           rule='proxy altered')
    # the module's functions
    seen = set()
    for e in X.A.entries:
        if e.kind != 'function':
            continue
        rep.count('module functions')
        nm = e.name[:-2]
        seen.add(nm)
        for p in X.A.paths(e):
            if p.kind == 'return':
                rep.count('paths')
                trusted(rep, X, e, nm, p)
                unchanged(rep, X, e, p)
    for n in ('getChecker', 'getObject'):
        rep.ob(f'C {n}()', n in seen, 'missing', rule='missing function')
    rep.floor('module functions', 2)
    rep.floor('construction paths', 3)


def construction(rep, X):
    e = X.es.get('tp_new')
    c = 'C _Proxy construction'
    if e is None:
        rep.ob(c, False, 'no constructor of its own', rule='no proxy')
        return
    made = 0
    for p in X.A.paths(e):
        if p.kind != 'return':
            continue
        rep.count('construction paths')
        k = p.key()
        chk = [('arg', 'checker'), ('arg', 1)]
        chk = [x for x in chk if any(
            ev.kind in ('parse',) for ev in p.events)]
        isnone = None
        for x in (('arg', 'checker'), ('arg', 1)):
            r = p.same(x, NONE)
            if r is not None:
                isnone = r
        if k is not None:
            made += 1
            v = p.run.mem.get((('o', k), X.c))
            o = p.run.mem.get((('o', k), X.o))
            ok = [v and p.run.okey(v), o and p.run.okey(o)]
            rep.ob(c, isnone is False, 'a proxy is made though the checker '
                   'may be None', path=p, rule='None checker accepted')
            rep.ob(c, ok[0] in (('arg', 'checker'), ('arg', 1)) and
                   ok[1] in (('arg', 'object'), ('arg', 0)),
                   f'the pair stored is not the one given: {ok}', path=p,
                   rule='wrong pair stored')
            rep.ob(c, any(ev.kind == 'alloc' and ev.ok and
                          same(p, ev.res, k) and
                          same(p, ev.args[0], ('param', 'type'))
                          for ev in p.events), 'not a new instance of the '
                   'type asked for', path=p, rule='wrong type created')
        elif isnone is True:
            rep.ob(c, p.err is not None and p.err[0] == 'exc' and
                   p.err[1] == ('ext', 'ValueError') or
                   'ValueError' in repr(p.err), 'None is refused with '
                   f'another error: {p.err}', path=p,
                   rule='wrong refusal of None')
        else:
            rep.ob(c, any(not ev.ok and ev.kind in ('parse', 'alloc')
                          for ev in p.events), 'a proper checker is refused',
                   path=p, rule='checker refused')
    rep.ob(c, made > 0, 'never succeeds', rule='no proxy')


def trusted(rep, X, e, nm, p):
    c = f'C {e.label}'
    A = ('param', 'arg')
    inst = p.run.facts.get(('inst', A, ('global', X.g)))
    O, C = X.pair(A)
    k = p.key()
    if nm == 'getObject':
        if inst is None:
            rep.ob(c, k is None, 'the type of the argument is not tested',
                   path=p, rule='type not tested')
        else:
            rep.ob(c, k is not None and same(p, k, O if inst else A),
                   'returns something else', path=p, rule='wrong object')
    elif nm == 'getChecker':
        if inst:
            rep.ob(c, k is not None and same(p, k, C), 'returns something '
                   'else', path=p, rule='wrong object')
        else:
            rep.ob(c, k is None and p.err is not None, 'answers for an '
                   'object that is no proxy', path=p, rule='wrong object')
    else:
        rep.ob(c, k is None or not (same(p, k, O) or same(p, k, C)),
               'another function of the module hands out the pair', path=p,
               rule='pair reachable')
