"""Oracles about the paths of the C proxy's entry points.

O is the origin of the wrapped object, C of the checker, of the proxy that an
operation acts for."""
from .cai import IS, NONE, TRUE, FALSE
from .centries import S

CHECKERS = ('check', 'check_getattr', 'check_setattr')
HARMLESS = {'decref'}


def same(p, a, b):
    if isinstance(a, int):
        a = ('int', a)
    if isinstance(b, int):
        b = ('int', b)
    return a == b or isinstance(a, tuple) and isinstance(b, tuple) and \
        p.same(a, b) is True


def is_str(p, k, text):
    return isinstance(k, tuple) and p.rep(k) == ('str', text)


def slot_of(p, ev, slot, obj):
    """a call of a slot of the type of obj"""
    return ev.kind == 'slot' and ev.name == slot and \
        isinstance(ev.extra, tuple) and ev.extra[:1] == ('type',) and \
        same(p, ev.extra[1], obj) and ev.args and same(p, ev.args[0], obj)


def bound(p, f):
    """(object, name) if f was read as an attribute on this path"""
    for ev in p.events:
        if ev.kind == 'getattr' and ev.res == f and ev.ok and \
                len(ev.args) > 1 and ev.args[1][0] == 'str':
            return ev.args[0], ev.args[1][1]
    return None


def asks(p, ev, C):
    """(method, object, name) if the event asks checker C for a decision"""
    if slot_of(p, ev, 'mp_ass_subscript', C) and len(ev.args) == 3:
        return 'slot', ev.args[1], ev.args[2]
    if ev.kind == 'setitem' and len(ev.args) == 3 and \
            same(p, ev.args[0], C):
        return 'slot', ev.args[1], ev.args[2]
    if ev.kind == 'callmethod' and same(p, ev.args[0], C) and \
            isinstance(ev.name, tuple) and ev.name[1] in CHECKERS:
        a = list(ev.args[1:]) + [None, None]
        return ev.name[1], a[0], a[1]
    if ev.kind == 'call' and ev.args:
        b = bound(p, ev.args[0])
        if b and same(p, b[0], C) and b[1] in CHECKERS:
            a = list(ev.args[1:]) + [None, None]
            return b[1], a[0], a[1]
    return None


def wraps(p, ev, C):
    """what the event lets checker C wrap"""
    if slot_of(p, ev, 'mp_subscript', C) and len(ev.args) == 2:
        return ev.args[1]
    if ev.kind == 'getitem' and len(ev.args) == 2 and same(p, ev.args[0], C):
        return ev.args[1]
    if ev.kind == 'callmethod' and ev.name == ('str', 'proxy') and \
            len(ev.args) == 2 and same(p, ev.args[0], C):
        return ev.args[1]
    if ev.kind == 'call' and len(ev.args) == 2:
        b = bound(p, ev.args[0])
        if b and same(p, b[0], C) and b[1] == 'proxy':
            return ev.args[1]
    return None


def ask_event(p, C):
    for i, ev in enumerate(p.events):
        if asks(p, ev, C):
            return i
    return None


def touches(p, ev, O):
    """does the event let code of the wrapped object run"""
    if not ev.py or ev.kind in HARMLESS:
        return False
    for a in ev.args:
        if same(p, a, O):
            return True
        if isinstance(a, tuple) and len(a) == 2 and a[0] in ('*', '**') and \
                same(p, a[1], O):
            return True
    return isinstance(ev.extra, tuple) and ev.extra[:1] == ('type',) and \
        same(p, ev.extra[1], O)


def succeeded(p):
    """the operation reports success"""
    v = p.value
    if isinstance(v, (int, IS)):
        if isinstance(v, int):
            return v >= 0
        return p.err is None
    return p.key() is not None


def fails_with(p, ev):
    return not succeeded(p) and p.err is not None and p.err == ev.err


def check_first(rep, construct, p, O, C, name, want, more=''):
    """the wrapped object is used only after the checker's agreement to
    exactly this question; True if it agreed"""
    i = ask_event(p, C)
    for ev in p.events[:len(p.events) if i is None else i]:
        if touches(p, ev, O):
            rep.ob(construct, False, f'the wrapped object is used before the '
                   f'checker was asked: {ev!r}{more}', path=p,
                   rule='used before checked')
            return False
    if i is None:
        rep.ob(construct, not succeeded(p), 'the operation succeeds without '
               f'asking the checker{more}', path=p, rule='never checked')
        return False
    ev = p.events[i]
    meth, obj, nm = asks(p, ev, C)
    ok = rep.ob(construct, meth in want and same(p, obj, O) and
                same(p, nm, name), f'the checker is asked the wrong '
                f'question: {ev!r}{more}', path=p,
                rule='wrong question to the checker')
    if not ev.ok:
        for x in p.events[i + 1:]:
            if touches(p, x, O):
                rep.ob(construct, False, 'the wrapped object is used '
                       f'although the checker refused: {x!r}{more}', path=p,
                       rule='used after refusal')
        rep.ob(construct, not succeeded(p) and p.err == ev.err,
               f'the refusal of the checker does not reach the caller{more}',
               path=p, rule='refusal swallowed')
        return False
    return ok


def matches(p, ev, want):
    """is the event one of the wanted (kind, name, args)"""
    for kind, name, args in want:
        if ev.kind != kind or name is not None and ev.name != name:
            continue
        if len(ev.args) == len(args) and all(
                (a(p, x) if callable(a) else same(p, a, x))
                for a, x in zip(args, ev.args)):
            return True
    return False


def performs(rep, construct, p, O, C, want, more=''):
    """after the agreement exactly the checked operation happens, once"""
    i = ask_event(p, C)
    ops = [ev for ev in p.events[i + 1:] if touches(p, ev, O)
           and wraps(p, ev, C) is None]
    for ev in ops:
        if not matches(p, ev, want):
            rep.ob(construct, False, f'does something else than it was '
                   f'checked for: {ev!r}{more}', path=p,
                   rule='other operation than checked')
            return None
    if len(ops) > 1:
        rep.ob(construct, False, f'the operation is performed {len(ops)} '
               f'times{more}', path=p, rule='other operation than checked')
        return None
    if not ops:
        rep.ob(construct, not succeeded(p), f'the operation is not performed '
               f'on the wrapped object{more}', path=p,
               rule='operation not performed')
        return None
    if not ops[0].ok and ops[0].extra != 'exhausted':
        rep.ob(construct, not succeeded(p), f'the operation fails but '
               f'success is reported{more}', path=p,
               rule='failure of the operation lost')
    rep.ob(construct, True)
    return ops[0]


def result_wrapped(rep, construct, p, O, C, ev, P=None, raw=False, more=''):
    """what the operation yields leaves only as the checker's wrapping of
    it; P: the proxy, for in-place operations"""
    if ev is None or not ev.ok:
        return
    res = ev.res
    if raw:
        v = p.value
        if isinstance(v, IS):
            v = v.key
        elif isinstance(v, int):
            v = ('int', v)
        else:
            v = p.key()
        rep.ob(construct, same(p, v, res) or not succeeded(p),
               f'answers something else than the wrapped object{more}',
               path=p, rule='wrong answer')
        return
    k = p.key()
    ws = [x for x in p.events if wraps(p, x, C) is not None]
    if P is not None:
        itself = p.same(res, O)
        if k is not None and same(p, k, P):
            rep.ob(construct, itself is True, 'returns the proxy itself '
                   f'although the operation may have returned another '
                   f'object{more}', path=p, rule='in-place result lost')
            return
        if itself is True:
            rep.ob(construct, False, 'the object returned itself but not the '
                   f'very same proxy is returned{more}', path=p,
                   rule='in-place identity lost')
            return
        rep.ob(construct, itself is False, 'the result is not compared with '
               f'the wrapped object{more}', path=p,
               rule='in-place identity lost')
    if k is None:
        rep.ob(construct, any(not x.ok for x in p.events), 'the result of '
               f'the operation is lost{more}', path=p, rule='result lost')
        return
    mine = [x for x in ws if x.ok and same(p, x.res, k)]
    if not mine:
        rep.ob(construct, False, f'returned without the checker\'s wrapping'
               f'{more}', path=p, rule='raw result')
        return
    rep.ob(construct, same(p, wraps(p, mine[0], C), res), 'what is wrapped '
           f'and returned is not the result of the operation{more}', path=p,
           rule='wrong value wrapped')
