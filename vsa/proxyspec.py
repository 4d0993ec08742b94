"""Oracles about the paths of one proxied operation.

The same oracles judge the Python proxy (paths of its methods) and the C proxy
(paths of its slot functions): the wrapped object is the origin OBJ, the
checker the origin CHK."""
from .spec import *  # noqa
from .spec import V

CHECKERS = ('check', 'check_getattr', 'check_setattr')
# the same operation as seen from the other operand, or by its syntax
REFLECTED = {'__add__', '__sub__', '__mul__', '__truediv__', '__floordiv__',
             '__mod__', '__divmod__', '__pow__', '__lshift__', '__rshift__',
             '__and__', '__xor__', '__or__', '__matmul__'}


def check_event(p):
    """first event that asks the checker for a decision"""
    for e in p.events:
        if any(is_call_of(e, CHK.key, c) for c in CHECKERS):
            return e
    return None


def fmt_bad(e):
    return f'{e.kind} {e.name if isinstance(e.name, str) else repr(e.name)}'


def check_first(rep, construct, p, checkname, want):
    """C01/C02: nothing happens to the wrapped object before (or without)
    the checker's agreement, and the question is the right one.
    want: list of acceptable checker methods; checkname: V"""
    c = check_event(p)
    upto = c.idx if c is not None else len(p.events)
    ok = True
    for e in p.events[:upto]:
        if involves(e, OBJ.key):
            ok = rep.ob(construct, False, f'the wrapped object is used '
                        f'before the checker was asked: {e!r}', path=p,
                        rule='used before checked')
            break
    if c is None:
        if p.kind == 'return':
            ok = rep.ob(construct, False, 'the operation succeeds without '
                        'asking the checker', path=p, rule='never checked')
        elif ok:
            rep.ob(construct, True)
        return False
    meth = [m for m in CHECKERS if is_call_of(c, CHK.key, m)][0]
    ks = [a.key for a in c.args]
    good = meth in want and len(ks) == 2 and ks[0] == OBJ.key and \
        ks[1] == checkname.key
    if not good:
        ok = rep.ob(construct, False,
                    f'the checker is asked the wrong question: {c!r}, '
                    f'expected {want[0]}(obj, {checkname!r})', path=p,
                    rule='wrong question to the checker')
    if c.raised is not None:
        after = [e for e in p.events[c.idx + 1:] if involves(e, OBJ.key)]
        if after:
            ok = rep.ob(construct, False, 'the wrapped object is used '
                        f'although the checker refused: {after[0]!r}',
                        path=p, rule='used after refusal')
        if not (p.kind == 'raise' and p.value is c.raised):
            ok = rep.ob(construct, False, 'the refusal of the checker does '
                        'not reach the caller', path=p,
                        rule='refusal swallowed')
    if ok:
        rep.ob(construct, True)
    return ok


def operations(p):
    """events after the check that operate on the wrapped object itself"""
    c = check_event(p)
    start = c.idx + 1 if c is not None else 0
    return [e for e in p.events[start:] if involves(e, OBJ.key)
            and func_key(e) != ('attr', CHK.key, 'proxy')]


def same_operation(e, op, args, kw=None):
    """does the event perform operation `op` of OBJ with these arguments"""
    ks = [a.key for a in e.args]
    akeys = [a.key for a in args]
    kws = {k: v.key for k, v in (e.kw or {}).items()}
    want_kw = {k: v.key for k, v in (kw or {}).items()}
    if op == '__call__':
        if e.kind == 'call' and func_key(e) == OBJ.key:
            return ks == akeys and kws == want_kw
        return e.kind == 'op' and e.name == '__call__' and \
            ks == [OBJ.key] + akeys and kws == want_kw
    if e.kind == 'call' and func_key(e) == ('attr', OBJ.key, op):
        return ks == akeys
    if e.kind in ('op', 'setitem', 'delitem') and e.name == op:
        return ks == [OBJ.key] + akeys
    if op.startswith('__r') and e.kind == 'op' and \
            '__' + op[3:] in REFLECTED and e.name == '__' + op[3:]:
        return ks[:2] == [akeys[0], OBJ.key] and ks[2:] == akeys[1:]
    return False


def performs(rep, construct, p, op, args, kw=None):
    """C01: after the agreement exactly the checked operation is performed"""
    c = check_event(p)
    if c is None or c.raised is not None:
        return None
    ops = operations(p)
    for e in ops:
        if not same_operation(e, op, args, kw):
            if e.kind == 'getattr' and any(
                    func_key(x) == ('attr', OBJ.key, e.name) for x in ops):
                continue
            rep.ob(construct, False, f'checked for {op} but then does '
                   f'{e!r}', path=p, rule='other operation than checked')
            return None
    mine = [e for e in ops if same_operation(e, op, args, kw)]
    if p.kind == 'return' and not mine:
        rep.ob(construct, False, f'{op} is not performed on the wrapped '
               f'object', path=p, rule='operation not performed')
        return None
    rep.ob(construct, len(mine) <= 1, f'{op} is performed {len(mine)} times',
           path=p, rule='performed more than once')
    return mine[-1] if mine else None


def result_wrapped(rep, construct, p, ev, raw_ok=False, inplace=False,
                   proxy=None):
    """C03: what the operation yields leaves only as checker.proxy(it)"""
    if p.kind != 'return':
        return
    res = ev.result.key if ev is not None and ev.result is not None else None
    v = p.value
    if inplace:
        same = None
        if res is not None:
            a = ('is',) + tuple(sorted((res, OBJ.key), key=repr))
            same = p.facts.get(a)
        if proxy is not None and v.key == proxy.key:
            rep.ob(construct, same is True, 'returns the proxy itself '
                   'although the operation may have returned another object',
                   path=p, rule='in-place result lost')
            return
        if same is True:
            rep.ob(construct, False, 'the object returned itself but not '
                   'the very same proxy is returned', path=p,
                   rule='in-place identity lost')
            return
    w = is_proxied(v, CHK.key)
    if w is not None:
        rep.ob(construct, res is None or w == res, 'what is wrapped and '
               'returned is not the result of the operation', path=p,
               rule='wrong value wrapped')
        return
    if raw_ok:
        rep.ob(construct, True)
        return
    if mentions(v.key, OBJ.key):
        rep.ob(construct, False, f'returned without the checker\'s wrapping: '
               f'{v!r}', path=p, rule='raw result')
    else:
        rep.ob(construct, res is None, 'the result of the operation is '
               'not what is returned', path=p, rule='result lost')


def proxy_unchanged(rep, construct, p, proxy):
    """no path replaces the object or checker of an existing proxy"""
    bad = [e for e in p.events if e.kind in ('slotset', 'slotdel')]
    rep.ob(construct, not bad, 'the proxy\'s object or checker is replaced: '
           + (repr(bad[0]) if bad else ''), path=p, rule='proxy altered')
