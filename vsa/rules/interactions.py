"""C13 - C18 and C30: interactions, participations and the policy."""
import ast
import os

from ..core import rule
from ..spec import *  # noqa

MGMT = 'zope.security.management.'
EXISTING = MGMT + 'ExistingInteraction'
NOINT = IFACE + 'NoInteraction'
TLSNAMES = ('interaction', 'previous_interaction')
POLICY = param('policy')
A1, A2, A3 = param('p1'), param('p2'), param('p3')
PERM = param('permission')
INTER = param('interaction')


def tls_of(w):
    return w.get('_definitions.thread_local')


def no_writes(rep, c, p, s, why):
    rep.ob(c, all(s.unchanged(n) for n in TLSNAMES) and
           set(s.after) == set(TLSNAMES), why, path=p,
           rule='changes the thread\'s interactions')


def opaque_error(p):
    return raised_by(p) is not None or exc_class(p) == 'opaque'


# ------------------------------------------------------------------- C13
@rule('C13', 'life cycle',
      'every path of the interaction management functions is judged as a '
      'transition of the thread\'s (current, remembered) pair: facts about '
      'the pair before, writes on the path')
def c13(ctx, rep):
    w = ctx.world('pure')
    tls = tls_of(w)
    for args in ([], [A1], [A1, A2, A3]):
        def thunk(run):
            set_global(run, w, 'management._defaultPolicy', POLICY)
            return run.call(w.get('management.newInteraction'), args, {})
        c = 'newInteraction'
        seen = set()
        for p in live(w.explore(thunk, K=ctx.K)):
            rep.count('paths')
            s = Slots(p, tls, TLSNAMES)
            nocur = s.none_before('interaction')
            made = [e for e in p.events if e.kind == 'call' and
                    func_key(e) == POLICY.key]
            if p.kind == 'raise' and exc_is(p, p.value, EXISTING) is True:
                seen.add('refused')
                rep.ob(c, nocur is False, 'refuses although there may be no '
                       'current interaction', path=p, rule='wrong refusal')
                rep.ob(c, not made, 'makes an interaction and refuses',
                       path=p, rule='wrong refusal')
                no_writes(rep, c, p, s, 'refuses and changes something')
                continue
            rep.ob(c, nocur is True, 'starts an interaction although there '
                   'may be a current one', path=p,
                   rule='replaces the current interaction')
            if p.kind == 'raise':
                rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                       rule='unexpected error')
                no_writes(rep, c, p, s, 'fails and changes something')
                continue
            seen.add('started')
            ok = len(made) == 1 and [a.key for a in made[0].args] == \
                [a.key for a in args] and not made[0].kw
            rep.ob(c, ok, 'the policy is not called once with exactly the '
                   'given participations', path=p,
                   rule='wrong participations')
            rep.ob(c, ok and s.is_after('interaction', made[0].result.key),
                   'the policy\'s interaction does not become current',
                   path=p, rule='wrong current interaction')
            rep.ob(c, s.unchanged('previous_interaction'),
                   'changes the remembered interaction', path=p,
                   rule='wrong remembered interaction')
        complete(rep, c, seen, ['refused', 'started'])

    def run_of(name):
        def thunk(run):
            return run.call(w.get('management.' + name), [], {})
        return live(w.explore(thunk, K=ctx.K))

    seen = set()
    c = 'endInteraction'
    for p in run_of(c):
        rep.count('paths')
        s = Slots(p, tls, TLSNAMES)
        if not rep.ob(c, p.kind == 'return', f'raises {p.value!r}', path=p,
                      rule='unexpected error'):
            continue
        had = s.before['interaction']
        rep.ob(c, s.absent_after('interaction'), 'the thread keeps a '
               'current interaction', path=p, rule='still current')
        if had is True:
            seen.add('had')
            rep.ob(c, s.is_after('previous_interaction',
                                 s.value('interaction').key),
                   'the ended interaction is not remembered', path=p,
                   rule='wrong remembered interaction')
        elif had is False:
            seen.add('had none')
            rep.ob(c, s.absent_after('previous_interaction'), 'an earlier '
                   'remembered interaction is not forgotten', path=p,
                   rule='wrong remembered interaction')
        else:
            rep.ob(c, False, 'does not look at the current interaction',
                   path=p, rule='wrong remembered interaction')
    complete(rep, c, seen, ['had', 'had none'])
    seen = set()
    c = 'restoreInteraction'
    for p in run_of(c):
        rep.count('paths')
        s = Slots(p, tls, TLSNAMES)
        if not rep.ob(c, p.kind == 'return', f'raises {p.value!r}', path=p,
                      rule='unexpected error'):
            continue
        had = s.before['previous_interaction']
        seen.add(had)
        if had is True:
            rep.ob(c, s.is_after('interaction',
                                 s.value('previous_interaction').key),
                   'the remembered interaction does not become current',
                   path=p, rule='wrong current interaction')
        else:
            rep.ob(c, had is False and s.absent_after('interaction'),
                   'nothing is remembered but the thread keeps a current '
                   'interaction', path=p, rule='wrong current interaction')
        rep.ob(c, s.unchanged('previous_interaction'), 'changes the '
               'remembered interaction', path=p,
               rule='wrong remembered interaction')
    complete(rep, c, seen, [True, False])
    queries(rep, w, tls, run_of)
    framework_reset(ctx, rep, w, tls)
    rep.floor('paths', 15)


def framework_reset(ctx, rep, w, tls):
    """resetting the framework leaves no current interaction"""
    c = 'framework reset'
    f = snippet(w, 'def client(functions):\n'
                   '    for f in functions:\n'
                   '        f()\n', 'management')

    def thunk(run):
        run.noraise += 1
        return run.call(f, [List(list(cleanups(w)), kind="tuple")], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        s = Slots(p, tls, TLSNAMES)
        if not rep.ob(c, p.kind == 'return', f'raises {p.value!r}', path=p,
                      rule='unexpected error'):
            continue
        rep.ob(c, s.absent_after('interaction'), 'the thread keeps a current '
               'interaction', path=p, rule='still current')


def queries(rep, w, tls, run_of):
    """the queries answer this thread's current interaction"""
    for c in ('queryInteraction', 'getInteraction'):
        seen = set()
        for p in run_of(c):
            rep.count('paths')
            s = Slots(p, tls, TLSNAMES)
            no_writes(rep, c, p, s, 'a query changes something')
            had = s.before['interaction']
            seen.add(had)
            if had is True:
                ok = p.kind == 'return' and p.value.key == \
                    s.value('interaction').key
                if s.none_before('interaction') is True:
                    ok = True
            elif c == 'queryInteraction':
                ok = had is False and p.kind == 'return' and \
                    p.is_const(p.value, None) is True
            else:
                ok = had is False and p.kind == 'raise' and \
                    exc_is(p, p.value, NOINT) is True
            rep.ob(c, ok, f'{p.kind}s {p.value!r}', path=p,
                   rule='wrong answer')
        complete(rep, c, seen, [True, False])


def complete(rep, c, cats, want):
    for x in want:
        rep.ob(c, x in cats, f'no path decides "{x}"',
               rule=f'case missing: {x}')


# ------------------------------------------------------------------- C14
WRITERS = {'zope.security.management'}


@rule('C14', 'who touches the thread\'s interactions',
      'every reference to the thread-local object in the package\'s modules: '
      'it is a threading.local; only the management module stores or '
      'deletes attributes of it; elsewhere it is only read, inside '
      'functions, directly')
def c14_scan(ctx, rep):
    w = ctx.world('pure')
    tls = tls_of(w)
    ok = isinstance(tls, Inst) and is_ext(tls.cls, 'threading.local')
    rep.ob('thread_local', ok, f'is not a threading.local: {tls!r}',
           rule='not per thread')
    for name, tree in sorted(w.asts.items()):
        rep.count('modules scanned')
        scan_tls(rep, w, name, tree, tls)
    rep.floor('modules scanned', 15)
    rep.floor('references', 6)


def parents(tree):
    par = {}
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            par[ch] = n
    return par


def func_of(par, n):
    while n in par:
        prev, n = n, par[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if prev in n.body:
                return n
    return None


def in_function(par, n):
    """inside the body of a function (evaluated when it is called)"""
    while n in par:
        prev, n = n, par[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
                prev in n.body or isinstance(n, ast.Lambda) and \
                prev is n.body:
            return True
    return False


def scan_tls(rep, w, name, tree, tls):
    m = w.modules[name]
    aliases = {k for k, v in m.ns.items() if v is tls}
    par = parents(tree)
    for n in ast.walk(tree):
        isref = isinstance(n, ast.Name) and n.id in aliases and \
            isinstance(n.ctx, ast.Load) or \
            isinstance(n, ast.Attribute) and n.attr == 'thread_local'
        if not isref:
            continue
        rep.count('references')
        where = f'{m.path}:{n.lineno}'
        up = par.get(n)
        c = f'{name}:{n.lineno}'
        c = f'{name} {getattr(func_of(par, n), "name", "<module>")}'
        inside = in_function(par, n)
        if isinstance(up, ast.Attribute):
            rep.ob(c, isinstance(up.ctx, ast.Load) or name in WRITERS,
                   f'sets or removes thread_local.{up.attr}', where=where,
                   rule='interaction written outside the management')
            rep.ob(c, inside, 'the interaction is read at import time',
                   where=where, rule='interaction read at import')
            if name not in WRITERS and up.attr.startswith('__') is False:
                rep.ob(c, up.attr in TLSNAMES, '', where=where)
            if up.attr == '__dict__':
                rep.ob(c, name in WRITERS, 'opens the thread-local\'s '
                       'attributes', where=where,
                       rule='interaction written outside the management')
        elif isinstance(up, ast.Call) and n in up.args and \
                isinstance(up.func, ast.Name):
            fn = up.func.id
            rep.ob(c, fn in ('getattr', 'hasattr', 'isinstance', 'type') or
                   name in WRITERS, f'passes thread_local to {fn}()',
                   where=where,
                   rule='interaction written outside the management')
            rep.ob(c, inside, 'the interaction is read at import time',
                   where=where, rule='interaction read at import')
        elif name in WRITERS:
            rep.ob(c, True)
        else:
            # an alias of the thread-local object itself: only in a
            # function, as a local name that is read from
            rep.ob(c, isinstance(up, ast.Assign) and inside and
                   all(isinstance(t, ast.Name) for t in up.targets) and
                   local_reads_only(par, up),
                   'lets the thread-local object out', where=where,
                   rule='interaction written outside the management')


def local_reads_only(par, asg):
    f = func_of(par, asg)
    names = {t.id for t in asg.targets}
    for n in ast.walk(f):
        if isinstance(n, (ast.Global, ast.Nonlocal)) and \
                names & set(n.names):
            return False
        if isinstance(n, ast.Name) and n.id in names and \
                isinstance(n.ctx, ast.Load):
            up = par.get(n)
            if not (isinstance(up, ast.Attribute) and
                    isinstance(up.ctx, ast.Load) or
                    isinstance(up, ast.Call) and
                    isinstance(up.func, ast.Name) and
                    up.func.id in ('getattr', 'hasattr')):
                return False
    return True


@rule('C14', 'decisions read the interaction afresh',
      'two decisions in a row about the same thing, the current interaction '
      'being replaced in between: every path of the second must consult the '
      'new interaction and follow its answer; without any it must fail')
def c14_fresh(ctx, rep):
    w = ctx.world('pure')
    tls = tls_of(w)
    I2 = param('interaction2')
    from .checkers import mk_checker, G, S
    G2 = param('granted')

    def sequence(first, second, change):
        def thunk(run):
            first_done = False
            o = mk_checker(w)
            run.info_o = o
            try:
                first(run, o)
            except PyRaise:
                pass
            run.info_split = len(run.events)
            run.touch(tls)
            if change == 'new':
                tls.attrs['interaction'] = I2
            elif change == 'ended':
                from ..pyai import _ABSENT
                tls.attrs['interaction'] = _ABSENT
            return second(run, o)
        return thunk
    from ..pyai import PyRaise

    def method(m):
        def call(run, o):
            return run.call(run.getattr_(o, m), [OBJ, NAME], {})
        return call

    def mgmt(run, o):
        return run.call(w.get('management.checkPermission'), [PERM, OBJ], {})
    subjects = [('CheckerPy.check', method('check'), G),
                ('CheckerPy.check_setattr', method('check_setattr'), S),
                ('CheckerPy.check_getattr', method('check_getattr'), G),
                ('management.checkPermission', mgmt, None)]
    for c, call, table in subjects:
        for change in ('new', 'same', 'ended'):
            seen = set()
            for p in live(w.explore(sequence(call, call, change),
                                    K=ctx.K)):
                rep.count('paths')
                fresh_oracle(rep, c, p, table, change, I2, tls, seen, w)
            want = ['granted', 'refused'] if change != 'ended' else \
                ['no interaction']
            complete(rep, f'{c} ({change})', seen, want)

    def run_of(name):
        return live(w.explore(lambda run: run.call(
            w.get('management.' + name), [], {}), K=ctx.K))
    queries(rep, w, tls, run_of)
    rep.floor('paths', 60)


def fresh_oracle(rep, c, p, table, change, I2, tls, seen, w):
    """the second decision"""
    if table is not None:
        perm = Sym('item', table.key, NAME.key)
        recorded = has_fact(p, table, NAME) is True and \
            p.is_const(perm, None) is False
    else:
        perm = PERM
        recorded = p.is_const(perm, None) is False
    public = is_fact(p, perm, w.get('checker.CheckerPublic'))
    if not (recorded and public is False):
        return
    evs = [e for e in p.events if e.idx >= p.run.info_split] \
        if p.events and hasattr(p.events[0], 'idx') else []
    asks = [e for e in evs if e.kind == 'call' and
            func_key(e)[0] == 'attr' and
            func_key(e)[2] == 'checkPermission']
    want = I2.key if change == 'new' else ('attr', tls.key, 'interaction')
    for e in asks:
        rep.ob(c, func_key(e)[1] == want and change != 'ended',
               'asks an interaction that is not the current one', path=p,
               rule='stale interaction')
        rep.ob(c, [a.key for a in e.args] == [perm.key, OBJ.key],
               'asks something else', path=p, rule='wrong question')
    if change == 'ended' or change == 'same' and hasattr_fact(
            p, tls, 'interaction') is False:
        seen.add('no interaction')
        rep.ob(c, p.kind == 'raise' and not asks, 'decides without an '
               'interaction', path=p, rule='granted without interaction')
        return
    if p.kind == 'raise' and opaque_error(p) and \
            exc_class(p) == 'opaque':
        return
    if not rep.ob(c, bool(asks), 'decides without asking the current '
                  'interaction', path=p, rule='cached decision'):
        return
    ans = asks[-1].result
    if c.endswith('checkPermission'):
        rep.ob(c, p.kind == 'return' and p.value.key == ans.key or
               p.kind == 'return' and
               p.truthy(p.value) == truth_fact(p, ans) is not None,
               'the answer is not the interaction\'s', path=p,
               rule='cached decision')
        seen.update(['granted', 'refused'])
    else:
        t = truth_fact(p, ans)
        seen.add('granted' if t else 'refused')
        rep.ob(c, (p.kind == 'return') == (t is True), 'the decision is not '
               'the interaction\'s answer', path=p, rule='cached decision')


@rule('C14', 'what one thread does stays in it',
      'every pair of an interaction operation in one thread and one in '
      'another, each thread with and without a current and a remembered '
      'interaction: the second one\'s outcome, and its thread\'s state '
      'after it, are those of its own thread alone')
def c14_threads(ctx, rep):
    w = ctx.world('pure')
    tls = tls_of(w)
    from ..pyai import _ABSENT, PyRaise
    from .checkers import mk_checker
    IB, PB = param('interactionB'), param('previousB')
    IA, PA = param('interactionA'), param('previousA')

    def op(name, args=()):
        return lambda run: run.call(w.get('management.' + name),
                                    list(args), {})

    def check(run):
        return run.call(run.getattr_(mk_checker(w), 'check'), [OBJ, NAME],
                        {})
    firsts = [op('newInteraction', [A1]), op('endInteraction'),
              op('restoreInteraction'), op('queryInteraction'),
              op('checkPermission', [PERM, OBJ]), check]
    seconds = [('newInteraction', [A2]), ('endInteraction', []),
               ('restoreInteraction', []), ('queryInteraction', []),
               ('getInteraction', []), ('checkPermission', [PERM, OBJ])]

    def state(run, cur, prev):
        run.touch(tls)
        tls.attrs['interaction'] = cur or _ABSENT
        tls.attrs['previous_interaction'] = prev or _ABSENT

    def sequence(first, acur, aprev, second, bcur, bprev):
        def thunk(run):
            set_global(run, w, 'management._defaultPolicy', POLICY)
            run.info_split = None
            state(run, acur, aprev)
            try:
                first(run)
            except PyRaise:
                pass
            run.info_split = len(run.events)
            state(run, bcur, bprev)
            try:
                return second(run)
            finally:
                run.info_after = [tls.attrs.get(n, _ABSENT) for n in
                                  TLSNAMES]
        return thunk
    for name, args in seconds:
        seen = 0
        for bcur in (None, IB):
            for bprev in (None, PB):
                for first in firsts:
                    for acur, aprev in ((IA, PA), (None, None)):
                        for p in live(w.explore(sequence(
                                first, acur, aprev, op(name, args), bcur,
                                bprev), K=ctx.K)):
                            if p.run.info_split is None or any(
                                    p.is_const(i, None) is True
                                    for i in (IA, IB, PA, PB)):
                                continue
                            rep.count('paths')
                            seen += 1
                            other_thread(rep, w, p, name, bcur, bprev,
                                         _ABSENT)
        rep.ob(name, seen > 0, 'never reached', rule='case missing')
    rep.floor('paths', 300)


def other_thread(rep, w, p, name, bcur, bprev, absent):
    evs = [e for e in p.events if e.idx >= p.run.info_split]
    cur, prev = p.run.info_after
    why = 'depends on what another thread did: '
    wcur, wprev = bcur or absent, bprev or absent
    ok = True
    if name == 'queryInteraction':
        ok = p.kind == 'return' and (
            p.value.key == bcur.key if bcur else
            p.is_const(p.value, None) is True)
    elif name == 'getInteraction':
        ok = p.kind == 'return' and p.value.key == bcur.key if bcur else \
            p.kind == 'raise' and exc_is(p, p.value, NOINT) is True
    elif name == 'endInteraction':
        ok = p.kind == 'return'
        wcur, wprev = absent, wcur
    elif name == 'restoreInteraction':
        ok = p.kind == 'return'
        wcur = wprev
    elif name == 'newInteraction':
        made = [e for e in evs if e.kind == 'call' and
                func_key(e) == POLICY.key]
        if bcur:
            ok = p.kind == 'raise' and exc_is(p, p.value, EXISTING) is True
        elif p.kind == 'return':
            ok = len(made) == 1
            wcur = made[0].result if made else None
        else:
            ok = opaque_error(p)
    else:
        public = is_fact(p, PERM, w.get('checker.CheckerPublic'))
        if public is True or p.is_const(PERM, None) is True:
            ok = p.kind == 'return'
        elif not bcur:
            ok = p.kind == 'raise' and exc_is(p, p.value, NOINT) is True
        else:
            ok = any(e.kind == 'call' and func_key(e) == (
                'attr', bcur.key, 'checkPermission') for e in evs)
    rep.ob(name, ok, f'{why}{p.kind}s {p.value!r}', path=p,
           rule='shared between threads')
    for n, got, want in zip(TLSNAMES, (cur, prev), (wcur, wprev)):
        rep.ob(name, got is want or want is not None and
               getattr(got, 'key', 0) == getattr(want, 'key', 1) or
               want is absent and getattr(got, 'key', 0) == NONE.key and
               n == 'interaction',
               f'{why}the thread\'s {n} is {got!r} afterwards', path=p,
               rule='shared between threads')


# ------------------------------------------------------------------- C15
@rule('C15', 'checkPermission',
      'every path of management.checkPermission with and without a given '
      'interaction')
def c15(ctx, rep):
    w = ctx.world('pure')
    tls = tls_of(w)
    public = w.get('checker.CheckerPublic')
    f = w.get('management.checkPermission')
    c = 'checkPermission'
    forms = [([PERM, OBJ], {}), ([PERM, OBJ, INTER], {}),
             ([PERM, OBJ], {'interaction': INTER}), ([PERM, OBJ, NONE], {})]
    for args, kw in forms:
        seen = set()

        def thunk(run):
            return run.call(f, list(args), dict(kw))
        given = INTER in args or bool(kw)
        for p in live(w.explore(thunk, K=ctx.K)):
            rep.count('paths')
            s = Slots(p, tls, TLSNAMES)
            no_writes(rep, c, p, s, 'a decision changes the interaction')
            pub = is_fact(p, PERM, public)
            none = p.is_const(PERM, None)
            asks = [e for e in p.events if e.kind == 'call']
            if pub is True or none is True:
                seen.add('public')
                rep.ob(c, p.kind == 'return' and p.truthy(p.value) is True
                       and not asks, 'public or None must be allowed '
                       'without asking', path=p, rule='public not allowed')
                continue
            if not rep.ob(c, pub is False and none is False, 'decides '
                          'without knowing whether the permission is public '
                          'or None', path=p, rule='public not allowed'):
                continue
            if given:
                ginone = p.is_const(INTER, None)
            else:
                ginone = True
            had = s.before['interaction']
            inter = INTER.key if ginone is False else (
                s.value('interaction').key if ginone is True and had is True
                else None)
            if ginone is None:
                rep.ob(c, False, 'does not look at the given interaction',
                       path=p, rule='wrong interaction')
                continue
            if inter is None:
                seen.add('no interaction')
                rep.ob(c, had is False and p.kind == 'raise' and
                       exc_is(p, p.value, NOINT) is True and not asks,
                       'no interaction: NoInteraction must be raised',
                       path=p, rule='no interaction')
                continue
            if p.kind == 'raise' and exc_is(p, p.value, NOINT) is True and \
                    s.none_before('interaction') is True and \
                    ginone is True:
                continue            # None as current interaction
            if p.kind == 'raise':
                rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                       rule='unexpected error')
                continue
            seen.add('asked')
            ok = len(asks) == 1 and func_key(asks[0]) == (
                'attr', inter, 'checkPermission') and \
                [a.key for a in asks[0].args] == [PERM.key, OBJ.key]
            if rep.ob(c, ok, 'does not ask that interaction for exactly '
                      'that permission and object', path=p,
                      rule='wrong question'):
                ans = asks[0].result
                rep.ob(c, p.value.key == ans.key or (
                    p.truthy(p.value) is not None and
                    p.truthy(p.value) == truth_fact(p, ans)) or
                    p.value.key == ('bool', ans.key),
                    'does not return the interaction\'s answer', path=p,
                    rule='wrong answer')
        complete(rep, c, seen, ['public', 'asked'] + (
            [] if given else ['no interaction']))
    rep.floor('paths', 12)


# ------------------------------------------------------------------- C16
PARTS = param('participations')


@rule('C16', 'policies',
      'every path of the policies\' checkPermission for an opaque permission '
      'and collections of participations, judged by the identity facts about '
      'their principals; the default policy and its reset')
def c16(ctx, rep):
    w = ctx.world('pure')
    public = w.get('checker.CheckerPublic')
    system = w.get('management.system_user')
    rep.ob('system_user', system is w.get('_definitions.system_user') and
           isinstance(system, Inst), 'there is not one system user',
           rule='one system user')
    cls = w.get('simplepolicies.ParanoidSecurityPolicy')
    c = 'ParanoidSecurityPolicy.checkPermission'
    seen = set()

    def of(cls):
        def thunk(run):
            o = Inst(cls, label='self')
            o.attrs['participations'] = PARTS
            return run.call(run.getattr_(o, 'checkPermission'), [PERM, OBJ],
                            {})
        return thunk
    for p in live(w.explore(of(cls), K=ctx.K + 1)):
        rep.count('paths')
        pub = is_fact(p, PERM, public)
        for e in p.events:
            if any(a.key == OBJ.key for a in e.args) or any(
                    a.key == PERM.key for a in e.args):
                rep.ob(c, False, f'the object or permission matters: {e!r}',
                       path=p, rule='decides by something else')
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        ans = p.truthy(p.value)
        if pub is True:
            seen.add('public')
            rep.ob(c, ans is True, 'public access denied', path=p,
                   rule='public denied')
            continue
        rep.ob(c, pub is False, 'decides without knowing whether the '
               'permission is public', path=p, rule='public denied')
        n = p.facts.get(('len', PARTS.key))
        sysf = []
        for i in range(n if n is not None else 0):
            pr = Sym('attr', ('elem', PARTS.key, i), 'principal')
            sysf.append(is_fact(p, pr, system))
        if n is None and truth_fact(p, PARTS) is False:
            n = 0
        others = any(x is False for x in sysf)
        allsys = n is not None and all(x is True for x in sysf)
        if ans is True:
            seen.add('allowed')
            rep.ob(c, allsys, 'allows although a participation may have '
                   'another principal than the system user', path=p,
                   rule='allows a principal')
        else:
            seen.add('denied')
            rep.ob(c, ans is False and others, 'denies although no other '
                   'principal than the system user is known', path=p,
                   rule='denies the system user')
    complete(rep, c, seen, ['public', 'allowed', 'denied'])
    c = 'PermissiveSecurityPolicy.checkPermission'
    perm = w.get('simplepolicies.PermissiveSecurityPolicy')
    for p in live(w.explore(of(perm), K=ctx.K)):
        rep.count('paths')
        rep.ob(c, p.kind == 'return' and p.truthy(p.value) is True,
               'does not allow', path=p, rule='permissive policy denies')
    later_participations(ctx, rep, w, cls, public, system)
    # the default
    d = w.get('management._defaultPolicy')
    rep.ob('default policy', d is cls, f'the default policy is {d!r}',
           rule='wrong default policy')
    policy_reset(ctx, rep, w, cls)
    rep.floor('paths', 8)


def policy_reset(ctx, rep, w, cls):
    resets = 0
    for f in cleanups(w):
        def thunk(run):
            set_global(run, w, 'management._defaultPolicy', POLICY)
            run.call(f, [], {})
            return w.modules['zope.security.management'].ns[
                '_defaultPolicy']
        for p in live(w.explore(thunk, K=ctx.K)):
            if p.kind == 'return' and p.value.key != POLICY.key:
                resets += 1
                rep.ob('reset', p.value is cls, f'resets to {p.value!r}',
                       path=p, rule='wrong default policy')
    rep.ob('reset', resets >= 1, 'no reset function restores the default '
           'policy', rule='default policy not restored')


def later_participations(ctx, rep, w, cls, public, system):
    """a decision counts the participations there are by then"""
    c = 'ParanoidSecurityPolicy.checkPermission, again'
    P1, P2 = param('principal 1'), param('principal 2')

    f = snippet(w, 'def client(policy, part, perm, obj, p1, p2):\n'
                   '    part.principal = p1\n'
                   '    part.interaction = None\n'
                   '    o = policy()\n'
                   '    r1 = bool(o.checkPermission(perm, obj))\n'
                   '    o.add(part)\n'
                   '    r2 = bool(o.checkPermission(perm, obj))\n'
                   '    part.principal = p2\n'
                   '    r3 = bool(o.checkPermission(perm, obj))\n'
                   '    o.remove(part)\n'
                   '    r4 = bool(o.checkPermission(perm, obj))\n'
                   '    return r1, r2, r3, r4\n', 'simplepolicies')

    def thunk(run):
        run.noraise += 1
        part = Inst(w.get('testing.Participation'), label='participation')
        return run.call(f, [cls, part, PERM, OBJ, P1, P2], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        if is_fact(p, PERM, public) is not False:
            continue
        if not rep.ob(c, p.kind == 'return', f'raises {p.value!r}', path=p,
                      rule='unexpected error'):
            continue
        r = [p.truthy(x) for x in p.list_items(p.value)]
        want = [True, is_fact(p, P1, system), is_fact(p, P2, system), True]
        rep.ob(c, r == want, f'answers {r!r} without a participation, with '
               f'one of the system user or not ({want[1]!r}), after its '
               f'principal changed ({want[2]!r}) and without any again',
               path=p, rule='remembered answer')


def cleanups(w):
    """functions registered with zope.testing.cleanup by any module"""
    out = []
    for f in w.cleanups:
        out.append(f)
    return out


# ------------------------------------------------------------------- C17
@rule('C17', 'participations',
      'every path of adding and removing a participation and of creating an '
      'interaction, the participation\'s interaction being anything')
def c17(ctx, rep):
    w = ctx.world('pure')
    for name in ('ParanoidSecurityPolicy', 'PermissiveSecurityPolicy'):
        cls = w.get('simplepolicies.' + name)
        participations(ctx, rep, w, name, cls)
    rep.floor('paths', 20)


VERR = 'builtins.ValueError'


def member_ops(p, o):
    """appends to and removals from the list of participations, in order"""
    out = []
    for e in p.events:
        if e.raised is not None:
            continue
        if e.kind in ('append', 'remove', 'insert', 'extend') or \
                e.kind == 'call' and func_key(e)[0] == 'attr' and \
                func_key(e)[2] in ('append', 'remove', 'add', 'discard',
                                   'insert', 'extend', 'pop', 'clear'):
            out.append(e)
        elif e.kind == 'setattr' and e.args[0].key == o.key and \
                e.name == 'participations':
            out.append(e)
        elif e.kind in ('setitem', 'delitem', 'iadd'):
            out.append(e)
    return out


def participations(ctx, rep, w, name, cls):
    def final(run, o):
        v = o.attrs.get('participations')
        return [x.key for x in v.items] if isinstance(v, List) else None

    # add: to an interaction that already has one member
    def thunk(run):
        run.noraise += 1
        o = run.call(cls, [], {})
        o.attrs['participations'] = List([A2])
        run.noraise -= 1
        run.info_o = o
        run.info_start = len(run.events)
        try:
            return run.call(run.getattr_(o, 'add'), [A1], {})
        finally:
            run.info_final = final(run, o)
    c = f'{name}.add'
    seen = set()
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        s = Slots(p, A1, ('interaction',))
        free = p.is_const(s.value('interaction'), None)
        if p.kind == 'raise':
            if exc_is(p, p.value, VERR) is True:
                seen.add('refused')
                rep.ob(c, free is False, 'refuses a participation that may '
                       'be free', path=p, rule='wrong refusal')
                rep.ob(c, s.unchanged('interaction') and not s.writes,
                       'refuses and changes the participation', path=p,
                       rule='refuses and changes something')
                rep.ob(c, p.run.info_final == [A2.key], 'refuses and '
                       'changes the members', path=p,
                       rule='refuses and changes something')
            else:
                rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                       rule='unexpected error')
            continue
        seen.add('added')
        rep.ob(c, free is True, 'adds a participation that may belong to '
               'an interaction', path=p, rule='belongs to two interactions')
        rep.ob(c, s.is_after('interaction', p.run.info_o.key), 'the '
               'participation does not refer to this interaction', path=p,
               rule='wrong reference')
        rep.ob(c, p.run.info_final == [A2.key, A1.key], 'the participation '
               'is not the last member', path=p, rule='not a member')
    complete(rep, c, seen, ['refused', 'added'])

    # remove
    for members in ([A1], [A2, A1], []):
        def thunk2(run):
            run.noraise += 1
            o = run.call(cls, [], {})
            o.attrs['participations'] = List(list(members))
            run.noraise -= 1
            run.info_o = o
            try:
                return run.call(run.getattr_(o, 'remove'), [A1], {})
            finally:
                run.info_final = final(run, o)
        c = f'{name}.remove'
        seen = set()
        before = [m.key for m in members]
        for p in live(w.explore(thunk2, K=ctx.K)):
            rep.count('paths')
            s = Slots(p, A1, ('interaction',))
            mine = is_fact(p, s.value('interaction'), p.run.info_o)
            if is_fact(p, A1, A2) is True:
                continue        # never a member twice (by the rule on add)
            if p.kind == 'raise':
                if exc_is(p, p.value, VERR) is not True:
                    rep.ob(c, opaque_error(p), f'raises {p.value!r}',
                           path=p, rule='unexpected error')
                    continue
                seen.add('refused')
                rep.ob(c, mine is False or A1.key not in before,
                       'refuses a participation that may be its own',
                       path=p, rule='wrong refusal')
                rep.ob(c, not s.writes and p.run.info_final == before,
                       'refuses and changes something', path=p,
                       rule='refuses and changes something')
                continue
            seen.add('removed')
            rep.ob(c, mine is True, 'removes a participation that may not '
                   'be its own', path=p, rule='removes another\'s')
            a = s.after['interaction']
            rep.ob(c, isinstance(a, V) and p.is_const(a, None) is True,
                   'the participation still refers to an interaction',
                   path=p, rule='wrong reference')
            rep.ob(c, p.run.info_final is not None and
                   A1.key not in p.run.info_final and
                   [k for k in before if k != A1.key] == p.run.info_final,
                   'the participation is still a member, or another one is '
                   'not', path=p, rule='still a member')
        complete(rep, c, seen, ['refused'] + (['removed'] if members
                                              else []))

    # creation
    for args in ([], [A1], [A1, A2], [A1, A2, A3]):
        def thunk3(run):
            o = run.call(cls, list(args), {})
            run.info_final = final(run, o)
            return o
        c = f'{name}()'
        made = 0
        for p in live(w.explore(thunk3, K=ctx.K)):
            rep.count('paths')
            if p.kind == 'raise':
                if exc_is(p, p.value, VERR) is True:
                    rep.ob(c, any(p.is_const(Sym(
                        'attr', a.key, 'interaction'), None) is False
                        for a in args), 'refuses participations that may '
                        'all be free', path=p, rule='wrong refusal')
                else:
                    rep.ob(c, opaque_error(p), f'raises {p.value!r}',
                           path=p, rule='unexpected error')
                continue
            made += 1
            rep.ob(c, p.run.info_final == [a.key for a in args], 'the '
                   'members are not the given participations in order',
                   path=p, rule='wrong members')
            for a in args:
                s = Slots(p, a, ('interaction',))
                rep.ob(c, p.is_const(s.value('interaction'), None) is True,
                       'takes a participation that may belong to another '
                       'interaction', path=p,
                       rule='belongs to two interactions')
                rep.ob(c, s.is_after('interaction', p.value.key), 'a '
                       'participation does not refer to its interaction',
                       path=p, rule='wrong reference')
        rep.ob(c, made > 0, 'cannot be created', rule='cannot be created')


# ------------------------------------------------------------------- C18
@rule('C18', 'policy setting',
      'paths of setSecurityPolicy, getSecurityPolicy and newInteraction over '
      'an opaque setting; the writers of the setting in the whole package; '
      'the action the ZCML directive emits')
def c18(ctx, rep):
    w = ctx.world('pure')
    OLD = param('old')
    m = w.modules['zope.security.management']

    def thunk(run):
        set_global(run, w, 'management._defaultPolicy', OLD)
        r1 = run.call(w.get('management.getSecurityPolicy'), [], {})
        r2 = run.call(w.get('management.setSecurityPolicy'), [POLICY], {})
        r3 = run.call(w.get('management.getSecurityPolicy'), [], {})
        run.info_r = (r1, r2, r3)
        return run.call(w.get('management.newInteraction'), [A1], {})
    c = 'setSecurityPolicy'
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        rs = getattr(p.run, 'info_r', None)
        if not rep.ob(c, rs is not None, f'raises {p.value!r}', path=p,
                      rule='unexpected error'):
            continue
        rep.ob('getSecurityPolicy', rs[0].key == OLD.key and
               rs[2].key == POLICY.key, 'is not the policy last set', path=p,
               rule='wrong policy')
        rep.ob(c, rs[1].key == OLD.key, 'does not return the policy it '
               'replaced', path=p, rule='wrong return value')
        made = [e for e in p.events if e.kind == 'call' and
                func_key(e) in (OLD.key, POLICY.key)]
        rep.ob('newInteraction', all(func_key(e) == POLICY.key
                                     for e in made),
               'uses a policy that is not the one last set', path=p,
               rule='stale policy')
        if p.kind == 'return':
            rep.ob('newInteraction', len(made) == 1, 'does not use the '
                   'policy', path=p, rule='stale policy')
    policy_reset(ctx, rep, w,
                 w.get('simplepolicies.ParanoidSecurityPolicy'))
    # set never validated away: any argument
    # writers
    writers(rep, w, m)
    directive(ctx, rep, w)
    rep.floor('paths', 3)


def writers(rep, w, m):
    setters = set()
    for name, tree in sorted(w.asts.items()):
        par = parents(tree)
        for n in ast.walk(tree):
            rep.count('nodes scanned')
            hit = None
            if isinstance(n, ast.Global) and '_defaultPolicy' in n.names \
                    and name == m.name:
                f = func_of(par, n)
                hit = f.name if f else '<module>'
                writes = [x for x in ast.walk(f) if isinstance(x, ast.Name)
                          and x.id == '_defaultPolicy' and
                          not isinstance(x.ctx, ast.Load)] if f else [n]
                if not writes:
                    continue
            elif isinstance(n, ast.Attribute) and \
                    n.attr == '_defaultPolicy' and \
                    not isinstance(n.ctx, ast.Load):
                hit = f'{name}:{n.lineno}'
            elif isinstance(n, ast.Constant) and \
                    n.value == '_defaultPolicy':
                hit = f'{name}:{n.lineno}'
            elif isinstance(n, (ast.Name, ast.Attribute)) and \
                    isinstance(n.ctx, ast.Load) and \
                    (n.id if isinstance(n, ast.Name) else n.attr) == \
                    'setSecurityPolicy':
                # references to the setter: only as a deferred action's
                # callable or in the defining module
                up = par.get(n)
                called = isinstance(up, ast.Call) and up.func is n
                f = func_of(par, n)
                if called and name == m.name and f is not None and \
                        is_reset(w, f.name):
                    called = False      # its effect is judged there
                rep.ob(f'{name}:setSecurityPolicy', not called,
                       'sets the policy by itself', where=
                       f'{w.modules[name].path}:{n.lineno}',
                       rule='another writer of the policy')
                continue
            if hit is None:
                continue
            setters.add(hit)
            ok = name == m.name and (
                hit == 'setSecurityPolicy' or is_reset(w, hit) or
                private_helper(w, tree, hit))
            rep.ob('_defaultPolicy', ok, f'{hit} writes the setting',
                   where=f'{w.modules[name].path}:{n.lineno}',
                   rule='another writer of the policy')
    rep.ob('_defaultPolicy', bool(setters), 'no writer found',
           rule='no writer')


def is_reset(w, name):
    m = w.modules['zope.security.management']
    f = m.ns.get(name)
    return f is not None and any(f is x for x in w.cleanups)


def private_helper(w, tree, name):
    """a private function used only by the setter and the reset"""
    if not name.startswith('_'):
        return False
    par = parents(tree)
    ok = False
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id == name and \
                isinstance(n.ctx, ast.Load):
            f = func_of(par, n)
            if f is None or not (f.name == 'setSecurityPolicy' or
                                 is_reset(w, f.name)):
                return False
            ok = True
    return ok


def directive(ctx, rep, w):
    from .zcmlspec import actions
    c = 'zcml.securityPolicy'
    CTX = param('context')
    COMP = param('component')

    def thunk(run):
        return run.call(w.get('zcml.securityPolicy'), [CTX, COMP], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        acts, rest = actions(p, CTX)
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), '', path=p)
            continue
        ok = len(acts) == 1 and acts[0]['callable'] is w.get(
            'management.setSecurityPolicy') and \
            acts[0]['args'] == [COMP.key] and not acts[0]['kw']
        rep.ob(c, ok, 'does not emit exactly one action setting the policy '
               'to the component', path=p, rule='wrong action')
        if ok:
            d = acts[0]['discriminator']
            rep.ob(c, isinstance(d, Const) and d.value == 'defaultPolicy',
                   f'the discriminator is {d!r}', path=p,
                   rule='wrong discriminator')
        rep.ob(c, not any(e.kind == 'setglobal' for e in p.events),
               'sets the policy immediately', path=p,
               rule='another writer of the policy')


# ------------------------------------------------------------------- C30
@rule('C30', 'testing.interaction',
      'every path of a client block under the testing interaction context '
      'manager, the block completing or failing, the management functions '
      'being opaque')
def c30(ctx, rep):
    w = ctx.world('pure')
    f = snippet(w, 'def client(cm, pid, body, new_id, new_title):\n'
                   '    with cm(pid, groups=("g",)) as x:\n'
                   '        body(x)\n'
                   '        if x is not None:\n'
                   '            x.id = new_id\n'
                   '            x.title = new_title\n', 'testing')
    # (the block may do anything to the principal it is given)
    BODY, PID = param('body'), param('pid')
    stubs = {MGMT + n: n for n in ('newInteraction', 'endInteraction',
                                   'queryInteraction', 'getInteraction')}
    c = 'testing.interaction'

    def thunk(run):
        run.stubs = dict(stubs)
        return run.call(f, [w.get('testing.interaction'), PID, BODY,
                            param('new id'), param('new title')], {})
    seen = set()
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')

        def of(n):
            return [e for e in p.events if e.kind == 'call' and
                    func_key(e) == ('param', n)]
        new, end, body = (of('newInteraction'), of('endInteraction'),
                          [e for e in p.events if e.kind == 'call' and
                           func_key(e) == BODY.key])
        q = of('queryInteraction') + of('getInteraction')
        if q and (q[0].raised is not None):
            continue
        if not rep.ob(c, bool(q), 'does not look for a current interaction',
                      path=p, rule='current interaction ignored'):
            continue
        none = p.is_const(q[0].result, None)
        started = [e for e in new if e.raised is None]
        if new and new[0].raised is not None:
            rep.ob(c, same_exc(p, new[0].raised) and not body and not end,
                   'starting fails: the error must come through', path=p,
                   rule='error swallowed')
            continue
        if none is False:
            seen.add('current')
            rep.ob(c, not new and not end, 'an interaction is current: must '
                   'not start or end any', path=p,
                   rule='current interaction touched')
        elif none is True and not new and not body and opaque_error(p):
            # the principal could not be made: there is nothing to end
            rep.ob(c, not end, 'nothing was started: must not end any',
                   path=p, rule='not cleaned up')
            continue
        elif none is True:
            seen.add('none')
            ok = len(started) == 1 and len(end) == 1 and len(body) == 1 and \
                started[0].idx < body[0].idx < end[0].idx
            rep.ob(c, ok, 'does not start one interaction before the block '
                   'and end it after', path=p, rule='not cleaned up')
            if started:
                participation(rep, c, p, started[0], PID, w,
                              body[0].idx if body else None)
        else:
            # unknown whether one is current
            truth = truth_fact(p, q[0].result)
            if truth is True:
                seen.add('current')
                rep.ob(c, not new and not end, 'an interaction is current: '
                       'must not start or end any', path=p,
                       rule='current interaction touched')
            else:
                rep.ob(c, False, 'does not know whether an interaction is '
                       'current', path=p, rule='current interaction ignored')
        if not rep.ob(c, len(body) == 1, 'the block is not run once', path=p,
                      rule='block not run'):
            continue
        x = body[0].raised
        seen.add('error' if x is not None else 'no error')
        if x is not None:
            ended_badly = [e for e in end if e.raised is not None]
            rep.ob(c, same_exc(p, x) or bool(ended_badly), 'an error in the '
                   'block does not come through', path=p,
                   rule='error swallowed')
        else:
            rep.ob(c, p.kind == 'return' or opaque_error(p), '', path=p)
    complete(rep, c, seen, ['current', 'none', 'error', 'no error'])
    rep.floor('paths', 3)


def participation(rep, c, p, e, pid, w, before=None):
    if not rep.ob(c, len(e.args) == 1 and not e.kw, 'not exactly one '
                  'participation', path=p, rule='wrong participations'):
        return
    part = e.args[0]
    pr = final_attr(p, part, 'principal', before)
    ident = final_attr(p, pr, 'id', before) if pr is not None else None
    rep.ob(c, ident is not None and ident.key == pid.key, 'the '
           'participation\'s principal does not have the given id', path=p,
           rule='wrong participations')
    details = final_attr(p, pr, 'groups', before) if pr is not None else None
    rep.ob(c, details is not None and (
        mentions(details.key, Const('g').key) or isinstance(details, List)
        and [x.key for x in details.items] == [Const('g').key]), 'the principal does not have the given '
        'details', path=p, rule='wrong participations')
    given = [x for x in p.events if x.kind == 'call' and
             func_key(x) == param('body').key]
    rep.ob(c, pr is None or not given or given[0].args[0].key == pr.key,
           'the block is given something else than the principal', path=p,
           rule='wrong principal given')
    it = final_attr(p, part, 'interaction', before)
    rep.ob(c, it is not None and p.is_const(it, None) is True, 'the '
           'participation is not free', path=p, rule='wrong participations')


def final_attr(p, o, name, before=None):
    out = None
    if isinstance(o, Sym):
        t = p.facts.get(('attr', o.key, name))
    for e in p.events:
        if e.kind == 'setattr' and e.args[0].key == o.key and \
                e.name == name and (before is None or e.idx < before):
            out = e.args[1]
    return out


# ------------------------------------------------------------------- C44
ID, TITLE, DESC, GROUPS = (param('id'), param('title'), param('description'),
                           param('groups'))
DETAILS = {'id': ID, 'title': TITLE, 'description': DESC, 'groups': GROUPS}


@rule('C44', 'stand-ins',
      'every path of making a permission, a test principal, a test '
      'interaction and the public permission, the details being anything '
      'or left out')
def c44(ctx, rep):
    w = ctx.world('pure')
    for names in ((), ('title',), ('description',), ('groups',),
                  ('title', 'description', 'groups')):
        kw = {n: DETAILS[n] for n in names}
        made_principal(ctx, rep, w, 'testing.Principal', kw)
        made_principal(ctx, rep, w, 'testing.create_interaction', kw)
        if 'groups' not in kw:
            made_permission(ctx, rep, w, kw)
    public_permission(ctx, rep, w)
    system = w.get('_definitions.system_user')
    for p in live(w.explore(lambda run: run.getattr_(system, 'id'))):
        rep.ob('system_user', p.is_const(
            p.value, 'zope.security.management.system_user') is True,
            f'has the id {p.value!r}', path=p, rule='wrong id')
    for p in live(w.explore(lambda run: run.getattr_(system, 'title'))):
        rep.ob('system_user', p.is_const(p.value, 'System') is True,
               f'has the title {p.value!r}', path=p, rule='wrong title')
    rep.floor('paths', 20)


def made_permission(ctx, rep, w, kw):
    c = f'Permission({", ".join(["id"] + sorted(kw))})'
    f = snippet(w, 'def client(cls, id, kw):\n'
                   '    o = cls(id, **kw)\n'
                   '    return o.id, o.title, o.description\n', 'permission')

    def thunk(run):
        return run.call(f, [w.get('permission.Permission'), ID,
                            given(kw)], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        if not rep.ob(c, p.kind == 'return', f'raises {p.value!r}', path=p,
                      rule='unexpected error'):
            continue
        got = p.list_items(p.value)
        want = [ID] + [kw.get(n) or Const('')
                       for n in ('title', 'description')]
        for n, x, y in zip(('id', 'title', 'description'), got, want):
            rep.ob(c, x.key == y.key, f'the {n} is {x!r}', path=p,
                   rule=f'wrong {n}')


def given(kw):
    return Dict([(Const(k), v) for k, v in kw.items()])


def made_principal(ctx, rep, w, func, kw):
    c = f'{func}({", ".join(["id"] + sorted(kw))})'
    f = snippet(w, 'def client(f, id, kw):\n'
                   '    o = f(id, **kw)\n'
                   '    return (o, o.id, o.title, o.description,\n'
                   '            hasattr(o, "groups"),\n'
                   '            getattr(o, "groups", None))\n', 'testing')
    aware = w.get('interfaces.IGroupAwarePrincipal')
    start = 'newInteraction'

    def thunk(run):
        run.stubs = {MGMT + start: start}
        return run.call(f, [w.get(func), ID, given(kw)], {})
    seen = set()
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        new = [e for e in p.events if e.kind == 'call' and
               func_key(e) == ('param', start)]
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        o, ident, title, desc, has, groups = p.list_items(p.value)
        if func.endswith('create_interaction'):
            if not rep.ob(c, len(new) == 1 and len(new[0].args) == 1 and
                          not new[0].kw, 'does not start one interaction '
                          'with one participation', path=p,
                          rule='wrong participations'):
                continue
            part = new[0].args[0]
            pr = final_attr(p, part, 'principal', new[0].idx)
            it = final_attr(p, part, 'interaction', new[0].idx)
            rep.ob(c, pr is not None and pr.key == o.key, 'the '
                   'participation is of something else than the principal '
                   'returned', path=p, rule='wrong principal')
            rep.ob(c, it is not None and p.is_const(it, None) is True,
                   'the participation is not free', path=p,
                   rule='wrong participations')
        else:
            rep.ob(c, not new, 'starts an interaction', path=p,
                   rule='wrong participations')
        rep.ob(c, ident.key == ID.key, f'the id is {ident!r}', path=p,
               rule='wrong id')
        want = ID
        if 'title' in kw:
            t = truth_fact(p, TITLE)
            none = is_fact(p, TITLE, Const(None))
            seen.add('titled' if title.key == TITLE.key else 'untitled')
            # (an empty title may be kept or replaced)
            if t is True or title.key == TITLE.key and none is not True:
                want = TITLE
            rep.ob(c, title.key != TITLE.key or t is not False,
                   'an empty title is kept', path=p, rule='wrong title')
        rep.ob(c, title.key == want.key, f'the title is {title!r}', path=p,
               rule='wrong title')
        want = kw.get('description') or Const('')
        rep.ob(c, desc.key == want.key, f'the description is {desc!r}',
               path=p, rule='wrong description')
        claims = [e for e in p.events if e.kind == 'call' and
                  func_key(e) in (('ext', 'zope.interface.directlyProvides'),
                                  ('ext', 'zope.interface.alsoProvides'))
                  and e.args[0].key == o.key and any(
                      x.key == aware.key for x in e.args[1:])]
        none = is_fact(p, GROUPS, Const(None)) if 'groups' in kw else True
        if none is False:
            seen.add('grouped')
            rep.ob(c, groups.key == GROUPS.key, f'the groups are {groups!r}',
                   path=p, rule='wrong groups')
            rep.ob(c, bool(claims), 'has groups and is not group-aware',
                   path=p, rule='not group-aware')
        elif none is True:
            seen.add('ungrouped')
            rep.ob(c, not claims, 'claims to be group-aware without groups',
                   path=p, rule='group-aware')
        else:
            rep.ob(c, False, 'does not look whether groups are given',
                   path=p, rule='wrong groups')
    for n, xs in (('title', ('titled', 'untitled')),
                  ('groups', ('grouped', 'ungrouped'))):
        if n in kw:
            complete(rep, c, seen, xs)
    if not kw:
        complete(rep, c, seen, ['ungrouped'])


def public_permission(ctx, rep, w):
    c = 'testing.addCheckerPublic'
    iperm = w.get('interfaces.IPermission')
    pid = w.get('interfaces.PUBLIC_PERMISSION_NAME')
    f = snippet(w, 'def client(f):\n'
                   '    o = f()\n'
                   '    return o, o.id\n', 'testing')
    done = 0
    for p in live(w.explore(lambda run: run.call(
            f, [w.get('testing.addCheckerPublic')], {}), K=ctx.K)):
        rep.count('paths')
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        done += 1
        o, ident = p.list_items(p.value)
        rep.ob(c, ident.key == pid.key, f'the id is {ident!r}', path=p,
               rule='wrong id')
        regs = [e for e in p.events if e.kind == 'call' and
                repr(func_key(e)).rstrip("')").endswith(
                    ('registerUtility', 'provideUtility'))]
        if not rep.ob(c, len(regs) == 1, 'does not register one utility',
                      path=p, rule='not registered'):
            continue
        e = regs[0]
        args = dict(zip(('component', 'provided', 'name'), e.args))
        args.update(e.kw)
        for n, x in (('component', o), ('provided', iperm), ('name', pid)):
            y = args.get(n)
            rep.ob(c, y is not None and y.key == x.key,
                   f'the {n} registered is {y!r}', path=p,
                   rule=f'wrong {n}')
        glob = [x for x in p.events if x.kind == 'call' and
                func_key(x) == ('ext', 'zope.component.getGlobalSiteManager')
                and x.result.key == e_receiver(e)]
        rep.ob(c, bool(glob) or func_key(e) in GLOBAL_REGISTRATION,
               f'is not registered globally ({e.name})', path=p,
               rule='not global')
    rep.ob(c, done > 0, 'never completes', rule='not registered')


GLOBAL_REGISTRATION = (
    ('ext', 'zope.component.provideUtility'),
    ('ext', 'zope.component.globalregistry.provideUtility'),
    ('ext', 'zope.component.globalSiteManager.registerUtility'),
    ('ext', 'zope.component.globalregistry.globalSiteManager.'
     'registerUtility'))


def e_receiver(e):
    k = func_key(e)
    return k[1] if k and k[0] == 'attr' else None
