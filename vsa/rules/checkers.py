"""C06 - C12: the decisions of the checkers (Python parts)."""
from ..core import rule
from ..pyai import PyRaise
from ..spec import *  # noqa

CKPY = 'zope.security.checker.CheckerPy'
G = param('G')
S = param('S')
OB = OBJ


# ------------------------------------------------------------- C06 / C07
class Decision:
    """What a path knows about the decision it takes: the oracle of C06 and
    C07 for name-based checkers, shared by the Python and the C checker."""

    def __init__(self, p, table, public, tls):
        self.p = p
        self.table = table
        self.perm = Sym('item', table.key, NAME.key)
        h = has_fact(p, table, NAME)
        none = p.is_const(self.perm, None)
        if truth_fact(p, table) is False:
            h = False
        if h is False or h is True and none is True:
            self.recorded = False
        elif h is True and none is False:
            self.recorded = True
        else:
            self.recorded = None
        self.public = is_fact(p, self.perm, public) \
            if self.recorded is not False else False
        self.inter = ('attr', tls.key, 'interaction')
        self.tls = tls
        self.consults = [e for e in p.events if e.kind == 'call' and
                         func_key(e)[0] == 'attr' and
                         func_key(e)[2] == 'checkPermission']

    def consult_ok(self, e):
        return func_key(e) == ('attr', self.inter, 'checkPermission') and \
            [a.key for a in e.args] == [self.perm.key, OB.key]

    def answer(self):
        for e in reversed(self.consults):
            if e.result is not None:
                return truth_fact(self.p, e.result)
        return None


def judge(rep, c, d, reading, cats):
    p = d.p
    rep.ob(c, len(d.consults) <= 1, 'the interaction is asked '
           f'{len(d.consults)} times about one access', path=p,
           rule='asked again')
    for e in d.consults:
        rep.ob(c, d.consult_ok(e), 'asks something else than the current '
               f'interaction about exactly (permission, object): {e!r}',
               path=p, rule='wrong consultation')
        rep.ob(c, d.recorded is True and d.public is False,
               'consults the interaction although the name is public or has '
               'no recorded permission', path=p,
               rule='needless consultation')
    ins, nots = names_in(p, NAME)
    avail = ins is not None and ins <= AVAILABLE
    notavail = ins is not None and not (ins & AVAILABLE) or \
        AVAILABLE <= nots
    is_iter = ins == {'__iter__'}
    not_iter = ins is not None and '__iter__' not in ins or \
        '__iter__' in nots
    has_iter = None
    for a, v in p.facts.items():
        if a[0] == 'hasattr' and a[1] == OB.key and \
                a[2] in ('__iter__', NAME.key, NAME):
            has_iter = v
        if a[0] == 'hasdyn' and a[1] == OB.key:
            has_iter = v
    for e in p.events:
        if e.kind in ('op', 'setattr', 'delattr', 'setitem', 'delitem') and \
                direct(e, OB.key):
            rep.ob(c, False, f'operates on the object: {e!r}', path=p,
                   rule='object used while deciding')
        if e.kind == 'getattr' and e.args[0].key == OB.key and not is_iter:
            rep.ob(c, False, 'reads an attribute of the object to decide',
                   path=p, rule='object used while deciding')
    if p.kind == 'return':
        if d.recorded is True and d.public is True:
            ok, cat = not d.consults, 'public'
        elif d.recorded is True and d.public is False:
            ok, cat = bool(d.consults) and d.consult_ok(d.consults[-1]) and \
                d.answer() is True, 'allowed'
        elif d.recorded is False and reading and avail:
            ok, cat = True, 'available'
        elif d.recorded is False and reading and is_iter and \
                has_iter is False:
            ok, cat = True, 'iter'
        else:
            ok, cat = False, 'none'
        cats.add(cat)
        rep.ob(c, ok, 'grants without a reason the permission table gives',
               path=p, rule='grant without reason')
        return
    k = exc_class(p)
    args = exc_args(p)
    if k == UNAUTH:
        cats.add('unauthorized')
        rep.ob(c, d.recorded is True and d.public is False and
               bool(d.consults) and d.answer() is False,
               'Unauthorized although the interaction was not asked or did '
               'not deny', path=p, rule='wrong refusal')
        rep.ob(c, args == [OB.key, NAME.key, d.perm.key], 'Unauthorized must '
               f'carry object, name, permission: {p.value!r}', path=p,
               rule='refusal content')
    elif k == FORBID:
        cats.add('forbidden')
        rep.ob(c, d.recorded is False, 'ForbiddenAttribute although a '
               'permission is (or may be) recorded', path=p,
               rule='wrong refusal')
        if reading:
            rep.ob(c, notavail, 'refuses an always-available name', path=p,
                   rule='wrong refusal')
            rep.ob(c, not_iter or has_iter is True,
                   'refuses __iter__ of an object that may not have it',
                   path=p, rule='wrong refusal')
        rep.ob(c, args == [NAME.key, OB.key], 'ForbiddenAttribute must carry '
               f'name, object: {p.value!r}', path=p, rule='refusal content')
    elif raised_by(p) is not None or k == 'opaque':
        cats.add('error')
        rep.ob(c, True)
    else:
        # no interaction
        cats.add('no interaction')
        rep.ob(c, d.recorded is True and d.public is False and
               hasattr_fact(p, d.tls, 'interaction') is False,
               f'raises {p.value!r} while deciding', path=p,
               rule='unexpected error')


def complete(rep, c, cats, want):
    for w in want:
        rep.ob(c, w in cats, f'no path decides "{w}"',
               rule=f'case missing: {w}')


def mk_checker(w, cls=None):
    o = Inst(cls or w.get('checker.CheckerPy'), label='self')
    o.attrs['get_permissions'] = G
    o.attrs['set_permissions'] = S
    return o


def python_decisions(ctx, rep, method, table, reading):
    w = ctx.world('pure')
    public = w.get('checker.CheckerPublic')
    tls = w.get('_definitions.thread_local')
    cls = w.get('checker.CheckerPy')

    def thunk(run):
        o = mk_checker(w, cls)
        return run.call(run.getattr_(o, method), [OB, NAME], {})
    cats = set()
    c = f'CheckerPy.{method}'
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        judge(rep, c, Decision(p, table, public, tls), reading, cats)
        other = S if table is G else G
        for e in p.events:
            if any(a.key == other.key for a in e.args):
                rep.ob(c, False, f'the other table is used: {e!r}', path=p,
                       rule='wrong table')
    want = ['public', 'allowed', 'unauthorized', 'forbidden',
            'no interaction']
    if reading:
        want += ['available', 'iter']
    complete(rep, c, cats, want)
    rep.count('decision methods')


@rule('C06', 'python checker reads',
      'every path of CheckerPy.check and check_getattr is judged by the '
      'decision table of the property, from the facts the path established '
      'about the recorded permission, the interaction\'s answer and the name')
def c06(ctx, rep):
    for m in ('check', 'check_getattr'):
        python_decisions(ctx, rep, m, G, True)
    table_reads(ctx, rep, 'permission_id', G)
    rep.floor('decision methods', 2)
    rep.floor('paths', 14)


@rule('C07', 'python checker writes',
      'every path of CheckerPy.check_setattr, likewise, with the write table '
      'only')
def c07(ctx, rep):
    python_decisions(ctx, rep, 'check_setattr', S, False)
    table_reads(ctx, rep, 'setattr_permission_id', S)
    rep.floor('decision methods', 1)
    rep.floor('paths', 5)


def table_reads(ctx, rep, method, table):
    """permission_id reports what the table records"""
    w = ctx.world('pure')
    c = f'CheckerPy.{method}'

    def thunk(run):
        return run.call(run.getattr_(mk_checker(w), method), [NAME], {})
    item = Sym('item', table.key, NAME.key)
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        h = has_fact(p, table, NAME)
        if truth_fact(p, table) is False:
            h = False
        ok = p.kind == 'return' and (
            p.value.key == item.key if h is True else
            h is False and p.is_const(p.value, None))
        rep.ob(c, ok, 'reports something else than the recorded permission',
               path=p, rule='wrong permission reported')


DICT = 'builtins.dict'


@rule('C06', 'python checker construction',
      'CheckerPy stores exactly the tables it is given')
@rule('C07', 'python checker construction',
      'CheckerPy stores exactly the tables it is given')
def ckinit(ctx, rep):
    w = ctx.world('pure')
    cls = w.get('checker.CheckerPy')
    for args in ([G], [G, S]):
        def thunk(run):
            return run.call(cls, list(args), {})
        made = 0
        for p in live(w.explore(thunk, K=ctx.K)):
            rep.count('paths')
            if p.kind != 'return':
                rep.ob('CheckerPy()', raised_by(p) is not None or any(
                    inst_fact(p, t.key, DICT) is False for t in args),
                    f'refuses what may be dictionaries: {p.value!r}', path=p,
                    rule='tables refused')
                continue
            made += 1
            o = p.value
            snap = p.info['attrs'] = final_attrs(p, o)
            rep.ob('CheckerPy()', snap.get('get_permissions') == G.key,
                   'the read table is not the one given', path=p,
                   rule='wrong table stored')
            sp = snap.get('set_permissions')
            if len(args) == 2 and p.is_const(S, None) is not True:
                ok = sp == S.key
            else:
                ok = sp is not None and sp != G.key and sp != S.key
                tabs = [e.args[1] for e in p.events if e.kind in
                        ('setattr', 'slotset') and e.name ==
                        'set_permissions' and e.args[0].key == o.key]
                rep.ob('CheckerPy()', all(p.fresh(t) and isinstance(t, Dict)
                                          and p.dict_items(t) == []
                                          for t in tabs[-1:]),
                       'a write table that is not given is not a new empty '
                       'one', path=p, rule='shared write table')
            rep.ob('CheckerPy()', ok, 'the write table is not the one given',
                   path=p, rule='wrong table stored')
        rep.ob('CheckerPy()', made > 0, 'construction always fails',
               rule='no checker')


def final_attrs(p, o):
    out = {}
    for e in p.events:
        if e.kind in ('setattr', 'slotset') and e.args[0].key == o.key:
            out[e.name if isinstance(e.name, str) else repr(e.name)] = \
                e.args[1].key
    return out


# ------------------------------------------------------------------- C08
C1, C2 = param('c1'), param('c2')


def stub_pure(w):
    """the two decision methods of the plain checker, left opaque"""
    return {CKPY + '.check': 'base.check',
            CKPY + '.check_setattr': 'base.check_setattr',
            CKPY + '.__init__': 'base.__init__'}


def base_call(e, meth, selfkey):
    """an event asking the plain checker's own decision"""
    k = func_key(e)
    if k is None:
        return False
    names = {('param', 'base.' + meth)}
    if meth in ('check', 'check_getattr'):
        names |= {('param', 'base.check')}
    good = k in names
    if not good and k[0] == 'ext' and k[1].startswith(
            'zope.security._zope_security_checker.Checker.'):
        n = k[1].rsplit('.', 1)[1]
        good = n == meth or {n, meth} <= {'check', 'check_getattr'}
    if not good and k[0] == 'bound' and k[1][0] == 'ext' and k[1][1].endswith(
            '.Checker.' + meth):
        return k[2] == selfkey
    return good and bool(e.args) and e.args[0].key == selfkey


OB0 = param('ob0')


def earlier(run, o, method):
    """an earlier decision about another object, whatever became of it"""
    try:
        run.call(run.getattr_(o, method), [OB0, NAME], {})
    except PyRaise:
        pass
    run.info_split = len(run.events)


def since_split(p):
    n = getattr(p.run, 'info_split', 0)
    return [e for e in p.events if e.idx >= n]


def combined_paths(ctx, config, method, key='checker.CombinedChecker',
                   before=None):
    w = ctx.world(config)
    cls = w.get(key)

    def thunk(run):
        if not w.c_ext:
            run.stubs = stub_pure(w)
        run.noraise += 1
        o = run.call(cls, [C1, C2], {})
        run.noraise -= 1
        run.info_self = o
        if before:
            earlier(run, o, before)
        return run.call(run.getattr_(o, method), [OB, NAME], {})
    return w, live(w.explore(thunk, K=ctx.K))


def plain(e):
    return [a.key for a in e.args if True]


@rule('C08', 'combined checker decisions',
      'every path of the decision methods of the combined checker, with both '
      'component decisions opaque and raising any error, is judged by the '
      'union table; also that it is made of the first checker\'s tables and '
      'the second checker')
def c08(ctx, rep):
    cases = [('c', 'checker.CombinedChecker'),
             ('pure', 'checker.CombinedChecker'),
             ('watch', 'checker.CombinedChecker'),
             ('purewatch', 'checker.CombinedChecker')]
    if ctx.thorough:
        cases += [('watch2', 'checker.CombinedChecker'),
                  ('purewatch2', 'checker.CombinedChecker')]
    for config, key in cases:
        for method in ('check', 'check_getattr', '__setitem__',
                       'check_setattr'):
            combined(ctx, rep, config, key, method)
            for before in ('check', 'check_getattr', 'check_setattr'):
                combined(ctx, rep, config, key, method, before)
    rep.floor('combined methods', 64)


def combined(ctx, rep, config, key, method, before=None):
    w, ps = combined_paths(ctx, config, method, key, before)
    asks = 'check_setattr' if method == 'check_setattr' else 'check'
    c = f'{key[8:]}.{method} ({config})'
    if before:
        c += f' after {before}'
    rep.count('combined methods')
    cases = set()
    for p in ps:
        rep.count('paths')
        if not hasattr(p.run, 'info_self') or before and \
                not hasattr(p.run, 'info_split'):
            continue        # it could not even be made
        me = p.run.info_self.key
        # construction
        inits = [e for e in p.events if e.kind == 'call' and (
            func_key(e) == ('param', 'base.__init__') or
            func_key(e)[0] == 'ext' and func_key(e)[1].endswith(
                'Checker.__init__') or
            func_key(e)[0] == 'attr' and func_key(e)[2] == '__init__' and
            func_key(e)[1][0] in ('obj', 'ext') and
            func_key(e)[1][-1].endswith('Checker'))]
        if rep.ob(c, bool(inits), 'the combined checker gets no tables',
                  path=p, rule='wrong tables'):
            got = dict(zip(('self', 'get_permissions', 'set_permissions'),
                           [a.key for a in inits[0].args]))
            got.update({k: v.key for k, v in inits[0].kw.items()})
            rep.ob(c, got == {
                'self': me,
                'get_permissions': ('attr', C1.key, 'get_permissions'),
                'set_permissions': ('attr', C1.key, 'set_permissions')},
                'the combined checker is not made of the first checker\'s '
                'tables', path=p, rule='wrong tables')
        evs = since_split(p)
        e1s, e2s = ([e for e in evs if e.kind == 'call' and
                     func_key(e)[0] == 'attr' and func_key(e)[1] == k.key and
                     func_key(e)[2] in ('check', 'check_getattr',
                                        'check_setattr')]
                    for k in (C1, C2))
        okargs = all([a.key for a in e.args][-2:] == [OB.key, NAME.key]
                     for e in e1s + e2s)
        rep.ob(c, okargs, 'a component is asked about something else',
               path=p, rule='wrong question')
        rep.ob(c, all((func_key(e)[2] == 'check_setattr') ==
                      (asks == 'check_setattr') for e in e2s),
               'the second checker is asked the wrong kind of question',
               path=p, rule='wrong question')
        others = [e for e in evs if e.raised is not None and
                  e not in e1s and e not in e2s]
        if others:
            continue        # e.g. an attribute of a component is missing
        if not rep.ob(c, len(e1s) == 1 and len(e2s) <= 1,
                      'the components are not asked once each', path=p,
                      rule='components asked'):
            continue
        e1 = e1s[0]
        e2 = e2s[0] if e2s else None
        x1 = e1.raised
        if x1 is None:
            cases.add('first grants')
            rep.ob(c, e2 is None and p.kind == 'return', 'the first checker '
                   'grants but the second is consulted or the access is not '
                   'granted', path=p, rule='first grants')
            continue
        un, fo = exc_is(p, x1, UNAUTH), exc_is(p, x1, FORBID)
        if un is not True and fo is not True:
            cases.add('other error')
            rep.ob(c, e2 is None and same_exc(p, x1),
                   'an error that is neither Unauthorized nor '
                   'ForbiddenAttribute does not propagate', path=p,
                   rule='other error')
            continue
        if not rep.ob(c, e2 is not None, 'the first refuses and the second '
                      'is not asked', path=p, rule='second not asked'):
            continue
        rep.ob(c, e1.idx < e2.idx, 'order', path=p, rule='order')
        x2 = e2.raised
        if x2 is None:
            cases.add('second grants')
            rep.ob(c, p.kind == 'return', 'the second checker grants but the '
                   'access is refused', path=p, rule='second grants')
            continue
        un2, fo2 = exc_is(p, x2, UNAUTH), exc_is(p, x2, FORBID)
        if not rep.ob(c, p.kind == 'raise', 'both refuse and access is '
                      'granted', path=p, rule='both refuse'):
            continue
        final = p.value
        cases.add('both refuse')
        if un is True and fo is not True:
            if final.key == x1.key or exc_class(p) == UNAUTH:
                ok = fo2 is True or un2 is True
            else:
                ok = final.key == x2.key and (fo2 is False or un2 is True)
        else:
            if final.key == x2.key:
                ok = True
            elif final.key == x1.key or exc_class(p) == FORBID:
                ok = fo2 is True and un2 is not True
            else:
                ok = exc_class(p) == UNAUTH and un2 is True
        rep.ob(c, ok, f'both refuse ({"Unauthorized" if un else "Forbidden"} '
               f'first): the result must be Unauthorized if either was, '
               f'ForbiddenAttribute if neither, and other errors as they are',
               path=p, rule='both refuse')
    complete(rep, c, cases, ['first grants', 'second grants', 'both refuse',
                             'other error'])
    return ps


# ------------------------------------------------------------------- C09
@rule('C09', 'watching checkers',
      'every path of the decision methods of the watching checker, at '
      'verbosity 0, 1 and 2 and in both implementations, with the underlying '
      'decision opaque: one identical question, same outcome, reports only '
      'at the stated verbosity')
def c09(ctx, rep):
    for config, v in (('c', 0), ('watch', 1), ('watch2', 2), ('pure', 0),
                      ('purewatch', 1), ('purewatch2', 2), ('zero', 0),
                      ('empty', 0), ('watchword', 1), ('purewatchword', 1)):
        w = ctx.world(config)
        for key in ('checker.WatchingChecker', ) + (
                ('checker.Checker',) if v else ()):
            for m in ('check', 'check_getattr', '__setitem__',
                      'check_setattr'):
                watching(ctx, rep, w, config, v, key, m)
            cls = w.get(key)
            for m in ('proxy', 'permission_id', 'setattr_permission_id'):
                r = w.run.class_lookup(cls, m)
                base = w.get('checker.CheckerPy') if not w.c_ext else None
                own = r is not None and (
                    isinstance(r[1], Class) and base is not None and
                    r[1] is base or is_ext(r[1]))
                if not own:
                    watching(ctx, rep, w, config, v, key, m)
                else:
                    rep.ob(f'{key}.{m} ({config})', True)
    rep.floor('watching methods', 36)


@rule('C09', 'watching combined checkers',
      'every path of the decision methods of the watching combined checker, '
      'judged by the same union table as the plain one; nothing reported at '
      'verbosity 0')
def c09_combined(ctx, rep):
    for config, v in (('c', 0), ('pure', 0), ('watch', 1), ('purewatch', 1)):
        for method in ('check', 'check_getattr', '__setitem__',
                       'check_setattr'):
            for p in combined(ctx, rep, config,
                              'checker.WatchingCombinedChecker', method):
                writes = [e for e in p.events if e.kind == 'call' and
                          func_key(e)[-1] == 'write']
                if not any(e.raised is not None for e in p.events):
                    rep.ob(f'WatchingCombinedChecker.{method} ({config})',
                           not writes, 'granted access reported at verbosity '
                           f'{v}', path=p, rule='verbosity')
                elif not v:
                    rep.ob(f'WatchingCombinedChecker.{method} ({config})',
                           not writes, 'reported at verbosity 0', path=p,
                           rule='verbosity')
    rep.floor('combined methods', 16)


def watching(ctx, rep, w, config, v, key, m):
    cls = w.get(key)

    def thunk(run):
        if not w.c_ext:
            run.stubs = stub_pure(w)
        o = Inst(cls, label='self')
        o.lazy = False
        run.info_self = o
        args = [OB, NAME] if m not in ('proxy', 'permission_id',
                                       'setattr_permission_id') else [OB]
        return run.call(run.getattr_(o, m), args, {})
    c = f'{key}.{m} ({config})'
    asks = m if m not in ('check_getattr', '__setitem__') else 'check'
    rep.count('watching methods')
    cases = set()
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        me = p.run.info_self.key
        e1s = [e for e in p.events if base_call(e, asks, me)]
        if not rep.ob(c, len(e1s) == 1, 'the underlying decision is asked '
                      f'{len(e1s)} times', path=p, rule='asked once'):
            continue
        e1 = e1s[0]
        rep.ob(c, [a.key for a in e1.args][-2:] == [OB.key, NAME.key] or
               len(e1.args) == 2, 'asked about something else', path=p,
               rule='wrong question')
        rest = [e for e in p.events if e is not e1 and e.raised is not None]
        if rest:
            continue        # repr() of the object or the log stream failed
        writes = [e for e in p.events if e.kind == 'call' and
                  func_key(e)[-1] == 'write' or e.kind == 'call' and
                  func_key(e)[0] == 'ext' and (
                      func_key(e)[1].endswith(('.write', '.print')))]
        x = e1.raised
        if x is None:
            cases.add('granted')
            rep.ob(c, p.kind == 'return', 'watching refuses what was granted',
                   path=p, rule='decision changed')
            rep.ob(c, not writes or v > 1, 'granted access reported at '
                   f'verbosity {v}', path=p, rule='verbosity')
            if v > 1 and m != 'proxy':
                rep.ob(c, bool(writes), 'granted access is not reported',
                       path=p, rule='verbosity')
            if m == 'proxy':
                rep.ob(c, p.value.key == e1.result.key, 'wraps differently',
                       path=p, rule='decision changed')
        else:
            un, fo = exc_is(p, x, UNAUTH), exc_is(p, x, FORBID)
            rep.ob(c, p.kind == 'raise', 'watching grants what was refused',
                   path=p, rule='decision changed')
            if p.kind == 'raise':
                rep.ob(c, same_exc(p, x), 'watching changes the error',
                       path=p, rule='error changed')
            if un is True or fo is True:
                cases.add('refused')
                rep.ob(c, bool(writes) == (v >= 1), 'refusal '
                       f'{"" if writes else "not "}reported at verbosity '
                       f'{v}', path=p, rule='verbosity')
                rep.ob(c, not writes or any(
                    mentions(a.key, NAME.key) and mentions(a.key, OB.key)
                    for e in writes for a in e.args), 'the report does not '
                    'say what was refused on what', path=p, rule='report')
            else:
                cases.add('error')
                rep.ob(c, not writes, 'an error is reported as a refusal',
                       path=p, rule='report')
    if m != 'proxy':
        complete(rep, c, cases, ['granted', 'refused'] if v else ['granted'])


# ------------------------------------------------------------- C10 / C11
VALUE = param('value')
REG = param('registry')
CKARG = param('asked')


def open_registry(w, run):
    """the registry may hold anything"""
    d = w.get('checker._checkers')
    if isinstance(d, Dict):
        run.touch(d)
        d.layers = [REG]
        return REG.key
    return d.key


CHECKERS = (CKPY, 'zope.security.checker.WatchingChecker',
            'zope.security._zope_security_checker.Checker')


class Selection:
    """What a path knows about the checker selected for VALUE."""

    def __init__(self, p, w, regkeys):
        self.p, self.w = p, w
        self.noproxy = w.get('checker.NoProxy')
        t = ('type', VALUE.key)
        self.typekeys = (t,)
        self.items = [('item', r, t) for r in regkeys]
        self.default = w.get('checker._defaultChecker')
        # chain of functions called with the value
        self.chain = []
        for r in self.items:
            k = r
            self.chain.append(k)
            n = 0
            while n < 8:
                nxt = [e for e in p.events if e.kind == 'call'
                       and func_key(e) == k and
                       [a.key for a in e.args] == [VALUE.key]]
                if not nxt:
                    break
                k = nxt[0].result.key
                self.chain.append(k)
                n += 1
        self.registered = None
        for r in regkeys:
            h = p.facts.get(('has', r, t))
            if h is not None:
                self.registered = h
        self.bad_calls = [
            e for e in p.events if e.kind == 'call' and
            any(k in self.chain for k in (func_key(e),)) and
            [a.key for a in e.args] != [VALUE.key]]

    def unproxied_reason(self):
        """the path knows the selected registration to be the no-proxy marker
        (or a function's answer None)"""
        for i, k in enumerate(self.chain):
            if is_fact(self.p, Sym(*k), self.noproxy) is True:
                return i == 0 or self.not_checker(i - 1)
            if i > 0 and self.p.is_const(Sym(*k), None) is True:
                return True
        return False

    def not_checker(self, i):
        return True

    def is_checker(self, key):
        """the chosen checker is the registered one or a function's answer,
        known to be a checker; or the default one"""
        if key == self.default.key:
            return self.registered is False
        if key not in self.chain:
            return False
        if self.registered is not True:
            return False
        k = Sym(*key)
        if is_fact(self.p, k, self.noproxy) is True:
            return False
        for ck in CHECKERS:
            if inst_fact(self.p, key, ck) is True:
                return True
        return False


def proxy_parts(v, w):
    """(object key, checker key) of a security proxy made on the path"""
    P = w.get('proxy.Proxy')
    if isinstance(v, Inst) and isinstance(P, Class) and v.cls is P or \
            isinstance(v, Inst) and isinstance(P, Class) and \
            isinstance(v.cls, Class) and P in w.run.mro(v.cls):
        return v
    return None


def made_proxy(p, v, w):
    """(object, checker) keys if v is a security proxy made on this path"""
    P = w.get('proxy.Proxy')
    if isinstance(v, Inst):
        if proxy_parts(v, w) is None:
            return None
        d = {}
        for e in p.events:
            if e.kind == 'slotset' and e.args[0].key == v.key:
                d[e.name] = e.args[1].key
        return d.get('_wrapped'), d.get('_checker')
    c = call_term(v)
    if c and c[0] == P.key and len(c[1]) == 2:
        return c[1]
    return None


def declared(p):
    """the value's own declared checker: (key, present?)"""
    k = ('attr', VALUE.key, '__Security_checker__')
    h = p.facts.get(('hasattr', VALUE.key, '__Security_checker__'))
    none = p.is_const(Sym(*k), None)
    if h is False or none is True:
        return k, False
    if h is True and none is False or h is None and none is False:
        return k, True
    return k, None


def is_proxy_fact(p, w, v=VALUE):
    P = w.get('proxy.Proxy')
    ck = p.run.class_key(P)
    return inst_fact(p, v.key, ck)


def wrap_oracle(rep, c, p, w, regkeys, proxied_ok=None):
    """C10: what Checker.proxy(value) may return on this path"""
    sel = Selection(p, w, regkeys)
    for e in p.events:
        if e.kind in ('op', 'setattr', 'delattr', 'setitem') and \
                direct(e, VALUE.key):
            rep.ob(c, False, f'does something to the value: {e!r}', path=p,
                   rule='value used')
    rep.ob(c, not sel.bad_calls, 'a registered function is called with '
           'something else than the value', path=p, rule='wrong argument')
    for e in p.events:
        if e.kind == 'call' and func_key(e) in sel.chain:
            k = func_key(e)
            rep.ob(c, any(inst_fact(p, k, ck) is False for ck in CHECKERS),
                   'a registration that may be a checker is called',
                   path=p, rule='checker called')
    if p.kind != 'return':
        r = raised_by(p)
        rep.ob(c, exc_class(p) == 'opaque' or r is not None,
               f'raises {p.value!r}', path=p, rule='unexpected error')
        return 'error'
    dkey, dhas = declared(p)
    made = made_proxy(p, p.value, w)
    isp = is_proxy_fact(p, w)
    if made is not None:
        rep.ob(c, made[0] == VALUE.key, 'something else than the value is '
               'wrapped', path=p, rule='wrong value wrapped')
        rep.ob(c, isp is False, 'a value that may already be a proxy is '
               'wrapped again', path=p, rule='proxy stacked')
        if made[1] == dkey:
            rep.ob(c, dhas is True, 'wrapped with a declared checker that '
                   'may be missing or None', path=p, rule='wrong checker')
            return 'declared'
        rep.ob(c, dhas is False, 'the declared checker is not used',
               path=p, rule='wrong checker')
        rep.ob(c, sel.is_checker(made[1]), 'wrapped with a checker that is '
               f'not the one selected: {show(made[1])}', path=p,
               rule='wrong checker')
        return 'default' if made[1] == sel.default.key else 'registered'
    if p.value.key == VALUE.key:
        if isp is True:
            return 'proxy'
        rep.ob(c, dhas is False, 'a value with a declared checker is '
               'returned bare', path=p, rule='unprotected value')
        rep.ob(c, sel.unproxied_reason(), 'the bare value is returned '
               'although no no-proxy registration is known', path=p,
               rule='unprotected value')
        return 'bare'
    rep.ob(c, False, f'returns something else: {p.value!r}', path=p,
           rule='wrong result')
    return 'other'


@rule('C10', 'python wrapping',
      'every path of CheckerPy.proxy and selectCheckerPy for any value and '
      'any registry contents: proxies pass, the declared checker comes '
      'first, then the one registered for the exact type, then the default; '
      'bare only with the no-proxy marker')
def c10(ctx, rep):
    w = ctx.world('pure')

    def thunk(run):
        run.info_reg = open_registry(w, run)
        o = mk_checker(w)
        return run.call(run.getattr_(o, 'proxy'), [VALUE], {})
    cats = set()
    c = 'CheckerPy.proxy'
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        cats.add(wrap_oracle(rep, c, p, w, [p.run.info_reg]))
    complete(rep, c, cats, ['proxy', 'declared', 'registered', 'default',
                            'bare'])
    rep.floor('paths', 7)


@rule('C10', 'python selection',
      'every path of selectCheckerPy')
def c10_select(ctx, rep):
    for config in ('pure', 'noext'):
        w = ctx.world(config)
        f = w.get('checker.selectCheckerPy')

        def thunk(run):
            run.info_reg = open_registry(w, run)
            return run.call(f, [VALUE], {})
        c = f'selectCheckerPy ({config})'
        cats = set()
        for p in live(w.explore(thunk, K=ctx.K)):
            rep.count('paths')
            sel = Selection(p, w, [p.run.info_reg])
            rep.ob(c, not sel.bad_calls, 'wrong argument', path=p,
                   rule='wrong argument')
            if p.kind != 'return':
                continue
            if p.is_const(p.value, None):
                cats.add('none')
                rep.ob(c, sel.unproxied_reason(), 'selects no checker '
                       'without a no-proxy registration', path=p,
                       rule='unprotected value')
            else:
                cats.add('checker')
                rep.ob(c, sel.is_checker(p.value.key), 'selects '
                       f'{p.value!r}', path=p, rule='wrong checker')
        complete(rep, c, cats, ['none', 'checker'])


@rule('C11', 'ProxyFactory',
      'every path of ProxyFactory for proxies and other objects, with and '
      'without a requested checker, in both implementations')
def c11(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        f = w.get('checker.ProxyFactory')
        for args in ([VALUE], [VALUE, CKARG]):
            def thunk(run):
                run.info_reg = open_registry(w, run)
                return run.call(f, list(args), {})
            c = f'ProxyFactory/{len(args)} ({config})'
            cats = set()
            for p in live(w.explore(thunk, K=ctx.K)):
                rep.count('paths')
                cats.add(factory_oracle(rep, c, p, w, len(args) == 2))
            complete(rep, c, cats, ['same proxy', 'declared', 'selected',
                                    'bare'] + (
                ['refused', 'requested'] if len(args) == 2 else []))
    rep.floor('paths', 20)


def factory_oracle(rep, c, p, w, has_arg):
    isp = is_proxy_fact(p, w)
    asked = None if not has_arg else p.is_const(CKARG, None) is False
    noasked = not has_arg or p.is_const(CKARG, None) is True
    own = [e.result for e in p.events if e.kind == 'call' and
           func_key(e) == ('ext', 'zope.security._proxy.getChecker')]
    ownkeys = [o.key for o in own] + [('attr', VALUE.key, '_checker'),
                                      ('slot', VALUE.key, '_checker')]
    for e in p.events:
        for k in e.args:
            t = k.key
            if isinstance(t, tuple) and '_checker' in t:
                ownkeys.append(t)
    owncheck = None
    for k in ownkeys:
        r = is_fact(p, CKARG, Sym(*k)) if isinstance(k, tuple) else None
        if r is not None:
            owncheck = r
    for a, v in p.facts.items():
        if a[0] == 'is' and CKARG.key in a[1:]:
            o = a[1] if a[2] == CKARG.key else a[2]
            if mentions(o, VALUE.key) and '__Security_checker__' not in \
                    repr(o):
                owncheck = v
    made = made_proxy(p, p.value, w)
    dkey, dhas = declared(p)
    if p.kind == 'raise':
        if exc_class(p) == 'builtins.TypeError' and isp is True:
            rep.ob(c, asked is True and owncheck is False, 'refuses a proxy '
                   'although no other checker is asked for', path=p,
                   rule='wrong refusal')
            return 'refused'
        rep.ob(c, exc_class(p) == 'opaque' or raised_by(p) is not None or
               isp is not True, f'raises {p.value!r}', path=p,
               rule='unexpected error')
        return 'error'
    if isp is True:
        ok = p.value.key == VALUE.key and (noasked or owncheck is True)
        rep.ob(c, ok, 'a proxy must be returned unchanged, and only if no '
               'other checker is asked for', path=p, rule='proxy changed')
        return 'same proxy'
    rep.ob(c, isp is False, 'decides without knowing whether the object is '
           'a proxy', path=p, rule='proxy stacked')
    if made is not None:
        rep.ob(c, made[0] == VALUE.key, 'wraps something else', path=p,
               rule='wrong value wrapped')
        k = made[1]
        if k == CKARG.key:
            rep.ob(c, asked is True, 'wraps with None', path=p,
                   rule='wrong checker')
            return 'requested'
        rep.ob(c, noasked, 'the requested checker is not used', path=p,
               rule='wrong checker')
        if k == dkey:
            rep.ob(c, dhas is True, 'declared checker may be None', path=p,
                   rule='wrong checker')
            return 'declared'
        rep.ob(c, dhas is False, 'the declared checker is not used', path=p,
               rule='wrong checker')
        rep.ob(c, selected_ok(p, w, k), f'wraps with {show(k)}', path=p,
               rule='wrong checker')
        return 'selected'
    if p.value.key == VALUE.key:
        rep.ob(c, noasked and dhas is False and selected_none(p, w),
               'returns the bare object although a checker was given, '
               'declared or selected', path=p, rule='unprotected object')
        return 'bare'
    rep.ob(c, False, f'returns {p.value!r}', path=p, rule='wrong result')


CSELECT = ('ext', 'zope.security._zope_security_checker.selectChecker')


def selected_ok(p, w, k):
    if w.c_ext:
        r = [e for e in p.events if func_key(e) == CSELECT and
             [a.key for a in e.args] == [VALUE.key]]
        return bool(r) and k == r[0].result.key and \
            p.is_const(r[0].result, None) is False
    return Selection(p, w, [p.run.info_reg]).is_checker(k)


def selected_none(p, w):
    if w.c_ext:
        r = [e for e in p.events if func_key(e) == CSELECT and
             [a.key for a in e.args] == [VALUE.key]]
        return bool(r) and p.is_const(r[0].result, None) is True
    return Selection(p, w, [p.run.info_reg]).unproxied_reason()


# ------------------------------------------------------------------- C12
@rule('C12', 'canAccess and canWrite',
      'every path of canAccess and canWrite, the decisions of the object\'s '
      'checker being opaque and raising any error')
def c12(ctx, rep):
    from .proxy_py import make
    w = ctx.world('pure')
    for fname in ('canAccess', 'canWrite'):
        f = w.get('checker.' + fname)
        for what in ('proxy', 'object'):
            def thunk(run):
                if what == 'proxy':
                    o = make(w)
                else:
                    open_registry(w, run)
                    o = VALUE
                run.info_obj = o
                return run.call(f, [o, NAME], {})
            cats = set()
            c = f'{fname}({what})'
            rep.count('functions')
            for p in live(w.explore(thunk, K=ctx.K)):
                rep.count('paths')
                can_oracle(rep, c, p, fname, what, cats, w)
            complete(rep, c, cats, ['yes', 'no', 'error'])
    rep.floor('functions', 4)


def can_oracle(rep, c, p, fname, what, cats, w):
    objkey = OBJ.key if what == 'proxy' else VALUE.key
    asks = [e for e in p.events if e.kind == 'call' and
            func_key(e)[0] == 'attr' and func_key(e)[2] in (
                'check', 'check_getattr', 'check_setattr')]
    inl = [e for e in p.events if e.kind == 'getattr' and
           e.args[0].key == objkey and e.name not in (
               '__Security_checker__', '__class__')]
    touched = [e for e in p.events if e.kind in (
        'setattr', 'delattr', 'op') and e.args[0].key == objkey and
        e.name != '__bool__']
    if what == 'proxy':
        rep.ob(c, not inl and not touched, 'performs an access itself: '
               f'{(inl + touched)!r}', path=p, rule='access performed')
        rep.ob(c, all(func_key(e)[1] == CHK.key for e in asks),
               'asks another checker', path=p, rule='wrong checker')
    elif not asks:
        # decided by an analysed checker (e.g. the default one), or failing
        rep.ob(c, p.kind == 'raise' or not isinstance(p.value, Const) or
               True, path=p)
        if p.kind == 'raise':
            cats.add('error')
        elif p.is_const(p.value, True):
            # granted by the inlined default checker
            cats.add('yes')
        else:
            cats.add('no')
        return
    for e in asks:
        ks = [a.key for a in e.args]
        good = len(ks) == 2 and ks[1] == NAME.key and (
            ks[0] in (objkey, p.run.info_obj.key) or ks[0][0] == 'obj')
        rep.ob(c, good, f'asks about something else: {e!r}', path=p,
               rule='wrong question')
    own = [e for e in p.events if e.raised is not None and e not in asks]
    if own and own[0].kind == 'getattr' and own[0].name in (
            'check', 'check_getattr', 'check_setattr'):
        return          # a checker without decision methods
    if own:
        cats.add('error')
        rep.ob(c, same_exc(p, own[0].raised) or p.kind == 'return' and
               own[0].kind == 'getattr', 'swallows an error', path=p,
               rule='error swallowed')
        return
    sets = [e for e in asks if func_key(e)[2] == 'check_setattr']
    gets = [e for e in asks if func_key(e)[2] != 'check_setattr']
    if fname == 'canAccess':
        if not rep.ob(c, len(gets) == 1 and not sets, 'does not ask exactly '
                      'one read decision', path=p, rule='wrong question'):
            return
        x = gets[0].raised
        expect = 'yes' if x is None else (
            'no' if exc_is(p, x, UNAUTH) is True else ('error', x))
    else:
        if not rep.ob(c, len(sets) == 1 and len(gets) <= 1, 'does not ask '
                      'exactly one write decision', path=p,
                      rule='wrong question'):
            return
        x = sets[0].raised
        if x is None:
            expect = 'yes'
            rep.ob(c, not gets, 'needless question', path=p,
                   rule='wrong question')
        elif exc_is(p, x, UNAUTH) is True:
            expect = 'no'
        elif exc_is(p, x, FORBID) is True:
            if not rep.ob(c, len(gets) == 1, 'setting is forbidden but '
                          'reading is not asked', path=p,
                          rule='wrong question'):
                return
            y = gets[0].raised
            expect = 'no' if y is None or exc_is(p, y, UNAUTH) is True \
                else ('error', y)
            if y is not None and exc_is(p, y, FORBID) is True and \
                    exc_is(p, y, UNAUTH) is not True and \
                    exc_class(p) == FORBID:
                expect = ('error', p.value)
        else:
            expect = ('error', x)
    if expect == 'yes':
        ok = p.kind == 'return' and p.is_const(p.value, True) is True
    elif expect == 'no':
        ok = p.kind == 'return' and p.is_const(p.value, False) is True
    else:
        ok = same_exc(p, expect[1])
    cats.add(expect if isinstance(expect, str) else 'error')
    rep.ob(c, ok, f'answers {p.kind} {p.value!r} where '
           f'{expect if isinstance(expect, str) else "that error"} is right',
           path=p, rule='wrong answer')
