"""C06, C07, C10 and the C parts of C14, C33, C35 for the C checker."""
from ..core import rule
from ..cai import Ptr, NONE
from ..centries import S, getset_rows, func_of
from .checkers import AVAILABLE
from ..cspec import same, is_str, bound, succeeded, fails_with

MOD = '_zope_security_checker'
PUBLIC = ('import', 'zope.security.checker', 'CheckerPublic')
TLS = ('import', 'zope.security._definitions', 'thread_local')
UNAUTH = ('import', 'zope.security.interfaces', 'Unauthorized')
FORBID = ('import', 'zope.security.interfaces', 'ForbiddenAttribute')
PROXY = ('import', 'zope.security._proxy', '_Proxy')
ATTRERR = ('ext', 'AttributeError')
EXC = ('ext', 'Exception')
ARG = ('param', 'arg')
KEY = ('param', 'key')
VALUE = ('param', 'value')
SHORTEST = min(len(n) for n in AVAILABLE)
HARMLESS = {'decref', 'build', 'parse', 'seterr', 'store', 'textlen',
            'readchar', 'textcompare', 'tailmatch', 'utf8',
            'strcmp', 'typecheck', 'bool'}


class Checker:
    """the C checker type as the module's initialisation leaves it"""

    def __init__(self, ctx):
        self.A = ctx.centries(MOD)
        self.m = self.A.m
        x = self.m.exports
        self.type = x.get('Checker')
        self.g = self.type[1] if self.type and self.type[0] == 'global' \
            else None
        self.avail = x.get('_available_by_default')
        self.registry = x.get('_checkers')
        self.noproxy = x.get('NoProxy')
        self.default = x.get('_defaultChecker')
        self.es = {e.name: e for e in self.A.entries if e.type == self.g
                   and self.g is not None}
        self.select = next((e for e in self.A.entries
                            if e.name == 'selectChecker()'), None)
        # where instances keep the tables
        self.get = self.set = None
        e = self.es.get('tp_init')
        for p in self.A.paths(e) if e else ():
            for ev in p.events:
                if ev.kind == 'store' and same(p, ev.args[0], S):
                    if ev.args[1] in (('arg', 'get_permissions'), ('arg', 0)):
                        self.get = ev.name
                    if ev.args[1] in (('arg', 'set_permissions'), ('arg', 1)):
                        self.set = ev.name

    def methods(self, *names):
        return [self.es[n + '()'] for n in names if n + '()' in self.es]


def checker(ctx, rep):
    X = Checker(ctx)
    rep.ob('C module', X.g is not None, 'exports no Checker type',
           where=X.m.rel, rule='no checker type')
    return X


def calls_method(p, ev, name):
    """(receiver, arguments) of a call of the named method"""
    if ev.kind == 'callmethod' and is_str(p, ev.name, name):
        return ev.args[0], list(ev.args[1:])
    if ev.kind == 'call' and ev.args:
        b = bound(p, ev.args[0])
        if b and b[1] == name:
            return b[0], list(ev.args[1:])
    return None


class Decision:
    """what a path found out about a question (object, name)"""

    def __init__(self, X, p, ob, name, off, rep, c):
        self.X, self.p, self.ob, self.name = X, p, ob, name
        self.rep, self.c = rep, c
        self.table = ('field', S, off)
        self.recorded = None
        self.perm = None
        self.lookups = []
        wrong = ('field', S, X.set if off == X.get else X.get)
        for ev in p.events:
            if ev.kind in ('dictget', 'contains', 'getitem') and \
                    same(p, ev.args[0], wrong):
                self.bad('consults the other permission table', ev)
            if ev.kind == 'dictget' and same(p, ev.args[0], self.table):
                self.lookups.append(ev)
                if not same(p, ev.args[1], name):
                    self.bad('looks up another name', ev)
                if ev.name == 'quiet':
                    self.bad('swallows the errors of looking up the name',
                             ev)
                if ev.ok:
                    self.perm = ev.res
                    none = p.same(ev.res, NONE)
                    self.recorded = None if none is None else not none
                elif ev.extra == 'absent':
                    self.recorded = False
        if not self.lookups and p.facts.get(('null', self.table)):
            self.recorded = False
        if len(self.lookups) > 1:
            self.bad('looks the name up twice', self.lookups[1])
        self.public = p.same(self.perm, PUBLIC) if self.perm else None
        if self.recorded is False:
            self.public = False

    def bad(self, text, ev=None):
        self.rep.ob(self.c, False, text + (f': {ev!r}' if ev else ''),
                    path=self.p, rule=text)

    def consults(self):
        """(event, answered) of questions to interactions"""
        p = self.p
        n = 0
        for i, ev in enumerate(p.events):
            m = calls_method(p, ev, 'checkPermission')
            if m is None:
                continue
            n += 1
            if n == 2:
                self.bad('asks the interaction twice about one access', ev)
            recv, args = m
            src = [x for x in p.events[:i] if x.kind == 'getattr' and x.ok
                   and x.res is not None and same(p, x.res, recv)]
            if not src or not same(p, src[-1].args[0], TLS) or \
                    not is_str(p, src[-1].args[1], 'interaction'):
                self.bad('asks something else than the current interaction '
                         'of this thread', ev)
            if len(args) != 2 or not same(p, args[0], self.perm) or \
                    not same(p, args[1], self.ob):
                self.bad('asks the interaction something else than exactly '
                         '(permission, object)', ev)
            if self.recorded is not True:
                self.bad('consults the interaction without a recorded '
                         'permission', ev)
            if self.public is not False:
                self.bad('consults the interaction although the permission '
                         'may be the public marker', ev)
            yield ev

    # -- the name
    def isstr(self):
        p = self.p
        r = p.rep(self.name)
        if isinstance(r, tuple) and r[0] == 'str':
            return True
        return p.facts.get(('inst', r, ('ext', 'str')))

    def text(self):
        r = self.p.rep(self.name)
        return r[1] if isinstance(r, tuple) and r[0] == 'str' else None

    def special(self):
        """does the name start with two underscores"""
        p, run = self.p, self.p.run
        if self.isstr() is False:
            return False
        t = self.text()
        if t is not None:
            return t.startswith('__')
        r = p.rep(self.name)
        lo, hi, ex = run.rng(('textlen', r))
        if hi < 2:
            return False
        if hi < SHORTEST:
            return None
        yes = lo >= 2
        for i in (0, 1):
            lo, hi, ex = run.rng(('char', r, i))
            if hi < 95 or lo > 95 or 95 in ex:
                return False
            yes = yes and lo == hi == 95
        for k, v in p.facts.items():
            if k[0] == 'tailmatch' and k[1] == self.name and \
                    k[2] == ('str', '__'):
                return v
        return True if yes else None

    def is_iter(self):
        p = self.p
        t = self.text()
        if t is not None:
            return t == '__iter__'
        lo, hi, ex = p.run.rng(('texteq', p.rep(self.name), '__iter__'))
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0 or 0 in ex:
            return False
        if self.special() is False:
            return False
        lo, hi, ex = p.run.rng(('textlen', p.rep(self.name)))
        return False if hi < 8 else None

    def available(self):
        p = self.p
        for ev in p.events:
            if ev.kind == 'contains' and same(p, ev.args[0], self.X.avail) \
                    and ev.ok:
                if not same(p, ev.args[1], self.name):
                    self.bad('looks for another name among the '
                             'always-available ones', ev)
                return ev.res == ('int', 1)
        if self.special() is False:
            return False
        lo, hi, ex = p.run.rng(('textlen', p.rep(self.name)))
        return False if hi < SHORTEST else None

    def names_iter(self, k):
        return is_str(self.p, k, '__iter__') or \
            same(self.p, k, self.name) and self.is_iter() is True

    def has_iter(self):
        p = self.p
        for ev in p.events:
            if ev.kind == 'hasattr' and same(p, ev.args[0], self.ob) and \
                    self.names_iter(ev.args[1]) and ev.ok:
                if ev.name == 'quiet':
                    self.bad('swallows the errors of looking for the '
                             'attribute', ev)
                return ev.res == ('int', 1)
            if ev.kind == 'getattr' and same(p, ev.args[0], self.ob) and \
                    self.names_iter(ev.args[1]):
                if ev.ok:
                    return True
                if self.absent(ev):
                    return False
        return None

    def absent(self, ev):
        """the attribute is missing, not failing"""
        if ev.extra == 'absent':
            return True
        return ev.err is not None and \
            self.p.facts.get(('errmatch', ev.err, ATTRERR)) is True

    def asks_iter(self, ev):
        return ev.kind in ('hasattr', 'getattr') and \
            self.names_iter(ev.args[1])


def decide(rep, X, e, ob, name, off, reading):
    c = f'C {e.label}'
    for p in X.A.paths(e):
        if p.kind != 'return':
            continue
        judge(rep, c, Decision(X, p, ob, name, off, rep, c), reading)


def judge(rep, c, d, reading):
    p = d.p
    granted = succeeded(p)
    failed = None
    consults = list(d.consults())
    answer = None
    for ev in p.events:
        if ev.kind in ('truth', 'not') and ev.ok and consults and \
                same(p, ev.args[0], consults[-1].res):
            answer = ev.res == ('int', int(ev.kind == 'truth'))
        if ev.kind == 'intvalue' and consults:
            answer = None
        mine = any(same(p, a, d.ob) for a in ev.args)
        if mine and ev not in consults and ev.kind not in HARMLESS and \
                not (reading and d.asks_iter(ev)):
            d.bad('uses the object while deciding', ev)
        if not ev.ok and ev.extra != 'absent' and ev.err is not None and \
                not (ev.kind == 'getattr' and same(p, ev.args[0], d.ob) and
                     d.absent(ev)):
            failed = ev
            break
    if failed is not None:
        rep.ob(c, fails_with(p, failed), 'the error of an operation is '
               f'lost while deciding: {failed!r}', path=p,
               rule='error swallowed')
        if reading and failed.kind == 'getattr' and d.asks_iter(failed) and \
                same(p, failed.args[0], d.ob):
            rep.ob(c, p.facts.get(('errmatch', failed.err, ATTRERR)) is
                   False, 'does not find out whether the object just has no '
                   '__iter__', path=p, rule='unjustified refusal')
        return
    for ev in consults:
        asked = any(x.kind in ('truth', 'not') and same(p, x.args[0], ev.res)
                    for x in p.events) or p.same(ev.res, NONE) is not None
        rep.ob(c, asked, f'the truth of the answer is not asked for: {ev!r}',
               path=p, rule='answer ignored')
    if p.facts.get(('null', d.name)):
        rep.ob(c, not granted, 'grants without a name', path=p,
               rule='grant without a name')
        return
    public = d.recorded is True and d.public is True
    allowed = d.recorded is True and d.public is False and answer is True
    avail = d.available() if reading else False
    it = d.is_iter() if reading else False
    has = d.has_iter() if it is not False else None
    free = d.recorded is False and avail is True
    noiter = d.recorded is False and it is True and has is False
    if granted:
        rep.ob(c, public or allowed or free or noiter,
               'grants although no permission, interaction or exception '
               f'justifies it (recorded: {d.recorded}, public: {d.public}, '
               f'answer: {answer}, always available: {avail})', path=p,
               rule='unjustified grant')
        return
    rep.ob(c, not (public or allowed or free or noiter),
           'refuses although access is due', path=p,
           rule='unjustified refusal')
    if d.recorded is True:
        want = (UNAUTH, (d.ob, d.name, d.perm))
        ok = d.public is False and answer is False
        rep.ob(c, ok, 'refuses a recorded permission without asking the '
               'interaction', path=p, rule='unjustified refusal')
    else:
        want = (FORBID, (d.name, d.ob))
        rep.ob(c, d.recorded is False, 'refuses without looking up the '
               'recorded permission', path=p, rule='unjustified refusal')
        if reading:
            rep.ob(c, avail is False, 'forbids a name that may be always '
                   'available', path=p, rule='unjustified refusal')
            rep.ob(c, it is False or has is True, 'forbids __iter__ '
                   'although the object may not have it', path=p,
                   rule='unjustified refusal')
    err = p.err
    ok = err is not None and err[0] == 'exc' and same(p, err[1], want[0]) \
        and len(err[2]) == len(want[1]) and \
        all(same(p, a, b) for a, b in zip(err[2], want[1]))
    rep.ob(c, ok, f'the refusal is {err} and not {want[0][2]} with '
           f'{len(want[1])} details', path=p, rule='wrong error')


def permission_id(rep, X, e, off):
    c = f'C {e.label}'
    table = ('field', S, off)
    for p in X.A.paths(e):
        if p.kind != 'return':
            continue
        d = Decision(X, p, None, ARG, off, rep, c)
        failed = [ev for ev in p.events if not ev.ok and ev.err is not None
                  and ev.extra != 'absent']
        if failed:
            rep.ob(c, fails_with(p, failed[0]), 'an error is lost: '
                   f'{failed[0]!r}', path=p, rule='error swallowed')
            continue
        k = p.key()
        got = [ev for ev in d.lookups if ev.ok]
        want = got[0].res if got else NONE
        known = bool(d.lookups) or p.facts.get(('null', table))
        rep.ob(c, known and k is not None and same(p, k, want),
               'does not answer the permission recorded for the name',
               path=p, rule='wrong permission reported')


def table_property(rep, X, name, off):
    """the tables are those given, and cannot be replaced"""
    slots = X.m.type_slots(X.g)
    rows = [r for r in getset_rows(X.m, slots.get('tp_getset'))
            if r.get('name') == name]
    c = f'C Checker.{name}'
    field = ('field', S, off)
    e = X.es.get(name + ' get')
    rep.ob(c, bool(rows) and e is not None, 'no such property',
           where=X.m.rel, rule='no table property')
    if not rows or e is None:
        return
    rep.ob(c, all(func_of(r.get('set')) is None for r in rows),
           'the table can be replaced', where=X.m.rel,
           rule='table can be replaced')
    for p in X.A.paths(e):
        if p.kind != 'return':
            continue
        failed = [ev for ev in p.events if not ev.ok and ev.err is not None]
        k = p.key()
        if failed or k is None:
            rep.ob(c, k is None, 'an error is lost', path=p,
                   rule='error swallowed')
            continue
        if p.facts.get(('null', field)):
            made = [ev for ev in p.events if ev.kind == 'newdict' and ev.ok]
            kept = [ev for ev in p.events if ev.kind == 'store' and
                    same(p, ev.args[0], S) and ev.name == off]
            ok = made and same(p, k, made[0].res) and \
                kept and same(p, kept[-1].args[1], k)
            rep.ob(c, bool(ok), 'answers something else than the (empty) '
                   'table, which it keeps', path=p, rule='wrong table')
        else:
            rep.ob(c, same(p, k, field), 'answers another table', path=p,
                   rule='wrong table')


def construction(rep, X):
    """tp_init stores exactly the tables given; nothing else sets them"""
    c = 'C Checker.__init__'
    e = X.es.get('tp_init')
    rep.ob(c, X.get is not None and X.set is not None and X.get != X.set,
           'the tables given to the constructor are not kept',
           where=X.m.rel, rule='table not kept')
    for p in X.A.paths(e) if e else ():
        if p.kind != 'return' or not succeeded(p):
            continue
        given = {}
        for ev in p.events:
            if ev.kind == 'store' and same(p, ev.args[0], S):
                given[ev.name] = ev.args[1]
        rep.ob(c, given.get(X.get) in (('arg', 'get_permissions'),
                                       ('arg', 0)),
               'keeps something else as the read table', path=p,
               rule='table not kept')
        s = given.get(X.set)
        has = p.facts.get(('given', 'set_permissions'))
        own = s in (('arg', 'set_permissions'), ('arg', 1))
        empty = s is None or any(ev.kind == 'newdict' and ev.res == s
                                 for ev in p.events)
        rep.ob(c, X.set in given and (own if has or has is None and not
                                      empty else empty),
               'keeps something else as the write table', path=p,
               rule='table not kept')
    for x in X.A.entries:
        if x.type != X.g or x.name in ('tp_init', 'tp_new'):
            continue
        for combo, p in X.A.all_paths(x):
            for ev in p.events:
                if ev.kind != 'store' or not same(p, ev.args[0], S) or \
                        ev.name not in (X.get, X.set):
                    continue
                v = ev.args[1]
                rep.ob(f'C {x.label}', v is None and
                       x.name in ('tp_clear', 'tp_dealloc') or
                       any(y.kind == 'newdict' and y.res == v
                           for y in p.events) and
                       p.facts.get(('null', ('field', S, ev.name))),
                       f'replaces a permission table: {ev!r}', path=p,
                       rule='table replaced')


@rule('C06', 'C checker reads',
      'the methods check and check_getattr and the assignment slot of the C '
      'checker, all paths of their LLVM IR: judged by the decision table of '
      'the property from what the path established about the recorded '
      'permission, the interaction\'s answer and the name')
def c06(ctx, rep):
    X = checker(ctx, rep)
    if X.g is None:
        return
    construction(rep, X)
    if X.get is None or X.set is None:
        return
    for n in ('check', 'check_getattr', 'permission_id'):
        rep.ob(f'C Checker.{n}', n + '()' in X.es, 'no such method',
               where=X.m.rel, rule='method missing')
    for e in X.methods('check', 'check_getattr'):
        rep.count('C entry points')
        decide(rep, X, e, ('arg', 0), ('arg', 1), X.get, True)
    e = X.es.get('mp_ass_subscript')
    if e is not None:
        rep.count('C entry points')
        decide(rep, X, e, KEY, VALUE, X.get, True)
    for e in X.methods('permission_id'):
        permission_id(rep, X, e, X.get)
    table_property(rep, X, 'get_permissions', X.get)


@rule('C07', 'C checker writes',
      'check_setattr of the C checker, all paths, likewise, with the write '
      'table only')
def c07(ctx, rep):
    X = checker(ctx, rep)
    if X.g is None:
        return
    construction(rep, X)
    if X.get is None or X.set is None:
        return
    for n in ('check_setattr', 'setattr_permission_id'):
        rep.ob(f'C Checker.{n}', n + '()' in X.es, 'no such method',
               where=X.m.rel, rule='method missing')
    for e in X.methods('check_setattr'):
        rep.count('C entry points')
        decide(rep, X, e, ('arg', 0), ('arg', 1), X.set, False)
    for e in X.methods('setattr_permission_id'):
        permission_id(rep, X, e, X.set)
    table_property(rep, X, 'set_permissions', X.set)


# ---- wrapping
def instance(p, ob, typ):
    r = p.facts.get(('inst', p.rep(ob), typ))
    if r is None:
        r = p.facts.get(('inst', ob, typ))
    for ev in p.events:
        if ev.kind in ('typecheck', 'isinstance') and len(ev.args) > 1 and \
                same(p, ev.args[0], ob) and same(p, ev.args[1], typ) and \
                ev.ok and isinstance(ev.res, tuple) and ev.res[0] == 'int':
            r = ev.res[1] == 1
    return r


class Outcome:
    """how the checker for value V comes out on a path: kind is 'bare',
    'checker' (with value k), 'error' (the event), or 'open'"""

    def __init__(self, X, p, V, rep, c):
        self.X, self.p, self.V = X, p, V
        self.kind, self.k = 'open', None
        self.used = []
        start = None
        for ev in p.events:
            if ev.kind == 'dictget' and same(p, ev.args[0], X.registry):
                self.used.append(ev)
                start = ev
        if start is None:
            return
        ty = start.args[1]
        rep.ob(c, ty == ('type', V) or ty == ('type', p.rep(V)),
               f'looks the checker up for something else than the exact '
               f'type of the value: {start!r}', path=p,
               rule='wrong registration')
        rep.ob(c, start.name != 'quiet', 'swallows the errors of looking '
               'the type up', path=p, rule='error swallowed')
        if not start.ok and start.extra != 'absent':
            self.kind, self.k = 'error', start
            return
        cur = start.res if start.ok else X.default
        if same(p, cur, X.noproxy):
            self.kind = 'bare'
            return
        if same(p, cur, X.default):
            for ev in p.events:
                if ev.kind == 'isinstance' and same(p, ev.args[0], V) and \
                        same(p, ev.args[1], EXC):
                    self.used.append(ev)
                    if not ev.ok:
                        self.kind, self.k = 'error', ev
                        return
            exc = instance(p, V, EXC)
            if exc:
                self.kind = 'bare'
                return
            rep.ob(c, exc is False or p.kind != 'return' or p.key() is None,
                   'whether a value without a registration is an exception '
                   'is not asked', path=p, rule='exceptions wrapped')
        first = True
        for n in range(20):
            if not first:
                if same(p, cur, X.noproxy) or same(p, cur, NONE):
                    self.kind = 'bare'
                    return
            t = instance(p, cur, X.type)
            if not first and t is not True and (
                    p.same(cur, X.noproxy) is not False or
                    p.same(cur, NONE) is not False) and any(
                        ev.kind == 'call' and ev.args and
                        same(p, ev.args[0], cur) for ev in p.events):
                rep.ob(c, False, 'what a registered function answers is '
                       'called although it may be None or the no-proxy '
                       'marker', path=p, rule='marker not recognised')
            if t is True or t is None and first and same(p, cur, X.default):
                self.kind, self.k = 'checker', cur
                return
            call = [ev for ev in p.events if ev.kind == 'call' and
                    len(ev.args) == 2 and same(p, ev.args[0], cur) and
                    same(p, ev.args[1], V)]
            if not call:
                if t is None:
                    self.kind, self.k = 'unchecked', cur
                return
            self.used.append(call[0])
            if t is None:
                self.kind, self.k = 'unchecked', cur
                return
            if not call[0].ok:
                self.kind, self.k = 'error', call[0]
                return
            cur = call[0].res
            first = False


def judge_select(rep, c, X, p, V):
    o = Outcome(X, p, V, rep, c)
    k = p.key()
    if p.kind != 'return':
        return
    if o.kind == 'error':
        rep.ob(c, k is None and p.err == o.k.err, 'an error is lost while '
               'selecting a checker', path=p, rule='error swallowed')
    elif o.kind == 'bare':
        rep.ob(c, k is not None and same(p, k, NONE), 'no checker is due '
               'but one is answered', path=p, rule='wrong selection')
    elif o.kind == 'checker':
        rep.ob(c, k is not None and same(p, k, o.k), 'another checker than '
               'the selected one is answered', path=p,
               rule='wrong selection')
    elif k is not None:
        rep.ob(c, False, 'answers without having found a checker', path=p,
               rule='wrong selection')
    else:
        rep.ob(c, any(not ev.ok for ev in p.events), 'fails without cause',
               path=p, rule='wrong selection')


def is_proxy(p, V):
    for t in (('type', V), ('type', p.rep(V))):
        r = p.same(t, PROXY)
        if r is not None:
            return r
    return instance(p, V, PROXY)


def judge_proxy(rep, c, X, p, V):
    if p.kind != 'return':
        return
    k = p.key()
    pr = is_proxy(p, V)
    if pr is True:
        rep.ob(c, k is not None and same(p, k, V), 'a value that is a '
               'security proxy already is not returned as it is', path=p,
               rule='proxy wrapped again')
        return
    rep.ob(c, pr is False or k is None, 'whether the value is a security '
           'proxy already is not asked', path=p, rule='proxy wrapped again')
    own = None
    for ev in p.events:
        if ev.kind == 'getattr' and same(p, ev.args[0], V):
            if is_str(p, ev.args[1], '__Security_checker__'):
                own = ev
            else:
                rep.ob(c, False, f'reads something of the value: {ev!r}',
                       path=p, rule='value used')
    if own is None:
        rep.ob(c, k is None, 'the value\'s own checker is not asked for',
               path=p, rule='own checker ignored')
        return
    wants = None
    d = Decision.absent
    if own.ok:
        if p.same(own.res, NONE) is not True:
            rep.ob(c, not any(ev.kind == 'dictget' for ev in p.events),
                   'a registered checker is looked for although the value '
                   'has its own', path=p, rule='own checker ignored')
            wants = own.res
        elif not any(ev.kind == 'dictget' for ev in p.events):
            rep.ob(c, k is None, 'a value declaring None is let through',
                   path=p, rule='raw value')
            return
    elif not (own.extra == 'absent' or own.err is not None and
              p.facts.get(('errmatch', own.err, ATTRERR)) is True):
        rep.ob(c, k is None and p.err == own.err, 'the error of the value\'s '
               'own checker is lost', path=p, rule='error swallowed')
        return
    if wants is None:
        o = Outcome(X, p, V, rep, c)
        if o.kind == 'error':
            rep.ob(c, k is None and p.err == o.k.err, 'an error is lost '
                   'while selecting a checker', path=p,
                   rule='error swallowed')
            return
        if o.kind == 'bare':
            rep.ob(c, k is not None and same(p, k, V), 'a value that needs '
                   'no proxy is not returned as it is', path=p,
                   rule='wrong wrapping')
            return
        if o.kind != 'checker':
            rep.ob(c, k is None, 'the value leaves without a checker having '
                   'been found', path=p, rule='wrong wrapping')
            return
        wants = o.k
    made = [ev for ev in p.events if ev.kind == 'call' and ev.args and
            same(p, ev.args[0], PROXY)]
    for ev in made:
        rep.ob(c, len(ev.args) == 3 and same(p, ev.args[1], V) and
               same(p, ev.args[2], wants), 'the proxy is made of something '
               f'else than the value and its checker: {ev!r}', path=p,
               rule='wrong wrapping')
    bad = [ev for ev in made if not ev.ok]
    if bad:
        rep.ob(c, k is None and p.err == bad[0].err, 'an error is lost',
               path=p, rule='error swallowed')
        return
    rep.ob(c, k is not None and any(same(p, k, ev.res) for ev in made),
           'the value does not leave in a proxy with its checker', path=p,
           rule='raw value' if k is not None and same(p, k, V)
           else 'wrong wrapping')


@rule('C10', 'C wrapping',
      'Checker.proxy, the item slot that stands for it and selectChecker in '
      'C, all paths, for any value and registry contents: proxies pass, the '
      'declared checker comes first, then the one registered for the exact '
      'type, then the default; bare only with the no-proxy marker; errors '
      'propagate')
def c10(ctx, rep):
    X = checker(ctx, rep)
    if X.g is None:
        return
    for n in ('_checkers', 'NoProxy', '_defaultChecker'):
        rep.ob(f'C {n}', X.m.exports.get(n) is not None, 'is not exported',
               where=X.m.rel, rule='export missing')
    rep.ob('C Checker.proxy', 'proxy()' in X.es, 'no such method',
           where=X.m.rel, rule='method missing')
    rep.ob('C selectChecker', X.select is not None, 'no such function',
           where=X.m.rel, rule='method missing')
    for e, V in [(e, ARG) for e in X.methods('proxy')] + \
            [(X.es[n], KEY) for n in ('mp_subscript',) if n in X.es]:
        rep.count('C entry points')
        for p in X.A.paths(e):
            judge_proxy(rep, f'C {e.label}', X, p, V)
    if X.select is not None:
        rep.count('C entry points')
        for p in X.A.paths(X.select):
            judge_select(rep, f'C {X.select.label}', X, p, ARG)
    made = 0
    for p in X.m.init_paths:
        if p.kind != 'return' or p.key() is None:
            continue
        for ev in p.events:
            if ev.kind == 'export' and ev.name == '_defaultChecker':
                made += 1
                src = [x for x in p.events if x.ok and x.res is not None
                       and same(p, x.res, ev.args[-1])]
                rep.ob('C _defaultChecker', bool(src) and
                       src[0].kind == 'call' and
                       same(p, src[0].args[0], X.type) and
                       empty_tables(p, src[0].args[1:]),
                       'the default checker is not a checker with empty '
                       'tables', path=p, rule='default checker')
    rep.ob('C _defaultChecker', made > 0, 'is not exported by '
           'initialisation', where=X.m.rel, rule='default checker')


def empty_tables(p, args):
    if not args:
        return False
    for a in args:
        if a == ('emptydict',):
            continue
        if any(ev.kind == 'newdict' and ev.ok and same(p, ev.res, a)
               for ev in p.events) and not any(
                   ev.kind == 'dictset' and same(p, ev.args[0], a)
                   for ev in p.events):
            continue
        return False
    return True


# ---- interactions, shared objects and the marker
@rule('C14', 'C decisions read the interaction afresh',
      'every question the C checker asks an interaction, on all paths of all '
      'entry points: the interaction is read from the thread\'s state on the '
      'same path; C code never changes the thread\'s state')
def c14(ctx, rep):
    for mod in ('_proxy', MOD):
        A = ctx.centries(mod)
        for e in A.entries:
            rep.count('C entry points')
            for combo, p in A.all_paths(e):
                c = f'C {e.label}'
                for i, ev in enumerate(p.events):
                    if ev.kind in ('setattr', 'delattr') and ev.args and \
                            same(p, ev.args[0], TLS):
                        rep.ob(c, False, 'changes the state of the thread: '
                               f'{ev!r}', path=p,
                               rule='interaction state changed')
                    m = calls_method(p, ev, 'checkPermission')
                    if m is None:
                        continue
                    ok = any(x.kind == 'getattr' and x.ok and
                             x.res is not None and same(p, x.res, m[0]) and
                             same(p, x.args[0], TLS) and
                             is_str(p, x.args[1], 'interaction')
                             for x in p.events[:i])
                    rep.count('C questions to interactions')
                    rep.ob(c, ok, 'the interaction asked is not read from '
                           f'the thread\'s state for this decision: {ev!r}',
                           path=p, rule='remembered interaction')


@rule('C14', 'C grants are asked for each time',
      'every path on which a decision method of the C checker grants a '
      'recorded permission that is not public has asked the interaction on '
      'that path and got a true answer')
def c14_grants(ctx, rep):
    X = checker(ctx, rep)
    if X.g is None or X.get is None or X.set is None:
        return
    only = Only(rep, 'unjustified grant')
    for e in X.methods('check', 'check_getattr'):
        decide(only, X, e, ('arg', 0), ('arg', 1), X.get, True)
    for e in X.methods('check_setattr'):
        decide(only, X, e, ('arg', 0), ('arg', 1), X.set, False)


class Only:
    """passes on the obligations under one rule"""

    def __init__(self, rep, rule):
        self.rep, self.rule = rep, rule

    def ob(self, construct, ok, detail='', where=None, path=None, rule=None):
        if rule == self.rule:
            return self.rep.ob(construct, ok, detail, where, path, rule)
        return ok

    def count(self, *args):
        self.rep.count(*args)


IMPORTS = {('zope.security._proxy', '_Proxy'),
           ('zope.security._definitions', 'thread_local'),
           ('zope.security.interfaces', 'ForbiddenAttribute'),
           ('zope.security.interfaces', 'Unauthorized'),
           ('zope.security.checker', 'CheckerPublic')}
EXPORTS = ('_checkers', 'NoProxy', '_defaultChecker',
           '_available_by_default', 'Checker', 'selectChecker')


@rule('C33', 'C modules share one set of objects',
      'what the C checker module imports and exports when it is '
      'initialised, and that the objects its functions use are those')
def c33(ctx, rep):
    X = Checker(ctx)
    m = X.m
    for n in EXPORTS:
        ok = n in m.exports or any(e.name == n + '()' and e.type is None
                                   for e in X.A.entries)
        rep.ob(f'C {n}', ok, 'the C module does not provide it',
               where=m.rel, rule='export missing')
    seen = set()
    used = {}
    for e in X.A.entries:
        for combo, p in X.A.all_paths(e):
            for ev in p.events:
                for a in list(ev.args) + [ev.extra]:
                    origins(a, seen)
                if ev.kind in ('dictget', 'contains') and isinstance(
                        ev.args[0], tuple) and ev.args[0][0] == 'const':
                    used.setdefault(ev.kind, set()).add(ev.args[0])
            for f in p.facts:
                origins(f, seen)
            if p.err:
                origins(p.err, seen)
    for o in sorted(seen):
        rep.ob(f'C import {o[1]}.{o[2]}', o[1:] in IMPORTS or
               o[1].split('.')[0] != 'zope',
               'the C checker uses an object of the framework from an '
               'unexpected place', where=m.rel, rule='wrong import')
    for o in (PROXY, TLS, PUBLIC):
        rep.ob(f'C import {o[1]}.{o[2]}', o in seen, 'the C checker does '
               'not use the shared object', where=m.rel,
               rule='shared object not used')
    for kind, want, n in (('dictget', X.registry, '_checkers'),
                          ('contains', X.avail, '_available_by_default')):
        for o in used.get(kind, ()):
            rep.ob(f'C {n}', o == want, f'uses {o} and not the exported '
                   f'{n}', where=m.rel, rule='other object than exported')


def origins(k, out):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'import' and isinstance(k[1], str):
            out.add(k)
            return
        for x in k:
            origins(x, out)


@rule('C35', 'C recognition by identity',
      'every path of the C checker\'s decisions that reaches a verdict '
      'about a recorded permission: the permission is compared by identity '
      'with the public marker')
def c35(ctx, rep):
    X = checker(ctx, rep)
    if X.g is None or X.get is None or X.set is None:
        return
    for n, ob, name, off in (
            ('check()', ('arg', 0), ('arg', 1), X.get),
            ('check_getattr()', ('arg', 0), ('arg', 1), X.get),
            ('check_setattr()', ('arg', 0), ('arg', 1), X.set),
            ('mp_ass_subscript', KEY, VALUE, X.get)):
        e = X.es.get(n)
        if e is None:
            continue
        for p in X.A.paths(e):
            if p.kind != 'return':
                continue
            for ev in p.events:
                if ev.kind == 'dictget' and ev.ok and \
                        same(p, ev.args[0], ('field', S, off)) and \
                        p.same(ev.res, NONE) is False:
                    rep.count('C verdicts about recorded permissions')
                    rep.ob(f'C {e.label}', p.same(ev.res, PUBLIC) is not None,
                           'the permission is not compared with the public '
                           'marker', path=p, rule='marker not recognised')
                    if p.same(ev.res, PUBLIC) is True:
                        rep.ob(f'C {e.label}', succeeded(p), 'public access '
                               'is not granted', path=p,
                               rule='marker not recognised')
        for p in X.A.paths(e):
            for ev in p.events:
                if ev.kind in ('richcompare', 'compare', 'equal') and any(
                        same(p, a, PUBLIC) for a in ev.args):
                    rep.ob(f'C {e.label}', False, 'compares with the public '
                           f'marker by equality: {ev!r}', path=p,
                           rule='marker compared by equality')
