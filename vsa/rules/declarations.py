"""C21 - C25: declarations of protection and of permissions."""
from ..core import rule
from ..pyai import eq_atom
from ..spec import *  # noqa
from .checkers import open_registry
from .zcmlspec import actions, items_of

CLS, UNTO, PERM = param('class'), param('unto'), param('permission')
MOD = param('module')
CTX, CTX2 = param('context'), param('context2')
PUBLIC_ID = 'zope.Public'


def opaque_error(p):
    return raised_by(p) is not None or exc_class(p) == 'opaque'


def table_writes(p):
    """{table key: [('set', k, v) | ('del', k) | ('bulk', m) | ...]}"""
    out = {}
    for e in p.events:
        if e.raised is not None:
            continue
        if e.kind == 'setitem':
            out.setdefault(e.args[0].key, []).append(
                ('set', e.args[1].key, e.args[2].key))
        elif e.kind == 'delitem':
            out.setdefault(e.args[0].key, []).append(
                ('del', e.args[1].key))
        elif e.kind == 'clear':
            out.setdefault(e.args[0].key, []).append(('clear',))
        elif e.kind == 'update':
            for d in e.data or [None]:
                out.setdefault(e.args[0].key, []).append(
                    ('unknown',) if d is None else
                    ('set', d[0].key, d[1].key) if isinstance(d, tuple)
                    else ('bulk', d.key))
    return out


class Registered:
    """What happened to the registered checker of something on a path."""

    def __init__(self, p, w, reg, what):
        self.p = p
        self.key = ('item', reg.key, what.key)
        h = had_fact(p, reg, what)
        none = p.is_const(Sym(*self.key), None)
        self.had = h is True and none is False or h is None and \
            none is False
        self.had_none = h is False
        self.weird = h is True and none is True
        self.writes = table_writes(p)
        regkeys = {reg.key, w.get('checker._checkers').key}
        self.reg_writes = [x for k in regkeys
                           for x in self.writes.get(k, [])]
        for k in regkeys:
            self.writes.pop(k, None)
        self.new = None
        for x in self.reg_writes:
            if x[0] == 'set' and x[1] == what.key:
                self.new = x[2]

    def tables(self, kind, checkers):
        """writes to the read or write table of the present checker, as a
        list; for a new checker all of its entries"""
        attr = kind + '_permissions'
        if self.new is None:
            return self.writes.get(('attr', self.key, attr), [])
        v = checkers.get(self.new)
        if isinstance(v, Inst):
            d = self.p.attr(v, attr)
            return self.layers(d) if isinstance(d, Dict) else None
        # a C checker: made of two dicts (or by default empty ones)
        t = call_term(v) if v is not None else None
        if t is None:
            return None
        e = [e for e in self.p.events if e.kind == 'call' and
             e.result is not None and e.result.key == self.new]
        ds = args_of(e[0]) if e else []
        i = ('get', 'set').index(kind)
        if len(ds) > i and not isinstance(ds[i], Dict):
            return None
        return (self.layers(ds[i]) if len(ds) > i else []) + \
            self.writes.get(('attr', self.new, attr), [])

    def layers(self, d):
        out = []
        for lay in self.p.dict_layers(d):
            out += [('set', k.key, x.key) for k, x in lay.values()] \
                if isinstance(lay, dict) else [('bulk', lay.key)]
        return out

    def others(self):
        ok = {('attr', self.key, 'get_permissions'),
              ('attr', self.key, 'set_permissions')}
        out = []
        for k, ws in self.writes.items():
            if k in ok:
                continue
            if self.new is not None and (k[0] == 'obj' or k in (
                    ('attr', self.new, 'get_permissions'),
                    ('attr', self.new, 'set_permissions'))):
                continue
            out.append((k, ws))
        return out


def values_on(p):
    """all values passed around on the path, by key"""
    out = {}
    for e in p.events:
        for a in args_of(e):
            out[a.key] = a
        if e.result is not None:
            out[e.result.key] = e.result
    return out


def new_checker_ok(rep, c, p, w, r, vals):
    """a checker created on the path has two distinct tables of its own"""
    v = vals.get(r.new)
    C = w.get('checker.Checker')
    if isinstance(v, Inst):
        g, s = p.attr(v, 'get_permissions'), p.attr(v, 'set_permissions')
        rep.ob(c, isinstance(g, Dict) and isinstance(s, Dict) and
               g is not s and p.fresh(g) and p.fresh(s), 'the new checker\'s tables are not two tables of '
               'its own', path=p, rule='wrong new checker')
        rep.ob(c, v.cls is C, f'registers {v!r}', path=p,
               rule='wrong new checker')
        return
    t = call_term(v) if v is not None else None
    ok = t is not None and t[0] == C.key
    if rep.ob(c, ok, f'registers {v!r}', path=p, rule='wrong new checker'):
        e = [e for e in p.events if e.kind == 'call' and
             e.result is not None and e.result.key == r.new][0]
        ds = args_of(e)
        ok = len(ds) == 2 and all(isinstance(d, Dict) for d in ds) and \
            ds[0] is not ds[1] and all(p.fresh(d) for d in ds)
        rep.ob(c, ok, 'the new checker is not made of two tables of its own',
               path=p, rule='wrong new checker')


def wanted(p, w, perm, by_eq=True):
    """key of what must be recorded for the permission, None if unknown"""
    pub = p.is_const(perm, PUBLIC_ID)
    if pub is True:
        return w.get('checker.CheckerPublic').key
    if pub is False:
        return perm.key
    return None


@rule('C21', 'protectName and protectSetAttribute',
      'every path for any class, name, permission and registry: the mapping '
      'entries written, against the registered (or newly registered) '
      'checker\'s tables')
def c21(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        for fn, kind in (('protectName', 'get'),
                         ('protectSetAttribute', 'set')):
            protect(ctx, rep, w, config, 'protectclass.' + fn, kind, CLS)
        like(ctx, rep, w, config)
    rep.floor('paths', 24)


def protect(ctx, rep, w, config, fname, kind, what):
    f = w.get(fname)
    c = f'{fname} ({config})'
    seen = set()
    other = {'get': 'set', 'set': 'get'}[kind]

    def thunk(run):
        run.info_reg = Sym(*open_registry(w, run))
        return run.call(f, [what, NAME, PERM], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        r = Registered(p, w, p.run.info_reg, what)
        if p.kind == 'raise':
            ok = exc_class(p) == 'builtins.TypeError' and r.had_none and \
                inst_fact(p, what.key, 'builtins.type') is False
            rep.ob(c, ok or opaque_error(p) or r.weird, f'raises '
                   f'{p.value!r}', path=p, rule='unexpected error')
            continue
        want = wanted(p, w, PERM)
        if not rep.ob(c, want is not None, 'does not tell the public '
                      'permission id apart', path=p,
                      rule='public id not translated'):
            continue
        seen.add('public' if want != PERM.key else 'permission')
        vals = values_on(p)
        if r.had:
            seen.add('had')
            rep.ob(c, not r.reg_writes, 'changes the registry although a '
                   'checker is registered', path=p,
                   rule='replaces a checker')
        elif r.had_none:
            seen.add('new')
            if not rep.ob(c, r.new is not None and len(r.reg_writes) == 1,
                          'does not register exactly one checker, for the '
                          f'{"class" if what is CLS else "module"}', path=p,
                          rule='wrong registration'):
                continue
            new_checker_ok(rep, c, p, w, r, vals)
        else:
            rep.ob(c, False, 'does not find out whether a checker is '
                   'registered', path=p, rule='wrong registration')
            continue
        ws = r.tables(kind, vals)
        rep.ob(c, ws is not None and bool(ws) and
               set(ws) == {('set', NAME.key, want)}, 'the table entries '
               f'written are {ws}', path=p, rule='wrong entry')
        rep.ob(c, r.tables(other, vals) == [], f'the {other} table changes',
               path=p, rule='wrong table')
        rep.ob(c, not r.others(), f'changes something else: {r.others()}',
               path=p, rule='other entries change')
    for s in ('public', 'permission', 'had', 'new'):
        rep.ob(c, s in seen, f'no path: {s}', rule='case missing: ' + s)


def like(ctx, rep, w, config):
    f = w.get('protectclass.protectLikeUnto')
    c = f'protectLikeUnto ({config})'
    seen = set()

    def thunk(run):
        run.info_reg = Sym(*open_registry(w, run))
        # two different classes
        run.facts[('is',) + tuple(sorted((CLS.key, UNTO.key),
                                         key=repr))] = False
        run.facts[('eq',) + tuple(sorted((CLS.key, UNTO.key),
                                         key=repr))] = False
        return run.call(f, [CLS, UNTO], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        reg = p.run.info_reg
        u = Registered(p, w, reg, UNTO)
        r = Registered(p, w, reg, CLS)
        if u.had_none or u.weird:
            seen.add('nothing')
            rep.ob(c, p.kind == 'return' and not r.reg_writes and
                   not r.writes, 'the other class has no checker: nothing '
                   'must happen', path=p, rule='does something')
            continue
        if not rep.ob(c, u.had, 'does not find out whether the other class '
                      'has a checker', path=p, rule='does something'):
            continue
        if p.kind == 'raise':
            ok = exc_class(p) == 'builtins.TypeError' and r.had_none
            rep.ob(c, ok or opaque_error(p) or r.weird,
                   f'raises {p.value!r}', path=p, rule='unexpected error')
            continue
        vals = values_on(p)
        if r.had:
            seen.add('had')
            rep.ob(c, not r.reg_writes, 'changes the registry although a '
                   'checker is registered', path=p,
                   rule='replaces a checker')
        else:
            seen.add('new')
            if not rep.ob(c, r.had_none and r.new is not None and
                          len(r.reg_writes) == 1, 'does not register exactly '
                          'one checker', path=p, rule='wrong registration'):
                continue
            new_checker_ok(rep, c, p, w, r, vals)
        for kind in ('get', 'set'):
            src = ('attr', u.key, kind + '_permissions')
            want = entries(p, src)
            have = r.tables(kind, vals)
            if have is not None and ('bulk', src) in have:
                ok = set(have) - {('bulk', src)} <= (want or set())
                seen.add(kind)
            else:
                ok = want is not None and have is not None and \
                    set(have) == want
                if want:
                    seen.add(kind)
            rep.ob(c, ok, f'the {kind} entries copied are {have}', path=p,
                   rule='wrong entries')
        others = [o for o in r.others()]
        rep.ob(c, not others, f'changes something else: {others}', path=p,
               rule='other entries change')
    for s in ('nothing', 'had', 'new', 'get', 'set'):
        rep.ob(c, s in seen, f'no path: {s}', rule='case missing: ' + s)


def entries(p, src):
    """the entries of an opaque mapping, as followed on this path"""
    n = p.facts.get(('len', src))
    if n is None:
        if truth_fact(p, Sym(*src)) is False:
            return set()
        return None
    out = set()
    for i in range(n):
        k = ('elem', src, i)
        out.add(('set', k, ('item', src, k)))
    return out


# ------------------------------------------------------------------- C22
A, B = param('name1'), param('name2')
IF, IF2, SCH, LIKE = (param('iface'), param('iface2'), param('schema'),
                      param('like'))
ATTRS, SATTRS, IFACES, SCHEMAS = (param('attributes'),
                                  param('set_attributes'),
                                  param('interfaces'), param('schemas'))
PCL = 'protectclass.'


def all_truthy(v):
    return isinstance(v, tuple) and v[:1] == ('const',) and bool(v[2])


def name_bases(i):
    """the ways to enumerate all names of an interface: base key -> does an
    element of it have to be taken apart"""
    def is_base(b):
        if b == i:
            return 'name'
        if not (isinstance(b, tuple) and b[:1] == ('call',)):
            return None
        f, args = b[1], b[2]
        al = any(all_truthy(a) or a[:2] == ('kw', 'all') and
                 all_truthy(a[2]) for a in args)
        if f == ('attr', i, 'namesAndDescriptions') and al:
            return 'pair'
        if f == ('attr', i, 'names') and al:
            return 'name'
        return None
    return is_base


def covered(p, i):
    """keys of all names of the interface the path saw, None if it did not
    look at all of them"""
    is_base = name_bases(i)
    out, found = [], False
    for a, n in p.facts.items():
        if a[0] == 'len':
            how = is_base(a[1])
            if how is None:
                continue
            found = True
            for j in range(n):
                e = ('elem', a[1], j)
                out.append(('item', e, Const(0).key) if how == 'pair'
                           else e)
    if not found and truth_fact(p, Sym(*i)) is False:
        return []
    return out if found else None


def elements(p, v):
    """keys of the elements of a listing: concrete or followed"""
    if v is None:
        return []
    if isinstance(v, List):
        return [x.key for x in v.items]
    if isinstance(v, Const):
        return []
    n = p.facts.get(('len', v.key))
    if n is None:
        return [] if truth_fact(p, v) is False else None
    return [('elem', v.key, j) for j in range(n)]


MANY = [Const(x) for x in ('one', 'two', 'three', 'four', 'five', 'six',
                           'seven')]
CLASSFORMS = [
    dict(attributes=List(MANY)), dict(set_attributes=List(MANY)),
    dict(interface=List([IF, IF2, param('iface3'), param('iface4')])),
    dict(attributes=ATTRS), dict(set_attributes=SATTRS),
    dict(interface=IFACES), dict(set_schema=SCHEMAS),
    dict(interface=List([IF])), dict(set_schema=List([SCH])),
    dict(like_class=LIKE), dict(),
    dict(attributes=List([A]), set_attributes=List([B]),
         interface=List([IF]), set_schema=List([SCH])),
    dict(attributes=List([A, B]), like_class=LIKE),
    dict(interface=List([IF, IF2])), dict(set_schema=List([SCH, IF])),
]


@rule('C22', 'class directive',
      'every path of require and allow of the class directive for each kind '
      'of declaration over opaque collections: the actions emitted against '
      'the names covered')
def c22(ctx, rep):
    w = ctx.world('pure')
    init = None
    for meth in ('require', 'allow'):
        for form in CLASSFORMS:
            form = dict(form)
            if meth == 'allow' and set(form) - {'attributes', 'interface'}:
                if 'set_schema' in form and 'attributes' in form:
                    form = dict(attributes=form['attributes'],
                                interface=form['interface'])
                else:
                    continue
            class_form(ctx, rep, w, meth, form)
    rep.floor('forms', 15)
    rep.floor('paths', 120)


def class_form(ctx, rep, w, meth, form):
    cls = w.get('metaconfigure.ClassDirective')
    c = f'ClassDirective.{meth}({", ".join(sorted(form))})'
    rep.count('forms')
    seen = set()
    K = ctx.K if len(form) < 3 and not any(
        isinstance(v, List) and len(v.items) > 1 for v in form.values()) \
        else 1

    def thunk(run):
        run.noraise += 1
        run.facts[('inst', CLS.key, 'types.ModuleType')] = False
        d = run.call(cls, [CTX, CLS], {})
        run.noraise -= 1
        for x in (IF, IF2, SCH, LIKE):
            run.facts[('truthy', x.key)] = True
        kw = dict(form)
        if meth == 'require':
            kw['permission'] = PERM
        return run.call(run.getattr_(d, meth), [CTX2], kw)
    for p in live(w.explore(thunk, K=K)):
        rep.count('paths')
        class_oracle(rep, c, p, w, meth, form, seen)
    for s in ({'error', 'done'} if meth == 'require' and form and
              set(form) != {'like_class'} else
              {'error'} if not form else {'done'}):
        rep.ob(c, s in seen, f'no path: {s}', rule='case missing: ' + s)


def acts_of(p):
    a1, _ = actions(p, CTX)
    a2, _ = actions(p, CTX2)
    return sorted(a1 + a2, key=lambda a: a['event'].idx)


def within(k, key):
    return k == key or isinstance(key, tuple) and any(
        within(k, x) for x in key)


def class_oracle(rep, c, p, w, meth, form, seen):
    perm = PERM if meth == 'require' else Const(PUBLIC_ID)
    if p.kind == 'raise' and not exc_is_conf(p):
        rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
               rule='unexpected error')
        return
    listings = {k: form.get(k) for k in ('attributes', 'set_attributes',
                                         'interface', 'set_schema')}
    given = []
    for k, v in listings.items():
        if v is None:
            continue
        if isinstance(v, List):
            given.append(bool(v.items))
        else:
            t = truth_fact(p, v)
            n = p.facts.get(('len', v.key))
            given.append(n > 0 if n is not None else t)
    something = True if any(g is True for g in given) else (
        None if any(g is None for g in given) else False)
    likes = 'like_class' in form
    permt = truth_fact(p, perm)
    if p.kind == 'raise':
        seen.add('error')
        rep.ob(c, something is False and not likes or
               something is not False and permt is False,
               'refuses a good declaration', path=p, rule='wrong refusal')
        return
    seen.add('done')
    rep.ob(c, something is not False or likes, 'accepts a declaration that '
           'protects nothing', path=p, rule='nothing to protect')
    if something is not False:
        rep.ob(c, permt is True or meth == 'allow' or something is None,
               'accepts a declaration without a permission', path=p,
               rule='no permission')
    P = {w.get(PCL + 'protectName'): 'read',
         w.get(PCL + 'protectSetAttribute'): 'write'}
    LK = w.get(PCL + 'protectLikeUnto')
    have = {'read': [], 'write': []}
    liked = 0
    for a in acts_of(p):
        f = a['callable']
        if f in P:
            args = a['args']
            ok = len(args) == 3 and args[0] == CLS.key and \
                args[2] == perm.key and not a['kw']
            rep.ob(c, ok, 'protection for something else than the class '
                   f'and permission: {a["event"]!r}', path=p,
                   rule='wrong declaration')
            if ok:
                have[P[f]].append(args[1])
                d = a['discriminator']
                kind = ('protectName', 'protectSetAttribute')[
                    P[f] == 'write']
                parts = items_of(d) if d is not None else []
                ok = isinstance(d, List) and len(parts) >= 3 and \
                    any(p.is_const(x, kind) is True for x in parts) and \
                    CLS.key in [x.key for x in parts] and \
                    args[1] in [x.key for x in parts] and not any(
                        isinstance(x, (Obj,)) and not isinstance(x, List)
                        or within(perm.key, x.key) for x in parts)
                rep.ob(c, ok, f'the discriminator is {d!r}', path=p,
                       rule='wrong discriminator')
        elif f is LK:
            liked += 1
            rep.ob(c, a['args'] == [CLS.key, LIKE.key], 'copies other '
                   f'protections: {a["event"]!r}', path=p,
                   rule='wrong declaration')
            d = a['discriminator']
            rep.ob(c, d is not None and p.is_const(d, None) is True or
                   isinstance(d, List) and any(
                       isinstance(x, Obj) and not isinstance(x, (List, Class))
                       for x in d.items), 'copying protections twice would '
                   f'be a conflict: the discriminator is {d!r}', path=p,
                   rule='wrong discriminator')
        elif isinstance(f, (Func, Bound)):
            rep.ob(c, False, f'another action: {a["event"]!r}', path=p,
                   rule='wrong declaration')
    rep.ob(c, liked == (1 if likes else 0), 'the like-class is not declared '
           'once', path=p, rule='like-class missing')
    must = {'read': [], 'write': []}
    if something is not False and permt is not False:
        for k in ('interface', 'set_schema'):
            for i in elements(p, form.get(k)) or ():
                if truth_fact(p, Sym(*i)) is not False:
                    rep.ob(c, registered(p, i), f'does not register the '
                           f'interface {show(i)}', path=p,
                           rule='interface not registered')
    unknown = []
    for k, kind in (('attributes', 'read'), ('set_attributes', 'write')):
        if form.get(k) is None:
            continue
        el = elements(p, form[k])
        if el is None:
            unknown.append(k)
        else:
            must[kind] += el
    if form.get('interface') is not None:
        el = elements(p, form['interface'])
        if el is None:
            unknown.append('interface')
        for i in el or ():
            if truth_fact(p, Sym(*i)) is False:
                continue
            ns = covered(p, i)
            if ns is None:
                unknown.append('names of an interface')
            else:
                must['read'] += ns
    optional = []
    if form.get('set_schema') is not None:
        el = elements(p, form['set_schema'])
        if el is None:
            unknown.append('set_schema')
        for i in el or ():
            ns = covered(p, i)
            if ns is None:
                unknown.append('names of a schema')
                continue
            for n in ns:
                fld = field_of(p, i, n)
                prov = provided(p, fld)
                ro = truth_fact(p, Sym('attr', fld, 'readonly'))
                if prov is True and ro is False:
                    must['write'].append(n)
                elif prov is False or ro is True:
                    pass
                else:
                    optional.append(n)
    if something is not False and permt is not False:
        rep.ob(c, not unknown, f'does not look at: {unknown}', path=p,
               rule='names not covered')
        rep.ob(c, not optional, 'does not find out whether a name is a '
               'field that can be set', path=p, rule='names not covered')
    elif something is False:
        must = {'read': [], 'write': []}
    if unknown or optional:
        return
    for kind in ('read', 'write'):
        rep.ob(c, set(must[kind]) <= set(have[kind]), f'no {kind} '
               f'protection for {set(must[kind]) - set(have[kind])}',
               path=p, rule='names not covered')
        rep.ob(c, set(have[kind]) <= set(must[kind]), f'{kind} protection '
               f'for {set(have[kind]) - set(must[kind])}', path=p,
               rule='protects other names')


def registered(p, i):
    """an action registers the interface under its own dotted name"""
    for a in acts_of(p):
        f = a['callable']
        if is_ext(f) and f.term[1].endswith('.provideInterface') and \
                len(a['args']) >= 2 and a['args'][1] == i:
            n = a['argvals'][0]
            return truth_fact(p, n) is False or \
                within(('attr', i, '__module__'), n.key) and (
                    within(('attr', i, '__name__'), n.key) or
                    'getName' in repr(n.key)) or \
                within(('attr', i, '__identifier__'), n.key)
    return False


@rule('C22', 'other statements about a class',
      'every path of implements and factory of the class directive over '
      'opaque listings: the interfaces declared and the factory registered')
def c22_more(ctx, rep):
    w = ctx.world('pure')
    cls = w.get('metaconfigure.ClassDirective')

    def explore(meth, kw):
        def thunk(run):
            run.noraise += 1
            run.facts[('inst', CLS.key, 'types.ModuleType')] = False
            d = run.call(cls, [CTX, CLS], {})
            run.noraise -= 1
            for x in (IF, IF2):
                run.facts[('truthy', x.key)] = True
            return run.call(run.getattr_(d, meth), [CTX2], dict(kw))
        for p in live(w.explore(thunk, K=ctx.K)):
            rep.count('paths')
            if p.kind == 'raise':
                rep.ob(f'ClassDirective.{meth}', opaque_error(p),
                       f'raises {p.value!r}', path=p,
                       rule='unexpected error')
            else:
                yield p
    c = 'ClassDirective.implements'
    n = 0
    for given in (List([IF]), List([IF, IF2]), IFACES):
        for p in explore('implements', dict(interface=given)):
            n += 1
            want = elements(p, given)
            if not rep.ob(c, want is not None, 'does not look at the '
                          'interfaces', path=p, rule='not declared'):
                continue
            have = []
            for a in acts_of(p):
                f = a['callable']
                if is_ext(f) and f.term[1].endswith('.classImplements'):
                    rep.ob(c, a['args'][:1] == [CLS.key] and not a['kw'],
                           f'declares something else: {a["event"]!r}',
                           path=p, rule='wrong declaration')
                    have += a['args'][1:]
                    d = a['discriminator']
                    rep.ob(c, d is not None and p.is_const(d, None) is True
                           or isinstance(d, List) and any(
                               isinstance(x, Obj) and
                               not isinstance(x, (List, Class))
                               or isinstance(x, Sym) and
                               'builtins.object' in repr(x.key)
                               for x in d.items),
                           f'declaring it twice would be a conflict: {d!r}',
                           path=p, rule='wrong discriminator')
                elif isinstance(f, (Func, Bound)):
                    rep.ob(c, False, f'another action: {a["event"]!r}',
                           path=p, rule='wrong declaration')
            rep.ob(c, sorted(map(repr, have)) == sorted(map(repr, want)),
                   f'declares {have}', path=p, rule='not declared')
            for i in want:
                rep.ob(c, registered(p, i), 'does not register the '
                       f'interface {show(i)}', path=p,
                       rule='interface not registered')
    rep.ob(c, n > 2, 'always fails', rule='case missing')
    c = 'ClassDirective.factory'
    ID, TITLE, DESC = param('id'), param('title'), param('description')
    n = 0
    for kw in (dict(), dict(id=ID), dict(id=ID, title=TITLE,
                                         description=DESC),
               dict(title=TITLE), dict(description=DESC)):
        for p in explore('factory', kw):
            n += 1
            reg = [e for e in p.events if e.kind == 'call' and
                   func_key(e)[0] == 'ext' and
                   func_key(e)[1].endswith('zcml.utility')]
            if not rep.ob(c, len(reg) == 1, 'does not register exactly one '
                          'utility', path=p, rule='not registered'):
                continue
            d = dict(zip(('_context', 'provides', 'component', 'factory',
                          'permission', 'name'), reg[0].args))
            d.update(reg[0].kw)
            k = {x: v.key for x, v in d.items()}
            rep.ob(c, k.get('_context') in (CTX.key, CTX2.key) and
                   is_ext(d.get('provides')) and
                   d['provides'].term[1].endswith('.IFactory'),
                   f'registers {reg[0]!r}', path=p,
                   rule='wrong registration')
            perm = d.get('permission')
            rep.ob(c, perm is not None and (
                p.is_const(perm, PUBLIC_ID) is True or
                perm is w.get('checker.CheckerPublic')),
                f'needs the permission {perm!r}', path=p,
                rule='wrong permission')
            given = kw.get('id') is not None and not (
                truth_fact(p, ID) is False or
                p.is_const(ID, None) is True)
            i = k.get('name')
            rep.ob(c, i == ID.key if given else
                   within(('attr', CLS.key, '__module__'), i) and
                   within(('attr', CLS.key, '__name__'), i) or
                   truth_fact(p, CLS) is False,
                   f'is named {d.get("name")!r}', path=p, rule='wrong name')
            t = k.get('component')
            ok = isinstance(t, tuple) and t[0] == 'call' and \
                t[1][0] == 'ext' and t[1][1].endswith('.Factory')
            if not rep.ob(c, ok, f'registers {d.get("component")!r}',
                          path=p, rule='wrong factory'):
                continue
            have = dict(zip(('callable', 'title', 'description',
                             'interfaces'),
                            [x for x in t[2] if x[0] != 'kw']))
            have.update({x[1]: x[2] for x in t[2] if x[0] == 'kw'})
            rep.ob(c, have.get('callable') == CLS.key, f'makes {have}',
                   path=p, rule='wrong factory')
            for x in ('title', 'description'):
                v = have.get(x)
                rep.ob(c, v is not None and (
                    v == kw[x].key or p.is_const(Sym(*v), '') is True)
                       if x in kw else v is None or v[0] == 'const' and
                       not v[2], f'its {x} is {v}', path=p,
                       rule=f'wrong {x}')
            rep.ob(c, not have.get('interfaces'), f'makes {have}', path=p,
                   rule='wrong factory')
            acts = acts_of(p)
            rep.ob(c, not acts, 'declares something else', path=p,
                   rule='wrong declaration')
    rep.ob(c, n > 4, 'always fails', rule='case missing')


def field_of(p, i, n):
    return ('item', i, n) if n[0] != 'item' else ('item', n[1],
                                                  Const(1).key)


def provided(p, fld):
    for a, v in p.facts.items():
        if a[0] == 'truthy' and isinstance(a[1], tuple) and \
                a[1][:1] == ('call',) and 'IField' in repr(a[1][1]) and \
                a[1][2] == (fld,):
            return v
    return None


def exc_is_conf(p):
    v = p.value
    return 'ConfigurationError' in repr(v.key) or \
        isinstance(v, Inst) and 'ConfigurationError' in repr(v.cls)


# ------------------------------------------------------------------- C23
@rule('C23', 'protectModule',
      'every path for any module, name, permission and registry, like class '
      'protection')
def c23_protect(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        protect(ctx, rep, w, config, 'metaconfigure.protectModule', 'get',
                MOD)
    rep.floor('paths', 8)


@rule('C23', 'module directives',
      'every path of the module require and allow directives over opaque '
      'attribute and interface listings')
def c23(ctx, rep):
    w = ctx.world('pure')
    for fn in ('require', 'allow'):
        for form in (dict(attributes=ATTRS), dict(interface=IFACES),
                     dict(attributes=List(MANY)),
                     dict(attributes=List([A]), interface=List([IF])),
                     dict(attributes=List([A, B])),
                     dict(interface=List([IF, IF2])), dict()):
            module_form(ctx, rep, w, fn, dict(form))
    rep.floor('forms', 12)
    rep.floor('module paths', 30)


def module_form(ctx, rep, w, fn, form):
    c = f'module {fn}({", ".join(sorted(form))})'
    rep.count('forms')
    f = w.get('metaconfigure.' + fn)
    pm = w.get('metaconfigure.protectModule')
    perm = PERM if fn == 'require' else Const(PUBLIC_ID)
    module = ('attr', CTX.key, 'module')
    done = 0

    def thunk(run):
        kw = dict(form)
        if fn == 'require':
            kw['permission'] = PERM
        return run.call(f, [CTX], kw)
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('module paths')
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        done += 1
        if contradictory(p):
            continue            # names are texts
        must, unknown = [], []
        if form.get('attributes') is not None:
            el = elements(p, form['attributes'])
            if el is None:
                unknown.append('attributes')
            must += el or []
        if form.get('interface') is not None:
            el = elements(p, form['interface'])
            if el is None:
                unknown.append('interface')
            for i in el or ():
                ns = covered(p, i)
                if ns is None:
                    unknown.append('names of an interface')
                must += ns or []
        rep.ob(c, not unknown, f'does not look at: {unknown}', path=p,
               rule='names not covered')
        have = []
        for a in actions(p, CTX)[0]:
            if a['callable'] is not pm:
                if isinstance(a['callable'], (Func, Bound)):
                    rep.ob(c, False, f'another action: {a["event"]!r}',
                           path=p, rule='wrong declaration')
                continue
            args = a['args']
            ok = len(args) == 3 and args[0] == module and \
                args[2] == perm.key and not a['kw']
            rep.ob(c, ok, 'protection for something else than the module '
                   f'and permission: {a["event"]!r}', path=p,
                   rule='wrong declaration')
            if not ok:
                continue
            have.append(args[1])
            d = a['discriminator']
            parts = items_of(d) if d is not None else []
            ks = [x.key for x in parts]
            rep.ob(c, isinstance(d, List) and module in ks and
                   args[1] in ks and not any(
                       isinstance(x, Obj) and not isinstance(x, List)
                       or within(perm.key, x.key)
                       for x in parts), f'the discriminator is {d!r}',
                   path=p, rule='wrong discriminator')

        def same(a, b):
            return known_same(p, a, b) is True
        for n in must:
            rep.ob(c, any(same(n, h) for h in have), f'no protection for '
                   f'{show(n)}', path=p, rule='names not covered')
        for h in have:
            rep.ob(c, any(same(n, h) for n in must), 'protection for '
                   f'{show(h)}', path=p, rule='protects other names')
        for j, h in enumerate(have):
            for g in have[:j]:
                rep.ob(c, known_same(p, g, h) is False, 'may declare a name twice',
                       path=p, rule='declared twice')
    rep.ob(c, done > 0, 'always fails', rule='case missing')


# ------------------------------------------------------------------- C24
VAL = param('value')
IPERM = IFACE + 'IPermission'


@rule('C24', 'the permission field',
      'every path of reading and of validating a permission value from '
      'configuration, the base field and the mapping being opaque')
def c24_field(ctx, rep):
    w = ctx.world('pure')
    cls = w.get('zcml.Permission')
    FCTX = param('context')

    def mk():
        o = Inst(cls, label='field')
        o.attrs['context'] = FCTX
        o.lazy = True
        return o
    c = 'Permission.fromUnicode'
    seen = set()
    for p in live(w.explore(lambda run: run.call(
            run.getattr_(mk(), 'fromUnicode'), [VAL], {}), K=ctx.K)):
        rep.count('paths')
        base = [e for e in p.events if e.kind == 'call' and
                'fromUnicode' in repr(func_key(e)) and
                [a.key for a in e.args][-1:] == [VAL.key]]
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        if not rep.ob(c, len(base) == 1, 'the base field does not read the '
                      'value', path=p, rule='not read by the base field'):
            continue
        u = base[0].result
        m = Sym('attr', FCTX.key, 'permission_mapping')
        if p.facts.get(('hasattr', FCTX.key, 'permission_mapping')) is \
                False:
            mapped = False
        else:
            mapped = has_fact(p, m, u)
            if mapped is None and truth_fact(p, m) is False:
                mapped = False
            if mapped is None and p.is_const(m, None) is True:
                mapped = False
        seen.add(mapped)
        want = ('item', m.key, u.key) if mapped else u.key
        rep.ob(c, mapped is not None and p.value.key == want,
               f'reads {p.value!r}', path=p, rule='wrong substitution')
    for s in (True, False):
        rep.ob(c, s in seen, f'no path: mapped {s}',
               rule=f'case missing: mapped {s}')
    c = 'Permission._validate'
    check = w.get('permission.checkPermission')
    seen = set()
    for p in live(w.explore(lambda run: run.call(
            run.getattr_(mk(), '_validate'), [VAL], {}), K=ctx.K)):
        rep.count('paths')
        acts, _ = actions(p, FCTX)
        base = [e for e in p.events if e.kind == 'call' and
                '_validate' in repr(func_key(e)) and
                [a.key for a in e.args][-1:] == [VAL.key]]
        if not rep.ob(c, len(base) == 1, 'the value is not validated by the '
                      'base field', path=p,
                      rule='invalid id not rejected'):
            continue
        if base[0].raised is not None:
            seen.add('invalid')
            rep.ob(c, not acts and same_exc(p, base[0].raised), 'an invalid '
                   'id is not rejected', path=p,
                   rule='invalid id not rejected')
            continue
        rep.ob(c, all(a['event'].idx > base[0].idx for a in acts),
               'declares the check before validating', path=p,
               rule='invalid id not rejected')
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        pub = p.is_const(VAL, PUBLIC_ID)
        if pub is True:
            seen.add('public')
            rep.ob(c, not acts, 'the public permission is checked', path=p,
                   rule='wrong check declared')
            continue
        seen.add('checked')
        ok = len(acts) == 1 and acts[0]['callable'] is check and \
            len(acts[0]['args']) == 2 and acts[0]['args'][1] == VAL.key \
            and not acts[0]['kw']
        if rep.ob(c, ok, 'the existence of the permission is not checked',
                  path=p, rule='existence not checked'):
            rep.ob(c, p.is_const(acts[0]['argvals'][0], None) is True,
                   'checks in another context', path=p,
                   rule='wrong check declared')
            d = acts[0]['discriminator']
            rep.ob(c, d is None or p.is_const(d, None) is True,
                   f'the discriminator is {d!r}: uses of a permission would '
                   'conflict', path=p, rule='wrong check declared')
            o = acts[0]['order']
            rep.ob(c, isinstance(o, Const) and isinstance(o.value, int) and
                   o.value > 1000, f'the check is not run at the end (order '
                   f'{o!r})', path=p, rule='not checked at the end')
    for s in ('public', 'checked'):
        rep.ob(c, s in seen, f'no path: {s}', rule='case missing: ' + s)
    rep.floor('paths', 5)


@rule('C24', 'the existence check',
      'every path of permission.checkPermission')
def c24_check(ctx, rep):
    w = ctx.world('pure')
    c = 'permission.checkPermission'
    public = w.get('checker.CheckerPublic')
    seen = set()
    f = w.get('permission.checkPermission')
    for p in live(w.explore(lambda run: run.call(f, [CTX, PERM], {}),
                            K=ctx.K)):
        rep.count('check paths')
        pub = is_fact(p, PERM, public)
        asks = [e for e in p.events if e.kind == 'call' and
                func_key(e)[0] == 'ext' and
                func_key(e)[1].startswith('zope.component') and
                'Utility' in func_key(e)[1]]
        if pub is True:
            seen.add('public')
            rep.ob(c, p.kind == 'return' and not asks, 'the public marker '
                   'does not pass', path=p, rule='public marker refused')
            continue
        rep.ob(c, pub is False, 'does not tell the public marker', path=p,
               rule='public marker refused')
        if p.kind == 'raise' and opaque_error(p) and asks and \
                asks[-1].raised is not None:
            continue
        if not rep.ob(c, len(asks) == 1 and
                      [a.key for a in asks[0].args][:2] ==
                      [w.get('interfaces.IPermission').key, PERM.key] and
                      (CTX.key in [a.key for a in args_of(asks[0])]),
                      'does not look up the permission of that id in the '
                      'context', path=p, rule='wrong lookup'):
            continue
        u = asks[0].result
        got = truth_fact(p, u)
        none = p.is_const(u, None)
        if p.kind == 'raise':
            seen.add('undefined')
            rep.ob(c, exc_is(p, p.value, 'builtins.ValueError') is True,
                   f'raises {p.value!r}', path=p, rule='wrong error')
            rep.ob(c, got is False or none is True, 'refuses a permission '
                   'that may be defined', path=p, rule='wrong refusal')
        else:
            seen.add('defined')
            rep.ob(c, got is True or none is False, 'accepts a permission '
                   'that may be undefined', path=p,
                   rule='undefined permission accepted')
    for s in ('public', 'undefined', 'defined'):
        rep.ob(c, s in seen, f'no path: {s}', rule='case missing: ' + s)


@rule('C24', 'permission directives',
      'every path of defining and of redefining a permission')
def c24_directives(ctx, rep):
    w = ctx.world('pure')
    c = 'zcml.permission'
    ID, TITLE, DESC = param('id'), param('title'), param('description')
    f = w.get('zcml.permission')
    done = 0
    for p in live(w.explore(lambda run: run.call(
            f, [CTX, ID, TITLE, DESC], {}), K=ctx.K)):
        rep.count('directive paths')
        reg = [e for e in p.events if e.kind == 'call' and
               func_key(e)[0] == 'ext' and
               func_key(e)[1].endswith('zcml.utility')]
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        done += 1
        if not rep.ob(c, len(reg) == 1, 'does not register exactly one '
                      'utility', path=p, rule='wrong registration'):
            continue
        names = ('_context', 'provides', 'component', 'factory',
                 'permission', 'name')
        d = dict(zip(names, reg[0].args))
        d.update(reg[0].kw)
        o = d.get('component')
        ok = d.get('_context') is not None and d['_context'].key == CTX.key \
            and d.get('provides') is not None and d['provides'].key == \
            w.get('interfaces.IPermission').key and \
            d.get('name') is not None and d['name'].key == ID.key
        rep.ob(c, ok, f'registers {reg[0]!r}', path=p,
               rule='wrong registration')
        ok = isinstance(o, Inst) and o.cls is w.get(
            'permission.Permission') and [
            getattr(p.attr(o, n), 'key', None)
            for n in ('id', 'title', 'description')] == [
            ID.key, TITLE.key, DESC.key]
        rep.ob(c, ok, f'registers another permission: {o!r}', path=p,
               rule='wrong permission')
    rep.ob(c, done > 0, 'always fails', rule='case missing')
    c = 'zcml.redefinePermission'
    FROM, TO = param('from'), param('to')
    f = w.get('zcml.redefinePermission')
    inner = ('attr', CTX.key, 'context')
    done = set()
    for p in live(w.explore(lambda run: run.call(f, [CTX, FROM, TO], {}),
                            K=ctx.K)):
        rep.count('directive paths')
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        m = ('attr', inner, 'permission_mapping')
        has = p.first.get(('hasattr', inner, 'permission_mapping'))
        if has is not False:
            # or it is found out by trying, or with a default
            has = p.is_const(Sym(*m), None) is not True and not any(
                e.kind == 'getattr' and e.name == m[2] and
                e.raised is not None and e.args[0].key == inner
                for e in p.events)
        ws = table_writes(p)
        sets = [e for e in p.events if e.kind == 'setattr']
        done.add(has)
        if has is False:
            v = sets[0].args[1] if len(sets) == 1 else None
            ok = len(sets) == 1 and sets[0].name == 'permission_mapping' \
                and sets[0].args[0].key == inner and isinstance(v, Dict) \
                and [(k.key, x.key) for k, x in p.dict_items(v) or ()] == \
                [(FROM.key, TO.key)]
            rep.ob(c, ok, 'the mapping does not get exactly this entry',
                   path=p, rule='wrong mapping')
        else:
            ok = has is True and not sets and ws == {
                m: [('set', FROM.key, TO.key)]}
            rep.ob(c, ok, f'the mapping changes: {ws}', path=p,
                   rule='wrong mapping')
    for s in (True, False):
        rep.ob(c, s in done, f'no path: mapping {s}',
               rule=f'case missing: {s}')


# ------------------------------------------------------------------- C25
def listing(p, ctx_key, iperm):
    """[(name key, permission key)] of the registered permissions as
    followed on the path, None if they are not looked at"""
    for a, n in p.facts.items():
        if a[0] != 'len':
            continue
        b = a[1]
        if b[:1] == ('call',) and b[1][0] == 'ext' and \
                b[1][1].endswith('getUtilitiesFor'):
            args = b[2]
            if args[:1] == (iperm,) and (
                    args[1:2] == (ctx_key,) or
                    args[1:2] == (('kw', 'context', ctx_key),)):
                out = []
                for j in range(n):
                    e = ('elem', b, j)
                    out.append((('item', e, Const(0).key),
                                ('item', e, Const(1).key)))
                return out
    return None


@rule('C25', 'permission listings',
      'every path of the listing functions over opaque registrations')
def c25(ctx, rep):
    w = ctx.world('pure')
    iperm = w.get('interfaces.IPermission').key
    c = 'allPermissions'
    f = w.get('permission.allPermissions')
    seen = set()
    for p in live(w.explore(lambda run: List(run.to_items(
            run.call(f, [CTX], {}))), K=ctx.K + 2)):
        rep.count('paths')
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        regs = listing(p, CTX.key, iperm)
        if not rep.ob(c, regs is not None, 'does not look at all registered '
                      'permissions of the context', path=p,
                      rule='incomplete'):
            continue
        want = []
        for n, o in regs:
            pub = p.is_const(Sym(*n), PUBLIC_ID)
            rep.ob(c, pub is not None, 'does not tell the public permission',
                   path=p, rule='public permission listed')
            if pub is False:
                want.append(n)
            seen.add(pub)
        have = [x.key for x in p.list_items(p.value)]
        rep.ob(c, sorted(have, key=repr) == sorted(want, key=repr),
               f'lists {have}', path=p, rule='wrong listing')
    for s in (True, False):
        rep.ob(c, s in seen, f'no path: public {s}',
               rule=f'case missing: {s}')
    vocabulary(ctx, rep, w, iperm, 'PermissionsVocabulary')
    vocabulary(ctx, rep, w, iperm, 'PermissionIdsVocabulary')
    rep.floor('paths', 15)


def vocabulary(ctx, rep, w, iperm, fn):
    f = w.get('permission.' + fn)
    c = fn
    ids = fn == 'PermissionIdsVocabulary'
    public = w.get('checker.CheckerPublic')
    done = 0

    def list_terms(run):
        run.order_sorts = True
        return run.call(f, [CTX], {})

    for p in live(w.explore(list_terms, K=ctx.K)):
        rep.count('paths')
        if p.kind == 'raise':
            rep.ob(c, opaque_error(p), f'raises {p.value!r}', path=p,
                   rule='unexpected error')
            continue
        regs = listing(p, CTX.key, iperm)
        if not rep.ob(c, regs is not None, 'does not look at all registered '
                      'permissions of the context', path=p,
                      rule='incomplete'):
            continue
        made = {e.result.key: e for e in p.events if e.kind == 'call' and
                e.result is not None and e.raised is None and
                func_key(e)[0] == 'ext' and
                func_key(e)[1].endswith('SimpleTerm')}
        t = call_term(p.value)
        ok = t is not None and t[0][0] == 'ext' and \
            t[0][1].endswith('SimpleVocabulary')
        if not rep.ob(c, ok, f'returns {p.value!r}', path=p,
                      rule='not a vocabulary'):
            continue
        e = [e for e in p.events if e.result is not None and
             e.result.key == p.value.key][0]
        lst = e.args[0] if e.args else None
        if not rep.ob(c, isinstance(lst, List), f'made of {lst!r}', path=p,
                      rule='not a vocabulary'):
            continue
        terms = []
        for x in p.list_items(lst):
            m = made.get(x.key)
            if m is None:
                terms.append(None)
                continue
            d = dict(zip(('value', 'token', 'title'), m.args))
            d.update(m.kw)
            terms.append(tuple(d[k].key if k in d else None
                               for k in ('value', 'token', 'title')))
        done += 1
        if not ids:
            want = sorted(((o, n) for n, o in regs), key=repr)
            have = sorted((x[:2] if x else None for x in terms), key=repr)
            rep.ob(c, have == want, f'the terms are {terms}', path=p,
                   rule='wrong terms')
            continue
        pubs, rest = [], []
        for n, o in regs:
            pub = p.is_const(Sym(*n), PUBLIC_ID)
            if not rep.ob(c, pub is not None, 'does not tell the public '
                          'permission', path=p, rule='wrong terms'):
                break
            (pubs if pub else rest).append(n)
        else:
            # registered names are unique texts
            if len(pubs) > 1 or any(
                    p.fact(eq_atom(Sym(*a), Sym(*b)))
                    for i, (a, _) in enumerate(regs)
                    for b, _ in regs[:i]) or any(
                    p.fact(('is',) + eq_atom(Sym(*n), public)[1:]) for n, _ in regs):
                continue
            pubkey = Const(PUBLIC_ID).key
            first = terms[:1] if pubs else []
            if pubs:
                ok = len(terms) > 0 and terms[0] is not None and \
                    terms[0][0] == public.key and \
                    terms[0][1] in (pubkey, pubs[0])
                rep.ob(c, ok, 'the public permission is not the first term '
                       'with the public marker as value', path=p,
                       rule='public permission')
            tail = terms[1:] if pubs else terms
            want = sorted(rest, key=repr)
            have = sorted((x[0] if x and x[0] == x[1] else None
                           for x in tail), key=repr)
            rep.ob(c, have == want, f'the terms are {terms}', path=p,
                   rule='wrong terms')
            rep.ob(c, all(x and x[2] == x[0] for x in tail), 'the titles '
                   'are not the ids', path=p, rule='wrong terms')
            rep.ob(c, not pubs or terms[:1] != [None] and
                   terms[0][2] == Const('Public').key, 'the public '
                   'permission is not titled Public', path=p,
                   rule='public permission')
            rep.ob(c, in_order(p, [x[0] for x in tail if x]),
                   'the terms are not sorted by title, the public one first',
                   path=p, rule='not sorted')
    rep.ob(c, done > 0, 'always fails', rule='case missing')


def in_order(p, names):
    """Whether the path knows that each of the names is less than the next
    one (registered names are different from each other)"""
    less = {}
    for atom, known in p.facts.items():
        if atom[0] == 'less':
            a, b = atom[1:] if known else (atom[2], atom[1])
            less.setdefault(a, set()).add(b)
    for a, b in zip(names, names[1:]):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += less.get(x, ())
        if b not in seen:
            return False
    return True
