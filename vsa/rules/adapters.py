"""C19, C20: trusted and locating adapter factories."""
import itertools

from ..core import rule
from ..pyai import PyRaise
from ..spec import *  # noqa

F = param('factory')
PF = ('param', 'ProxyFactory')


def cases(ctx):
    """the arguments, and those of an earlier call of the same factory"""
    for n in range(1, 8 if ctx.thorough else 6):
        for kinds in itertools.product((False, True), repeat=n):
            yield kinds, None
    for earlier in ((False,), (True,)):
        for n in (1, 2):
            for kinds in itertools.product((False, True), repeat=n):
                yield kinds, earlier


def case_name(cn, kinds, earlier, config):
    def show(ks):
        return '(' + ','.join('proxy' if k else 'bare' for k in ks) + ')'
    return f'{cn}{show(kinds)} {config}' + (
        f' after {show(earlier)}' if earlier else '')


def adapter_paths(ctx, w, clsname, kinds, earlier=None):
    cls = w.get('adapter.' + clsname)

    def make(run, kinds, pre):
        args, bare = [], []
        for i, proxied in enumerate(kinds):
            b = make_bare(w, run, f'{pre}object{i}')
            args.append(make_proxy(w, run, b, param(f'{pre}checker{i}'),
                                   f'{pre}proxy{i}') if proxied else b)
            bare.append(b)
        return args, bare

    def thunk(run):
        run.stubs = {'zope.security.checker.ProxyFactory': 'ProxyFactory'}
        run.noraise += 1
        o = run.call(cls, [F], {})
        run.noraise -= 1
        if earlier:
            try:
                run.call(o, make(run, earlier, 'earlier_')[0], {})
            except PyRaise:
                pass
        args, bare = make(run, kinds, '')
        run.info_args, run.info_bare = args, bare
        run.info_start = len(run.events)
        run.info_uid = List().uid
        return run.call(o, list(args), {})
    return live(w.explore(thunk, K=ctx.K))


def contents(vs, depth=3):
    """the values and what the containers among them hold"""
    for v in vs:
        yield v
        if depth and isinstance(v, List):
            yield from contents(v.items, depth - 1)
        elif depth and isinstance(v, Dict):
            for k, x in v.explicit():
                yield from contents([k, x], depth - 1)


def events(p):
    return p.events[getattr(p.run, 'info_start', len(p.events)):]


def the_call(p):
    return [e for e in events(p) if e.kind == 'call' and
            func_key(e) == F.key]


def loc_wrapped(v):
    """(inner key) if v is LocationProxy(inner, ...)"""
    c = call_term(v)
    if c and c[0] == ('ext', 'zope.location.LocationProxy') or \
            c and c[0] == ('ext', 'zope.location.location.LocationProxy'):
        return c[1][0] if c[1] else None
    return None


CLASSES = ('LocatingTrustedAdapterFactory', 'TrustedAdapterFactory')
UNTRUSTED = 'LocatingUntrustedAdapterFactory'


@rule('C19', 'trusted adapter factories',
      'every path of calling each adapter factory, for each combination of '
      'proxied and unproxied arguments, in both implementations; the adapted '
      'factory, ProxyFactory and the adapter are opaque')
def c19(ctx, rep):
    for config in ('c', 'pure'):
        w = ctx.world(config)
        for cn in CLASSES + (UNTRUSTED,):
            for kinds, earlier in cases(ctx):
                c = case_name(cn, kinds, earlier, config)
                rep.count('cases')
                ok = 0
                for p in adapter_paths(ctx, w, cn, kinds, earlier):
                    rep.count('paths')
                    ok += trust_oracle(rep, c, p, cn, kinds)
                rep.ob(c, ok > 0, 'no path returns an adapter',
                       rule='no adapter')
    rep.floor('cases', 36)
    rep.floor('paths', 80)


def trust_oracle(rep, c, p, cn, kinds):
    args, bare = p.run.info_args, p.run.info_bare
    trusted = cn != UNTRUSTED
    want = bare if trusted and any(kinds) else args
    calls = the_call(p)
    for e in calls:
        rep.ob(c, [a.key for a in e.args] == [a.key for a in want] and
               not e.kw, f'the factory gets {e!r}', path=p,
               rule='wrong arguments')
    # bare objects never go anywhere else when they came in a proxy
    for a, b, k in zip(args, bare, kinds):
        if not k:
            continue
        for e in events(p):
            if e in calls and trusted:
                continue
            if not any(x.key == b.key for x in contents(args_of(e))) and \
                    func_key(e) != b.key:
                continue
            if e.kind in ('append', 'setitem', 'delitem', 'remove') and \
                    isinstance(e.args[0], (List, Dict)) and \
                    e.args[0].uid > p.run.info_uid:
                continue        # a list of its own
            ok = e.kind == 'setattr' and e.name == '__parent__' or \
                func_key(e) in (('ext', 'zope.location.LocationProxy'),)
            rep.ob(c, ok and trusted, f'the unproxied object is used: {e!r}',
                   path=p, rule='protection removed')
    if p.kind == 'raise':
        rep.ob(c, exc_class(p) == 'opaque' or raised_by(p) is not None,
               f'raises {p.value!r}', path=p, rule='unexpected error')
        return 0
    if not rep.ob(c, len(calls) == 1, 'the factory is not called once',
                  path=p, rule='wrong arguments'):
        return 0
    adapter = calls[0].result.key
    v = p.value
    if trusted and any(kinds):
        t = call_term(v)
        ok = t is not None and t[0] == PF and len(t[1]) == 1
        rep.ob(c, ok, f'returns {v!r}, not a protected adapter', path=p,
               rule='unprotected adapter')
        if ok:
            inner = Sym(*t[1][0])
            rep.ob(c, inner.key == adapter or loc_wrapped(inner) == adapter,
                   f'protects {inner!r} instead of the adapter', path=p,
                   rule='wrong adapter')
    else:
        rep.ob(c, v.key == adapter or cn == UNTRUSTED and
               loc_wrapped(v) == adapter,
               f'returns {v!r} instead of the adapter', path=p,
               rule='wrong adapter')
    return 1


@rule('C20', 'locations of adapters',
      'on the same paths: the location proxy and the parent the adapter gets '
      'against the table of the property, from the facts about ILocation and '
      'the present parent')
def c20(ctx, rep):
    for config in ('c', 'pure'):
        w = ctx.world(config)
        for cn in CLASSES + (UNTRUSTED,):
            for kinds, earlier in cases(ctx):
                c = case_name(cn, kinds, earlier, config)
                seen = set()
                rep.count('cases')
                for p in adapter_paths(ctx, w, cn, kinds, earlier):
                    rep.count('paths')
                    loc_oracle(rep, c, p, cn, kinds, seen)
                for s in ('not locatable', 'no parent', 'parent'):
                    rep.ob(c, s in seen, f'no path for an adapter: {s}',
                           rule='case missing: ' + s)
    rep.floor('cases', 36)
    rep.floor('paths', 80)


def asks_provided(k, adapter):
    """k is whether the adapter provides ILocation"""
    f, args = k[1], k[2]
    if f[0] == 'attr':
        name, base = f[2], f[1]
    elif f[0] == 'ext':
        base, _, name = f[1].rpartition('.')
    else:
        return False
    if name == 'providedBy':
        return 'ILocation' in repr(base) and tuple(args[:1]) == (adapter,)
    # providedBy(adapter).isOrExtends(ILocation)
    return name == 'isOrExtends' and 'ILocation' in repr(args) and \
        base[0] == 'call' and 'providedBy' in repr(base[1]) and \
        tuple(base[2][:1]) == (adapter,)


def loc_oracle(rep, c, p, cn, kinds, seen):
    calls = the_call(p)
    if len(calls) != 1 or calls[0].result is None or p.kind != 'return':
        return
    adapter = calls[0].result
    trusted = cn != UNTRUSTED
    locating = cn == UNTRUSTED or \
        cn == 'LocatingTrustedAdapterFactory' and any(kinds)
    first = p.run.info_bare[0] if trusted else p.run.info_args[0]
    v = p.value
    t = call_term(v)
    if t is not None and t[0] == PF and len(t[1]) == 1:
        v = Sym(*t[1][0])
    lp = loc_wrapped(v)
    provided = None
    for a, val in p.facts.items():
        if a[0] == 'truthy' and a[1][0] == 'call' and \
                asks_provided(a[1], adapter.key):
            provided = val
    parent = Sym('attr', adapter.key, '__parent__')
    none = p.is_const(parent, None)
    sets = [e for e in events(p) if e.kind == 'setattr' and
            e.args[0].key == adapter.key]
    others = [e for e in events(p) if e.kind in ('setattr', 'delattr') and
              e not in sets and e.args[0].key != v.key]
    rep.ob(c, not others, f'changes something else: {others!r}', path=p,
           rule='changes something else')
    rep.ob(c, all(e.name == '__parent__' for e in sets),
           'sets another attribute of the adapter', path=p,
           rule='changes something else')
    if provided is False:
        seen.add('not locatable')
        rep.ob(c, not sets, 'sets the parent of an adapter that is not '
               'locatable', path=p, rule='wrong parent')
        if not locating:
            rep.ob(c, lp is None, 'location-proxies', path=p,
                   rule='wrong location proxy')
            return
        if not rep.ob(c, lp == adapter.key, 'an adapter that is not '
                      'locatable gets no location proxy', path=p,
                      rule='no location proxy'):
            return
        par = [e.args[1].key for e in events(p) if e.kind == 'setattr' and
               e.args[0].key == v.key and e.name == '__parent__']
        mk = [e for e in events(p) if e.kind == 'call' and
              e.result is not None and e.result.key == v.key]
        if not par and mk:
            e = mk[0]
            if len(e.args) > 1:
                par = [e.args[1].key]
            elif e.kw and 'container' in e.kw:
                par = [e.kw['container'].key]
        rep.ob(c, par[-1:] == [first.key], 'the location proxy\'s parent is '
               'not the first adapted object', path=p, rule='wrong parent')
        return
    rep.ob(c, lp is None, 'location-proxies an adapter that may be '
           'locatable', path=p, rule='wrong location proxy')
    if provided is not True:
        rep.ob(c, not sets, 'sets the parent without knowing whether the '
               'adapter is locatable', path=p, rule='wrong parent')
        rep.ob(c, none is False, 'does not find out whether the adapter is '
               'locatable', path=p, rule='no parent')
        return
    if none is True:
        seen.add('no parent')
        rep.ob(c, [e.args[1].key for e in sets] == [first.key],
               'a locatable adapter without parent must get the first '
               'adapted object as parent', path=p, rule='wrong parent')
    else:
        seen.add('parent')
        rep.ob(c, none is False and not sets, 'replaces a parent (or does '
               'not look)', path=p, rule='parent replaced')
