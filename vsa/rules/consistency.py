"""C33 - C35: one implementation, trusted unwrapping, the public marker."""
import ast
import os

from ..core import rule
from ..spec import *  # noqa
from .declarations import opaque_error
from .registry import entries_of, tables_of, bases_of

ACC = ('zope.security._proxy', 'zope.security._zope_security_checker')
CHECKER_NAMES = ('Checker', 'NoProxy', '_available_by_default', '_checkers',
                 '_defaultChecker', 'selectChecker')
PROXY_NAMES = {'Proxy': '_Proxy', 'getChecker': 'getChecker',
               'getObject': 'getObject', 'removeSecurityProxy': 'getObject'}


def accelerated(v):
    """the accelerator object a value is, or is made by"""
    k = v.key
    while isinstance(k, tuple) and k and k[0] in ('call', 'attr', 'type',
                                                  'item', 'op'):
        k = k[1]
    if isinstance(k, tuple) and k[:1] == ('ext',):
        for a in ACC:
            if k[1] == a or k[1].startswith(a + '.'):
                return k[1]
    return None


def source(ctx, m):
    path = os.path.join(os.path.dirname(ctx.src), m.path)
    return ast.parse(open(path, encoding='utf-8').read())


def walk_values(w):
    """every value the modules hold: (where, value)"""
    seen = set()
    stack = []
    for m in w.modules.values():
        for n, v in m.ns.items():
            stack.append((f'{m.name}.{n}', v))
    while stack:
        where, v = stack.pop()
        if not isinstance(v, V):
            continue
        if isinstance(v, Module):
            continue
        ident = id(v)
        if ident in seen:
            continue
        seen.add(ident)
        yield where, v
        if isinstance(v, Class):
            for n, x in v.ns.items():
                stack.append((f'{where}.{n}', x))
            for b in v.bases:
                stack.append((where + ' (base)', b))
        elif isinstance(v, Inst):
            for n, x in v.attrs.items():
                stack.append((f'{where}.{n}', x))
            d = getattr(v, 'dictval', None)
            if d is not None:
                stack.append((where, d))
            if isinstance(v.cls, V):
                stack.append((where + ' (class)', v.cls))
        elif isinstance(v, Dict):
            for k, x in entries_of(v):
                stack.append((f'{where}[{show(k.key)[:40]}]', k))
                stack.append((f'{where}[{show(k.key)[:40]}]', x))
        elif isinstance(v, List):
            for x in v.items:
                stack.append((where + '[]', x))
        elif isinstance(v, Func):
            for x in list(v.defaults) + list(
                    (v.kwdefaults or {}).values()):
                stack.append((where + ' (default)', x))


# ------------------------------------------------------------------- C33
from ..pyai import ImportFails    # noqa


def wrapped_functions(v):
    if isinstance(v, Func):
        return [v]
    if isinstance(v, Wrapped):
        return [f for x in v.parts for f in wrapped_functions(x)]
    if isinstance(v, Bound):
        return wrapped_functions(v.func)
    return []


@rule('C33', 'implementation choice',
      'every value reachable from the module globals as the import leaves '
      'them, in each mode: which implementation it belongs to')
def c33(ctx, rep):
    for config in ('pure', 'purewatch', 'noext', 'c', 'watch', 'watch2',
                   'zero', 'empty', 'watchword', 'purewatchword'):
        try:
            ctx.world(config)
            rep.ob(f'import ({config})', True, 'works')
        except ImportFails as e:
            rep.ob(f'import ({config})', False, str(e),
                   rule='cannot be imported')
    if rep.violations:
        return
    for config in ('pure', 'purewatch', 'noext', 'purewatchword'):
        w = ctx.world(config)
        c = f'no accelerated object ({config})'
        n = 0
        for where, v in walk_values(w):
            n += 1
            rep.ob(c, accelerated(v) is None, f'{where} is {v!r}',
                   where=where, rule=f'accelerated: {where}')
        rep.count('values', n)
        expect(rep, w, config, False)
    for config in ('c', 'watch', 'watch2', 'zero', 'empty', 'watchword'):
        w = ctx.world(config)
        expect(rep, w, config, True)
        c = f'accelerated throughout ({config})'
        py = {x.uid: n for n, x in w.modules['zope.security.checker']
              .ns.items() if n in ('CheckerPy', 'selectCheckerPy')}
        py.update({x.uid: n for n, x in w.modules['zope.security.proxy']
                   .ns.items() if n in ('ProxyPy', 'getCheckerPy',
                                        'getObjectPy')})
        marker = w.get('checker.CheckerPublic')
        own = w.module_calls.get(marker.key, ((), {}))[0]
        own = {x.uid for x in own if isinstance(x, Obj)}
        n = 0
        for where, v in walk_values(w):
            n += 1
            if isinstance(v, Obj) and v.uid in py:
                name = where.rsplit('.', 1)[-1]
                rep.ob(c, name == py[v.uid], f'{where} is the Python '
                       f'{py[v.uid]}', where=where,
                       rule=f'not accelerated: {where}')
            elif isinstance(v, Inst) and isinstance(v.cls, Class) and \
                    v.uid not in own:
                names = [getattr(b, 'name', '') for b in bases_of(v.cls)]
                rep.ob(c, 'ProxyPy' not in names and
                       'CheckerPy' not in names, f'{where} is {v!r}',
                       where=where, rule=f'not accelerated: {where}')
            elif isinstance(v, Class) and v.name not in ('CheckerPy',
                                                         'ProxyPy'):
                names = [getattr(b, 'name', '') for b in bases_of(v)]
                rep.ob(c, 'ProxyPy' not in names and
                       'CheckerPy' not in names, f'{where} is {v!r}',
                       where=where, rule=f'not accelerated: {where}')
        rep.count('values', n)
    rep.floor('values', 1000)


def expect(rep, w, config, acc):
    """what each module means by the shared names"""
    c = f'shared names ({config})'
    chk, prx = ACC[1], ACC[0]
    want = {}
    watch = 'watch' in config
    for n in CHECKER_NAMES:
        want[('zope.security.checker', n)] = f'{chk}.{n}'
    for n, m in PROXY_NAMES.items():
        want[('zope.security.proxy', n)] = f'{prx}.{m}'
    for (m, n), e in want.items():
        v = w.modules[m].ns.get(n)
        rep.count('shared names')
        if not rep.ob(c, v is not None, f'{m}.{n} is missing',
                      where=f'{m}.{n}', rule=f'missing: {n}'):
            continue
        if acc:
            ok = v.key == ('ext', e)
            if n == 'Checker' and watch:
                ok = isinstance(v, Class) and any(
                    b.key == ('ext', e) for b in bases_of(v))
        else:
            ok = not isinstance(v, Sym) and accelerated(v) is None
        rep.ob(c, ok, f'{m}.{n} is {v!r}', where=f'{m}.{n}',
               rule=f'wrong implementation: {n}')
        # every other module has the same object under that name
        for m2 in w.modules.values():
            x = m2.ns.get(n)
            if x is None or m2.name == m:
                continue
            rep.count('shared names')
            rep.ob(c, x.key == v.key, f'{m2.name}.{n} is {x!r}, but {m}.{n} '
                   f'is {v!r}', where=f'{m2.name}.{n}',
                   rule=f'two of them: {n}')
    # the table lookup in use is of that table
    reg = w.get('checker._checkers')
    g = w.get('checker._getChecker')
    if g is not None:
        ok = g.key in (('attr', reg.key, 'get'), (
            'ext', f'{chk}._checkers.get')) or \
            isinstance(g, (Bound, BMeth)) and \
            getattr(g, 'self', getattr(g, 'obj', None)) is reg
        rep.ob(c, ok, f'_getChecker is {g!r}', where='checker._getChecker',
               rule='another registry')
    tl = w.get('_definitions.thread_local')
    for m in w.modules.values():
        x = m.ns.get('thread_local')
        if x is not None:
            rep.ob(c, x.key == tl.key, f'{m.name} has its own thread state',
                   where=f'{m.name}.thread_local',
                   rule='another thread state')


@rule('C33', 'mode at import',
      'every function and method of the package: reads of the environment, '
      'imports of the accelerators and rebinding of the shared names')
def c33_import(ctx, rep):
    w = ctx.world('c')
    shared = set(CHECKER_NAMES) | set(PROXY_NAMES) | {
        'thread_local', 'CheckerPublic', '_getChecker', 'PURE_PYTHON',
        'PYPY', '_c_available'}
    for m in w.modules.values():
        if m.path is None:
            continue
        tree = source(ctx, m)
        for f in ast.walk(tree):
            if not isinstance(f, (ast.FunctionDef, ast.Lambda,
                                  ast.AsyncFunctionDef)):
                continue
            rep.count('functions scanned')
            name = getattr(f, 'name', '<lambda>')
            where = f'{m.path}:{f.lineno} in {name}'
            globs = set()
            for n in ast.walk(f):
                if isinstance(n, ast.Global):
                    globs |= set(n.names)
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and n.attr in (
                        'environ', 'getenv', 'environb'):
                    rep.ob(name, False, 'reads the environment after '
                           'import', where=where, rule='environment read')
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    mods = [a.name for a in n.names] if isinstance(
                        n, ast.Import) else [n.module or ''] + [
                        f'{n.module or "zope.security"}.{a.name}'
                        for a in n.names]
                    rep.ob(name, not any(x == a or x.startswith(a + '.') or
                                         x == a.rsplit('.', 1)[1]
                                         for x in mods for a in ACC),
                           'imports an accelerator after import',
                           where=where, rule='accelerator imported later')
                elif isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)) and n.id in globs:
                    rep.ob(name, n.id not in shared, f'rebinds {n.id}',
                           where=where, rule=f'rebinds {n.id}')
                elif isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)) and n.attr in shared \
                        and isinstance(n.value, ast.Name) and isinstance(
                            m.ns.get(n.value.id), Module):
                    rep.ob(name, False, f'rebinds {n.attr} of a module',
                           where=where, rule=f'rebinds {n.attr}')
    rep.floor('functions scanned', 80)


@rule('C33', 'implementation used by functions',
      'every function and method of the package outside the Python '
      'implementation: mentions of a part of that implementation')
def c33_uses(ctx, rep):
    w = ctx.world('c')
    parts = {}
    for mod in ('checker', 'proxy'):
        m = w.modules['zope.security.' + mod]
        for n, v in m.ns.items():
            if n in PY_PARTS:
                parts[v.uid] = n
    refs = {}
    for m in w.modules.values():
        if m.path is None:
            continue
        for f in functions_of(m):
            used = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    v = m.ns.get(n.id)
                    if isinstance(v, Obj) and v.uid in parts:
                        used.add(parts[v.uid])
                elif isinstance(n, ast.Attribute) and n.attr in PY_PARTS:
                    used.add(n.attr)
                elif isinstance(n, ast.ImportFrom):
                    used |= {a.name for a in n.names} & PY_PARTS
                elif isinstance(n, ast.Constant) and isinstance(
                        n.value, str) and n.value in PY_PARTS:
                    used.add(n.value)
            refs[f] = used
    names = references(w)

    def own(f):
        return f.name in PY_PARTS or f.cls is not None and any(
            getattr(b, 'name', '') in PY_PARTS for b in bases_of(f.cls))
    exempt = {f for f in refs if own(f)}
    # makers of the methods of the Python parts
    inside = set()
    for m in w.modules.values():
        for n, v in m.ns.items():
            if n in PY_PARTS and isinstance(v, Class):
                inside |= {id(x.node) for f in v.ns.values()
                           for x in wrapped_functions(f)}
    exempt |= {f for f in refs if id(f.node) in inside}
    exempt |= {f for f in refs if f not in exempt and any(
        id(n) in inside for n in ast.walk(f.node)) and not any(
        f.name in names[g] for g in names
        if g not in exempt and g is not f)}
    # helpers that nothing else uses
    while True:
        new = {f for f in refs if f not in exempt and
               f.name.startswith('_') and f.cls is None and
               any(f.name in names[g] for g in exempt if g in names) and
               not any(f.name in names[g] for g in names
                       if g not in exempt and g is not f)}
        if not new:
            break
        exempt |= new
    for f, used in refs.items():
        rep.count('functions scanned')
        if f in exempt:
            continue
        rep.ob(f.label, not used, f'uses {sorted(used)} whatever the '
               'implementation in use is', where=f.label,
               rule='uses the Python implementation')
    rep.floor('functions scanned', 80)


PY_PARTS = {'CheckerPy', 'ProxyPy', 'getCheckerPy', 'getObjectPy',
            'selectCheckerPy'}


# ------------------------------------------------------------------- C34
def references(w):
    """{function: names and attributes its body mentions}"""
    out = {}
    for m in w.modules.values():
        for f in functions_of(m):
            out[f] = {n.id if isinstance(n, ast.Name) else n.attr
                      for n in ast.walk(f.node)
                      if isinstance(n, (ast.Name, ast.Attribute))}
    return out


def functions_of(m):
    seen = set()
    stack = list(m.ns.values())
    while stack:
        v = stack.pop()
        if isinstance(v, (Bound,)):
            v = v.func
        if isinstance(v, Wrapped):
            stack += [x for x in v.parts if isinstance(x, V)]
        if isinstance(v, Func) and v.module is m and v.uid not in seen:
            seen.add(v.uid)
            yield v
        elif isinstance(v, Class) and v.module is m and v.uid not in seen:
            seen.add(v.uid)
            stack += list(v.ns.values())


UNWRAP = {'removeSecurityProxy', 'getObject', 'getObjectPy', '_wrapped',
          'removeAllProxies', 'getProxiedObject', 'queryProxy',
          'queryInnerProxy'}


def reach(w):
    """functions that may come to an unwrapping, by name"""
    refs = references(w)
    bad = set()
    names = set(UNWRAP)
    while True:
        new = {f for f, r in refs.items() if f not in bad and r & names}
        if not new:
            return bad
        bad |= new
        for f in new:
            if f.name not in ('__init__', '__new__', '__getattribute__'):
                names.add(f.name)
            if f.cls is not None:
                names.add(f.cls.name)


UNWRAPPED = {'removeSecurityProxy', 'getObject', 'removeAllProxies'}
EXEMPT = ('proxy.ProxyPy', 'proxy.getObjectPy', 'proxy.getCheckerPy')


@rule('C34', 'unwrapping functions',
      'every function and method of the package from which an unwrapping '
      'can be reached, explored with proxied arguments: where the bare '
      'objects go')
def c34(ctx, rep):
    w = ctx.world('c')
    allf = references(w)
    rep.count('functions scanned', len(allf))
    todo = reach(w)
    for f in sorted(todo, key=lambda f: f.label):
        q = f.label.split('zope.security.', 1)[-1]
        if q.startswith(EXEMPT) or f.module.name == 'zope.security.proxy' \
                and (f.cls is not None and f.cls.name == 'ProxyPy' or
                     inner(f)):
            continue
        rep.count('functions that may unwrap')
        leaks(ctx, rep, w, f, q)
    rep.floor('functions scanned', 80)
    rep.floor('functions that may unwrap', 2)


def inner(f):
    return '<locals>' in f.qual or f.name.startswith('_') and \
        not f.name.startswith('__')


def leaks(ctx, rep, w, f, q):
    if inner(f):
        return      # followed from its callers
    args = f.node.args
    names = [a.arg for a in args.posonlyargs + args.args]
    method = f.cls is not None and names and names[0] in ('self', 'cls') \
        and f.name != '__new__'

    def thunk(run):
        run.noraise += 1
        vals, bare = [], {}
        for n in names[1 if method else 0:]:
            b, k = param('bare ' + n), param('checker of ' + n)
            vals.append(make_proxy(w, run, b, k, n))
            bare[b.key] = n
        kw = {}
        if args.vararg:
            for i in (1, 2):
                n = f'{args.vararg.arg}{i}'
                b, k = param('bare ' + n), param('checker of ' + n)
                vals.append(make_proxy(w, run, b, k, n))
                bare[b.key] = n
        run.info_bare = bare
        run.noraise -= 1
        if method:
            o = Inst(f.cls, label='self', lazy=True)
            run.info_self = o
            for n in INIT_ATTRS.get(f.cls.name, ()):
                o.attrs[n] = Sym('attr', o.key, n)
            return finished(run, run.call(run.getattr_(o, f.name), vals, kw))
        return finished(run, run.call(f, vals, kw))

    def finished(run, v):
        if isinstance(v, Gen):
            return List(run.to_items(v))
        return v
    try:
        paths = live(w.explore(thunk, K=1, limit=4000))
    except Exception as e:
        from ..pyai import AnalysisError
        if not isinstance(e, AnalysisError):
            raise
        rep.count('functions too large')
        rep.ob(q, False, f'cannot be followed: {e}', where=q,
               rule='unwraps in an unfollowable way')
        return
    factory = f.module.name == 'zope.security.adapter'
    for p in paths:
        rep.count('paths')
        bare = dict(p.run.info_bare)
        for e in p.events:
            # what an unwrapping function answers for anything else
            k = func_key(e) if e.kind == 'call' else None
            if k and k[0] == 'ext' and e.result is not None and \
                    k[1].rsplit('.', 1)[-1] in UNWRAPPED and \
                    not isinstance(e.result, Const):
                bare[e.result.key] = 'of ' + k[1]
        if p.kind == 'return':
            rep.ob(q, not holds(p, p.value, bare), 'returns a bare object: '
                   f'{p.value!r}', path=p, rule='returns a bare object')
        else:
            rep.ob(q, not holds(p, p.value, bare), 'raises with a bare '
                   'object', path=p, rule='raises with a bare object')
        for e in p.events:
            hit = [a for a in args_of(e) if a.key in bare and
                   a is not e.result]
            if not hit:
                continue
            rep.ob(q, used_ok(p, e, bare, factory), 'hands on the bare '
                   f'object: {e!r}', path=p, rule='hands on a bare object')


INIT_ATTRS = {}
HARMLESS = {'builtins.isinstance', 'builtins.type', 'builtins.issubclass'}


def used_ok(p, e, bare, factory):
    k = func_key(e)
    if e.kind == 'call' and k[0] == 'ext' and k[1] in HARMLESS:
        return True
    if e.kind in ('is', 'type', 'isinstance'):
        return True
    if e.kind == 'getattr' and e.name in ('__class__',):
        return True
    return factory      # what it may do with them is C19 and C20


def holds(p, v, bare, depth=0):
    if v.key in bare:
        return True
    if depth > 3:
        return False
    if isinstance(v, List):
        return any(holds(p, x, bare, depth + 1) for x in p.list_items(v))
    if isinstance(v, Dict):
        return any(holds(p, x, bare, depth + 1)
                   for kv in p.dict_items(v) or () for x in kv)
    if isinstance(v, Inst):
        return any(holds(p, x, bare, depth + 1)
                   for x in p.attrs(v).values() if isinstance(x, V)) or any(
            holds(p, x, bare, depth + 1) for x in v.args or ())
    if isinstance(v, Bound):
        return holds(p, v.self, bare, depth + 1)
    if isinstance(v, Gen):
        return False
    return False


@rule('C34', 'proxy-aware isinstance',
      'every path of isinstance for a proxied and for any other object')
def c34_isinstance(ctx, rep):
    for config in ('c', 'pure'):
        w = ctx.world(config)
        f = w.get('proxy.isinstance')
        CLASS, W, K = param('class'), param('wrapped'), param('checker')
        for case in ('proxied', 'bare'):
            c = f'isinstance of a {case} object ({config})'
            seen = set()

            def thunk(run):
                run.noraise += 1
                o = make_proxy(w, run, W, K, 'object') \
                    if case == 'proxied' else make_bare(w, run, 'object')
                run.noraise -= 1
                run.info_o = o
                return run.call(f, [o, CLASS], {})
            for p in live(w.explore(thunk, K=ctx.K)):
                rep.count('isinstance paths')
                if p.kind == 'raise':
                    rep.ob(c, opaque_error(p), f'raises {p.value!r}',
                           path=p, rule='unexpected error')
                    continue
                want = W if case == 'proxied' else p.run.info_o
                got = [v for a, v in p.facts.items() if a[0] == 'inst' and
                       a[1] == want.key and CLASS.key in (a[2],) or
                       a[0] == 'inst' and a[1] == want.key and
                       show(CLASS.key) in repr(a[2])]
                val = p.value
                truth = val.value if isinstance(val, Const) else None
                ok = len(set(got)) == 1 and truth is got[0]
                rep.ob(c, ok, f'answers {val!r}', path=p,
                       rule='wrong answer')
                if ok:
                    seen.add(truth)
            for s in (True, False):
                rep.ob(c, s in seen, f'no path: {s}',
                       rule=f'case missing: {s}')
    rep.floor('isinstance paths', 8)


# ------------------------------------------------------------------- C35
PICKLE = {'__reduce__', '__module__', '__reduce_ex__'}


@rule('C35', 'the public marker',
      'the marker as the import leaves it: its proxy, its checker, what it '
      'pickles as, and who holds it')
def c35(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        c = f'CheckerPublic ({config})'
        v = w.get('checker.CheckerPublic')
        if isinstance(v, Inst):
            inner_, chk = v.attrs.get('_wrapped'), v.attrs.get('_checker')
            isproxy = v.cls is w.get('proxy.Proxy')
        else:
            args, kw = w.module_calls.get(v.key, ((), {}))
            inner_, chk = (list(args) + [None, None])[:2]
            t = call_term(v)
            isproxy = t is not None and t[0] == w.get('proxy.Proxy').key
        if not rep.ob(c, isproxy and inner_ is not None and
                      chk is not None, f'is not a security proxy: {v!r}',
                      where='checker.CheckerPublic', rule='not a proxy'):
            continue
        ts = tables_of(None, w, chk)
        ok = ts is not None and all(
            t is not None and all(isinstance(x, dict) for x in t)
            for t in ts)
        if rep.ob(c, ok, f'its checker is {chk!r}',
                  where='checker.CheckerPublic', rule='wrong checker'):
            rep.ob(c, not any(ts[1]), 'something can be set',
                   where='checker.CheckerPublic',
                   rule='something can be set')
            names = {}
            for lay in ts[0]:
                for n, perm in lay.values():
                    names[n.value if isinstance(n, Const) else n] = perm
            rep.ob(c, set(names) <= PICKLE, f'grants {sorted(names)}',
                   where='checker.CheckerPublic', rule='grants too much')
            rep.ob(c, {'__reduce__', '__module__'} <= set(names),
                   f'grants only {sorted(names)}',
                   where='checker.CheckerPublic', rule='cannot be pickled')
            rep.ob(c, all(x.key == v.key for x in names.values()),
                   'not granted publicly', where='checker.CheckerPublic',
                   rule='not public')
        # how it pickles
        for p in live(w.explore(lambda run: run.call(run.getattr_(
                inner_, '__reduce__'), [], {}))):
            rep.count('paths')
            rep.ob(c, p.kind == 'return' and p.is_const(
                p.value, 'CheckerPublic') is True, f'reduces to '
                f'{p.value!r}', path=p, rule='does not pickle by name')
        for p in live(w.explore(lambda run: run.getattr_(
                inner_, '__module__'))):
            ok = p.kind == 'return' and isinstance(p.value, Const) and \
                p.value.value in w.modules and w.modules[
                    p.value.value].ns.get('CheckerPublic') is v
            rep.ob(c, ok, f'is looked up in {p.value!r}', path=p,
                   rule='does not pickle by name')
        holders = 0
        for m in w.modules.values():
            x = m.ns.get('CheckerPublic')
            if x is not None:
                holders += 1
                rep.ob(c, x.key == v.key, f'{m.name} has another marker: '
                       f'{x!r}', where=f'{m.name}.CheckerPublic',
                       rule='another marker')
        rep.count('holders', holders)
        rep.ob(c, w.get('checker._default_checkers') is not None and
               proxy_unwrapped(w), 'a security proxy is not left as it is '
               'when it is wrapped', where='checker._default_checkers',
               rule='marker gets wrapped')
    rep.floor('holders', 6)


def proxy_unwrapped(w):
    P = w.get('proxy.Proxy')
    for k, v in entries_of(w.get('checker._default_checkers')):
        if k.key == P.key:
            return v.key == w.get('checker.NoProxy').key
    return False


@rule('C35', 'recognition by identity',
      'every comparison and containment test of the package that involves '
      'the public marker')
def c35_identity(ctx, rep):
    w = ctx.world('c')
    v = w.get('checker.CheckerPublic')
    for m in w.modules.values():
        if m.path is None:
            continue
        names = {n for n, x in m.ns.items()
                 if isinstance(x, V) and x.key == v.key}
        mods = {n for n, x in m.ns.items() if isinstance(x, Module)}
        tree = source(ctx, m)

        def is_marker(n):
            return isinstance(n, ast.Name) and n.id in names or \
                isinstance(n, ast.Attribute) and \
                n.attr == 'CheckerPublic' and \
                isinstance(n.value, (ast.Name, ast.Attribute)) and \
                (not isinstance(n.value, ast.Name) or n.value.id in mods)
        for n in ast.walk(tree):
            if not isinstance(n, ast.Compare):
                continue
            parts = [n.left] + n.comparators
            for i, op in enumerate(n.ops):
                two = parts[i:i + 2]
                hit = any(is_marker(x) for x in two) or (
                    isinstance(op, (ast.In, ast.NotIn)) and isinstance(
                        two[1], (ast.Tuple, ast.List, ast.Set)) and
                    any(is_marker(x) for x in two[1].elts))
                if hit:
                    rep.count('comparisons')
                    rep.ob('comparison', isinstance(op, (ast.Is, ast.IsNot)),
                           'recognises the public marker by equality',
                           where=f'{m.path}:{n.lineno}',
                           rule=f'by equality at {m.name}')
    rep.floor('comparisons', 2)


# ------------------------------------------------------------------- C41
@rule('C41', 'kinds of refusal',
      'the class hierarchy of the refusals and of the errors of the '
      'interaction machinery as the import builds it, in each mode')
def c41(ctx, rep):
    plain = {'Exception', 'BaseException', 'object'}
    for config in ('pure', 'c'):
        w = ctx.world(config)
        un, fo, fa, ni = (w.get('interfaces.' + n) for n in (
            'Unauthorized', 'Forbidden', 'ForbiddenAttribute',
            'NoInteraction'))
        ex = w.get('management.ExistingInteraction')
        fam = {}
        for n, k in (('Unauthorized', un), ('Forbidden', fo),
                     ('ForbiddenAttribute', fa), ('NoInteraction', ni),
                     ('ExistingInteraction', ex)):
            rep.count('exception classes')
            if not rep.ob(f'{n} ({config})', isinstance(k, Class), f'{k!r} '
                          'is not a class of the package', where=n,
                          rule='not a class'):
                return
            fam[n] = list(bases_of(k))
            rep.ob(f'{n} ({config})', any(
                b.key == ('ext', 'builtins.Exception') or issub(b, Exception)
                for b in fam[n]), 'not an Exception', where=n,
                rule='not an Exception')

        def says(n, what, ok):
            rep.count('relations')
            rep.ob(f'{n} ({config})', ok, what, where=n, rule=what)

        def builtin(n):
            return {b.key[1][9:] for b in fam[n] if b.key[0] == 'ext' and
                    b.key[1].startswith('builtins.')}

        def isa(n, k):
            return any(b.key == k.key for b in fam[n])
        for n in ('Unauthorized', 'Forbidden', 'NoInteraction'):
            says(n, 'is mistaken for a built-in error',
                 builtin(n) <= plain)
        says('ForbiddenAttribute', 'is not a Forbidden',
             isa('ForbiddenAttribute', fo))
        says('ForbiddenAttribute', 'is not just an AttributeError',
             builtin('ForbiddenAttribute') - plain == {'AttributeError'})
        for n in fam:
            for m, k in (('Unauthorized', un), ('Forbidden', fo),
                         ('NoInteraction', ni)):
                if n != m and (n, m) != ('ForbiddenAttribute', 'Forbidden'):
                    says(n, f'is mistaken for {m}', not isa(n, k))
        iun, ifo, ifa = (w.get('interfaces.I' + n) for n in (
            'Unauthorized', 'Forbidden', 'ForbiddenAttribute'))
        ifam = {n: [b.key for b in bases_of(k)] for n, k in (
            ('IUnauthorized', iun), ('IForbidden', ifo),
            ('IForbiddenAttribute', ifa))}
        says('IForbiddenAttribute', 'does not extend IForbidden',
             ifo.key in ifam['IForbiddenAttribute'])
        says('IForbiddenAttribute', 'does not extend IAttributeError', any(
            k[0] == 'ext' and k[1].endswith('.IAttributeError')
            for k in ifam['IForbiddenAttribute']))
        says('IForbiddenAttribute', 'extends IUnauthorized',
             iun.key not in ifam['IForbiddenAttribute'])
        says('IForbidden', 'extends IUnauthorized',
             iun.key not in ifam['IForbidden'])
        says('IUnauthorized', 'extends IForbidden',
             ifo.key not in ifam['IUnauthorized'])
    rep.floor('exception classes', 10)


def issub(b, c):
    if b.key[0] != 'ext' or not b.key[1].startswith('builtins.'):
        return False
    import builtins
    t = getattr(builtins, b.key[1][9:], None)
    return isinstance(t, type) and issubclass(t, c)
