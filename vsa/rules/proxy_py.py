"""C01 - C05 for the pure-Python proxy."""
from ..core import rule
from ..pyai import AnalysisError, EXT_MEMBERS
from ..proxyspec import *  # noqa

# special methods the interpreter looks up on the type, with the number of
# operands besides the proxy
BINARY = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod', 'pow',
          'lshift', 'rshift', 'and', 'xor', 'or', 'matmul']
INPLACE = [b for b in BINARY if b != 'divmod']
UNARY = ['__neg__', '__pos__', '__abs__', '__invert__', '__complex__',
         '__int__', '__float__', '__index__', '__iter__', '__next__',
         '__len__', '__reversed__', '__bytes__', '__trunc__', '__floor__',
         '__ceil__', '__round__', '__enter__', '__aenter__', '__aiter__',
         '__anext__', '__await__', '__dir__', '__fspath__', '__del__',
         '__copy__', '__getstate__', '__sizeof__', '__getnewargs__']
OPS = {}
for _b in BINARY:
    OPS[f'__{_b}__'] = 1
    OPS[f'__r{_b}__'] = 1
for _b in INPLACE:
    OPS[f'__i{_b}__'] = 1
for _u in UNARY:
    OPS[_u] = 0
OPS.update({'__getitem__': 1, '__delitem__': 1, '__setitem__': 2,
            '__contains__': 1, '__missing__': 1, '__format__': 1,
            '__exit__': 3, '__get__': 2, '__set__': 2, '__delete__': 1,
            '__instancecheck__': 1, '__subclasscheck__': 1,
            '__mro_entries__': 1, '__buffer__': 1, '__reduce__': 0,
            '__reduce_ex__': 1, '__setstate__': 1, '__deepcopy__': 1})
INPLACE_OPS = {f'__i{b}__' for b in INPLACE}
RAW_OK = {'__len__', '__contains__'}
COMPARISONS = ['__lt__', '__le__', '__eq__', '__ne__', '__ge__', '__gt__']
UNCHECKED = set(COMPARISONS) | {'__hash__', '__bool__', '__cmp__',
                                '__length_hint__', '__str__', '__repr__'}
ATTR = {'__getattribute__', '__getattr__', '__setattr__', '__delattr__'}
STRUCTURAL = {'__new__', '__init__', '__slots__', '__module__', '__doc__',
              '__qualname__', '__init_subclass__', '__class_getitem__',
              '__subclasshook__', '__dict__', '__weakref__', '__class__',
              '__annotations__'}


def proxy_class(w):
    return w.get('proxy.ProxyPy')


def make(w, label='p'):
    C = proxy_class(w)
    o = Inst(C, label=label)
    o.attrs['_wrapped'] = OBJ
    o.attrs['_checker'] = CHK
    return o


def lookup(w, name):
    """what the interpreter finds for a special method on type(p)"""
    r = w.run.class_lookup(proxy_class(w), name)
    if r is None:
        return None
    v, owner = r
    if is_ext(owner, 'builtins.object'):
        return None
    return v


def method_paths(ctx, name, args, kw=None):
    w = ctx.world('pure')
    holder = []

    def thunk(run):
        p = make(w)
        del holder[:]
        holder.append(p)
        run.info_proxy = p
        v = lookup(w, name)
        return run.call(Bound(v, p), list(args), dict(kw or {}))
    return w.explore(thunk, K=ctx.K)


def operations_found(ctx):
    """(name, arity) of every operation type(p) answers to"""
    w = ctx.world('pure')
    C = proxy_class(w)
    names = set(OPS)
    for k in w.run.mro(C):
        if isinstance(k, Class):
            names |= {n for n in k.ns if n.startswith('__')
                      and n.endswith('__')}
        elif is_ext(k) and k.term[1] in EXT_MEMBERS:
            names |= {n for n in EXT_MEMBERS[k.term[1]] if n.startswith('__')}
    out = []
    for n in sorted(names):
        if n in UNCHECKED or n in ATTR or n in STRUCTURAL:
            continue
        v = lookup(w, n)
        if v is None or isinstance(v, Const):
            continue
        out.append(n)
    return out


def op_args(w, name):
    if name == '__call__':
        return [X, Y], {'key': param('keyword')}
    if name in OPS:
        return [X, Y, param('z')][:OPS[name]], {}
    v = lookup(w, name)
    if isinstance(v, Func):
        a = v.node.args
        n = len(a.posonlyargs + a.args) - 1
        if not a.vararg:
            return [X, Y, param('z')][:max(n, 0)], {}
    return [], {}


@rule('C01', 'python proxy operations',
      'every special method type(p) of the Python proxy answers to (own or '
      'inherited) is followed on all its paths: no event on the wrapped '
      'object precedes checker.check(obj, <the operation\'s name>), a refusal '
      'propagates unchanged with nothing done after it, and afterwards '
      'exactly that operation is performed with the same operands')
def c01(ctx, rep):
    w = ctx.world('pure')
    for name in operations_found(ctx):
        args, kw = op_args(w, name)
        variants = [(args, kw)]
        if name == '__pow__':
            variants.append(([X, Y], {}))
        for args, kw in variants:
            ps = method_paths(ctx, name, args, kw)
            rep.count('python proxy operations')
            rep.count('paths', len(ps))
            for p in live(ps):
                if check_first(rep, f'ProxyPy.{name}', p, Const(name),
                               ['check']):
                    performs(rep, f'ProxyPy.{name}', p, name, args, kw)
    rep.floor('python proxy operations', 55)


@rule('C01', 'python proxy attribute access',
      'all paths of reading an attribute of the Python proxy')
def c01_attr(ctx, rep):
    w = ctx.world('pure')
    ps = method_paths(ctx, '__getattribute__', [NAME])
    n = 0
    for p in live(ps):
        ins, nots = names_in(p, NAME)
        if ins is not None and ins <= {'_wrapped', '_checker'}:
            continue            # C05
        if ins is not None and ins <= UNCHECKED - {'__str__', '__repr__'}:
            # the methods of unchecked operations: wrapped, see C03
            continue
        n += 1
        rep.count('paths')
        if check_first(rep, 'ProxyPy attribute read', p, NAME,
                       ['check_getattr']):
            ops = operations(p)
            rep.ob('ProxyPy attribute read', len(ops) <= 1, 'the attribute '
                   f'is read {len(ops)} times', path=p,
                   rule='performed more than once')
            for e in ops:
                rep.ob('ProxyPy attribute read',
                       e.kind == 'getattr' and e.args[0].key == OBJ.key and
                       (e.name == NAME or isinstance(e.name, V) and
                        e.name.key == NAME.key or e.name in (ins or ())),
                       f'checked for the name but then does {e!r}', path=p,
                       rule='other operation than checked')
    v = lookup(w, '__getattr__')
    if v is not None:
        for p in live(method_paths(ctx, '__getattr__', [NAME])):
            n += 1
            check_first(rep, 'ProxyPy missing attribute', p, NAME,
                        ['check_getattr'])
    rep.count('attribute paths', n)
    rep.floor('attribute paths', 3)


@rule('C02', 'python proxy mutations',
      'all paths of setting and deleting an attribute or item of the Python '
      'proxy: the mutation of the wrapped object happens only after '
      'check_setattr (check for items) of that very name')
def c02(ctx, rep):
    w = ctx.world('pure')
    val = param('value')
    for meth, args, kind in (('__setattr__', [NAME, val], 'setattr'),
                             ('__delattr__', [NAME], 'delattr')):
        ps = live(method_paths(ctx, meth, args))
        c = f'ProxyPy.{meth}'
        done = 0
        for p in ps:
            ins, nots = names_in(p, NAME)
            if ins is not None and ins <= {'_wrapped', '_checker'}:
                rep.ob(c, not any(e.kind in ('setattr', 'delattr')
                                  for e in p.events),
                       'the proxy\'s own slot names reach the wrapped object '
                       'unchecked', path=p, rule='unchecked mutation')
                continue
            rep.count('paths')
            if not check_first(rep, c, p, NAME, ['check_setattr']):
                continue
            ce = check_event(p)
            if ce is None or ce.raised is not None:
                continue
            ops = operations(p)
            muts = [e for e in ops if e.kind == kind]
            good = [e for e in muts if e.args[0].key == OBJ.key and
                    isinstance(e.name, V) and e.name.key == NAME.key and
                    (kind == 'delattr' or e.args[1].key == val.key)]
            rep.ob(c, len(ops) == len(good), 'after the check something else '
                   f'is done to the wrapped object: {ops!r}', path=p,
                   rule='other mutation than checked')
            if p.kind == 'return':
                done += 1
                rep.ob(c, len(good) == 1, f'the {kind} is performed '
                       f'{len(good)} times', path=p,
                       rule='mutation not performed')
        rep.ob(c, done > 0, f'{meth} never performs the mutation',
               rule='mutation not performed')
        rep.count('mutating operations')
    for meth, args in (('__setitem__', [X, val]), ('__delitem__', [X])):
        c = f'ProxyPy.{meth}'
        v = lookup(w, meth)
        if v is None:
            rep.ob(c, False, f'{meth} is missing', rule='missing operation')
            continue
        rep.count('mutating operations')
        for p in live(method_paths(ctx, meth, args)):
            rep.count('paths')
            if check_first(rep, c, p, Const(meth), ['check']):
                performs(rep, c, p, meth, args)
    rep.floor('mutating operations', 4)


def own_failure(rep, c, p):
    """only the checker and what is done to the object can fail"""
    rep.ob(c, p.kind != 'raise' or raised_by(p) is not None or
           exc_class(p) == 'opaque', f'the proxy itself raises {p.value!r}',
           path=p, rule='fails by itself')


@rule('C03', 'python proxy results',
      'on every path of every operation of the Python proxy that returns, '
      'the value returned is checker.proxy(<result of the operation>) (for '
      'in-place operations the very same proxy iff the result is the wrapped '
      'object), and no path alters the proxy')
def c03(ctx, rep):
    w = ctx.world('pure')
    for name in operations_found(ctx):
        args, kw = op_args(w, name)
        c = f'ProxyPy.{name}'
        for p in live(method_paths(ctx, name, args, kw)):
            rep.count('paths')
            own_failure(rep, c, p)
            proxy_unchanged(rep, c, p, None)
            if name in ('__setitem__', '__delitem__'):
                if p.kind == 'return' and not isinstance(p.value, Const):
                    rep.ob(c, is_proxied(p.value, CHK.key) is not None,
                           'raw result', path=p, rule='raw result')
                continue
            mine = [e for e in operations(p)
                    if same_operation(e, name, args, kw)]
            result_wrapped(rep, c, p, mine[-1] if mine else None,
                           raw_ok=name in RAW_OK,
                           inplace=name in INPLACE_OPS,
                           proxy=p.run.info_proxy)
        rep.count('python proxy operations')
    for p in live(method_paths(ctx, '__getattribute__', [NAME])):
        ins, nots = names_in(p, NAME)
        if ins is not None and ins <= {'_wrapped', '_checker'}:
            continue
        rep.count('paths')
        evs = [e for e in p.events if e.kind == 'getattr'
               and e.args[0].key == OBJ.key]
        if p.kind == 'return':
            wv = is_proxied(p.value, CHK.key)
            rep.ob('ProxyPy attribute read', wv is not None,
                   f'an attribute value leaves the proxy unwrapped: '
                   f'{p.value!r}', path=p, rule='raw result')
            if wv is not None and evs:
                rep.ob('ProxyPy attribute read',
                       any(e.result is not None and e.result.key == wv
                           for e in evs) or wv[0] == 'attr',
                       'the value wrapped is not the attribute\'s', path=p,
                       rule='wrong value wrapped')
    for p in live(method_paths(ctx, '__getattr__', [NAME])) \
            if lookup(w, '__getattr__') is not None else ():
        if p.kind == 'return':
            rep.ob('ProxyPy missing attribute',
                   is_proxied(p.value, CHK.key) is not None,
                   'raw value', path=p, rule='raw result')
    rep.floor('python proxy operations', 55)


@rule('C04', 'python comparisons, hash, truth',
      'all paths of the unchecked operations of the Python proxy: the answer '
      'is the wrapped object\'s own for the same operation and operands; a '
      'comparison answer is returned raw only where it is known to be True '
      'or False')
def c04(ctx, rep):
    w = ctx.world('pure')
    for name in COMPARISONS:
        c = f'ProxyPy.{name}'
        v = lookup(w, name)
        if v is None:
            rep.ob(c, False, 'no comparison method: the interpreter compares '
                   'the proxy itself', rule='own answer missing')
            continue
        rep.count('unchecked operations')
        for p in live(method_paths(ctx, name, [X])):
            rep.count('paths')
            mirror = {'__lt__': '__gt__', '__gt__': '__lt__',
                      '__le__': '__ge__', '__ge__': '__le__',
                      '__eq__': '__eq__', '__ne__': '__ne__'}[name]
            evs = [e for e in p.events if involves(e, OBJ.key)
                   and func_key(e) != ('attr', CHK.key, 'proxy')
                   and e.name != '__bool__']
            good = [e for e in evs if e.kind == 'op' and (
                e.name == name and [a.key for a in e.args] ==
                [OBJ.key, X.key] or e.name == mirror and
                [a.key for a in e.args] == [X.key, OBJ.key] and name not in
                ('__eq__', '__ne__'))]
            rep.ob(c, len(evs) == len(good) == 1 or p.kind == 'raise',
                   f'does not compare the wrapped object as asked: {evs!r}',
                   path=p, rule='wrong comparison')
            rep.ob(c, check_event(p) is None or p.kind != 'raise',
                   'a comparison is refused by the checker', path=p,
                   rule='comparison needs permission')
            own_failure(rep, c, p)
            if p.kind != 'return':
                continue
            r = p.value
            wv = is_proxied(r, CHK.key)
            if wv is not None:
                rep.ob(c, mentions(wv, OBJ.key), 'wraps something else',
                       path=p, rule='wrong answer')
            elif isinstance(r, Const) and isinstance(r.value, bool) or \
                    r.key[0] == 'ext':
                rep.ob(c, isinstance(r, Const) and any(
                    p.is_const(Sym(*k), r.value) or
                    p.facts.get(('truthy', k)) is r.value
                    for k in list(p.dom) + [
                        a[1] for a in p.facts if a[0] == 'truthy']
                    if mentions(k, OBJ.key) and mentions(k, X.key)),
                    'answers something else than the wrapped object',
                    path=p, rule='wrong answer')
            else:
                ins, nots = names_in(p, r)
                rep.ob(c, ins is not None and all(x is True or x is False
                                                  for x in ins) or
                       p.facts.get(('inst', r.key, 'builtins.bool')) is True,
                       'an answer that may be any object is handed out raw',
                       path=p, rule='raw comparison answer')
                rep.ob(c, mentions(r.key, OBJ.key) and mentions(
                    r.key, X.key) and (
                           r.key[0] != 'not' or name == '__ne__'),
                    'answers something else', path=p, rule='wrong answer')
    for name, opn in (('__hash__', '__hash__'), ('__bool__', '__bool__')):
        c = f'ProxyPy.{name}'
        v = lookup(w, name)
        if v is None:
            rep.ob(c, False, f'no {name}: the interpreter answers for the '
                   'proxy itself', rule='own answer missing')
            continue
        rep.count('unchecked operations')
        for p in live(method_paths(ctx, name, [])):
            rep.count('paths')
            evs = [e for e in p.events if involves(e, OBJ.key)]
            rep.ob(c, check_event(p) is None or p.kind != 'raise',
                   'needs permission', path=p, rule='needs permission')
            own_failure(rep, c, p)
            rep.ob(c, all(e.name in (opn, '__bool__') or
                          func_key(e) in (('ext', 'builtins.hash'),
                                          ('attr', CHK.key, 'proxy'))
                          for e in evs) and evs,
                   f'does something else than {opn}: {evs!r}', path=p,
                   rule='wrong answer')
            if p.kind == 'return':
                r = p.value
                if name == '__bool__' and isinstance(r, Const):
                    t = p.facts.get(('truthy', OBJ.key))
                    rep.ob(c, t is r.value, 'wrong truth value', path=p,
                           rule='wrong answer')
                else:
                    rep.ob(c, any(e.result is not None and e.result.key ==
                                  r.key and [a.key for a in args_of(e)] ==
                                  [OBJ.key] for e in evs) if
                           name == '__hash__' else
                           mentions(r.key, OBJ.key) and r.key != OBJ.key
                           and r.key[0] != 'not' and
                           ('__bool__' in repr(r.key) or name != '__bool__'),
                           'answers something else', path=p,
                           rule='wrong answer')
    rep.floor('unchecked operations', 8)


@rule('C04', 'python length hints',
      'all paths of the Python proxy\'s length hint: the wrapped object\'s '
      'own hint, or none where the object is known to have none; other '
      'errors propagate')
def c04_hint(ctx, rep):
    name = '__length_hint__'
    if lookup(ctx.world('pure'), name) is None:
        rep.ob('ProxyPy', True)
        return
    c = f'ProxyPy.{name}'
    rep.count('length hints')
    for p in live(method_paths(ctx, name, [])):
        rep.count('paths')
        rep.ob(c, check_event(p) is None or p.kind != 'raise',
               'needs permission', path=p, rule='needs permission')
        own_failure(rep, c, p)
        bad = [e for e in p.events if e.raised is not None]
        if p.kind != 'return':
            continue
        if bad or p.value.key[0] == 'ext' or isinstance(p.value, Const):
            none = hasattr_fact(p, OBJ, name) is False or bad and \
                exc_is(p, bad[0].raised, 'builtins.AttributeError') is True \
                or any(e.result is not None and name in repr(
                    (e.name, func_key(e), e.args)) and
                    p.is_const(e.result, None) for e in p.events)
            rep.ob(c, none and 'NotImplemented' in repr(p.value.key),
                   'an error or an answer is taken for no hint', path=p,
                   rule='error swallowed')
        else:
            rep.ob(c, any(e.kind in ('call', 'op') and e.result is not None
                          and e.result.key == p.value.key and
                          name in repr((e.name, func_key(e))) and
                          mentions(p.value.key, OBJ.key) for e in p.events),
                   f'answers {p.value!r}', path=p, rule='wrong answer')


@rule('C04', 'python text conversion',
      'all paths of str() and repr() of the Python proxy: the wrapped '
      'object\'s own text is used only after the checker allowed the '
      'operation; otherwise the text is built only from the class\'s module '
      'and name and the address')
def c04_text(ctx, rep):
    w = ctx.world('pure')
    for name in ('__str__', '__repr__'):
        c = f'ProxyPy.{name}'
        v = lookup(w, name)
        if v is None:
            rep.ob(c, False, f'no {name}', rule='missing text conversion')
            continue
        n = 0
        for p in live(method_paths(ctx, name, [])):
            rep.count('paths')
            n += 1
            own_failure(rep, c, p)
            ce = [e for e in p.events if is_call_of(e, CHK.key, 'check')
                  and [a.key for a in e.args] == [OBJ.key, Const(name).key]]
            allowed = ce and ce[0].raised is None
            for e in p.events:
                if not involves(e, OBJ.key) or e in ce:
                    continue
                if func_key(e) == ('attr', CHK.key, 'proxy'):
                    continue
                own = e.kind == 'op' and e.name in (
                    '__str__', '__repr__') and e.args and \
                    e.args[0].key == OBJ.key
                if own and e.name == name:
                    rep.ob(c, bool(allowed) and ce[0].idx < e.idx,
                           'the wrapped object\'s own text is used without '
                           'permission', path=p, rule='text without '
                           'permission')
                    continue
                rep.ob(c, neutral(e), f'the neutral text is made with {e!r}',
                       path=p, rule='neutral text discloses')
            if p.kind == 'return':
                r = p.value
                wv = is_proxied(r, CHK.key)
                ok = r.key[0] in ('fmt', 'str') and neutral_key(r.key)
                if not ok:
                    k = wv or r.key
                    ok = bool(allowed) and k[0] == 'op' and k[1] == name \
                        and k[2] == OBJ.key
                if not ok and allowed:
                    # text of the permitted operation, however converted
                    k = wv or r.key
                    ok = k[0] in ('op', 'str') and mentions(k, OBJ.key)
                rep.ob(c, ok, f'returns {r!r}', path=p,
                       rule='text discloses')
        rep.count('text paths', n)
        rets = [1]
        rep.ob(c, bool(rets))
    rep.floor('text paths', 6)


CLASS_TEXT = (('attr', ('attr', OBJ.key, '__class__'), '__module__'),
              ('attr', ('attr', OBJ.key, '__class__'), '__name__'),
              ('attr', ('type', OBJ.key), '__module__'),
              ('attr', ('type', OBJ.key), '__name__'),
              ('attr', ('attr', OBJ.key, '__class__'), '__qualname__'),
              ('attr', ('type', OBJ.key), '__qualname__'))
CLASSES = (('attr', OBJ.key, '__class__'), ('type', OBJ.key))


def neutral_key(k):
    """built only from the class's module and name and the address"""
    if k in CLASS_TEXT:
        return True
    if isinstance(k, tuple) and k and k[0] == 'call' and k[1] == (
            'ext', 'builtins.id'):
        return True
    if k == OBJ.key or k in CLASSES:
        return False
    if isinstance(k, tuple):
        return all(neutral_key(x) for x in k)
    return True


def neutral(e):
    if e.kind == 'fmt':
        return all(neutral_key(a.key) for a in e.args)
    if e.kind == 'getattr':
        k = e.args[0].key
        return k == OBJ.key and e.name == '__class__' or k in CLASSES and \
            e.name in ('__module__', '__name__', '__qualname__')
    if e.kind == 'call':
        return func_key(e) == ('ext', 'builtins.id')
    if e.kind == 'op' and e.name in ('__str__', '__format__', '__mod__',
                                     '__add__', '__repr__'):
        return all(neutral_key(a.key) for a in e.args)
    return all(neutral_key(a.key) for a in args_of(e))


@rule('C05', 'python proxy slots',
      'all paths of reading, setting and deleting an attribute of the Python '
      'proxy for a caller outside the proxy: the object and checker are '
      'neither returned nor replaced; all paths of its construction: a None '
      'checker is refused and the pair is the one given')
def c05(ctx, rep):
    w = ctx.world('pure')
    val = param('value')
    outside = 0
    for meth, args in (('__getattribute__', [NAME]),
                       ('__setattr__', [NAME, val]),
                       ('__delattr__', [NAME])):
        c = f'ProxyPy.{meth}'
        for p in live(method_paths(ctx, meth, args)):
            rep.count('paths')
            if inside(p):
                continue
            outside += 1
            if p.kind == 'return':
                k = p.value.key
                rep.ob(c, k not in (OBJ.key, CHK.key), 'code outside gets '
                       'the object or checker of the proxy', path=p,
                       rule='slot readable')
                rep.ob(c, not any(e.kind in ('slotset', 'slotdel')
                                  for e in p.events), 'code outside replaces '
                       'the object or checker', path=p,
                       rule='slot writable')
            ins, nots = names_in(p, NAME)
            if p.kind == 'return' and ins is not None and \
                    ins <= {'_wrapped', '_checker'}:
                rep.ob(c, False, f'{meth} of a slot name succeeds from '
                       'outside', path=p, rule='slot accessible')
            elif p.kind == 'return' and meth == '__getattribute__' and \
                    is_proxied(p.value, CHK.key) is None:
                rep.ob(c, False, 'an attribute read bypasses the checker\'s '
                       'wrapping', path=p, rule='bypass')
    rep.count('outside paths', outside)
    rep.floor('outside paths', 6)
    # construction
    value, chk = param('value'), param('chk')

    def build(run):
        return run.call(proxy_class(w), [value, chk], {})
    made = 0
    for p in live(w.explore(build, K=ctx.K)):
        rep.count('paths')
        if p.kind == 'return':
            o = p.value
            ok = isinstance(o, Inst) and o.cls is proxy_class(w)
            rep.ob('ProxyPy construction', ok, 'no proxy is made', path=p,
                   rule='no proxy')
            rep.ob('ProxyPy construction', p.is_const(chk, None) is False,
                   'a proxy is made with None as its checker', path=p,
                   rule='None checker accepted')
            sets = {}
            for e in p.events:
                if e.kind == 'slotset':
                    sets[e.name] = e.args[1].key
            rep.ob('ProxyPy construction',
                   sets.get('_wrapped') == value.key and
                   sets.get('_checker') == chk.key,
                   f'the pair stored is not the one given: {sets!r}', path=p,
                   rule='wrong pair stored')
            made += 1
        else:
            rep.ob('ProxyPy construction', p.is_const(chk, None) is True or
                   exc_class(p) == 'opaque',
                   'a proper checker is refused', path=p,
                   rule='checker refused')
    rep.ob('ProxyPy construction', made > 0, 'never succeeds',
           rule='no proxy')
    # the class offers no other way to its slots
    C = proxy_class(w)
    slots = C.ns.get('__slots__')
    names = {x.value for x in slots.items} if isinstance(slots, List) else set()
    rep.ob('ProxyPy slots', {'_wrapped', '_checker'} <= names or not names,
           'slots renamed', rule='slots') if 0 else None
    # trusted functions
    for fn, what in (('proxy.getObjectPy', OBJ), ('proxy.getCheckerPy', CHK)):
        trusted(rep, ctx, w, w.get(fn), fn, what)
    for fn, what in (('proxy.removeSecurityProxy', OBJ),
                     ('proxy.getObject', OBJ), ('proxy.getChecker', CHK)):
        trusted(rep, ctx, w, w.get(fn), fn, what)


def inside(p):
    """the path assumes that the calling frame belongs to the proxy"""
    for a, v in p.facts.items():
        if v and a[0] == 'is' and 'caller.f_locals' in repr(a):
            return True
    return False


def trusted(rep, ctx, w, f, fn, what):
    def thunk(run):
        return run.call(f, [make(w)], {})
    for p in live(w.explore(thunk, K=ctx.K)):
        rep.count('paths')
        rep.ob(fn, p.kind == 'return' and p.value.key == what.key,
               f'does not give the proxy\'s {what!r}', path=p,
               rule='trusted function')
        rep.ob(fn, not any(involves(e, OBJ.key) and e.kind != 'getattr'
                           for e in p.events),
               'does something to the object', path=p,
               rule='trusted function')
    if what is OBJ:
        plain = param('plain')

        def other(run):
            return run.call(f, [plain], {})
        for p in live(w.explore(other, K=ctx.K)):
            if any(v is True and mentions(a, plain.key) and
                   ('ProxyPy' in repr(a) or '_Proxy' in repr(a)) and
                   a[0] in ('inst', 'is', 'subclass')
                   for a, v in p.facts.items()):
                continue
            rep.ob(fn, p.kind == 'return' and p.value.key == plain.key,
                   'something that is not a proxy is not returned '
                   'unchanged', path=p, rule='trusted function')
