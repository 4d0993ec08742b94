"""C31, C32: references, errors and life cycles in the C extensions."""
from ..core import rule
from ..cai import Ptr
from ..centries import S, object_fields, static_types, type_name

MODULES = ('_proxy', '_zope_security_checker')
HAVE_GC = 1 << 14
GC_RULES = ()


def operands(c):
    return f' [proxies: {", ".join(c)}]' if c else ''


@rule('C31', 'C entry points',
      'every slot, method, property and function of the two extension '
      'modules and their initialisation, as LLVM IR compiled from the '
      'current source, followed on all paths with every API call both '
      'succeeding and failing: reference balance per object, use of '
      'possibly-null or released or borrowed objects, and the error '
      'indicator against what is returned')
def c31(ctx, rep):
    for mod in MODULES:
        A = ctx.centries(mod)
        for p in A.m.init_paths:
            rep.count('initialisation paths')
            judge(rep, f'{mod} initialisation', p)
        for e in A.entries:
            rep.count('entry points')
            for c, p in A.all_paths(e):
                rep.count('paths')
                judge(rep, e.label, p, operands(c))
    rep.floor('entry points', 20)
    rep.floor('paths', 200)


def judge(rep, construct, p, more=''):
    for u in p.run.unmodelled:
        rep.count('calls without a model')
    if p.kind == 'truncated':
        rep.count('paths cut at the loop bound')
    if not p.problems:
        rep.ob(construct, True)
        return
    for r, detail, site in p.problems:
        if r == 'uninitialised value used' and p.run.unmodelled:
            continue
        rep.ob(construct, False, detail + more, where=site, path=p, rule=r)


@rule('C32', 'C object life cycles',
      'creation, traversal, clearing and deallocation of every type of the '
      'extension modules on all paths: which stored references are visited, '
      'when the object is untracked, what is released and freed')
def c32(ctx, rep):
    for mod in MODULES:
        A = ctx.centries(mod)
        m = A.m
        for g in static_types(m):
            tn = type_name(m, g)
            if tn is None:
                continue
            rep.count('types')
            es = {e.name: e for e in A.entries if e.type == g}
            fields = held_fields(A, g)
            rep.count('fields holding references', len(fields))
            flags = m.named_cells(g, '_typeobject').get('tp_flags') or 0
            c = f'{tn}.tp_traverse'
            if not flags & HAVE_GC:
                rep.ob(c, not fields, f'instances hold references (offsets '
                       f'{sorted(fields)}) but do not take part in garbage '
                       f'collection', rule='not garbage collected')
            elif 'tp_traverse' not in es:
                rep.ob(c, not fields, 'no traversal function',
                       rule='references not revealed')
            else:
                traverse(rep, A, es['tp_traverse'], fields)
            if 'tp_dealloc' in es:
                dealloc(rep, A, es['tp_dealloc'], fields,
                        bool(flags & HAVE_GC))
            else:
                rep.ob(f'{tn}.tp_dealloc', not fields, 'no deallocation '
                       'function of its own', rule='references not released')
            if 'tp_clear' in es:
                clear(rep, A, es['tp_clear'], fields)
            creation(rep, A, [e for n, e in es.items()
                              if n in ('tp_new', 'tp_init')])
    rep.floor('types', 2)
    rep.floor('fields holding references', 4)


def held_fields(A, g):
    """offsets at which any entry point stores an object into an instance"""
    out = set()
    for e in A.entries:
        for c, p in A.all_paths(e):
            for ev in p.events:
                if ev.kind != 'store' or not isinstance(ev.args[1], tuple):
                    continue
                o = ev.args[0]
                if p.run.facts.get(('inst', o, ('global', g))) or \
                        e.type == g and (p.same(o, S) or o[0] == 'r' and
                                         o[2] == 'alloc'):
                    out.add(ev.name)
    # zope.proxy's base type keeps the wrapped object
    base = A.m.named_cells(g, '_typeobject').get('tp_base')
    if isinstance(base, Ptr) and base.base == ('o', ('ext',
                                                     'zope.proxy.ProxyBase')):
        out.add(16)
    return {o for o in out if o in object_fields(A.m, g)}


def present(p, off):
    """is the field non-null at entry on this path: True, False, None"""
    k = ('field', S, off)
    if (('o', S), off) not in p.run.initial and \
            k not in p.run.nullable and k not in p.run.stable:
        return None
    f = p.run.facts.get(('null', k))
    return None if f is None else not f


def traverse(rep, A, e, fields):
    for p in A.paths(e):
        rep.count('traversal paths')
        if p.kind != 'return':
            continue
        visits = [ev for ev in p.events if ev.kind == 'visit']
        want = [('field', S, o) for o in sorted(fields)]
        seen = [ev.args[0] for ev in visits]
        stopped = [ev for ev in visits if ev.res != ('int', 0)]
        bad = None
        if stopped:
            last = stopped[0].res[1]
            if p.value != last or stopped[0] is not visits[-1]:
                bad = ('the visitor\'s answer is not passed on',
                       'visitor\'s answer lost')
        else:
            for o in sorted(fields):
                k = ('field', S, o)
                n = seen.count(k)
                if present(p, o) is False:
                    if n:
                        bad = (f'field at {o} is NULL but visited',
                               'NULL visited')
                elif n != 1:
                    bad = (f'the reference at offset {o} is visited {n} '
                           f'times', 'reference not revealed once')
            if bad is None and p.value != 0:
                bad = (f'returns {p.value} though no visitor stopped',
                       'visitor\'s answer lost')
        extra = [s for s in seen if s not in want]
        if extra and bad is None:
            # Py_VISIT(Py_TYPE(self)) is right for heap types only
            bad = (f'visits {extra[0]}, which the object does not own',
                   'visits what it does not own')
        for ev in visits:
            if ev.args[-1] not in (('param', 'arg'), None) or \
                    ev.args[-1] is None and p.run.facts.get(
                        ('null', ('param', 'arg'))) is not True:
                bad = bad or ('the visitor is not given its argument',
                              'visitor\'s argument lost')
        rep.ob(e.label, bad is None, bad[0] if bad else '', path=p,
               rule=bad[1] if bad else None)


def dealloc(rep, A, e, fields, gc):
    for p in A.paths(e):
        rep.count('deallocation paths')
        if p.kind != 'return':
            continue
        un = fr = None
        nfree = 0
        bad = None
        for i, ev in enumerate(p.events):
            if ev.kind == 'untrack' and p.same(ev.args[0], S) or \
                    ev.kind == 'slot' and ev.name == 'tp_dealloc':
                un = i if un is None else un
            elif ev.kind == 'free' and p.same(ev.args[0], S):
                nfree += 1
                fr = i
            elif ev.kind in ('decref', 'store') or ev.py:
                if gc and un is None:
                    bad = bad or (f'{ev!r} before the object is untracked',
                                  'untracked too late')
                if fr is not None:
                    bad = bad or (f'{ev!r} after the object was freed',
                                  'used after being freed')
        if nfree != 1:
            bad = bad or (f'the memory is freed {nfree} times',
                          'not freed exactly once')
        for o in sorted(fields):
            k = ('field', S, o)
            n = sum(1 for ev in p.events if ev.kind == 'decref'
                    and p.rep(ev.args[0]) == p.rep(k))
            if present(p, o) is False:
                if n:
                    bad = bad or (f'field at {o} is NULL but released',
                                  'NULL released')
            elif n != 1:
                bad = bad or (f'the reference at offset {o} is released '
                              f'{n} times', 'not released exactly once')
        rep.ob(e.label, bad is None, bad[0] if bad else '', path=p,
               rule=bad[1] if bad else None)


def clear(rep, A, e, fields):
    for p in A.paths(e):
        rep.count('clearing paths')
        if p.kind != 'return':
            continue
        bad = None
        for o in sorted(fields):
            k = ('field', S, o)
            evs = [(i, ev) for i, ev in enumerate(p.events)
                   if ev.kind == 'decref' and p.rep(ev.args[0]) == p.rep(k)]
            if not evs:
                continue
            v = p.run.mem.get((('o', S), o))
            if len(evs) > 1 or v is None or not (
                    isinstance(v, Ptr) and v.base is None):
                bad = (f'the reference at offset {o} is released but not '
                       f'forgotten', 'released and kept')
                continue
            before = [ev for ev in p.events[:evs[0][0]]
                      if ev.kind == 'store' and ev.name == o]
            if not before:
                bad = (f'the reference at offset {o} is released before it '
                       f'is forgotten', 'released while reachable')
        rep.ob(e.label, bad is None, bad[0] if bad else '', path=p,
               rule=bad[1] if bad else None)


OWNERSHIP = ('reference leaked', 'borrowed reference returned',
             'reference stored or released that is not owned',
             'reference released that is not owned')


def creation(rep, A, es):
    """references stored at creation are owned"""
    for e in es:
        for p in A.paths(e):
            rep.count('creation paths')
            bad = [x for x in p.problems if x[0] in OWNERSHIP]
            rep.ob(e.label, not bad, bad[0][1] if bad else '', path=p,
                   where=bad[0][2] if bad else None,
                   rule=bad[0][0] if bad else None)
