"""C43: components provide the interfaces they are declared to provide."""
from ..core import rule
from ..pyai import AnalysisError
from ..spec import *  # noqa

PKG = 'zope.security.'
I = 'interfaces.I'      # noqa: E741
# component -> the interfaces it provides; of a class: its instances do
INSTANCES = {
    'checker.CheckerPy': ['NameBasedChecker', 'Checker'],
    'checker.CombinedChecker': ['Checker'],
    'checker.WatchingChecker': ['NameBasedChecker', 'Checker'],
    'checker.WatchingCombinedChecker': ['Checker'],
    'simplepolicies.ParanoidSecurityPolicy': ['Interaction'],
    'simplepolicies.PermissiveSecurityPolicy': ['Interaction'],
    'permission.Permission': ['Permission'],
    '_definitions.SystemUser': ['SystemPrincipal', 'Principal'],
    'interfaces.Unauthorized': ['Unauthorized'],
    'interfaces.Forbidden': ['Forbidden'],
    'interfaces.ForbiddenAttribute': ['ForbiddenAttribute', 'Forbidden'],
    'testing.Principal': ['Principal'],
    'testing.Participation': ['Participation'],
}
OBJECTS = {
    'checker.ProxyFactory': ['SecurityProxyFactory'],
    'management': ['SecurityManagement', 'InteractionManagement'],
    'simplepolicies.ParanoidSecurityPolicy': ['SecurityPolicy'],
    'simplepolicies.PermissiveSecurityPolicy': ['SecurityPolicy'],
}
VOCABULARY = 'zope.schema.interfaces.IVocabularyFactory'
# what the interfaces ask for
NAMES = {
    'SecurityManagement': {'getSecurityPolicy': (), 'setSecurityPolicy': (
        'aSecurityPolicy',)},
    'SecurityChecking': {'checkPermission': (
        'permission', 'object', 'interaction=')},
    'SecurityProxyFactory': {'__call__': ('object', 'checker=')},
    'Checker': {'check_getattr': ('ob', 'name'),
                'check_setattr': ('ob', 'name'),
                'check': ('ob', 'operation'), 'proxy': ('value',)},
    'NameBasedChecker': {'permission_id': ('name',),
                         'setattr_permission_id': ('name',)},
    'SecurityPolicy': {'__call__': ('participation=',)},
    'Interaction': {'participations': None, 'add': ('participation',),
                    'remove': ('participation',),
                    'checkPermission': ('permission', 'object')},
    'Participation': {'interaction': None, 'principal': None},
    'InteractionManagement': {'newInteraction': ('participation=',),
                              'queryInteraction': (), 'getInteraction': (),
                              'endInteraction': ()},
    'Principal': {'id': None, 'title': None, 'description': None},
    'GroupAwarePrincipal': {'groups': None},
    'GroupClosureAwarePrincipal': {'allGroups': None},
    'MemberGetterGroup': {'getMembers': ()},
    'MemberAwareGroup': {'setMembers': ('value',)},
    'Permission': {'id': None, 'title': None, 'description': None},
}


def get(w, name):
    try:
        return w.get(name)
    except AnalysisError:
        return None


def interface(w, name):
    return get(w, I + name)


def extends(w, a, b):
    return a is b or isinstance(a, Class) and b in w.run.mro(a)


def declared(w, o, hows):
    """the interfaces declared for the object"""
    out = []
    for how, x, ifs in w.declared:
        if how in hows and (x is o or x.key == o.key):
            out += ifs
    return out


IMPLEMENTING = {'implementer', 'implementer_only', 'classImplements',
                'classImplementsFirst', 'classImplementsOnly'}
PROVIDING = {'provider', 'directlyProvides', 'alsoProvides',
             'moduleProvides'}


def implemented(w, cls):
    out = []
    for k in w.run.mro(cls) if isinstance(cls, Class) else [cls]:
        out += declared(w, k, IMPLEMENTING)
    return out


def members(w, iface):
    """name -> parameters (None: an attribute) of an interface"""
    out = {}
    for c in reversed(w.run.mro(iface)):
        if isinstance(c, Class):
            for n, v in c.ns.items():
                if n in ('__doc__', '__module__', '__qualname__',
                         '__annotations__'):
                    continue
                if isinstance(v, Func):
                    a = v.node.args
                    nd = len(a.args) - len(a.defaults)
                    out[n] = tuple(x.arg + ('=' if i >= nd else '')
                                   for i, x in enumerate(a.args))
                    if a.vararg or a.kwarg or a.kwonlyargs:
                        out[n] = ()
                else:
                    out[n] = None
    return out


def fits(f, skip, want):
    """the function can be called as the interface says, or why not"""
    while isinstance(f, Wrapped):
        if f.what == 'classmethod':
            skip = 1
        elif f.what == 'staticmethod':
            skip = 0
        elif f.what == 'property':
            return None
        f = f.parts[0]
    if isinstance(f, Bound):
        f, skip = f.func, 1
    if not isinstance(f, Func):
        return None
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    need = len(pos) - len(a.defaults) - skip
    if pos[:1] and len(pos) < skip and not a.vararg:
        return 'takes no instance'
    pos = pos[skip:]
    if any(d is None for d in a.kw_defaults):
        return 'needs an argument given by name'
    must = [n for n in want if not n.endswith('=')]
    if need > len(must):
        return f'needs {need} arguments, {len(must)} are given'
    if len(pos) < len(want) and not a.vararg:
        return f'takes {len(pos)} arguments, {len(want)} can be given'
    return None


def check_members(rep, w, c, o, iface, instance):
    """the object (a class: its instances) has what the interface names"""
    have = None
    for n, want in sorted(members(w, iface).items()):
        rep.count('members')
        cc = f'{c}.{n}'
        if want is None:
            if have is None:
                have = attributes(w, o) if instance else [o.ns] if \
                    isinstance(o, Module) else None
            if have is None:
                continue
            rep.ob(cc, have and all(n in ns for ns in have),
                   f'is missing, though {iface.name} names it', where=c,
                   rule='missing')
            continue
        skip = 1
        if instance:
            r = w.run.class_lookup(o, n)
            f = r[0] if r else None
        elif isinstance(o, Module):
            f, skip = o.ns.get(n), 0
        elif n == '__call__' and isinstance(o, Class):
            r = w.run.class_lookup(o, '__init__')
            f = r[0] if r else o
        elif n == '__call__':
            f, skip = o, 0
        else:
            f = w.run.getattr_(o, n) if isinstance(o, (Inst, Class)) else o
        if not rep.ob(cc, f is not None and not isinstance(f, Const),
                      f'is missing, though {iface.name} names it', where=c,
                      rule='missing'):
            continue
        why = fits(f, skip, want)
        rep.ob(cc, why is None, why, where=getattr(f, 'label', c),
               rule='cannot be called as the interface says')


class Names:
    def __init__(self, p, o, names):
        self.p, self.o, self.names = p, o, names

    def __contains__(self, n):
        return n in self.names or self.p.attr(self.o, n) is not None


def attributes(w, cls):
    """names a new instance has, on each way of making it that succeeds"""
    r = w.run.class_lookup(cls, '__init__')
    n = 0
    if r is not None and isinstance(r[0], Func):
        a = r[0].node.args
        n = len(a.posonlyargs + a.args) - len(a.defaults) - 1
    out = []

    def thunk(run):
        o = run.call(cls, [param(f'a{i}') for i in range(n)], {})
        return o
    for p in live(w.explore(thunk, K=1)):
        if p.kind != 'return':
            continue
        o = p.value
        if not isinstance(o, Inst):
            return None
        out.append(Names(p, o, {x for k in w.run.mro(o.cls)
                                if isinstance(k, Class) for x in k.ns}))
    return out


@rule('C43', 'declared interfaces',
      'every declaration in the package that a class, function or module '
      'provides an interface of the package: all methods and attributes the '
      'interface names are there and can be called as it says; and every '
      'component that has to provide an interface does')
def c43(ctx, rep):
    for config in ('pure', 'c'):
        w = ctx.world(config)
        for name, want in INSTANCES.items():
            cls = get(w, name)
            if not rep.ob(f'{name} ({config})', isinstance(cls, Class) or
                          config == 'c' and is_ext(cls),
                          'is no class', rule='not there'):
                continue
            have = implemented(w, cls)
            if config == 'c' and any(is_ext(k) for k in w.run.mro(cls)
                                     if isinstance(cls, Class)):
                have = have + [i for k in w.run.mro(cls) if is_ext(k)
                               for i in declared(w, k, IMPLEMENTING)]
            for i in want:
                rep.count('declarations')
                rep.ob(f'{name} ({config})', any(
                    extends(w, h, interface(w, i)) for h in have),
                    f'is not declared to provide I{i}', where=name,
                    rule=f'does not provide I{i}')
                if isinstance(cls, Class) and isinstance(interface(w, i),
                                                         Class):
                    check_members(rep, w, f'{name} ({config})', cls,
                                  interface(w, i), True)
        for name, want in OBJECTS.items():
            o = get(w, name)
            have = declared(w, o, PROVIDING) if o is not None else []
            for i in want:
                rep.count('declarations')
                rep.ob(f'{name} ({config})', any(
                    extends(w, h, interface(w, i)) for h in have),
                    f'is not declared to provide I{i}', where=name,
                    rule=f'does not provide I{i}')
        for g in ('PermissionsVocabulary', 'PermissionIdsVocabulary'):
            o = get(w, 'permission.' + g)
            rep.count('declarations')
            rep.ob(f'permission.{g} ({config})', o is not None and any(
                is_ext(h, VOCABULARY) for h in declared(w, o, PROVIDING)),
                'is not declared to be a vocabulary factory',
                where='permission.' + g,
                rule='does not provide IVocabularyFactory')
            if o is not None:
                why = fits(o, 0, ('context',))
                rep.ob(f'permission.{g} ({config})', why is None, why,
                       where='permission.' + g,
                       rule='cannot be called as the interface says')
        # whatever is declared
        for how, o, ifs in list(w.declared):
            for i in ifs:
                if not isinstance(i, Class) or not i.label.startswith(PKG):
                    continue
                instance = how in IMPLEMENTING
                if instance and not isinstance(o, Class):
                    continue        # the C checker, below
                c = f'{getattr(o, "label", getattr(o, "name", o))} ({config})'
                check_members(rep, w, c, o, i, instance)
        o = w.get('management.checkPermission')
        why = fits(o, 0, NAMES['SecurityChecking']['checkPermission'])
        rep.ob(f'management.checkPermission ({config})', why is None, why,
               where='management', rule='cannot be called as the interface '
               'says')
        for name, arg, pos in (('management.checkPermission', 'interaction',
                                2), ('checker.ProxyFactory', 'checker', 1)):
            f = w.get(name)
            if isinstance(f, Func):
                a = f.node.args
                names = [x.arg for x in a.args]
                rep.ob(f'{name} ({config})', a.kwarg is not None or
                       a.vararg is not None or names[pos:pos + 1] == [arg],
                       f'does not take {arg} by name: {names}', where=name,
                       rule='cannot be called as the interface says')
    w = ctx.world('pure')
    for name, want in NAMES.items():
        i = interface(w, name)
        if not rep.ob('I' + name, isinstance(i, Class), 'is no interface',
                      rule='not there'):
            continue
        have = members(w, i)
        for n, args in want.items():
            rep.count('names asked for')
            rep.ob(f'I{name}.{n}', n in have and (
                args is None) == (have[n] is None) and (
                args is None or len(have[n]) == len(args) and
                [x.endswith('=') for x in have[n]] ==
                [x.endswith('=') for x in args]),
                f'is {have.get(n, "missing")}', where='interfaces',
                rule='asks for something else')
    rep.floor('members', 40)
    rep.floor('declarations', 30)
    rep.floor('names asked for', 30)


@rule('C43', 'C checker',
      'the methods of the C checker type against the interface it is '
      'declared to provide')
def c43_c(ctx, rep):
    from .c_checker import checker
    X = checker(ctx, rep)
    if X.g is None:
        return
    w = ctx.world('c')
    i = interface(w, 'NameBasedChecker')
    have = declared(w, ext(PKG + '_zope_security_checker.Checker'),
                    IMPLEMENTING)
    rep.ob('C Checker', any(extends(w, h, i) for h in have),
           'is not declared to provide INameBasedChecker',
           where='checker', rule='does not provide INameBasedChecker')
    for n in members(w, i):
        rep.count('C members')
        rep.ob(f'C Checker.{n}', n + '()' in X.es, 'is missing',
               where=X.m.rel, rule='missing')
    rep.floor('C members', 6)
