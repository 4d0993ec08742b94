"""C42: what the package's configuration directives carry."""
import os
import xml.etree.ElementTree as ET

from ..core import rule
from ..pyai import AnalysisError
from ..spec import *  # noqa

ZOPE = 'http://namespaces.zope.org/zope'
META = 'http://namespaces.zope.org/meta'
COND = '{http://namespaces.zope.org/zcml}condition'
PKG = 'zope.security'
VOCAB = 'zope.schema.interfaces.IVocabularyFactory'

# kinds of attribute
PERMISSION = 'a defined permission'
NEWID = 'an identifier'
NAMES = 'a list of names'
INTERFACES = 'a list of interfaces'
OBJECT = 'a global object'
MESSAGE = 'a message'

# directive -> (handler, {attribute: (kind, required)})
SPEC = {
    (ZOPE, 'permission'): ('zcml.permission', {
        'id': (NEWID, True), 'title': (MESSAGE, True),
        'description': (MESSAGE, False)}),
    (ZOPE, 'securityPolicy'): ('zcml.securityPolicy', {
        'component': (OBJECT, True)}),
    (META, 'redefinePermission'): ('zcml.redefinePermission', {
        'from_': (PERMISSION, True), 'to': (PERMISSION, True)}),
    (ZOPE, 'class'): ('metaconfigure.ClassDirective', {
        'class_': (OBJECT, True)}),
    (ZOPE, 'class/implements'): ('metaconfigure.ClassDirective.implements', {
        'interface': (INTERFACES, True)}),
    (ZOPE, 'class/require'): ('metaconfigure.ClassDirective.require', {
        'permission': (PERMISSION, False), 'attributes': (NAMES, False),
        'interface': (INTERFACES, False), 'set_attributes': (NAMES, False),
        'set_schema': (INTERFACES, False), 'like_class': (OBJECT, False)}),
    (ZOPE, 'class/allow'): ('metaconfigure.ClassDirective.allow', {
        'attributes': (NAMES, False), 'interface': (INTERFACES, False)}),
    (ZOPE, 'class/factory'): ('metaconfigure.ClassDirective.factory', {
        'id': (NEWID, False), 'title': (MESSAGE, False),
        'description': (MESSAGE, False)}),
    (ZOPE, 'module'): (None, {'module': (OBJECT, True)}),
    (ZOPE, 'allow'): ('metaconfigure.allow', {
        'attributes': (NAMES, False), 'interface': (INTERFACES, False)}),
    (ZOPE, 'require'): ('metaconfigure.require', {
        'permission': (PERMISSION, True), 'attributes': (NAMES, False),
        'interface': (INTERFACES, False)}),
}
GROUPING = 'zope.configuration.config.GroupingContextDecorator'
PERMISSIONS = {'zope.Public', 'zope.View', 'zope.Security',
               'zope.ManageContent', 'zope.ManageServices',
               'zope.ManageSite'}
F = 'zope.configuration.fields.'


def split(tag):
    if tag.startswith('{'):
        ns, _, name = tag[1:].partition('}')
        return ns, name
    return None, tag


class Zcml:
    """the elements of a configuration file in the order they are carried
    out, with those of the package's own files it includes"""

    def __init__(self, src, name):
        self.dir = os.path.join(src, *PKG.split('.'))
        self.seen = []
        self.items = []     # (file, package, enclosing elements, element)
        self.external = []
        self.load(name)

    def load(self, name):
        path = os.path.normpath(os.path.join(self.dir, name))
        if path in self.seen:
            return
        self.seen.append(path)
        self.walk(ET.parse(path).getroot(), os.path.basename(path), PKG, ())

    def walk(self, el, fn, pkg, outer):
        if not isinstance(el.tag, str) or el.get(COND):
            return
        ns, name = split(el.tag)
        if name == 'configure':
            pkg = el.get('package') or pkg
            for x in el:
                self.walk(x, fn, pkg, outer)
            return
        if name == 'include':
            p = el.get('package')
            p = pkg if p in (None, '.') else p
            f = el.get('file') or 'configure.zcml'
            if p == PKG:
                self.load(f)
            self.items.append((fn, pkg, outer, el))
            return
        self.items.append((fn, pkg, outer, el))
        for x in el:
            self.walk(x, fn, pkg, outer + (el,))


def dotted(name, pkg):
    """the absolute form of a dotted name used in a configuration file"""
    name = (name or '').strip()
    if not name.startswith('.'):
        return name
    base = pkg.split('.')
    rest = name[1:]
    while rest.startswith('.'):
        base.pop()
        rest = rest[1:]
    return '.'.join(base + ([rest] if rest else []))


def find(w, name):
    """the package's global with an absolute dotted name, or None"""
    if not name.startswith(PKG + '.'):
        return None
    try:
        return w.get(name[len(PKG) + 1:])
    except AnalysisError:
        return None


class Field:
    """a field of a schema: the class it comes from and what it was made
    with"""

    def __init__(self, w, v):
        self.w, self.kinds, self.kw, self.args = w, [], {}, []
        if isinstance(v, Inst) and isinstance(v.cls, Class):
            made = getattr(v, 'made_with', None)
            self.kinds = [w.run.class_key(k) for k in w.run.mro(v.cls)]
            if made:
                self.args = [a.key for a in made[0]]
                self.kw = {k: a.key for k, a in made[1].items()}
        elif isinstance(v, Sym):
            self.of_key(v.key)

    def of_key(self, k):
        if isinstance(k, tuple) and k and k[0] == 'call':
            if k[1][0] == 'ext':
                self.kinds = [k[1][1]]
            for a in k[2]:
                if isinstance(a, tuple) and a and a[0] == 'kw':
                    self.kw[a[1]] = a[2]
                else:
                    self.args.append(a)

    def isa(self, *names):
        return any(k in names or k.rsplit('.', 1)[-1] in names
                   for k in self.kinds)

    @property
    def required(self):
        k = self.kw.get('required')
        if k is None:
            return True
        if k[0] == 'const':
            return bool(k[2])
        return None

    def listof(self):
        k = self.kw.get('value_type')
        f = Field(self.w, None)
        if k is None and self.args:
            k = self.args[0]
        if k is not None:
            f.of_key(k)
        return f

    def carries(self, kind):
        if kind == PERMISSION:
            return self.isa('zope.security.zcml.Permission')
        if kind == NEWID:
            return self.isa('Id', 'zope.schema.Id') and \
                not self.isa('zope.security.zcml.Permission')
        if kind == OBJECT:
            return self.isa(F + 'GlobalObject')
        if kind == MESSAGE:
            return self.isa(F + 'MessageID')
        if kind in (NAMES, INTERFACES):
            return self.isa(F + 'Tokens') and self.listof().isa(
                F + ('PythonIdentifier' if kind == NAMES
                     else 'GlobalInterface'))
        raise AssertionError(kind)


def fields_of(w, schema):
    out = {}
    for c in reversed(w.run.mro(schema)):
        if isinstance(c, Class):
            for n, v in c.ns.items():
                f = Field(w, v)
                if f.kinds and not n.startswith('__'):
                    out[n] = f
    return out


def parameters(f):
    """(parameters that can be given by name, those without a default,
    accepts anything)"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    nd = len(a.defaults)
    need = [x.arg for x in pos[:len(pos) - nd]] + [
        x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return ([x.arg for x in a.args + a.kwonlyargs], need,
            a.kwarg is not None)


def directives(rep, z):
    """(namespace, name) -> (schema name, handler name, where)"""
    out = {}
    for fn, pkg, outer, el in z.items:
        ns, name = split(el.tag)
        if ns != META or name not in ('directive', 'complexDirective',
                                      'subdirective', 'groupingDirective'):
            continue
        up = list(outer)
        dns = el.get('namespace')
        while dns is None and up:
            dns = up.pop().get('namespace')
        key = el.get('name')
        owner = None
        if name == 'subdirective':
            owner = next((o for o in reversed(outer)
                          if split(o.tag)[1] == 'complexDirective'), None)
            if owner is None:
                continue
            key = owner.get('name') + '/' + key
        rep.count('directives')
        h = el.get('handler')
        if owner is not None:
            h = owner.get('handler') + '.' + el.get('name')
        out[dns, key] = (name, dotted(el.get('schema'), pkg),
                         dotted(h, pkg), fn)
    return out


@rule('C42', 'directives',
      'every configuration directive the package defines: its name, the '
      'function carrying it out, and what its attributes accept')
def c42(ctx, rep):
    w = ctx.world('c')
    z = Zcml(ctx.src, 'meta.zcml')
    have = directives(rep, z)
    for key, (handler, want) in SPEC.items():
        c = f'directive {key[1]}'
        if not rep.ob(c, key in have, 'is not defined in the package\'s '
                      'meta configuration', where='meta.zcml',
                      rule='not defined'):
            continue
        form, schema, h, fn = have[key]
        rep.ob(c, form == ('complexDirective' if key[1] == 'class' else
                           'subdirective' if '/' in key[1] else
                           'groupingDirective' if key[1] == 'module' else
                           'directive'), f'defined as {form}', where=fn,
               rule='wrong form')
        s = find(w, schema)
        if not rep.ob(c, isinstance(s, Class), f'the schema {schema} is not '
                      f'one of the package', where=fn, rule='no schema'):
            continue
        if handler is None:
            hv = find(w, h)
            rep.ob(c, h == GROUPING or isinstance(hv, Class) and any(
                w.run.class_key(k) == GROUPING for k in w.run.mro(hv)),
                f'is carried out by {h}', where=fn, rule='wrong handler')
            hv = None
        else:
            hv = find(w, h)
            rep.ob(c, hv is not None and hv is w.get(handler),
                   f'is carried out by {h}', where=fn, rule='wrong handler')
        fs = fields_of(w, s)
        for n, (kind, required) in want.items():
            rep.count('attributes')
            cc = f'{c}, attribute {n.rstrip("_")}'
            f = fs.get(n)
            if not rep.ob(cc, f is not None, f'{schema} does not accept it',
                          where=schema, rule='not accepted'):
                continue
            rep.ob(cc, f.carries(kind), f'is not {kind}: {f.kinds} '
                   f'{f.kw.get("value_type")}', where=schema,
                   rule=f'not {kind}')
            rep.ob(cc, f.required in (required, None),
                   f'required: {f.required}', where=schema,
                   rule='can be left out' if required
                   else 'cannot be left out')
            # a default of another kind reaches the handler unchecked
            d = f.kw.get('default')
            rep.ob(cc, d is None or d[0] == 'const' and not d[2],
                   f'has a default: {d}', where=schema,
                   rule='means something when left out')
        fnv = hv
        if isinstance(hv, Class):
            r = w.run.class_lookup(hv, '__init__')
            fnv = r[0] if r else None
        if not isinstance(fnv, Func):
            continue
        rep.count('handlers')
        takes, need, any_ = parameters(fnv)
        skip = 2 if isinstance(hv, Class) or '/' in key[1] else 1
        first = [x.arg for x in fnv.node.args.posonlyargs +
                 fnv.node.args.args][:skip]
        for n, f in fs.items():
            rep.ob(c, any_ or n in takes and n not in first,
                   f'{h} does not take the attribute {n}', where=fnv.label,
                   rule='attribute lost')
        for n in need:
            if n not in first:
                rep.ob(c, n in fs and fs[n].required is not False,
                       f'{h} needs {n}, which can be left out',
                       where=fnv.label, rule='attribute needed')
    rep.floor('directives', 11)
    rep.floor('attributes', 25)
    rep.floor('handlers', 9)


@rule('C42', 'shipped configuration',
      'the package\'s configure.zcml and permissions.zcml: the standard '
      'permissions, vocabularies and declarations, with everything they '
      'need included before')
def c42_files(ctx, rep):
    w = ctx.world('c')
    for name in ('configure.zcml', 'permissions.zcml'):
        z = Zcml(ctx.src, name)
        known = set()
        perms = {}
        vocs, allowed = {}, set()
        for fn, pkg, outer, el in z.items:
            ns, tag = split(el.tag)
            c = f'{name}: {tag}'
            if tag == 'include':
                p = el.get('package')
                p = pkg if p in (None, '.') else p
                known.add((p, el.get('file') or 'configure.zcml'))
                continue
            if ns == META:
                if el.get('name'):
                    known.add(el.get('name'))
                continue
            if ns != ZOPE or outer:
                continue
            rep.count('directives used')
            if tag == 'utility':
                rep.ob(c, any(k[0] == 'zope.component' for k in known
                              if isinstance(k, tuple)),
                       'zope.component\'s directives are not included '
                       'before', where=fn, rule='not defined yet')
                v = find(w, dotted(el.get('component'), pkg))
                if dotted(el.get('provides'), pkg) == VOCAB and (
                        el.get('permission') in (None, 'zope.Public')):
                    vocs[el.get('name')] = v
            elif any(k == (ZOPE, tag) for k in SPEC):
                rep.ob(c, tag in known, 'the directive is not included '
                       'before', where=fn, rule='not defined yet')
            if tag == 'permission':
                i = el.get('id')
                rep.ob(f'{name}: permission {i}', i not in perms,
                       'defined twice', where=fn)
                t = (el.get('title') or '').strip()
                if t.startswith('['):
                    t = t.partition(']')[2].strip()
                rep.ob(f'{name}: permission {i}', t and
                       t not in perms.values(), f'its title is {t!r}',
                       where=fn, rule='no title of its own')
                perms[i] = t
            if tag == 'class':
                if find(w, dotted(el.get('class'), pkg)) is \
                        w.get('permission.Permission'):
                    for x in el:
                        if split(x.tag) == (ZOPE, 'allow'):
                            allowed |= {dotted(i, pkg) for i in (
                                x.get('interface') or '').split()}
                            allowed |= set((x.get('attributes') or ''
                                            ).split())
        for i in sorted(PERMISSIONS):
            rep.ob(f'{name}: permission {i}', i in perms,
                   'is not defined', where=name, rule='not defined')
        if name != 'configure.zcml':
            continue
        for n, g in (('Permissions', 'PermissionsVocabulary'),
                     ('Permission Ids', 'PermissionIdsVocabulary')):
            rep.ob(f'{name}: vocabulary {n!r}', vocs.get(n) is not None and
                   vocs[n] is w.get('permission.' + g),
                   f'is {vocs.get(n)!r}', where=name,
                   rule='not that vocabulary')
        rep.ob(f'{name}: permissions', PKG + '.interfaces.IPermission' in
               allowed or {'id', 'title', 'description'} <= allowed,
               f'only {sorted(allowed)} is public', where=name,
               rule='not readable')
    rep.floor('directives used', 15)
