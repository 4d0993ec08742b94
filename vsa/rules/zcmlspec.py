"""Configuration actions emitted on a path."""
from ..spec import *  # noqa


def actions(p, ctx):
    """(actions emitted through ctx.action, other calls on ctx)"""
    acts, rest = [], []
    names = ('discriminator', 'callable', 'args', 'kw', 'order',
             'includepath', 'info')
    for e in p.events:
        k = func_key(e) if e.kind == 'call' else None
        if k == ('attr', ctx.key, 'action'):
            d = dict(zip(names, e.args))
            d.update(e.kw or {})
            a = d.get('args')
            args = [x.key for x in items_of(a)] if a is not None else []
            kw = d.get('kw')
            acts.append(dict(event=e, discriminator=d.get('discriminator'),
                             callable=d.get('callable'), args=args,
                             argvals=items_of(a) if a is not None else [],
                             kw=kw is not None and not (
                                 isinstance(kw, Dict) and not kw.layers or
                                 p.truthy(kw) is False),
                             order=d.get('order')))
        elif k is not None and k[:2] == ('attr', ctx.key):
            rest.append(e)
    return acts, rest


def items_of(v):
    if isinstance(v, List):
        return list(v.items)
    if isinstance(v, Const) and isinstance(v.value, tuple):
        return [Const(x) for x in v.value]
    return [v]
