"""client code of the persistence rules"""
from ..agree import agree
from ..program import Broken
from ..q import S

OPTS = {'dyn': True, 'alive': True, 'events': True, 'rec': 6, 'budget': 20000}
TYPES = {'x': 'obj', 'sink': 'fn', 'f': 'fn', 'g': 'fn', 'conv': 'obj', 'wr': 'fn', 'rd': 'fn', 'n': 'int'}


def where(ctx, cls, name, kind=None):
    try:
        return ctx.method('Persistence', cls, name, kind)[0]
    except Broken:
        return None


def seen(*names):
    ss = [S(n) for n in names]

    def ob(e):
        return e.kind == 'call' and e.recv in ss
    return ob


def go(ctx, what, params, pre, impl, ref, w, see=('x', 'sink', 'f'), skip=(), **kw):
    ob = seen(*see)
    types = dict(TYPES, **kw.pop('types', {}))
    return agree(ctx, what, 'Persistence', params, pre + impl, pre + ref, observe=lambda e: ob(e) and e.name not in skip, w=w, argtypes=types, opts=dict(OPTS, **kw.pop('opts', {})), **kw)
