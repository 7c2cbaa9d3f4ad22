"""histories of task queues, task sets, thread pools and dispatchers, analysed together with a model of the library's queues,
threads and events (sa/models)"""
from ..agree import agree
from ..program import Broken
from ..q import S

MODELS = ('queue', 'threading', 'time')
OPTS = {'inline_modules': MODELS, 'rec': 3}
FNS = tuple(S(n) for n in 'abcd') + (S('sink'),)
TYPES = {n: 'fn' for n in ('a', 'b', 'c', 'd', 'sink')}


def go(ctx, what, mod, params, impl, ref, w, watch=None, **kw):
    fns = FNS if watch is None else tuple(S(n) for n in watch)
    with ctx.modelled(*MODELS):
        return agree(ctx, what, mod, params, impl, ref, observe=lambda e: e.kind == 'call' and e.recv in fns, w=w, argtypes=TYPES, opts=OPTS, **kw)


def each(ctx, what, mod, params, impl, ref, w, **kw):
    """the functions may be called in any order among each other"""
    for n in params.split(', '):
        go(ctx, what, mod, params, impl, ref, w, watch=n, **kw)
