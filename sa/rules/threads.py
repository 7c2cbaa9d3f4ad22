"""Shared facts about worker threads and tasks."""
from .. import q
from .. import terms as T
from ..q import SELF, F, S


def init_field(ctx, mod, cls, index=0, name=None):
    """fields of self that the constructor sets to (or derives directly from) its index-th parameter"""
    f, ci = ctx.method(mod, cls, '__init__')
    ps = [a.arg for a in f.node.args.args][1:] + [a.arg for a in f.node.args.kwonlyargs]
    prm = S(name or ps[index])
    out = set()
    for p in q.rets(ctx.paths(mod, cls, '__init__')):
        for (o, n), v in p.st.heap.items():
            if o == SELF and v == prm:
                out.add(n)
    return out


def workers(ctx, mod, cls, methods):
    """[(path, engine, target term, effect)] of every thread started by the methods"""
    out = []
    seen = set()
    for m in methods:
        if not ctx.has(mod, cls, m):
            continue
        for p in q.rets(ctx.paths(mod, cls, m)):
            for e in q.flat(p.trace):
                if e.kind == 'call' and e.recv and e.recv[0] == 'ext' and e.recv[1].endswith('Thread'):
                    t = e.kwarg('target') or (e.args[1] if len(e.args) > 1 else None)
                    if t is not None and t not in seen:
                        seen.add(t)
                        out.append((p, t, e))
    return out


def run_worker(ctx, p, target, raises=None):
    eng = p.eng
    old = eng.raises
    eng.raises = raises
    from ..engine import Path
    eng.diverged = []
    try:
        ps = q.run_callback(ctx, p.st, eng, target, [])
        for s in eng.diverged:
            x = Path(s, 'diverge', None)
            x.eng = eng
            ps.append(x)
        return ps
    finally:
        eng.raises = old


def bodies(paths):
    """every straight piece of code of the paths: whole paths and loop bodies (innermost ones included)"""
    seen = set()
    for p in paths:
        yield p.trace, p.status, p
        for lp in q.loopsof(p.trace):
            if id(lp) in seen:
                continue
            seen.add(id(lp))
            for bp in lp.paths:
                yield bp.trace, bp.status[0], bp


def tail(trace, e):
    for i, x in enumerate(trace):
        if x is e:
            return trace[i + 1:]
    return []


def top(trace, pred):
    return [e for e in trace if pred(e)]
