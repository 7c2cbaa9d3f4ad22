"""Entry points of a class: its public methods and properties, and every function it hands out (listeners, weak reference
callbacks, thread targets, task callbacks), each expanded with everything it calls in the class."""
import time
from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE
from ..engine import TooComplex
from ..program import mangle

FN = ('closure', 'bound', 'partial')


class Entry:
    def __init__(self, label, kind, name, paths, args=(), source=None, parent=None, fn=None, func=None):
        self.label, self.kind, self.name, self.paths, self.args, self.source, self.parent, self.fn, self.func = label, kind, name, paths, args, source, parent, fn, func

    @property
    def event(self):
        """(object, name) of the event this is a listener of"""
        if self.source is not None and self.source.kind == 'call' and self.source.name == 'listen' and self.source.recv and self.source.recv[0] == 'fld':
            return self.source.recv[1], self.source.recv[2]
        return None

    def __repr__(self):
        return '<Entry %s>' % self.label


def fn_of(ctx, t):
    """(Func, number of positional arguments already bound)"""
    n = 0
    while t[0] == 'partial':
        n += len(t[2]) if len(t) > 2 and isinstance(t[2], tuple) else 0
        t = t[1]
    if t[0] == 'closure':
        return ctx.prog.funcs.get(t[1]), n
    if t[0] == 'bound':
        return ctx.prog.funcs.get(t[2]), n + 1
    return None, n


def cb_args(ctx, t):
    f, n = fn_of(ctx, t)
    if f is None:
        return None
    a = f.node.args
    ps = a.posonlyargs + a.args
    req = len(ps) - len(a.defaults)
    k = max(0, len(ps) - n) if False else max(0, req - n)
    return [S('@%d' % i) for i in range(k)]


def handed_out(p):
    """(effect, function value) of every function value that leaves through a call or is stored"""
    for e in q.flat(p.trace):
        if e.kind in ('call', 'new', 'mut'):
            for a in list(e.args) + [v for _, v in e.kw]:
                for t in walk(a):
                    if t[0] in FN:
                        yield e, t
                    elif t[0] == 'weakref' and len(t) > 2 and t[2] != NONE:
                        yield e, t[2]
        elif e.kind == 'write' and e.args and isinstance(e.args[0], tuple):
            for t in walk(e.args[0]):
                if t[0] in FN:
                    yield e, t
                elif t[0] == 'weakref' and len(t) > 2 and t[2] != NONE:
                    yield e, t[2]


def walk(a):
    if isinstance(a, tuple) and a:
        if isinstance(a[0], str):
            yield a
            if a[0] in FN or a[0] in ('genexp', 'map', 'filter', 'sorted', 'app'):
                return
            if a[0] == 'weakref':
                return
        for x in a:
            if isinstance(x, tuple):
                yield from walk(x)


def public_roots(ctx, ci, init=True):
    """(label, kind, Func) of the public methods and accessors of a class, inherited ones included"""
    out = []
    seen = set()
    for c in ctx.prog.mro(ci):
        if not hasattr(c, 'methods'):
            continue
        for n, f in c.methods.items():
            if n in seen:
                continue
            seen.add(n)
            if n.startswith('_') and not (n.startswith('__') and n.endswith('__')):
                continue        # internal; expanded where it is used
            if n == '__init__' and not init:
                continue
            if f.kind in ('static', 'class'):
                continue
            out.append((n, 'method', f))
        for n, d in c.props.items():
            for k in ('get', 'set'):
                if k in d and (n, k) not in seen:
                    seen.add((n, k))
                    out.append((n, k, d[k]))
    return out


def entries(ctx, mod, cls, opts=None, only=None, init=True, self_cls=None, skip=()):
    key = ('entries', mod, cls, repr(sorted((opts or {}).items(), key=str)), only, init)
    if key in ctx._cache:
        return ctx._cache[key]
    ci = ctx.cls(mod, cls)
    out = []
    work = []
    for n, kind, f in public_roots(ctx, ci, init):
        if only is not None and n not in only:
            continue
        if n in skip:
            continue
        try:
            ps = ctx.paths(mod, cls, n, None if kind == 'method' else kind, opts=opts) if True else None
        except TooComplex:
            ctx.unk('%s.%s' % (cls, n), 'path budget exceeded')
            continue
        en = Entry('%s.%s%s' % (cls, n, '' if kind == 'method' else ' (%s)' % kind), kind, n, ps, func=f)
        out.append(en)
        work.append(en)
    seen = set()
    while work:
        en = work.pop(0)
        for p in en.paths:
            for e, t in handed_out(p):
                f, k = fn_of(ctx, t)
                if f is None or not in_class(ctx, f, ci):
                    continue
                sk = (f.id, e.name, e.recv[2] if e.recv and e.recv[0] == 'fld' else None)
                if sk in seen:
                    continue
                seen.add(sk)
                args = cb_args(ctx, t)
                if f.name == '<lambda>' and e.kind != 'call':
                    pass
                p.eng.budget = max(p.eng.budget, 6000)
                try:
                    ps = q.run_callback(ctx, p.st, p.eng, t, args)
                except TooComplex:
                    ctx.unk('%s callback %s' % (cls, f.id), 'path budget exceeded')
                    continue
                ctx.roots[f.id] = ctx.roots.get(f.id, 0) + len(ps)
                ne = Entry('%s callback %s' % (cls, f.id.split('.', 1)[-1]), 'callback', f.name, ps, args, e, p, t, f)
                out.append(ne)
                work.append(ne)
    ctx._cache[key] = out
    return out


def in_class(ctx, f, ci):
    c = f.cls
    o = f
    while c is None and o is not None and o.outer is not None:
        o = o.outer
        c = o.cls
    if c is None:
        return False
    return any(c is x for x in ctx.prog.mro(ci)) or (c.outer_func is not None and in_class(ctx, c.outer_func, ci))


def locks_of(ctx, mod, cls):
    """fields of self that hold a lock"""
    out = set()
    ci = ctx.cls(mod, cls)
    for p in ctx.paths(mod, cls, '__init__'):
        res = {e.res for e in q.calls(p.trace) if e.recv and e.recv[0] == 'ext' and e.recv[1] in ('threading.RLock', 'threading.Lock', 'threading.Condition', 'threading.Semaphore', 'threading.BoundedSemaphore')}
        for (o, n), v in p.st.heap.items():
            if o == SELF and v in res:
                out.add(n)
    return out


def changes(trace, obj, fields):
    """effects that change the given fields (or the containers in them)"""
    fs = {F(obj, n) for n in fields}
    for e in q.flat(trace):
        if e.kind == 'mut' and (e.recv in fs):
            yield e
        elif e.kind == 'write' and e.recv == obj and e.name in fields:
            yield e


def opts_for(ctx, mod):
    """analysis options that keep mutually recursive model construction apart (each builder is analysed on its own)"""
    if mod != 'StructuredModel':
        return {}
    ids = []
    for n in ('build_model', 'build_value'):
        try:
            ids.append(ctx.prog.func(mod, n).id)
        except Exception:
            pass
    return {'opaque': tuple(ids)}
