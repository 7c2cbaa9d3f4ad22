"""Shared facts about the event class: which private field holds the listeners, how a listener is called."""
import ast
from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE, TRUE, FALSE
from ..program import Broken

STAR = ('star', ('sym', '*'))


def star_args(f):
    """terms of *args / **keywords of a fire method"""
    a = f.node.args
    va = ('star', ('sym', '*' + a.vararg.arg)) if a.vararg else None
    kv = ('sym', '**' + a.kwarg.arg) if a.kwarg else None
    return va, kv


def listener_field(ctx):
    """(name of the field of the event that listen() adds to, paths of listen)"""
    ps = q.rets(ctx.paths('Event', 'Event', 'listen'))
    names = {}
    for p in ps:
        for e in q.muts(p.trace):
            if e.recv[0] == 'fld' and e.recv[1] == SELF and e.name in ('insert', 'add', 'dset') and any(T.contains(a, lambda t: t[0] == 'weakref' and t[1] == p.value) for a in e.args):
                names.setdefault(e.recv[2], []).append(e)
    # the table every listener goes to (on all paths)
    every = [n for n in names if all(any(e.recv == F(SELF, n) for e in q.muts(p.trace)) for p in ps)]
    if len(every) != 1:
        # a listener kept strongly?
        strong = {}
        for p in ps:
            for e in q.muts(p.trace):
                if e.recv[0] == 'fld' and e.recv[1] == SELF and any(T.contains(a, lambda t: t == p.value) for a in e.args):
                    strong.setdefault(e.recv[2], []).append(e)
        every = [n for n in strong if all(any(e.recv == F(SELF, n) for e in q.muts(p.trace)) for p in ps)]
    return (every[0] if len(every) == 1 else None), ps


def delivery(ctx, name):
    """the calls of a fire form that reach a listener: paths, list of (path, loop, bodypath, effect)"""
    f, ci = ctx.method('Event', 'Event', name)
    ps = ctx.paths('Event', 'Event', name)
    L, _ = listener_field(ctx)
    return f, ps, L


def listener_attr(ctx):
    """name of the attribute through which a listener is called"""
    names = set()
    L, _ = listener_field(ctx)
    for form in ('fire', 'fire_any', 'fire_all'):
        for p in ctx.paths('Event', 'Event', form):
            for e in q.calls(p.trace):
                if e.recv and L and T.contains(e.recv, lambda t: t[0] == 'deref') and T.contains(e.recv, lambda t: t == F(SELF, L)):
                    names.add(e.name)
    return names


def is_delivery(e, L):
    return e.kind == 'call' and e.recv and T.contains(e.recv, lambda t: t[0] in ('deref', 'elem', 'item')) and T.contains(e.recv, lambda t: t == F(SELF, L))


def closed_values(ctx):
    """field -> value of every listener field after close() / after construction with a callable"""
    out = {}
    for p in q.rets(ctx.paths('Event', 'EventListener', 'close')):
        for (o, n), v in p.st.heap.items():
            if o == SELF:
                out.setdefault(n, set()).add(v)
    opened = {}
    for p in q.rets(ctx.paths('Event', 'EventListener', '__init__')):
        if any(e.kind == 'assume' and e.args[0][0] == 'callable' and e.name is False for e in p.trace):
            continue
        for (o, n), v in p.st.heap.items():
            if o == SELF:
                opened.setdefault(n, set()).add(v)
    return out, opened


def const_truth(vs):
    r = set()
    for v in vs:
        if v[0] == 'const':
            r.add(bool(v[2]))
        elif v[0] in ('closure', 'bound', 'new', 'func', 'class', 'sym'):
            r.add(True if v[0] != 'sym' else None)
        else:
            r.add(None)
    return r.pop() if len(r) == 1 else None


def alive_fact(trace, elemdrefs):
    """True/False/None: is the dereferenced listener known to be there on this body path"""
    r = None
    for e in trace:
        if e.kind == 'assume':
            a = e.args[0]
            if a[0] == 'truthy' and a[1] in elemdrefs:
                r = e.name
            elif a[0] == 'isnone' and a[1] in elemdrefs:
                r = not e.name
            elif a[0] in ('is', 'eq') and NONE in a[1:] and (a[1] in elemdrefs or a[2] in elemdrefs):
                r = not e.name
    return r


def skip_allowed(ctx, trace, derefs):
    """does the body path skip because a field says the listener is closed"""
    cl, op = closed_values(ctx)
    for e in trace:
        if e.kind != 'assume':
            continue
        a = e.args[0]
        for d in derefs:
            for n, vs in cl.items():
                fld = F(d, n)
                if a == ('truthy', fld):
                    c, o = const_truth(vs), const_truth(op.get(n, ()))
                    if c is not None and c == e.name and (o is None or o != c):
                        return True
                if a[0] == 'isnone' and a[1] == fld and e.name:
                    if vs == {NONE} and NONE not in op.get(n, ()):
                        return True
                if a[0] == 'callable' and a[1] == fld and not e.name:
                    return True
                if a[0] in ('is', 'eq') and fld in a[1:]:
                    return True
    return False
