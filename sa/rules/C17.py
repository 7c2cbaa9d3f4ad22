from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE, TRUE, FALSE
from . import threads as W

M, CL = 'Promise', 'Promise'


def starts(ctx):
    """states of a promise after construction with a function"""
    f, ci = ctx.method(M, CL, '__init__')
    fn = S([a.arg for a in f.node.args.args][1])
    for p in q.rets(ctx.paths(M, CL, '__init__')):
        if p.st.facts.get(('truthy', fn)) is False or p.eng.known(p.st, ('callable', fn)) is False:
            continue
        q2 = p
        q2.eng.put_fact(q2.st, ('callable', fn), True)
        q2.eng.put_fact(q2.st, ('truthy', fn), True)
        q2.eng.put_fact(q2.st, ('isnone', fn), False)
        yield q2, fn


def fcalls(p, fn, fields):
    return [e for e in q.flat(p.trace) if e.kind == 'call' and (e.recv == fn or (e.recv == SELF and e.name in fields))]


def once(ctx):
    """asking for the value calls the function once, stores and returns its result; asking again, in whatever state that left, calls nothing and returns the same result"""
    f, ci = ctx.method(M, CL, 'value', 'get')
    flds = W.init_field(ctx, M, CL, 0)
    for p0, fn in starts(ctx):
        for p1 in q.then_get(ctx, p0, SELF, 'value', raises=lambda e, st: e.recv == fn or (e.recv == SELF and e.name in flds)):
            cs = fcalls(p1, fn, flds)
            if p1.status == 'raise':
                # a failing call stores nothing
                ch = {n for (o, n), v in p1.st.heap.items() if o == SELF and p0.st.heap.get((o, n)) != v}
                ctx.check(not ch, 'Promise failing call', 'a failing call changes %s' % ', '.join(sorted(ch)), f)
                for p2 in q.then_get(ctx, p1, SELF, 'value'):
                    c2 = fcalls(p2, fn, flds)
                    ctx.check(len(c2) == 1 and p2.value == c2[0].res, 'Promise after failing call', 'asking again after a failure does not evaluate', f)
                continue
            if any(c.extra == 'raised' for c in cs):
                ctx.bad('Promise failing call', 'a failing call is hidden from the caller', cs[0])
                continue
            ctx.check(True if len(cs) == 1 else False, 'Promise.value evaluates', 'the first request calls the function %d times' % len(cs), f)
            if len(cs) != 1:
                continue
            ctx.check(not cs[0].args and not cs[0].kw, 'Promise.value evaluates', 'the function gets arguments', cs[0])
            ctx.check(q.veq(p1.value, cs[0].res), 'Promise.value result', 'the value returned is not the one produced', cs[0])
            for p2 in q.then_get(ctx, p1, SELF, 'value'):
                c2 = fcalls(p2, fn, flds)
                ctx.check(not c2, 'Promise.value once', 'a later request calls the function again', c2[0] if c2 else f)
                if not c2:
                    ctx.check(q.veq(p2.value, cs[0].res), 'Promise.value remembers', 'a later request returns %s' % T.show(p2.value), f)
            for p2 in q.then_get(ctx, p1, SELF, 'opt_value'):
                ctx.check(q.veq(p2.value, cs[0].res), 'Promise.opt_value', 'the evaluated value is not given (%s)' % T.show(p2.value), f)


def peek(ctx):
    """opt_value and has_value never call the function and change nothing"""
    flds = W.init_field(ctx, M, CL, 0)
    for n in ('opt_value', 'has_value'):
        f, ci = ctx.method(M, CL, n, 'get')
        for p in ctx.paths(M, CL, n, 'get'):
            cs = [e for e in q.flat(p.trace) if e.kind == 'call' and (e.recv == SELF or e.recv in {F(SELF, x) for x in flds})]
            ctx.check(not cs, 'Promise.%s' % n, 'peeking evaluates', cs[0] if cs else f)
            ctx.check(not q.writes(p.trace, SELF), 'Promise.%s' % n, 'peeking changes the promise', f)


def has(ctx):
    """whether there is a value, and the value peeked at, are those of the last state: none before an evaluation, then the one produced"""
    f, ci = ctx.method(M, CL, 'has_value', 'get')
    flds = W.init_field(ctx, M, CL, 0)
    for p0, fn in starts(ctx):
        for n, want in (('has_value', FALSE), ('opt_value', NONE)):
            for p in q.then_get(ctx, p0, SELF, n):
                ctx.check(q.veq(p.value, want), 'Promise.%s before evaluation' % n, 'gives %s' % T.show(p.value), f)
        for p1 in q.rets(q.then_get(ctx, p0, SELF, 'value')):
            cs = fcalls(p1, fn, flds)
            if len(cs) != 1:
                continue
            for none in (True, False):
                st = p1.st.copy()
                if p1.eng.known(st, ('isnone', cs[0].res)) not in (None, none):
                    continue
                p1.eng.put_fact(st, ('isnone', cs[0].res), none)
                x = p1.__class__.__new__(p1.__class__)
                x.__dict__.update(p1.__dict__)
                x.st = st
                for p in q.then_get(ctx, x, SELF, 'has_value'):
                    if none:
                        continue        # a value None: left open
                    ctx.check(q.veq(p.value, TRUE), 'Promise.has_value after evaluation', 'gives %s' % T.show(p.value), f)


def locked(ctx):
    """the decision to evaluate, the call and the storing of its result are one critical section"""
    flds = W.init_field(ctx, M, CL, 0)
    f, ci = ctx.method(M, CL, 'value', 'get')
    for p in ctx.run(f, self_cls=ci, opts={'reads': tuple(flds)}):
        cs = [e for e in p.trace if e.kind == 'call' and e.recv == SELF and e.name in flds]
        for c in cs:
            ctx.check(bool(c.held), 'Promise.value exclusive', 'two threads may evaluate at the same time', c)
            i = p.trace.index(c)
            acq = [j for j, e in enumerate(p.trace[:i]) if e.kind == 'acq' and not e.held]
            if c.held and acq:
                rd = [e for e in p.trace[acq[-1]:i] if e.kind == 'read']
                ctx.check(bool(rd), 'Promise.value exclusive', 'whether to evaluate is decided before the lock is taken', c)
            rel = [j for j, e in enumerate(p.trace) if e.kind == 'rel' and j > i]
            ws = [j for j, e in enumerate(p.trace) if e.kind == 'write' and e.recv == SELF and j > i]
            if rel and ws and c.held:
                ctx.check(all(j < rel[-1] for j in ws) and not any(r < j for r in rel[:1] for j in ws), 'Promise.value exclusive', 'the result is stored after the lock is released', c)


RULES = [once, peek, has, locked]
