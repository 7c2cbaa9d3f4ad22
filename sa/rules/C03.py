from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE, TRUE, FALSE
from . import events as E
from . import threads as W


def event_contains(ctx):
    """with every listener call also raising, no path of a fire form ends by raising"""
    L, _ = E.listener_field(ctx)
    if L is None:
        return ctx.unk('Event', 'listener table')
    for form in ('fire', 'fire_any', 'fire_all'):
        f, ci = ctx.method('Event', 'Event', form)
        ps = ctx.run(f, self_cls=ci, opts={'raises': lambda e, st: E.is_delivery(e, L)})
        n = 0
        esc = None
        for p in ps:
            d = [e for e in q.flat(p.trace) if E.is_delivery(e, L) and e.extra == 'raised']
            n += len(d)
            if form != 'fire' and d and p.status == 'ret' and any(e is x for e in d for x in p.trace):
                ctx.check(True if p.value == FALSE else (False if p.value[0] == 'const' else None), 'Event.%s after a failure' % form, 'a firing that a failing listener ended is answered with %s' % T.show(p.value), d[-1])
            if p.status == 'raise' and d and p.trace and any(e is x for e in d for x in p.trace):
                esc = [e for e in d if any(e is x for x in p.trace)][-1]
            elif p.status == 'raise' and d and p.value is not None and p.value[1] == '*':
                esc = d[-1]
        if n == 0:
            ctx.unk('Event.' + form, 'no delivery found')
        else:
            ctx.check(esc is None, 'Event.%s contains listener failures' % form, 'an exception of a listener escapes to the code that fires', esc or f)


def pool_task(ctx):
    """a failing pool task does not escape from execution, and is retired (finish function called once) like any other"""
    fn = W.init_field(ctx, 'ThreadPool', 'ThreadPoolTask', 0)
    fin = W.init_field(ctx, 'ThreadPool', 'ThreadPoolTask', 1)
    if not fn or not fin:
        return ctx.unk('ThreadPoolTask', 'function fields')
    f, ci = ctx.method('ThreadPool', 'ThreadPoolTask', 'execute')
    ps = ctx.run(f, self_cls=ci, opts={'raises': lambda e, st: e.recv == SELF and e.name in fn})
    esc = False
    n = 0
    for p in ps:
        d = [e for e in p.trace if q.is_call(e, recv=SELF) and e.name in fn and e.extra == 'raised']
        if not d:
            continue
        n += 1
        if p.status == 'raise':
            esc = True
        t = W.tail(p.trace, d[-1])
        done = [e for e in q.flat(t) if q.is_call(e, recv=SELF) and e.name in fin]
        ctx.check(len(done) == 1, 'ThreadPoolTask.execute retires a failing task', 'the finish function is called %d times after the function raised' % len(done), d[-1])
    if not n:
        return ctx.unk('ThreadPoolTask.execute', 'no function call found')
    if not esc:
        ctx.ok('ThreadPoolTask.execute contains the failure', f)
        return
    rs = lambda e, st: e.name == 'execute'
    for p, t, e in W.workers(ctx, 'ThreadPool', 'ThreadPool', ('__init__', 'start', 'queue_fn')):
        for tr, status, bp in W.bodies(W.run_worker(ctx, p, t, rs)):
            ds = [x for x in tr if x.kind == 'call' and x.name == 'execute' and x.extra == 'raised']
            if ds and status == 'raise':
                ctx.bad('ThreadPool worker', 'a failing task ends the worker', ds[-1])
            elif ds and not any(x.kind == 'call' and x.name == 'task_done' for x in W.tail(tr, ds[-1])):
                ctx.bad('ThreadPool worker', 'a failing task is not marked done', ds[-1])
            elif ds:
                ctx.ok('ThreadPool worker', ds[-1])


def dispatcher(ctx):
    """a failing dispatched function neither ends the dispatcher thread nor leaves a waiting trigger unanswered"""
    fn = W.init_field(ctx, 'ThreadPool', 'ThreadDispatcher', 0)
    ev = set()
    for p in q.rets(ctx.paths('ThreadPool', 'ThreadDispatcher', 'trigger')):
        for e in q.calls(p.trace, 'wait'):
            if e.recv[0] == 'fld' and e.recv[1] == SELF:
                ev.add(e.recv)
    ws = W.workers(ctx, 'ThreadPool', 'ThreadDispatcher', ('__init__', 'start'))
    if not fn or not ws:
        return ctx.unk('ThreadDispatcher', 'worker not found')
    n = 0
    for p, t, e in ws:
        for tr, status, bp in W.bodies(W.run_worker(ctx, p, t, lambda e, st: e.recv == SELF and e.name in fn)):
            if not any(x.kind in ('call',) for x in tr):
                continue
            ds = [x for x in tr if x.kind == 'call' and x.recv == SELF and x.name in fn]
            if isinstance(bp, object) and not hasattr(bp, 'ends'):
                continue        # whole paths are covered by their loop bodies
            for d in ds:
                n += 1
                if d.extra == 'raised':
                    ctx.check(status != 'raise' and status not in ('break', 'ret'), 'ThreadDispatcher continues', 'a failing function ends the dispatcher', d)
                ans = [x for x in q.flat(W.tail(tr, d)) if q.is_call(x, 'set') and x.recv in ev]
                if ev:
                    ctx.check(len(ans) >= 1, 'ThreadDispatcher answers a waiting trigger', 'the caller that waits for a %s function stays blocked' % ('failing' if d.extra == 'raised' else 'finished'), d)
    if not n:
        ctx.unk('ThreadDispatcher', 'function call not found')


def task_queue(ctx):
    """a task taken from a task queue is marked done exactly once even if it raises"""
    f, ci = ctx.method('Process', 'TaskQueue', 'perform_tasks')
    got = lambda t: t is not None and t[0] == 'res'
    ps = ctx.run(f, self_cls=ci, opts={'raises': lambda e, st: got(e.recv) and any(x.kind == 'call' and x.res == e.recv and x.name.startswith('get') for x in st.trace)})
    n = 0
    for tr, status, bp in W.bodies(ps):
        if not hasattr(bp, 'ends') and any(e.kind == 'loop' for e in tr):
            continue
        gets = {x.res for x in tr if x.kind == 'call' and x.name.startswith('get')}
        for d in [x for x in tr if x.kind == 'call' and x.recv in gets]:
            n += 1
            done = [x for x in q.flat(tr) if q.is_call(x, 'task_done')]
            ctx.check(len(done) == 1, 'TaskQueue.perform_tasks accounts', 'a task that %s is marked done %d times' % ('raises' if d.extra == 'raised' else 'returns', len(done)), d)
    if not n:
        ctx.unk('TaskQueue.perform_tasks', 'task call not found')


def func_model(ctx):
    """every evaluation of an asynchronous value function, failing or not, ends the pending state it began"""
    for p in q.rets(ctx.paths('Model', 'FuncStreamValueModel', '__init__'))[:1]:
        ls = q.listen_calls(p.trace, 'value_stream')
        if len(ls) != 1:
            return ctx.unk('FuncStreamValueModel', 'listener')
        cb = ls[0].args[0]
        arg = S('%fn')
        eng = p.eng
        eng.raises = lambda e, st: e.recv == arg
        try:
            ps = q.run_callback(ctx, p.st, eng, cb, [arg])
        finally:
            eng.raises = None
        ints = {n for (o, n), v in p.st.heap.items() if o == SELF and v == ('const', 'int', 0)} | {e.name for x in ps for e in q.flat(x.trace) if e.kind == 'write' and e.recv == SELF}
        n = 0
        for x in ps:
            called = [e for e in q.flat(x.trace) if e.kind == 'call' and e.recv == arg]
            if not called:
                continue
            up = {}
            for e in q.flat(x.trace):
                if e.kind == 'write' and e.recv == SELF and T.contains(e.args[0], lambda t: t == F(SELF, e.name)):
                    d = T.sub(e.args[0], F(SELF, e.name))
                    up[e.name] = d
                elif e.kind == 'write' and e.recv == SELF and e.args[0] == F(SELF, e.name):
                    up[e.name] = T.ZERO
            up = {k: v for k, v in up.items() if v[0] == 'const' or True}
            cnt = {e.name for e in q.flat(x.trace) if e.kind == 'write' and e.recv == SELF and T.to_poly(e.args[0]) is not None and T.is_num_const(T.sub(e.args[0], F(SELF, e.name))) and T.sub(e.args[0], F(SELF, e.name)) != T.ZERO}
            for c in cnt:
                n += 1
                ctx.check(True if up.get(c) == T.ZERO else (None if T.lossy(up.get(c, T.ZERO)) else False), 'FuncStreamValueModel pending count', 'the pending count is not balanced after the function %s' % ('raised' if called[-1].extra == 'raised' else 'returned'), called[-1])
        if not n:
            ctx.unk('FuncStreamValueModel', 'pending count not found')


RULES = [event_contains, pool_task, dispatcher, task_queue, func_model]
