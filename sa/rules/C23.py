from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE, TRUE, FALSE
from . import threads as W
from . import common as K
from . import pools as P


# ------------------------------------------------------------------ a single task
def task_start(ctx):
    f, ci = ctx.method('ThreadPool', 'ThreadPoolTask', '__init__')
    a = [x.arg for x in f.node.args.args][1:]
    fn, fin = S(a[0]), S(a[1])
    for p in q.rets(ctx.paths('ThreadPool', 'ThreadPoolTask', '__init__')):
        for t in (fn, fin):
            p.eng.put_fact(p.st, ('truthy', t), True)
            p.eng.put_fact(p.st, ('isnone', t), False)
            p.eng.put_fact(p.st, ('callable', t), True)
        return p, fn, fin
    return None, None, None


def task_once(ctx):
    """whatever sequence of execute and cancel a task sees, its function runs at most once, not at all once cancelled, and the task is retired exactly once, by the first of them"""
    p0, fn, fin = task_start(ctx)
    if p0 is None:
        return ctx.unk('ThreadPoolTask', 'construction')
    f, ci = ctx.method('ThreadPool', 'ThreadPoolTask', 'execute')
    ctx.method('ThreadPool', 'ThreadPoolTask', 'cancel')
    isf = lambda t, n: lambda e: e.kind == 'call' and (e.recv == t or (e.recv == SELF and p0.st.heap.get((SELF, e.name)) == t))
    cf, cd = isf(fn, 0), isf(fin, 1)
    rs = lambda e, st: cf(e)
    for seq, want in ((('execute', 'execute'), 1), (('execute', 'cancel'), 1), (('cancel', 'execute'), 0), (('cancel', 'cancel'), 0), (('cancel', 'execute', 'execute'), 0)):
        what = 'ThreadPoolTask %s' % ' then '.join(seq)
        states = [(p0, [])]
        for m in seq:
            nxt = []
            for p, tr in states:
                for p2 in q.then(ctx, p, SELF, m, raises=rs):
                    if p2.status == 'raise':
                        continue       # C03
                    nxt.append((p2, tr + [p2.trace]))
            states = nxt
        for p, trs in states:
            fs = [e for t in trs for e in q.flat(t) if cf(e)]
            ds = [e for t in trs for e in q.flat(t) if cd(e)]
            ctx.check(len(fs) == want, what, 'the function runs %d times' % len(fs), fs[-1] if fs else f)
            ctx.check(len(ds) == 1, what, 'the task is retired %d times' % len(ds), ds[-1] if ds else f)
            first = [e for e in q.flat(trs[0]) if cd(e)]
            ctx.check(len(first) == 1, what, 'the task is not retired by the first of them', f)
            for d in ds:
                ctx.check(True if d.args == (SELF,) else False, what, 'the finish function does not get the task', d)
            for e in fs:
                ctx.check(not e.args and not e.kw, what, 'the function gets arguments', e)


# ------------------------------------------------------------------ the pool
def puts(trace):
    return [e for e in q.flat(trace) if e.kind == 'call' and e.name in ('put', 'put_nowait')]


def pool_facts(ctx):
    closed = set()
    for p in q.rets(ctx.paths('ThreadPool', 'ThreadPool', 'close')):
        for e in q.writes(p.trace, SELF):
            if e.args[0] == TRUE:
                closed.add(e.name)
    tasks = set()
    for p in q.rets(ctx.paths('ThreadPool', 'ThreadPool', 'queue_fn')):
        for e in q.muts(p.trace):
            if e.recv[0] == 'fld' and e.recv[1] == SELF and any(a[0] == 'new' for a in e.args):
                tasks.add(e.recv[2])
    return closed, tasks


def is_closed(p, closed):
    for c in closed:
        k = p.st.facts.get(('truthy', F(SELF, c)))
        if k is not None:
            return k
    return None


def queueing(ctx):
    """queueing on an open pool creates one task for the function, registers it and puts it on the queue once; queueing on a closed pool does nothing; the finish function removes exactly that task"""
    closed, tasks = pool_facts(ctx)
    f, ci = ctx.method('ThreadPool', 'ThreadPool', 'queue_fn')
    fn = S([a.arg for a in f.node.args.args][1])
    if not closed:
        ctx.bad('ThreadPool.close', 'closing does not mark the pool as closed', ctx.method('ThreadPool', 'ThreadPool', 'close')[0])
    for p in q.rets(ctx.paths('ThreadPool', 'ThreadPool', 'queue_fn')):
        k = is_closed(p, closed)
        news = [e for e in q.flat(p.trace) if e.kind == 'new' and e.name == 'ThreadPoolTask']
        ps = puts(p.trace)
        ins = [e for e in q.muts(p.trace) if e.recv[0] == 'fld' and e.recv[2] in tasks]
        if k is True:
            ctx.check(not ps and not ins, 'ThreadPool.queue_fn when closed', 'a closed pool accepts a function', f)
            continue
        if k is None:
            ctx.check(False if ps and closed else None, 'ThreadPool.queue_fn when closed', 'a function is accepted without looking whether the pool is closed', f)
        ctx.check(len(ps) == 1, 'ThreadPool.queue_fn', 'the task is queued %d times' % len(ps), f)
        if len(ps) == 1:
            t = ps[0].args[0]
            ctx.check(len(ins) == 1 and t in ins[0].args, 'ThreadPool.queue_fn registers', 'the task that is queued is not registered exactly once', ps[0])
            for e in news:
                if e.res == t or True:
                    ctx.check(True if fn in e.args or any(v == fn for _, v in e.kw) else False, 'ThreadPool.queue_fn task', 'the task is not made for the function', e)
            if ins and not [h for h in ps[0].held if h[0] == 'fld']:
                # without the lock a worker may finish the task before it is registered
                ctx.check(p.trace.index(ins[0]) < p.trace.index(ps[0]) if ins[0] in p.trace and ps[0] in p.trace else None, 'ThreadPool.queue_fn order', 'the task can finish before it is registered', ps[0])
    for en in K.entries(ctx, 'ThreadPool', 'ThreadPool'):
        if en.kind == 'callback' and en.source is not None and (en.source.kind == 'new' or en.source.name == 'ThreadPoolTask') and len(en.args) == 1:
            for p in en.paths:
                ms = [e for e in q.muts(p.trace) if e.recv[0] == 'fld' and e.recv[1] == SELF]
                rm = [e for e in ms if e.name == 'remove_at' and T.contains(e.args, lambda t: t == en.args[0])] + [e for e in ms if e.name in ('discard', 'ddel') and en.args[0] in e.args]
                if p.status == 'raise':
                    continue
                ctx.check(len(rm) == 1 and len(ms) == 1 if ms else False, 'ThreadPool retires', 'finishing a task does not remove exactly that task', ms[0] if ms else en.func)


def closing(ctx):
    """closing marks the pool closed before looking at its tasks, cancels every registered task and sends one stop to every worker"""
    closed, tasks = pool_facts(ctx)
    f, ci = ctx.method('ThreadPool', 'ThreadPool', 'close')
    thr = set()
    for p in ctx.paths('ThreadPool', 'ThreadPool', 'start'):
        for e in q.muts(p.trace):
            if e.recv[0] == 'fld' and e.recv[1] == SELF:
                thr.add(e.recv[2])
    ps = ctx.run(f, self_cls=ci, opts={'reads': tuple(sorted(closed | tasks | thr))})
    for p in q.rets(ps):
        wr = [i for i, e in enumerate(p.trace) if e.kind == 'write' and e.recv == SELF and e.name in closed and e.args[0] == TRUE]
        rd = [i for i, e in enumerate(p.trace) if e.kind == 'read' and e.name in tasks]
        ctx.check(bool(wr), 'ThreadPool.close marks', 'a path of close does not mark the pool closed', f)
        cl = [lp for lp in p.trace if lp.kind == 'loop' and any(q.is_call(e, 'cancel') for bp in lp.extra.paths for e in bp.trace)]
        if not cl:
            emp = any(p.st.facts.get(('truthy', F(SELF, t))) is False or p.st.cmp('le', ('len', F(SELF, t)), True) for t in tasks)
            ctx.check(True if emp else False, 'ThreadPool.close cancels', 'pending tasks are not cancelled', f)
        for lp in cl:
            d = lp.extra.desc
            b = d.base
            while b[0] in ('copy', 'snap', 'reversed', 'values'):
                b = b[1]
            ok = b[0] == 'fld' and b[1] == SELF and b[2] in tasks
            ctx.check(True if ok else (False if b[0] == 'slice' else None), 'ThreadPool.close cancels', 'not all registered tasks are cancelled (%s)' % T.show(d.base), lp)
            for bp in lp.extra.paths:
                cs = [e for e in bp.trace if q.is_call(e, 'cancel') and e.recv[0] == 'elem']
                ctx.check(len(cs) >= 1 and bp.status[0] in ('next', 'cont'), 'ThreadPool.close cancels', 'a registered task is not cancelled', lp)
            if wr and rd:
                # only reads before the first cancel matter: the list that is cancelled
                ctx.check(wr[0] < rd[0], 'ThreadPool.close order', 'tasks queued between taking the list of tasks and closing are never cancelled', f)
        sl = [lp for lp in p.trace if lp.kind == 'loop' and any(e.name in ('put', 'put_nowait') for bp in lp.extra.paths for e in bp.trace if e.kind == 'call')]
        for lp in sl:
            t = lp.extra.desc.base
            over = T.contains(t, lambda x: x[0] == 'fld' and x[1] == SELF and x[2] in thr)
            ctx.check(True if over and not T.contains(t, lambda x: x[0] == 'slice') else None, 'ThreadPool.close stops workers', 'stop', lp)
            for bp in lp.extra.paths:
                n = [e for e in puts(bp.trace) if e.args == (NONE,)]
                ctx.check(len(n) == 1, 'ThreadPool.close stops workers', '%d stops per worker' % len(n), lp)
        if not sl and thr:
            emp = any(p.st.facts.get(('truthy', F(SELF, t))) is False or p.st.cmp('le', ('len', F(SELF, t)), True) for t in thr)
            ctx.check(True if emp else False, 'ThreadPool.close stops workers', 'the workers are not stopped', f)
        if cl and sl:
            ctx.check(p.trace.index(cl[0]) < p.trace.index(sl[0]), 'ThreadPool.close order', 'the workers are stopped before the tasks are cancelled', sl[0])


def mention(tr, t):
    return any(e.kind == 'assume' and T.contains(e.args[0], lambda x: x == t) for e in tr)


def queue_entries(ctx):
    """on every path through a worker (or run_all, run_one) an entry taken from the queue is executed at most once, only if it is a task and the pool is open, and marked done exactly once, after it was executed"""
    closed, tasks = pool_facts(ctx)
    jobs = []
    for p, t, e in W.workers(ctx, 'ThreadPool', 'ThreadPool', ('__init__', 'start', 'queue_fn')):
        jobs.append(('worker', W.run_worker(ctx, p, t)))
    if not jobs:
        ctx.unk('ThreadPool worker', 'not found')
    for m in ('run_all', 'run_one'):
        jobs.append((m, ctx.paths('ThreadPool', 'ThreadPool', m)))
    for name, ps in jobs:
        n = 0
        for tr, status, bp in W.bodies(ps):
            if not hasattr(bp, 'ends') and any(e.kind == 'loop' for e in tr):
                continue
            gets = [e for e in tr if e.kind == 'call' and e.name in ('get', 'get_nowait')]
            if not gets:
                continue
            n += 1
            g = gets[0]
            if len(gets) != 1:
                ctx.unk('ThreadPool.' + name, 'several entries per round')
                continue
            done = [i for i, e in enumerate(tr) if q.is_call(e, 'task_done')]
            ex = [i for i, e in enumerate(tr) if q.is_call(e, 'execute')]
            if status == 'raise':
                continue
            if done or status not in ('break', 'exit'):     # after the loop: the histories tell
                ctx.check(len(done) == 1, 'ThreadPool.%s marks done' % name, 'an entry is marked done %d times' % len(done), g)
            ctx.check(len(ex) <= 1, 'ThreadPool.%s executes' % name, 'a task is executed %d times' % len(ex), g)
            live = None
            for e in tr:
                if e.kind == 'assume' and e.args[0] == ('truthy', g.res):
                    live = e.name
                elif e.kind == 'assume' and e.args[0] == ('isnone', g.res):
                    live = not e.name
            op = None
            for e in tr:
                if e.kind == 'assume' and e.args[0][0] == 'truthy' and e.args[0][1] in {F(SELF, c) for c in closed}:
                    op = not e.name
            if ex:
                ctx.check(tr[ex[0]].recv == g.res, 'ThreadPool.%s executes' % name, 'executes another object than was taken', tr[ex[0]])
                ctx.check(True if live is True else (None if live is None and mention(tr, g.res) else False), 'ThreadPool.%s executes' % name, 'a stop entry may be executed', tr[ex[0]])
                ctx.check(True if op is True else (None if op is None and any(mention(tr, F(SELF, c)) for c in closed) else False), 'ThreadPool.%s closed' % name, 'a task is executed by a closed pool', tr[ex[0]])
                if done:
                    ctx.check(done[0] > ex[0], 'ThreadPool.%s marks done' % name, 'the entry is marked done before it was executed', tr[done[0]])
            else:
                ctx.check(True if live is False or op is False else (None if (live is None and mention(tr, g.res)) or (op is None and any(mention(tr, F(SELF, c)) for c in closed)) else False), 'ThreadPool.%s executes' % name, 'a task of an open pool is dropped', g)
        if not n:
            ctx.unk('ThreadPool.' + name, 'queue access not found')


def task_queue(ctx):
    """an entry taken from a task queue is called exactly once by performing and not at all by clearing, and marked done exactly once"""
    for m, want in (('perform_tasks', 1), ('clear_tasks', 0)):
        f, ci = ctx.method('Process', 'TaskQueue', m)
        n = 0
        for tr, status, bp in W.bodies(ctx.paths('Process', 'TaskQueue', m)):
            if not hasattr(bp, 'ends') and any(e.kind == 'loop' for e in tr):
                continue
            gets = [e for e in tr if e.kind == 'call' and e.name in ('get', 'get_nowait')]
            if not gets:
                continue
            if any(e.kind == 'caught' for e in tr):
                ctx.check(not any(q.is_call(e, 'task_done') for e in tr), 'TaskQueue.%s empty' % m, 'marked done without an entry', gets[0])
                continue
            n += 1
            g = gets[0]
            kw = dict(g.kw)
            blk = TRUE if g.name == 'get' else FALSE
            blk = kw.get('block', g.args[0] if g.args else blk)
            if len(g.args) < 2 and 'timeout' not in kw and blk[0] == 'const':
                ctx.check(not blk[2], 'TaskQueue.%s waits' % m, 'waits for an entry that another thread may have taken', g)
            cs = [e for e in tr if e.kind == 'call' and e.recv == gets[0].res]
            dn = [e for e in tr if q.is_call(e, 'task_done')]
            ctx.check(len(cs) == want, 'TaskQueue.%s calls' % m, 'a task is called %d times' % len(cs), gets[0])
            ctx.check(len(dn) == 1, 'TaskQueue.%s marks done' % m, 'an entry is marked done %d times' % len(dn), gets[0])
            ctx.check(status not in ('break', 'ret'), 'TaskQueue.%s goes on' % m, 'stops after one entry', gets[0])
        if not n:
            ctx.unk('TaskQueue.' + m, 'queue access not found')


def task_set(ctx):
    """adding stores the task under its key, clearing removes that key only, performing takes all tasks and forgets them in one step and calls each once"""
    fa, ci = ctx.method('Process', 'TaskSet', 'add_task')
    pk, pt = [S(a.arg) for a in fa.node.args.args][1:3]
    D = set()
    for p in q.rets(ctx.paths('Process', 'TaskSet', 'add_task')):
        ds = [e for e in q.muts(p.trace) if e.name == 'dset' and e.recv[0] == 'fld']
        ctx.check(len(ds) == 1 and ds[0].args[:2] == (pk, pt) if ds else (False if not q.muts(p.trace) else None), 'TaskSet.add_task', 'the latest task is not stored under its key on every path', ds[0] if ds else fa)
        D |= {e.recv[2] for e in ds}
    fc, ci = ctx.method('Process', 'TaskSet', 'clear_task')
    ck = S(fc.node.args.args[1].arg)
    for p in q.rets(ctx.paths('Process', 'TaskSet', 'clear_task')):
        ms = q.muts(p.trace)
        for e in ms:
            ctx.check(True if e.name == 'ddel' and e.args[0] == ck else (None if e.name == 'ddel' and T.lossy(e.args[0]) else False), 'TaskSet.clear_task', 'removes something else than the key (%s)' % e, e)
        if not ms:
            has = [e for e in p.trace if e.kind == 'assume' and e.args[0][0] == 'in' and ck in e.args[0]]
            gone = any(e.name is False for e in has)
            ctx.check(True if gone or any(e.kind == 'caught' for e in p.trace) else (None if p.trace and any(e.kind == 'assume' for e in p.trace) else False), 'TaskSet.clear_task', 'the task is kept', fc)
    fp, ci = ctx.method('Process', 'TaskSet', 'perform_tasks')
    for p in q.rets(ctx.run(fp, self_cls=ci, opts={'reads': tuple(sorted(D))})):
        ls = [e for e in p.trace if e.kind == 'loop']
        runs = [e for e in ls if any(x.kind == 'call' and x.recv and x.recv[0] in ('elem', 'item', 'proj', 'res') for bp in e.extra.paths for x in bp.trace)]
        emp = [e for e in p.trace if (e.kind == 'mut' and e.name == 'clear' and e.recv[0] == 'fld' and e.recv[2] in D) or (e.kind == 'write' and e.recv == SELF and e.name in D)]
        if not runs:
            z = any(p.st.facts.get(('truthy', F(SELF, d))) is False or p.st.cmp('le', ('len', F(SELF, d)), True) for d in D)
            ctx.check(True if z else (None if ls else False), 'TaskSet.perform_tasks', 'the tasks are not called', fp)
            continue
        if not emp:
            ctx.check(False if not q.muts(p.trace) else None, 'TaskSet.perform_tasks forgets', 'performed tasks are kept and will be performed again', fp)
        else:
            # the tasks taken and the tasks forgotten are the same: one critical section
            i = p.trace.index(emp[0])
            sec = 0
            for j, e in enumerate(p.trace[:i]):
                if e.kind == 'acq' and not e.held:
                    sec = j
            rds = [j for j, e in enumerate(p.trace) if e.kind == 'read']
            before = [j for j in rds if j < sec]
            inside = [j for j in rds if sec <= j <= i]
            need = 2 if emp[0].kind == 'mut' else 1
            ctx.check(False if len(inside) < need and before else True, 'TaskSet.perform_tasks takes', 'a task added between taking the tasks and forgetting them is lost', emp[0])
        for e in runs:
            d = e.extra.desc
            b = d.base
            while b[0] in ('copy', 'values', 'items', 'snap', 'keys'):
                b = b[1]
            ctx.check(True if b[0] == 'fld' and b[1] == SELF and b[2] in D else None, 'TaskSet.perform_tasks', 'runs over %s' % T.show(d.base), e)
            for bp in e.extra.paths:
                cs = [x for x in bp.trace if x.kind == 'call' and x.recv and x.recv[0] in ('elem', 'item', 'proj', 'res')]
                ctx.check(len(cs) == 1 and not cs[0].args and bp.status[0] in ('next', 'cont'), 'TaskSet.perform_tasks calls', 'a task is called %d times' % len(cs), e)
            if emp and emp[0] in p.trace:
                ctx.check(p.trace.index(emp[0]) < p.trace.index(e), 'TaskSet.perform_tasks forgets', 'tasks added by a task while it runs are forgotten', emp[0])


def dispatcher(ctx):
    """the dispatcher calls its function at most once per round, after it was woken by the event that trigger sets and found not to be closing; closing wakes and joins it"""
    fn = W.init_field(ctx, 'ThreadPool', 'ThreadDispatcher', 0)
    fc, ci = ctx.method('ThreadPool', 'ThreadDispatcher', 'close')
    flags, wake = set(), set()
    for p in q.rets(ctx.paths('ThreadPool', 'ThreadDispatcher', 'close')):
        fl = [e for e in q.writes(p.trace, SELF) if e.args[0] == TRUE]
        flags |= {e.name for e in fl}
        st = [e for e in q.calls(p.trace, 'set') if e.recv[0] == 'fld' and e.recv[1] == SELF]
        wake |= {e.recv for e in st}
        jn = q.calls(p.trace, 'join')
        ctx.check(bool(jn), 'ThreadDispatcher.close joins', 'closing does not wait for the thread', fc)
        if fl and st:
            ctx.check(p.trace.index(fl[0]) < p.trace.index(st[-1]) if fl[0] in p.trace and st[-1] in p.trace else None, 'ThreadDispatcher.close wakes', 'the thread is woken before it is told to stop', st[-1])
        ctx.check(bool(fl) and bool(st), 'ThreadDispatcher.close stops', 'closing does not stop the thread', fc)
        if jn and fl:
            ctx.check(p.trace.index(fl[0]) < p.trace.index(jn[0]) if fl[0] in p.trace and jn[0] in p.trace else None, 'ThreadDispatcher.close joins', 'waits before stopping', jn[0])
        for e in jn:
            ctx.check(not [h for h in e.held if h[0] == 'fld'], 'ThreadDispatcher.close joins', 'waits for the thread while holding a lock that the thread needs', e)
    ft, ci = ctx.method('ThreadPool', 'ThreadDispatcher', 'trigger')
    trig = None
    for p in q.rets(ctx.paths('ThreadPool', 'ThreadDispatcher', 'trigger')):
        s = {e.recv for e in q.calls(p.trace, 'set')}
        ctx.check(True if s else False, 'ThreadDispatcher.trigger', 'a path of trigger does not wake the dispatcher', ft)
        trig = s if trig is None else trig & s
        ws = [i for i, e in enumerate(p.trace) if q.is_call(e, 'wait')]
        w = p.st.facts.get(('truthy', S('wait')))
        if w is True:
            ctx.check(True if ws else False, 'ThreadDispatcher.trigger waits', 'does not wait although asked to', ft)
        for i in ws:
            ev = p.trace[i].recv
            cl = [j for j, e in enumerate(p.trace) if q.is_call(e, 'clear', ev)]
            st = [j for j, e in enumerate(p.trace) if q.is_call(e, 'set')]
            ctx.check(bool(cl) and bool(st) and cl[0] < st[0], 'ThreadDispatcher.trigger waits', 'the answer of an earlier round is taken for the answer of this one', p.trace[i])
            ctx.check(bool(st) and st[0] < i, 'ThreadDispatcher.trigger waits', 'waits before the dispatcher is woken', p.trace[i])
            ctx.check(not [h for h in p.trace[i].held if h[0] == 'fld'], 'ThreadDispatcher.trigger waits', 'waits while holding the lock that the thread needs', p.trace[i])
    n = 0
    for p, t, e in W.workers(ctx, 'ThreadPool', 'ThreadDispatcher', ('__init__', 'start')):
        for tr, status, bp in W.bodies(W.run_worker(ctx, p, t)):
            if not hasattr(bp, 'ends'):
                continue
            cs = [i for i, x in enumerate(tr) if x.kind == 'call' and x.recv == SELF and x.name in fn]
            if not cs:
                continue
            n += 1
            ctx.check(len(cs) == 1, 'ThreadDispatcher round', 'the function is called %d times per trigger' % len(cs), tr[cs[-1]])
            pre = tr[:cs[0]]
            ws = [i for i, x in enumerate(pre) if q.is_call(x, 'wait')]
            ctx.check(bool(ws) and bool(trig) and pre[ws[0]].recv in trig, 'ThreadDispatcher waits for trigger', 'the function is called without waiting for a trigger', tr[cs[0]])
            cl = [i for i, x in enumerate(pre) if q.is_call(x, 'clear') and ws and x.recv == pre[ws[0]].recv]
            ctx.check(bool(cl), 'ThreadDispatcher consumes trigger', 'the trigger is not consumed, so that the function is called again without one', tr[cs[0]])
            fa = [i for i, x in enumerate(pre) if x.kind == 'assume' and x.args[0][0] == 'truthy' and x.args[0][1] in {F(SELF, n_) for n_ in flags}]
            ok = [i for i in fa if pre[i].name is False and (not ws or i > ws[0])]
            ctx.check(bool(ok), 'ThreadDispatcher closed', 'the function may be called after closing', tr[cs[0]])
            ctx.check(not tr[cs[0]].args, 'ThreadDispatcher round', 'the function gets arguments', tr[cs[0]])
            if cl:
                ctx.check(cl[0] < cs[0], 'ThreadDispatcher consumes trigger', 'a trigger during the call is lost', tr[cs[0]])
                late = [x for x in tr[cs[0]:] if q.is_call(x, 'clear') and x.recv == pre[ws[0]].recv]
                ctx.check(not late, 'ThreadDispatcher consumes trigger', 'a trigger during the call is lost', late[0] if late else tr[cs[0]])
        for tr, status, bp in W.bodies(W.run_worker(ctx, p, t)):
            if not hasattr(bp, 'ends'):
                continue
            fa = [x for x in tr if x.kind == 'assume' and x.args[0][0] == 'truthy' and x.args[0][1] in {F(SELF, n_) for n_ in flags} and x.name is True]
            if fa and not any(x.kind == 'loop' for x in tr):
                ctx.check(status in ('break', 'ret', 'exit'), 'ThreadDispatcher ends', 'the thread goes on although it is to stop', fa[0])
    if not n:
        ctx.unk('ThreadDispatcher', 'function call not found')


def queue_histories(ctx):
    """performing a task queue calls every task that was in it when it began once, in order, also when tasks fail or queue others, which wait for the next time; clearing calls none; each entry is marked done"""
    go = lambda what, params, impl, ref: P.go(ctx, 'TaskQueue ' + what, 'Process', params, impl, ref, ctx.method('Process', 'TaskQueue', 'perform_tasks')[0])
    J = 'q.join()\n'
    E = '\nr = (q.qsize(), q.empty())\n'
    go('empty', 'a', 'q = TaskQueue()\nq.perform_tasks()\nq.clear_tasks()\n' + J + E, 'r = (0, True)\n')
    go('order', 'a, b, c', 'q = TaskQueue()\nq.put(a)\nq.put(b)\nq.put(c)\nq.perform_tasks()\n' + J + E, 'a()\nb()\nc()\nr = (0, True)\n')
    go('twice', 'a, b', 'q = TaskQueue()\nq.put(a)\nq.perform_tasks()\nq.perform_tasks()\nq.put(b)\nq.perform_tasks()\n' + J + E, 'a()\nb()\nr = (0, True)\n')
    go('cleared', 'a, b', 'q = TaskQueue()\nq.put(a)\nq.put(b)\nq.clear_tasks()\n' + J + 'q.perform_tasks()\n' + E, 'r = (0, True)\n')
    go('cleared then used', 'a, b', 'q = TaskQueue()\nq.put(a)\nq.clear_tasks()\nq.put(b)\nq.perform_tasks()\n' + J + E, 'b()\nr = (0, True)\n')
    go('queued while performing', 'a, b, c', 'q = TaskQueue()\ndef f():\n    a()\n    q.put(c)\nq.put(f)\nq.put(b)\nq.perform_tasks()\nr = (q.qsize(), q.empty())\nq.perform_tasks()\n' + J, 'a()\nb()\nr = (1, False)\nc()\n')
    go('queues itself', 'a', 'q = TaskQueue()\ndef f():\n    a()\n    q.put(f)\nq.put(f)\nq.perform_tasks()\nr = (q.qsize(), q.empty())\n', 'a()\nr = (1, False)\n')
    go('emptied by a task', 'a, b', 'q = TaskQueue()\ndef f():\n    a()\n    q.clear_tasks()\nq.put(f)\nq.put(b)\nq.perform_tasks()\n' + J + E, 'a()\nr = (0, True)\n')
    go('performed by a task', 'a, b', 'q = TaskQueue()\ndef f():\n    a()\n    q.perform_tasks()\nq.put(f)\nq.put(b)\nq.perform_tasks()\n' + J + E, 'a()\nb()\nr = (0, True)\n')
    go('failing task', 'a, b', 'q = TaskQueue()\ndef f():\n    a()\n    raise RuntimeError()\nq.put(f)\ntry:\n    q.perform_tasks()\nexcept RuntimeError:\n    pass\n' + J + 'q.put(b)\nq.perform_tasks()\n' + J + E, 'a()\nb()\nr = (0, True)\n')


def set_histories(ctx):
    """a task set performs the latest task of each key once, without those that were cleared; tasks added while performing wait for the next time"""
    go = lambda what, params, impl, ref: P.each(ctx, 'TaskSet ' + what, 'Process', params, impl, ref, ctx.method('Process', 'TaskSet', 'perform_tasks')[0])
    N = 's = TaskSet()\n'
    go('empty', 'a', N + 's.perform_tasks()\ns.clear_task("x")\ns.perform_tasks()\n', 'pass\n')
    go('performs', 'a, b', N + 's.add_task("x", a)\ns.add_task("y", b)\ns.perform_tasks()\ns.perform_tasks()\n', 'a()\nb()\n')
    go('again', 'a, b', N + 's.add_task("x", a)\ns.perform_tasks()\ns.add_task("x", b)\ns.perform_tasks()\n', 'a()\nb()\n')
    go('overwritten', 'a, b, c', N + 's.add_task("x", a)\ns.add_task("y", c)\ns.add_task("x", b)\ns.perform_tasks()\n', 'b()\nc()\n')
    go('cleared', 'a, b', N + 's.add_task("x", a)\ns.add_task("y", b)\ns.clear_task("x")\ns.clear_task("z")\ns.perform_tasks()\n', 'b()\n')
    go('cleared and added', 'a, b', N + 's.add_task("x", a)\ns.clear_task("x")\ns.add_task("x", b)\ns.perform_tasks()\n', 'b()\n')
    go('added while performing', 'a, b, c', N + 'def f():\n    a()\n    s.add_task("x", b)\ns.add_task("x", f)\ns.add_task("y", c)\ns.perform_tasks()\nr = 1\ns.perform_tasks()\n', 'a()\nc()\nr = 1\nb()\n')
    go('keys', 'a, b', N + 's.add_task(1, a)\ns.add_task(("x", 1), b)\ns.perform_tasks()\n', 'a()\nb()\n')


def pool_histories(ctx):
    """histories of queueing, running, starting workers and closing: every function queued on an open pool is called once, in order, by run_one, run_all or a worker; what is still waiting when the pool is closed, or queued later, is never called; closing ends the workers and returns"""
    w = ctx.method('ThreadPool', 'ThreadPool', 'queue_fn')[0]
    go = lambda what, params, impl, ref: P.go(ctx, 'ThreadPool ' + what, 'ThreadPool', params, impl, ref, w)
    N = 'p = ThreadPool()\n'
    A, B, C_ = 'p.queue_fn(a)\n', 'p.queue_fn(b)\n', 'p.queue_fn(c)\n'
    go('run_all', 'a, b, c', N + A + B + C_ + 'p.run_all()\np.run_all()\np.close()\n', 'a()\nb()\nc()\n')
    go('run_one', 'a, b, c, sink', N + 'p.run_one()\n' + A + B + 'p.run_one()\nsink(1)\np.run_one()\nsink(2)\np.run_one()\n' + C_ + 'p.run_one()\np.close()\n', 'a()\nsink(1)\nb()\nsink(2)\nc()\n')
    go('run nothing', 'a', N + 'p.run_all()\np.run_one()\np.close()\n', 'pass\n')
    go('description', 'a, b', N + 'p.queue_fn(a, "first")\np.queue_fn(b, description="second")\np.run_all()\np.close()\n', 'a()\nb()\n')
    go('closed', 'a, b, c', N + A + 'p.run_all()\n' + B + 'p.close()\n' + C_ + 'p.run_one()\np.run_all()\n', 'a()\n')
    go('closed twice', 'a, b', N + A + 'p.close()\np.close()\n' + B + 'p.run_all()\n', 'pass\n')
    go('queued while running', 'a, b, sink', N + 'def f():\n    a()\n    p.queue_fn(b)\np.queue_fn(f)\np.run_one()\nsink(1)\np.run_all()\np.close()\n', 'a()\nsink(1)\nb()\n')
    go('closed while running', 'a, b, c', N + 'def f():\n    a()\n    p.close()\np.queue_fn(f)\n' + B + 'p.run_all()\n' + C_ + 'p.run_all()\n', 'a()\n')
    go('failing', 'a, b', N + 'def f():\n    a()\n    raise RuntimeError()\np.queue_fn(f)\n' + B + 'p.run_all()\np.close()\n', 'a()\nb()\n')
    for n in (1, 2):
        S_ = N + 'p.start(%d)\n' % n
        G = 'threading.others()\n'
        R = 'r = tuple([t.is_alive() for t in threading.started])\n'
        dead = 'r = %s\n' % ('(False,)', '(False, False)')[n - 1]
        go('%d workers' % n, 'a, b', S_ + A + B + G + 'p.close()\n' + R, 'a()\nb()\n' + dead)
        go('%d idle workers' % n, 'a', S_ + G + 'p.close()\n' + R, dead)
        go('%d workers later' % n, 'a, b, c, sink', S_ + A + G + 'sink(1)\n' + B + C_ + G + 'p.close()\n' + R, 'a()\nsink(1)\nb()\nc()\n' + dead)
        go('%d workers closed' % n, 'a, b, c', S_ + A + G + B + 'p.close()\n' + G + C_ + G + R, 'a()\n' + dead)
        go('%d workers failing' % n, 'a, b', S_ + 'def f():\n    a()\n    raise RuntimeError()\np.queue_fn(f)\n' + B + G + 'p.close()\n' + R, 'a()\nb()\n' + dead)
    go('daemon', 'a', N + 'p.start(1)\nr = threading.started[0].daemon\n', 'r = True\n')
    go('started twice', 'a', N + 'p.start(1)\np.start(1)\n' + A + 'threading.others()\np.close()\nr = tuple([t.is_alive() for t in threading.started])\n', 'a()\nr = (False, False)\n')


def dispatcher_histories(ctx):
    """histories of starting, triggering and closing a dispatcher: one call after each trigger or group of triggers, none without, none once closed; a trigger during a call leads to another; a failing function is called again; a waiting trigger returns after the call; calls are the minimum interval apart; closing ends the thread"""
    w = ctx.method('ThreadPool', 'ThreadDispatcher', 'trigger')[0]
    go = lambda what, params, impl, ref: P.go(ctx, 'ThreadDispatcher ' + what, 'ThreadPool', params, impl, ref, w)
    N = 'd = ThreadDispatcher(a, 0)\nd.start()\n'
    G, T_ = 'threading.others()\n', 'd.trigger()\n'
    R = 'r = threading.started[0].is_alive()\n'
    E = 'd.close()\n' + R
    go('idle', 'a', N + G + G + E, 'r = False\n')
    go('not started', 'a', 'd = ThreadDispatcher(a, 0)\nr = len(threading.started)\n', 'r = 0\n')
    go('daemon', 'a', N + 'r = threading.started[0].daemon\n', 'r = True\n')
    go('triggered', 'a, sink', N + G + T_ + G + 'sink(1)\n' + G + 'sink(2)\n' + T_ + G + E, 'a()\nsink(1)\nsink(2)\na()\nr = False\n')
    go('triggered twice', 'a, sink', N + T_ + T_ + G + 'sink(1)\n' + G + E, 'a()\nsink(1)\nr = False\n')
    go('triggered before start', 'a', 'd = ThreadDispatcher(a, 0)\n' + T_ + 'd.start()\n' + G + E, 'a()\nr = False\n')
    go('alive', 'a', N + T_ + G + T_ + G + R, 'a()\na()\nr = True\n')
    go('closed', 'a', N + T_ + E + G, 'r = False\n')
    go('triggered without waiting', 'a, sink', N + 'd.trigger(False)\nsink(1)\n' + G + 'd.trigger(wait=False)\nsink(2)\n' + G + E, 'sink(1)\na()\nsink(2)\na()\nr = False\n')
    go('waits', 'a, sink', N + 'd.trigger(True)\nsink(1)\nd.trigger(wait=True)\nsink(2)\n' + E, 'a()\nsink(1)\na()\nsink(2)\nr = False\n')
    F_ = 'def f():\n    a()\n    raise RuntimeError()\n'
    go('failing', 'a, sink', F_ + N.replace('(a,', '(f,') + T_ + G + 'sink(1)\n' + T_ + G + E, 'a()\nsink(1)\na()\nr = False\n')
    go('failing waits', 'a, sink', F_ + N.replace('(a,', '(f,') + 'd.trigger(True)\nsink(1)\n' + E, 'a()\nsink(1)\nr = False\n')
    go('triggered during a call', 'a, b', 'n = 0\ndef f():\n    nonlocal n\n    n += 1\n    a(n)\n    if n == 1:\n        d.trigger()\n    b(n)\n' + N.replace('(a,', '(f,') + T_ + G + E, 'a(1)\nb(1)\na(2)\nb(2)\nr = False\n')
    H = 'def on(t):\n    time.now = time.now + max(t, 1)\nthreading.passing = on\ndef f():\n    a(time.now >= 1000, time.now >= 1005, time.now >= 1010)\n'
    M = H + 'd = ThreadDispatcher(f, 5)\nd.start()\n'
    T1, T2, T3 = 'a(True, False, False)\n', 'a(True, True, False)\n', 'a(True, True, True)\n'
    go('interval first', 'a', M + T_ + G + E, T1 + 'r = False\n')
    go('interval', 'a', M + T_ + G + T_ + G + 'time.now = time.now + 2\n' + T_ + G + E, T1 + T2 + T3 + 'r = False\n')
    go('interval passed', 'a', M + T_ + G + 'time.now = 1007\n' + T_ + G + E, T1 + T2 + 'r = False\n')
    X = H.replace('    time.now = ', '    c = threading.Thread(target=d.close)\n    c.start()\n    c._go()\n    time.now = ', 1) + 'd = ThreadDispatcher(f, 5)\nd.start()\n'
    go('closed during the interval', 'a', X + T_ + G + T_ + G + G + R, T1 + 'r = False\n')
    L = 'k = 0\n' + H.replace('    time.now = time.now + max(t, 1)\n', '    nonlocal k\n    if k == 0:\n        k = 1\n        time.now = time.now + 1\n        d.trigger()\n    else:\n        time.now = time.now + max(t, 1)\n') + 'd = ThreadDispatcher(f, 5)\nd.start()\n'
    go('triggered during the interval', 'b', L.replace('a(time.now >= 1000, time.now >= 1005, time.now >= 1010)', 'if 1005 <= time.now < 1010:\n        b()') + T_ + G + T_ + G + E, 'b()\nr = False\n')


RULES = [task_once, queueing, closing, queue_entries, task_queue, task_set, dispatcher, queue_histories, set_histories, pool_histories, dispatcher_histories]
