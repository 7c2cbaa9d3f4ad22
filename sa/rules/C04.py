from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE, TRUE, FALSE
from . import events as E
from . import threads as W
from . import common as K


def written(ctx, mod, cls, meth, kind=None, muts=True):
    """fields of self that a method changes"""
    out = set()
    for p in ctx.paths(mod, cls, meth, kind):
        for e in q.flat(p.trace):
            if e.kind == 'write' and e.recv == SELF:
                out.add(e.name)
            elif muts and e.kind == 'mut' and e.recv[0] == 'fld' and e.recv[1] == SELF:
                out.add(e.recv[2])
    return out


def event_fields(ctx):
    L, _ = E.listener_field(ctx)
    return {L} if L else set()


def pool_fields(ctx):
    out = set()
    for p in q.rets(ctx.paths('ThreadPool', 'ThreadPool', 'queue_fn')):
        for e in q.muts(p.trace):
            if e.recv[0] == 'fld' and e.recv[1] == SELF and e.args and any(a[0] == 'new' for a in e.args):
                out.add(e.recv[2])
    for p in q.rets(ctx.paths('ThreadPool', 'ThreadPool', 'close')):
        for e in q.writes(p.trace, SELF):
            if e.args[0] == TRUE:
                out.add(e.name)
    return out


def task_fields(ctx):
    return {n for n in W.init_field(ctx, 'ThreadPool', 'ThreadPoolTask', 0) if n in written(ctx, 'ThreadPool', 'ThreadPoolTask', 'execute')}


def taskset_fields(ctx):
    return written(ctx, 'Process', 'TaskSet', 'add_task')


def promise_fields(ctx):
    return written(ctx, 'Promise', 'Promise', 'value', 'get')


def ref_fields(ctx):
    return written(ctx, 'ReferenceCounting', 'ReferenceCounted', 'add_ref') | written(ctx, 'ReferenceCounting', 'ReferenceCounted', 'remove_ref')


def sample_fields(ctx):
    out = set()
    for e in K.entries(ctx, 'Stream', 'SampleStream'):
        if e.event and e.event[1] == 'value_stream':
            for p in e.paths:
                out |= {x.name for x in q.writes(p.trace, SELF)}
    return out


def items_field(mod, cls):
    def g(ctx):
        return q.role_field(ctx, mod, cls, 'items')
    return g


SPECS = [
    ('Event', 'Event', event_fields, 'listener table'),
    ('ThreadPool', 'ThreadPool', pool_fields, 'pool task list and closed state'),
    ('ThreadPool', 'ThreadPoolTask', task_fields, 'task state'),
    ('Process', 'TaskSet', taskset_fields, 'keyed tasks'),
    ('Promise', 'Promise', promise_fields, 'promise result'),
    ('ReferenceCounting', 'ReferenceCounted', ref_fields, 'reference count'),
    ('Stream', 'SampleStream', sample_fields, 'sampled value'),
    ('ListModel', 'FilteredListModel', items_field('ListModel', 'FilteredListModel'), 'items'),
    ('ListModel', 'MappedListModel', items_field('ListModel', 'MappedListModel'), 'items'),
    ('ListModel', 'FlattenedListModel', items_field('ListModel', 'FlattenedListModel'), 'items'),
]


def guarded(ctx):
    """every change of a guarded field, on every path of every entry point other than construction, happens while one and the same lock of the object is held"""
    for mod, cls, finder, what in SPECS:
        fields = finder(ctx)
        if not fields:
            ctx.unk('%s %s' % (cls, what), 'field not found')
            continue
        locks = {F(SELF, n) for n in K.locks_of(ctx, mod, cls)}
        for f in sorted(fields):
            common = None
            sites = {}
            for en in K.entries(ctx, mod, cls):
                if en.kind == 'method' and en.name == '__init__':
                    continue
                for p in en.paths:
                    for e in K.changes(p.trace, SELF, {f}):
                        h = {x for x in e.held if x in locks or (x[0] == 'fld' and x[1] == SELF)}
                        sites.setdefault((e.where(), e.name), []).append((h, e))
            if not sites:
                ctx.unk('%s.%s' % (cls, f), 'no change found')
                continue
            for (w, op), hs in sorted(sites.items(), key=lambda x: str(x[0])):
                un = [e for h, e in hs if not h]
                if un:
                    ctx.bad('%s %s' % (cls, what), 'changed (%s) without holding a lock' % un[0], un[0])
                else:
                    ctx.ok('%s %s' % (cls, what), hs[0][1])
                for h, e in hs:
                    if h:
                        common = h if common is None else common & h
            if common is not None and not common:
                ctx.bad('%s %s lock' % (cls, what), 'changed under different locks at different places', cls)


def released(ctx):
    """every lock taken is released on every path of every entry point, and locks are not released that are not held"""
    for mod, cls, finder, what in SPECS:
        for en in K.entries(ctx, mod, cls):
            bad = None
            n = 0
            for p in en.paths:
                bal = {}
                for e in p.trace:
                    if e.kind == 'acq':
                        bal[e.recv] = bal.get(e.recv, 0) + 1
                        n += 1
                    elif e.kind == 'rel':
                        bal[e.recv] = bal.get(e.recv, 0) - 1
                left = [t for t, k in bal.items() if k > 0]
                if left:
                    bad = (left[0], [e for e in p.trace if e.kind == 'acq' and e.recv == left[0]][-1])
                for lp in q.loopsof(p.trace):
                    for bp in lp.paths:
                        b2 = {}
                        for e in bp.trace:
                            if e.kind == 'acq':
                                b2[e.recv] = b2.get(e.recv, 0) + 1
                                n += 1
                            elif e.kind == 'rel':
                                b2[e.recv] = b2.get(e.recv, 0) - 1
                        if any(k > 0 for k in b2.values()) and bp.status[0] in ('next', 'cont'):
                            bad = ([t for t, k in b2.items() if k > 0][0], [e for e in bp.trace if e.kind == 'acq'][-1])
            if bad:
                ctx.bad(en.label + ' releases', 'lock %s is still held at the end of a path' % T.show(bad[0]), bad[1])
            elif n:
                ctx.ok(en.label + ' releases', en.func)


def failing_release(ctx):
    """locks are released also when a call made while they are held raises"""
    for mod, cls, meth, kind in (('ThreadPool', 'ThreadPoolTask', 'execute', None), ('ThreadPool', 'ThreadPoolTask', 'cancel', None), ('Promise', 'Promise', 'value', 'get'),
                                 ('ReferenceCounting', 'ReferenceCounted', 'remove_ref', None), ('Event', 'Event', 'fire', None), ('Event', 'Event', 'fire_any', None), ('Event', 'Event', 'fire_all', None),
                                 ('Process', 'TaskSet', 'perform_tasks', None), ('ThreadPool', 'ThreadPool', 'queue_fn', None), ('ThreadPool', 'ThreadPool', 'close', None)):
        f, ci = ctx.method(mod, cls, meth, kind)
        ps = ctx.run(f, self_cls=ci, opts={'raises': lambda e, st: bool(st.held) and e.recv and e.recv[0] != 'ext'})
        bad = None
        n = 0
        for p in ps:
            bal = {}
            for e in p.trace:
                if e.kind == 'acq':
                    bal[e.recv] = bal.get(e.recv, 0) + 1
                    n += 1
                elif e.kind == 'rel':
                    bal[e.recv] = bal.get(e.recv, 0) - 1
            for t, k in bal.items():
                if k > 0:
                    bad = (t, [e for e in p.trace if e.kind == 'acq' and e.recv == t][-1])
        if bad:
            ctx.bad('%s.%s releases on failure' % (cls, meth), 'lock %s is still held after an exception' % T.show(bad[0]), bad[1])
        elif n:
            ctx.ok('%s.%s releases on failure' % (cls, meth), f)


def outside(ctx):
    """listeners, keyed tasks and task cancellation of a closing pool are called without holding the lock of the event, task set or pool"""
    L, _ = E.listener_field(ctx)
    for form in ('fire', 'fire_any', 'fire_all'):
        f, ci = ctx.method('Event', 'Event', form)
        n = 0
        for p in ctx.paths('Event', 'Event', form):
            for e in q.flat(p.trace):
                if L and E.is_delivery(e, L):
                    n += 1
                    ctx.check(not [h for h in e.held if h[0] == 'fld' and h[1] == SELF], 'Event.%s calls listeners without lock' % form, 'a listener is called while the event is locked', e)
        if not n:
            ctx.unk('Event.' + form, 'delivery')
    tf = taskset_fields(ctx)
    n = 0
    for p in ctx.paths('Process', 'TaskSet', 'perform_tasks'):
        for e in q.calls(p.trace):
            if e.recv and T.contains(e.recv, lambda t: t[0] == 'fld' and t[1] == SELF and t[2] in tf) and e.recv[0] in ('elem', 'item', 'proj', 'deref', 'res') or (e.recv and e.recv[0] in ('elem', 'item', 'proj')):
                n += 1
                ctx.check(not [h for h in e.held if h[0] == 'fld' and h[1] == SELF], 'TaskSet.perform_tasks calls tasks without lock', 'a task is called while the task set is locked', e)
    if not n:
        ctx.unk('TaskSet.perform_tasks', 'task call not found')
    n = 0
    for p in ctx.paths('ThreadPool', 'ThreadPool', 'close'):
        for e in q.calls(p.trace, 'cancel'):
            n += 1
            ctx.check(not [h for h in e.held if h[0] == 'fld' and h[1] == SELF], 'ThreadPool.close cancels without lock', 'a task is cancelled while the pool is locked, although the running task needs the pool lock to finish', e)
    if not n:
        ctx.unk('ThreadPool.close', 'cancel not found')


def read_modify_write(ctx):
    """a new value that depends on the old one is computed from a value read in the same critical section"""
    for mod, cls, finder, what, roots in (
            ('ReferenceCounting', 'ReferenceCounted', ref_fields, 'reference count', (('add_ref', None), ('remove_ref', None))),
            ('Promise', 'Promise', promise_fields, 'promise result', (('value', 'get'),)),
            ('ThreadPool', 'ThreadPoolTask', task_fields, 'task state', (('execute', None), ('cancel', None)))):
        fields = finder(ctx)
        for m, kind in roots:
            f, ci = ctx.method(mod, cls, m, kind)
            ps = ctx.run(f, self_cls=ci, opts={'reads': tuple(sorted(fields))})
            bad = None
            n = 0
            for p in ps:
                start = -1
                for i, e in enumerate(p.trace):
                    if e.kind == 'acq' and not e.held:
                        start = i
                    elif e.kind == 'write' and e.recv == SELF and e.name in fields:
                        dep = T.contains(e.args[0], lambda t: t == F(SELF, e.name))
                        cond = any(x.kind == 'assume' and T.contains(x.args[0], lambda t: t[0] == 'fld' and t[1] == SELF and t[2] in fields) for x in p.trace[:i])
                        if not dep and not cond:
                            continue
                        n += 1
                        if e.held and start >= 0 and not any(x.kind == 'read' and x.held for x in p.trace[start:i]):
                            bad = e
            if bad:
                ctx.bad('%s %s' % (cls, what), 'changed depending on a value that was read before the lock was taken', bad)
            elif n:
                ctx.ok('%s.%s %s' % (cls, m, what), f)


def exclusive_calls(ctx):
    """the function of a task or promise is called while its lock is held, so that cancelling or asking waits for it"""
    for mod, cls, m, kind in (('ThreadPool', 'ThreadPoolTask', 'execute', None), ('Promise', 'Promise', 'value', 'get')):
        fn = W.init_field(ctx, mod, cls, 0)
        for p in ctx.paths(mod, cls, m, kind):
            for e in q.calls(p.trace, recv=SELF):
                if e.name in fn:
                    ctx.check(bool([h for h in e.held if h[0] == 'fld' and h[1] == SELF]), '%s function is called under its lock' % cls, 'the function is called without the lock', e)


RULES = [guarded, released, failing_release, outside, read_modify_write, exclusive_calls]
