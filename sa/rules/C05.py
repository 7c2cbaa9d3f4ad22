from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..program import Broken
from ..engine import TooComplex
from .common import opts_for

# notification -> (event, number of arguments)
TABLE = {
    'notify_property_changed': ('property_changed_event', 1),
    'notify_set_item': ('item_set_event', 2),
    'notify_clear_item': ('item_cleared_event', 1),
    'notify_insert_item': ('item_inserted_event', 3),
    'notify_remove_item': ('item_removed_event', 3),
    'notify_add_item': ('item_added_event', 2),
    'notify_discard_item': ('item_discarded_event', 2),
    'notify_item_content_changed': ('item_content_changed_event', 3),
}
EVENTS = {e for e, _ in TABLE.values()}
CLASSES = [('Observable', 'Observable'), ('Model', 'PropertyModel'), ('ListModel', 'ListModel'), ('ListModel', 'FilteredListModel'), ('ListModel', 'MappedListModel'),
           ('ListModel', 'FlattenedListModel'), ('StructuredModel', 'FieldPropertyModel'), ('StructuredModel', 'RecordModel'), ('StructuredModel', 'ArrayModel')]


def own(ctx, mod, cls, name):
    """is the method defined by the class (or a base of it) other than Observable"""
    f, ci = ctx.method(mod, cls, name)
    return f, ci


def one_event(ctx):
    """every notification method fires the event named after it exactly once, positionally with its own arguments in order, and no other event of the observable"""
    done = set()
    for mod, cls in CLASSES:
        try:
            ctx.cls(mod, cls)
        except Broken:
            if cls == 'Observable':
                raise
            continue
        for name, (ev, n) in TABLE.items():
            f, ci = ctx.method(mod, cls, name)
            if f.id in done:
                continue
            done.add(f.id)
            params = [a.arg for a in f.node.args.posonlyargs + f.node.args.args][1:]
            if f.node.args.vararg or len(params) < n:
                want = None
            else:
                want = [S(a) for a in params[:n]]
            for p in ctx.paths(mod, cls, name):
                what = '%s.%s' % (cls, name)
                if p.status != 'ret':
                    ctx.check(None, what, 'does not return normally on a path', f)
                    continue
                hits, others, deferred = [], [], False
                for e in q.flat(p.trace):
                    if e.kind == 'call' and e.recv and e.recv[0] == 'fld' and e.recv[1] == SELF and e.recv[2] in EVENTS:
                        if e.name in ('fire', 'fire_any', 'fire_all'):
                            (hits if e.recv[2] == ev else others).append(e)
                    elif e.kind == 'call' and e.name in ('fire', 'fire_any', 'fire_all') and not (e.recv and e.recv[0] == 'fld'):
                        deferred = True
                lp = any(x in hits for l in q.loopsof(p.trace) for b in l.paths for x in q.flat(b.trace))
                if deferred and not hits:
                    ctx.unk(what, 'an event of unknown identity is fired', f)
                    continue
                ctx.check(not others, what, 'fires %s' % ', '.join(sorted({e.recv[2] for e in others})), others[0] if others else f)
                ctx.check(None if lp else len(hits) == 1, what, 'fires its event %d times' % len(hits), hits[-1] if hits else f)
                for e in hits:
                    if want is None:
                        ctx.unk(what, 'variable arguments', e)
                        continue
                    got = list(e.args)
                    if len(got) != len(want):
                        r = None if any(a[0] == 'star' for a in got) else False
                    else:
                        rs = [q.veq(a, b) for a, b in zip(got, want)]
                        r = False if False in rs else (None if None in rs else True)
                    if e.kw:
                        r = False
                    ctx.check(r, what + ' arguments', 'passes %s instead of %s' % (', '.join([T.show(a) for a in got] + ['%s=%s' % (k, T.show(v)) for k, v in e.kw]), ', '.join(T.show(a) for a in want)), e)


def own_events(ctx):
    """construction gives every observable object its own, distinct event objects"""
    for mod, cls in CLASSES:
        try:
            ci = ctx.cls(mod, cls)
        except Broken:
            continue
        opts = opts_for(ctx, mod)
        try:
            ps = ctx.paths(mod, cls, '__init__', opts=opts)
        except TooComplex:
            ctx.unk('%s.__init__' % cls, 'path budget exceeded')
            continue
        for p in q.rets(ps):
            vals = {}
            for ev in sorted(EVENTS):
                if ctx.prog.find_prop(ci, ev):
                    ctx.unk('%s.%s' % (cls, ev), 'computed')
                    continue
                v = p.st.heap.get((SELF, ev))
                if v is None:
                    ctx.bad('%s.%s' % (cls, ev), 'an object is constructed without its own event', ctx.method(mod, cls, '__init__')[0])
                    continue
                fresh = v[0] == 'new'
                ctx.check(True if fresh else (None if T.lossy(v) or v[0] in ('res', 'app') else False), '%s.%s' % (cls, ev), 'the event is not made for this object: %s' % T.show(v))
                vals.setdefault(v, []).append(ev)
            for v, l in vals.items():
                ctx.check(len(l) == 1, '%s events distinct' % cls, '%s share one event' % ', '.join(l))


RULES = [one_event, own_events]
