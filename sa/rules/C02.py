from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE, TRUE, FALSE
from ..engine import Frame
from . import events as E

FORMS = ('fire', 'fire_any', 'fire_all')
ARGS = [('star', ('sym', '*a'))]
KW = [(None, ('sym', '**k'))]


def call_attr(p, obj, attr, st):
    st = st.copy()
    st.trace = []
    p.eng.steps = 0
    return p.eng.call_method(obj, attr, list(ARGS), list(KW), st, Frame(None, -1, (), module=p.eng.root_module), None)


def fires_skip_closed(ctx):
    """every delivery path of every fire form has established that the listener is not closed"""
    for form in FORMS:
        f, ps, L = E.delivery(ctx, form)
        if L is None:
            return False
        for p in ps:
            for lp in q.loopsof(p.trace):
                for bp in lp.paths:
                    for d in [e for e in bp.trace if E.is_delivery(e, L)]:
                        if not guards_open(ctx, bp.trace, d.recv):
                            return False
    return True


def guards_open(ctx, trace, d):
    cl, op = E.closed_values(ctx)
    for e in trace:
        if e.kind != 'assume':
            continue
        a = e.args[0]
        for n, vs in cl.items():
            fld = F(d, n)
            c = E.const_truth(vs)
            if a == ('truthy', fld) and c is not None and c != e.name:
                return True
            if a == ('isnone', fld) and not e.name and vs == {NONE}:
                return True
            if a == ('callable', fld) and e.name and vs == {NONE}:
                return True
    return False


def silent(ctx, p, obj, attr, what, w):
    """after the state of p, calling the listener obj calls nothing with the fired arguments"""
    skip = None
    for s, v in call_attr(p, obj, attr, p.st):
        cs = [e for e in q.flat(s.trace) if e.kind == 'call' and any(T.contains(a, lambda t: t == ARGS[0] or t == ARGS[0][1]) for a in e.args)]
        if cs:
            if skip is None:
                skip = fires_skip_closed(ctx)
            if skip:
                ctx.ok(what, w)
                continue
            ctx.bad(what, 'the registered function is still reached (%s)' % cs[0], w)
        elif v is None:
            ctx.check(True if fires_skip_closed(ctx) else False, what, 'calling the closed listener raises, which ends the delivery to the others', w)
        else:
            ctx.ok(what, w)


def closed_is_silent(ctx):
    """after close() (or leaving its context) a listener that is called, however it was obtained, does not reach the registered function and does not disturb the delivery"""
    attrs = E.listener_attr(ctx)
    if len(attrs) != 1:
        return ctx.unk('listener call attribute', str(attrs))
    attr = attrs.pop()
    for m in ('close', '__exit__'):
        f, ci = ctx.method('Event', 'EventListener', m)
        for p in q.rets(ctx.paths('Event', 'EventListener', m)):
            silent(ctx, p, SELF, attr, 'EventListener.%s' % m, f)


def stores(p):
    """(effect, stored values) of everything listen() puts into the state of the event"""
    for e in q.flat(p.trace):
        if e.kind == 'mut' and T.contains(e.recv, lambda t: t == SELF):
            yield e, [a for a in e.args]
        elif e.kind in ('write', 'setattr') and (e.recv == SELF or T.contains(e.recv, lambda t: t == SELF)):
            yield e, [a for a in e.args]
        elif e.kind == 'mut' and e.recv[0] in ('glob', 'class'):
            yield e, list(e.args)


def lifetime(ctx):
    """the event only keeps a weak reference to a listener; with an owner it keeps the listener, but the owner only weakly, until the owner is gone"""
    L, ps = E.listener_field(ctx)
    f, ci = ctx.method('Event', 'Event', 'listen')
    owner = S('owner')
    for p in ps:
        lis = p.value
        if lis is None or lis[0] != 'new':
            ctx.unk('Event.listen', 'returned listener not followed', f)
            continue
        none = p.eng.known(p.st, ('isnone', owner))
        tr = p.st.facts.get(('truthy', owner))
        kept = [e for e, vs in stores(p) if any(q.keeps(ctx, p.st, v, lis) for v in vs)]
        okept = [e for e, vs in stores(p) if any(q.keeps(ctx, p.st, v, owner) for v in vs)]
        # owner kept inside the listener is fine only if the listener is not kept
        if kept and (none is True):
            ctx.bad('Event.listen without owner', 'the event keeps the listener alive', kept[0])
        elif none is True:
            ctx.ok('Event.listen without owner', f)
        if none is False or tr is True:
            if not kept:
                # the owner might keep it
                att = [e for e in q.flat(p.trace) if e.kind in ('setattr', 'write') and e.recv == owner]
                ctx.check(None if att else False, 'Event.listen with owner', 'the listener is not kept for the life time of its owner', f)
            else:
                ctx.ok('Event.listen with owner', kept[0])
            if okept:
                ctx.bad('Event.listen owner reference', 'the event keeps the owner alive', okept[0])
            else:
                ctx.ok('Event.listen owner reference', f)
        elif none is None:
            if not kept:
                ctx.bad('Event.listen with owner', 'a given owner is ignored when it is false', f)
            else:
                ctx.bad('Event.listen without owner', 'the event keeps the listener alive although no owner was given', kept[0])


def weakrefs(vs, target):
    out = []
    for v in vs:
        for t in subterms(v, stop=('app',)):
            if t[0] == 'weakref' and t[1] == target:
                out.append(t)
    return out


def subterms(t, stop=()):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
            if t[0] in stop:
                return
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x, stop)


def run_cb(ctx, p, cb, arg):
    st = p.st.copy()
    st.trace = []
    p.eng.steps = 0
    out = p.eng.call_value(cb, [arg], [], st, Frame(None, -1, (), module=p.eng.root_module), None)
    ctx.npaths += len(out)
    return out


def stays(ctx, L, f):
    """the entry of a listener that is gone stays in the table: then the number reported must not simply be the size of the table"""
    for p in q.rets(ctx.paths('Event', 'Event', 'listener_count', 'get')):
        if p.value == ('len', F(SELF, L)) and not q.muts(p.trace):
            return ctx.bad('listener gone: entry stays', 'a listener that is gone is still counted', f)
    ctx.ok('listener gone: entry stays', f)


def gone_callback(ctx):
    """when a listener is gone only its own entry leaves the listener table; when an owner is gone its listener, and no other, is closed and forgotten"""
    L, ps = E.listener_field(ctx)
    f, ci = ctx.method('Event', 'Event', 'listen')
    attrs = E.listener_attr(ctx)
    owner = S('owner')
    for p in ps:
        lis = p.value
        if lis is None or lis[0] != 'new':
            continue
        own = p.eng.known(p.st, ('isnone', owner)) is False or p.st.facts.get(('truthy', owner)) is True
        allv = [v for e, vs in stores(p) for v in vs]
        for w in weakrefs(allv, lis)[:1]:
            if w[2] == NONE:
                stays(ctx, L, f)
                continue
            for s, v in run_cb(ctx, p, w[2], w):
                ms = [e for e in q.flat(s.trace) if (e.kind == 'mut' and T.contains(e.recv, lambda t: t == F(SELF, L))) or (e.kind == 'write' and e.recv == SELF and e.name == L)]
                for e in ms:
                    if e.kind == 'mut' and e.name == 'remove_at':
                        own_at = e.args[0] == ('indexof', F(SELF, L), w) or (e.args[0][0] == 'indexof' and e.args[0][-1] == w)
                        if not own_at and len(e.args) > 1 and e.args[1] == w:
                            own_at = True
                        # the entry added last is its own only when called at once
                        ctx.check(True if own_at else (None if e.args[0][0] in ('idx', 'phi', 'res', 'indexof') else False), 'listener gone', 'the entry removed is not the one of the listener that is gone (%s)' % e, e)
                    elif e.kind == 'mut' and e.name in ('clear', 'set', 'insert', 'sort'):
                        ctx.bad('listener gone', 'other listeners are affected (%s)' % e, e)
                    elif e.kind == 'mut' and e.name in ('ddel', 'discard'):
                        ctx.check(True if T.contains(e.args[0], lambda t: t == w) or T.contains(e.args[0], lambda t: t == lis) else None, 'listener gone', 'key', e)
                    else:
                        ctx.unk('listener gone', str(e), e)
                if not ms:
                    stays(ctx, L, f)
                cl = [e for e in q.flat(s.trace) if e.kind == 'write' and e.recv != SELF and e.recv != lis and T.contains(e.recv, lambda t: t == SELF)]
        if not own:
            continue
        ow = weakrefs(allv, owner)
        if not ow:
            loose = [t for e in q.flat(p.trace) for a in e.args if isinstance(a, tuple) for t in subterms(a) if t[0] == 'weakref' and t[1] == owner]
            fin = [e for e in q.calls(p.trace) if e.args and e.args[0] == owner]
            ctx.check(None if fin else False, 'owner gone', 'nothing that lasts watches for the owner to go, so that its listener is never closed', f)
            continue
        live = [w for w in ow if w[2] != NONE]
        if not live:
            ctx.bad('owner gone', 'the listener is not closed when its owner goes', f)
            continue
        w = live[0]
        for s, v in run_cb(ctx, p, w[2], w):
            if v is None:
                ctx.check(None, 'owner gone', 'callback raises')
                continue
            closed = [e for e in q.flat(s.trace) if (e.kind == 'write' and e.recv == lis) or (e.kind == 'call' and e.name == 'close')]
            gone = [e for e in q.flat(s.trace) if e.kind == 'mut' and e.name in ('ddel', 'remove_at', 'discard', 'clear')]
            if not closed:
                ctx.bad('owner gone', 'the listener is not closed when its owner goes', f)
            else:
                c = closed[0]
                tgt = c.recv
                if tgt == lis or T.contains(tgt, lambda t: t == lis):
                    ctx.ok('owner gone closes its listener', c)
                else:
                    ctx.check(None if T.lossy(tgt) else False, 'owner gone closes its listener', 'another listener is closed (%s)' % c, c)
            for g in gone:
                if g.name == 'ddel':
                    puts = [e for e, vs in stores(p) if e.kind == 'mut' and e.name == 'dset' and e.recv == g.recv]
                    if puts:
                        ctx.check(q.veq(g.args[0], puts[-1].args[0]), 'owner gone forgets its listener', 'another key (%s) is removed than was entered (%s)' % (T.show(g.args[0]), T.show(puts[-1].args[0])), g)
                elif g.name == 'clear':
                    ctx.bad('owner gone forgets its listener', 'the listeners of all owners are dropped', g)
            if not gone:
                ctx.bad('owner gone forgets its listener', 'the listener of an owner that is gone is kept', f)


from . import evhist
RULES = [evhist.closed, evhist.reported, closed_is_silent, lifetime, gone_callback]
