from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE, TRUE, FALSE
from . import events as E

FORMS = ('fire', 'fire_any', 'fire_all')


def registration_order(ctx):
    """listen() appends exactly one entry, at the end, to the ordered listener table and returns the listener it entered"""
    L, ps = E.listener_field(ctx)
    if L is None:
        return ctx.unk('listener table', 'no single table found')
    for p in q.rets(ctx.paths('Event', 'Event', '__init__')):
        v = p.st.heap.get((SELF, L))
        if v is not None and v[0] == 'new':
            ctx.check(False if v[1] in ('set', 'ext:set') or 'Set' in str(v[1]) else True, 'Event listener table', 'the listener table is not ordered')
    for p in ps:
        es = [e for e in q.muts(p.trace, F(SELF, L))]
        if len(es) != 1:
            ctx.check(False if len(es) > 1 else None, 'Event.listen', 'one registration enters %d entries' % len(es), es[0] if es else None)
            continue
        e = es[0]
        if e.name == 'insert':
            ctx.check(q.veq(e.args[0], ('len', F(SELF, L))), 'Event.listen', 'a new listener is not entered at the end but at %s' % T.show(e.args[0]), e)
        elif e.name == 'dset':
            ctx.ok('Event.listen', e)
        else:
            ctx.unk('Event.listen', e.name, e)


def covers(ctx, form, base, L, e):
    b = base
    full = F(SELF, L)
    while b[0] in ('copy', 'values', 'snap'):
        b = b[1]
    if b == full:
        return True
    if b[0] in ('slice', 'sorted', 'setop') and T.contains(b, lambda t: t == full):
        return False
    if b[0] == 'app' and b[1] in ('frozenset', 'set', 'tuple') and len(b) > 2:
        return True if b[1] == 'tuple' and b[2] == full else None
    return None


def delivers(ctx):
    """every path of a fire form with listeners runs forward over the whole listener table and calls each live, open listener exactly once with exactly *args, **keywords; dead ones are skipped"""
    for form in FORMS:
        f, ps, L = E.delivery(ctx, form)
        if L is None:
            ctx.unk('Event.' + form, 'listener table not found')
            continue
        va, kv = E.star_args(f)
        full = F(SELF, L)
        for p in q.rets(ps):
            dl = [e for e in p.trace if e.kind == 'loop' and any(E.is_delivery(x, L) for bp in e.extra.paths for x in q.flat(bp.trace))]
            if not dl:
                empty = p.st.cmp('le', ('len', full), True)
                if empty is None and p.st.facts.get(('truthy', full)) is False:
                    empty = True
                if any(e.kind == 'caught' for e in p.trace):
                    continue
                if empty is None and any(x.kind in ('call', 'yield') and va in x.args for x in q.flat(p.trace)):
                    # the arguments go to something the analysis could not tie to the listener table
                    over = [e.extra for e in p.trace if e.kind == 'loop' and any(x.kind == 'call' and va in x.args for x in q.flat([e]))]
                    if over and any(T.contains(l.desc.base, lambda t: t[0] in ('slice', 'set', 'sorted')) for l in over):
                        ctx.bad('Event.%s loop' % form, 'the loop does not run over all listeners in order', f)
                    else:
                        ctx.unk('Event.' + form, 'loop not tied to the listener table')
                    continue
                ctx.check(True if empty else False, 'Event.%s without delivery' % form, 'a path returns without calling the listeners although there may be some', f)
                continue
            if len(dl) != 1:
                ctx.bad('Event.' + form, 'listeners are called in %d passes' % len(dl), dl[1])
                continue
            lp = dl[0].extra
            cov = covers(ctx, form, lp.desc.base, L, dl[0])
            if not ctx.check(cov, 'Event.%s loop' % form, 'the loop does not run over all listeners in order (%s)' % T.show(lp.desc.base), dl[0]):
                continue
            ctx.check(True if lp.desc.order == 'fwd' else (False if lp.desc.order == 'rev' else None), 'Event.%s order' % form, 'listeners are not called in the order they were added', dl[0])
            for bp in lp.paths:
                derefs = set()
                for e in q.flat(bp.trace):
                    for t in (e.args[0] if e.kind == 'assume' else e.recv,):
                        if t:
                            for x in subterms(t):
                                if x[0] == 'deref' and T.contains(x, lambda y: y == full):
                                    derefs.add(x)
                ds = [e for e in bp.trace if E.is_delivery(e, L)]
                if any(E.is_delivery(x, L) for e in bp.trace if e.kind == 'loop' for x in q.flat(e.extra.paths[0].trace if e.extra.paths else [])):
                    ctx.unk('Event.' + form, 'nested loop', dl[0])
                    continue
                alive = E.alive_fact(bp.trace, derefs)
                if bp.status[0] == 'raise':
                    continue
                if not ds:
                    if alive is False or E.skip_allowed(ctx, bp.trace, derefs):
                        ctx.ok('Event.%s skips dead or closed' % form, dl[0])
                        if bp.status[0] != 'next' and bp.status[0] != 'cont':
                            ctx.bad('Event.%s stops' % form, 'a dead listener ends the delivery', dl[0])
                    else:
                        ctx.check(False if derefs or not any(e.kind == 'call' for e in bp.trace) else None, 'Event.%s skips a listener' % form, 'a live listener may be skipped', dl[0])
                    continue
                if len(ds) > 1:
                    ctx.bad('Event.%s calls twice' % form, 'a listener is called %d times' % len(ds), ds[1])
                    continue
                d = ds[0]
                if alive is None and any(x[0] == 'deref' for x in subterms(d.recv)):
                    ctx.bad('Event.%s dead listener' % form, 'a listener is called without checking that it is still alive', d)
                want = tuple(x for x in (va,) if x)
                kw = tuple((k, v) for k, v in d.kw)
                ok = d.args == want and (kw == ((None, kv),) if kv else not kw)
                ctx.check(True if ok else (None if T.lossy(d.args) else False), 'Event.%s arguments' % form, 'the listener does not get exactly the fired arguments (%s)' % d, d)
                # early stop
                tr = truth_after(bp.trace, d)
                st = bp.status[0]
                if form == 'fire':
                    ctx.check(st in ('next', 'cont'), 'Event.fire continues', 'delivery stops after a listener (%s)' % st, d)
                else:
                    stop_on = form == 'fire_any'
                    if tr is None:
                        if st in ('next', 'cont'):
                            ctx.check(False if d.res is not None and not uses(bp, d.res) else None, 'Event.%s result' % form, 'the result of a listener is not examined', d)
                        else:
                            ctx.bad('Event.%s stops' % form, 'delivery stops whatever the listener returned', d)
                    elif tr == stop_on:
                        ctx.check(True if st in ('ret', 'brk', 'break') else False, 'Event.%s stops' % form, 'delivery goes on after a listener returned a %s value' % ('true' if stop_on else 'false'), d)
                    else:
                        ctx.check(st in ('next', 'cont'), 'Event.%s stops' % form, 'delivery stops although the listener returned a %s value' % ('true' if tr else 'false'), d)


def uses(bp, res):
    return any(T.contains(a, lambda t: t == res) for e in bp.trace for a in e.args if isinstance(a, tuple)) or any(T.contains(v, lambda t: t == res) for v in bp.ends.values() if isinstance(v, tuple))


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def truth_after(trace, d):
    r = None
    on = False
    for e in trace:
        if e is d:
            on = True
        elif on and e.kind == 'assume' and d.res is not None:
            if e.args[0] == ('truthy', d.res):
                r = e.name
            elif e.args[0][0] in ('eq', 'is') and d.res in e.args[0][1:]:
                other = [x for x in e.args[0][1:] if x != d.res]
                if other and other[0] == TRUE and e.name:
                    r = True
                elif other and other[0] == FALSE and e.name:
                    r = False
                else:
                    return 'other'
            elif e.args[0] == ('isnone', d.res):
                return 'other'
    return r


def results(ctx):
    """fire_any returns True exactly when stopped by a true result and False otherwise; fire_all returns False exactly when stopped by a false result and True otherwise"""
    for form in ('fire_any', 'fire_all'):
        f, ps, L = E.delivery(ctx, form)
        if L is None:
            continue
        stop = TRUE if form == 'fire_any' else FALSE
        rest = FALSE if form == 'fire_any' else TRUE
        for p in q.rets(ps):
            if any(e.kind == 'caught' for e in p.trace):
                continue
            its = [i for i, e in enumerate(p.trace) if e.kind == 'iter']
            stopped = False
            if its:
                tail = p.trace[its[-1]:]
                ds = [e for e in tail if E.is_delivery(e, L)]
                if ds:
                    tr = truth_after(tail, ds[-1])
                    if tr == 'other':
                        ctx.unk('Event.' + form, 'result compared in an unusual way')
                        continue
                    stopped = tr is (form == 'fire_any')
            v = p.value
            if v[0] == 'const':
                ctx.check(v == (stop if stopped else rest), 'Event.%s returns' % form, 'returns %s %s' % (T.show(v), 'when stopped by a listener' if stopped else 'when no listener decided'), f)
            elif v[0] == 'phi':
                ctx.unk('Event.%s returns' % form, 'value carried over the loop')
            else:
                ds = [e for e in q.flat(p.trace) if E.is_delivery(e, L)]
                if stopped and ds and v == ds[-1].res and form == 'fire_any':
                    ctx.ok('Event.%s returns' % form)
                else:
                    ctx.unk('Event.%s returns' % form, T.show(v))


def listener_passes(ctx):
    """an open listener called with arguments calls the registered function once with the same arguments and returns its result"""
    attrs = E.listener_attr(ctx)
    if len(attrs) != 1:
        return ctx.unk('listener call attribute', str(attrs))
    attr = attrs.pop()
    for p in q.rets(ctx.paths('Event', 'EventListener', '__init__')):
        f, ci = ctx.method('Event', 'EventListener', '__init__')
        fn = S(f.node.args.args[1].arg)
        if p.eng.known(p.st, ('callable', fn)) is False:
            continue
        st = p.st.copy()
        st.trace = []
        from ..engine import Frame
        fr = Frame(None, -1, (), module=p.eng.root_module)
        args = [('star', ('sym', '*a'))]
        kw = [(None, ('sym', '**k'))]
        p.eng.steps = 0
        for s, v in p.eng.call_method(SELF, attr, args, kw, st, fr, None):
            cs = [e for e in q.flat(s.trace) if e.kind == 'call' and (e.recv == fn or e.recv == SELF)]
            if v is None:
                continue
            if len(cs) == 1:
                c = cs[0]
                ctx.check(c.recv == fn and tuple(c.args) == tuple(args) and list(c.kw) == kw, 'EventListener call', 'the registered function is called with %s' % c, c)
                ctx.check(True if v == c.res else False, 'EventListener result', 'the result of the registered function is lost', c)
            else:
                ctx.check(False if not T.lossy(v) else None, 'EventListener call', 'the registered function of an open listener is called %d times' % len(cs), f)


from . import evhist
RULES = [evhist.histories, evhist.inside, evhist.forms, evhist.others, registration_order, delivers, results, listener_passes]
