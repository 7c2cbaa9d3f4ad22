from .. import q
from .. import terms as T
from ..agree import agree
from ..q import SELF, F, S
from ..terms import NONE, TRUE, FALSE, ONE, ZERO

M, CL = 'ReferenceCounting', 'ReferenceCounted'


def count_field(ctx):
    names = q.role_field(ctx, M, CL, 'ref_count')
    return names.pop() if len(names) == 1 else None


def opts(ctx):
    f, ci = ctx.method(M, CL, 'about_to_delete')
    return {'opaque': (f.id,)}


def delta(p, c):
    v = p.st.heap.get((SELF, c), F(SELF, c))
    return T.sub(v, F(SELF, c)), v


def add(ctx):
    """add_ref raises the count by one, once, on every path, and returns the object itself; the count starts at zero"""
    c = count_field(ctx)
    if c is None:
        return ctx.unk('count', 'field')
    f, ci = ctx.method(M, CL, 'add_ref')
    for p in q.rets(ctx.paths(M, CL, '__init__')):
        v = p.st.heap.get((SELF, c))
        ctx.check(q.veq(v, ZERO) if v else None, 'ReferenceCounted initial count', 'does not start at zero')
    for p in ctx.paths(M, CL, 'add_ref', opts=opts(ctx)):
        if p.status == 'raise':
            ctx.bad('ReferenceCounted.add_ref', 'adding a reference may fail', f)
            continue
        d, v = delta(p, c)
        ctx.check(q.veq(d, ONE), 'ReferenceCounted.add_ref count', 'the count changes by %s' % T.show(d), f)
        ctx.check(q.veq(p.value, SELF), 'ReferenceCounted.add_ref result', 'does not return the object', f)
        ctx.check(not q.calls(p.trace, 'about_to_delete'), 'ReferenceCounted.add_ref', 'adding a reference releases', f)


def may_be_zero(p, c0):
    f = p.st.form(c0)
    lo = p.st.interval(f[0], True)[0]
    return lo == 0


def truth_of(v):
    return bool(v[2]) if v and v[0] == 'const' else None


def remove(ctx):
    """remove_ref lowers the count by one and is refused without change at zero; the release hook runs exactly when the count reaches zero with checking enabled and it did not run before, and this is recorded before it runs"""
    c = count_field(ctx)
    if c is None:
        return
    f, ci = ctx.method(M, CL, 'remove_ref')
    chk = S([a.arg for a in f.node.args.args][1])
    c0 = F(SELF, c)
    ps = ctx.paths(M, CL, 'remove_ref', opts=opts(ctx))
    latch = None
    for p in ps:
        hk = q.calls(p.trace, 'about_to_delete')
        if hk:
            for e in q.writes(p.trace, SELF):
                if e.name != c:
                    latch = e.name
    init = {}
    for p in q.rets(ctx.paths(M, CL, '__init__')):
        init = {n: v for (o, n), v in p.st.heap.items() if o == SELF}
    refused = False
    for p in ps:
        pos = p.st.cmp('le', c0, True)     # count <= 0 ?
        if p.status == 'raise':
            refused = True
            ctx.check(True if pos is True else (False if pos is False else None), 'ReferenceCounted.remove_ref refusal', 'refused although there is a reference', f)
            w = q.writes(p.trace, SELF)
            # a change before the refusal must be undone
            d, v = delta(p, c)
            ctx.check(q.veq(d, ZERO), 'ReferenceCounted.remove_ref refusal', 'the count is changed by a refused removal', f)
            ctx.check(not q.calls(p.trace, 'about_to_delete'), 'ReferenceCounted.remove_ref refusal', 'a refused removal releases', f)
            continue
        ctx.check(True if pos is False else (False if pos is True or may_be_zero(p, c0) or not any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == c0) for e in p.trace) else None), 'ReferenceCounted.remove_ref refusal', 'a removal without reference is not refused', f)
        d, v = delta(p, c)
        ctx.check(q.veq(d, T.C(-1)), 'ReferenceCounted.remove_ref count', 'the count changes by %s' % T.show(d), f)
        hk = q.calls(p.trace, 'about_to_delete', SELF)
        zero = p.st.cmp('eq', T.sub(c0, ONE), True)
        ck = p.eng.known(p.st, ('truthy', chk))
        if latch is None:
            ctx.check(None if not hk else False, 'ReferenceCounted release once', 'nothing records that the object was released', f)
            continue
        lv = F(SELF, latch)
        before = next((e.name for e in p.trace if e.kind == 'assume' and e.args[0] == ('truthy', lv)), None)
        if before is None:
            b = next((e for e in p.trace if e.kind == 'assume' and e.args[0] in (('eq', lv, TRUE), ('eq', TRUE, lv), ('is', lv, TRUE), ('eq', lv, FALSE), ('is', lv, FALSE))), None)
            if b is not None:
                before = b.name == (TRUE in b.args[0])
        fresh = truth_of(init.get(latch))
        lw = [e for e in q.writes(p.trace, SELF, latch)]
        if hk:
            ctx.check(len(hk) == 1, 'ReferenceCounted release once', 'the release hook runs %d times' % len(hk), hk[-1])
            ctx.check(True if zero is True else (False if zero is False or zero is None else None), 'ReferenceCounted release at zero', 'released although references may remain', hk[0])
            ctx.check(True if ck is True else False, 'ReferenceCounted release checked', 'released although checking is off', hk[0])
            ctx.check(True if before is not None and before == fresh else (False if before is None or fresh is not None else None), 'ReferenceCounted release once', 'released although it may have been released before', hk[0])
            i = p.trace.index(hk[0])
            wb = [e for e in lw if e in p.trace[:i]]
            ctx.check(True if wb and truth_of(wb[-1].args[0]) == (not fresh) else False, 'ReferenceCounted release recorded', 'the release is not recorded before the hook runs', hk[0])
            end = truth_of(p.st.heap.get((SELF, latch)))
            ctx.check(end == (not fresh), 'ReferenceCounted release recorded', 'the release is not recorded', hk[0])
        else:
            ok = zero is False or ck is False or (before is not None and fresh is not None and before != fresh)
            ctx.check(True if ok else (False if zero is True or zero is None else None), 'ReferenceCounted release happens', 'a path reaches zero without releasing', f)
            ctx.check(not lw or truth_of(lw[-1].args[0]) == before, 'ReferenceCounted release recorded', 'recorded as released without running the release hook', lw[0] if lw else f)
    ctx.check(True if refused else False, 'ReferenceCounted.remove_ref refusal', 'a removal without reference is never refused', f)


def context(ctx):
    """a reference context adds exactly one reference on entry and removes exactly one on exit, with checking, also when its block raises, and lets the exception pass"""
    c = count_field(ctx)
    if c is None:
        return
    fa, ci = ctx.method(M, CL, 'add_ref')
    fr, _ = ctx.method(M, CL, 'remove_ref')
    blk = S('block')
    ps = ctx.probe(M, CL, 'def client(self, block):\n    with self.ref():\n        block()\n', opts={'opaque': (fa.id, fr.id), 'raises': lambda e, st: e.recv == blk})
    seen = set()
    for p in ps:
        b = [i for i, e in enumerate(p.trace) if e.kind == 'call' and e.recv == blk]
        if len(b) != 1:
            ctx.check(None, 'reference context', 'block')
            continue
        i = b[0]
        adds = [(j, e) for j, e in enumerate(p.trace) if q.is_call(e, 'add_ref')]
        rems = [(j, e) for j, e in enumerate(p.trace) if q.is_call(e, 'remove_ref')]
        ra = p.trace[i].extra == 'raised'
        seen.add(ra)
        what = 'reference context%s' % (' with failing block' if ra else '')
        ctx.check([x[1].recv for x in adds] == [SELF] and all(j < i for j, _ in adds), what, 'adds %d references on entry' % len(adds), fa)
        ctx.check([x[1].recv for x in rems] == [SELF] and all(j > i for j, _ in rems), what, 'removes %d references on exit' % len(rems), fr)
        for j, e in rems:
            a = e.args[0] if e.args else (e.kwarg('check') or TRUE)
            ctx.check(True if a == TRUE else (False if truth_of(a) is False else None), what, 'the reference is removed without checking for release', e)
        if ra:
            ctx.check(p.status == 'raise', what, 'the exception of the block is swallowed', fr)


def history(ctx):
    """every history of up to six added and removed references (with and without checking, refused ones included): the count after it, and the one run of the release hook"""
    f, ci = ctx.method(M, CL, 'remove_ref')
    pre = 'class R(ReferenceCounted):\n    def about_to_delete(self):\n        sink(self.ref_count)\no = R()\n'
    for n in range(1, 7):
        for k in range(3 ** n):
            ops = [(k // 3 ** i) % 3 for i in range(n)]
            count, gone, ref, impl, drops = 0, False, '', '', 0
            for i, op in enumerate(ops):
                if op == 0:
                    count += 1
                    impl += 'o.add_ref()\n'
                    continue
                drops += 1
                if count == 0:
                    if i != n - 1:
                        break
                    impl += 'try:\n    o.remove_ref(%s)\n    z = 0\nexcept AssertionError:\n    z = 1\n' % ('' if op == 1 else 'check=False')
                    continue
                count -= 1
                impl += 'o.remove_ref(%s)\n' % ('' if op == 1 else 'check=False')
                if op == 1 and count == 0 and not gone:
                    gone = True
                    ref += 'sink(0)\n'
            else:
                if ops[-1] == 0 or n == 6 and drops < 2:
                    continue
                z = 'z = 0\n' if 'z = 1' not in impl else ''
                agree(ctx, 'ReferenceCounted history', M, 'sink', pre + z + impl + 'r = (z, o.ref_count)\n', ref + 'r = (%d, %d)\n' % ('z = 1' in impl, count), observe=lambda e: e.kind == 'call' and e.recv == S('sink'), w=f, argtypes={'sink': 'fn'}, opts={'dyn': True}, total=True)


RULES = [history, add, remove, context]
