from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE, ONE, ZERO
from .lists import models, kind_of, INS, REM
from .common import entries
from . import C27 as filtered
from ..agree import agree

BRACKETED = [('ListModel', 'FilteredListModel'), ('ListModel', 'MappedListModel')]
BEG, END = 'begin_changes_event', 'end_changes_event'


def level_field(ctx, m):
    """the counter of open changes: what begin_change increments"""
    names = None
    for p in q.rets(ctx.paths(m.mod, m.cls, 'begin_change')):
        s = {e.name for e in q.writes(p.trace, SELF) if e.args[0] == T.add(F(SELF, e.name), ONE)}
        names = s if names is None else names & s
    return names or set()


def level_of(ctx, m):
    fs = level_field(ctx, m)
    if len(fs) == 1:
        return list(fs)[0]
    ps = q.rets(ctx.paths(m.mod, m.cls, 'begin_change'))
    w = [e for p in ps for e in q.flat(p.trace) if e.kind in ('write', 'mut')]
    ctx.check(None if w else False, '%s.begin_change' % m.cls, 'does not count the open changes' if not w else 'the counter of open changes was not recognised', ctx.method(m.mod, m.cls, 'begin_change')[0])
    return None


def lv(st, n):
    return st.heap.get((SELF, n), F(SELF, n))


def brackets(trace):
    return [e for e in trace if q.is_fire(e, BEG, SELF) or q.is_fire(e, END, SELF)]


def mentions(trace, n):
    """is the counter asked about in a way that the bounds of the path do not express (a plain comparison with a number is expressed exactly)"""
    def plain(a):
        if a[0] not in ('lt', 'le', 'eq', 'truthy'):
            return False
        if a[0] == 'truthy':
            return a[1] == F(SELF, n)
        d = a[1] if len(a) == 2 else T.sub(a[1], a[2])
        p = T.to_poly(d)
        return p is not None and set(p) <= {(), (F(SELF, n),)}
    return any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == F(SELF, n)) and not plain(e.args[0]) for e in trace)


def counting(ctx):
    """begin_change adds one to the number of open changes and end_change takes one off, on every path"""
    for m in models(ctx, BRACKETED):
        n = level_of(ctx, m)
        if n is None:
            continue
        for name, d in (('begin_change', 1), ('end_change', -1)):
            f = ctx.method(m.mod, m.cls, name)[0]
            for p in q.rets(ctx.paths(m.mod, m.cls, name)):
                v = T.sub(lv(p.st, n), F(SELF, n))
                ctx.check(v[2] == d if v[0] == 'const' else None, '%s.%s' % (m.cls, name), 'changes the number of open changes by %s' % T.show(v), f)
        for p in m.inits:
            ctx.check(q.veq(p.st.heap.get((SELF, n)), ZERO), '%s.__init__' % m.cls, 'a new list model starts with an open change')
        for en in m.entries:
            if en.name in ('begin_change', 'end_change', '__init__') or en.kind == 'callback':
                continue
            for p in q.rets(en.paths):
                v = T.sub(lv(p.st, n), F(SELF, n))
                ctx.check(True if v == ZERO else (False if v[0] == 'const' else None), en.label, 'leaves the number of open changes different', en.func)


def quiet(ctx):
    """while changes are open a filtered list neither changes its public list nor notifies: every change and notification is on a path on which the number of open changes is known to be zero"""
    for m in models(ctx, BRACKETED[:1]):
        n = level_of(ctx, m)
        if n is None:
            continue
        for en in m.entries:
            if en.name == '__init__':
                continue
            for p in en.paths:
                closed(ctx, m, en, n, p.trace, p.st, [])


def closed(ctx, m, en, n, trace, st, outer):
    for e in trace:
        if e.kind == 'loop':
            for b in e.extra.paths:
                closed(ctx, m, en, n, b.trace, b.st, outer + trace)
            continue
        k = kind_of(e, m.L)
        if k is None:
            continue
        r = st.cmp('lt', T.neg(lv(st, n)), True)
        if r is False:
            ctx.ok('%s while no change is open' % en.label, e)
        elif r is True:
            ctx.bad('%s while changes are open' % en.label, 'the list is changed or notified inside a set of changes', e)
        else:
            ctx.check(None if mentions(outer + trace, n) else False, '%s while changes are open' % en.label, 'the list is changed or notified without asking whether a set of changes is open', e)


def applies(ctx):
    """when the outermost set of changes ends (or sorting or filter is set with none open) the list is rebuilt through the filter exactly once, inside one begin/end pair; while others are open nothing is"""
    for m in models(ctx, BRACKETED[:1]):
        n = level_of(ctx, m)
        if n is None:
            continue
        for en in m.entries:
            if en.label.split('.')[-1] not in ('end_change', 'mark_changed', 'sort_key (set)', 'sort_reverse (set)', 'filter (set)'):
                continue
            for p in q.rets(en.paths):
                now = p.st.cmp('eq', lv(p.st, n), True)
                open_ = p.st.cmp('lt', T.neg(lv(p.st, n)), True)
                bs = brackets(p.trace)
                looks = [l for l in p.trace if l.kind == 'loop' and any(e.kind == 'call' and e.name == 'matches' for b in l.extra.paths for e in q.flat(b.trace))]
                if now is True or (open_ is False and now is None):
                    ctx.check(True if looks else (None if q.calls(p.trace, 'matches') else False), en.label, 'no change is open any more and the list is not rebuilt through the filter', en.func)
                    ctx.check(True if len(looks) == 1 else (None if not looks else False), en.label, 'the list is rebuilt %d times' % len(looks), en.func)
                    ctx.check([e.recv[2] for e in bs] == [BEG, END], en.label, 'the changes are applied in %s' % ([e.recv[2] for e in bs] or 'no begin/end pair'), bs[-1] if bs else en.func)
                    if len(bs) == 2:
                        i, j = p.trace.index(bs[0]), p.trace.index(bs[1])
                        for x, e in enumerate(p.trace):
                            inner = [y for y in (q.flat([e])) if kind_of(y, m.L)]
                            if inner:
                                ctx.check(i < x < j, en.label, 'a change is applied outside the begin/end pair', inner[0])
                elif open_ is False:
                    pass        # a negative level: more ends than begins
                elif open_ is True or now is False:
                    ctx.check(not bs, en.label, 'begin/end fired although changes are still open', bs[0] if bs else en.func)
                else:
                    ctx.check(None if mentions(p.trace, n) else False, en.label, 'does not ask whether a set of changes is open', en.func)


def outermost(ctx):
    """a mapped list fires its begin event exactly when the first set of changes opens and its end event exactly when the last one closes"""
    for m in models(ctx, BRACKETED[1:]):
        n = level_of(ctx, m)
        if n is None:
            continue
        for en in m.entries:
            if en.kind == 'callback' or en.name == '__init__':
                continue
            if en.name in ('begin_change', 'end_change'):
                for p in q.rets(en.paths):
                    judge(ctx, m, n, p, en.label, en.name, en.func)


def judge(ctx, m, n, p, label, name, w):
    lev = F(SELF, n) if name == 'begin_change' else T.sub(F(SELF, n), ONE)
    at0 = p.st.cmp('eq', lev, True)
    got = [e.recv[2] for e in brackets(p.trace)]
    want = [BEG if name == 'begin_change' else END]
    if any(brackets(b.trace) for l in q.loopsof(p.trace) for b in l.paths):
        ctx.unk(label, 'fires in a loop', w)
        return
    if at0 is None:
        ctx.check(None if mentions(p.trace, n) else False, label, 'fires %s whatever the nesting' % (got or 'nothing'), w)
    elif at0:
        ctx.check(got == want, label, 'the outermost change fires %s' % (got or 'nothing'), w)
    else:
        ctx.check(not got, label, 'an inner change fires %s' % got, w)


def manager(ctx):
    """the context manager opens a change, closes it when the block ends and when the block raises, and lets the exception through"""
    blk = S('f')
    for m in models(ctx, BRACKETED):
        n = level_of(ctx, m)
        if n is None:
            continue
        w = ctx.method(m.mod, m.cls, 'changes')[0]
        ps = ctx.probe(m.mod, m.cls, 'def client(self, f):\n    with self.changes():\n        f()\n', opts={'raises': lambda e, st: e.recv == blk})
        seen = {'ret': 0, 'raise': 0}
        for p in ps:
            cs = [i for i, e in enumerate(p.trace) if e.kind == 'call' and e.recv == blk]
            what = '%s.changes' % m.cls
            if not cs:
                if p.status != 'raise':
                    ctx.check(None if T.lossy(p.value) else False, what, 'the block is not run', w)
                continue
            i = cs[0]
            threw = p.trace[i].extra == 'raised'
            seen['raise' if threw else 'ret'] += 1
            before = [e for e in p.trace[:i] if e.kind == 'write' and e.recv == SELF and e.name == n]
            v = T.sub(before[-1].args[0], F(SELF, n)) if before else ZERO
            ctx.check(v == ONE if v[0] == 'const' else None, what, 'the block runs with %s changes opened' % T.show(v), p.trace[i])
            if not threw and p.status != 'ret':
                continue        # a later assertion of the rebuild
            d = T.sub(lv(p.st, n), F(SELF, n))
            ctx.check(d == ZERO if d[0] == 'const' else None, what + (' after an exception' if threw else ''), 'the change that was opened is not closed' if d == ONE else 'leaves %s changes open' % T.show(d), w)
            if threw:
                ctx.check(p.status == 'raise', what, 'the exception of the block is swallowed', w)
            if m.cls == 'MappedListModel':
                got = [(e.recv[2], p.trace.index(e) < i) for e in brackets(p.trace)]
                at0 = p.st.cmp('eq', F(SELF, n), True)
                if at0 is not None:
                    ctx.check(got == ([(BEG, True), (END, False)] if at0 else []), what, 'fires %s around the block' % [g[0] for g in got], w)
        ctx.check(True if seen['raise'] and seen['ret'] else None, '%s.changes paths' % m.cls, 'not all ways out of the block were found', w)


def master_key(m):
    def want(p):
        a, b = S('master_items_key'), S('items_key')
        t = q.assumed(p.trace, ('truthy', a))
        n = q.assumed(p.trace, ('isnone', a))
        if t is False or n is True:
            return b if m.cls == 'FilteredListModel' else None
        return a
    return m.roles(want)


def forwarded(ctx):
    """begin and end of a container's changes are listened to, filtered by the master key and forwarded under the model's own key"""
    for m in models(ctx, BRACKETED):
        n = level_of(ctx, m)
        mk = {F(SELF, x) for x in master_key(m)}
        seen = set()
        for en in m.entries:
            ev = en.event
            if ev is None or ev[1] not in (BEG, END) or ev[0] == SELF:
                continue
            seen.add(ev[1])
            if not en.args:
                ctx.unk(en.label, 'arguments')
                continue
            for p in q.rets(en.paths):
                ours = None
                for e in p.trace:
                    if e.kind == 'assume' and e.args[0][0] == 'eq' and S('@0') in e.args[0]:
                        o = [x for x in e.args[0][1:] if x != S('@0')]
                        if o and o[0] in mk:
                            ours = e.name
                        elif o and o[0][0] == 'fld' and mk:
                            ctx.bad('%s key' % en.label, 'compares with %s' % T.show(o[0]), e)
                bs = brackets(p.trace)
                if ours is None:
                    guard = any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == S('@0')) for e in p.trace)
                    if guard:
                        ctx.unk(en.label, 'the key that is compared with was not recognised')
                    elif bs or any(q.writes(p.trace, SELF)):
                        ctx.bad(en.label, 'reacts to changes under any key', bs[0] if bs else en.func)
                    continue
                if not ours:
                    ctx.check(not bs and not q.writes(p.trace, SELF), en.label, 'reacts to changes under another key', en.func)
                    continue
                if m.cls == 'FilteredListModel':
                    ctx.check([e.recv[2] for e in bs] == [ev[1]], en.label, '%s of the container is forwarded as %s' % (ev[1], [e.recv[2] for e in bs] or 'nothing'), en.func)
                elif n is not None:
                    d = T.sub(lv(p.st, n), F(SELF, n))
                    ctx.check(d[2] == (1 if ev[1] == BEG else -1) if d[0] == 'const' else None, en.label, '%s of the container changes the number of open changes by %s' % (ev[1], T.show(d)), en.func)
                    judge(ctx, m, n, p, en.label, 'begin_change' if ev[1] == BEG else 'end_change', en.func)
        for p in ctx.paths(m.mod, m.cls, 'container', 'set'):
            if p.status != 'ret':
                continue
            c = S(ctx.method(m.mod, m.cls, 'container', 'set')[0].node.args.args[1].arg)
            if all(q.assumed(p.trace, ('hasattr', c, T.C(x))) is True for x in (BEG, END)):
                for x in (BEG, END):
                    k = len(q.listen_calls(p.trace, x, c))
                    ctx.check(k == 1, '%s.container' % m.cls, 'listens %d times to the %s of a container that has one' % (k, x), ctx.method(m.mod, m.cls, 'container', 'set')[0])
        if not seen:
            ctx.check(None if any(q.calls(p.trace, 'listen') for en in m.entries for p in en.paths if any(T.lossy(e.recv) for e in q.calls(p.trace, 'listen') if e.recv)) else False, '%s.container' % m.cls, 'brackets of the container are not listened to', ctx.method(m.mod, m.cls, 'container', 'set')[0])


def balanced(ctx):
    """outside the begin and end operations themselves every begin that is fired is followed by its end on the same path, and both carry the public key"""
    for m in models(ctx, BRACKETED):
        for en in m.entries:
            if en.name == '__init__':
                continue
            for p in en.paths:
                for e in q.flat(p.trace):
                    if q.is_fire(e, BEG, SELF) or q.is_fire(e, END, SELF):
                        ctx.check(m.key_ok(e.args[0], p, p.trace) if len(e.args) == 1 else False, '%s %s' % (en.label, e.recv[2]), 'fired with %s' % ', '.join(T.show(a) for a in e.args), e)
                if en.name in ('begin_change', 'end_change') or (en.event and en.event[1] in (BEG, END)) or p.status != 'ret':
                    continue
                nest(ctx, en, p.trace)


def nest(ctx, en, trace):
    depth = []
    for e in trace:
        if e.kind == 'loop':
            for b in e.extra.paths:
                if b.status[0] in ('raise', 'exit'):
                    continue
                nest(ctx, en, b.trace)
        elif q.is_fire(e, BEG, SELF):
            depth.append(e)
        elif q.is_fire(e, END, SELF):
            if not depth:
                ctx.bad('%s brackets' % en.label, 'the end event is fired without its begin', e)
            else:
                depth.pop()
                ctx.ok('%s brackets' % en.label, e)
    for e in depth:
        ctx.bad('%s brackets' % en.label, 'the begin event is not followed by its end', e)


COUNT = '''
class Tally:
    def __init__(self):
        self.depth = 0
        self.begun = 0
        self.outside = 0
        self.told = 0
tally = Tally()
def begun(key):
    tally.depth = tally.depth + 1
    tally.begun = tally.begun + 1
def ended(key):
    tally.depth = tally.depth - 1
def told(key, item, index):
    tally.told = tally.told + 1
    if tally.depth < 1:
        tally.outside = tally.outside + 1
'''
LISTEN = 'l3 = f.begin_changes_event.listen(begun)\nl4 = f.end_changes_event.listen(ended)\nl5 = f.item_inserted_event.listen(told)\nl6 = f.item_removed_event.listen(told)\n'


def histories(ctx):
    """filtered list: within a bracket no change shows and nothing is notified; at its end what is notified lies between a begin and its end, and every begin fired has its end"""
    for key, rev, flt in filtered.CONFIGS:
        for o in filtered.ALL:
            m = filtered.Model(filtered.ITEMS, key, rev, flt)
            s = filtered.start(m) + LISTEN
            before = filtered.result(m)[4:].strip()
            st = filtered.op(m, o)
            if st is None:
                continue
            what = ' '.join(map(str, o))
            w = ctx.method('ListModel', 'FilteredListModel', 'end_change')[0]
            for depth in (1, 2):
                pre = filtered.ORDER + filtered.THINGS + filtered.BOX + COUNT
                inner = 'f.begin_change()\n' * depth + st + 'f.end_change()\n' * (depth - 1)
                agree(ctx, 'open bracket: ' + what, 'ListModel', filtered.PARAMS, pre + s + inner + 'r = (f.items, log, tally.told)\n', pre + 'r = (%s[0], %s[1], 0)\n' % (before, before), w=w, opts=filtered.OPTS, total=True, effects=False, argtypes=filtered.TYPES)
                agree(ctx, 'ended bracket: ' + what, 'ListModel', filtered.PARAMS, pre + s + inner + 'f.end_change()\nr = (tally.outside, tally.depth, f.items)\n', pre + 'r = (0, 0, %s[0])\n' % filtered.result(m)[4:].strip(), w=w, opts=filtered.OPTS, total=True, effects=False, argtypes=filtered.TYPES)
            agree(ctx, 'change: ' + what, 'ListModel', filtered.PARAMS, pre + s + st + 'r = tally.depth\n', pre + 'r = 0\n', w=w, opts=filtered.OPTS, total=True, effects=False, argtypes=filtered.TYPES)


RULES = [histories, counting, quiet, applies, outermost, manager, forwarded, balanced]
