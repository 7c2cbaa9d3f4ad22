from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE
from .lists import models, kind_of, item_of, index_verdict, compaction, INS, REM
from . import derived


def show(x):
    return T.show(x) if x else '?'


class Scan:
    """walks one path and pairs each change of the public list with the notification that follows it"""
    def __init__(self, ctx, m, en, p):
        self.ctx, self.m, self.en, self.p = ctx, m, en, p
        self.what = en.label

    def walk(self, trace, ctxt, loop=None, body=None):
        ctx, m, L = self.ctx, self.m, self.m.L
        pend = []
        for e in trace:
            if e.kind == 'loop':
                for b in e.extra.paths:
                    rest = self.walk(b.trace, ctxt + trace, e.extra, b)
                    if b.status[0] in ('raise', 'exit'):
                        continue
                    for c in rest:
                        later = [x for x in q.flat(trace) if kind_of(x, L) in ('ins', 'rem')]
                        self.silent(c, bool([x for x in later if x not in list(q.flat(b.trace))]))
                continue
            k = kind_of(e, L)
            if k is None:
                continue
            if k in ('insert', 'remove'):
                pend.append(e)
            elif k == 'other':
                if self.en.name == '__init__' and e.kind == 'write':
                    continue
                anyfire = any(kind_of(x, L) in ('ins', 'rem') for x in q.flat(trace))
                same = e.kind == 'write' and e.args[0] == L
                if same:
                    continue
                ctx.check(None if anyfire else False, '%s changes the list' % self.what, 'the list is %s without notifications' % ('replaced' if e.kind == 'write' else 'changed (%s)' % e.name), e)
            else:
                if not pend:
                    late = self.later(trace, e, k)
                    ctx.check(False if not ctxt or loop is not None or True else None, '%s fires %s' % (self.what, e.recv[2]),
                              'notified before the list is changed' if late else 'notified without a change of the list', e)
                    continue
                want = 'insert' if k == 'ins' else 'remove'
                same = [c for c in pend if kind_of(c, L) == want]
                if not same:
                    c = pend.pop(0)
                    ctx.bad('%s fires %s' % (self.what, e.recv[2]), 'an item is %s but %s is fired' % ('inserted' if kind_of(c, L) == 'insert' else 'removed', e.recv[2]), e)
                    continue
                if len(pend) > 1:
                    ctx.unk(self.what, 'several changes before they are notified', e)
                c = same[0]
                pend.remove(c)
                self.match(c, e, trace, ctxt, loop, body)
        return pend

    def later(self, trace, e, k):
        i = trace.index(e)
        return any(kind_of(x, self.m.L) in ('insert', 'remove') for x in trace[i + 1:])

    def silent(self, c, later):
        self.ctx.check(None if later else False, '%s changes the list' % self.what, 'the list is changed (%s) and nothing is notified' % c.name, c)

    def match(self, c, e, trace, ctxt, loop, body):
        ctx, m = self.ctx, self.m
        what = '%s %s' % (self.what, 'insertion' if c.name == 'insert' else 'removal')
        if len(e.args) != 3 or e.kw:
            ctx.unk(what, 'arguments of the notification', e)
            return
        key, item, idx = e.args
        ctx.check(m.key_ok(key, self.p, ctxt + trace), what + ' key', 'notified under %s, not under the public key of the list' % show(key), e)
        ctx.check(index_verdict(c.args[0], idx), what + ' index', 'the list is changed at %s but %s is notified' % (show(c.args[0]), show(idx)), e)
        actual = item_of(c)
        r = q.veq(actual, item) if actual is not None else None
        if r is not True and c.name == 'remove_at':
            r = self.removed(c, item, actual, trace, loop, body, r)
        elif r is False and item[0] in ('res', 'app', 'unk'):
            r = None if item[0] != 'res' else r
        ctx.check(r, what + ' item', '%s is %s but %s is notified' % (show(actual), 'inserted' if c.name == 'insert' else 'removed', show(item)), e)
        ctx.ok(what + ' notified', e)

    def removed(self, c, item, actual, trace, loop, body, r):
        if loop is not None and item[0] == 'elem' and item[1] == loop.id and (q.base(item[2]) == self.m.L or item[2] == self.m.L):
            return compaction(trace, loop, body, c, self.m.L)
        if item == NONE:
            return False
        if self.m.cls == 'FlattenedListModel' and (item[0] == 'elem' or item[0] == 'sym'):
            # the child the master item reported; which position it has is decided by C07
            return True if self.told(item) else False
        if item[0] == 'item' and actual is not None and actual[0] == 'item' and item[1] == actual[1]:
            return index_verdict(actual[2], item[2])
        if item[0] == 'sym' and self.m.cls == 'MappedListModel':
            return False        # the container item, not the mapped one
        if item[0] == 'elem' and self.m.cls == 'MappedListModel':
            return False
        return None

    def told(self, item):
        if item[0] == 'sym':
            return item[1] == '@1' or not item[1].startswith('@')
        return True


def paired(ctx):
    """on every path of every public operation and every container callback, each insertion into / removal from the public list is followed by exactly one notification of that kind, with the list's key, the changed item and the position of the change; nothing else notifies"""
    for m in models(ctx):
        for en in m.entries:
            if en.name == '__init__':
                continue        # nothing listens yet; the container setter is an entry of its own
            for p in en.paths:
                if p.status == 'raise' and not any(kind_of(e, m.L) for e in q.flat(p.trace)):
                    continue
                s = Scan(ctx, m, en, p)
                rest = s.walk(p.trace, [])
                if p.status == 'ret':
                    for c in rest:
                        s.silent(c, False)


def readable(ctx):
    """the list that is changed and notified is the one the public `items` and the public key give"""
    for m in models(ctx):
        for p in q.rets(ctx.paths(m.mod, m.cls, 'items', 'get')):
            ctx.check(q.base(p.value) == m.L or (None if T.lossy(p.value) else False), '%s.items' % m.cls, 'does not give the list: %s' % show(p.value))
        if not ctx.has(m.mod, m.cls, '__getattr__') or m.cls == 'ArrayModel':
            continue
        f, _ = ctx.method(m.mod, m.cls, '__getattr__')
        name = S(f.node.args.args[1].arg)
        hit = False
        for p in ctx.paths(m.mod, m.cls, '__getattr__'):
            if p.status == 'ret':
                hit = True
                ctx.check(q.base(p.value) == m.L or (None if T.lossy(p.value) else False), '%s public key' % m.cls, 'gives %s, not the list' % show(p.value), f)
                eqs = [e for e in p.trace if e.kind == 'assume' and e.name is True and e.args[0][0] == 'eq' and name in e.args[0]]
                for e in eqs:
                    other = [x for x in e.args[0][1:] if x != name]
                    if other:
                        ctx.check(m.key_ok(other[0], p, p.trace), '%s public key' % m.cls, 'the list is given under %s' % show(other[0]), e)
            else:
                for e in p.trace:
                    if e.kind == 'raise' and e.name not in ('AttributeError', None):
                        ctx.unk('%s public key' % m.cls, 'raises %s' % e.name)
        ctx.check(hit or None, '%s public key' % m.cls, 'the list is not given under its key', f)


def replay(ctx):
    """after every history of one or two changes, replaying the notifications on a copy of the list gives the list"""
    for cls in derived.CLASSES:
        derived.histories(ctx, cls, lambda c: ('r = (len(log) == len(f.items), log)\n', 'r = (True, [%s])\n' % ', '.join(c.expected())))


RULES = [replay, paired, readable]
