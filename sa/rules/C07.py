from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE, ONE, ZERO
from .lists import models, DERIVED, kind_of, INS, REM, compaction
from .common import fn_of
from . import derived

K0, K1, K2 = S('@0'), S('@1'), S('@2')
D = {c: [('ListModel', c)] for c in ('FilteredListModel', 'MappedListModel', 'FlattenedListModel')}


# ------------------------------------------------------------------ roles
def cont_field(ctx, m):
    fs = q.role_field(ctx, m.mod, m.cls, 'container')
    return list(fs)[0] if len(fs) == 1 else None


def master_keys(m):
    def want(p):
        a, b = S('master_items_key'), S('items_key')
        t = q.assumed(p.trace, ('truthy', a))
        n = q.assumed(p.trace, ('isnone', a))
        if m.cls == 'FilteredListModel' and (t is False or n is True):
            return b
        return a
    return {F(SELF, x) for x in m.roles(want)}


def child_keys(m):
    return {F(SELF, x) for x in m.param('child_items_key')}


def setter_param(ctx, m):
    return S(ctx.method(m.mod, m.cls, 'container', 'set')[0].node.args.args[1].arg)


def handlers(ctx, m):
    """(event, entry) of the callbacks for the container, and of those for its items"""
    cs = {S('container'), setter_param(ctx, m)}
    own, child = [], []
    for en in m.entries:
        ev = en.event
        if ev is None or ev[1] not in (INS, REM) or ev[0] == SELF:
            continue
        (own if ev[0] in cs else child).append((ev[1], en))
    return own, child


def master_list(ctx, m):
    """the private copy of the container's list: where the insert callback puts the item it is told"""
    names = None
    for ev, en in handlers(ctx, m)[0]:
        if ev != INS or len(en.args) != 3:
            continue
        for p in q.rets(en.paths):
            s = {e.recv[2] for e in p.trace if e.kind == 'mut' and e.name == 'insert' and e.recv[0] == 'fld' and e.recv[1] == SELF and e.recv != m.L and e.args[1] == K1}
            if s:
                names = s if names is None else names & s
    return F(SELF, list(names)[0]) if names and len(names) == 1 else None


def guard(trace, key, keys):
    """is the key of the notification the one listened for?  True/False on this path, None: not recognised, 'any': not asked, 'other': another key"""
    r = 'any'
    for e in trace:
        if e.kind != 'assume':
            continue
        a = e.args[0]
        if a[0] in ('eq', 'is') and key in a[1:]:
            o = [x for x in a[1:] if x != key]
            if o and o[0] in keys:
                return e.name
            r = 'other' if o and (o[0][0] in ('fld', 'const') and keys) else None
        elif T.contains(a, lambda t: t == key) and r == 'any':
            r = None
    return r


def touched(trace, *ls):
    return [e for e in q.flat(trace) if (e.kind == 'mut' and e.recv in ls) or (e.kind == 'write' and e.recv == SELF and F(SELF, e.name) in ls)]


def key_rule(ctx, m, en, p, key, keys, *ls):
    """-> True if this path handles the right key"""
    g = guard(p.trace, key, keys)
    ch = touched(p.trace, *[l for l in ls if l])
    if g is True:
        return True
    if g is False:
        ctx.check(not ch, en.label, 'reacts to a notification under another key', ch[0] if ch else en.func)
        return False
    if ch:
        ctx.check(None if g is None else False, en.label, 'the list is changed %s' % ('whatever the key of the notification' if g == 'any' else 'for another key'), ch[0])
    return False


def fn_calls(trace, fields):
    return [e for e in q.flat(trace) if e.kind == 'call' and ((e.recv == SELF and e.name in fields) or (e.recv and e.recv[0] == 'fld' and e.recv[1] == SELF and e.recv[2] in fields and e.name in ('()', '__call__')))]


def given(m, name):
    def want(p):
        t, n = q.assumed(p.trace, ('truthy', S(name))), q.assumed(p.trace, ('isnone', S(name)))
        return None if t is False or n is True else S(name)
    return m.roles(want)


# ------------------------------------------------------------------ mapped
def mapped(ctx):
    """a mapped list puts the mapped value of the item it is told at the position it is told, maps once, and takes out (and unmaps) the value stored at the position it is told"""
    for m in models(ctx, D['MappedListModel']):
        keys = master_keys(m)
        mf, uf = given(m, 'map_fn'), given(m, 'unmap_fn')
        own, _ = handlers(ctx, m)
        seen = set()
        for ev, en in own:
            if len(en.args) != 3:
                ctx.unk(en.label, 'arguments')
                continue
            seen.add(ev)
            for p in q.rets(en.paths):
                if not key_rule(ctx, m, en, p, K0, keys, m.L):
                    continue
                ch = [e for e in p.trace if kind_of(e, m.L) in ('insert', 'remove', 'other')]
                deep = [e for e in q.flat(p.trace) if kind_of(e, m.L) in ('insert', 'remove', 'other')]
                if len(ch) != len(deep):
                    ctx.unk(en.label, 'changes the list in a loop')
                    continue
                maps, unmaps = fn_calls(p.trace, mf), fn_calls(p.trace, uf)
                want = 'insert' if ev == INS else 'remove'
                ctx.check([kind_of(e, m.L) for e in ch] == [want], en.label, 'an item is %s in the container and the list is changed by %s' % ('inserted' if ev == INS else 'removed', [kind_of(e, m.L) for e in ch] or 'nothing'), ch[0] if ch else en.func)
                if len(ch) != 1 or kind_of(ch[0], m.L) != want:
                    continue
                c = ch[0]
                ctx.check(q.veq(c.args[0], K2), en.label + ' position', 'the list is changed at %s, not at the position in the container' % T.show(c.args[0]), c)
                if ev == INS:
                    if mf:
                        ctx.check(len(maps) == 1, en.label + ' mapping', 'an item is mapped %d times' % len(maps), maps[-1] if maps else c)
                        good = [e for e in maps if list(e.args) == [K1] and e.res == c.args[1]]
                        r = True if good else (None if c.args[1][0] in ('res', 'app', 'unk') and not maps else False)
                        ctx.check(r, en.label + ' value', '%s is stored, not the mapped item' % T.show(c.args[1]), c)
                else:
                    if mf:
                        ctx.check(not maps, en.label + ' mapping', 'an item is mapped again when it is removed', maps[0] if maps else c)
                    if uf:
                        off = any(q.assumed(p.trace, (a, F(SELF, u))) is False for u in uf for a in ('callable', 'truthy')) or any(q.assumed(p.trace, ('isnone', F(SELF, u))) is True for u in uf)
                        if off:
                            ctx.check(not unmaps, en.label + ' unmapping', 'unmapped without a function', unmaps[0] if unmaps else c)
                        else:
                            ctx.check(len(unmaps) == 1, en.label + ' unmapping', 'the value is unmapped %d times' % len(unmaps), unmaps[-1] if unmaps else c)
                            for e in unmaps:
                                ctx.check(q.veq(e.args[0], c.extra.get('item')) if len(e.args) == 1 else False, en.label + ' unmapping', '%s is unmapped, not the value that was stored' % T.show(e.args[0] if e.args else NONE), e)
        if own and len(seen) < 2:
            ctx.unk('MappedListModel', 'handlers')
        if not mf:
            ctx.unk('MappedListModel.map_fn', 'where the function is kept')
        if not own:
            ctx.check(None, 'MappedListModel', 'container handlers were not found')


# ------------------------------------------------------------------ container
def container(ctx):
    """setting the container stops listening to the old one, takes out all of its items, remembers the new one, listens to it and adds all of its items in order"""
    for m in models(ctx, DERIVED):
        cf = cont_field(ctx, m)
        f = ctx.method(m.mod, m.cls, 'container', 'set')[0]
        if cf is None:
            ctx.unk('%s.container' % m.cls, 'where the container is kept')
            continue
        old, new = F(SELF, cf), setter_param(ctx, m)
        keys = master_keys(m)
        ml = m.L if m.cls == 'MappedListModel' else master_list(ctx, m)
        if ml is None:
            ctx.unk('%s.container' % m.cls, 'the copy of the container list was not found')
            continue
        lf = listener_fields(ctx, m, new)
        for p in q.rets(ctx.paths(m.mod, m.cls, 'container', 'set')):
            had = truth(p.trace, old)
            has = truth(p.trace, new)
            what = '%s.container' % m.cls
            ctx.check(q.veq(p.st.heap.get((SELF, cf), old), new), what, 'the new container is not remembered', f)
            loops = [e for e in p.trace if e.kind == 'loop']
            if had is not False:
                rem = [e for e in loops if any(x.kind == 'mut' and x.recv == ml and x.name == 'remove_at' for b in e.extra.paths for x in b.trace)]
                cl = [e for e in p.trace if e.kind == 'mut' and e.recv == ml]
                if not rem:
                    ctx.check(None if cl or had is None else False, what + ' old items', 'the items of the old container are not taken out', f)
                for e in rem[:1]:
                    ctx.check(drain(ctx, m, e.extra, ml, old, new, keys), what + ' old items', 'does not take out every item of the old container', e)
                for n in sorted(lf):
                    closed = [e for e in q.calls(p.trace, 'close') if e.recv == F(SELF, n)]
                    gone = (SELF, n) in p.st.heap and p.st.heap[(SELF, n)] != F(SELF, n)
                    off = truth(p.trace, F(SELF, n)) is False
                    ctx.check(True if closed or gone or off else (None if had is None else False), what + ' old listeners', 'the listener %s of the old container stays' % n.split('__')[-1], f)
            if has is not False:
                for ev in (INS, REM):
                    k = len(q.listen_calls(p.trace, ev, new))
                    ctx.check(k == 1 if has else (True if k == 1 else None), what + ' new listeners', 'listens %d times to %s of the new container' % (k, ev), f)
                ins = [e for e in loops if any(x.kind == 'mut' and x.recv == ml and x.name == 'insert' for b in e.extra.paths for x in b.trace)]
                if not ins:
                    ctx.check(None if not has or [e for e in p.trace if e.kind == 'mut' and e.recv == ml] else False, what + ' new items', 'the items of the new container are not added', f)
                ctx.check(True if len(ins) <= 1 else None, what + ' new items', 'added more than once', f)
                for e in ins[:1]:
                    ctx.check(fill(m, e.extra, ml, new, keys), what + ' new items', 'does not add every item of the new container at its position', e)
            else:
                n = [e for e in q.listen_calls(p.trace) if e.recv and e.recv[0] == 'fld' and e.recv[1] == new]
                ctx.check(not n, what, 'listens to no container', n[0] if n else f)
        for p in m.inits:
            c = S('container')
            ctx.check(q.veq(p.st.heap.get((SELF, cf)), c) if (SELF, cf) in p.st.heap else False, '%s.__init__ container' % m.cls, 'the container that is passed in is not used')
            if truth(p.trace, c) is True:
                ctx.check(len(q.listen_calls(p.trace, INS, c)) == 1 and len(q.listen_calls(p.trace, REM, c)) == 1, '%s.__init__ container' % m.cls, 'the container that is passed in is not listened to')
        if ctx.has(m.mod, m.cls, 'close'):
            for p in q.rets(ctx.paths(m.mod, m.cls, 'close')):
                if truth(p.trace, old) is not False:
                    ctx.check(q.veq(p.st.heap.get((SELF, cf), old), NONE), '%s.close' % m.cls, 'keeps the container', ctx.method(m.mod, m.cls, 'close')[0])


def truth(trace, t):
    r = q.assumed(trace, ('truthy', t))
    if r is None:
        n = q.assumed(trace, ('isnone', t))
        r = None if n is None else not n
    return r


def listener_fields(ctx, m, new):
    out = set()
    for p in q.rets(ctx.paths(m.mod, m.cls, 'container', 'set')):
        rs = {e.res for e in q.listen_calls(p.trace) if e.recv and e.recv[0] == 'fld' and e.recv[1] == new}
        for (o, n), v in p.st.heap.items():
            if o == SELF and v in rs:
                out.add(n)
    return out


def attr_of(t, obj, keys):
    """is t the list of obj under the master key: True/False/None"""
    t = q.base(t)
    if t[0] == 'fld' and t[1] == obj:
        if not isinstance(t[2], str) and t[2] in keys:
            return True
        return None if isinstance(t[2], str) else False
    if t[0] == 'fld' and not isinstance(t[2], str) and t[2] in keys:
        return False
    return None


def drain(ctx, m, l, ml, old, new, keys):
    d = l.desc
    r = True
    bodies = [b for b in l.paths if b.status[0] not in ('raise', 'exit')]
    if d.kind == 'elems':
        a = attr_of(d.base, old, keys)
        if a is not True:
            if q.base(d.base) == ml:
                a = True if d.snapshot or d.base != ml else None
            if a is not True:
                return a
        for b in bodies:
            rem = [e for e in b.trace if e.kind == 'mut' and e.recv == ml]
            if b.status[0] in ('break', 'ret'):
                return False
            if len(rem) != 1 or rem[0].name != 'remove_at':
                return False if not rem else None
            at = rem[0].args[0]
            last = q.veq(at, T.sub(rem[0].extra['len'], ONE))
            if d.order == 'rev':
                if last is not True:
                    r = False if last is False and (m.cls == 'FlattenedListModel' or at != ZERO) and at[0] != 'idx' and not known_index(at) else None
                    if r is False:
                        return False
            else:
                if at == ZERO or known_index(at):
                    continue
                if last is True:
                    return False if m.cls == 'FlattenedListModel' else None
                return None
        return r
    # while there are items
    some = False
    for b in bodies:
        rem = [e for e in b.trace if e.kind == 'mut' and e.recv == ml and e.name == 'remove_at']
        if b.status[0] == 'exit' or b.status[0] == 'break':
            continue
        if len(rem) == 1:
            some = True
    return True if some else None


def known_index(at):
    return at[0] == 'indexof'


def fill(m, l, ml, new, keys):
    d = l.desc
    if d.kind != 'elems':
        return None
    a = attr_of(d.base, new, keys)
    if a is not True:
        return a
    if d.order != 'fwd':
        return False if all(any(e.kind == 'mut' and e.recv == ml and e.name == 'insert' and e.args[0] != ZERO for e in b.trace) for b in l.paths if b.status[0] == 'next') else None
    it = ('idx', l.id, d.base)
    el = ('elem', l.id, d.base)
    r = True
    for b in l.paths:
        if b.status[0] == 'raise' or b.status[0] == 'exit':
            continue
        if b.status[0] in ('break', 'ret'):
            return False
        ins = [e for e in b.trace if e.kind == 'mut' and e.recv == ml]
        if len(ins) != 1 or ins[0].name != 'insert':
            return False if not ins else None
        at, v = ins[0].args
        if at != it and at != ins[0].extra['len']:
            if q.veq(at, it) is False and q.veq(at, ins[0].extra['len']) is False and at[0] in ('const', 'poly', 'idx'):
                return False
            r = None
        if m.cls != 'MappedListModel' and v != el:
            return False if v[0] in ('const', 'sym') else None
    return r


# ------------------------------------------------------------------ filtered
def filter_field(ctx, m):
    fs = q.role_field(ctx, m.mod, m.cls, 'filter')
    return F(SELF, list(fs)[0]) if len(fs) == 1 else None


def same_elem(a, b):
    if a == b:
        return True
    return a[0] == 'elem' and b[0] == 'elem' and q.base(a[2]) == q.base(b[2])


def verdicts(trace, ff):
    """matches() calls of the list's own filter: (argument, result)"""
    return [(e.args[0], e.res) for e in q.flat(trace) if e.kind == 'call' and e.name == 'matches' and e.recv == ff and len(e.args) == 1]


def accepted(x, local, top, ff, depth=0):
    """is x known to be accepted by the filter here: True / False (known not to be asked) / None"""
    if depth > 6:
        return None
    vs = verdicts(top.trace, ff) + verdicts(local, ff)
    for a, r in vs:
        if same_elem(a, x):
            t = q.assumed(local, ('truthy', r))
            if t is True:
                return True
            if t is False:
                return False
    if x[0] == 'elem':
        b = x[2]
        while True:
            b = q.base(b)
            if b[0] == 'setop' and b[1] in ('Sub', 'BitAnd'):
                b = b[2]
            elif b[0] in ('setof', 'cval'):
                b = b[1]
            else:
                break
        if b[0] == 'new':
            ins = [(bd, e) for l in q.loopsof(top.trace) for bd in l.paths for e in bd.trace if e.kind == 'mut' and e.recv == b and e.name in ('insert', 'add')]
            flat = [e for e in top.trace if e.kind == 'mut' and e.recv == b]
            if flat or not ins:
                return None
            rs = [accepted(e.args[-1], bd.trace, top, ff, depth + 1) for bd, e in ins]
            return True if all(r is True for r in rs) else (False if False in rs else None)
        asked = any(same_elem(a, x) for a, r in vs)
        if b[0] == 'fld' and not asked and not T.lossy(x):
            return False
        return None
    if not vs and x[0] == 'sym':
        return False
    if x[0] == 'sym' and not any(a == x for a, r in vs):
        return False
    return None


def filtered_in(ctx):
    """whatever a filtered list inserts has been accepted by its filter on the same path"""
    for m in models(ctx, D['FilteredListModel']):
        ff = filter_field(ctx, m)
        if ff is None:
            ctx.unk('FilteredListModel.filter', 'where the filter is kept')
            continue
        for en in m.entries:
            if en.name == '__init__':
                continue
            for p in en.paths:
                f2 = p.st.heap.get((SELF, ff[2]), ff)
                walk_in(ctx, m, en, p, p.trace, [], f2)


def walk_in(ctx, m, en, top, trace, outer, ff):
    for e in trace:
        if e.kind == 'loop':
            for b in e.extra.paths:
                walk_in(ctx, m, en, top, b.trace, outer + trace, ff)
        elif kind_of(e, m.L) == 'insert':
            r = accepted(e.args[1], outer + trace, top, ff)
            ctx.check(r, '%s insertion' % en.label, 'an item is inserted that the filter has not accepted', e)


def filtered_follow(ctx):
    """with no change open, an item that enters the container is inserted iff the filter accepts it, one that leaves it is taken out if it is there, and one whose content changes is inserted, kept or taken out by the filter; the copy of the container list follows at the positions told"""
    from .C10 import level_of, lv
    for m in models(ctx, D['FilteredListModel']):
        ff, n, ml, keys = filter_field(ctx, m), level_of(ctx, m), master_list(ctx, m), master_keys(m)
        own, child = handlers(ctx, m)
        if None in (ff, n, ml):
            ctx.unk('FilteredListModel', 'roles of the fields')
            continue
        seen = set()
        for ev, en in own:
            seen.add(ev)
            if len(en.args) != 3:
                ctx.unk(en.label, 'arguments')
                continue
            for p in q.rets(en.paths):
                if not key_rule(ctx, m, en, p, K0, keys, m.L, ml):
                    continue
                mm = [e for e in p.trace if e.kind == 'mut' and e.recv == ml]
                if ev == INS:
                    ctx.check(len(mm) == 1 and mm[0].name == 'insert' and q.veq(mm[0].args[0], K2) is not False and mm[0].args[1] == K1, en.label, 'the item that entered the container is not recorded at its position', mm[0] if mm else en.func)
                else:
                    ctx.check(len(mm) == 1 and mm[0].name == 'remove_at' and (mm[0].args[0] == K2 or (mm[0].args[0][0] == 'indexof' and mm[0].args[0][2] == K1)), en.label, 'the item that left the container is not dropped from the copy', mm[0] if mm else en.func)
                if p.st.cmp('lt', T.neg(lv(p.st, n)), True) is not False or p.st.cmp('lt', lv(p.st, n), True):
                    continue
                if ev == INS:
                    enters(ctx, m, en, p, ff, K1)
                else:
                    leaves(ctx, m, en, p, K1)
        if len(seen) < 2:
            ctx.unk('FilteredListModel', 'container handlers were not found')
        for en in m.entries:
            ev = en.event
            if ev is None or ev[1] != 'item_changed_event':
                continue
            x = ev[0]
            for p in q.rets(en.paths):
                if p.st.cmp('lt', T.neg(lv(p.st, n)), True) is not False or p.st.cmp('lt', lv(p.st, n), True):
                    continue
                vs = [(a, q.assumed(p.trace, ('truthy', r))) for a, r in verdicts(p.trace, ff)]
                mine = {t for a, t in vs if a == x}
                there = None
                for e in p.trace:
                    if e.kind == 'assume' and e.args[0][0] == 'in' and e.args[0][1] == x and q.base(e.args[0][2]) == m.L:
                        there = e.name
                        break
                ks = [kind_of(e, m.L) for e in p.trace if kind_of(e, m.L) in ('insert', 'remove')]
                if not mine:
                    ctx.check(None if vs else False, en.label, 'the filter is not asked about the changed item', en.func)
                    continue
                if mine == {True}:
                    if there is False:
                        ctx.check(ks == ['insert'], en.label, 'an item that matches now is not inserted (%s)' % ks, en.func)
                    elif there is True:
                        ctx.check(ks in ([], ['remove', 'insert']), en.label, 'an item that still matches is %s' % ks, en.func)
                    else:
                        asked = any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == m.L or t == x) and not (e.args[0][0] == 'in' and q.base(e.args[0][2]) == ml) and e.args[0] not in {('truthy', r) for a, r in verdicts(p.trace, ff)} for e in p.trace) or any(e.kind == 'caught' for e in p.trace)
                        ctx.check(None if ks or asked else False, en.label, 'an item that matches now is not inserted', en.func)
                elif mine == {False}:
                    if there is True:
                        ctx.check(ks == ['remove'], en.label, 'an item that no longer matches stays in the list', en.func)
                    elif there is False:
                        ctx.check(not ks, en.label, 'an item that does not match changes the list', en.func)
                    else:
                        ctx.check(None if ks or any(e.kind == 'assume' and e.args[0][0] == 'in' for e in p.trace) else False, en.label, 'an item that no longer matches stays in the list', en.func)


def enters(ctx, m, en, p, ff, x):
    vs = [(a, q.assumed(p.trace, ('truthy', r))) for a, r in verdicts(p.trace, ff)]
    mine = {t for a, t in vs if a == x}
    ks = [e for e in p.trace if kind_of(e, m.L) in ('insert', 'remove')]
    names = [kind_of(e, m.L) for e in ks]
    if not mine:
        ctx.check(None if vs else False, en.label, 'the filter is not asked about the new item', en.func)
    elif True in mine and False not in mine:
        ctx.check(names == ['insert'] and ks[0].args[1] == x, en.label, 'an accepted item leads to %s' % (names or 'no insertion'), ks[0] if ks else en.func)
    elif False in mine and True not in mine:
        ctx.check(not ks, en.label, 'a rejected item leads to %s' % names, ks[0] if ks else en.func)


def leaves(ctx, m, en, p, x):
    ks = [e for e in p.trace if kind_of(e, m.L) in ('insert', 'remove')]
    there = None
    for e in p.trace:
        if e.kind == 'assume' and e.args[0][0] == 'in' and e.args[0][1] == x and q.base(e.args[0][2]) == m.L:
            there = e.name
    if ks:
        k = ks[0]
        at = k.args[0]
        r = kind_of(k, m.L) == 'remove' and len(ks) == 1
        if r and not (at[0] == 'indexof' and at[2] == x):
            r = False if at in (K2, ZERO) or at[0] == 'const' else None
        ctx.check(r, en.label, 'an item leaves the container and %s is done to the list at %s' % (kind_of(k, m.L), T.show(at)), k)
    else:
        if there is None:
            caught = any(e.kind == 'caught' for e in p.trace)
            ctx.check(None if caught or any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == x) for e in p.trace if e.args[0][0] != 'eq') else False, en.label, 'an item leaves the container and stays in the list', en.func)
        else:
            ctx.check(not there, en.label, 'an item leaves the container and stays in the list', en.func)


def rebuilt(ctx):
    """a rebuild takes every item of the container copy through the filter and then replaces the list by the result: either all out and all of the result in, or exactly the difference of the two"""
    from .C10 import level_of, lv
    for m in models(ctx, D['FilteredListModel']):
        ff, n, ml = filter_field(ctx, m), level_of(ctx, m), master_list(ctx, m)
        if None in (ff, n, ml):
            continue
        for en in m.entries:
            if en.name not in ('end_change', 'sort_key', 'sort_reverse', 'filter'):
                continue
            for p in q.rets(en.paths):
                f2 = p.st.heap.get((SELF, ff[2]), ff)
                looks = [e.extra for e in p.trace if e.kind == 'loop' and any(x.kind == 'call' and x.name == 'matches' for b in e.extra.paths for x in b.trace)]
                if len(looks) != 1:
                    continue
                l = looks[0]
                b0 = q.base(l.desc.base)
                ctx.check(True if b0 == ml or l.desc.base == ml else (None if T.lossy(b0) or b0[0] == 'new' else False), '%s rebuild' % en.label, 'is not made from the container items but from %s' % T.show(b0), en.func)
                res = set()
                for b in l.paths:
                    if b.status[0] in ('raise', 'exit'):
                        continue
                    if b.status[0] in ('break', 'ret'):
                        ctx.bad('%s rebuild' % en.label, 'stops before every item was looked at', en.func)
                        continue
                    el = ('elem', l.id, l.desc.base)
                    vs = {q.assumed(b.trace, ('truthy', r)) for a, r in verdicts(b.trace, f2) if a == el}
                    ins = [e for e in b.trace if e.kind == 'mut' and e.name in ('insert', 'add') and e.recv[0] == 'new']
                    res |= {e.recv for e in ins}
                    if vs == {True}:
                        ctx.check(len(ins) == 1 and ins[0].args[-1] == el, '%s rebuild' % en.label, 'an accepted item is not taken', ins[0] if ins else en.func)
                    elif vs == {False}:
                        ctx.check(not ins, '%s rebuild' % en.label, 'a rejected item is taken', ins[0] if ins else en.func)
                if len(res) != 1:
                    continue
                N = list(res)[0]
                outs, ins = None, None
                for e in p.trace:
                    if e.kind != 'loop' or e.extra is l:
                        continue
                    rem = any(kind_of(x, m.L) == 'remove' for b in e.extra.paths for x in b.trace)
                    add = any(kind_of(x, m.L) == 'insert' for b in e.extra.paths for x in b.trace)
                    if rem and outs is None:
                        outs = out_kind(e.extra, m, N)
                    if add and ins is None:
                        ins = in_kind(e.extra, m, N, p, l)
                r = True if (outs, ins) in (('all', 'all'), ('diff', 'diff')) else (None if '?' in (outs, ins) else False)
                ctx.check(r, '%s rebuild' % en.label, 'takes out %s and puts in %s of the result' % (WORD.get(outs), WORD.get(ins)), en.func)


WORD = {'all': 'all', 'diff': 'the difference', None: 'none', '?': 'something', 'some': 'only some'}


def strip(t):
    while True:
        t = q.base(t)
        if t[0] in ('setof', 'cval', 'ver'):
            t = t[1]
        else:
            return t


def out_kind(l, m, N):
    if l.desc.kind != 'elems':
        return 'all' if any(any(kind_of(x, m.L) == 'remove' for x in b.trace) for b in l.paths) else '?'
    if strip(l.desc.base) != m.L:
        return '?'
    el = ('elem', l.id, l.desc.base)
    kinds = set()
    for b in l.paths:
        if b.status[0] in ('raise', 'exit'):
            continue
        rem = any(kind_of(x, m.L) == 'remove' for x in b.trace)
        cond = None
        for e in b.trace:
            if e.kind == 'assume' and e.args[0][0] == 'in' and e.args[0][1] == el:
                s = e.args[0][2]
                if s[0] == 'setop' and s[1] == 'Sub' and strip(s[2]) == m.L and strip(s[3]) == N:
                    cond = e.name
                elif s[0] == 'setop' and s[1] == 'Sub' and strip(s[2]) == N and strip(s[3]) == m.L:
                    return 'some'
                elif strip(s) == N:
                    cond = not e.name
                else:
                    return '?'
        if cond is None:
            kinds.add('all' if rem else '?')
        elif cond != rem:
            return 'some'
        else:
            kinds.add('diff')
    return kinds.pop() if len(kinds) == 1 else '?'


def in_kind(l, m, N, p, look):
    if l.desc.kind != 'elems':
        return '?'
    b = q.base(l.desc.base)
    if b[0] == 'setop' and b[1] == 'Sub':
        x, y = strip(b[2]), strip(b[3])
        if x == N and y == m.L:
            k = 'diff'
        elif x == m.L and y == N:
            return 'some'
        else:
            return '?'
    elif strip(b) == N or (strip(b) == strip(look.desc.base)):
        k = 'all'
    else:
        return '?'
    for bd in l.paths:
        if bd.status[0] in ('raise', 'exit'):
            continue
        if bd.status[0] in ('break', 'ret'):
            return 'some'
        add = [x for x in bd.trace if kind_of(x, m.L) == 'insert']
        rej = any(e.kind == 'assume' and e.args[0][0] == 'truthy' and e.name is False and any(r == e.args[0][1] for a, r in verdicts(p.trace, None) or allv(p)) for e in bd.trace)
        if not add and not rej:
            cond = [e for e in bd.trace if e.kind == 'assume' and e.args[0][0] == 'in' and strip(e.args[0][2]) == m.L]
            if k == 'all' and cond:
                k = 'diff'
                continue
            return 'some'
        if len(add) > 1:
            return '?'
    return k


def allv(p):
    return [(e.args[0], e.res) for e in q.flat(p.trace) if e.kind == 'call' and e.name == 'matches' and e.args]


# ------------------------------------------------------------------ flattened
def split_phi(t):
    """index term = one loop-carried count + rest"""
    poly = T.to_poly(t)
    if poly is None:
        return None
    ph = [mn for mn, c in poly.items() if len(mn) == 1 and mn[0][0] == 'phi' and c == 1]
    if len(ph) != 1:
        return None
    f = ph[0][0]
    return f, T.sub(t, f)


def rank(trace, phi, ml, x, kids):
    """is the loop-carried count the number of children of the master items before x: True/False/None"""
    ls = [l for l in q.loopsof(trace) if l.id == phi[1]]
    if len(ls) != 1:
        return None, None
    l = ls[0]
    if l.desc.kind != 'elems' or strip(l.desc.base) != ml:
        return None, None
    init = l.phis.get(phi[2], (None, None))[1]
    if init is None or init[0] != 'const':
        return None, None
    if init != ZERO or l.desc.order != 'fwd':
        return False, None
    stops = False
    store = None
    for b in l.paths:
        el = None
        atx = None
        for e in b.trace:
            if e.kind == 'assume' and e.args[0][0] in ('eq', 'is') and len(e.args[0]) == 3:
                a, c = e.args[0][1:]
                o, other = (a, c) if a[0] == 'elem' and a[1] == l.id else (c, a)
                if o[0] == 'elem' and o[1] == l.id:
                    if other != x:
                        return None, None
                    atx, el = e.name, o
        d = T.sub(b.ends.get(phi[2], phi), phi)
        if b.status[0] == 'break' or b.status[0] == 'ret' and atx is True:
            stops = True
            if atx is not True:
                return None, None
            if d != ZERO:
                return False, None
            continue
        if b.status[0] not in ('next', 'cont'):
            continue
        if atx is True:
            flag = any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t[0] == 'phi' and t[1] == l.id) for b2 in l.paths for e in b2.trace)
            return (None if flag and d == ZERO else False), None
        if atx is None:
            return None, None
        known = None
        for e in b.trace:
            if e.kind == 'assume' and e.args[0][0] == 'in' and e.args[0][1] == el:
                known = e.name
                store = strip(e.args[0][2])
        if d == ZERO:
            if known is not False:
                return False, None
            continue
        if d[0] == 'len':
            src = d[1]
            src = src[1] if src[0] == 'ver' else src
            if src[0] == 'item' and src[2] == el:
                store = strip(src[1])
                continue
            if src[0] == 'fld' and src[1] == el and src[2] in kids:
                continue
            return None, None
        if d[0] == 'const':
            return False, None
        return None, None
    if not stops:
        return False, None
    return True, store


def child_changes(ctx, m, en, top, trace, outer, ml, kids, x, item, idx, kind, what):
    """obligations for one child inserted/removed: one change of the list at rank(master) + idx, and the same in the record of children"""
    ch = [e for e in trace if kind_of(e, m.L) in ('insert', 'remove', 'other')]
    if len(ch) != 1 or kind_of(ch[0], m.L) != kind:
        ctx.check(False if len([e for e in q.flat(trace) if kind_of(e, m.L)]) == len([e for e in trace if kind_of(e, m.L)]) else None, what, 'a child is %s and the list is changed by %s' % ('inserted' if kind == 'insert' else 'removed', [kind_of(e, m.L) for e in ch] or 'nothing'), ch[0] if ch else en.func)
        return
    c = ch[0]
    if kind == 'insert':
        ctx.check(q.veq(c.args[1], item), what, '%s is inserted, not the child' % T.show(c.args[1]), c)
    sp = split_phi(c.args[0])
    if sp is None:
        r = None
        if c.args[0] == idx or c.args[0][0] == 'const' or (not T.lossy(c.args[0]) and c.args[0][0] in ('len', 'poly') and not T.contains(c.args[0], lambda t: t[0] in ('app', 'res', 'unk'))):
            r = False
        ctx.check(r, what + ' position', 'the list is changed at %s' % T.show(c.args[0]), c)
        return
    phi, rest = sp
    ctx.check(q.veq(rest, idx), what + ' position', 'the offset in the children is %s' % T.show(rest), c)
    r, store = rank(outer + trace, phi, ml, x, kids)
    ctx.check(r, what + ' position', 'the offset is not the number of children of the master items before this one', c)
    if store is None:
        return
    rec = []
    for e in trace:
        if e.kind != 'mut' or e.name not in ('insert', 'remove_at'):
            continue
        b = e.recv[1] if e.recv[0] in ('ver', 'copy') else e.recv
        hit = (b[0] == 'item' and strip(b[1]) == store and b[2] == x)
        if not hit and b[0] == 'new':
            hit = any(d.kind == 'mut' and d.name == 'dset' and strip(d.recv) == store and d.args == (x, b) for d in trace)
        if hit:
            rec.append(e)
    good = len(rec) == 1 and rec[0].name == c.name and rec[0].args[0] == idx
    ctx.check(True if good else (False if not rec or rec[0].name != c.name else q.veq(rec[0].args[0], idx)), what + ' record', 'the record of children that positions are computed from is not kept', rec[0] if rec else c)


def flattened(ctx):
    """a flattened list changes at the number of children of the master items before this one plus the position in its own children, for children reported by a master item and for master items that enter or leave"""
    for m in models(ctx, D['FlattenedListModel']):
        keys, kids = master_keys(m), child_keys(m)
        ml = master_list(ctx, m)
        own, child = handlers(ctx, m)
        if ml is None:
            ctx.unk('FlattenedListModel', 'the list of master items was not found')
            continue
        if not child:
            ctx.check(None, 'FlattenedListModel', 'handlers for children were not found')
        seen = set()
        for ev, en in child:
            if len(en.args) != 3:
                ctx.unk(en.label, 'arguments')
                continue
            seen.add(ev)
            for p in q.rets(en.paths):
                if not key_rule(ctx, m, en, p, K0, kids, m.L):
                    continue
                child_changes(ctx, m, en, p, p.trace, [], ml, kids, en.event[0], K1, K2, 'insert' if ev == INS else 'remove', en.label)
        for ev, en in own:
            if len(en.args) != 3:
                ctx.unk(en.label, 'arguments')
                continue
            for p in q.rets(en.paths):
                if not key_rule(ctx, m, en, p, K0, keys, m.L, ml):
                    continue
                mm = [e for e in p.trace if e.kind == 'mut' and e.recv == ml]
                loops = [e for e in p.trace if e.kind == 'loop' and any(kind_of(x, m.L) in ('insert', 'remove') for b in e.extra.paths for x in b.trace)]
                if ev == INS:
                    ctx.check(len(mm) == 1 and mm[0].name == 'insert' and mm[0].args == (K2, K1), en.label, 'the master item is not recorded at its position', mm[0] if mm else en.func)
                    for x in (INS, REM):
                        k = len(q.listen_calls(p.trace, x, K1))
                        ctx.check(k == 1, en.label, 'listens %d times to %s of the master item' % (k, x), en.func)
                else:
                    ok = len(mm) == 1 and mm[0].name == 'remove_at' and (mm[0].args[0] == K2 or (mm[0].args[0][0] == 'indexof' and mm[0].args[0][2] == K1))
                    ctx.check(ok, en.label, 'the master item is not dropped', mm[0] if mm else en.func)
                if not loops:
                    ctx.check(None if touched(p.trace, m.L) else False, en.label, 'the children of the master item are not %s' % ('added' if ev == INS else 'taken out'), en.func)
                for e in loops[:1]:
                    l = e.extra
                    pre = p.trace[:p.trace.index(e)]
                    if mm:
                        before = mm[0] in pre
                        ctx.check(before == (ev == INS), en.label, 'the master item is %s its children are' % ('recorded only after' if ev == INS else 'dropped before'), mm[0])
                    src = attr_of(l.desc.base, K1, kids) if l.desc.kind == 'elems' else None
                    if src is not True:
                        ctx.check(src, en.label, 'does not go through the children of the master item', e)
                        continue
                    it, el = ('idx', l.id, l.desc.base), ('elem', l.id, l.desc.base)
                    if ev == REM and l.desc.order == 'fwd' and any(kind_of(x, m.L) == 'remove' and T.contains(x.args[0], lambda t: t == it) for b in l.paths for x in b.trace):
                        ctx.bad(en.label, 'takes the children out front to back by their old positions', e)
                        continue
                    if ev == INS and l.desc.order != 'fwd':
                        ctx.check(None, en.label, 'order of insertion', e)
                        continue
                    for b in l.paths:
                        if b.status[0] in ('raise', 'exit'):
                            continue
                        if b.status[0] in ('break', 'ret'):
                            ctx.bad(en.label, 'stops before every child was handled', e)
                            continue
                        child_changes(ctx, m, en, p, b.trace, pre, ml, kids, K1, el, it if l.desc.order == 'rev' or ev == INS else ZERO, 'insert' if ev == INS else 'remove', en.label)


def histories(ctx):
    """after every history of one or two changes of the container, of its items' children or of the container itself, a mapped, flattened or (unfiltered) filtered list holds exactly what it is defined to hold"""
    for cls in derived.CLASSES:
        derived.histories(ctx, cls, lambda c: ('r = f.items\n', 'r = [%s]\n' % ', '.join(c.expected())))


RULES = [histories, mapped, container, filtered_in, filtered_follow, rebuilt, flattened]
