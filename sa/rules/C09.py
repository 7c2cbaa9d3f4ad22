from .. import q
from .. import sets
from .. import terms as T
from ..agree import agree
from ..program import Broken
from ..q import SELF, F, S
from ..terms import NONE, TRUE, FALSE, ZERO, ONE

M, CL = 'Selection', 'IndexedSelection'
STYLES = ('none', 'single', 'single_or_none', 'multiple')


class Info:
    pass


def info(ctx):
    if 'c09' in ctx._cache:
        return ctx._cache['c09']
    r = Info()
    a = q.role_field(ctx, M, CL, 'anchor_index')
    r.anchor = a.pop() if len(a) == 1 else None
    i = q.role_field(ctx, M, CL, 'indexes')
    r.idx = i.pop() if len(i) == 1 else None
    e = q.role_field(ctx, M, CL, 'changed_event')
    r.event = e.pop() if len(e) == 1 else None
    ctx._cache['c09'] = r
    return r


def styles_of(p):
    """styles the path is possible for; None if the style was examined in a way not understood"""
    st = F(SELF, 'selection_style')
    poss = set(STYLES)
    odd = False
    for e in p.trace:
        if e.kind != 'assume':
            continue
        a = e.args[0]
        if not T.contains(a, lambda t: t == st):
            continue
        if a[0] in ('eq', 'is') and len(a) == 3 and st in a[1:]:
            o = a[2] if a[1] == st else a[1]
            if o[0] == 'enum' and o[2] in STYLES:
                poss = poss & {o[2]} if e.name else poss - {o[2]}
                continue
        odd = True
    return None if odd else poss


class View:
    """a finished command: old and new indexes and anchor, with the facts of its path"""

    def __init__(self, p, I):
        self.p, self.I = p, I
        self.sets = sets.Sets(p)
        self.I0 = F(SELF, I.idx)
        self.A0 = F(SELF, I.anchor)
        self.fin = p.st.heap.get((SELF, I.idx), self.I0)
        self.new = self.sets.value(self.fin)
        self.old = sets.elems(self.I0)
        self.anchor = p.st.heap.get((SELF, I.anchor), self.A0)
        self.eqs = []
        for e in q.flat(p.trace, loops=False):
            if e.kind == 'assume' and e.args[0][0] == 'eq' and len(e.args[0]) == 3 and e.args[0][1][0] in ('cval', 'lit', 'new', 'setop', 'setof', 'fld', 'copy'):
                a, b = self.sets.value(e.args[0][1]), self.sets.value(e.args[0][2])
                if a is not None and b is not None:
                    self.eqs.append((a, b, e.name))
        self.fires = [i for i, e in enumerate(p.trace) if q.is_fire(e, I.event, SELF)]
        self.odd_fire = any(q.is_fire(e, I.event, SELF) for l in q.loopsof(p.trace) for b in l.paths for e in q.flat(b.trace))

    def equal(self, a, b):
        """are the two models equal sets on this path: True / False / None"""
        if a is None or b is None:
            return None
        if a == b:
            return True
        for x, y, v in self.eqs:
            if {x, y} == {a, b}:
                return v
        # emptiness
        for x, y in ((a, b), (b, a)):
            if x == sets.EMPTY and y == self.old:
                z = self.p.st.cmp('eq', T.C(0) if False else ('len', self.I0), True)
                if z is not None:
                    return z
                t = self.p.eng.known(self.p.st, ('truthy', self.I0))
                if t is not None:
                    return not t
        if self.norm(a) == self.norm(b):
            return True
        return None

    def norm(self, m):
        """remove parts that the path says are there already / are not there"""
        parts, minus = m
        out = set()
        for x in parts:
            if x[0] == 'range':
                if T.sub(x[2], x[1]) == ONE:
                    x = ('one', x[1])
            if x[0] == 'one' and ('elems', self.I0) in parts and self.isin(x[1]) is True:
                continue
            out.add(x)
        mn = frozenset(y for y in minus if not (out == {('elems', self.I0)} and self.isin(y) is False))
        return frozenset(out), mn

    def isin(self, x):
        """was x selected before"""
        for e in self.p.trace:
            if e.kind == 'assume' and e.args[0] in (('in', x, self.I0), ('in', x, ('cval', self.I0, 0))):
                return e.name
            if e.kind == 'mut' and e.recv == self.I0 and e.name in ('add', 'discard') and e.args[0] == x:
                return e.extra.get('was')
            if e.kind == 'loop' or e.kind == 'mut' and e.recv == self.I0:
                break
        return None

    def changed(self):
        """True / False / None; 'never': the facts of the path contradict each other"""
        if self.new is None:
            return None
        r = self.equal(self.old, self.new)
        r2 = self.changed2()
        if r is not None:
            return not r if r2 is None or r2 != r else 'never'
        if r2 is not None:
            return r2
        parts, minus = self.new
        if len(parts) == 1 and not minus and next(iter(parts))[0] == 'one' and self.only_len(self.I0):
            # only the number of indexes is known
            n = self.p.st.cmp('eq', T.sub(('len', self.I0), ONE), True)
            return True if n is False else 'either'
        return None

    def only_len(self, c):
        """the path looks at container c, but only at its length"""
        ln = ('len', c)
        seen = False
        for e in self.p.trace:
            if e.kind == 'assume' and T.contains(e.args[0], lambda t: t == c):
                a = e.args[0]
                if a[0] in ('isinst', 'callable') and a[1] != c or a[0] == 'eq' and len(a) == 3 and any(x[0] == 'cval' and T.contains(x, lambda t: t == self.I0) for x in a[1:]) and c != self.I0:
                    continue
                seen = True
                if a[0] not in ('lt', 'le', 'eq') or len(a) != 2:
                    return False
                if T.contains(T.subst(a[1], {ln: ZERO}), lambda t: t[0] not in ('const', 'poly')):
                    return False
        return seen

    def empties(self, c):
        """does the path look at whether c is empty"""
        for e in self.p.trace:
            if e.kind == 'assume':
                a = e.args[0]
                if a[0] in ('truthy', 'empty') and T.contains(a, lambda t: t == c) or T.contains(a, lambda t: t[0] == 'len' and T.contains(t, lambda u: u == c)):
                    return True
                if a[0] == 'eq' and len(a) == 3 and any(T.contains(x, lambda t: t == c) for x in a[1:]) and any(self.sets.value(x) == sets.EMPTY for x in a[1:] if x[0] in ('cval', 'lit', 'new', 'setof', 'copy')):
                    return True
        return False

    def changed2(self):
        parts, minus = self.new
        if parts == {('elems', self.I0)} and len(minus) == 1:
            x = next(iter(minus))
            return self.isin(x)
        if not minus and len(parts) == 2 and ('elems', self.I0) in parts:
            x = next(y for y in parts if y != ('elems', self.I0))
            if x[0] == 'one':
                v = self.isin(x[1])
                return None if v is None else not v
        # the length before and after
        return None

    def examined(self):
        """does the path look at the indexes in any way"""
        return any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == self.I0) for e in self.p.trace)


def view(ctx, name, opts=None, kind=None):
    I = info(ctx)
    f, ci = ctx.method(M, CL, name)
    par = [a.arg for a in f.node.args.args][1:]
    out = []
    for p in ctx.paths(M, CL, name, opts=opts):
        if p.status != 'ret':
            if any(e.kind in ('mut', 'write', 'call') for e in p.trace):
                ctx.check(None, '%s.%s' % (CL, name), 'fails after changing something', f)
            continue
        out.append(View(p, I))
    return f, (S(par[0]) if par else None), out


def judge(ctx, v, got, wants, what, f):
    """the set of indexes is one of the wanted models"""
    rs = [v.equal(got, w) for w in wants]
    if True in rs:
        ctx.ok(what, f)
        return
    if got is None:
        ctx.unk(what, 'indexes', f)
        return
    # exact models that differ: refuted when every alternative is provably different in shape
    if any(x[0] == 'image' for x in got[0]):
        ctx.unk(what, 'computed set', f)
        return
    if False in rs or all(shape_differs(v, got, w) for w in wants):
        ctx.bad(what, 'the indexes become %s' % show(got), f)
    else:
        ctx.unk(what, 'indexes %s' % show(got), f)


def known_parts(m):
    return m is not None and all(x[0] in ('one', 'range', 'elems') and not any(T.lossy(y) or T.contains(y, lambda t: t[0] in ('app', 'res', 'unk', 'max', 'min', 'minof', 'maxof')) for y in x[1:]) for x in m[0]) and not any(T.lossy(y) for y in m[1])


def shape_differs(v, got, want):
    return known_parts(got) and v.norm(got) != v.norm(want) and got != want


def show(m):
    if m is None:
        return '?'
    out = []
    for x in sorted(m[0], key=str):
        if x[0] == 'image':
            out.append('shifted indexes')
        elif x[0] == 'elems':
            out.append('all of %s' % T.show(x[1]))
        elif x[0] == 'range':
            out.append('range(%s, %s)' % (T.show(x[1]), T.show(x[2])))
        else:
            out.append(T.show(x[1]))
    s = '{%s}' % ', '.join(out)
    if m[1]:
        s += ' without ' + ', '.join(T.show(x) for x in m[1])
    return s


def one(x):
    return sets.model([('one', x)])


def plus(m, *parts):
    return (m[0] | set(parts), m[1])


ZERO_SET = one(ZERO)


def cleared(style):
    return ZERO_SET if style == 'single' else sets.EMPTY


def anchor_is(ctx, v, want, what, f):
    got = v.anchor
    if got == want:
        return ctx.ok(what + ' anchor', f)
    if want == v.A0 and got != want:
        # anchor written to a value known equal
        if v.p.st.cmp('eq', T.sub(got, want), True) is True:
            return ctx.ok(what + ' anchor', f)
    k = q.veq(got, want)
    if k is False and T.contains(got, lambda t: t[0] in ('app', 'res', 'unk', 'min', 'max', 'minof', 'maxof')) and got[0] not in ('minof', 'maxof'):
        k = None
    if k is False and v.p.st.cmp('eq', T.sub(got, want), True) is True:
        k = True
    ctx.check(k, what + ' anchor', 'the anchor becomes %s instead of %s' % (T.show(got), T.show(want)), f)


def empty_new(v):
    """is the new set empty on this path"""
    if v.new == sets.EMPTY:
        return True
    if v.new is None:
        return None
    if any(x[0] == 'one' for x in v.new[0]) and not v.new[1]:
        return False
    z = v.p.st.cmp('le', v.p.eng.len_of(v.p.st, v.fin), True)
    if z is not None:
        return z
    t = v.p.eng.known(v.p.st, ('truthy', v.fin))
    if t is not None:
        return not t
    return None


def anchor_lowest(ctx, v, what, f):
    """anchor moved to the lowest remaining index, or absent"""
    em = empty_new(v)
    a = v.anchor
    if a == NONE:
        ctx.check(True if em is True else (False if em is False or not v.empties(v.fin) and v.fin != v.I0 else None), what + ' anchor', 'the anchor becomes absent although indexes remain', f)
        return
    if a[0] == 'minof':
        m = v.sets.value(a[1])
        ok = m is not None and (m == v.new or v.equal(m, v.new) is True)
        ctx.check(True if ok else (False if m is not None and v.new is not None and known_parts(m) and known_parts(v.new) else None), what + ' anchor', 'the anchor is the lowest of another set of indexes', f)
        if em is True:
            ctx.bad(what + ' anchor', 'an anchor although nothing is selected', f)
        return
    if a[0] == 'maxof':
        ctx.bad(what + ' anchor', 'the anchor becomes the highest remaining index', f)
        return
    if a[0] == 'item' and a[1][0] == 'sorted':
        ctx.check(True if a[2] == ZERO and v.sets.value(a[1]) == v.new else None, what + ' anchor', '', f)
        return
    if a == v.A0 or a[0] in ('sym', 'const') or a[0] == 'poly':
        ctx.bad(what + ' anchor', 'the anchor becomes %s instead of the lowest remaining index' % T.show(a), f)
        return
    ctx.unk(what + ' anchor', T.show(a), f)


def each(ctx, name, opts=None):
    f, x, vs = view(ctx, name, opts)
    for v in vs:
        st = styles_of(v.p)
        if st is None:
            ctx.unk('%s.%s' % (CL, name), 'style', f)
            continue
        for s in sorted(st):
            yield f, x, v, s


def lbl(name, style):
    return '%s.%s (%s)' % (CL, name, style)


def do_set(ctx, f, x, v, s, what):
    judge(ctx, v, v.new, [sets.EMPTY if s == 'none' else one(x)], what, f)
    anchor_is(ctx, v, NONE if s == 'none' else x, what, f)


def do_clear(ctx, f, v, s, what):
    judge(ctx, v, v.new, [cleared(s)], what, f)
    anchor_is(ctx, v, ZERO if s == 'single' else NONE, what, f)


def do_add(ctx, f, x, v, s, what):
    if s != 'multiple':
        return do_set(ctx, f, x, v, s, what)
    was_empty = v.equal(v.old, sets.EMPTY)
    if was_empty is None:
        was_empty = v.p.st.cmp('le', ('len', v.I0), True)
    judge(ctx, v, v.new, [plus(v.old, ('one', x))] + ([one(x)] if was_empty else []), what, f)
    if was_empty is True:
        anchor_is(ctx, v, x, what, f)
    elif was_empty is False:
        anchor_is(ctx, v, v.A0, what, f)
    elif v.isin(x) is True or v.changed() is False:
        anchor_is(ctx, v, v.A0, what, f)
    else:
        isn = v.p.eng.known(v.p.st, ('isnone', v.A0))
        r = None
        if not v.empties(v.I0) and known_parts(v.new):
            # may or may not have been empty
            r = True if isn is True and v.anchor == x else (False if v.anchor in (x, v.A0, NONE) else None)
        ctx.check(r, what + ' anchor', 'the anchor becomes %s whatever was selected before' % T.show(v.anchor), f)


def do_remove(ctx, f, x, v, s, what):
    if s == 'none':
        return do_clear(ctx, f, v, s, what)
    if s == 'single':
        judge(ctx, v, v.new, [v.old], what, f)
        anchor_is(ctx, v, v.A0, what, f)
        return
    was_in = v.isin(x)
    want = (v.old[0], frozenset([x]))
    judge(ctx, v, v.new, [want] + ([v.old] if was_in is False else []), what, f)
    if v.anchor == v.A0:
        # allowed when the anchor is still selected
        inn = None
        for e in v.p.trace:
            if e.kind == 'assume' and e.args[0][0] == 'in' and e.args[0][1] == v.A0:
                inn = e.name
        if inn is None:
            d = v.p.st.cmp('eq', T.sub(v.A0, x), True)
            if d is True:
                inn = False
            elif d is False:
                inn = True
        seen = any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == v.A0) for e in v.p.trace)
        if v.new == v.old or was_in is False:
            ctx.ok(what + ' anchor', f)
        else:
            ctx.check(True if inn is True else (False if inn is False or not seen else None), what + ' anchor', 'the anchor stays although its index may have been removed', f)
    else:
        anchor_lowest(ctx, v, what, f)
        # and only moved when it was not selected any more
        for e in v.p.trace:
            if e.kind == 'assume' and e.args[0][0] == 'in' and e.args[0][1] == v.A0 and e.name is True and v.sets.value(e.args[0][2]) == v.new:
                ctx.bad(what + ' anchor', 'the anchor moves although it is still selected', f)


def set_(ctx):
    """set selects exactly the given index (nothing with style none) and makes it the anchor"""
    for f, x, v, s in each(ctx, 'set'):
        do_set(ctx, f, x, v, s, lbl('set', s))


def clear(ctx):
    """clear selects nothing, or the first index with style single; the anchor follows"""
    for f, x, v, s in each(ctx, 'clear'):
        do_clear(ctx, f, v, s, lbl('clear', s))


def add(ctx):
    """add selects the index in addition with style multiple (anchor kept, or the index if nothing was selected), else as set"""
    for f, x, v, s in each(ctx, 'add'):
        do_add(ctx, f, x, v, s, lbl('add', s))


def remove(ctx):
    """remove deselects the index (styles multiple and single_or_none), does nothing with style single; the anchor moves to the lowest remaining index when its index goes"""
    for f, x, v, s in each(ctx, 'remove'):
        do_remove(ctx, f, x, v, s, lbl('remove', s))


def toggle(ctx):
    """toggle removes a selected index and adds one that is not selected"""
    for f, x, v, s in each(ctx, 'toggle'):
        w = v.isin(x)
        if w is None:
            ctx.check(None if v.examined() else False, lbl('toggle', s), 'does not depend on whether the index is selected', f)
        elif w:
            do_remove(ctx, f, x, v, s, lbl('toggle selected', s))
        else:
            do_add(ctx, f, x, v, s, lbl('toggle unselected', s))


def extend(ctx):
    """extend (style multiple) adds every index between anchor and index, both included, and keeps the anchor; without anchor it adds the index and makes it the anchor; else as set"""
    for f, x, v, s in each(ctx, 'extend'):
        what = lbl('extend', s)
        if s != 'multiple':
            do_set(ctx, f, x, v, s, what)
            continue
        st = v.p.st
        n = v.p.eng.known(st, ('isnone', v.A0))
        if n is None:
            n0 = v.p.eng.known(st, ('truthy', v.A0))
            if n0 is not None:
                ctx.bad(what, 'an anchor at index 0 is taken for no anchor', f)
                continue
        if n is True:
            judge(ctx, v, v.new, [plus(v.old, ('one', x))], what, f)
            anchor_is(ctx, v, x, what, f)
            continue
        if n is None:
            ctx.check(None if any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == v.A0) for e in v.p.trace) else False, what, 'does not depend on the anchor', f)
            continue
        anchor_is(ctx, v, v.A0, what, f)
        d = T.sub(x, v.A0)
        lt, le = st.cmp('lt', d, True), st.cmp('le', d, True)
        a1, x1 = T.add(v.A0, ONE), T.add(x, ONE)
        up, down = plus(v.old, ('range', v.A0, x1)), plus(v.old, ('range', x, a1))
        if lt is True:
            judge(ctx, v, v.new, [down], what + ' below anchor', f)
        elif le is False:
            judge(ctx, v, v.new, [up], what + ' above anchor', f)
        elif lt is False and le is True:
            judge(ctx, v, v.new, [v.old, plus(v.old, ('one', x)), up, down], what + ' at anchor', f)
        elif lt is False:
            judge(ctx, v, v.new, [up], what + ' from anchor', f)
        elif le is True:
            judge(ctx, v, v.new, [down], what + ' to anchor', f)
        else:
            ok = False
            if v.new is not None and v.new[0] >= v.old[0] and not v.new[1]:
                r = [y for y in v.new[0] if y[0] == 'range']
                if len(r) == 1 and r[0][1][0] == 'min' and set(r[0][1][1:]) == {x, v.A0} and minus1(r[0][2], x, v.A0):
                    ok = True
            ctx.check(True if ok else None, what, 'range %s' % show(v.new), f)


def minus1(t, a, b):
    u = T.sub(t, ONE)
    return u[0] == 'max' and set(u[1:]) == {a, b} or t[0] == 'max' and set(t[1:]) == {T.add(a, ONE), T.add(b, ONE)}


def set_multiple(ctx):
    """set_multiple selects exactly the given indexes with style multiple, the only one with a single style, else clears; the anchor is one of them"""
    for f, x, v, s in each(ctx, 'set_multiple'):
        what = lbl('set_multiple', s)
        st = v.p.st
        ln = ('len', x)
        if s == 'multiple':
            em = st.cmp('le', ln, True)
            if em is None:
                t = v.p.eng.known(st, ('truthy', x))
                em = None if t is None else not t
            judge(ctx, v, v.new, [sets.elems(x)] + ([sets.EMPTY] if em else []), what, f)
            if v.anchor == NONE:
                ctx.check(True if em else (False if em is False or v.only_len(x) or not any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == x) for e in v.p.trace) else None), what + ' anchor', 'no anchor although indexes are selected', f)
            else:
                a = v.anchor
                own = a != v.A0 and T.contains(a, lambda t: t == x)
                ctx.check(True if own and em is not True else (False if a == v.A0 or a[0] == 'const' or em is True else None), what + ' anchor', 'the anchor becomes %s' % T.show(a), f)
        elif s in ('single', 'single_or_none'):
            one_ = st.cmp('eq', T.sub(ln, ONE), True)
            if one_ is True:
                m = v.new
                y = next(iter(m[0])) if m is not None and len(m[0]) == 1 and not m[1] else None
                if m == sets.elems(x):
                    ctx.ok(what, f)
                elif y is not None and y[0] == 'one' and T.contains(y[1], lambda t: t == x):
                    ctx.ok(what, f)
                    anchor_is(ctx, v, y[1], what, f)
                else:
                    ctx.check(None if m is None else False, what, 'one index is given but the indexes become %s' % show(m), f)
            elif one_ is False:
                do_clear(ctx, f, v, s, what + ' several')
            else:
                m = v.new
                if m == sets.elems(x):
                    ctx.bad(what, 'several indexes may become selected', f)
                elif m is not None and m != v.old and (v.only_len(x) or not any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == ln) for e in v.p.trace)):
                    ctx.bad(what, 'does not depend on how many indexes are given: %s' % show(m), f)
                else:
                    ctx.unk(what, 'number of indexes', f)
        else:
            do_clear(ctx, f, v, s, what)


def region(ctx, v, variants, el, n, delta, drop):
    """the shift of each element el at position n, by case; -> list of (region, ok)"""
    from ..state import St
    out = []
    for name, lo, hi in (('below', None, -1), ('at', 0, 0), ('above', 1, None)):
        # the cases possible for el - n in the region
        hit = []
        for conds, op, val in variants:
            st = St()
            d = T.sub(el, n)
            if hi is not None:
                st.assume_cmp('le', T.sub(d, T.C(hi)), True, True)
            if lo is not None:
                st.assume_cmp('le', T.sub(T.C(lo), d), True, True)
            ok = True
            for a, val_ in conds:
                if a[0] in ('lt', 'le', 'eq') and len(a) == 2:
                    k = st.cmp(a[0], a[1], True)
                    if k is not None and k != val_:
                        ok = False
                        break
                    if k is None:
                        if not T.contains(a, lambda t: t == el):
                            continue
                        st.assume_cmp(a[0], a[1], val_, True)
                        if st.dead:
                            ok = False
                            break
                else:
                    return None
            if ok:
                hit.append((op, val))
        out.append((name, hit))
    return out


def shift(ctx, name, want, what_of):
    f, n, vs = view(ctx, name)
    for v in vs:
        what = '%s.%s' % (CL, name)
        m = v.new
        alts = [m] + [b if a == m else a for a, b, val in v.eqs if val is True and m in (a, b)]
        im = None
        for a in alts:
            if a is not None and len(a[0]) == 1 and not a[1]:
                y = next(iter(a[0]))
                if y[0] == 'image' and y[1] == v.old:
                    im = y
        if im is None:
            if m == v.old:
                # nothing changed: must be because nothing has to move
                em = v.p.st.cmp('le', ('len', v.I0), True)
                t = v.p.eng.known(v.p.st, ('truthy', v.I0))
                ctx.check(True if em is True or t is False else (None if v.examined() else False), what, 'the indexes are not shifted', f)
            else:
                ctx.check(None if m is None or any(x[0] == 'image' for x in m[0]) else False, what, 'the indexes become %s' % show(m), f)
        else:
            rs = region(ctx, v, im[3], im[2], n, None, None)
            if rs is None:
                ctx.unk(what, 'cases', f)
            else:
                for rname, hit in rs:
                    exp = want[rname]
                    w = None if exp is None else T.add(im[2], T.C(exp))
                    got = {None if op is None else val for op, val in hit}
                    if not got:
                        ctx.unk(what, 'no case', f)
                    elif got == {w}:
                        ctx.ok('%s index %s' % (what, rname), f)
                    else:
                        ctx.bad('%s index %s' % (what, rname), 'an index %s the position becomes %s' % (rname, ', '.join('dropped' if g is None else T.show(g) for g in got)), f)
        # anchor
        st = v.p.st
        isn = v.p.eng.known(st, ('isnone', v.A0))
        if isn is True:
            ctx.check(v.anchor in (NONE, v.A0), what + ' anchor', 'an anchor appears', f)
            continue
        if isn is None and v.p.eng.known(st, ('truthy', v.A0)) is False and v.anchor == v.A0:
            ctx.bad(what + ' anchor', 'an anchor at index 0 is taken for no anchor', f)
            continue
        d = T.sub(v.A0, n)
        poss = []
        for rname, lo, hi in (('below', None, -1), ('at', 0, 0), ('above', 1, None)):
            s2 = st.copy()
            if hi is not None:
                s2.assume_cmp('le', T.sub(d, T.C(hi)), True, True)
            if lo is not None:
                s2.assume_cmp('le', T.sub(T.C(lo), d), True, True)
            if not s2.dead and (lo != 0 or s2.cmp('eq', d, True) is not False):
                poss.append(rname)
        if isn is None and len(poss) == 3 and v.anchor == v.A0 and not any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == v.A0) for e in v.p.trace):
            em = v.p.st.cmp('le', ('len', v.I0), True)
            t = v.p.eng.known(v.p.st, ('truthy', v.I0))
            ctx.check(None if em is True or t is False or v.examined() else False, what + ' anchor', 'the anchor is not shifted', f)
            continue
        for rname in poss:
            exp = want[rname]
            if exp is None:
                anchor_lowest(ctx, v, what + ' at anchor', f)
            else:
                anchor_is(ctx, v, T.add(v.A0, T.C(exp)), '%s %s' % (what, rname), f)


def insert_index(ctx):
    """an inserted index moves every selected index at or after it, and the anchor, by one"""
    shift(ctx, 'insert_index', {'below': 0, 'at': 1, 'above': 1}, None)


def remove_index(ctx):
    """a removed index is dropped, later ones and the anchor move back by one, the anchor moves to the lowest index when it was the one removed"""
    shift(ctx, 'remove_index', {'below': 0, 'at': None, 'above': -1}, None)


def add_range(ctx):
    """a range is selected by adding its indexes one by one, in order"""
    f, ci = ctx.method(M, CL, 'add_range')
    fa, _ = ctx.method(M, CL, 'add')
    x = S([a.arg for a in f.node.args.args][1])
    what = CL + '.add_range'
    for p in ctx.paths(M, CL, 'add_range', opts={'opaque': (fa.id,)}):
        ls = [l for l in q.loopsof(p.trace) if any(q.is_call(e, 'add', SELF) for b in l.paths for e in b.trace)]
        if len(ls) != 1:
            ctx.check(False if not ls and not [e for e in q.flat(p.trace) if e.kind in ('mut', 'write', 'call')] and not any(T.contains(e.args[0], lambda t: t == x) for e in p.trace if e.kind == 'assume') else None, what, 'does not add the indexes', f)
            continue
        l = ls[0]
        b = q.base(l.desc.base)
        if b != x:
            ctx.check(False if b[0] == 'range' and T.contains(b, lambda t: t == x) and not T.contains(b, lambda t: t == F(x, 'step')) else None, what, 'not the given range is added', f)
        else:
            ctx.check(l.desc.order == 'fwd', what, 'the indexes are added in another order', f)
        for bp in l.paths:
            cs = [e for e in bp.trace if q.is_call(e, 'add', SELF)]
            ctx.check(len(cs) == 1 and bp.status[0] in ('next', 'cont'), what, 'an index of the range is added %d times' % len(cs), f)
            for e in cs:
                ctx.check(True if e.args == (('elem', l.id, l.desc.base),) else q.veq(e.args[0] if e.args else NONE, ('elem', l.id, l.desc.base)), what, 'adds %s' % T.show(e.args[0] if e.args else NONE), e)


def signals(ctx):
    """every command except shifting fires the change event exactly once when, and only when, the set changed, after indexes and anchor changed"""
    I = info(ctx)
    for name in ('set', 'clear', 'add', 'remove', 'toggle', 'extend', 'set_multiple', 'insert_index', 'remove_index'):
        f, x, vs = view(ctx, name)
        for v in vs:
            what = '%s.%s signal' % (CL, name)
            if v.odd_fire:
                ctx.bad(what, 'signals repeatedly in a loop', f)
                continue
            n = len(v.fires)
            if name in ('insert_index', 'remove_index'):
                ctx.check(n == 0, what, 'shifting signals a change', f)
                continue
            ch = v.changed()
            if ch == 'never':
                continue
            if ch == 'either':
                ctx.bad(what, '%s although the indexes may or may not have changed' % ('signals' if n else 'does not signal'), f)
                continue
            if ch is None:
                dep = v.examined() or (v.fin != v.I0 and any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == v.fin) for e in v.p.trace))
                if n > 1:
                    ctx.bad(what, 'signals %d times' % n, f)
                elif v.new is not None and not dep:
                    ctx.bad(what, '%s whether or not the indexes changed' % ('signals' if n else 'does not signal'), f)
                else:
                    ctx.unk(what, 'changed?', f)
                continue
            ctx.check(n == (1 if ch else 0), what, 'signals %d times although the indexes %s' % (n, 'changed' if ch else 'did not change'), f)
            if n == 1:
                i = v.fires[0]
                late = [e for e in v.p.trace[i + 1:] if (e.kind == 'write' and e.recv == SELF and e.name in (I.idx, I.anchor)) or (e.kind == 'mut' and e.recv in (v.fin, v.I0))]
                ctx.check(not late, what, 'signals before the change is complete', late[0] if late else f)
                ctx.check(not v.p.trace[i].args, what, 'signals with arguments', f)


def start(ctx):
    """a new selection has nothing selected, no anchor and the given style (multiple by default)"""
    I = info(ctx)
    f, ci = ctx.method(M, CL, '__init__')
    x = S([a.arg for a in f.node.args.args][1])
    for p in q.rets(ctx.paths(M, CL, '__init__')):
        s = p.st.heap.get((SELF, I.idx))
        ctx.check(None if s is None else sets.Sets(p).value(s) == sets.EMPTY, CL + ' initial', 'something is selected', f)
        ctx.check(q.veq(p.st.heap.get((SELF, I.anchor)), NONE), CL + ' initial', 'an anchor', f)
        st = p.st.heap.get((SELF, 'selection_style'))
        t = p.eng.known(p.st, ('truthy', x))
        n = p.eng.known(p.st, ('isnone', x))
        if t is False or n is True:
            ctx.check(None if st is None else (True if st[0] == 'enum' and st[2] == 'multiple' else (False if st[0] == 'enum' or st == x else None)), CL + ' initial style', 'the default style is not multiple', f)
        elif t or n is False:
            ctx.check(q.veq(st, x), CL + ' initial style', 'the given style is not kept', f)


def queries(ctx):
    """the queries report the state: contains tests membership, has_selection that the set is not empty, current_index the only index or nothing; the ordered indexes start with a selected anchor"""
    I = info(ctx)
    I0 = F(SELF, I.idx)
    f, ci = ctx.method(M, CL, 'contains')
    x = S([a.arg for a in f.node.args.args][1])
    for p in ctx.paths(M, CL, 'contains'):
        w = next((e.name for e in p.trace if e.kind == 'assume' and e.args[0] == ('in', x, I0)), None)
        if w is None or p.value not in (TRUE, FALSE):
            ctx.unk(CL + '.contains', '', f)
        else:
            ctx.check(p.value == (TRUE if w else FALSE), CL + '.contains', 'the answer is negated', f)
    f, ci = ctx.method(M, CL, 'has_selection', 'get')
    for p in ctx.paths(M, CL, 'has_selection', 'get'):
        em = p.st.cmp('le', ('len', I0), True)
        if p.value in (TRUE, FALSE) and em is not None:
            ctx.check(p.value == (FALSE if em else TRUE), CL + '.has_selection', 'wrong answer', f)
        elif p.value in (TRUE, FALSE):
            lo = any(e.kind == 'assume' and T.contains(e.args[0], lambda t: t == ('len', I0)) for e in p.trace)
            ctx.check(False if lo else None, CL + '.has_selection', 'wrong for some number of indexes', f)
        else:
            ctx.unk(CL + '.has_selection', '', f)
    f, ci = ctx.method(M, CL, 'current_index', 'get')
    for p in q.rets(ctx.paths(M, CL, 'current_index', 'get')):
        one_ = p.st.cmp('eq', T.sub(('len', I0), ONE), True)
        if p.value == NONE:
            # the fall through of a loop over a set with one element is not reachable
            lp = any(l.desc.base == I0 and all(b.status[0] == 'ret' for b in l.paths) for l in q.loopsof(p.trace))
            ctx.check(True if one_ is False or (one_ is True and lp) else (False if one_ is True else None), CL + '.current_index', 'nothing although one index is selected', f)
        elif T.contains(p.value, lambda t: t == I0) and one_ is not True:
            ctx.check(False, CL + '.current_index', 'an index although several or none may be selected', f)
        else:
            ctx.check(True if T.contains(p.value, lambda t: t == I0) else None, CL + '.current_index', '', f)



class Model:
    """the selection as the statement defines it"""

    def __init__(self, style):
        self.style, self.idx, self.anchor, self.seen = style, frozenset(), None, []

    def become(self, idx, anchor):
        old, self.idx, self.anchor = self.idx, frozenset(idx), anchor
        if old != self.idx:
            self.seen.append((tuple(sorted(self.idx)), anchor))

    def clear(self):
        self.become({0}, 0) if self.style == 'single' else self.become((), None)

    def set(self, x):
        self.clear() if self.style == 'none' else self.become({x}, x)

    def add(self, x):
        self.become(self.idx | {x}, self.anchor if self.idx else x) if self.style == 'multiple' else self.set(x)

    def remove(self, x):
        if self.style == 'none':
            self.clear()
        elif self.style != 'single':
            idx = self.idx - {x}
            self.become(idx, self.anchor if self.anchor in idx else min(idx, default=None))

    def toggle(self, x):
        self.remove(x) if x in self.idx else self.add(x)

    def extend(self, x):
        if self.style != 'multiple':
            self.set(x)
        elif self.anchor is None:
            self.become(self.idx | {x}, x)
        elif x != self.anchor:
            self.become(self.idx | set(range(min(x, self.anchor), max(x, self.anchor) + 1)), self.anchor)

    def set_multiple(self, xs):
        if self.style == 'multiple':
            self.become(xs, xs[0] if xs else None)
        elif self.style != 'none' and len(xs) == 1:
            self.set(xs[0])
        else:
            self.clear()

    def add_range(self, r):
        for x in r:
            self.add(x)

    def insert_index(self, p):
        self.idx = frozenset(x + (x >= p) for x in self.idx)
        if self.anchor is not None and self.anchor >= p:
            self.anchor += 1

    def remove_index(self, p):
        self.idx = frozenset(x - (x > p) for x in self.idx if x != p)
        if self.anchor is not None:
            if self.anchor == p:
                self.anchor = min(self.idx, default=None)
            elif self.anchor > p:
                self.anchor -= 1


# histories of commands; the last one is looked at closely
STARTS = ((), (('set', 3),), (('add', 4), ('add', 2), ('add', 7)), (('add', 2), ('add', 4), ('add', 7), ('remove', 2)), (('set', 5), ('extend', 8)), (('set', 0),), (('add', 6), ('add', 1), ('remove', 6), ('remove', 1)), (('set_multiple', (7,)), ('extend', 4)))
ENDS = tuple((n, x) for n in ('set', 'add', 'toggle', 'extend', 'insert_index', 'remove_index') for x in (0, 2, 3, 5, 6, 7)) + (('clear', None), ('remove', 3), ('remove', 4), ('remove', 7), ('set_multiple', ()), ('set_multiple', (3,)), ('set_multiple', (4, 2, 7)), ('set_multiple', (2, 4, 7)), ('add_range', range(2, 5)), ('add_range', range(8, 1, -3)), ('add_range', range(0)))
HOPTS = {'inline_modules': ('Event',), 'rec': 4, 'alive': True, 'budget': 20000}


def command(c):
    n, x = c
    arg = '' if x is None else repr(list(x) if len(x) > 1 else set(x)) if n == 'set_multiple' else repr(x)
    return 's.%s(%s)\n' % (n, arg)


def histories(ctx):
    """histories of commands with fixed indexes, for every style: the indexes, the anchor, the queries and what listeners hear are those of the definition"""
    f, ci = ctx.method(M, CL, '__init__')
    with ctx.modelled('time'):
        for style in STYLES:
            for start_ in STARTS:
                for end in ENDS:
                    m = Model(style)
                    ok = True
                    for c in start_ + (end,):
                        if c[0] == 'remove' and c[1] not in m.idx and style not in ('none', 'single'):
                            ok = False      # removing an index that is not selected is not defined
                            break
                        getattr(m, c[0])(*([] if c[1] is None else [c[1]]))
                    if not ok:
                        continue
                    hist = start_ + (end,)
                    what = '%s history (%s): %s' % (CL, style, ', '.join(x[2:].strip() for x in map(command, hist)))
                    try:
                        w = ctx.method(M, CL, end[0])[0]
                    except Broken:
                        w = f
                    order = sorted(m.idx)
                    if m.anchor in order:
                        order.remove(m.anchor)
                        order.insert(0, m.anchor)
                    cur = order[0] if len(order) == 1 else None
                    agree(ctx, what, M, '', CLIENT % {'style': style, 'do': ''.join(map(command, hist))},
                          'r = %r\n' % ((tuple(order), m.anchor, cur, bool(order), 2 in m.idx, 3 in m.idx, len(order), tuple(m.seen)),), observe=lambda e: False, w=w, opts=HOPTS, total=True)


CLIENT = '''
s = IndexedSelection(Style.%(style)s)
seen = []
l = s.changed_event.listen(lambda: seen.append((tuple(sorted(s.indexes)), s.anchor_index)))
%(do)s
r = (tuple(s.ordered_indexes), s.anchor_index, s.current_index, s.has_selection, s.contains(2), s.contains(3), len(s.indexes), tuple(seen))
'''


def equality(ctx):
    """two selections are equal exactly when their indexes and anchors are; nothing else equals a selection"""
    f, ci = ctx.method(M, CL, '__init__')
    mk = ('', 's.set(3)\n', 's.set(4)\n', 's.add(3)\ns.add(4)\n', 's.add(4)\ns.add(3)\n')
    key = ((), (3, 3), (4, 4), (3, 4, 3), (3, 4, 4))
    with ctx.modelled('time'):
        for i, a in enumerate(mk):
            for j, b in enumerate(mk):
                want = key[i] == key[j]
                agree(ctx, '%s equality' % CL, M, '', 's = IndexedSelection()\n%st = s\ns = IndexedSelection(Style.multiple)\n%sr = (s == t, s != t)\n' % (a, b), 'r = %r\n' % ((want, not want),), observe=lambda e: False, w=f, opts=HOPTS, total=True)
            agree(ctx, '%s equality with others' % CL, M, '', 's = IndexedSelection()\n%sr = (s == None, s != None, s == 3, s != 3, s == {3}, s != {3})\n' % a, 'r = (False, True, False, True, False, True)\n', observe=lambda e: False, w=f, opts=HOPTS, total=True)
        # an anchor that is set to an index not selected, or to none
        for at in (None, 9, 2, 4):
            order = [2, 4, 7]
            if at in order:
                order.remove(at)
                order.insert(0, at)
            agree(ctx, '%s anchor set by hand' % CL, M, '', 's = IndexedSelection()\ns.add(4)\ns.add(7)\ns.add(2)\ns.anchor_index = %r\nr = (s.anchor_index, tuple(s.ordered_indexes))\n' % (at,), 'r = %r\n' % ((at, tuple(order)),), observe=lambda e: False, w=f, opts=HOPTS, total=True)


RULES = [set_, clear, add, remove, toggle, extend, set_multiple, insert_index, remove_index, add_range, signals, start, queries, histories, equality]
