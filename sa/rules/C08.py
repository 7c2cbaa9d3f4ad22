from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import NONE
from ..program import Broken
from .lists import models, DERIVED, kind_of, index_verdict
from . import derived

SHIFT = {'insert': 'insert_index', 'remove_at': 'remove_index'}


def sel_field(ctx, m):
    """the list of attached selections: where make_selection puts the selection it returns"""
    names = None
    for p in q.rets(ctx.paths(m.mod, m.cls, 'make_selection')):
        s = set()
        for e in q.muts(p.trace):
            if e.recv and e.recv[0] == 'fld' and e.recv[1] == SELF and p.value in e.args:
                s.add(e.recv[2])
        for (o, n), v in p.st.heap.items():
            if o == SELF and v != p.value and T.contains(v, lambda t: t == p.value):
                s.add(n)
        names = s if names is None else names & s
    return names or set()


def attach(ctx):
    """make_selection attaches the selection it returns, and the constructor attaches the one it is given"""
    for m in models(ctx, DERIVED):
        fs = sel_field(ctx, m)
        f = ctx.method(m.mod, m.cls, 'make_selection')[0]
        for p in q.rets(ctx.paths(m.mod, m.cls, 'make_selection')):
            kept = [e for e in q.flat(p.trace) if e.kind in ('mut', 'write') and any(T.contains(a, lambda t: t == p.value) for a in e.args if isinstance(a, tuple))]
            if p.value[0] == 'new':
                ctx.check(True if kept else (None if q.calls(p.trace) else False), '%s.make_selection' % m.cls, 'the selection that is returned is not attached to the list', f)
            else:
                ctx.unk('%s.make_selection' % m.cls, 'returns %s' % T.show(p.value), f)
        if len(fs) != 1:
            ctx.unk('%s selections' % m.cls, 'the attached selections are not one list')
            continue
        sel = list(fs)[0]
        f = ctx.method(m.mod, m.cls, '__init__')[0]
        if 'selection' not in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]:
            ctx.unk('%s.__init__' % m.cls, 'no selection argument')
            continue
        g = S('selection')
        done = False
        for p in m.inits:
            given = q.assumed(p.trace, ('truthy', g))
            none = q.assumed(p.trace, ('isnone', g))
            v = p.st.heap.get((SELF, sel))
            has = [e for e in p.trace if e.kind == 'mut' and e.recv in (v, F(SELF, sel)) and g in e.args]
            cont = p.st.content.get(v) if v else None
            inside = bool(has) or (cont is not None and g in cont) or (v is not None and T.contains(v, lambda t: t == g))
            if not inside and v is not None and v[0] == 'new':
                inside = g in (getattr(p.eng, 'born', {}).get(v) or ())
            if given is True or none is False:
                done = True
                r = inside if inside else (False if v is not None and v[0] == 'new' else None)
                ctx.check(r, '%s.__init__ selection' % m.cls, 'the selection that is passed in is not attached to the list', f)
            elif given is None and none is None and not inside:
                ctx.check(None if q.calls(p.trace) and v is not None and v[0] != 'new' else False, '%s.__init__ selection' % m.cls, 'the selection that is passed in is not attached to the list', f)
            order = [e for e in p.trace if e.kind == 'loop' or e in has]
            if has and inside:
                first = [e for e in p.trace if (e.kind == 'loop' and any(kind_of(x, m.L) for b in e.extra.paths for x in q.flat(b.trace)))]
                if first and p.trace.index(first[0]) < p.trace.index(has[0]):
                    ctx.ok('%s.__init__ order' % m.cls)
        ctx.ok('%s.__init__' % m.cls)


def release(ctx):
    """releasing drops exactly the selection that is passed (by identity) and keeps all others"""
    for m in models(ctx, DERIVED):
        fs = sel_field(ctx, m)
        if len(fs) != 1:
            continue
        sel = F(SELF, list(fs)[0])
        f = ctx.method(m.mod, m.cls, 'release_selection')[0]
        g = S(f.node.args.args[1].arg)
        what = '%s.release_selection' % m.cls
        touched = False
        for p in q.rets(ctx.paths(m.mod, m.cls, 'release_selection')):
            here = False
            for e in q.flat(p.trace):
                if e.kind == 'mut' and e.recv == sel:
                    touched = here = True
                    if e.name == 'remove_at':
                        at = e.args[0]
                        if at[0] == 'indexof':
                            ctx.check(False if at[2] == g else None, what, 'removes the first selection that is equal to the given one', e)
                        elif at[0] == 'idx':
                            ctx.check(identity_loop(p.trace, e, g, sel), what, 'does not remove the given selection', e)
                        else:
                            ctx.unk(what, 'position', e)
                    elif e.name == 'clear':
                        ctx.bad(what, 'drops every selection', e)
                    else:
                        ctx.unk(what, e.name, e)
                elif e.kind == 'write' and e.recv == SELF and F(SELF, e.name) == sel:
                    touched = here = True
                    ctx.check(rebuilt(p, e, g, sel), what, 'does not keep exactly the other selections', e)
        if not touched:
            ps = ctx.paths(m.mod, m.cls, 'release_selection')
            ctx.check(None if any(q.calls(p.trace) for p in ps) else False, what, 'nothing is released', f)


def identity_loop(trace, mut, g, sel):
    for l in q.loopsof(trace):
        for b in l.paths:
            if mut in b.trace:
                el = ('elem', l.id, l.desc.base)
                if q.assumed(b.trace, ('is', el, g)) is True or q.assumed(b.trace, ('is', g, el)) is True:
                    return True
                if any(e.kind == 'assume' and e.args[0][0] == 'eq' and g in e.args[0] for e in b.trace):
                    return False
    return None


def rebuilt(p, w, g, sel):
    v = w.args[0]
    if v[0] != 'new':
        return None
    born = getattr(p.eng, 'born', {}).get(v)
    hits = 0
    for l in q.loopsof(p.trace):
        if not any(e.kind == 'mut' and e.recv == v for b in l.paths for e in b.trace):
            continue
        hits += 1
        if q.base(l.desc.base) != sel:
            return None
        el = ('elem', l.id, l.desc.base)
        for b in l.paths:
            kept = [e for e in b.trace if e.kind == 'mut' and e.recv == v]
            same = None
            for a in (('is', el, g), ('is', g, el)):
                t = q.assumed(b.trace, a)
                same = t if t is not None else same
            if b.status[0] not in ('next', 'cont'):
                return False if same is not True else None
            if same is None:
                if any(e.kind == 'assume' and e.args[0][0] == 'eq' and (g in e.args[0] or T.contains(e.args[0], lambda t: t == g)) for e in b.trace):
                    return False
                return None
            if same and kept:
                return False
            if not same and (len(kept) != 1 or kept[0].args[-1] != el):
                return False
    if hits == 1:
        return True
    if hits == 0:
        return False if not (p.st.content.get(v) or born) and not q.calls(p.trace) else None
    return None


def shifted(ctx):
    """every change of a derived list is accompanied by exactly one insert_index / remove_index, with the position of the change, on every attached selection"""
    for m in models(ctx, DERIVED):
        fs = sel_field(ctx, m)
        if len(fs) != 1:
            continue
        sel = F(SELF, list(fs)[0])
        for en in m.entries:
            if en.name == '__init__':
                continue        # nothing listens yet; the container setter is an entry of its own
            for p in en.paths:
                pair(ctx, m, en, p.trace, sel, p, p.status, p)


def is_shift_loop(l, sel):
    return l.desc.kind == 'elems' and any(e.kind == 'call' and e.name in SHIFT.values() for b in l.paths for e in b.trace)


def pair(ctx, m, en, trace, sel, p, status, top):
    L = m.L
    changes, shifts = [], []
    for e in trace:
        k = kind_of(e, L)
        if k in ('insert', 'remove'):
            changes.append(e)
        elif e.kind == 'loop':
            l = e.extra
            if is_shift_loop(l, sel):
                shifts.append(e)
                continue
            for b in l.paths:
                pair(ctx, m, en, b.trace, sel, b, b.status[0], top)
        elif e.kind == 'call' and e.name in SHIFT.values() and e.recv and not en.name.startswith('notify'):
            ctx.unk('%s selections' % en.label, 'a selection is shifted outside a loop over all of them', e)
            return
    heap = top.st.heap
    if status in ('raise', 'exit'):
        return
    for c in list(changes):
        what = '%s %s' % (en.label, 'insertion' if c.name == 'insert' else 'removal')
        if not shifts:
            empty = q.assumed(trace, ('truthy', sel)) is False or q.assumed(trace, ('eq', ('len', sel))) is True
            new = en.name == '__init__'
            ctx.check(True if empty else False, what + ' selections', 'the attached selections are not shifted', c)
            continue
        e = shifts.pop(0)
        l = e.extra
        ctx.check(base_ok(l.desc.base, sel, top, en), what + ' selections', 'shifts %s, not the attached selections' % T.show(l.desc.base), e)
        for b in l.paths:
            cs = [x for x in b.trace if x.kind == 'call' and x.name in SHIFT.values()]
            if b.status[0] not in ('next', 'cont'):
                ctx.check(False, what + ' selections', 'the loop over the selections ends early', e)
                continue
            if len(cs) != 1:
                guard = any(x.kind == 'assume' and T.contains(x.args[0], lambda t: t[0] == 'elem' and t[1] == l.id) for x in b.trace)
                ctx.check(None if not cs and guard and any('has_selection' in repr(x.args[0]) for x in b.trace if x.kind == 'assume') else False, what + ' selections', 'a selection is shifted %d times' % len(cs), cs[0] if cs else e)
                continue
            x = cs[0]
            if x.recv != ('elem', l.id, l.desc.base):
                ctx.unk(what + ' selections', 'shifts %s' % T.show(x.recv), x)
                continue
            ctx.check(x.name == SHIFT[c.name], what + ' selections', 'an item is %s but the selections get %s' % ('inserted' if c.name == 'insert' else 'removed', x.name), x)
            ctx.check(index_verdict(c.args[0], x.args[0]) if len(x.args) == 1 else None, what + ' selections', 'the list is changed at %s but the selections are shifted at %s' % (T.show(c.args[0]), T.show(x.args[0]) if x.args else '?'), x)
    for e in shifts:
        ctx.bad('%s selections' % en.label, 'the selections are shifted although the list is not changed', e)


def base_ok(b, sel, top, en):
    b = q.base(b)
    if b == sel:
        return True
    if en.name == '__init__' and b == top.st.heap.get((SELF, sel[2])):
        return True
    return None if T.lossy(b) or b[0] in ('new', 'res', 'app') else False


def histories(ctx):
    """after every history of one or two changes the selections attached hold the indexes of the items selected that stayed in the list; a released one is left alone"""
    def prep(pick, make):
        def p(c):
            js = [j for j in pick if j < len(c.expected())]
            return make + 'sel.set_multiple({%s})\n' % ', '.join(map(str, js)) + ''.join('marks[%d] = True\n' % j for j in js)
        return p
    for cls in derived.CLASSES:
        for pick in ((0, 2), (1,)):
            derived.histories(ctx, cls, lambda c: ('r = bad(sel)\n', 'r = 0\n'), prep(pick, 'sel = f.make_selection()\n'), ' with selection')
        derived.histories(ctx, cls, lambda c: ('r = (bad(sel), 1 in two.indexes, len(two.indexes))\n', 'r = (0, True, 1)\n'), prep((0, 1), 'sel = f.make_selection()\ntwo = f.make_selection()\ntwo.set_multiple({1})\nf.release_selection(two)\n'), ' with released selection', one=True)


RULES = [histories, attach, release, shifted]
