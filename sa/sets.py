"""Abstract sets: what a set-valued container holds at each of its versions on a path, as a union of parts
   ('elems', t)  all elements of t        ('one', x)        ('range', lo, hi)   lo <= y < hi
   ('image', base model, variants)        the values of a loop over base, by case
minus a set of single elements.  None = the analysis lost track."""
from . import terms as T
from .terms import NONE, ZERO


def model(parts=(), minus=()):
    return (frozenset(parts), frozenset(minus))


EMPTY = model()


def elems(t):
    return model([('elems', t)])


def add(m, part, differ=lambda a, b: False):
    if m is None or part is None:
        return None
    parts, minus = m
    if part[0] == 'one':
        minus = frozenset(x for x in minus if x != part[1])
        if any(not differ(x, part[1]) for x in minus):
            return None
    elif minus:
        return None
    return (parts | {part}, minus)


def discard(m, x, differ=lambda a, b: False):
    if m is None:
        return None
    parts, minus = m
    parts2 = frozenset(q for q in parts if q != ('one', x))
    if not parts2:
        return EMPTY
    if all(q[0] == 'one' and differ(q[1], x) for q in parts2):
        return (parts2, minus)
    return (parts2, minus | {x})


def union(a, b):
    if a is None or b is None:
        return None
    if a[1] or b[1]:
        return None
    return (a[0] | b[0], frozenset())


class Sets:
    def __init__(self, path, eng=None):
        self.p = path
        self.eng = eng or path.eng
        self.cur = {}      # container -> [version, model]
        self.hist = {}     # (container, version) -> model
        self.at = {}       # container -> list of (effect index, version)
        for i, e in enumerate(path.trace):
            self.step(i, e)

    def differ(self, a, b):
        return bool(self.eng.provably_differ(a, b, self.p.st))

    def start(self, c):
        if c[0] == 'new':
            if c in self.eng.copied:
                return self.value(('cval',) + self.eng.copied[c])
            b = self.eng.born.get(c)
            return None if b is None else model([('one', x) for x in b])
        if c[0] == 'copy':
            return self.value(('cval', c[1], c[2]))
        if c[0] == 'setof':
            return self.value(c[1])
        if c[0] in ('setop', 'lit', 'range', 'tuple', 'sorted', 'reversed', 'keys'):
            return self.value(c)
        if T.lossy(c):
            return None
        return elems(c)

    def get(self, c):
        if c not in self.cur:
            m = self.start(c)
            self.cur[c] = [0, m]
            self.hist[(c, 0)] = m
        return self.cur[c]

    def value(self, t):
        """model of a set valued term (its present value, or the value of the version it names)"""
        if t is None:
            return None
        if t[0] == 'cval':
            self.get(t[1])
            if (t[1], t[2]) in self.hist:
                return self.hist[(t[1], t[2])]
            return None
        if t[0] == 'lit':
            return model([('one', x) for x in t[2]])
        if t[0] == 'tuple':
            return None if any(x[0] == 'star' for x in t[1]) else model([('one', x) for x in t[1]])
        if t[0] == 'range' and len(t) == 4 and t[3] == T.ONE:
            return model([('range', t[1], t[2])])
        if t[0] == 'setop':
            a, b = self.value(t[2]), self.value(t[3])
            if t[1] == 'BitOr':
                return union(a, b)
            if t[1] == 'Sub' and b is not None and not b[1] and all(x[0] == 'one' for x in b[0]):
                for x in b[0]:
                    a = discard(a, x[1], self.differ)
                return a
            return None
        if t[0] in ('sorted', 'reversed', 'keys'):
            return self.value(t[1])
        return self.get(t)[1]

    def put(self, c, ver, m, i):
        self.cur[c] = [ver, m]
        self.hist[(c, ver)] = m
        self.at.setdefault(c, []).append((i, ver))

    def step(self, i, e):
        if e.kind == 'mut':
            v, m = self.get(e.recv)
            ver = e.extra.get('ver', v) if isinstance(e.extra, dict) else v
            nv = ver + 1 if isinstance(ver, int) else ('after', i)
            if e.name == 'add':
                self.put(e.recv, nv, add(m, ('one', e.args[0]), self.differ), i)
            elif e.name == 'discard':
                self.put(e.recv, nv, discard(m, e.args[0], self.differ), i)
            elif e.name == 'clear':
                self.put(e.recv, nv, EMPTY, i)
            else:
                self.put(e.recv, nv, None, i)
        elif e.kind == 'loop':
            self.loop(i, e.extra)

    def loop(self, i, lp):
        cs = set()
        from . import q
        for b in lp.paths:
            for x in q.flat(b.trace):
                if x.kind == 'mut':
                    cs.add(x.recv)
        for c in cs:
            v, m = self.get(c)
            nv = v + 1000 * lp.id if isinstance(v, int) else ('phi', lp.id)
            self.put(c, nv, self.looped(lp, c, m), i)

    def looped(self, lp, c, m):
        if m is None or lp.desc.kind == 'while':
            return None
        el = ('elem', lp.id, lp.desc.base)
        variants = []
        for b in lp.paths:
            if b.status[0] not in ('next', 'cont'):
                return None
            ms = [x for x in b.trace if x.kind == 'mut' and x.recv == c]
            for x in b.trace:
                if x.kind == 'loop' and any(y.kind == 'mut' and y.recv == c for bp in x.extra.paths for y in bp.trace):
                    return None
            if len(ms) > 1:
                return None
            conds = tuple((x.args[0], x.name) for x in b.trace if x.kind == 'assume')
            if ms:
                if T.lossy(ms[0].args[0]) if ms[0].args else True:
                    return None
                variants.append((conds, ms[0].name, ms[0].args[0]))
            else:
                # left out because it is there already
                there = [a for a, v in conds if v is True and a[0] == 'in' and a[2] == c]
                if there and all(k[0] == 'in' and k[2] == c for k, _ in conds):
                    variants.append(((), 'add', there[0][1]))
                else:
                    variants.append((conds, None, None))
        elt = self.elem_of(lp, variants)
        vals = {(n, x) for _, n, x in variants}
        base = lp.desc.base
        if vals == {('add', elt)}:
            bm = self.value(base)
            return union(m, bm) if bm is not None and not m[1] else None
        if vals == {('discard', elt)}:
            bm = self.value(base)
            if bm is not None and not bm[1] and all(x[0] == 'one' for x in bm[0]):
                for x in bm[0]:
                    m = discard(m, x[1], self.differ)
                return m
            return None
        if all(n in ('add', None) for n, _ in vals):
            bm = self.value(base)
            if bm is None or m[1]:
                return None
            return (m[0] | {('image', bm, elt, tuple(variants))}, m[1])
        return None

    def elem_of(self, lp, variants):
        found = set()

        def go(t):
            if isinstance(t, tuple):
                if t and t[0] == 'elem' and len(t) > 1 and t[1] == lp.id:
                    found.add(t)
                    return
                for x in t:
                    go(x)
        for c, n, x in variants:
            go(c)
            go(x)
        return found.pop() if len(found) == 1 else ('elem', lp.id, lp.desc.base)
