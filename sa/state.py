"""Abstract state of the path-sensitive effect analysis: environments, abstract heap, branch facts, effect trace."""
from fractions import Fraction
from . import terms as T

INF = float('inf')


class Eff:
    """one observable effect (or branch fact) on a path"""
    __slots__ = ('kind', 'recv', 'name', 'args', 'kw', 'res', 'line', 'fn', 'held', 'extra')

    def __init__(self, kind, recv=None, name=None, args=(), kw=(), res=None, line=0, fn=None, held=(), extra=None):
        self.kind, self.recv, self.name, self.args, self.kw = kind, recv, name, tuple(args), tuple(kw)
        self.res, self.line, self.fn, self.held, self.extra = res, line, fn, held, extra

    def kwarg(self, n):
        for k, v in self.kw:
            if k == n:
                return v
        return None

    def where(self):
        if self.fn is None:
            return 'line %s' % self.line
        return '%s:%s (%s)' % (self.fn.module.path, self.line, self.fn.id)

    def __repr__(self):
        s = T.show
        if self.kind == 'write':
            return 'write %s.%s = %s' % (s(self.recv), self.name, s(self.args[0]))
        if self.kind == 'call':
            a = [s(x) for x in self.args] + ['%s=%s' % (k, s(v)) for k, v in self.kw]
            return 'call %s.%s(%s) -> %s' % (s(self.recv) if self.recv else '', self.name, ', '.join(a), s(self.res) if self.res else '')
        if self.kind == 'mut':
            return 'mut %s.%s(%s)' % (s(self.recv), self.name, ', '.join(s(x) for x in self.args))
        if self.kind == 'assume':
            return 'assume %s is %s' % (s(self.args[0]), self.name)
        if self.kind == 'loop':
            return 'loop %s' % (self.extra,)
        return '%s %s %s %s' % (self.kind, s(self.recv) if self.recv else '', self.name or '', ' '.join(s(x) if isinstance(x, tuple) else str(x) for x in self.args))


class Desc:
    """what a loop runs over"""
    __slots__ = ('base', 'order', 'snapshot', 'kind')

    def __init__(self, base, order='fwd', snapshot=False, kind='elems'):
        self.base, self.order, self.snapshot, self.kind = base, order, snapshot, kind

    def __repr__(self):
        return '%s over %s%s' % (self.order, T.show(self.base), ' (snapshot)' if self.snapshot else '')


class Loop:
    __slots__ = ('id', 'desc', 'paths', 'phis', 'node', 'head')

    def __init__(self, lid, desc, paths, phis, node):
        self.id, self.desc, self.paths, self.phis, self.node = lid, desc, paths, phis, node

    def __repr__(self):
        return '#%s %s: %d body paths' % (self.id, self.desc, len(self.paths))


class BodyPath:
    __slots__ = ('trace', 'status', 'st', 'ends')

    def __init__(self, trace, status, st, ends):
        self.trace, self.status, self.st, self.ends = trace, status, st, ends


class St:
    __slots__ = ('envs', 'heap', 'facts', 'bounds', 'trace', 'held', 'lens', 'vers', 'muts', 'content', 'built', 'eqc', 'exc', 'dvals', 'dead', 'tries', 'types', 'cons', 'done')

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.facts = {}
        self.bounds = {}
        self.trace = []
        self.held = ()
        self.lens = {}
        self.vers = {}
        self.muts = {}
        self.content = {}
        self.built = {}
        self.eqc = {}
        self.exc = None
        self.dvals = {}
        self.dead = False
        self.tries = ()
        self.types = {}
        self.cons = ()
        self.done = frozenset()     # scopes of calls that are over

    def copy(self):
        s = St.__new__(St)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.bounds = dict(self.bounds)
        s.trace = list(self.trace)
        s.held = self.held
        s.lens = dict(self.lens)
        s.vers = dict(self.vers)
        s.muts = dict(self.muts)
        s.content = dict(self.content)
        s.built = dict(self.built)
        s.eqc = dict(self.eqc)
        s.exc = self.exc
        s.dvals = dict(self.dvals)
        s.dead = self.dead
        s.tries = self.tries
        s.types = dict(self.types)
        s.cons = self.cons
        s.done = self.done
        return s

    # ---- ordering facts over normal forms
    @staticmethod
    def form(d):
        """difference term -> (form key, scale, const) with d = scale*form + const; None if constant / not numeric"""
        p = T.to_poly(d)
        if p is None:
            return None
        c = p.pop((), Fraction(0))
        if not p:
            return ((), Fraction(1), c)
        ms = sorted(p, key=T.key_of)
        sc = p[ms[0]]
        return (tuple((m, p[m] / sc) for m in ms), sc, c)

    def interval(self, form, isint, depth=0):
        """(lo, lo_strict, hi, hi_strict) known for the form"""
        lo, ls, hi, hs = -INF, False, INF, False
        b = self.bounds.get(form)
        if b:
            lo, ls, hi, hs = b[:4]
        # structural bounds from the atoms
        slo, sls, shi, shs = Fraction(0), False, Fraction(0), False
        for m, c in form:
            a = self.atom_interval(m, isint, depth) if len(form) > 1 or not b else (-INF, False, INF, False)
            if c > 0:
                l, lst, h, hst = a
            else:
                l, lst, h, hst = a[2], a[3], a[0], a[1]
            slo = -INF if slo == -INF or l in (INF, -INF) else slo + c * l
            sls = sls or lst
            shi = INF if shi == INF or h in (INF, -INF) else shi + c * h
            shs = shs or hst
        if len(form) == 1:
            a = self.atom_interval(form[0][0], isint, depth)
            slo, sls, shi, shs = a
        if slo > lo or slo == lo and sls:
            lo, ls = slo, sls
        if shi < hi or shi == hi and shs:
            hi, hs = shi, shs
        return lo, ls, hi, hs

    def atom_interval(self, mono, isint, depth=0):
        lo, ls, hi, hs = -INF, False, INF, False
        if len(mono) == 1:
            a = mono[0]
            if a[0] in ('len', 'idx', 'abs'):
                lo = Fraction(0)
        b = self.bounds.get(((mono, Fraction(1)),))
        if b:
            if b[0] > lo or b[0] == lo and b[1]:
                lo, ls = b[0], b[1]
            if b[2] < hi:
                hi, hs = b[2], b[3]
        return lo, ls, hi, hs

    def cmp(self, op, d, isint):
        """truth of `d op 0` if known; op in lt le eq"""
        f = self.form(d)
        if f is None:
            return None
        form, sc, c = f
        if form == ():
            return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op]
        lo, ls, hi, hs = self.interval(form, isint)
        v = -c / sc           # d = sc*form + c ; d op 0  <=>  form op' v
        b = self.bounds.get(form)
        neq = b[4] if b else frozenset()
        if op == 'eq':
            if lo == hi == v and not ls and not hs:
                return True
            if v < lo or v > hi or (v == lo and ls) or (v == hi and hs) or v in neq:
                return False
            if isint and v.denominator != 1 and all(x.denominator == 1 for _, x in form):
                return False
            return None
        if sc > 0:
            # form < v / form <= v
            if op == 'lt':
                if hi < v or hi == v and hs:
                    return True
                if lo >= v:
                    return False
                if hi == v and v in neq:
                    return True
            else:
                if hi <= v:
                    return True
                if lo > v or lo == v and ls or lo == v and v in neq:
                    return False
        else:
            # form > v / form >= v
            if op == 'lt':
                if lo > v or lo == v and ls:
                    return True
                if hi <= v:
                    return False
                if lo == v and v in neq:
                    return True
            else:
                if lo >= v:
                    return True
                if hi < v or hi == v and hs or hi == v and v in neq:
                    return False
        return None

    def assume_cmp(self, op, d, val, isint):
        f = self.form(d)
        if f is None:
            return
        form, sc, c = f
        if form == ():
            return
        v = -c / sc
        lo, ls, hi, hs, neq = self.bounds.get(form, (-INF, False, INF, False, frozenset()))
        isint = isint and all(x.denominator == 1 for _, x in form)

        def up(x, strict):
            nonlocal hi, hs
            if isint:
                import math
                x2 = Fraction(math.ceil(x) - 1) if strict else Fraction(math.floor(x))
                x, strict = x2, False
            if x < hi or x == hi and strict:
                hi, hs = x, strict

        def dn(x, strict):
            nonlocal lo, ls
            if isint:
                import math
                x2 = Fraction(math.floor(x) + 1) if strict else Fraction(math.ceil(x))
                x, strict = x2, False
            if x > lo or x == lo and strict:
                lo, ls = x, strict
        if op == 'eq':
            if val:
                up(v, False)
                dn(v, False)
            else:
                neq = neq | {v}
        elif op == 'lt':
            if val:
                up(v, True) if sc > 0 else dn(v, True)
            else:
                dn(v, False) if sc > 0 else up(v, False)
        else:
            if val:
                up(v, False) if sc > 0 else dn(v, False)
            else:
                dn(v, True) if sc > 0 else up(v, True)
        # tighten against disequalities
        slo, _, shi, _ = self.interval(form, isint)
        if isint:
            for _ in range(4):
                l2 = max(lo, slo)
                if l2 in neq:
                    lo, ls = l2 + 1, False
                h2 = min(hi, shi)
                if h2 in neq:
                    hi, hs = h2 - 1, False
        if lo > hi or lo == hi and (ls or hs):
            self.dead = True
        if max(lo, slo) > min(hi, shi):
            self.dead = True
        self.bounds[form] = (lo, ls, hi, hs, neq)
