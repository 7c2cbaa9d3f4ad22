"""Comparison of an operation with a reference definition of it.

The client code of the operation and the reference definition are analysed one after the other as ONE program with the same
inputs and object state and common branch facts, and the observable halves of every joint path are compared: the value and
the effects (calls of unknown code, attribute stores, container changes), in order.  A difference is only reported when it
is definite: both sides are built from the same operations (or one applies further ones), nothing was lost on the way.
"""
import textwrap
from . import q
from . import rx
from . import terms as T
from .state import St

PLAIN = {'lit', 'fresh', 'const', 'sym', 'fld', 'poly', 'tuple', 'elem', 'item', 'len', 'new', 'glob', 'class', 'idx', 'not', 'call', 'exists', 'in', 'frozen', 'res', 'lt', 'le', 'eq', 'is', 'isnone', 'truthy', 'inv', 'ext', 'func', 'none', 'enum', 'isinst'}


class Canon:
    def __init__(self, eng, deep=True):
        self.eng, self.deep = eng, deep
        self.loops = {}
        self.news = {}
        self.own, self.made = {}, {}
        self.cache = {}

    def __call__(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        try:
            if t in self.cache:
                return self.cache[t]
        except TypeError:
            return t
        r = self.cache[t] = self.go(t)
        return r

    def go(self, t):
        op = t[0]
        if not isinstance(op, str):
            return tuple(self(x) for x in t)
        if op == 'res':
            d = self.eng.resdef.get(t)
            if d is None:
                return ('unk', t[1])
            return ('call', self(d[0]) if d[0] else None, d[1], tuple(self(x) for x in d[2]), tuple((k, self(v)) for k, v in d[3]))
        if op == 'elem':
            return ('elem', '*', self(t[2]))
        if op == 'idx':
            b = self.loops.get(t[1])
            return ('idx', b) if b is not None else t
        if op in ('copy', 'ver', 'frozen'):
            return self(t[1])
        if op == 'app' and t[1] in ('copy.deepcopy', 'copy.copy') and self.deep:
            return self(t[2])
        if op == 'app' and t[1] in ('re.match', 're.search', 're.fullmatch') and t[2][0] == 'const' and t[2][1] == 'str' and all(x[0] == 'const' for x in t[4:]):
            return ('app', t[1], T.C('pattern ' + rx.signature(t[1][3:], t[2][2], tuple(x[2] for x in t[4:]))), self(t[3]))
        if op == 'new':
            while self.deep and '<client' in t[1] and t in self.eng.copyof:
                t = self.eng.copyof[t]
            if t in self.own:
                return ('new', t[1].rsplit('#', 1)[0] if t[1].rsplit('#', 1)[-1].isdigit() else t[1], ('made', self.own[t]))
            if t[1].startswith('cls:'):
                return ('new', t[1].rsplit('#', 1)[0] if '<client' in t[1] and t[1].rsplit('#', 1)[-1].isdigit() else t[1], self.news.setdefault(t, len([x for x in self.news if x[1] == t[1]])))
            return ('unk', t[1]) if t[1] in ('list', 'set', 'dict') else ('new', t[1])
        if op == 'while':
            return ('while',)
        if op == 'closure':
            return ('unk', 'fn')
        if op == 'poly':
            r = T.C(0)
            for mono, c in t[1]:
                x = T.from_poly({(): c})
                for f in mono:
                    x = T.mul(x, self(f))
                r = T.add(r, x)
            return r
        return tuple(self(x) if isinstance(x, tuple) else x for x in t)


def ops(t, out=None):
    out = set() if out is None else out
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t and isinstance(t[0], str):
            if t[0] == 'app':
                out.add(t[1] if isinstance(t[1], str) else str(t[1]))
            elif t[0] == 'call':
                if not free(t[1]):
                    out.add(('call', t[2]))
            elif t[0] not in PLAIN:
                out.add(t[0])
            if t[0] == 'const':
                return out
        for x in t:
            ops(x, out)
    return out


def free(t):
    """unknown code reached through an input: a free function, equal only to itself"""
    while t and t[0] in ('fld', 'item', 'elem', 'call', 'bound', 'bmeth'):
        t = t[2] if t[0] == 'elem' else t[1]
    return bool(t) and t[0] == 'sym'


class Half:
    def __init__(self):
        self.conds, self.effects, self.value, self.lossy = [], [], None, False


def effect(e, c):
    if e.kind == 'call':
        return ('call', c(e.recv) if e.recv else None, e.name, tuple(c(a) for a in e.args), tuple((k, c(v)) for k, v in e.kw))
    if e.kind == 'write':
        return ('write', c(e.recv), e.name if isinstance(e.name, str) else c(e.name), c(e.args[0]))
    if e.kind == 'setattr':
        return ('write', c(e.recv), c(e.args[0]), c(e.args[1]))
    if e.kind == 'mut':
        return ('mut', c(e.recv), e.name, tuple(c(a) for a in e.args))
    return None


def halves(p, eng, observe):
    """the two halves of a joint path"""
    out = [Half(), Half()]
    cur = None
    c = Canon(eng)
    tr = p.trace
    i, skip, drop = 0, {}, ()
    while i < len(tr):
        e = tr[i]
        i += 1
        if e.kind == 'snap':
            if e.name in (1, 2):
                out[e.name - 1].value = c(e.args[0]) if e.args else T.NONE
            cur = out[e.name] if e.name < 2 else None
            c.news = {}
            c.made = {}
            continue
        if cur is None and not (e.kind == 'new' and e.res is not None):
            continue
        if e.kind == 'new' and e.res is not None and '<client' in e.res[1]:
            c.own[e.res] = c.made[e.res[1]] = c.made.get(e.res[1], -1) + 1     # the client's own objects are told apart by the order in which it makes them
            if cur is None:
                c.own[e.res] = -1 - c.own[e.res]
        if cur is None:
            continue
        if i - 1 in skip:
            drop = skip.pop(i - 1)
        if e.kind == 'assume':
            x = (c(e.args[0]), e.name)
            if x not in drop:
                cur.conds.append(x)
            continue
        if e.kind == 'loop':
            drop = ()
            l = e.extra
            c.loops[l.id] = c(l.desc.base)
            base = c.loops[l.id]
            exits, summ = [], []
            for b in l.paths:
                cs = frozenset((c(x.args[0]), x.name) for x in b.trace if x.kind == 'assume')
                ef = tuple(x for x in (effect(y, c) for y in b.trace if observe(y)) if x)
                if b.status[0] in ('break', 'ret', 'raise'):
                    exits.append(cs)
                if any(y.kind == 'loop' for y in b.trace):
                    cur.lossy = True
                summ.append((cs, ef, b.status[0]))
                if any(T.lossy(v) for v in b.ends.values()) and any(v != l.phis[k][0] for k, v in b.ends.items() if k in l.phis):
                    pass
            if any(s[1] for s in summ):
                cur.effects.append(('loop', base, l.desc.order, frozenset(summ)))
            taken = None
            if i < len(tr) and tr[i].kind == 'iter':
                i += 1
                got = set()
                j = i
                while j < len(tr) and tr[j].kind not in ('snap', 'loop'):
                    if tr[j].kind == 'assume' and T.contains(c(tr[j].args[0]), lambda t: t[0] in ('elem', 'idx')):
                        got.add((c(tr[j].args[0]), tr[j].name))
                    j += 1
                for cs in exits:
                    if {x for x in cs if T.contains(x[0], lambda t: t[0] in ('elem', 'idx'))} <= got:
                        taken = cs
                # the effects of the generic iteration are replayed: keep them, drop its facts
                skip[i] = taken or ()
            if base[0] == 'lit' and base[2] == ():
                if taken is not None:
                    cur.conds.append((('never',), True))
                continue
            for cs in exits:
                if taken is not None and cs != taken:
                    continue
                cur.conds.append((('exists', base, cs), cs == taken))
            continue
        if observe(e):
            x = effect(e, c)
            if x:
                cur.effects.append(x)
    return out


def numeric(a):
    return a[0] in ('lt', 'le', 'eq') and len(a) == 2


def feasible(rows):
    """do the linear facts on a path leave any values? (elimination of variables one by one, over the rationals)"""
    cs = []
    for op, p, v in rows:
        if p is None:
            continue
        n = {m: -c for m, c in p.items()}
        if op == 'eq' and v:
            cs += [(p, False), (n, False)]
        elif op == 'le':
            cs.append((p, False) if v else (n, True))
        elif op == 'lt':
            cs.append((p, True) if v else (n, False))
    cs = {(tuple(sorted(p.items(), key=repr)), st) for p, st in cs}
    for _ in range(12):
        if len(cs) > 60:
            return True
        ds = [(dict(p), st) for p, st in cs]
        for p, st in ds:
            if all(m == () for m in p) and (p.get((), 0) > 0 or st and p.get((), 0) == 0):
                return False
        var = {m for p, _ in ds for m in p if m != ()}
        if not var:
            return True
        x = min(var, key=lambda m: (sum(m in p for p, _ in ds), repr(m)))
        pos, neg = [(p, st) for p, st in ds if p.get(x, 0) > 0], [(p, st) for p, st in ds if p.get(x, 0) < 0]
        new = [(p, st) for p, st in ds if not p.get(x, 0)]
        for p, s1 in pos:
            for n, s2 in neg:
                k, l = -n[x], p[x]
                r = {m: p.get(m, 0) * k + n.get(m, 0) * l for m in set(p) | set(n) if m != x}
                new.append((r, s1 or s2))
        cs = set()
        for p, st in new:
            p = {m: c for m, c in p.items() if c}
            lead = abs(p[min(p, key=repr)]) if p else 1
            cs.add((tuple(sorted(((m, c / lead) for m, c in p.items()), key=repr)), st))
    return True


def contradictory(conds):
    d = {}
    st = St()
    for a, v in conds:
        if a in d and d[a] != v:
            return True
        d[a] = v
        if a == ('never',):
            return True
        if numeric(a):
            k = st.cmp(a[0], a[1], False)
            if k is not None and k != v:
                return True
            st.assume_cmp(a[0], a[1], v, False)
            if st.dead:
                return True
    if not feasible([(a[0], T.to_poly(a[1]), v) for a, v in d.items() if numeric(a)]):
        return True
    for a, v in d.items():
        if a[0] == 'isnone' and v:
            x = a[1]
            for b, w in d.items():
                if numeric(b) and b[0] != 'eq' and any(x in m for m in (T.to_poly(b[1]) or ())):
                    return True     # absent values are not ordered
                if w and b[0] in ('truthy', 'callable', 'hasattr', 'isinstance', 'exists') and b[1] == x:
                    return True
        if a[0] == 'exists' and v:
            for b, w in d.items():
                if b == ('le', ('len', a[1])) and w or b == ('truthy', a[1]) and not w:
                    return True
                # the same question with its facts refined
                if b[0] == 'exists' and not w and b[1] == a[1] and b[2] <= a[2]:
                    return True
    return False


def same(a, b):
    """True / False / None for two canonical values"""
    if a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    if T.lossy(a) or T.lossy(b):
        d = T.sub(a, b) if a[0] != 'call' and b[0] != 'call' else None
        if d is not None and d[0] == 'const' and d[1] in ('int', 'float') and d[2]:
            return False
        return None
    if a[0] == b[0] == 'tuple' and len(a[1]) == len(b[1]):
        rs = [same(x, y) for x, y in zip(a[1], b[1])]
        return False if False in rs else (None if None in rs else True)
    if a[0] == b[0] == 'const' and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)):
        return a[2] == b[2]
    if 'fresh' in (a[0], b[0]):
        return False
    oa, ob = ops(a), ops(b)
    if oa <= ob or ob <= oa:
        return False
    return None


def facts(conds):
    """values known to be equal on the path"""
    m = {}
    for a, v in conds:
        if v and a[0] == 'isnone':
            m[a[1]] = T.NONE
        elif v and a[0] in ('eq', 'is') and len(a) == 3:
            x, y = sorted((a[1], a[2]), key=T.key_of)
            if x[0] == 'const':
                x, y = y, x
            if x not in m and x[0] != 'const':
                m[x] = y
        elif v and a[0] == 'eq' and len(a) == 2:
            # a linear equation between inputs
            p = T.to_poly(a[1]) or {}
            for mono in sorted(p, key=T.key_of):
                if len(mono) == 1 and mono[0][0] == 'sym' and mono[0] not in m and not any(T.contains(x, lambda t: t == mono[0]) for k in p if k != mono for x in k):
                    m[mono[0]] = T.sub(mono[0], T.div(a[1], T.from_poly({(): p[mono]})))
                    break
    return m


def fixed(x):
    """a question about library functions of constants: it has one answer, which is not known here"""
    return T.contains(x, lambda t: t[0] == 'app') and not T.contains(x, lambda t: t[0] not in ('app', 'const', 'item', 'fld', 'tuple', 'eq', 'lt', 'le', 'is', 'isnone', 'truthy', 'in', 'poly', 'inv', 'len') or t[:2] == ('app', 'locale.localeconv'))


def sub_eff(x, m):
    if x[0] in ('call', 'mut', 'write'):
        return T.subst(x, m)
    return x


def same_effects(xs, ys):
    if xs == ys:
        return True
    if len(xs) != len(ys):
        nx, ny = [n(x) for x in xs], [n(y) for y in ys]
        return None if any(k in ('loop',) for k, *_ in nx + ny) and nx != ny and any(T.lossy(x) for x in xs) else False
    worst = True
    for x, y in zip(xs, ys):
        if x == y:
            continue
        if n(x) != n(y):
            return False
        if x[0] == 'loop':
            if x[1] != y[1]:
                r = same(x[1], y[1])
            elif {s[1] for s in x[3]} == {s[1] for s in y[3]}:
                r = None if x[2] == y[2] else False
            else:
                r = None if any(T.lossy(e) for s in x[3] | y[3] for e in s[1]) else False
        else:
            r = True
            for a, b in zip(x[1:], y[1:]):
                if a == b:
                    continue
                if isinstance(a, tuple) and isinstance(b, tuple) and (not a or not isinstance(a[0], str)):
                    if len(a) != len(b):
                        return False
                    for u, w in zip(a, b):
                        if isinstance(u, tuple) and len(u) == 2 and isinstance(u[0], str) and isinstance(u[1], tuple) and u[0] == w[0]:
                            k = same(u[1], w[1])
                        else:
                            k = same(u, w)
                        if k is False:
                            return False
                        if k is None:
                            r = None
                else:
                    k = same(a, b)
                    if k is False:
                        return False
                    if k is None:
                        r = None
        if r is False:
            return False
        if r is None:
            worst = None
    return worst


def n(x):
    if x[0] == 'call':
        return ('call', x[2], len(x[3]))
    if x[0] == 'mut':
        return ('mut', x[2])
    return (x[0],)


def client(params, impl, ref):
    ind = lambda s: textwrap.indent(textwrap.dedent(s).strip('\n'), '    ')
    return 'def client(%s):\n    r = None\n    __snap__(0)\n%s\n    __snap__(1, r)\n    r = None\n%s\n    __snap__(2, r)\n' % (params, ind(impl), ind(ref))


LOUD = ('call', 'write', 'setattr', 'mut')


def default_observe(ignore=()):
    def ob(e):
        if e.kind not in LOUD:
            return False
        if e.kind == 'call' and e.name in ignore:
            return False
        if e.kind in ('write', 'mut', 'setattr') and T.contains(e.recv, lambda t: t[0] in ('new', 'copy')):
            return False        # private to the objects made
        return True
    return ob


def agree(ctx, what, mod, params, impl, ref, cls=None, observe=None, ignore=(), w=None, opts=None, require=1, effects=True, post=None, argtypes=None, edit=None, total=None):
    """obligations: on every joint path the operation and its reference definition agree"""
    return ctx.case(what, lambda: agree_(ctx, what, mod, params, impl, ref, cls, observe, ignore, w, opts, require, effects, post, argtypes, edit, total)) or []


def agree_(ctx, what, mod, params, impl, ref, cls, observe, ignore, w, opts, require, effects, post, argtypes, edit, total):
    src = client(params, impl, ref)
    o = dict(opts or {})
    o['pure'] = True
    names = {x.split('=')[0].strip() for x in params.split(',')}
    ps = ctx.probe(mod, cls, src, opts=o, argtypes={k: v for k, v in (argtypes or {}).items() if k in names} or None)
    obs = observe or default_observe(ignore)
    pairs, vocab, atoms = [], set(), set()
    for p in ps:
        if not any(e.kind == 'snap' and e.name == 2 for e in p.trace):
            if p.status == 'raise' and any(e.kind == 'snap' and e.name == 0 for e in p.trace) and not any(e.kind == 'snap' and e.name == 1 for e in p.trace):
                raised(ctx, what, p, w, total)
            continue
        a, b = halves(p, p.eng, obs)
        if contradictory(a.conds + b.conds):
            continue
        if edit is not None:
            a.effects, b.effects = [edit(x) for x in a.effects], [edit(x) for x in b.effects]
        pairs.append((p, a, b))
        for x, _ in b.conds:
            vocab |= ops(x)
            atoms.add(x[0])
        vocab |= ops(b.value)
        for x in b.effects:
            vocab |= ops(x)
    # a question only the operation asks, but with operations and of a kind the reference uses
    known_atoms = atoms | {'eq', 'lt', 'le', 'is', 'isnone', 'truthy', 'exists', 'in', 'isinst', 'hasattr'}
    n_ok = 0
    for p, a, b in pairs:
        m = facts(a.conds + b.conds)
        if m:
            for h in (a, b):
                h.value, h.effects = T.subst(h.value, m), [sub_eff(x, m) for x in h.effects]
        rv = same(a.value, b.value)
        if post is not None and rv is not True:
            rv = post(a.value, b.value, rv)
        re_ = same_effects(a.effects, b.effects) if effects else True
        r = False if False in (rv, re_) else (None if None in (rv, re_) else True)
        if r is False:
            if a.lossy or b.lossy or a.conds and getattr(post, 'closed', False):
                r = None
            for x, _ in a.conds:
                if T.lossy(x) or x[0] not in known_atoms or not (ops(x) <= vocab or vocab <= ops(x)) or fixed(x):
                    r = None
        n_ok += r is True
        msg = ''
        if r is not True:
            if rv is not True:
                msg = 'gives %s where %s is expected' % (T.show(a.value), T.show(b.value))
            else:
                msg = 'does %s where %s is expected' % ('; '.join(map(show, a.effects)) or 'nothing', '; '.join(map(show, b.effects)) or 'nothing')
            if a.conds:
                msg += ' (when %s)' % ', '.join('%s%s' % ('' if v else 'not ', T.show(x) if x[0] != 'exists' else 'some ' + T.show(x[1])) for x, v in a.conds[-6:])
        ctx.check(r, what, msg[:600], w)
    if len(pairs) < require:
        ctx.unk(what, 'no joint path')
    return pairs


def show(x):
    if x[0] == 'call':
        return '%s.%s(%s)' % (T.show(x[1]) if x[1] else '', x[2], ', '.join(T.show(a) for a in x[3]))
    if x[0] == 'write':
        return '%s.%s = %s' % (T.show(x[1]), x[2] if isinstance(x[2], str) else T.show(x[2]), T.show(x[3]))
    if x[0] == 'mut':
        return '%s.%s(%s)' % (T.show(x[1]), x[2], ', '.join(T.show(a) for a in x[3]))
    return 'a loop over %s' % T.show(x[1])


def raised(ctx, what, p, w, total=None):
    """the operation does not complete on a path: explicit raise or failed assertion"""
    last = p.trace[-1] if p.trace else None
    up = [e for e in p.trace if e.kind == 'raise']
    if up and last.kind != 'raise' and p.value and p.value[0] == 'exc' and up[-1].name == p.value[1]:
        last = up[-1]       # on its way through a context or finally clause
    own = last is not None and last.kind == 'raise' and last.fn and last.fn.name == 'client'
    sure = last is not None and last.kind == 'raise' and (last.extra == 'certain' or last.name == 'Blocked')
    if own and last.name not in ('IndexError', 'KeyError') and not sure:
        return      # the client's own assertion: an unspecified case
    conds = [e.args[0] for e in p.trace if e.kind == 'assume']
    if own and sure and any(e.args[0][0] == 'isnone' and e.name for e in p.trace if e.kind == 'assume'):
        return      # the client with an absent argument
    if total is None:
        i = [k for k, e in enumerate(p.trace) if e.kind == 'snap' and e.name == 0]
        total = bool(i) and not any(e.kind == 'assume' for e in p.trace[i[0]:])      # fails whatever the arguments
    if (total or sure) and last is not None and last.kind == 'raise' and not any(T.lossy(x) for x in conds) and not any(e.kind == 'loop' for e in p.trace):
        ctx.check(False, what, 'never returns: waits for what nothing is left to do' if last.name == 'Blocked' else 'raises %s instead of giving a result' % (T.show(p.value) if p.value else 'an exception'), last)
        return
    ctx.unk(what, 'does not complete on a path: %s' % (T.show(p.value) if p.value else ''), w)
