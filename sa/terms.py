"""Value numbers.

A value number ("term") is a plain nested tuple whose first element is an operator name.  Two program expressions get the
same term only if the analysis has shown that they denote the same value on the path being looked at; arithmetic is kept
in a polynomial normal form so that `a + 1 - b` and `(1 - b) + a` are one value number.  No solver is involved: equality
of terms is equality of tuples, ordering facts are intervals attached to a normal form.
"""
from fractions import Fraction
import functools


def C(v):
    return ('const', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)


def is_const(t):
    return t[0] == 'const'


def is_num_const(t):
    return t[0] == 'const' and t[1] in ('int', 'float') or t[0] == 'const' and t[1] == 'bool'


def _key(x):
    return repr(x)


@functools.lru_cache(maxsize=200000)
def key_of(x):
    return _key(x)


def to_poly(t):
    """term -> dict monomial -> Fraction; or None if t is a non numeric constant."""
    if t[0] == 'const':
        if t[1] in ('int', 'bool'):
            return {(): Fraction(int(t[2]))} if t[2] else {}
        if t[1] == 'float':
            if t[2] != t[2] or t[2] in (float('inf'), float('-inf')):
                return {(t,): Fraction(1)}
            return {(): Fraction(t[2])} if t[2] else {}
        return None
    if t[0] == 'poly':
        return {m: c for m, c in t[1]}
    return {(t,): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if c.denominator == 1:
                return C(int(c))
            return C(float(c)) if Fraction(float(c)) == c else ('poly', (((), c),))
        if len(m) == 1 and c == 1:
            return m[0]
    return ('poly', tuple(sorted(p.items(), key=lambda mc: key_of(mc[0]))))


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = list(m1 + m2)
            # cancel x * inv(x)
            changed = True
            while changed:
                changed = False
                for i, x in enumerate(m):
                    if x[0] == 'inv' and x[1] in m:
                        m.remove(x)
                        m.remove(x[1])
                        changed = True
                        break
            m = tuple(sorted(m, key=key_of))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def add(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return ('add', a, b)
    return from_poly(p_add(pa, pb))


def sub(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return ('sub', a, b)
    return from_poly(p_add(pa, pb, -1))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return ('mul', a, b)
    return from_poly(p_mul(pa, pb))


def neg(a):
    return sub(C(0), a)


def inv(b):
    pb = to_poly(b)
    if pb is not None and len(pb) == 1:
        (m, c), = pb.items()
        if m == ():
            return from_poly({(): 1 / c})
        # inverse of a monomial
        ms = []
        for x in m:
            ms.append(x[1] if x[0] == 'inv' else ('inv', x))
        return from_poly({tuple(sorted(ms, key=key_of)): 1 / c})
    return ('inv', b)


def div(a, b):
    if b == ZERO or (b[0] == 'const' and b[1] in ('int', 'float') and not b[2]):
        return ('div', a, b)
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return ('div', a, b)
    return from_poly(p_mul(pa, to_poly(inv(b))))


def norm_num(t):
    """canonical numeric constant (1.0 == 1 == True)"""
    p = to_poly(t)
    if p is None:
        return t
    return from_poly(p)


def contains(t, pred):
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    return any(contains(x, pred) for x in t if isinstance(x, tuple))


@functools.lru_cache(maxsize=200000)
def lossy(t):
    """does the term contain a value the analysis lost track of"""
    if not isinstance(t, tuple):
        return False
    if t and t[0] in ('phi', 'unk'):
        return True
    return any(lossy(x) for x in t if isinstance(x, tuple))


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if t and t[0] == 'poly':
        r = C(0)
        for mono, c in t[1]:
            x = from_poly({(): c})
            for f in mono:
                x = mul(x, subst(f, m))
            r = add(r, x)
        return r
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 6:
        return '...'
    s = lambda x: show(x, depth + 1)
    op = t[0]
    if not isinstance(op, str):
        return '(' + ', '.join(s(x) for x in t) + ')'
    if op == 'const':
        return repr(t[2])
    if op == 'sym':
        return t[1]
    if op == 'fld':
        n = t[2] if isinstance(t[2], str) else s(t[2])
        if n.startswith('_') and '__' in n[1:]:
            n = '__' + n.split('__', 1)[1]
        return s(t[1]) + '.' + n
    if op == 'poly':
        out = []
        for m, c in t[1]:
            ms = '*'.join(s(x) for x in m)
            cs = str(c.numerator) if c.denominator == 1 else str(float(c))
            if not ms:
                out.append(cs)
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append(cs + '*' + ms)
        return '(' + ' + '.join(out) + ')'
    if op == 'elem':
        return 'each(' + s(t[2]) + ')'
    if op == 'idx':
        return 'index'
    if op == 'item':
        return s(t[1]) + '[' + s(t[2]) + ']'
    if op == 'len':
        return 'len(' + s(t[1]) + ')'
    if op == 'phi':
        return '<%s varying over loop>' % (t[2] if isinstance(t[2], str) else s(t[2]))
    if op == 'res':
        return '<result#%s>' % t[1]
    if op == 'new':
        return '<new %s>' % t[1]
    if op == 'tuple':
        return '(' + ', '.join(s(x) for x in t[1]) + ')'
    if op == 'bound':
        return s(t[1]) + '.' + str(t[2]).split('.')[-1]
    if op == 'closure':
        return '<function %s>' % str(t[1]).split(':')[-1]
    return op + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'
