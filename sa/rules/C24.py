"""Geometry: every operation against its definition, over symbolic coordinates in a polynomial normal form."""
from ..agree import agree
from ..program import Broken

OPTS = {'inline_modules': ('Geometry',)}


def where(ctx, cls, name, kind=None):
    try:
        if cls is None:
            return ctx.func('Geometry', name)
        return ctx.method('Geometry', cls, name, kind)[0]
    except (Broken, AttributeError, KeyError):
        return None


class G:
    """one numeric kind: Int or Float"""

    def __init__(self, ctx, k):
        self.ctx, self.k, self.ty = ctx, k, {'Int': 'int', 'Float': 'float'}[k]

    def text(self, s):
        k = self.k
        for n in ('Point', 'Size', 'Rect'):
            s = s.replace('K' + n, k + n)
        return s

    def __call__(self, cls, name, params, impl, ref, pre='', types=None):
        full = cls and self.k + cls
        what = ('%s.%s' % (full, name) if full else name)
        tys = {p.strip(): self.ty for p in params.split(',') if p.strip()}
        tys.update(types or {})
        pre = self.text(pre)
        impl, ref = self.text(impl), self.text(ref)
        h = self.text(HELP)
        w = where(self.ctx, full, name.split(' ')[0])
        agree(self.ctx, what, 'Geometry', params or 'z', h + pre + impl, pre + ref, w=w, opts=dict(OPTS), argtypes=tys, effects=False, total=True)


HELP = '''
def PT(p):
    return (isinstance(p, KPoint), p.y, p.x)
def SZ(p):
    return (isinstance(p, KSize), p.height, p.width)
def RC(p):
    return (isinstance(p, KRect), p.top, p.left, p.height, p.width)
'''

POS = 'assert c >= 0\nassert d >= 0\n'


def both(f):
    def g(ctx):
        for k in ('Int', 'Float'):
            f(G(ctx, k))
    g.__doc__, g.__name__ = f.__doc__, f.__name__
    return g


@both
def points(g):
    """points keep (y, x) order; negation, sum, difference and length act per coordinate"""
    g('Point', '__init__', 'a, b', 'r = PT(KPoint(y=a, x=b)), PT(KPoint(a, b)), PT(KPoint(x=b)), PT(KPoint())', 'r = (True, a, b), (True, a, b), (True, 0, b), (True, 0, 0)')
    g('Point', 'make', 'a, b', 'r = PT(KPoint.make((a, b))), PT(KPoint.make(KPoint(a, b)))', 'r = (True, a, b), (True, a, b)')
    g('Point', '__getitem__', 'a, b', 'p = KPoint(a, b)\nr = p[0], p[1], p[-1], p[-2]', 'r = a, b, b, a')
    g('Point', '__iter__', 'a, b', 'p = KPoint(a, b)\ny, x = p\nr = tuple(p), y, x', 'r = (a, b), a, b')
    g('Point', '__neg__', 'a, b', 'p = KPoint(a, b)\nr = PT(-p), PT(p)', 'r = (True, -a, -b), (True, a, b)')
    g('Point', '__abs__', 'a, b', 'r = abs(KPoint(a, b))', 'r = math.sqrt(a * a + b * b)')
    for op, n in (('+', '__add__'), ('-', '__sub__')):
        g('Point', n, 'a, b, c, d', 'p = KPoint(a, b)\nq = KPoint(c, d)\nr = PT(p %s q), PT(p), PT(q)' % op, 'r = (True, a %s c, b %s d), (True, a, b), (True, c, d)' % (op, op))
        g('Point', n + ' size', 'a, b, c, d', 'r = PT(KPoint(a, b) %s KSize(c, d))' % op, 'r = True, a %s c, b %s d' % (op, op))
    g('Point', '__add__ rect', 'a, b, c, d, e, f', 'r = RC(KPoint(e, f) + KRect((a, b), (c, d)))', 'r = True, a + e, b + f, c, d', pre=POS)
    if g.k == 'Float':
        g('Point', '__sub__ rect', 'a, b, c, d, e, f', 'r = RC(KPoint(e, f) - KRect((a, b), (c, d)))', 'r = True, e - a - c, f - b - d, c, d', pre=POS)
        g('Point', '__mul__', 'a, b, c', 'r = PT(KPoint(a, b) * c), PT(c * KPoint(a, b))', 'r = (True, a * c, b * c), (True, a * c, b * c)')
        g('Point', '__truediv__', 'a, b, c', 'r = PT(KPoint(a, b) / c)', 'r = True, a / c, b / c')
        g('Point', 'rotate', 'a, b, c, d, e', 'r = PT(KPoint(a, b).rotate(c)), PT(KPoint(a, b).rotate(c, KPoint(d, e)))',
          'u = math.cos(c)\nv = math.sin(c)\nr = (True, v * b + u * a, u * b - v * a), (True, d + v * (b - e) + u * (a - d), e + u * (b - e) - v * (a - d))')
    else:
        g('Point', 'to_float_point', 'a, b', 'p = IntPoint(a, b).to_float_point()\nr = isinstance(p, FloatPoint), p.y, p.x', 'r = True, a, b')
        g('Point', '__init__ fraction', 'a, b', 'r = PT(IntPoint(a, b))', 'r = True, int(a), int(b)', types={'a': 'float', 'b': 'float'})


@both
def sizes(g):
    """sizes keep (height, width) order; negation, sum, difference, scaling and ratio act per extent"""
    g('Size', '__init__', 'a, b', 'r = SZ(KSize(a, b)), SZ(KSize(height=a, width=b)), SZ(KSize(h=a, w=b)), SZ(KSize(height=a, w=b)), SZ(KSize(width=b)), SZ(KSize())',
      'r = (True, a, b), (True, a, b), (True, a, b), (True, a, b), (True, 0, b), (True, 0, 0)')
    g('Size', 'make', 'a, b', 'r = SZ(KSize.make((a, b))), SZ(KSize.make(KSize(a, b)))', 'r = (True, a, b), (True, a, b)')
    g('Size', '__getitem__', 'a, b', 'p = KSize(a, b)\nr = p[0], p[1], p[-1], p[-2]', 'r = a, b, b, a')
    g('Size', '__iter__', 'a, b', 'p = KSize(a, b)\ny, x = p\nr = tuple(p), y, x', 'r = (a, b), a, b')
    g('Size', '__neg__', 'a, b', 'p = KSize(a, b)\nr = SZ(-p), SZ(p)', 'r = (True, -a, -b), (True, a, b)')
    g('Size', '__abs__', 'a, b', 'r = abs(KSize(a, b))', 'r = math.sqrt(a * a + b * b)')
    for op, n in (('+', '__add__'), ('-', '__sub__')):
        g('Size', n, 'a, b, c, d', 'p = KSize(a, b)\nr = SZ(p %s KSize(c, d)), SZ(p %s (c, d)), SZ(p)' % (op, op), 'r = (True, a %s c, b %s d), (True, a %s c, b %s d), (True, a, b)' % (op, op, op, op))
    g('Size', 'aspect_ratio', 'a, b', 'r = KSize(a, b).aspect_ratio', 'r = b / a if a != 0 else 1.0')
    if g.k == 'Int':
        g('Size', '__mul__', 'a, b, c', 'r = SZ(KSize(a, b) * c), SZ(c * KSize(a, b))', 'r = (True, a * c, b * c), (True, a * c, b * c)')
        g('Size', '__mul__ fraction', 'a, b, c', 'r = SZ(KSize(a, b) * c), SZ(c * KSize(a, b))', 'r = (True, int(a * c), int(b * c)), (True, int(a * c), int(b * c))', types={'c': 'float'})
        for k in (1, 2, 3, 10):
            g('Size', '__floordiv__', 'a, b', 'r = SZ(KSize(a, b) // %d)' % k, 'r = True, a // %d, b // %d' % (k, k), pre='assert a >= 0\nassert b >= 0\n')
        g('Size', 'to_float_size', 'a, b', 'p = IntSize(a, b).to_float_size()\nr = isinstance(p, FloatSize), p.height, p.width', 'r = True, a, b')
        g('Size', '__init__ fraction', 'a, b', 'r = SZ(IntSize(a, b)), SZ(IntSize(h=a, w=b))', 'r = (True, int(a), int(b)), (True, int(a), int(b))', types={'a': 'float', 'b': 'float'})
    else:
        g('Size', '__mul__', 'a, b, c', 'r = SZ(KSize(a, b) * c), SZ(c * KSize(a, b))', 'r = (True, a * c, b * c), (True, a * c, b * c)')
        g('Size', '__truediv__', 'a, b, c', 'r = SZ(KSize(a, b) / c)', 'r = True, a / c, b / c')
        g('Size', 'rotate', 'a, b, c', 'r = SZ(KSize(a, b).rotate(c))', 'u = math.cos(c)\nv = math.sin(c)\nr = True, v * b + u * a, u * b - v * a')


@both
def rects(g):
    """a rectangle is its origin and size: the ways to make one, its edges, corners, center, ratio and order"""
    R = 'p = KRect((a, b), (c, d))\n'
    P4 = 'a, b, c, d'
    g('Rect', '__init__', P4, R + 'r = RC(p), RC(KRect(KPoint(a, b), KSize(c, d))), PT(p.origin), SZ(p.size), p.width, p.height', 'r = (True, a, b, c, d), (True, a, b, c, d), (True, a, b), (True, c, d), d, c')
    g('Rect', 'make', P4, R + 'r = RC(KRect.make(((a, b), (c, d)))), RC(KRect.make(p)), RC(KRect.make((KPoint(a, b), KSize(c, d))))', 'r = (True, a, b, c, d), (True, a, b, c, d), (True, a, b, c, d)')
    g('Rect', 'from_tlbr', P4, 'r = RC(KRect.from_tlbr(a, b, c, d)), RC(KRect.from_tlbr(top=a, left=b, bottom=c, right=d))', 'r = (True, a, b, c - a, d - b), (True, a, b, c - a, d - b)')
    g('Rect', 'from_tlhw', P4, 'r = RC(KRect.from_tlhw(a, b, c, d)), RC(KRect.from_tlhw(top=a, left=b, height=c, width=d))', 'r = (True, a, b, c, d), (True, a, b, c, d)')
    half = '//' if g.k == 'Int' else '/'
    g('Rect', 'from_center_and_size', P4, 'r = RC(KRect.from_center_and_size((a, b), (c, d))), RC(KRect.from_center_and_size(KPoint(a, b), KSize(c, d)))',
      'r = (True, a - c %s 2, b - d %s 2, c, d), (True, a - c %s 2, b - d %s 2, c, d)' % ((half,) * 4), pre=POS)
    g('Rect', 'edges', P4, R + 'r = p.top, p.left, p.bottom, p.right', 'r = a, b, a + c, b + d')
    g('Rect', 'corners', P4, R + 'r = PT(p.top_left), PT(p.top_right), PT(p.bottom_left), PT(p.bottom_right)', 'r = (True, a, b), (True, a, b + d), (True, a + c, b), (True, a + c, b + d)')
    g('Rect', 'center', P4, R + 'r = PT(p.center)', 'r = True, (a + a + c) %s 2, (b + b + d) %s 2' % (half, half))
    g('Rect', 'aspect_ratio', P4, R + 'r = p.aspect_ratio', 'r = d / c if c != 0 else 1.0')
    g('Rect', '__getitem__', P4, R + 'r = p[0], p[1], p[-1]', 'r = (a, b), (c, d), (c, d)')
    g('Rect', '__iter__', P4, R + 'o, s = p\nr = tuple(p), o, s', 'r = ((a, b), (c, d)), (a, b), (c, d)')
    if g.k == 'Int':
        g('Rect', 'slice', P4, R + 'r = p.slice', 'r = slice(a, a + c), slice(b, b + d)')
        g('Rect', 'to_float_rect', P4, R + 'q = p.to_float_rect()\nr = isinstance(q, FloatRect), q.top, q.left, q.height, q.width', 'r = True, a, b, c, d')
    else:
        g('Rect', 'unit_rect', '', 'r = RC(KRect.unit_rect())', 'r = True, 0, 0, 1, 1')


@both
def moves(g):
    """translation, inset, union and intersection move exactly the edges they name, and leave the operands alone"""
    R = 'p = KRect((a, b), (c, d))\n'
    same = '(True, a, b, c, d)'
    g('Rect', 'translated', 'a, b, c, d, e, f', R + 'r = RC(p.translated((e, f))), RC(p.translated(KPoint(e, f))), RC(p.translated(KSize(e, f))), RC(p)',
      'r = (True, a + e, b + f, c, d), (True, a + e, b + f, c, d), (True, a + e, b + f, c, d), ' + same)
    g('Rect', '__add__', 'a, b, c, d, e, f', R + 'r = RC(p + KPoint(e, f)), RC(p)', 'r = (True, a + e, b + f, c, d), ' + same, pre=POS)
    g('Rect', '__sub__', 'a, b, c, d, e, f', R + 'r = RC(p - KPoint(e, f)), RC(p)', 'r = (True, a - e, b - f, c, d), ' + same, pre=POS)
    g('Rect', 'inset', 'a, b, c, d, e, f', R + 'r = RC(p.inset(e)), RC(p.inset(e, f)), RC(p.inset(dx=e, dy=f)), RC(p.inset(e, 0)), RC(p.inset(0, f)), RC(p)',
      'r = (True, a + e, b + e, c - 2 * e, d - 2 * e), (True, a + f, b + e, c - 2 * f, d - 2 * e), (True, a + f, b + e, c - 2 * f, d - 2 * e), (True, a, b + e, c, d - 2 * e), (True, a + f, b, c - 2 * f, d), ' + same)
    Q = R + 'q = KRect((e, f), (g, h))\n'
    P8 = 'a, b, c, d, e, f, g, h'
    g('Rect', 'intersect', P8, Q + 's = p.intersect(q)\nr = isinstance(s, KRect), s.top, s.left, s.bottom, s.right, RC(p), RC(q)',
      'r = True, max(a, e), max(b, f), min(a + c, e + g), min(b + d, f + h), (True, a, b, c, d), (True, e, f, g, h)')
    g('Rect', 'union', P8, Q + 's = p.union(q)\nr = isinstance(s, KRect), s.top, s.left, s.bottom, s.right, RC(p), RC(q)',
      'r = True, min(a, e), min(b, f), max(a + c, e + g), max(b + d, f + h), (True, a, b, c, d), (True, e, f, g, h)')


@both
def contains(g):
    """a rectangle contains its top and left edges but not its bottom and right ones; two rectangles intersect exactly if their intersection is not negative"""
    R = 'p = KRect((a, b), (c, d))\n'
    g('Rect', 'contains_point', 'a, b, c, d, e, f', R + 'r = True if p.contains_point((e, f)) else False', 'r = True if a <= e and e < a + c and b <= f and f < b + d else False')
    g('Rect', 'contains_point', 'a, b, c, d, e, f', R + 'r = True if p.contains_point(KPoint(e, f)) else False', 'r = True if a <= e and e < a + c and b <= f and f < b + d else False')
    g('Rect', 'intersects_rect', 'a, b, c, d, e, f, g, h', R + 'r = True if p.intersects_rect(KRect((e, f), (g, h))) else False',
      'r = True if a <= e + g and e <= a + c and b <= f + h and f <= b + d else False', pre='assert c >= 0\nassert d >= 0\nassert g >= 0\nassert h >= 0\n')


@both
def equality(g):
    """equality is component-wise, also with tuples, absent is never equal, and inequality is the negation"""
    for n in ('Point', 'Size'):
        for other in ('K%s(c, d)' % n, '(c, d)'):
            for op, name, yes, no in (('==', '__eq__', 'True', 'False'), ('!=', '__ne__', 'False', 'True')):
                g(n, name, 'a, b, c, d', 'r = True if K%s(a, b) %s %s else False' % (n, op, other), 'r = %s if a == c and b == d else %s' % (yes, no))
        g(n, '__eq__ None', 'a, b', 'r = K%s(a, b) == None, K%s(a, b) != None' % (n, n), 'r = False, True')
    for other in ('KRect((e, f), (g, h))', '((e, f), (g, h))'):
        for op, name, yes, no in (('==', '__eq__', 'True', 'False'), ('!=', '__ne__', 'False', 'True')):
            g('Rect', name, 'a, b, c, d, e, f, g, h', 'r = True if KRect((a, b), (c, d)) %s %s else False' % (op, other), 'r = %s if a == e and b == f and c == g and d == h else %s' % (yes, no))
    g('Rect', '__eq__ None', 'a, b, c, d', 'r = KRect((a, b), (c, d)) == None, KRect((a, b), (c, d)) != None', 'r = False, True')


def maps(ctx):
    """mapping between rectangles keeps relative position and size"""
    g = G(ctx, 'Float')
    F = 'f = FloatRect((c, d), (e, i))\nt = FloatRect((j, k), (l, m))\n'
    P = 'a, b, c, d, e, i, j, k, l, m'
    nz = 'assert e != 0\nassert i != 0\n'
    g(None, 'map_point', P, F + 'r = PT(map_point(FloatPoint(a, b), f, t))', 'r = True, j + (a - c) / e * l, k + (b - d) / i * m', pre=nz)
    g(None, 'map_size', P, F + 'r = SZ(map_size(FloatSize(a, b), f, t))', 'r = True, a / e * l, b / i * m', pre=nz)
    g(None, 'map_rect', P + ', n, o', F + 'r = RC(map_rect(FloatRect((a, b), (n, o)), f, t))', 'r = True, j + (a - c) / e * l, k + (b - d) / i * m, n / e * l, o / i * m', pre=nz)


def fits(ctx):
    """fitting gives the largest centered rectangle of the requested ratio; insets, distances and midpoints per coordinate"""
    g = G(ctx, 'Float')
    pre = 'assert c > 0\nassert d > 0\nassert e > 0\n'
    ref = 'assert d != c * e\nif d > c * e:\n    r = True, a, b + (d - c * e) / 2, c, c * e\nelse:\n    r = True, a + (c - d / e) / 2, b, d / e, d\n'
    for rect in ('((a, b), (c, d))', 'FloatRect((a, b), (c, d))'):
        g(None, 'fit_to_aspect_ratio', 'a, b, c, d, e', 'r = RC(fit_to_aspect_ratio(%s, e))' % rect, ref, pre=pre)
    pre2 = 'assert c > 0\nassert d > 0\nassert f > 0\nassert h > 0\n'
    g(None, 'fit_to_size', 'a, b, c, d, f, h', 'r = RC(fit_to_size(((a, b), (c, d)), (f, h)))',
      'assert d * f != c * h\nif d * f > c * h:\n    r = True, a, b + (d - c * h / f) / 2, c, c * h / f\nelse:\n    r = True, a + (c - d * f / h) / 2, b, d * f / h, d\n', pre=pre2)
    g(None, 'inset_rect', 'a, b, c, d, e', 'q = inset_rect(((a, b), (c, d)), e)\nr = q[0][0], q[0][1], q[1][0], q[1][1]', 'r = a + e, b + e, c - 2 * e, d - 2 * e')
    g(None, 'distance', 'a, b, c, d', 'r = distance((a, b), (c, d)), distance(FloatPoint(a, b), FloatPoint(c, d))', 'r = math.sqrt((a - c) ** 2 + (b - d) ** 2), math.sqrt((a - c) ** 2 + (b - d) ** 2)')
    g(None, 'midpoint', 'a, b, c, d', 'q = midpoint((a, b), (c, d))\nr = q[0], q[1]', 'r = (a + c) / 2, (b + d) / 2')


RULES = [points, sizes, rects, moves, contains, equality, maps, fits]
