from .. import q
from .. import terms as T
from ..agree import agree
from ..program import Broken

YN = "r = 'accepted' if %s.matches(d) else 'rejected'"
REF = "r = 'accepted' if %s else 'rejected'"
# filter, parameters, construction, definition of acceptance
FILTERS = [
    ('Filter', 'v, d', 'Filter(v)', 'v'),
    ('Filter', 'd', 'Filter()', 'False'),
    ('AndFilter', 'fs, d', 'AndFilter(fs)', 'all(f.matches(d) for f in fs)'),
    ('AndFilter', 'd', 'AndFilter()', 'True'),
    ('OrFilter', 'fs, d', 'OrFilter(fs)', 'any(f.matches(d) for f in fs)'),
    ('OrFilter', 'd', 'OrFilter()', 'False'),
    ('AndFilter', 'a, b, d', 'AndFilter([a, b])', 'a.matches(d) and b.matches(d)'),
    ('OrFilter', 'a, b, d', 'OrFilter([a, b])', 'a.matches(d) or b.matches(d)'),
    ('NotFilter', 'f, d', 'NotFilter(f)', 'not f.matches(d)'),
    ('EqFilter', 'k, v, c, d', 'EqFilter(k, v, c)', '(c(getattr(d, k), v) if c else getattr(d, k) == v)'),
    ('EqFilter', 'k, v, d', 'EqFilter(k, v)', 'getattr(d, k) == v'),
    ('NotEqFilter', 'k, v, c, d', 'NotEqFilter(k, v, c)', 'not (c(getattr(d, k), v) if c else getattr(d, k) == v)'),
    ('NotEqFilter', 'k, v, d', 'NotEqFilter(k, v)', 'getattr(d, k) != v'),
    ('StartsWithFilter', 'k, v, d', 'StartsWithFilter(k, v)', 'getattr(d, k).startswith(v)'),
    ('TextFilter', 'k, v, d', 'TextFilter(k, v)', 'v.lower() in str(getattr(d, k)).lower()'),
    ('PartialDateFilter', 'k, y, m, n, d', 'PartialDateFilter(k, y, m, n)', '(not y or getattr(d, k).year == y) and (not m or getattr(d, k).month == m) and (not n or getattr(d, k).day == n)'),
    ('PredicateFilter', 'f, d', 'PredicateFilter(f)', 'f(d)'),
]


def where(ctx, cls, name):
    try:
        return ctx.method('ListModel', cls, name)[0]
    except Broken:
        return None


def definition(ctx):
    """the verdict of every kind of filter agrees with its definition on every joint path"""
    for cls, params, make, ref in FILTERS:
        agree(ctx, '%s.matches' % cls, 'ListModel', params, YN % make, REF % ref, effects=False, w=where(ctx, cls, 'matches'))


def copies(ctx):
    """a deep copy of a filter gives the verdict by the same definition on every joint path: it carries all state the original decides by"""
    for cls, params, make, ref in FILTERS:
        agree(ctx, '%s.__deepcopy__' % cls, 'ListModel', params, YN % ('copy.deepcopy(%s)' % make), REF % ref, effects=False, w=where(ctx, cls, '__deepcopy__'))
        ps = ctx.probe('ListModel', None, 'def client(%s):\n    f = %s\n    return f, copy.deepcopy(f)\n' % (params, make))
        for p in q.rets(ps):
            f, g = p.value[1] if p.value[0] == 'tuple' else (None, None)
            if f is None:
                continue
            kind = g[1] == f[1] if g[0] == 'new' else None
            ctx.check(kind if g != f else False, '%s.__deepcopy__' % cls, 'a deep copy is not a new filter of the same kind', where(ctx, cls, '__deepcopy__'))


RULES = [definition, copies]
