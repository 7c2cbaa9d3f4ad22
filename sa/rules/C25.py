"""Converters and validators against reference definitions: the two directions of a converter are given together, so that the
scale, offset, factor and format applied by one are the ones undone by the other."""
import re
from ..agree import agree
from ..program import Broken
from .. import terms as T

OPTS = {'inline_modules': ('Converter', 'Validator')}


def where(ctx, mod, cls, name):
    try:
        return ctx.method(mod, cls, name, None)[0]
    except Broken:
        return None


def skeleton(t):
    """shape of a value, numbers and inputs left out"""
    if not isinstance(t, tuple) or not t:
        return '_'
    if t[0] in ('const', 'sym'):
        return '_'
    if t[0] == 'poly':
        return ('poly',) + tuple(sorted({repr(skeleton(a[1] if a[0] == 'inv' else a)) for m, _ in t[1] for a in m}))
    if t[0] == 'app':
        return (t[1],) + tuple(skeleton(x) for x in t[2:])
    if isinstance(t[0], str):
        return (t[0],) + tuple(skeleton(x) if isinstance(x, tuple) else '_' for x in t[1:])
    return tuple(skeleton(x) for x in t)


def inputs(t):
    if not isinstance(t, tuple):
        return set()
    if t and t[0] == 'sym':
        return {t}
    r = set()
    for x in t:
        r |= inputs(x)
    return r


def close(a, b):
    """values of one shape differ for certain; values computed from different inputs, or from none, differ"""
    if a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
        return True
    if a[0] == 'const' and b[0] == 'const' or inputs(a) != inputs(b):
        return True
    if a[0] == b[0] == 'tuple':
        return len(a[1]) == len(b[1]) and all(close(x, y) for x, y in zip(a[1], b[1]))
    pa, pb = T.to_poly(a), T.to_poly(b)
    if pa is not None and pb is not None and (a[0] == 'poly' or b[0] == 'poly'):
        ya, yb = ({y[1] if y[0] == 'inv' else y for m in p for y in m} for p in (pa, pb))
        ya, yb = ya - yb, yb - ya
        if len(ya) == len(yb) == 1 and close(ya.pop(), yb.pop()):
            return True
        xa, xb = ({repr(skeleton(y[1] if y[0] == 'inv' else y)) for m in p for y in m} for p in (pa, pb))
        return xa <= xb or xb <= xa
    if a[0] == b[0] and (a[0] != 'app' or a[1] == b[1]):
        return len(a) != len(b) or all(close(x, y) for x, y in zip(a[1:], b[1:]))
    return skeleton(a) == skeleton(b)


def post(a, b, rv):
    if T.NONE in (a, b) and any(x[0] == 'app' and x[1] in ('str', 'int', 'float', 'pathlib.Path', 'uuid.UUID') or x[0] == 'call' and x[1] in (('ext', 'pathlib.Path'), ('ext', 'uuid.UUID')) for x in (a, b)):
        return False        # something instead of nothing
    if rv is False and (not close(a, b) or any(T.contains(x, lambda t: t[0] == 'app' and t[1] != 'locale.localeconv' and not inputs(t)) for x in (a, b))):
        return None
    if rv is None and inputs(a) != inputs(b) and not T.lossy(a) and not T.lossy(b):
        return False
    return rv


def go(ctx, cls, name, params, impl, ref, types=None, pre='', mod='Converter'):
    agree(ctx, '%s.%s' % (cls, name), mod, params, pre + impl, pre + ref, w=where(ctx, mod, cls, name), opts=dict(OPTS), argtypes=types, effects=False, post=post, total=True)


def sample_post(a, b, rv):
    """of values of fixed texts only two constants, or nothing and something, differ for certain"""
    if rv is False and not (a[0] == 'const' and b[0] == 'const' or T.NONE in (a, b) and {a[0], b[0]} <= {'const', 'app', 'poly'}):
        return None
    return rv


def samples(ctx, cls, name, texts, impl, ref):
    """the conversion of fixed texts under each number format, against fixed values; a text that is refused gives 'refused'"""
    o = dict(OPTS)
    o['inline_modules'] += ('locale',)
    with ctx.modelled('locale'):
        for point, thousands in (('.', ''), ('.', ','), (',', '.'), (',', ''), (',', ' ')):
            p = 'locale.point = %r\nlocale.thousands = %r\n' % (point, thousands)
            for t in texts:
                try:
                    v = repr(ref(t, point, thousands))
                except ValueError:
                    v = "'refused'"
                agree(ctx, '%s.%s of %r with decimal point %r and separator %r' % (cls, name, t, point, thousands), 'Converter', '', p + 'x = %r\ntry:\n    %s\nexcept ValueError:\n    r = \'refused\'\n' % (t, impl), 'r = ' + v,
                      w=where(ctx, 'Converter', cls, name), opts=dict(o), effects=False, post=sample_post, total=True)


def number(t, point, thousands):
    t = t.replace('.', point)
    if thousands:
        t = t.replace(thousands, '')
    return float(t.replace(point, '.'))


def leading(t, point, thousands):
    m = re.match(r'[-+]?(\d+([.,]\d*)?|[.,]\d+)(E[-+]?\d+)?', t.strip(), re.I)
    return number(m.group(0), point, thousands) if m else 0.0


NUMBER = r"r'([-+])?((?=\d|[\.,]\d)(\d*)([\.,](\d*))?(E([-+]?\d+))?)'"
PARSE = '''
def parse(text):
    m = re.match(%s, text.strip(), re.IGNORECASE)
    if m is None:
        return 0.0
    return number(m.group(0))
''' % NUMBER
ATOF = '''
def number(text):
    point = locale.localeconv()["decimal_point"]
    if point != '.':
        return locale.atof(text.replace('.', point))
    return locale.atof(text)
'''


def integers(ctx):
    """integers are written with the given format (plain digits if none) and read back as integers"""
    c = 'IntegerToStringConverter'
    go(ctx, c, 'convert', 'f, x', 'r = %s(f).convert(x)' % c, "r = (f if f else '{:d}').format(int(x))", {'f': 'str', 'x': 'int'})
    go(ctx, c, 'convert', 'f, x', 'r = %s(format=f).convert(x)' % c, "r = (f if f else '{:d}').format(int(x))", {'f': 'str'})
    go(ctx, c, 'convert', 'x', 'r = %s().convert(x)' % c, 'r = str(x)', {'x': 'int'})
    go(ctx, c, 'convert_back', 'f, x', 'r = %s(f).convert_back(x)' % c, 'r = int(x)', {'f': 'str', 'x': 'str'})


def floats(ctx):
    """numbers are written with the given format and the leading number is read back, with either decimal point; absent and empty pass if asked"""
    c = 'FloatToStringConverter'
    ty = {'f': 'str', 'x': 'str', 'p': 'bool', 'z': 'bool'}
    go(ctx, c, 'convert', 'f, p, x', 'r = %s(f, p).convert(x)' % c, "r = None if p and x is None else (f if f else '{:g}').format(x)", {'f': 'str'})
    go(ctx, c, 'convert', 'x', 'r = %s().convert(x)' % c, "r = '{:g}'.format(x)")
    go(ctx, c, 'convert_back', 'f, p, x', 'r = %s(f, p, True).convert_back(x)' % c, ATOF + PARSE + 'r = None if p and (x is None or len(x) == 0) else parse(x)', ty)
    go(ctx, c, 'convert_back', 'f, p, x', 'r = %s(f, p, False).convert_back(x)' % c, ATOF + 'r = None if p and (x is None or len(x) == 0) else number(x)', ty)
    go(ctx, c, 'convert_back', 'f, p, x', 'r = %s(pass_none=p, format=f).convert_back(x)' % c, ATOF + PARSE + 'r = None if p and (x is None or len(x) == 0) else parse(x)', ty)
    go(ctx, c, 'convert_back', 'x', 'r = %s().convert_back(x)' % c, ATOF + PARSE + 'r = parse(x)', ty)
    texts = ['1.5', '-2', '+.5', ' 3.25 kg', '1e3', '2.5E-1x', 'abc', '-', '', '.', '12,5', '7 8', 'e5', '1.5e', '-0', '1,234.5', '1.234,5']
    samples(ctx, c, 'convert_back', texts, 'r = %s().convert_back(x)' % c, leading)
    samples(ctx, c, 'convert_back', texts, 'r = %s(fuzzy=False).convert_back(x)' % c, number)
    texts = [None, '', '1.5', '2', ' 3.5m', '1,5']
    samples(ctx, c, 'convert_back', texts, 'r = %s(pass_none=True).convert_back(x)' % c, lambda t, p, q: leading(t, p, q) if t else None)
    samples(ctx, c, 'convert_back', texts, "r = %s('{}', True, False).convert_back(x)" % c, lambda t, p, q: number(t, p, q) if t else None)


def scaled(ctx):
    """the scaled integer and the percentage apply and undo one linear map"""
    c = 'FloatToScaledIntegerConverter'
    ty = {k: 'float' for k in 'abx'}
    ty['n'] = 'int'
    pre = 'assert n > 0\nassert b > a\n'
    go(ctx, c, 'convert', 'n, a, b, x', 'r = %s(n, a, b).convert(x)' % c, 'r = int(n * (x - a) / (b - a))', ty, pre=pre)
    go(ctx, c, 'convert_back', 'n, a, b, x', 'r = %s(n, value_min=a, value_max=b).convert_back(x)' % c, 'r = a + x / n * (b - a)', ty, pre=pre)
    go(ctx, c, 'convert', 'n, x', 'r = %s(n).convert(x), %s(n).convert_back(x)' % (c, c), 'r = int(n * x), x / n', ty, pre='assert n > 0\n')
    # changing the public parameters later changes both directions
    go(ctx, c, 'convert', 'n, a, b, x', 'c = %s(1)\nc.n = n\nc.value_min = a\nc.value_max = b\nr = c.convert(x), c.convert_back(x)' % c, 'r = int(n * (x - a) / (b - a)), a + x / n * (b - a)', ty, pre=pre)
    c = 'FloatToPercentStringConverter'
    go(ctx, c, 'convert', 'x', 'r = %s().convert(x)' % c, "r = str(int(x * 100)) + '%'", {'x': 'float'})
    go(ctx, c, 'convert_back', 'x', 'r = %s().convert_back(x)' % c, "r = float(x.strip('%')) / 100", {'x': 'str'})


def physical(ctx):
    """a physical value is multiplied when written, with its units, and divided by the same factor when read"""
    c = 'PhysicalValueToStringConverter'
    ty = {'f': 'str', 'u': 'str', 'm': 'float', 'p': 'bool', 'x': 'str'}
    tn = dict(ty)
    del tn['x']
    go(ctx, c, 'convert', 'u, m, f, p, x', 'r = %s(u, m, f, p).convert(x)' % c, "r = None if p and x is None else (f + ' {:s}' if f else '{:g} {:s}').format(x * m, u)", tn)
    go(ctx, c, 'convert', 'u, x', 'r = %s(u).convert(x)' % c, "r = '{:g} {:s}'.format(x, u)", {'u': 'str', 'x': 'float'})
    go(ctx, c, 'convert_back', 'u, m, f, p, x', 'r = %s(u, m, f, p).convert_back(x)' % c, ATOF + PARSE + 'r = None if p and (x is None or len(x) == 0) else parse(x) / m', ty, pre='assert m != 0\n')
    go(ctx, c, 'convert_back', 'u, m, p, x', 'r = %s(u, multiplier=m, pass_none=p).convert_back(x)' % c, ATOF + PARSE + 'r = None if p and (x is None or len(x) == 0) else parse(x) / m', ty, pre='assert m != 0\n')
    samples(ctx, c, 'convert_back', ['1.5 nm', '-2nm', 'nm', '1e3', '2,5 nm'], "r = %s('nm', 4.0).convert_back(x)" % c, lambda t, p, q: leading(t, p, q) / 4)
    samples(ctx, c, 'convert_back', [None, '', '1.5 nm', 'x'], "r = %s('nm', 4.0, pass_none=True).convert_back(x)" % c, lambda t, p, q: leading(t, p, q) / 4 if t else None)


def states(ctx):
    """the two check states map to true and false and back"""
    c = 'CheckedToCheckStateConverter'
    go(ctx, c, 'convert', 'x', 'r = %s().convert(x)' % c, "r = 'checked' if x else 'unchecked'")
    go(ctx, c, 'convert_back', 'x', 'r = True if %s().convert_back(x) else False' % c, "r = True if x == 'checked' else False", {'x': 'str'})
    for b in ('True', 'False'):
        go(ctx, c, 'convert_back', 'x', 'c = %s()\nr = True if c.convert_back(c.convert(%s)) else False' % (c, b), 'r = %s' % b)


def absent(ctx):
    """identifiers, paths and times are written and read back; absent stays absent both ways"""
    c = 'UuidToStringConverter'
    go(ctx, c, 'convert', 'x', 'r = %s().convert(x)' % c, 'r = str(x) if x is not None else None', {'x': 'obj'})
    go(ctx, c, 'convert_back', 'x', 'r = %s().convert_back(x)' % c,
       "if x is None:\n    r = None\nelif re.fullmatch('[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}', x.strip(), re.IGNORECASE) is None:\n    r = None\nelse:\n    r = uuid.UUID(x.strip())\n", {'x': 'str'})
    good = 'd9a7d3a0-6f4e-4c1b-9d3e-2b1f0a5c7e11'
    for t in (good, good.upper(), ' ' + good + ' ', good + '\n', good.replace('-9d', '-8d'), good.replace('-9d', '-ad'), good.replace('-9d', '-Bd'), None, '', 'abc', good[:-1], good + '0', good.replace('-4', '-1'), good.replace('-9', '-c'),
              good.replace('-', ''), '{' + good + '}', 'x' + good, good.replace('d', 'g')):
        ok = t is not None and re.fullmatch('[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}', t.strip().lower()) is not None
        agree(ctx, '%s.convert_back of %r' % (c, t), 'Converter', '', 'x = %r\nr = %s().convert_back(x)' % (t, c), 'r = None' if not ok else 'r = uuid.UUID(%r)' % t.strip(), w=where(ctx, 'Converter', c, 'convert_back'), opts=dict(OPTS), effects=False, post=sample_post, total=True)
    c = 'PathToStringConverter'
    go(ctx, c, 'convert', 'x', 'r = %s().convert(x)' % c, 'r = str(x) if x is not None else None', {'x': 'obj'})
    go(ctx, c, 'convert_back', 'x', 'r = %s().convert_back(x)' % c, 'r = pathlib.Path(x) if x else None', {'x': 'str'})
    c = 'DatetimeToStringConverter'
    go(ctx, c, 'convert', 'x', 'r = %s().convert(x)' % c, 'r = x.isoformat() if x is not None else None', {'x': 'obj'})
    go(ctx, c, 'convert_back', 'x', 'r = %s().convert_back(x)' % c,
       "if x is None:\n    r = None\nelif len(x) == 26:\n    r = datetime.datetime.strptime(x, '%Y-%m-%dT%H:%M:%S.%f')\nelif len(x) == 19:\n    r = datetime.datetime.strptime(x, '%Y-%m-%dT%H:%M:%S')\nelse:\n    r = None\n", {'x': 'str'})


def ranges(ctx):
    """a range validator limits the value to the bounds that were given, zero being a bound like any other"""
    c = 'IntegerRangeValidator'
    ty = {k: 'int' for k in 'abx'}
    v = {'Converter': 'Validator'}
    pre = 'assert a <= b\n'
    for args, ps, ref in (('a, b', 'a, b, x', 'a if x < a else b if x > b else x'), ('mn=a', 'a, x', 'a if x < a else x'), ('mx=b', 'b, x', 'b if x > b else x'), ('', 'x', 'x'),
                          ('None, b', 'b, x', 'b if x > b else x'), ('a, None', 'a, x', 'a if x < a else x'),
                          ('0, b', 'b, x', '0 if x < 0 else b if x > b else x'), ('a, 0', 'a, x', 'a if x < a else 0 if x > 0 else x'), ('mn=0', 'x', '0 if x < 0 else x'), ('mx=0', 'x', '0 if x > 0 else x')):
        p = {'a, b': pre, '0, b': 'assert b >= 0\n', 'a, 0': 'assert a <= 0\n'}.get(args, '')
        # the value is looked at in each of its cases
        go(ctx, c, 'validate', ps, 'r = %s\nr = %s(%s).validate(x)' % (ref, c, args), 'r = %s' % ref, ty, pre=p, mod='Validator')


RULES = [integers, floats, scaled, physical, states, absent, ranges]
