"""Debounced and sampled streams over a model of time: client code gives the input its values at chosen times, before, during
and after the waiting of the stream's tasks, and looks at what the stream sends and when.  Nothing is run and no real time
is involved: the only contract used is that asyncio.sleep(p) ends p after it began."""
from ..agree import agree
from ..program import Broken

MODELS = ('asyncio', 'threading', 'time')
OPTS = {'inline_modules': MODELS + ('Event', 'ReferenceCounting'), 'rec': 4, 'later': True, 'alive': True, 'budget': 20000}
P, T0 = 10, 1000

CLIENT = '''
import asyncio
import time
script = [%(script)s]
sent = []
def passing(until):
    while len(script) > 0 and script[0][0] < until:
        at, v = script.pop(0)
        time.now = max(at, time.now)
        if v is None:
            m.close()
        else:
            s.value = v
    time.now = max(time.now, until)
def heard(v):
    sent.append((time.now, v))
    if v == %(react)r:
        %(answer)s
asyncio.passing = passing
loop = asyncio.Loop()
s = ValueStream('a')
m = %(cls)s(s, 10, loop)
listener = m.value_stream.listen(heard)
for i in range(%(n)d):
    if len(loop._tasks) == 0 and len(script) > 0:
        passing(script[0][0] + 1)
    loop._run(1)
r = tuple(sent)
'''

# (time after the start, value); None closes the stream
SCRIPTS = (
    (), ((3, 'b'),), ((3, 'b'), (7, 'c')), ((3, 'b'), (12, 'c')), ((9, 'b'), (11, 'c'), (19, 'd')), ((3, 'b'), (5, 'a')), ((25, 'b'),), ((25, 'b'), (27, 'c'), (44, 'd')), ((12, 'b'), (14, 'c'), (21, 'd'), (29, 'e')),
    ((3, None),), ((3, 'b'), (7, None)), ((13, 'b'), (17, None)), ((25, 'b'), (26, None)), ((15, None),), ((3, 'b'), (15, None)),
)


# on hearing a value the listener gives the input another one, or closes the stream
REACT = [((), 'a', 'z'), (((3, 'b'),), 'b', 'z'), (((12, 'b'), (14, 'c')), 'a', 'z'), (((25, 'b'),), 'b', 'z'), (((3, 'b'), (12, 'c')), 'b', None), ((), 'a', None), (((25, 'b'), (27, 'c')), 'c', None)]


def constant(t):
    """((time, value), ...) if it is known"""
    if t[0] == 'lit':
        xs = t[2]
    elif t[0] == 'tuple':
        xs = t[1]
    else:
        return None
    out = []
    for x in xs:
        if x[0] != 'tuple' or len(x[1]) != 2 or any(y[0] != 'const' for y in x[1]):
            return None
        out.append((x[1][0][2] - T0, x[1][1][2]))
    return out


def fault(sent, script, react='', answer=''):
    """what is wrong with the values sent"""
    script = sorted(list(script) + [(t, answer) for t, v in sent if react and v == react], key=lambda x: x[0])
    if any(v is None for t, v in script):
        script = script[:[v for t, v in script].index(None) + 1]
    end = [t for t, v in script if v is None]
    changes = [(0, 'a')] + [(t, v) for t, v in script if v is not None]
    last = None
    for t, v in sent:
        if end and t >= end[0] and v != react:
            return 'a value is sent after the stream was closed'
        if t < P or last is not None and t - last < P:
            return 'two values within one period'
        if v != [y for x, y in changes if x <= t and not (x == t and v == react and y == answer)][-1]:
            return 'a value is sent that is not the latest'
        if not any((-1 if last is None else last) <= x <= t for x, y in changes):
            return 'a value is sent without a change'
        last = t
    for x, y in changes:
        if not (end and end[0] < x + P) and not any(x <= t <= x + P and (y != answer or t > x) for t, v in sent):
            return 'a change is not sent within a period'
    return None


def where(ctx, cls):
    try:
        return ctx.method('Stream', cls, '__init__', None)[0]
    except Broken:
        return None


def histories(ctx, cls):
    for script, react, answer in [(x, '', '') for x in SCRIPTS] + REACT:
        end = [t for t, v in script if v is None]
        n = max([t for t, v in script] or [0]) // P + 3 if not end else end[0] // P + 2
        src = CLIENT % {'react': react, 'answer': {'': 'pass', None: 'm.close()'}.get(answer, 's.value = %r' % answer), 'cls': cls, 'n': n, 'script': ', '.join('(%d, %r)' % (t + T0, v) for t, v in script)}

        def post(a, b, rv):
            c = constant(a)
            return None if c is None else fault(c, script, react, answer) is None
        post.closed = True      # the input is fixed: a question left open has one answer, which is not known
        with ctx.modelled(*MODELS):
            agree(ctx, '%s with input %s%s' % (cls, script or 'unchanged', ' answering %r by %r' % (react, answer) if react else ''), 'Stream', '', src, "r = 'the latest value, at most one per period and each change within one'", w=where(ctx, cls), opts=OPTS, effects=False, post=post)


def debounced(ctx):
    """what a debounced stream sends for input changes at chosen times: the latest value, never two within a period, each change within a period, nothing after close"""
    histories(ctx, 'DebounceStream')


def sampled(ctx):
    """what a sampled stream sends for input changes at chosen times: the latest value, never two within a period, each change within a period, nothing after close"""
    histories(ctx, 'SampleStream')


RULES = [debounced, sampled]
