"""Event histories: client code listens, closes and fires, also from within callbacks; the calls of the callbacks, in order, are
compared with the calls expected"""
import itertools
from ..agree import agree
from ..q import S

OPTS = {'dyn': True, 'alive': True, 'rec': 6, 'budget': 20000}
PARAMS = 'f, g, h, x, y'
TYPES = {'f': 'fn', 'g': 'fn', 'h': 'fn'}
FNS = ('f', 'g', 'h')


def seen(e):
    return e.kind == 'call' and e.recv in (S('f'), S('g'), S('h'))


def go(ctx, what, impl, ref, w, of=None):
    pre = 'assert callable(f)\nassert callable(g)\nassert callable(h)\n'
    return agree(ctx, what, 'Event', PARAMS, pre + 'e = Event()\n' + impl, ref, observe=seen if of is None else lambda e: seen(e) and e.recv == S(of), w=w, argtypes=TYPES, opts=OPTS, total=True)


def run(ops):
    """(client, expected calls) or None"""
    made, open_, impl, ref = 0, [], '', ''
    for o in ops:
        if o == 'listen':
            if made == 3:
                return None
            impl += 'l%d = e.listen(%s)\n' % (made, FNS[made])
            open_.append(made)
            made += 1
        elif o.startswith('close'):
            k = int(o[5:])
            if k >= made:
                return None
            impl += 'l%d.close()\n' % k
            open_ = [j for j in open_ if j != k]
        elif o == 'fire':
            impl += 'e.fire(x, k=y)\n'
            ref += ''.join('%s(x, k=y)\n' % FNS[j] for j in open_)
    return impl + 'r = None\n', ref + 'r = None\n'


def histories(ctx):
    """every history of up to three listeners, closings and firings: who is called, in which order and with what"""
    w = ctx.method('Event', 'Event', 'fire')[0]
    for n in range(2, 7):
        for ops in itertools.product(('listen', 'close0', 'close1', 'close2', 'fire'), repeat=n):
            if ops[0] != 'listen' or ops[-1] != 'fire' or ops.count('close0') > 1 and n > 4 or n == 6 and ops.count('fire') != 2:
                continue
            c = run(ops)
            if c:
                go(ctx, 'event history: ' + ', '.join(ops), *c, w)


def inside(ctx, closing=False):
    """a callback that closes a listener, adds one or fires again: a closed listener is not called any more, one added is called from the next firing on"""
    w = ctx.method('Event', 'Event', 'fire')[0]
    for pos in range(3):
        for act, k in [('close', 0), ('close', 1), ('close', 2), ('listen', 0)]:
            names = ['f', 'g', 'h']
            impl = 'class T:\n    pass\nt = T()\nt.n = 0\nt.more = None\n'
            body = 't.l%d.close()' % k if act == 'close' else 't.more = e.listen(h)'
            impl += 'def cb(*p, **q):\n    %s(*p, **q)\n    t.n = t.n + 1\n    if t.n == 1:\n        %s\n' % (names[pos], body)
            n = 3 if act == 'close' else 2
            if pos >= n:
                continue
            for j in range(n):
                impl += 't.l%d = e.listen(%s)\n' % (j, 'cb' if j == pos else names[j])
            impl += 'e.fire(x, k=y)\ne.fire(y)\n'
            if act == 'close':
                first = [j for j in range(3) if not (j == k and j > pos)]
                second = [j for j in range(3) if j != k]
            else:
                first, second = [0, 1], [0, 1, 2]
            ref = ''.join('%s(x, k=y)\n' % names[j] for j in first) + ''.join('%s(y)\n' % names[j] for j in second)
            if not closing:
                go(ctx, 'callback %d does %s %d' % (pos, act, k), impl + 'r = None\n', ref + 'r = None\n', w)
            elif act == 'close':
                go(ctx, 'callback %d does %s %d' % (pos, act, k), impl + 'r = None\n', only(ref, names[k]) + 'r = None\n', w, names[k])
    for pos in range(0 if closing else 2):
        impl = 'class T:\n    pass\nt = T()\nt.n = 0\n' + 'def cb(*p, **q):\n    %s(*p, **q)\n    t.n = t.n + 1\n    if t.n == 1:\n        e.fire(y)\n' % 'fg'[pos]
        impl += ''.join('l%d = e.listen(%s)\n' % (j, 'cb' if j == pos else 'fg'[j]) for j in range(2)) + 'e.fire(x, k=y)\n'
        ref = ''.join('fg'[j] + '(x, k=y)\n' for j in range(pos + 1)) + 'f(y)\ng(y)\n' + ''.join('fg'[j] + '(x, k=y)\n' for j in range(pos + 1, 2))
        go(ctx, 'callback %d fires' % pos, impl + 'r = None\n', ref + 'r = None\n', w)


def forms(ctx):
    """the forms with a result ask the open listeners in order until the answer is clear"""
    for n in range(4):
        for shut in [None] + list(range(n)):
            for form in ('fire_any', 'fire_all'):
                w = ctx.method('Event', 'Event', form)[0]
                impl = ''.join('l%d = e.listen(%s)\n' % (j, FNS[j]) for j in range(n)) + ('l%d.close()\n' % shut if shut is not None else '')
                ask = 'not ' if form == 'fire_all' else ''
                ref = ''
                fs = [FNS[j] for j in range(n) if j != shut]
                for i, f in enumerate(fs):
                    ref += '    ' * i + 'if %s%s(x, k=y):\n' % (ask, f) + '    ' * (i + 1) + 'r = %s\n' % (form == 'fire_any') + '    ' * i + 'else:\n'
                ref += '    ' * len(fs) + 'r = %s\n' % (form == 'fire_all')
                go(ctx, '%s with %d listeners%s' % (form, n, ', one closed' if shut is not None else ''), impl + 'r = e.%s(x, k=y)\n' % form, ref, w)


def others(ctx):
    """a listener used as a context is open inside its block and closed after it; one registered without a function never disturbs the others"""
    w = ctx.method('Event', 'EventListener', '__exit__')[0]
    go(ctx, 'listener as context', 'with e.listen(f) as l:\n    e.fire(x, k=y)\nm = e.listen(g)\ne.fire(y)\nr = None\n', 'f(x, k=y)\ng(y)\nr = None\n', w)
    go(ctx, 'listener as context, two', 'with e.listen(f):\n    with e.listen(g):\n        e.fire(x)\n    e.fire(y)\ne.fire(x)\nr = None\n', 'f(x)\ng(x)\nf(y)\nr = None\n', w)
    go(ctx, 'listener of a context', 'with e.listen(f) as l:\n    l.close()\n    e.fire(x)\nr = None\n', 'r = None\n', w)
    go(ctx, 'listener without function', 'l = e.listen(None)\nm = e.listen(g)\ne.fire(x)\nr = e.fire_any(y)\n', 'g(x)\nif g(y):\n    r = True\nelse:\n    r = False\n', w)
    go(ctx, 'listener without function, all', 'l = e.listen(None)\nm = e.listen(g)\nr = e.fire_all(y)\n', 'if not g(y):\n    r = False\nelse:\n    r = True\n', w)


def only(ref, f):
    return ''.join(l + '\n' for l in ref.split('\n') if l.startswith(f + '(') or l.startswith('r ='))


def closed(ctx):
    """a listener that is closed, before or while the event is fired, is not called again: every history of up to three listeners"""
    w = ctx.method('Event', 'EventListener', 'close')[0]
    for n in range(3, 6):
        for ops in itertools.product(('listen', 'close0', 'close1', 'close2', 'fire'), repeat=n):
            if ops[0] != 'listen' or ops[-1] != 'fire' or len([o for o in ops if o.startswith('close')]) != 1:
                continue
            c = run(ops)
            f = FNS[int([o for o in ops if o.startswith('close')][0][5:])]
            if c:
                go(ctx, 'event history: ' + ', '.join(ops), c[0], only(c[1], f), w, f)
    inside(ctx, True)


def reported(ctx):
    """the listeners an event reports, and their number, are those that were added and are still there, in order"""
    w = ctx.method('Event', 'Event', 'listeners', 'get')[0]
    for n in range(4):
        impl = ''.join('l%d = e.listen(%s)\n' % (j, FNS[j]) for j in range(n))
        go(ctx, 'listener_count of %d' % n, impl + 'r = e.listener_count\n', 'r = %d\n' % n, ctx.method('Event', 'Event', 'listener_count', 'get')[0])
        go(ctx, 'listeners of %d' % n, impl + 'm = e.listeners\nr = len(m) == %d%s\n' % (n, ''.join(' and m[%d] is l%d' % (j, j) for j in range(n))), 'r = True\n', w)
