from ..agree import agree
from ..program import Broken, mangle
from .. import q
from .. import terms as T
from ..q import S, F, SELF

OPTS = {'events': True}
TYPES = {'fn': 'fn', 'c': 'fn', 'sink': 'fn', 's': 'obj', 'a': 'obj', 'b': 'obj', 'loop': 'obj', 'o': 'obj'}


def where(ctx, cls, name='__init__', kind=None):
    try:
        return ctx.method('Stream', cls, name, kind)[0]
    except Broken:
        return None


def only_sinks(e):
    return e.kind == 'call' and e.recv == S('sink')


def go(ctx, what, params, impl, ref, w, **kw):
    return agree(ctx, what, 'Stream', params, impl, ref, observe=only_sinks, w=w, argtypes=TYPES, opts=OPTS, **kw)


LISTEN = 'm.value_stream.listen(lambda x: sink(x, m.value))\n'
SEND = 'sink(r, r)\n'


def mapped(ctx):
    """a mapped stream starts with the function of its input's value and stores and sends the function of each new input value, once, when that differs"""
    w = where(ctx, 'MapStream')
    go(ctx, 'MapStream initial', 's, fn', 'm = MapStream(s, fn)\nr = m.value\n', 'r = fn(s.value)\n', w)
    go(ctx, 'MapStream', 's, fn, x, sink', 'm = MapStream(s, fn)\n' + LISTEN + '__fire__(s.value_stream, x)\nr = m.value\n', 'r = fn(s.value)\nif fn(x) != r:\n    r = fn(x)\n    ' + SEND, w)
    go(ctx, 'MapStream', 's, fn, x, y, sink', 'm = MapStream(s, fn)\n__fire__(s.value_stream, x)\n' + LISTEN + '__fire__(s.value_stream, y)\nr = m.value\n',
       'r = fn(s.value)\nif fn(x) != r:\n    r = fn(x)\nif fn(y) != r:\n    r = fn(y)\n    ' + SEND, w)


def combined(ctx):
    """a combined stream applies its function to the latest values of all inputs in input order, initially and on every change of any of them"""
    w = where(ctx, 'CombineLatestStream')
    go(ctx, 'CombineLatestStream initial', 'a, b, fn', 'm = CombineLatestStream([a, b], fn)\nr = m.value\n', 'r = fn(a.value, b.value) if fn is not None else (a.value, b.value)\n', w)
    go(ctx, 'CombineLatestStream default', 'a, b', 'm = CombineLatestStream([a, b])\nr = m.value\n', 'r = (a.value, b.value)\n', w)
    for n in ('a', 'b'):
        new = 'x, b.value' if n == 'a' else 'a.value, x'
        go(ctx, 'CombineLatestStream', 'a, b, fn, x, sink', 'assert fn is not None\nm = CombineLatestStream([a, b], fn)\n' + LISTEN + '__fire__(%s.value_stream, x)\nr = m.value\n' % n, 'r = fn(%s)\n' % new + SEND, w)
    go(ctx, 'CombineLatestStream', 'a, b, fn, x, y, sink', 'assert fn is not None\nm = CombineLatestStream([a, b], fn)\n' + LISTEN + '__fire__(b.value_stream, x)\n__fire__(a.value_stream, y)\nr = m.value\n',
       'sink(fn(a.value, x), fn(a.value, x))\nr = fn(y, x)\n' + SEND, w)
    go(ctx, 'CombineLatestStream', 'a, fn, x, y, sink', 'assert fn is not None\nm = CombineLatestStream([a], fn)\n' + LISTEN + '__fire__(a.value_stream, x)\n__fire__(a.value_stream, y)\nr = m.value\n',
       'sink(fn(x), fn(x))\nr = fn(y)\n' + SEND, w)


def constant(ctx):
    """a constant stream has its value"""
    go(ctx, 'ConstantStream', 'v', 'm = ConstantStream(v)\nr = m.value\n', 'r = v\n', where(ctx, 'ConstantStream'))


PC = '''
def upd(new, cur):
    if c is not None:
        return cur if c(new, cur) else new
    return cur if new == cur else new
'''


def prop(ctx):
    """a property stream starts with the property of its source object, follows its changes under its own name when the comparison says they differ, and follows a stream of source objects"""
    w = where(ctx, 'PropertyChangedEventStream')
    pre = 'assert not isinstance(o, AbstractStream)\nassert o is not None\n'
    go(ctx, 'PropertyChangedEventStream initial', 'o, name, c', pre + 'm = PropertyChangedEventStream(o, name, c)\nr = m.value\n', PC + 'r = upd(getattr(o, name), None)\n', w)
    go(ctx, 'PropertyChangedEventStream', 'o, name, c, key, sink', pre + 'm = PropertyChangedEventStream(o, name, c)\n' + LISTEN + 'setattr(o, name, sink)\n__fire__(o.property_changed_event, key)\nr = m.value\n',
       PC + 'r = upd(getattr(o, name), None)\nif key == name:\n    if (not c(sink, r)) if c is not None else sink != r:\n        r = sink\n        ' + SEND, w)
    spre = 'assert isinstance(s, AbstractStream)\n'
    go(ctx, 'PropertyChangedEventStream of a stream', 's, name, o, key, sink', spre + 'm = PropertyChangedEventStream(s, name)\n' + LISTEN + 'assert o is not None\n__fire__(s.value_stream, o)\nr = m.value\n',
       'r = None\nif s.value and getattr(s.value, name) != r:\n    r = getattr(s.value, name)\nif getattr(o, name) != r:\n    r = getattr(o, name)\n    ' + SEND, w)
    go(ctx, 'PropertyChangedEventStream old object', 's, name, o, v, key, sink', spre + 'assert o is not None\nassert s.value\nm = PropertyChangedEventStream(s, name)\n__fire__(s.value_stream, o)\n' + LISTEN + 'v = s.value\nsetattr(v, name, 5)\n__fire__(v.property_changed_event, key)\n',
       'pass\n', w)


def concat(ctx):
    """a concatenated stream has the value of the stream made for the latest input value, sends what that stream sends and nothing of an earlier one, and has no value without input"""
    w = where(ctx, 'ConcatStream')
    go(ctx, 'ConcatStream initial', 's, fn', 'm = ConcatStream(s, fn)\nr = m.value\n', 'r = fn(s.value).value if s.value else None\n', w)
    go(ctx, 'ConcatStream', 's, fn, x, sink', 'm = ConcatStream(s, fn)\n' + LISTEN + '__fire__(s.value_stream, x)\nr = m.value\n', 'r = fn(x).value if x else None\n' + SEND, w)
    go(ctx, 'ConcatStream inner', 's, fn, x, y, sink', 'assert fn(s.value)\nassert s.value\nm = ConcatStream(s, fn)\n__fire__(s.value_stream, x)\n' + LISTEN + '__fire__(fn(x).value_stream, y)\nr = m.value\n', 'r = None\nif x:\n    r = y\n    ' + SEND, w)
    go(ctx, 'ConcatStream old inner', 's, fn, x, y, sink', 'assert s.value\nassert x != s.value\nassert fn(s.value)\nm = ConcatStream(s, fn)\n__fire__(s.value_stream, x)\n' + LISTEN + '__fire__(fn(s.value).value_stream, y)\nr = m.value\n', 'r = fn(x).value if x else None\n', w)


def fields_written(ctx, cls, fn_paths):
    return {(e.name) for p in fn_paths for e in q.writes(p.trace, SELF)}


def latest(ctx):
    """a debounced stream keeps every input value and its delayed task sends, after the delay, the value that is stored then; the initial value is taken as well"""
    cls = 'DebounceStream'
    f, ci = ctx.method('Stream', cls, 'debounce_delay')
    names = q.role_field(ctx, 'Stream', cls, 'value')
    if len(names) != 1:
        ctx.unk(cls, 'where the value is kept')
        return
    vf = list(names)[0]
    go(ctx, 'DebounceStream.value', 's, p, loop, x', 'm = DebounceStream(s, p, loop)\n__fire__(s.value_stream, x)\nr = m.value\n', 'r = x\n', where(ctx, cls))
    go(ctx, 'DebounceStream initial', 's, p, loop', 'm = DebounceStream(s, p, loop)\nr = m.value\n', 'r = s.value\n', where(ctx, cls))
    if f.is_async:
        delayed(ctx, cls, 'debounce_delay', f, {vf})
    # a value arriving while no task waits starts one, exactly one
    for p in q.rets(ctx.probe('Stream', None, 'def client(s, p, loop):\n    m = DebounceStream(s, p, loop)\n', opts={'pure': True, 'opaque': (f.id,)})):
        n = len(q.calls(p.trace, ('create_task', 'call_later', 'call_at')))
        ctx.check(n == 1 if n or not q.calls(p.trace, ('ensure_future', 'call_later', 'call_soon', 'call_soon_threadsafe')) else None, cls + ' initial', '%d tasks are started for the initial value' % n, where(ctx, cls))


def delayed(ctx, cls, name, f, fields):
    """the value that is sent is read after the delay"""
    for p in ctx.paths('Stream', cls, name, opts={'reads': tuple(fields)}):
        if p.status != 'ret':
            continue
        aw = [i for i, e in enumerate(p.trace) if e.kind == 'await']
        fs = [i for i, e in enumerate(p.trace) if q.is_fire(e, 'value_stream', SELF)]
        for i in fs:
            ctx.check(bool(aw) and i > aw[0], '%s.%s' % (cls, name), 'the value is sent before the delay', p.trace[i])
            rd = [j for j, e in enumerate(p.trace[:i]) if e.kind == 'read' and e.name in fields and e.recv == SELF]
            v = p.trace[i].args[0] if p.trace[i].args else None
            if v is not None and v[0] == 'fld' and v[2] in fields:
                ctx.check(bool(rd) and bool(aw) and rd[-1] > aw[-1] if rd else None, '%s.%s' % (cls, name), 'the value that is sent was read before the delay', p.trace[i])
            else:
                ctx.check(None if v is None or T.lossy(v) else False, '%s.%s' % (cls, name), 'sends %s, not the latest value' % (T.show(v) if v else 'nothing'), p.trace[i])
        if cls == 'DebounceStream':
            ctx.check(len(fs) == 1 if not any(e.kind == 'loop' for e in p.trace) else None, '%s.%s' % (cls, name), 'the value is sent %d times' % len(fs), f)


def sampled(ctx):
    """a sampled stream starts with its input's value, marks each input value as pending, and each sample sends the pending value once if there was one since the last sample, after storing it"""
    cls = 'SampleStream'
    f, ci = ctx.method('Stream', cls, 'sample_loop')
    go(ctx, 'SampleStream initial', 's, p, loop', 'm = SampleStream(s, p, loop)\nr = m.value\n', 'r = s.value\n', where(ctx, cls), )
    w = where(ctx, cls, 'sample_loop')
    o = dict(OPTS, opaque=(f.id,))
    def sample(what, impl, ref):
        agree(ctx, what, 'Stream', 's, p, loop, x, y, sink', impl, ref, observe=only_sinks, w=w, argtypes=TYPES, opts=OPTS)
    mk = 'm = SampleStream(s, p, loop)\n'
    # the task made by the constructor is analysed as if it had run at once
    sample('SampleStream first', 'm = SampleStream(s, p, loop)\n' + LISTEN + '__fire__(s.value_stream, x)\nm.sample_loop()\nr = m.value\n', 'r = x\n' + SEND)
    sample('SampleStream pending', mk + LISTEN + '__fire__(s.value_stream, x)\n__fire__(s.value_stream, y)\nm.sample_loop()\nr = m.value\n', 'r = y\n' + SEND)
    sample('SampleStream clean', mk + '__fire__(s.value_stream, x)\nm.sample_loop()\n' + LISTEN + 'm.sample_loop()\nr = m.value\n', 'r = x\n')
    # before any sample the input values are not visible
    ps = ctx.probe('Stream', None, 'def client(s, p, loop, sink):\n    m = SampleStream(s, p, loop)\n    m.value_stream.listen(lambda v: sink(v, m.value))\n    m.sample_loop()\n    return m.value\n', opts=dict(OPTS, pure=True))
    # the delay comes before the values are taken
    for p in ctx.paths('Stream', cls, 'sample_loop'):
        if p.status == 'ret':
            aw = [i for i, e in enumerate(p.trace) if e.kind == 'await']
            for i, e in enumerate(p.trace):
                if q.is_fire(e, 'value_stream', SELF) or e.kind == 'write' and e.recv == SELF:
                    ctx.check(bool(aw) and i > aw[0], 'SampleStream.sample_loop', 'the pending value is taken before the delay', e)
    # the sampling goes on
    ps = ctx.probe('Stream', None, 'def client(s, p, loop):\n    m = SampleStream(s, p, loop)\n', opts={'pure': True, 'opaque': (f.id,)})
    for p in q.rets(ps):
        n = len(q.calls(p.trace, 'create_task'))
        ctx.check(True if n == 1 else (None if n == 0 and q.calls(p.trace, ('ensure_future', 'call_later', 'call_soon')) else False), 'SampleStream initial', '%d sampling tasks are started' % n, where(ctx, cls))


def tasks(ctx):
    """histories of input values, task runs and closing: each run of a waiting task sends the latest value once; the next value is awaited again; a closed stream sends nothing"""
    o = dict(OPTS, later=True)
    def t(cls, what, steps, ref):
        src = 'm = %s(s, p, loop)\n' % cls + ''.join({'L': LISTEN, 'x': '__fire__(s.value_stream, x)\n', 'y': '__fire__(s.value_stream, y)\n', 'R': '__run__()\n', 'C': 'm.close()\n'}[c] for c in steps)
        agree(ctx, '%s %s' % (cls, what), 'Stream', 's, p, loop, x, y, sink', src + 'r = 1\n', ref + 'r = 1\n', observe=only_sinks, w=where(ctx, cls), argtypes=TYPES, opts=o)
    v, x, y = 'sink(s.value, s.value)\n', 'sink(x, x)\n', 'sink(y, y)\n'
    for cls in ('DebounceStream', 'SampleStream'):
        t(cls, 'initial', 'LR', v)
        t(cls, 'latest', 'LxyR', y)
        t(cls, 'before', 'Lxy', '')
        t(cls, 'again', 'RLxR', x)
        t(cls, 'each', 'LRxRyR', v + x + y)
        t(cls, 'no change', 'RLR', '')
        t(cls, 'no change', 'LxRR', x)
        t(cls, 'closed', 'LCR', '')
        t(cls, 'closed', 'LxCR', '')
        t(cls, 'closed', 'LRCxR', v)


RULES = [mapped, combined, constant, prop, concat, latest, sampled, tasks]
