from ..agree import agree
from ..program import Broken
from .. import q
from .. import terms as T
from ..q import S

OPTS = {'inline_modules': ('Observable',), 'events': True}
TYPES = {'c': 'fn', 'f': 'fn', 'sink': 'fn', 's': 'obj', 'loop': 'obj'}
IGN = ('listen', 'close', 'add_ref', 'remove_ref', 'create_task', 'run_in_executor', 'fire')


def where(ctx, mod, cls, name, kind=None):
    try:
        return ctx.method(mod, cls, name, kind)[0]
    except Broken:
        return None


def only_sinks(e):
    return e.kind == 'call' and e.recv in (S('sink'), S('f'))


def go(ctx, what, mod, params, impl, ref, w, **kw):
    o = dict(OPTS, **kw.pop('opts', {}))
    return agree(ctx, what, mod, params, impl, ref, observe=only_sinks, w=w, argtypes=TYPES, opts=o, **kw)


# does v replace cur?  (reference)
CHANGED = '''
def changed(v, cur):
    if cur is None:
        return v is not None
    if v is None:
        return True
    if c is not None:
        return not c(v, cur)
    return not (v == cur)
'''
LISTEN = 'm.property_changed_event.listen(lambda key: sink(key, m.value))\n'


def setter(ctx):
    """setting a property model stores a differing value, then notifies once under its name; an equal value does nothing; absent values never reach the comparison"""
    w = where(ctx, 'Model', 'PropertyModel', 'value', 'set')
    go(ctx, 'PropertyModel.value (set)', 'Model', 'v0, c, v, sink', 'm = PropertyModel(v0, c)\n' + LISTEN + 'm.value = v\nr = m.value\n',
       CHANGED + "r = v0\nif changed(v, v0):\n    r = v\n    sink('value', v)\n", w)
    go(ctx, 'PropertyModel.value (set twice)', 'Model', 'v0, c, v, u, sink', 'm = PropertyModel(v0, c)\nm.value = v\n' + LISTEN + 'm.value = u\nr = m.value\n',
       CHANGED + "r = v0\nif changed(v, v0):\n    r = v\nif changed(u, r):\n    r = u\n    sink('value', u)\n", w)


def default_cmp(ctx):
    """without a comparison, equality is used"""
    w = where(ctx, 'Model', 'PropertyModel', '__init__')
    go(ctx, 'PropertyModel default', 'Model', 'v0, v, sink', 'm = PropertyModel(v0)\n' + LISTEN + 'm.value = v\nr = m.value\n',
       'c = None\n' + CHANGED + "r = v0\nif changed(v, v0):\n    r = v\n    sink('value', v)\n", w)
    go(ctx, 'PropertyModel default', 'Model', 'v, sink', 'm = PropertyModel()\n' + LISTEN + 'm.value = v\nr = m.value\n',
       "r = v\nif v is not None:\n    sink('value', v)\n", w)


def on_changed(ctx):
    """the value-changed function is called once with the new value, after it is stored, exactly when the value changed, and not after close"""
    w = where(ctx, 'Model', 'PropertyModel', 'value', 'set')
    go(ctx, 'PropertyModel.on_value_changed', 'Model', 'v0, c, v, f', 'm = PropertyModel(v0, c)\nm.on_value_changed = f\nm.value = v\n', CHANGED + "if changed(v, v0) and f is not None:\n    f(v)\n", w)
    go(ctx, 'PropertyModel.on_value_changed', 'Model', 'v0, c, v, sink', 'm = PropertyModel(v0, c)\nm.on_value_changed = lambda x: sink(x, m.value)\nm.value = v\n', CHANGED + "if changed(v, v0):\n    sink(v, v)\n", w)
    go(ctx, 'PropertyModel.close', 'Model', 'v0, c, v, f', 'm = PropertyModel(v0, c)\nm.on_value_changed = f\nm.close()\nm.value = v\n', 'pass\n', where(ctx, 'Model', 'PropertyModel', 'close'))


def absent(ctx):
    """the comparison is never asked about an absent value"""
    ps = ctx.probe('Model', None, 'def client(v0, c, v):\n    m = PropertyModel(v0, c)\n    m.value = v\n', opts=dict(OPTS), argtypes={'c': 'fn'})
    for p in ps:
        for e in q.calls(p.trace):
            if e.recv == S('c') or e.name == '_PropertyModel__cmp':
                for a in e.args:
                    n = q.assumed(p.trace, ('isnone', a))
                    ctx.check(n is False, 'PropertyModel.value (set)', 'the comparison may be given no value', e)


def streams(ctx):
    """setting a value stream stores a differing value and then sends it once; an equal one does nothing"""
    w = where(ctx, 'Stream', 'ValueStream', 'value', 'set')
    go(ctx, 'ValueStream.value (set)', 'Stream', 'v0, v, sink', 'm = ValueStream(v0)\nm.value_stream.listen(lambda x: sink(x, m.value))\nm.value = v\nr = m.value\n',
       'r = v0\nif v0 != v:\n    r = v\n    sink(v, v)\n', w, opts={'inline_modules': ('Observable', 'ReferenceCounting')})
    go(ctx, 'ValueStream', 'Stream', 'v, sink', 'm = ValueStream()\nm.value_stream.listen(lambda x: sink(x, m.value))\nm.value = v\nr = m.value\n',
       'r = None\nif r != v:\n    r = v\n    sink(v, v)\n', w, opts={'inline_modules': ('Observable', 'ReferenceCounting')})


def fed(ctx):
    """a model fed by a stream starts with and follows its value; each change is notified once"""
    w = where(ctx, 'Model', 'StreamValueModel', '__init__')
    go(ctx, 'StreamValueModel initial', 'Model', 's, v0, c', 'm = StreamValueModel(s, v0, c)\nr = m.value\n', CHANGED + 'r = s.value if changed(s.value, v0) else v0\n', w)
    go(ctx, 'StreamValueModel', 'Model', 's, v0, c, x, sink', 'm = StreamValueModel(s, v0, c)\n' + LISTEN + '__fire__(s.value_stream, x)\nr = m.value\n',
       CHANGED + "r = s.value if changed(s.value, v0) else v0\nif changed(x, r):\n    r = x\n    sink('value', x)\n", w)
    go(ctx, 'StreamValueModel.close', 'Model', 's, x, sink', 'm = StreamValueModel(s)\n' + LISTEN + 'm.close()\n__fire__(s.value_stream, x)\nr = m.value\n',
       "r = s.value\n", where(ctx, 'Model', 'StreamValueModel', 'close'))
    w = where(ctx, 'Model', 'FuncStreamValueModel', '__init__')
    go(ctx, 'FuncStreamValueModel initial', 'Model', 's, loop, v0, c', 'm = FuncStreamValueModel(s, loop, v0, c)\nr = m.value\n', CHANGED + 'n = s.value()\nr = n if changed(n, v0) else v0\n', w)
    go(ctx, 'FuncStreamValueModel', 'Model', 's, loop, v0, x', 'm = FuncStreamValueModel(s, loop, v0)\n__fire__(s.value_stream, x)\nr = m.value\n',
       'c = None\n' + CHANGED + "n = s.value()\nr = n if changed(n, v0) else v0\nn = x()\nr = n if changed(n, r) else r\n", w)


RULES = [setter, default_cmp, on_changed, absent, streams, fed]
