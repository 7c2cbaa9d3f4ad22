"""what an object acquired is given back when it is closed: leak analysis of client code over symbolic collaborators"""
from ..program import Broken
from .. import q
from .. import terms as T
from ..q import S, F
from ..agree import raised

TYPES = {'fn': 'fn', 's': 'obj', 'a': 'obj', 'b': 'obj', 'loop': 'obj', 'o': 'obj', 'u': 'obj', 'k': 'str', 'k2': 'str'}
OPTS = {'pure': True, 'events': True}


def where(ctx, mod, cls, name='close', kind=None):
    try:
        return ctx.method(mod, cls, name, kind)[0]
    except Broken:
        return None


def flat(tr, inloop=None):
    for e in tr:
        yield e, inloop
        if e.kind == 'loop':
            for b in e.extra.paths:
                for x in flat(b.trace, e):
                    yield x


def reach(ctx, st, roots):
    """values strongly reachable from the roots in the final state"""
    seen, todo = set(), list(roots)
    by = {}
    for (r, n), v in st.heap.items() if all(len(k) == 2 for k in st.heap) else []:
        by.setdefault(r, []).append(v)
    for (r, k), v in st.dvals.items():
        if st.facts.get(('in', k, r)) is not False:
            by.setdefault(r, []).extend((k, v))
    for r, c in st.content.items():
        by.setdefault(r, []).extend(c)
    while todo:
        t = todo.pop()
        if not isinstance(t, tuple) or t in seen:
            continue
        seen.add(t)
        if t and t[0] == 'weakref':
            todo.extend(t[2:3])
            continue
        todo.extend(by.get(t, ()))
        if t and t[0] == 'closure':
            f = ctx.prog.funcs.get(t[1])
            for n in (q.free_names(f) if f is not None else ()):
                v = q.env_lookup(st, t[2], n)
                if v is not None:
                    todo.append(v)
        elif t and t[0] in ('app', 'idx', 'len', 'indexof', 'truthy'):
            continue
        else:
            todo.extend(x for x in t if isinstance(x, tuple))
    return seen


def part_of(t, of):
    while t is not None:
        if t in of:
            return True
        t = t[1] if t[0] in ('fld', 'bmeth') else None
    return False


def live(p):
    """listeners, tasks and new objects are true values: drop paths that assume otherwise"""
    made = {e.res for e, _ in flat(p.trace) if e.kind == 'call' and e.name in ('listen', 'create_task', 'call_later', 'call_at')}
    for e, _ in flat(p.trace):
        if e.kind == 'assume':
            a = e.args[0]
            if a[0] == 'truthy' and not e.name and a[1] in made or a[0] == 'isnone' and e.name and a[1] in made:
                return False
    return True


def leaks(ctx, what, mod, params, src, w, opts=None, need=1, of=None, argtypes=None):
    """every completed path of the client: what was acquired has been given back.  The client ends with marker `__snap__(9, objects kept)`"""
    ctx.case(what, lambda: leaks_(ctx, what, mod, params, src, w, opts, need, of, argtypes))


def leaks_(ctx, what, mod, params, src, w, opts, need, of, argtypes):
    o = dict(OPTS, **(opts or {}))
    names = {x.strip() for x in params.split(',')}
    body = '\n'.join('    ' + l for l in src.strip('\n').split('\n'))
    ps = ctx.probe(mod, None, 'def client(%s):\n%s\n' % (params, body), opts=o, argtypes={k: v for k, v in dict(TYPES, **(argtypes or {})).items() if k in names} or None)
    n = 0
    for p in ps:
        end = [e for e in p.trace if e.kind == 'snap' and e.name == 9]
        if not end and p.status == 'raise' and live(p) and p.trace and p.trace[-1].extra == 'certain':
            raised(ctx, what, p, w)
        if not end or not live(p):
            continue
        n += 1
        kept = reach(ctx, p.st, end[-1].args)
        flow = list(flat(p.trace))
        closed = {}
        for e, l in flow:
            if e.kind == 'call' and e.name in ('close', 'cancel'):
                closed.setdefault((e.recv, e.name), []).append((e, l))
            elif e.kind == 'ran':
                closed.setdefault((e.recv, 'cancel'), []).append((e, l))
        for e, l in flow:
            if e.kind != 'call' or e.name not in ('listen', 'create_task', 'call_later', 'call_at'):
                continue
            if of is not None and not part_of(e.recv, of):
                continue
            done = 'close' if e.name == 'listen' else 'cancel'
            thing = 'listener on %s' % T.show(e.recv) if e.name == 'listen' else 'task'
            if l is not None:
                ctx.unk(what, 'the %s is made in a loop of unknown length' % thing, e)
                continue
            vague = any(k[1] == done and k[0] is not None and T.lossy(k[0]) or l2 is not None for k, xs in closed.items() for _, l2 in xs)
            if e.name != 'listen' and (e.res, done) not in closed:
                stored = any(x.kind in ('write', 'mut') and e.res in x.args for x, _ in flow)
                ctx.check(True if not stored else (None if vague else False), what, 'the task started and kept here is not cancelled by %s' % what, e)
            elif (e.res, done) in closed:
                ctx.ok(what, e)
            elif e.res not in kept:
                ctx.ok(what, e)
            elif vague:
                ctx.unk(what, 'which listeners are closed', e)
            else:
                ctx.bad(what, 'the %s registered here is still held and not ended after %s' % (thing, what), e)
        bal = {}
        for e, l in flow:
            if e.kind == 'call' and e.name in ('add_ref', 'remove_ref') and not e.args:
                x = bal.setdefault(e.recv, [0, e, False])
                x[0] += 1 if e.name == 'add_ref' else -1
                x[2] = x[2] or l is not None
        for r, (k, e, inl) in bal.items():
            if of is not None and not part_of(r, of):
                continue
            if inl or any(T.lossy(x) for x in bal):
                ctx.unk(what, 'references counted in a loop of unknown length', e)
            else:
                ctx.check(k == 0, what, 'the reference taken on %s is %s after %s' % (T.show(r), 'never given back' if k > 0 else 'given back %d times too often' % -k, what), e)
    if n < need:
        ctx.unk(what, 'no path completes', w)


INL = {'inline_modules': ('ListModel', 'Observable', 'Model')}
END = '__snap__(9, m)\n'


def bindings(ctx):
    """a closed binding holds no listener"""
    for cls, args in (('PropertyBinding', 's, k'), ('PropertyAttributeBinding', 's, k, k2'), ('TuplePropertyBinding', 's, k, i'), ('ListBinding', 's, k')):
        leaks(ctx, cls + '.close', 'Binding', 's, k, k2, i', 'm = %s(%s)\nm.close()\n' % (cls, args) + END, where(ctx, 'Binding', cls))


def streams(ctx):
    """a closed stream holds no listener and no task and has given its references back; following a new source gives up the old one"""
    def go(cls, params, make, *steps, **kw):
        leaks(ctx, cls + '.close', 'Stream', params, 'm = %s\n%sm.close()\n' % (make, ''.join(s + '\n' for s in steps)) + END, where(ctx, 'Stream', cls), **kw)
    go('MapStream', 's, fn', 'MapStream(s, fn)')
    go('MapStream', 's, fn, x', 'MapStream(s, fn)', '__fire__(s.value_stream, x)')
    go('CombineLatestStream', 'a, b, fn', 'CombineLatestStream([a, b], fn)')
    go('CombineLatestStream', 'a, b, fn, x', 'CombineLatestStream([a, b], fn)', '__fire__(b.value_stream, x)')
    f = [ctx.method('Stream', 'DebounceStream', 'debounce_delay')[0].id, ctx.method('Stream', 'SampleStream', 'sample_loop')[0].id]
    for cls in ('DebounceStream', 'SampleStream'):
        go(cls, 's, period, loop', cls + '(s, period, loop)', opts={'opaque': tuple(f)})
        go(cls, 's, period, loop, x', cls + '(s, period, loop)', '__fire__(s.value_stream, x)', opts={'opaque': tuple(f)})
    pc = 'PropertyChangedEventStream'
    go(pc, 'o, k', pc + '(o, k)')
    go(pc, 'o, k', pc + '(o, k)', '__fire__(o.property_changed_event, k)')
    go(pc, 's, k, o', pc + '(s, k)', '__fire__(s.value_stream, o)')
    go(pc, 'k', pc + '(None, k)')
    go(pc, 's, k', pc + '(s, k)', '__fire__(s.value_stream, None)')
    go(pc, 's, k, o, u', pc + '(s, k)', '__fire__(s.value_stream, o)', '__fire__(s.value_stream, u)')
    leaks(ctx, pc + ' change of source', 'Stream', 's, k, o', 'assert s.value\nm = %s(s, k)\n__snap__(8)\n__fire__(s.value_stream, None)\nm.close()\n' % pc + END, where(ctx, 'Stream', pc))
    leaks(ctx, pc + ' change of source', 'Stream', 's, k, o', 'assert s.value\nassert s.value != o\nm = %s(s, k)\n__fire__(s.value_stream, o)\n' % pc + END, where(ctx, 'Stream', pc), of=(F(S('s'), 'value'),))
    cc = 'ConcatStream'
    alive = 'assert fn(s.value)\n'
    for steps in ((), ('__fire__(s.value_stream, x)',), ('__fire__(s.value_stream, x)', '__fire__(s.value_stream, y)'), ('__fire__(fn(s.value).value_stream, x)',)):
        leaks(ctx, cc + '.close', 'Stream', 's, fn, x, y', 'assert fn(s.value)\nassert fn(x)\nassert fn(y)\nassert x != y\nassert x != s.value\nassert y != s.value\nm = %s(s, fn)\n%sm.close()\n' % (cc, ''.join(s + '\n' for s in steps)) + END, where(ctx, 'Stream', cc))


def models(ctx):
    """a closed stream model holds no listener and has given its references back"""
    leaks(ctx, 'StreamValueModel.close', 'Model', 's, x', 'm = StreamValueModel(s)\n__fire__(s.value_stream, x)\nm.close()\n' + END, where(ctx, 'Model', 'StreamValueModel'))
    leaks(ctx, 'FuncStreamValueModel.close', 'Model', 's, loop, x', 'm = FuncStreamValueModel(s, loop)\n__fire__(s.value_stream, x)\nm.close()\n' + END, where(ctx, 'Model', 'FuncStreamValueModel'))


    for steps in ('', '__run__()\n', '__fire__(s.value_stream, x)\n', '__fire__(s.value_stream, x)\n__run__()\n', '__run__()\n__fire__(s.value_stream, x)\n'):
        leaks(ctx, 'FuncStreamValueModel.close', 'Model', 's, loop, x', 'm = FuncStreamValueModel(s, loop)\n%sm.close()\n' % steps + END, where(ctx, 'Model', 'FuncStreamValueModel'), opts={'later': True})
        leaks(ctx, 'DebounceStream.close', 'Stream', 's, p, loop, x', 'm = DebounceStream(s, p, loop)\n%sm.close()\n' % steps + END, where(ctx, 'Stream', 'DebounceStream'), opts={'later': True})
        leaks(ctx, 'DebounceStream.close', 'Stream', 's, p, loop, x', 'm = DebounceStream(s, p, loop)\n%sm.close()\n__run__()\n' % steps + END, where(ctx, 'Stream', 'DebounceStream'), opts={'later': True})
        leaks(ctx, 'SampleStream.close', 'Stream', 's, p, loop, x', 'm = SampleStream(s, p, loop)\n%sm.close()\n' % steps + END, where(ctx, 'Stream', 'SampleStream'), opts={'later': True})
        leaks(ctx, 'SampleStream.close', 'Stream', 's, p, loop, x', 'm = SampleStream(s, p, loop)\n%sm.close()\n__run__()\n' % steps + END, where(ctx, 'Stream', 'SampleStream'), opts={'later': True})


def lists(ctx):
    """a closed derived list holds no listener on container or items; removing an item or replacing the container ends those on the old one"""
    kws = {'FilteredListModel': "container=c, items_key='items'", 'MappedListModel': "container=c, master_items_key='items', items_key='items'",
           'FlattenedListModel': "container=c, master_items_key='items', child_items_key='items', items_key='xs'"}
    at = {x: 'obj' for x in 'abcd'}
    for cls, kw in kws.items():
        pre = 'assert c is not None\nassert d is not None\nc.items = [a]\nd.items = []\na.items = []\nb.items = []\nm = %s(%s)\n' % (cls, kw)
        leaks(ctx, cls + '.close', 'ListModel', 'a, b, c, d', pre + 'm.close()\n' + END, where(ctx, 'ListModel', cls), argtypes=at)
        leaks(ctx, cls + '.container (set)', 'ListModel', 'a, b, c, d', pre + 'm.container = d\n' + END, where(ctx, 'ListModel', cls, 'container', 'set'), of=(S('a'), S('c')), argtypes=at)
        leaks(ctx, cls + ' item removal', 'ListModel', 'a, b, c, d', pre + "c.items = []\n__fire__(c.item_removed_event, 'items', a, 0)\n" + END, where(ctx, 'ListModel', cls), of=(S('a'),), argtypes=at)
        leaks(ctx, cls + '.close', 'ListModel', 'a, b, c, d', 'assert a != b\n' + pre + "c.items = [a, b]\n__fire__(c.item_inserted_event, 'items', b, 1)\nm.close()\n" + END, where(ctx, 'ListModel', cls), argtypes=at)


def records(ctx):
    """a closed record or array model holds no listener on its fields or items; a removed array item is no longer listened to"""
    w = where(ctx, 'StructuredModel', 'RecordModel')
    for t in ("'string'", "{'type': 'record', 'name': 'r', 'fields': []}", "{'type': 'array', 'items': 'string'}"):
        leaks(ctx, 'RecordModel.close', 'StructuredModel', 'v', "m = RecordModel({'type': 'record', 'name': 'x', 'fields': [{'name': 'a', 'type': %s}, {'name': 'b', 'type': 'string'}]})\nm.close()\n" % t + END, w, opts=INL)
    w = where(ctx, 'StructuredModel', 'ArrayModel')
    rec = "{'type': 'record', 'name': 'r', 'fields': []}"
    mk = "m = ArrayModel({'type': 'array', 'items': %s}, values=[{}, {}])\n" % rec
    leaks(ctx, 'ArrayModel.close', 'StructuredModel', 'v', mk + 'm.close()\n' + END, w, opts=INL)
    leaks(ctx, 'ArrayModel.close', 'StructuredModel', 'v', mk + "m.insert_item(1, RecordModel(%s))\nm.close()\n" % rec + END, w, opts=INL)
    leaks(ctx, 'ArrayModel item removal', 'StructuredModel', 'v', mk + "m.remove_item(1)\nm.remove_item(0)\n" + END, w, opts=INL)


def recorders(ctx):
    """a closed recorder holds no listener on the recorded object or anything below it; an item that leaves is no longer listened to"""
    w = where(ctx, 'Recorder', 'Recorder')
    no = "for x in (o, a, b):\n    pass\na.item_names = []\na.relationship_names = []\nb.item_names = []\nb.relationship_names = []\nd.item_names = []\nd.relationship_names = []\n"
    mk = no + "o.item_names = ['it']\no.relationship_names = ['rs']\no.it = a\no.rs = [b, d]\nassert a\nm = Recorder(o)\n"
    at = {'a': 'obj', 'b': 'obj', 'o': 'obj', 'd': 'obj'}
    leaks(ctx, 'Recorder.close', 'Recorder', 'o, a, b, d', mk + 'm.close()\n' + END, w, argtypes=at)
    leaks(ctx, 'Recorder item removal', 'Recorder', 'o, a, b, d', mk + "o.rs = [d]\n__fire__(o.item_removed_event, 'rs', b, 0)\n" + END, w, argtypes=at, of=(S('b'),))
    leaks(ctx, 'Recorder item cleared', 'Recorder', 'o, a, b, d', mk + "o.it = None\n__fire__(o.item_cleared_event, 'it')\n" + END, w, argtypes=at, of=(S('a'),))


RULES = [bindings, streams, models, lists, records, recorders]
