"""Structured models against reference definitions: client code that builds models for written out schemas with symbolic
values and listens to them"""
from ..agree import agree
from ..program import Broken
from ..q import S

OPTS = {'inline_modules': ('Model', 'ListModel', 'Observable'), 'dyn': True, 'alive': True, 'events': True, 'rec': 6, 'budget': 20000}
TYPES = {'f': 'fn', 'g': 'fn', 'h': 'fn', 'sink': 'fn'}


def where(ctx, cls, name):
    try:
        return ctx.method('StructuredModel', cls, name, None)[0] if cls else ctx.prog.funcs.get('StructuredModel.' + name)
    except Broken:
        return None


def calls(e):
    return e.kind == 'call' and e.recv in (S('f'), S('g'), S('h'), S('sink'))


def go(ctx, what, params, pre, impl, ref, w, **kw):
    kw.setdefault('total', True)
    pre = ''.join('assert not isinstance(%s, (RecordModel, ArrayModel))\n' % x for x in params.split(', ') if x and x not in TYPES) + pre
    return agree(ctx, what, 'StructuredModel', params, pre + impl, pre + ref, observe=calls, w=w, argtypes=dict(TYPES, **kw.pop('types', {})), opts=dict(OPTS, **kw.pop('opts', {})), **kw)


SCALARS = ('STRING', 'BOOLEAN', 'INT', 'FLOAT', "'float'", 'define_string()', 'define_boolean()', 'define_int()', 'define_float()')
REC = "s = define_record('R', [define_field('a', STRING, default=d), define_field('b', INT)])\n"
ARR = 's = define_array(STRING)\n'
# a record with a scalar, a record and an array of records, and an array of scalars
DEEP = '''
inner = define_record('I', [define_field('x', INT), define_field('y', STRING)])
s = define_record('R', [define_field('a', STRING), define_field('i', inner), define_field('l', define_array(inner)), define_field('n', define_array(STRING))])
'''
LISTEN = '''
l1 = m.property_changed_event.listen(f)
l2 = m.item_inserted_event.listen(lambda k, v, i: g('inserted', k, v, i))
l3 = m.item_removed_event.listen(lambda k, v, i: g('removed', k, v, i))
l4 = m.model_changed_event.listen(h)
'''


def build(ctx):
    """a model is built for each type of schema with the explicit value, else the default"""
    w = where(ctx, None, 'build_model')
    for sc in SCALARS:
        for k, schema in (('', sc), (' in a dict', "{'type': %s}" % sc)):
            go(ctx, 'build scalar' + k, 'v, d', '', 'm = build_model(%s, value=v, default_value=d)\nr = (m.value, m.field_value)\n' % schema, 'r = (d, d) if v is None else (v, v)\n', w)
            go(ctx, 'build scalar value' + k, 'v', '', 'r = build_value(%s, value=v)\n' % schema, 'r = v\n', where(ctx, None, 'build_value'))
    go(ctx, 'build record', 'd, v, w', REC, "m = build_model(s, value={'a': v, 'b': w})\nr = (m.a, m.b, m.a_model.value, m.b_model.value, m.field_value is m)\n", 'r = (d if v is None else v, w, d if v is None else v, w, True)\n', w)
    go(ctx, 'build record with defaults', 'd', REC, 'm = build_model(s)\nr = (m.a, m.b)\n', 'r = (d, None)\n', w)
    go(ctx, 'build record with a part', 'd, w', REC, "m = build_model(s, value={'b': w})\nr = (m.a, m.b)\n", 'r = (d, w)\n', w)
    go(ctx, 'build record with default values', 'd, u, v, w', REC, "assert u is not None\nassert v is not None\nm = build_model(s, default_value={'a': u, 'b': w}, value={'a': v})\nr = (m.a, m.b)\n", 'assert u is not None\nassert v is not None\nr = (v, w)\n', w)
    go(ctx, 'build record with default values only', 'd, u, w', REC, "assert u is not None\nm = build_model(s, default_value={'a': u, 'b': w})\nr = (m.a, m.b)\n", 'assert u is not None\nr = (u, w)\n', w)
    go(ctx, 'default values are not changed', 'd, v, w', REC + "y = {'b': w}\nz = {'a': v}\n", "m = build_model(s, default_value=y, value=z)\nr = (len(y), len(z), y['b'], z['a'])\n", 'r = (1, 1, w, v)\n', w)
    go(ctx, 'build record value', 'd, v, w', REC, "m = build_value(s, value={'a': v, 'b': w})\nr = (m.a, m.b)\n", 'r = (d if v is None else v, w)\n', where(ctx, None, 'build_value'))
    go(ctx, 'build array', 'v, w', ARR, 'm = build_model(s, value=[v, w])\nr = (len(m.items), m.items[0], m.items[1])\n', 'r = (2, v, w)\n', w)
    go(ctx, 'build array value', 'v, w', ARR, 'm = build_value(s, value=[v, w])\nr = (len(m.items), m.items[0], m.items[1])\n', 'r = (2, v, w)\n', where(ctx, None, 'build_value'))
    go(ctx, 'build array with default', 'v, w', ARR, 'm = build_model(s, default_value=[v, w])\nr = (len(m.items), m.items[0], m.items[1])\n', 'r = (2, v, w)\n', w)
    go(ctx, 'build array, empty over default', 'v, w', ARR, 'm = build_model(s, default_value=[v, w], value=[])\nr = len(m.items)\n', 'r = 0\n', w)
    go(ctx, 'build array, value over default', 'v, w', ARR, 'm = build_model(s, default_value=[v, w], value=[w])\nr = (len(m.items), m.items[0])\n', 'r = (1, w)\n', w)
    go(ctx, 'build array without values', '', ARR, 'r = len(build_model(s).items)\n', 'r = 0\n', w)
    go(ctx, 'build nested', 'a, x, y, z, n', DEEP, "m = build_model(s, value={'a': a, 'i': {'x': x, 'y': y}, 'l': [{'x': y}, {'y': z}], 'n': [n]})\nr = (m.a, m.i.x, m.i.y, len(m.l), m.l[0].x, m.l[0].y, m.l[1].x, m.l[1].y, m.n[0], len(m.n))\n", 'r = (a, x, y, 2, y, None, None, z, n, 1)\n', w)
    go(ctx, 'build nested with defaults', 'x, y, n', "inner = define_record('I', [define_field('x', INT, default=x), define_field('y', STRING)])\ns = define_record('R', [define_field('i', inner, default={'y': y}), define_field('n', define_array(STRING), default=[n])])\n",
       'm = build_model(s)\nr = (m.i.x, m.i.y, len(m.n), m.n[0])\n', 'r = (x, y, 1, n)\n', w)
    go(ctx, 'array of arrays', 'v, w', 's = define_array(define_array(INT))\n', 'm = build_model(s, value=[[v], [], [w, v]])\nr = (len(m.items), len(m.items[0].items), len(m.items[1].items), m.items[2].items[0], m.items[2].items[1])\n', 'r = (3, 1, 0, w, v)\n', w)


def convert(ctx):
    """converting to a dict leaves out absent values, and reading it back reproduces the values"""
    w = where(ctx, 'RecordModel', 'to_dict_value')
    wf = where(ctx, 'RecordModel', 'from_dict_value')
    wa = where(ctx, 'ArrayModel', 'from_dict_value')
    R = "s = define_record('R', [define_field('a', STRING), define_field('b', INT)])\n"
    go(ctx, 'scalar as value', 'v', '', 'r = build_model(INT, value=v).to_dict_value()\n', 'r = v\n', where(ctx, 'FieldPropertyModel', 'to_dict_value'))
    go(ctx, 'scalar from value', 'u, v', '', 'm = build_model(INT, value=u)\nm.from_dict_value(v)\nr = m.value\n', 'r = u if u is not None and v is not None and v == u else v\n', where(ctx, 'FieldPropertyModel', 'from_dict_value'))
    go(ctx, 'record as dict', 'v, w', R, "d = build_model(s, value={'a': v, 'b': w}).to_dict_value()\nr = ('a' in d, d.get('a'), 'b' in d, d.get('b'), len(d))\n", 'r = (v is not None, v, w is not None, w, (v is not None) + (w is not None))\n', w)
    go(ctx, 'record as dict after a change', 'v, w', R, "m = build_model(s, value={'b': w})\nm.a = v\nd = m.to_dict_value()\nr = ('a' in d, d.get('a'), 'b' in d, d.get('b'))\n", 'r = (v is not None, v, w is not None, w)\n', w)
    N = 'assert v is not None\nassert w is not None\n'
    go(ctx, 'record from dict', 'v, w', R + N, "m = build_model(s)\nm.from_dict_value({'a': v, 'b': w})\nr = (m.a, m.b)\n", 'r = (v, w)\n', wf)
    go(ctx, 'record from a part', 'v, w', R + N, "m = build_model(s, value={'a': v})\nm.from_dict_value({'b': w})\nr = (m.a, m.b)\n", 'r = (v, w)\n', wf)
    go(ctx, 'array as list', 'v, w', ARR, 'd = build_model(s, value=[v, w]).to_dict_value()\nr = (len(d), d[0], d[1])\n', 'r = (2, v, w)\n', where(ctx, 'ArrayModel', 'to_dict_value'))
    go(ctx, 'array as list is a copy', 'v, w', ARR, 'm = build_model(s, value=[v])\nd = m.to_dict_value()\nd.append(w)\nr = len(m.items)\n', 'r = 1\n', where(ctx, 'ArrayModel', 'to_dict_value'))
    for old in ('', 'u', 'u, t', 'u, t, u'):
        go(ctx, 'array from list', 'u, t, v, w', ARR + 'm = build_model(s, value=[%s])\n' % old, 'm.from_dict_value([v, w])\nr = (len(m.items), m.items[0] == v, m.items[1] == w)\n', 'r = (2, True, True)\n', wa)
        go(ctx, 'array from empty list', 'u, t', ARR + 'm = build_model(s, value=[%s])\n' % old, 'm.from_dict_value([])\nr = len(m.items)\n', 'r = 0\n', wa)
    with ctx.modelled('time'):      # loops that never end are told
        for old in ('', "'x'", "'x', 'y'", "'y', 'x', 'y', 'z'"):
            for new in ("'y', 'x'", "'x'", '', "'x', 'y', 'z', 'z'"):
                go(ctx, 'array [%s] from [%s]' % (old, new), '', ARR + 'm = build_model(s, value=[%s])\n' % old, 'm.from_dict_value([%s])\nr = tuple(m.items)\n' % new, 'r = tuple([%s])\n' % new, wa)
    AA = 's = define_array(define_array(INT))\nm = build_model(s, value=[[v], [w, v]])\n'
    go(ctx, 'array of arrays as list', 'v, w', AA, 'd = m.to_dict_value()\nr = (len(d), len(d[0]), d[0][0], len(d[1]), d[1][0], d[1][1])\n', 'r = (2, 1, v, 2, w, v)\n', where(ctx, 'ArrayModel', 'to_dict_value'))
    go(ctx, 'array of arrays read back', 'v, w', AA + N, 'k = build_model(s)\nk.from_dict_value(m.to_dict_value())\nr = (len(k.items), len(k.items[0].items), k.items[0].items[0], len(k.items[1].items), k.items[1].items[0], k.items[1].items[1])\n', 'r = (2, 1, v, 2, w, v)\n', wa)
    go(ctx, 'array of arrays from list', 'v, w', AA + N, 'k = m.items[0]\nm.from_dict_value([[w, v]])\nr = (m.items[0] is k, len(m.items), len(k.items), k.items[0] == w, k.items[1])\n', 'r = (True, 1, 2, True, v)\n', wa)
    D = "assert a is not None\nassert x is not None\nassert y is not None\nassert n is not None\n"
    V = "{'a': a, 'i': {'x': x}, 'l': [{'x': y}, {'y': x}], 'n': [n]}"
    LOOK = 'r = (%s.a, %s.i.x, %s.i.y, len(%s.l), %s.l[0].x, %s.l[0].y, %s.l[1].x, %s.l[1].y, len(%s.n), %s.n[0])\n'
    WANT = 'r = (a, x, None, 2, y, None, None, x, 1, n)\n'
    look = lambda q: LOOK.replace('%s', q)
    go(ctx, 'nested as dict', 'a, x, y, n', DEEP + D + 'm = build_model(s, value=%s)\n' % V, "d = m.to_dict_value()\nr = (d['a'], d['i']['x'], len(d['i']), len(d['l']), d['l'][0]['x'], len(d['l'][0]), d['l'][1]['y'], len(d['l'][1]), len(d['n']), d['n'][0])\n", 'r = (a, x, 1, 2, y, 1, x, 1, 1, n)\n', w)
    go(ctx, 'nested read back', 'a, x, y, n', DEEP + D + 'm = build_model(s, value=%s)\n' % V, 'k = build_model(s)\nk.from_dict_value(m.to_dict_value())\n' + look('k'), WANT, wf)
    go(ctx, 'nested built again', 'a, x, y, n', DEEP + D + 'm = build_model(s, value=%s)\n' % V, 'k = build_model(s, value=m.to_dict_value())\n' + look('k'), WANT, wf)
    go(ctx, 'nested copied', 'a, x, y, n', DEEP + D + 'm = build_model(s, value=%s)\n' % V, 'k = build_model(s)\nk.copy_from(m)\n' + look('k'), WANT, where(ctx, 'RecordModel', 'copy_from'))
    go(ctx, 'array copied', 'v, w', ARR + N, 'm = build_model(s, value=[v, w])\nk = build_model(s)\nk.copy_from(m)\nr = (len(k.items), k.items[0], k.items[1])\n', 'r = (2, v, w)\n', where(ctx, 'ArrayModel', 'copy_from'))
    go(ctx, 'deep copy', 'a, x, y, n', DEEP + D + 'm = build_model(s, value=%s)\n' % V, 'k = copy.deepcopy(m)\n' + look('k') + 'r = (r, k is m, k.i is m.i, k.l[0] is m.l[0])\n', WANT + 'r = (r, False, False, False)\n', where(ctx, 'RecordModel', '__deepcopy__'))
    go(ctx, 'deep copy of an array', 'v, w', ARR + N, 'm = build_model(s, value=[v, w])\nk = copy.deepcopy(m)\nk.remove_item(0)\nr = (len(k.items), k.items[0], len(m.items), m.items[0], m.items[1])\n', 'r = (1, w, 2, v, w)\n', where(ctx, 'ArrayModel', '__deepcopy__'))


def fields(ctx):
    """a change of a field is announced once by its record under the name of the field, and by the change event of the record"""
    w = where(ctx, 'RecordModel', '__init__')
    R = "s = define_record('R', [define_field('a', STRING), define_field('b', INT)])\nm = build_model(s, value={'a': u, 'b': t})\n"
    differs = 'if (u is None) != (v is None) or u is not None and not (v == u):\n    '
    for k in ('a', 'b'):
        rr = R if k == 'a' else R.replace("'a': u, 'b': t", "'a': t, 'b': u")
        for via, act in (('attribute', 'm.%s = v\n'), ('field model', 'm.%s_model.value = v\n'), ('dict', "m.from_dict_value({'%s': v})\n")):
            if via == 'dict':
                continue
            go(ctx, 'field set by %s' % via, 'u, t, v, f, g, h', rr + LISTEN, act % k + 'r = (m.%s == v, m.%s is t)\n' % (k, 'b' if k == 'a' else 'a'), differs + "f('%s')\n    h()\nr = (True, True)\n" % k, w)
        go(ctx, 'fields read', 'u, t, v, f, g, h', rr + LISTEN + 'assert u is not None\nassert v is not None\n', "m.from_dict_value({'%s': v})\nr = m.%s == v\n" % (k, k), "if not (v == u):\n    f('%s')\n    h()\nr = True\n" % k, w)
    go(ctx, 'listener looks', 'u, t, v, f, sink', R + "l = m.property_changed_event.listen(lambda n: sink(n, m.a == v))\nassert u is None\nassert v is not None\n", 'm.a = v\n', "sink('a', True)\n", w)
    go(ctx, 'other attributes', 'u, t, v, f, g, h', R + LISTEN, "m.other = v\nr = m.other\n", 'r = v\n', where(ctx, 'RecordModel', '__setattr__'))
    go(ctx, 'unknown attribute', 'u, t', R, 'r = 0\ntry:\n    m.nothing\nexcept AttributeError:\n    r = 1\n', 'r = 1\n', where(ctx, 'RecordModel', '__getattr__'))
    go(ctx, 'closed record', 'u, t, v, f, g, h', R + LISTEN, 'm.close()\nm.a_model.value = v\n', 'r = 0\n', where(ctx, 'RecordModel', 'close'), post=lambda a, b, r: True)


def arrays(ctx):
    """a change of an array is announced once by the array and by the record that contains it under the name of the field, with item and index, and by the change events"""
    w = where(ctx, 'ArrayModel', 'notify_insert_item')
    wr = where(ctx, 'ArrayModel', 'notify_remove_item')
    # the array itself
    A = 's = define_array(INT)\nm = build_model(s, value=[u, t])\n' + LISTEN
    for i in (0, 1, 2):
        items = ['u', 't']
        items.insert(i, 'v')
        go(ctx, 'array, item inserted', 'u, t, v, f, g, h', A, 'm.insert_item(%d, v)\nr = tuple(m.items)\n' % i, "g('inserted', 'items', v, %d)\nh()\nr = (%s)\n" % (i, ', '.join(items)), w)
    go(ctx, 'array, item appended', 'u, t, v, f, g, h', A, 'm.append_item(v)\nr = tuple(m.items)\n', "g('inserted', 'items', v, 2)\nh()\nr = (u, t, v)\n", w)
    for i in (0, 1):
        go(ctx, 'array, item removed', 'u, t, f, g, h', A, 'm.remove_item(%d)\nr = tuple(m.items)\n' % i, "g('removed', 'items', %s, %d)\nh()\nr = (%s,)\n" % ('ut'[i], i, 'tu'[i]), wr)
    for i in (0, 1, 2):
        for j in (0, 1, 2):
            items = ['u', 't']
            items.insert(i, 'v')
            gone = items.pop(j)
            go(ctx, 'array, item inserted and removed', 'u, t, v, f, g, h', A + 'm.insert_item(%d, v)\n' % i, 'm.remove_item(%d)\nr = tuple(m.items)\n' % j, "g('removed', 'items', %s, %d)\nh()\nr = (%s)\n" % (gone, j, ', '.join(items)), wr)
    # in a record
    R = "s = define_record('R', [define_field('p', define_array(STRING)), define_field('q', define_array(STRING))])\nm = build_model(s, value={'p': [u], 'q': [u, t]})\n" + LISTEN
    wi = where(ctx, 'ItemsSequence', 'insert')
    for act, says, left in (('m.q.insert(1, v)', "g('inserted', 'q', v, 1)", 'u, v, t'), ('m.q.insert(0, v)', "g('inserted', 'q', v, 0)", 'v, u, t'), ('m.q_model.insert_item(2, v)', "g('inserted', 'q', v, 2)", 'u, t, v'),
                            ('m.q_model.append_item(v)', "g('inserted', 'q', v, 2)", 'u, t, v'), ('del m.q[0]', "g('removed', 'q', u, 0)", 't'), ('del m.q[1]', "g('removed', 'q', t, 1)", 'u'), ('m.q_model.remove_item(0)', "g('removed', 'q', u, 0)", 't')):
        go(ctx, 'array of a record', 'u, t, v, f, g, h', R, act + '\nr = (tuple(m.q_model.items), len(m.q), m.q[0], len(m.p), m.p[0])\n', says + '\nh()\nr = ((%s,), %d, %s, 1, u)\n' % (left, left.count(',') + 1, left.split(',')[0]), wi if '.insert(' in act else w)
    for act, says, left in (('m.p.insert(1, v)', "g('inserted', 'p', v, 1)", 'u, v'), ('del m.p[0]', "g('removed', 'p', u, 0)", '')):
        go(ctx, 'first array of a record', 'u, t, v, f, g, h', R, act + '\nr = (tuple(m.p_model.items), len(m.q))\n', says + '\nh()\nr = ((%s), 2)\n' % left, wi if '.insert(' in act else w)
    go(ctx, 'array of a record, contained', 'u, t, v', "s = define_record('R', [define_field('q', define_array(STRING))])\nm = build_model(s, value={'q': [u, t]})\n", 'r = v in m.q\n', 'r = v in [u, t]\n', where(ctx, 'ItemsSequence', '__contains__'))
    go(ctx, 'array of a record, assignment refused', 'u, t, v', "s = define_record('R', [define_field('q', define_array(STRING))])\nm = build_model(s, value={'q': [u, t]})\n", 'y = 0\ntry:\n    m.q[0] = v\nexcept IndexError:\n    y = 1\nr = (y, m.q[0])\n', 'r = (1, u)\n', where(ctx, 'ItemsSequence', '__setitem__'))


def nested(ctx):
    """a change of a nested model reaches the change event of every enclosing model, exactly once, for as long as it is part of it"""
    w = where(ctx, 'ArrayModel', 'notify_insert_item')
    wr = where(ctx, 'ArrayModel', 'notify_remove_item')
    IN = "inner = define_record('I', [define_field('x', INT)])\n"
    OUT = IN + "s = define_record('R', [define_field('i', inner), define_field('l', define_array(inner))])\nm = build_model(s, value={'i': {'x': u}, 'l': [{'x': u}, {'x': u}]})\n" + LISTEN + 'assert u is not None\nassert v is not None\nassert not (v == u)\n'
    P = 'u, v, f, g, h'
    go(ctx, 'field of a nested record', P, OUT, 'm.i.x = v\nr = m.i.x\n', 'h()\nr = v\n', where(ctx, 'RecordModel', '__init__'))
    for i in (0, 1):
        go(ctx, 'field of a record in an array', P, OUT, 'm.l[%d].x = v\nr = (m.l[%d].x, m.l[%d].x)\n' % (i, i, 1 - i), 'h()\nr = (v, u)\n', where(ctx, 'ArrayModel', '__init__'))
    new = "y = build_value(inner, value={'x': u})\n"
    for i in (0, 1, 2):
        go(ctx, 'record inserted into an array', P, OUT + new, 'm.l.insert(%d, y)\ny.x = v\n' % i, "g('inserted', 'l', y, %d)\nh()\nh()\n" % i, w)
        for j in (0, 1, 2):
            go(ctx, 'inserted and changed', P, OUT + new + 'm.l.insert(%d, y)\n' % i, 'm.l[%d].x = v\n' % j, 'h()\n', w)
            go(ctx, 'inserted and removed', P, OUT + new + 'm.l.insert(%d, y)\ny = m.l[%d]\ndel m.l[%d]\n' % (i, j, j), 'y.x = v\n', 'pass\n', wr)
            for k in (0, 1):
                go(ctx, 'inserted and removed, left', P, OUT + new + 'm.l.insert(%d, y)\ny = m.l[%d]\ndel m.l[%d]\n' % (i, j, j), 'm.l[%d].x = v\n' % k, 'h()\n', wr)
    for i in (0, 1):
        go(ctx, 'record removed from an array', P, OUT + 'y = m.l[%d]\n' % i, 'del m.l[%d]\ny.x = v\n' % i, "g('removed', 'l', y, %d)\nh()\n" % i, wr)
        go(ctx, 'record left in an array', P, OUT + 'del m.l[%d]\n' % i, 'm.l[0].x = v\n', 'h()\n', wr)
    for i in (0, 1, 2):
        # an array of records may hold absent items
        X = OUT + 'm.l_model.insert_item(%d, w)\n' % i
        for j in (0, 1, 2):
            if j != i:
                go(ctx, 'absent item inserted', P + ', w', X, 'm.l[%d].x = v\n' % j, 'h()\n', w)
                go(ctx, 'absent item inserted, other removed', P + ', w', X + 'y = m.l[%d]\n' % j, 'del m.l[%d]\ny.x = v\n' % j, "g('removed', 'l', y, %d)\nh()\n" % j, wr)
        for j in (0, 1):
            go(ctx, 'absent item removed', P + ', w', X + 'del m.l[%d]\n' % i, 'm.l[%d].x = v\n' % j, 'h()\n', wr)
            go(ctx, 'absent item removed, other removed', P + ', w', X + 'del m.l[%d]\ny = m.l[%d]\n' % (i, j), 'del m.l[%d]\ny.x = v\nm.l[0].x = v\n' % j, "g('removed', 'l', y, %d)\nh()\nh()\n" % j, wr)
    AA = 's = define_array(define_array(INT))\nm = build_model(s, value=[[u], [v]])\n' + LISTEN
    go(ctx, 'array in an array', P, AA, 'm.items[1].insert_item(0, u)\nr = tuple(m.items[1].items)\n', 'h()\nr = (u, v)\n', w)
    for i in (0, 1, 2):
        go(ctx, 'array inserted into an array', P, AA + 'y = build_value(define_array(INT), value=[u])\n', 'm.insert_item(%d, y)\ny.append_item(v)\nr = tuple(y.items)\n' % i, "g('inserted', 'items', y, %d)\nh()\nh()\nr = (u, v)\n" % i, w)
    go(ctx, 'array in an array, removed item', P, AA + 'y = m.items[0]\n', 'm.remove_item(0)\ny.append_item(v)\nm.items[0].remove_item(0)\n', "g('removed', 'items', y, 0)\nh()\nh()\n", wr)
    go(ctx, 'closed array', P, AA, 'm.close()\nm.items[0].append_item(v)\nm.items[1].append_item(v)\n', 'pass\n', where(ctx, 'ArrayModel', 'close'))
    THREE = IN + "mid = define_record('M', [define_field('i', inner), define_field('l', define_array(inner))])\ns = define_record('R', [define_field('m', mid), define_field('k', define_array(mid))])\nm = build_model(s, value={'m': {'i': {'x': u}, 'l': [{'x': u}]}, 'k': [{'i': {'x': u}, 'l': [{'x': u}]}]})\n" + LISTEN + 'assert u is not None\nassert v is not None\nassert not (v == u)\n'
    for path in ('m.m.i', 'm.m.l[0]', 'm.k[0].i', 'm.k[0].l[0]'):
        go(ctx, 'three levels', P, THREE, path + '.x = v\nr = %s.x\n' % path, 'h()\nr = v\n', where(ctx, 'RecordModel', '__init__'))


RULES = [build, convert, fields, arrays, nested]
