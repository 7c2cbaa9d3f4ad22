from .. import q
from .. import terms as T
from ..q import S
from ..terms import NONE
from ..agree import agree
from ..program import Broken

OBJ = dict(dict.fromkeys(('source', 'conv', 'val'), 'obj'), **dict.fromkeys(('t', 'fn', 'f', 's', 'g'), 'fn'))


def where(ctx, cls, name='__init__'):
    try:
        return ctx.method('Binding', cls, name)[0]
    except Broken:
        return None


BACK = '''
x = conv.convert_back(v) if conv is not None else v
'''
BACKV = BACK + '''
x = val.validate(x) if val is not None else x
'''
# kind -> parameters, construction, (reading the value or None), storing x
KINDS = {
    'PropertyBinding': ('source, name, conv, val, fb', 'PropertyBinding(source, name, converter=conv, validator=val, fallback=fb)',
                        'x = getattr(source, name)\n', 'x is not None', BACKV + 'setattr(source, name, x)\n'),
    'PropertyAttributeBinding': ('source, name, attr, conv, fb, fn', 'PropertyAttributeBinding(source, name, attr, converter=conv, fallback=fb, update_attribute_fn=fn)',
                                 'o = getattr(source, name)\nx = getattr(o, attr) if o is not None and hasattr(o, attr) else None\n', 'o is not None and hasattr(o, attr)',
                                 BACK + 'o = getattr(source, name)\nif callable(fn):\n    o = fn(o, attr, x)\nelse:\n    setattr(o, attr, x)\nsetattr(source, name, o)\n'),
    'TuplePropertyBinding': ('source, name, i, conv, fb', 'TuplePropertyBinding(source, name, i, converter=conv, fallback=fb)',
                             'o = getattr(source, name)\nx = o[i] if o is not None and i < len(o) else None\n', 'o is not None and i < len(o)',
                             BACK + 'o = getattr(source, name)\nl = list(o) if o is not None else []\nwhile len(l) <= i:\n    l.append(None)\nl[i] = x\nsetattr(source, name, tuple(l))\n'),
}
CONV = 'conv.convert(x) if conv is not None else x'
IGN = ('listen', 'close', 'convert', 'convert_back', 'validate')


def go(ctx, what, params, impl, ref, w, **kw):
    return agree(ctx, what, 'Binding', params, impl, ref, ignore=IGN, w=w, argtypes=OBJ, **kw)


def hide(x):
    """which tuple is stored is decided by the rule `element`"""
    return ('write', x[1], x[2], NONE) if x[0] == 'write' and x[1] == S('source') else x


def to_source(ctx):
    """a value coming from the target is converted back, validated and stored at the addressed place, once"""
    for cls, (params, make, read, there, store) in KINDS.items():
        go(ctx, '%s.update_source' % cls, params + ', t, v', 'b = %s\nb.target_setter = t\nb.update_source(v)\n' % make, store, where(ctx, cls), edit=hide if cls.startswith('Tuple') else None)
    go(ctx, 'Binding.update_source', 'source, conv, val, fb, s, v', 'b = Binding(source, converter=conv, validator=val, fallback=fb)\nb.source_setter = s\nb.update_source(v)\n',
       'if s is not None:\n    x = conv.convert_back(v) if conv is not None else v\n    x = val.validate(x) if val is not None else x\n    s(x)\n', where(ctx, 'Binding', 'update_source'))


def to_target(ctx):
    """a change of the bound property sends the converted value, or the fallback for an absent one, to the target once; changes of other properties send nothing"""
    for cls, (params, make, read, there, store) in KINDS.items():
        go(ctx, '%s change' % cls, params + ', t, key', 'b = %s\nb.target_setter = t\n__fire__(source.property_changed_event, key)\n' % make,
           'if key == name:\n' + ind(read) + '    y = fb\n    if %s:\n        assert x is not None\n        y = %s\n    if t is not None:\n        t(y)\n' % (there, CONV), where(ctx, cls))
    go(ctx, 'Binding.update_target', 'source, conv, val, fb, t, x', 'b = Binding(source, converter=conv, validator=val, fallback=fb)\nb.target_setter = t\nb.update_target(x)\n',
       'y = %s\nif t is not None:\n    t(y)\n' % CONV, where(ctx, 'Binding', 'update_target'))
    go(ctx, 'Binding.update_target_direct', 'source, conv, val, fb, t, x', 'b = Binding(source, converter=conv, validator=val, fallback=fb)\nb.target_setter = t\nb.update_target_direct(x)\n',
       'if t is not None:\n    t(x)\n', where(ctx, 'Binding', 'update_target_direct'))


def ind(s):
    return ''.join('    ' + l + '\n' for l in s.strip('\n').split('\n'))


def initial(ctx):
    """the value a target starts with is the converted source value, or the fallback for an absent one"""
    for cls, (params, make, read, there, store) in KINDS.items():
        go(ctx, '%s.get_target_value' % cls, params, 'b = %s\nr = b.get_target_value()\n' % make, read + 'r = fb if x is None else (%s)\n' % CONV, where(ctx, cls))
    go(ctx, 'Binding.get_target_value', 'source, conv, val, fb, g', 'b = Binding(source, converter=conv, validator=val, fallback=fb)\nb.source_getter = g\nr = b.get_target_value()\n',
       'x = None\nif g is not None:\n    x = g()\nr = fb if x is None else (%s)\n' % CONV, where(ctx, 'Binding', 'get_target_value'))


def fallback(ctx):
    """the fallback can be changed on the binding and is the one used from then on"""
    for cls, (params, make, read, there, store) in KINDS.items():
        go(ctx, '%s fallback' % cls, params + ', fb2, t, key', 'b = %s\nb.target_setter = t\nb.fallback = fb2\n__fire__(source.property_changed_event, key)\n' % make,
           'if key == name:\n' + ind(read) + '    y = fb2\n    if %s:\n        assert x is not None\n        y = %s\n    if t is not None:\n        t(y)\n' % (there, CONV), where(ctx, cls))


def closed(ctx):
    """after close a binding touches neither source nor target"""
    for cls, (params, make, read, there, store) in KINDS.items():
        go(ctx, '%s after close' % cls, params + ', t, key, v', 'b = %s\nb.target_setter = t\nb.close()\nb.update_source(v)\nb.update_target(v)\n__fire__(source.property_changed_event, key)\n' % make,
           'pass\n', where(ctx, cls, 'close'))


def lists(ctx):
    """a list binding forwards insertions and removals under its own key, once, with item and index unchanged, and nothing after close"""
    p, make = 'source, k, f, t, key, item, n', 'b = ListBinding(source, k)\nb.inserter = f\nb.remover = t\n'
    w = where(ctx, 'ListBinding')
    go(ctx, 'ListBinding insert', p, make + '__fire__(source.item_inserted_event, key, item, n)\n', 'if key == k and f is not None:\n    f(item, n)\n', w)
    go(ctx, 'ListBinding remove', p, make + '__fire__(source.item_removed_event, key, item, n)\n', 'if key == k and t is not None:\n    t(n)\n', w)
    go(ctx, 'ListBinding.items', p, make + 'r = b.items\n', 'r = getattr(source, k)\n', w)
    go(ctx, 'ListBinding after close', p, make + 'b.close()\n__fire__(source.item_inserted_event, key, item, n)\n__fire__(source.item_removed_event, key, item, n)\n', 'pass\n', where(ctx, 'ListBinding', 'close'))


def element(ctx):
    """storing a tuple element keeps all other elements: the stored tuple is a copy of the source tuple (or of an empty one) padded with None at its end only, in which exactly the addressed element is replaced, inside the range"""
    w = where(ctx, 'TuplePropertyBinding')
    ps = ctx.probe('Binding', None, 'def client(source, name, i, v):\n    b = TuplePropertyBinding(source, name, i)\n    b.update_source(v)\n', opts={'pure': True})
    src, i, v = ('fld', S('source'), S('name')), S('i'), S('v')
    what = 'TuplePropertyBinding.update_source element'
    for p in q.rets(ps):
        st = [e for e in p.trace if e.kind == 'setattr' and e.recv == S('source')]
        if len(st) != 1:
            ctx.check(None if any(e.kind == 'setattr' for e in q.flat(p.trace)) else False, what, 'stores %d times' % len(st), w)
            continue
        val = st[0].args[1] if len(st[0].args) > 1 else None
        l = val[1] if val is not None and val[0] == 'copy' else None
        if val is not None and q.base(val) == src and l == src:
            ctx.bad(what, 'the tuple is stored unchanged', st[0])
            continue
        none = q.assumed(p.trace, ('isnone', src))
        empty = none is True or q.assumed(p.trace, ('truthy', src)) is False
        ok_base = l is not None and (q.base(l) == src and l[0] == 'copy' or l[0] == 'new' and p.eng.born.get(l) in ((), []) or l[0] == 'new' and empty)
        if not ok_base:
            ctx.unk(what, 'how the stored tuple is made was not recognised: %s' % T.show(val) if val else '', st[0])
            continue
        if l[0] == 'new':
            ctx.check(empty, what, 'a tuple that is there is replaced by an empty one', st[0])
        sets = []
        k = p.trace.index(st[0])
        for n, e in enumerate(p.trace[:k]):
            if e.kind == 'mut' and e.recv == l:
                sets.append((n, e))
            elif e.kind == 'loop':
                for b in e.extra.paths:
                    for x in q.flat(b.trace):
                        if x.kind == 'mut' and x.recv == l:
                            at_end = x.name == 'insert' and x.args[0][0] == 'len'
                            ctx.check(True if at_end and x.args[1] == NONE else (False if x.name != 'insert' or x.args[1] == v else None), what, 'pads with %s %s' % (x.name, ', '.join(T.show(a) for a in x.args)), x)
        if [e.name for _, e in sets] != ['set']:
            ctx.check(None if len(sets) > 1 else False, what, 'replaces %s' % ([e.name for _, e in sets] or 'nothing'), st[0])
            continue
        n, e = sets[0]
        ctx.check(q.veq(e.args[0], i), what, 'replaces element %s' % T.show(e.args[0]), e)
        ctx.check(q.veq(e.args[1], v), what, 'stores %s' % T.show(e.args[1]), e)
        inside = any(x.kind == 'assume' and x.args[0][0] == 'le' and x.name is False and is_len_minus(x.args[0][1], i) for x in p.trace[:n]) or \
            any(x.kind == 'assume' and x.args[0][0] == 'lt' and x.name is True and is_len_minus(T.neg(x.args[0][1]), i) for x in p.trace[:n])
        pads = [x.extra for x in p.trace[:n] if x.kind == 'loop' and any(y.kind == 'mut' and y.recv == l for b in x.extra.paths for y in b.trace)]
        asked = any(x.desc.base[0] != 'while' for x in pads) or any(x.kind == 'assume' and T.contains(x.args[0], lambda t: t == i) and not plain_len(x.args[0], i) for x in p.trace[:n])
        ctx.check(True if inside else (None if asked else False), what, 'the element that is replaced may lie outside the list', e)


def is_len_minus(d, i):
    p = T.to_poly(d)
    return p is not None and p.get((), 0) == 0 and p.get((i,)) == -1 and len(p) == 2 and all(c == 1 and len(m) == 1 and m[0][0] == 'len' for m, c in p.items() if m != (i,))


def plain_len(a, i):
    if a[0] not in ('lt', 'le') or len(a) != 2:
        return False
    p = T.to_poly(a[1])
    return p is not None and all(m == () or m == (i,) or len(m) == 1 and m[0][0] == 'len' for m in p)


def accessors(ctx):
    """the accessors give what the binding was made with"""
    for n, v in (('source', 'source'), ('converter', 'conv'), ('validator', 'val')):
        go(ctx, 'Binding.%s' % n, 'source, conv, val, fb', 'b = Binding(source, converter=conv, validator=val, fallback=fb)\nr = b.%s\n' % n, 'r = %s\n' % v, where(ctx, 'Binding'))


RULES = [to_source, to_target, initial, fallback, closed, lists, element, accessors]
