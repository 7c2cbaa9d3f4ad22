"""Changes of a persistent object are written through: client code over a symbolic persistent context against a reference"""
from .persist import go, where

O = 'PersistentObject'
NEW = 'assert x is not None\nassert x\no = PersistentObject()\np = PersistentObject()\nq = PersistentObject()\nsink(o, p, q)\n'
CTX = 'o.persistent_object_context = x\n'
# o is an item of p, p belongs to a relationship of q
TREE = NEW + "p.define_item('i', g)\nq.define_relationship('rel', g)\nq.append_item('rel', p)\np.set_item('i', o)\n"
COUNT = 'a = (o.modified_count, p.modified_count, q.modified_count, o.modified_state, p.modified_state, q.modified_state)\n'
DELTA = 'r = (o.modified_count - a[0], p.modified_count - a[1], q.modified_count - a[2], o.modified_state - a[3], p.modified_state - a[4], q.modified_state - a[5])\n'
STAMP = 'r = (r, o.modified == p.modified, p.modified == q.modified)\n'
VIA = {'attribute': "o.p = w\n", '_set_persistent_property_value': "o._set_persistent_property_value('p', w)\n"}


def prop(ctx):
    """setting a property stores the value and tells the context exactly once with the object, the storage key and the stored value; without a stored value the property is cleared under its key"""
    for via, act in VIA.items():
        w = where(ctx, O, '__setattr__' if via == 'attribute' else via)
        for key, k in (('', 'p'), (", key='pk'", 'pk')):
            d = NEW + "o.define_property('p', v%s)\n" % key + CTX
            go(ctx, 'property by %s' % via, 'x, v, w, sink', d, act + 'r = o.p\n', "if w is None:\n    x.clear_property(o, '%s')\nelse:\n    x.property_changed(o, '%s', w)\nr = w\n" % (k, k), w, total=True)
            d = NEW + "o.define_property('p', v, converter=conv%s)\n" % key + CTX + 'assert conv is not None\nassert conv\n'
            go(ctx, 'converted property by %s' % via, 'x, v, w, conv, sink', d, act + 'r = o.p\n',
               "if conv.convert(w) is None:\n    x.clear_property(o, '%s')\nelse:\n    x.property_changed(o, '%s', conv.convert(w))\nr = w\n" % (k, k), w, total=True)
            d = NEW + "o.define_property('p', v, validate=f%s)\n" % key + CTX + 'assert f is not None\nassert f\n'
            go(ctx, 'validated property by %s' % via, 'x, v, w, f, sink', d, act + 'r = o.p\n', "y = f(w)\nif y is None:\n    x.clear_property(o, '%s')\nelse:\n    x.property_changed(o, '%s', y)\nr = y\n" % (k, k), w, see=('x', 'sink'), total=True)
            d = NEW + "o.define_property('p', v, copy_on_read=True%s)\n" % key + CTX
            go(ctx, 'copied property by %s' % via, 'x, v, w, sink', d, act + 'r = o.p\n', "if w is None:\n    x.clear_property(o, '%s')\nelse:\n    x.property_changed(o, '%s', w)\nr = w\n" % (k, k), w, total=True)
            d = NEW + "o.define_property('p', v, make=g%s)\n" % key + CTX + 'assert g is not None\nassert g\nassert w is None or w.write_dict() is not None\n'
            go(ctx, 'made property by %s' % via, 'x, v, w, g, sink', d, act + 'r = o.p\n', "if w is None:\n    x.clear_property(o, '%s')\nelse:\n    x.property_changed(o, '%s', w.write_dict())\nr = w\n" % (k, k), w, total=True)
        d = NEW + "o.define_property('p', v)\n"
        go(ctx, 'property without context by %s' % via, 'x, v, w, sink', d, act + 'r = o.p\n', 'r = w\n', w, total=True)
        d = NEW + "o.define_property('p', v)\n" + CTX + 'o.persistent_object_context = None\n'
        go(ctx, 'property after the context is gone by %s' % via, 'x, v, w, sink', d, act + 'r = o.p\n', 'r = w\n', w, total=True)
        d = NEW + "o.define_property('p', v, key='pk', changed=f)\nassert f is not None\nassert f\n"
        go(ctx, 'change callback by %s' % via, 'x, v, w, f, sink', d, act + 'r = o.p\n', "f('p', w)\nr = w\n", w, total=True)
        d = NEW + "o.define_property('p', v)\no.define_property('p2', v2, key='k2')\n" + CTX
        go(ctx, 'other property by %s' % via, 'x, v, v2, w, sink', d, act + 'r = (o.p, o.p2)\n', "if w is None:\n    x.clear_property(o, 'p')\nelse:\n    x.property_changed(o, 'p', w)\nr = (w, v2)\n", w, total=True)


def written(ctx):
    """a property with its own writer tells the context each key it writes, and clears its key when it writes none"""
    w = where(ctx, O, '_update_persistent_object_context_property')
    d = NEW + "def wr(pr, d, value):\n    d['k1'] = f(value)\n    d['k2'] = value\no.define_property('p', v, key='pk', writer=wr)\n" + CTX
    go(ctx, 'written property', 'x, v, w, f, sink', d, 'o.p = w\n', "x.property_changed(o, 'k1', f(w))\nx.property_changed(o, 'k2', w)\n", w, see=('x', 'sink'), total=True)
    d = NEW + "def wr(pr, d, value):\n    pass\no.define_property('p', v, key='pk', writer=wr)\n" + CTX
    go(ctx, 'written property, nothing', 'x, v, w, sink', d, 'o.p = w\n', "x.clear_property(o, 'pk')\n", w, total=True)
    w = where(ctx, O, '_update_persistent_property')
    go(ctx, 'custom property', 'x, k, w, sink', NEW + CTX, 'o._update_persistent_property(k, w)\n', 'x.property_changed(o, k, w)\n', w, total=True)
    go(ctx, 'custom property without context', 'x, k, w, sink', NEW, 'o._update_persistent_property(k, w)\n', 'pass\n', w, total=True)


def modified(ctx):
    """a change marks the object and all its parents modified, once, with one time"""
    for via, act in list(VIA.items()) + [('_update_persistent_property', "o._update_persistent_property('p', w)\n"), ('set_item', "o.set_item('i', None)\n"), ('insert_item', "o.insert_item('r', 0, PersistentObject())\n"), ('remove_item', "o.remove_item('r', y)\n")]:
        w = where(ctx, O, '__setattr__' if via == 'attribute' else via)
        d = TREE + "o.define_property('p', v)\no.define_item('i', g)\no.define_relationship('r', g)\ny = PersistentObject()\no.append_item('r', y)\n"
        go(ctx, 'modified by %s' % via, 'x, v, w, g, sink', d, COUNT + act + DELTA + STAMP, 'r = ((1, 1, 1, 1, 1, 1), True, True)\n', w, see=('sink',), total=True)


def readonly(ctx):
    """a read-only property refuses assignment without any change; hidden ones are not reached by assignment"""
    w = where(ctx, O, '__setattr__')
    d = NEW + "o.define_property('p', v, read_only=True, changed=f)\n" + CTX + COUNT
    go(ctx, 'read-only', 'x, v, w, f, sink', d, "y = 0\ntry:\n    o.p = w\nexcept AttributeError:\n    y = 1\n" + DELTA + 'r = (r, y, o.p)\n', 'r = ((0, 0, 0, 0, 0, 0), 1, v)\n', w)
    d = NEW + "o.define_property('p', v, hidden=True)\n" + CTX
    go(ctx, 'hidden', 'x, v, w, sink', d, "o.p = w\nr = (o._get_persistent_property_value('p'), o.p)\n", 'r = (v, w)\n', w)


def item(ctx):
    """setting an item stores it, makes the object its parent and tells the context exactly once, before the change callback"""
    w = where(ctx, O, 'set_item')
    d = NEW + "o.define_item('i', g, f)\nassert f is not None\nassert f\n" + CTX
    look = "r = (o.get_item('i') is p, p.persistent_object_parent.parent is o, p.persistent_object_parent.item_name, p.persistent_object_parent.relationship_name)\n"
    go(ctx, 'set_item', 'x, g, f, sink', d, "o.set_item('i', p)\n" + look, "x.item_set(o, 'i', p)\nf('i', None, p)\nr = (True, True, 'i', None)\n", w, total=True)
    go(ctx, 'set_item replaced', 'x, g, f, sink', d + "o.set_item('i', q)\n", "o.set_item('i', p)\n" + look, "x.item_set(o, 'i', p)\nf('i', q, p)\nr = (True, True, 'i', None)\n", w, total=True)
    go(ctx, 'set_item cleared', 'x, g, f, sink', d + "o.set_item('i', q)\n", "o.set_item('i', None)\nr = o.get_item('i')\n", "x.item_set(o, 'i', None)\nf('i', q, None)\nr = None\n", w, total=True)
    d = NEW + "o.define_item('i', g, f)\nassert f is not None\nassert f\n"
    go(ctx, 'set_item without context', 'x, g, f, sink', d, "o.set_item('i', p)\n" + look, "f('i', None, p)\nr = (True, True, 'i', None)\n", w, total=True)
    d = NEW + "o.define_item('i', g, lambda n, a, b: sink(o.get_item('i') is b, b.persistent_object_parent.parent is o))\n" + CTX
    go(ctx, 'set_item, callback looks', 'x, g, sink', d, "o.set_item('i', p)\n", "x.item_set(o, 'i', p)\nsink(True, True)\n", w, total=True)


def relationship(ctx):
    """inserting and removing relationship items changes the list, marks the parent and tells the context exactly once with the index; insertions before the change callback"""
    w = where(ctx, O, 'insert_item')
    rel = "o.define_relationship('r', g, f, fr)\nassert f is not None\nassert f\nassert fr is not None\nassert fr\n"
    P = 'x, g, f, fr, sink'
    see = ('x', 'sink', 'f', 'fr')
    T = {'fr': 'fn'}
    look = "r = (r, p.persistent_object_parent.parent is o, p.persistent_object_parent.item_name, p.persistent_object_parent.relationship_name)\n"
    for k, c in (('', CTX), (' without context', '')):
        says = lambda s: s if c else ''
        go(ctx, 'insert_item' + k, P, NEW + rel + c, "o.insert_item('r', 0, p)\nr = (len(o.r), o.r[0] is p)\n" + look, says("x.item_inserted(o, 'r', 0, p)\n") + "f('r', 0, p)\nr = ((1, True), True, None, 'r')\n", w, see=see, types=T, total=True)
        go(ctx, 'insert_item first' + k, P, NEW + rel + c + "o.append_item('r', q)\n", "o.insert_item('r', 0, p)\nr = (len(o.r), o.r[0] is p, o.r[1] is q)\n" + look, says("x.item_inserted(o, 'r', 0, p)\n") + "f('r', 0, p)\nr = ((2, True, True), True, None, 'r')\n", w, see=see, types=T, total=True)
        go(ctx, 'append_item' + k, P, NEW + rel + c + "o.append_item('r', q)\n", "o.append_item('r', p)\nr = (len(o.r), o.r[1] is p, o.r[0] is q)\n" + look, says("x.item_inserted(o, 'r', 1, p)\n") + "f('r', 1, p)\nr = ((2, True, True), True, None, 'r')\n", where(ctx, O, 'append_item'), see=see, types=T, total=True)
        go(ctx, 'extend_items' + k, P, NEW + rel + c, "o.extend_items('r', [p, q])\nr = (len(o.r), o.r[0] is p, o.r[1] is q)\n" + look, says("x.item_inserted(o, 'r', 0, p)\n") + "f('r', 0, p)\n" + says("x.item_inserted(o, 'r', 1, q)\n") + "f('r', 1, q)\nr = ((2, True, True), True, None, 'r')\n", where(ctx, O, 'extend_items'), see=see, types=T, total=True)
        wr = where(ctx, O, 'remove_item')
        for i, n in ((0, 'p'), (1, 'q')):
            # the order of removal callback and context is not fixed: each is looked at alone
            d = NEW + rel + c + "o.append_item('r', p)\no.append_item('r', q)\n"
            act = "o.remove_item('r', %s)\nr = (len(o.r), o.r[0] is %s, %s.persistent_object_parent, %s.persistent_object_context)\n" % (n, 'q' if n == 'p' else 'p', n, n)
            go(ctx, 'remove_item' + k, P, d, act, says("x.item_removed(o, 'r', %d, %s)\n" % (i, n)) + 'r = (1, True, None, None)\n', wr, see=('x', 'sink'), skip=('unregister',), types=T, total=True)
            go(ctx, 'remove_item callback' + k, P, d, act, "fr('r', %d, %s)\nr = (1, True, None, None)\n" % (i, n), wr, see=('sink', 'fr'), types=T, total=True)
    d = NEW + "o.define_relationship('r', g, lambda n, i, y: sink(o.r[i] is y, y.persistent_object_parent.parent is o))\n" + CTX
    go(ctx, 'insert_item, callback looks', 'x, g, sink', d, "o.insert_item('r', 0, p)\n", "x.item_inserted(o, 'r', 0, p)\nsink(True, True)\n", w, total=True)
    d = NEW + rel + "o.append_item('r', p)\no.append_item('r', q)\n"
    go(ctx, 'item_index', P, d, "r = (o.item_index('r', p), o.item_index('r', q), o.item_count('r'))\n", 'r = (0, 1, 2)\n', where(ctx, O, 'item_index'), see=('sink',), types=T, total=True)
    go(ctx, 'relationship is given as a copy', P, d, "o.r.clear()\nr = o.item_count('r')\n", 'r = 2\n', where(ctx, O, '__getattr__'), see=('sink',), types=T, total=True)


def copies(ctx):
    """a value is copied before it is stored and before it is handed to the context, unless it is validated"""
    w = where(ctx, 'PersistentProperty', 'set_value')
    d = NEW + "o.define_property('p', None)\n"
    go(ctx, 'stored value', 'x, u, sink', d, "w = [u]\no.p = w\nw.append(5)\nr = len(o.p)\n", 'r = 1\n', w, see=('sink',), total=True)
    d = NEW + "o.define_property('p', None, copy_on_read=True)\n"
    go(ctx, 'value read', 'x, u, sink', d, "o.p = [u]\no.p.append(5)\nr = len(o.p)\n", 'r = 1\n', w, see=('sink',), total=True)
    d = NEW + "o.define_property('p', None)\n"
    go(ctx, 'value written', 'x, u, sink', d, "o.p = [u]\ny = o.write_to_dict()\no.p.append(5)\nr = len(y['p'])\n", 'r = 1\n', w, see=('sink',), total=True)


RULES = [prop, written, modified, readonly, item, relationship, copies]
