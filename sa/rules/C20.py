"""The persistent context: client code with objects in a tree on a fresh context against a reference"""
from .persist import go, where

O, X = 'PersistentObject', 'PersistentObjectContext'
NEW = 'assert u1 != u2\nassert u1 != u3\nassert u2 != u3\nc = PersistentObjectContext()\no = PersistentObject()\no.uuid = u1\np = PersistentObject()\np.uuid = u2\nq = PersistentObject()\nq.uuid = u3\nsink(o, p, q)\n'
TREE = NEW + "p.define_item('i', g)\nq.define_relationship('rel', g)\nq.append_item('rel', p)\np.set_item('i', o)\n"
SUB = 'c.subscribe(u1, lambda y: sink(1, y), lambda y: sink(2, y))\nc.subscribe(u2, lambda y: sink(3, y), lambda y: sink(4, y))\n'
ANN = 'l = c.registration_event.listen(lambda a, b: sink(5, a, b))\n'
LOOK = 'r = (c.get_registered_object(u1), c.get_registered_object(u2), c.get_registered_object(u3))\n'
P = 'u1, u2, u3, g, sink'


def registered(ctx):
    """an object with a context is registered there under its identity, without it is not; announced once each"""
    w = where(ctx, X, 'register')
    go(ctx, 'register', P, NEW, 'o.persistent_object_context = c\n' + LOOK, 'r = (o, None, None)\n', w, total=True)
    go(ctx, 'register two', P, NEW + 'p.persistent_object_context = c\n', 'o.persistent_object_context = c\n' + LOOK, 'r = (o, p, None)\n', w, total=True)
    go(ctx, 'register announced', P, NEW + ANN, 'o.persistent_object_context = c\n', 'sink(5, o, None)\n', w, total=True)
    go(ctx, 'register, listener looks', P, NEW + 'l = c.registration_event.listen(lambda a, b: sink(5, c.get_registered_object(u1)))\n', 'o.persistent_object_context = c\n', 'sink(5, o)\n', w, total=True)
    w = where(ctx, X, 'unregister')
    d = NEW + 'o.persistent_object_context = c\np.persistent_object_context = c\n'
    go(ctx, 'unregister', P, d, 'o.persistent_object_context = None\n' + LOOK, 'r = (None, p, None)\n', w, total=True)
    go(ctx, 'unregister announced', P, d + ANN, 'o.persistent_object_context = None\n', 'sink(5, None, o)\n', w, total=True)
    go(ctx, 'unregister, register again', P, d + 'o.persistent_object_context = None\n', 'o.persistent_object_context = c\n' + LOOK, 'r = (o, p, None)\n', w, total=True)
    d = NEW + 'c2 = PersistentObjectContext()\no.persistent_object_context = c2\no.persistent_object_context = None\no.persistent_object_context = c\n'
    go(ctx, 'another context', P, d, LOOK + 'r = (r, c2.get_registered_object(u1))\n', 'r = ((o, None, None), None)\n', w, total=True)
    d = NEW + 'c2 = PersistentObjectContext()\no.persistent_object_context = c\n'
    go(ctx, 'replacing a context', P, d, 'y = 0\ntry:\n    o.persistent_object_context = c2\nexcept AssertionError:\n    y = 1\n' + LOOK + 'r = (r, c2.get_registered_object(u1), y)\n', 'r = ((o, None, None), None, 1)\n', where(ctx, O, 'persistent_object_context', 'set'))


def subscribers(ctx):
    """a subscriber is told exactly once when its object registers, at once if it is already there, and when it unregisters"""
    w = where(ctx, X, 'subscribe')
    go(ctx, 'subscribe first', P, NEW + SUB, 'o.persistent_object_context = c\n', 'sink(1, o)\n', w, total=True)
    go(ctx, 'subscribe nothing yet', P, NEW, SUB, 'pass\n', w, total=True)
    go(ctx, 'subscribe twice', P, NEW + SUB, SUB + 'o.persistent_object_context = c\n', 'sink(1, o)\nsink(1, o)\n', w, total=True)
    go(ctx, 'subscribe late', P, NEW + 'o.persistent_object_context = c\n', SUB, 'sink(1, o)\n', w, total=True)
    go(ctx, 'subscribe late to none', P, NEW + 'o.persistent_object_context = c\n', 'c.subscribe(u1, None, None)\no.persistent_object_context = None\n', 'pass\n', w, total=True)
    go(ctx, 'subscribe, unregister', P, NEW + SUB + 'o.persistent_object_context = c\n', 'o.persistent_object_context = None\n', 'sink(2, o)\n', w, total=True)
    go(ctx, 'subscribe late, unregister', P, NEW + 'o.persistent_object_context = c\n' + SUB, 'o.persistent_object_context = None\n', 'sink(2, o)\n', w, total=True)
    go(ctx, 'subscribe one way', P, NEW + 'c.subscribe(u1, None, lambda y: sink(2, y))\nc.subscribe(u1, lambda y: sink(1, y), None)\n', 'o.persistent_object_context = c\no.persistent_object_context = None\n', 'sink(1, o)\nsink(2, o)\n', w, total=True)
    go(ctx, 'subscribe, others', P, NEW + SUB + 'o.persistent_object_context = c\n', 'p.persistent_object_context = c\n', 'sink(3, p)\n', w, total=True)
    go(ctx, 'subscriber looks', P, NEW + 'c.subscribe(u1, lambda y: sink(c.get_registered_object(u1)), None)\n', 'o.persistent_object_context = c\n', 'sink(o)\n', w, total=True)


def tree(ctx):
    """giving an object a context registers it and everything below it, taking it away unregisters all; removal clears context and parent"""
    w = where(ctx, O, 'persistent_object_context', 'set')
    has = 'r = (r, o.persistent_object_context is c, p.persistent_object_context is c, q.persistent_object_context is c)\n'
    go(ctx, 'context of a tree', P, TREE, 'q.persistent_object_context = c\n' + LOOK + has, 'r = ((o, p, q), True, True, True)\n', w, total=True)
    go(ctx, 'context of a part', P, TREE, 'p.persistent_object_context = c\n' + LOOK + has, 'r = ((o, p, None), True, True, False)\n', w, total=True)
    go(ctx, 'context of a tree taken away', P, TREE + 'q.persistent_object_context = c\n', 'q.persistent_object_context = None\n' + LOOK + has, 'r = ((None, None, None), False, False, False)\n', w, total=True)
    go(ctx, 'two relationship items', P, NEW + "q.define_relationship('rel', g)\nq.append_item('rel', p)\nq.append_item('rel', o)\n", 'q.persistent_object_context = c\n' + LOOK + has, 'r = ((o, p, q), True, True, True)\n', w, total=True)
    d = NEW + "q.define_relationship('rel', g)\nq.append_item('rel', p)\nq.append_item('rel', o)\n"
    go(ctx, 'removed from the parent', P, d + 'q._set = 0\n', "q.remove_item('rel', o)\nr = (o.persistent_object_parent, o.persistent_object_context, p.persistent_object_parent.parent is q)\n", 'r = (None, None, True)\n', where(ctx, O, 'remove_item'), total=True)
    d += 'c._set_persistent_storage_for_object(q, x)\nq.persistent_object_context = c\n'
    go(ctx, 'removed from the parent in a context', P + ', x', 'assert x is not None\nassert x\n' + d, "q.remove_item('rel', o)\n" + LOOK + "r = (r, o.persistent_object_parent, o.persistent_object_context)\n", "x.remove_item(q, 'rel', 1, o)\nr = ((None, p, q), None, None)\n", where(ctx, O, 'remove_item'), total=True)
    wi = where(ctx, O, 'set_item')
    d = NEW + "q.define_item('i', g)\nq.set_item('i', o)\n"
    out = 'r = (o.persistent_object_parent, o.persistent_object_context)\n'
    go(ctx, 'item replaced', P, d, "q.set_item('i', p)\n" + out + 'r = (r, p.persistent_object_parent.parent is q)\n', 'r = ((None, None), True)\n', wi, total=True)
    go(ctx, 'item cleared', P, d, "q.set_item('i', None)\n" + out, 'r = (None, None)\n', wi, total=True)
    d += 'c._set_persistent_storage_for_object(q, x)\nq.persistent_object_context = c\n'
    go(ctx, 'item replaced in a context', P + ', x', 'assert x is not None\nassert x\n' + d, "q.set_item('i', p)\n" + LOOK + out.replace('r = (', 'r = (r, '), "x.set_item(q, 'i', p)\nr = ((None, None, q), None, None)\n", wi, total=True)
    go(ctx, 'item cleared in a context', P + ', x', 'assert x is not None\nassert x\n' + d, "q.set_item('i', None)\n" + LOOK + out.replace('r = (', 'r = (r, '), "x.set_item(q, 'i', None)\nr = ((None, None, q), None, None)\n", wi, total=True)
    go(ctx, 'item replaced when read', P, NEW + "q.define_item('i', lambda l: p)\nq.set_item('i', o)\nq.persistent_object_context = c\n", "q.read_from_dict({'i': {'k': 2}})\n" + LOOK + out.replace('r = (', 'r = (r, '), "r = ((None, p, q), None, None)\n", where(ctx, O, 'read_from_dict'), total=True)
    go(ctx, 'read into a context', P, NEW + "q.define_relationship('rel', lambda l: p)\nq.define_item('i', lambda l: o)\nq.persistent_object_context = c\n",
       "q.read_from_dict({'rel': [{'k': 1}], 'i': {'k': 2}})\n" + LOOK + has, 'r = ((o, p, q), True, True, True)\n', where(ctx, O, 'read_from_dict'), total=True)


REQ = [('item_inserted', "%s, 'n', 5, y", 'insert_item'), ('item_removed', "%s, 'n', 5, y", 'remove_item'), ('item_set', "%s, 'n', y", 'set_item'), ('property_changed', "%s, 'n', y", 'set_property'),
       ('clear_property', "%s, 'n'", 'clear_property'), ('read_external_data', "%s, 'n'", 'read_external_data'), ('write_external_data', "%s, 'n', y", 'write_external_data'), ('enter_write_delay', '%s', 'enter_write_delay'),
       ('exit_write_delay', '%s', 'exit_write_delay'), ('is_write_delayed', '%s', 'is_write_delayed'), ('rewrite_item', '%s', 'rewrite_item'), ('get_storage_property', "%s, 'n'", 'get_storage_property')]
BACK = ('read_external_data', 'is_write_delayed', 'get_storage_property')


def storage(ctx):
    """every request is sent, once and with its own arguments, to the storage of the object or of its nearest ancestor that has one"""
    X1 = 'assert x is not None\nassert x\nassert z is not None\nassert z\n'
    PS = P + ', x, z, y'
    T = {'z': 'obj'}
    see = ('x', 'z', 'sink')
    one = X1 + TREE + 'c._set_persistent_storage_for_object(q, x)\n'
    two = one + 'c._set_persistent_storage_for_object(p, z)\n'
    for m, a, s in REQ:
        w = where(ctx, X, m)
        for k, (d, n, st) in enumerate(((one, 'q', 'x'), (one, 'o', 'x'), (two, 'o', 'z'), (two, 'q', 'x'))):
            if k and m not in ('property_changed', 'item_set', 'is_write_delayed') and k != 1:
                continue
            ret = 'r = ' if m in BACK else ''
            go(ctx, m, PS, d, ret + 'c.%s(%s)\n' % (m, a % n), ret + '%s.%s(%s)\n' % (st, s, a % n), w, see=see, types=T, total=True)
        if m.startswith('item_'):
            for own in ('', 'c._set_persistent_storage_for_object(i, z)\n'):
                a2 = a.replace('y', 'i') % 'o'
                go(ctx, m + ' of an object' + (' with a storage' if own else ''), PS, one + 'i = PersistentObject()\nsink(i)\n' + own, 'c.%s(%s)\n' % (m, a2), 'x.%s(%s)\n' % (s, a2), w, see=see, types=T, total=True)
    w = where(ctx, X, '_set_persistent_storage_for_object')
    go(ctx, 'storage replaced', PS, one + 'c._set_persistent_storage_for_object(q, z)\n', "c.property_changed(o, 'n', y)\n", "z.set_property(o, 'n', y)\n", w, see=see, types=T, total=True)
    go(ctx, 'storage taken away', PS, two + 'c._set_persistent_storage_for_object(p, None)\n', "c.property_changed(o, 'n', y)\n", "x.set_property(o, 'n', y)\n", w, see=see, types=T, total=True)
    go(ctx, 'no storage', PS, X1 + TREE, 'r = c._get_persistent_storage_for_object(o)\n', 'r = None\n', where(ctx, X, '_get_persistent_storage_for_object'), see=see, types=T, total=True)
    go(ctx, 'storage', PS, two, 'r = (c._get_persistent_storage_for_object(o), c._get_persistent_storage_for_object(p), c._get_persistent_storage_for_object(q))\n', 'r = (z, z, x)\n', where(ctx, X, '_get_persistent_storage_for_object'), see=see, types=T, total=True)
    w = where(ctx, X, 'get_properties')
    go(ctx, 'get_properties', PS, two, 'r = c.get_properties(o)\n', "r = z.get_properties(o) if hasattr(z, 'get_properties') else z.properties\n", w, see=see, types=T, total=True)


RULES = [registered, subscribers, tree, storage]
