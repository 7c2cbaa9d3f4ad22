"""What a persistent object writes is what it reads back: client code that writes one object and reads it into another of the
same definition, against the values it was given"""
from .persist import go, where

O = 'PersistentObject'
NEW = '''
def child():
    c = PersistentObject()
    c.define_property('cp', None, key='ck')
    return c
'''
TWO = NEW + 'o = make()\nn = make()\n'
COPY = 'd = o.write_to_dict()\nn.read_from_dict(d)\n'


def mk(body):
    return 'def make():\n    o = PersistentObject()\n' + ''.join('    %s\n' % l for l in body.split('\n') if l) + '    return o\n'


def prop(ctx):
    """a property is written under its storage key and read back from it, conversions inverse; absent values are left out when written and unchanged when read"""
    w = where(ctx, 'PersistentProperty', 'read_from_dict')
    ww = where(ctx, 'PersistentProperty', 'write_to_dict')
    for key, k in (('', 'p'), (", key='pk'", 'pk')):
        d = mk("o.define_property('p', u%s)" % key) + TWO
        go(ctx, 'property', 'u, v', d, 'o.p = v\n' + COPY + 'r = n.p\n', 'r = u if v is None else v\n', w, total=True)
        go(ctx, 'property written', 'u, v', d, "o.p = v\nd = o.write_to_dict()\nr = ('%s' in d, d.get('%s'))\n" % (k, k), 'r = (v is not None, v)\n', ww, total=True)
        go(ctx, 'property read', 'u, v', d, "n.read_from_dict({'%s': v})\nr = n.p\n" % k, 'r = v\n', w, total=True)
        go(ctx, 'property not there', 'u, v', d, "n.read_from_dict({'other': v})\nr = n.p\n", 'r = u\n', w, total=True)
        d = 'assert conv\nassert conv is not None\n' + mk("o.define_property('p', None, converter=conv%s)" % key) + TWO
        go(ctx, 'converted property', 'conv, v', d, 'o.p = v\n' + COPY + 'r = n.p\n', 'r = None if conv.convert(v) is None else conv.convert_back(conv.convert(v))\n', w, total=True, see=('sink',))
        go(ctx, 'converted property written', 'conv, v', d, "o.p = v\nd = o.write_to_dict()\nr = ('%s' in d, d.get('%s'))\n" % (k, k), 'r = (conv.convert(v) is not None, conv.convert(v))\n', ww, total=True, see=('sink',))
        d = 'assert f\nassert f is not None\n' + mk("o.define_property('p', None, validate=f%s)" % key) + TWO
        go(ctx, 'validated property', 'f, v', d, "n.read_from_dict({'%s': v})\nr = n.p\n" % k, 'r = f(v)\n', w, total=True, see=('sink',))
        d = 'assert g\nassert g is not None\nassert v is None or v.write_dict() is not None\n' + mk("o.define_property('p', None, make=g%s)" % key) + TWO
        go(ctx, 'made property written', 'g, v', d, "o.p = v\nd = o.write_to_dict()\nr = ('%s' in d, d.get('%s'))\n" % (k, k), 'r = (False, None) if v is None else (True, v.write_dict())\n', ww, total=True, see=('sink',))
        go(ctx, 'made property read', 'v, y', mk("o.define_property('p', None, make=made%s)" % key) + 'def made():\n    return y\nassert y is not None\n' + TWO,
           "n.read_from_dict({'%s': v})\nr = n.p\n" % k, 'y.read_dict(v)\nr = y\n', w, total=True, see=('y',))
        go(ctx, 'made property read back', 'v', 'class Made:\n    def __init__(self):\n        self.v = None\n    def read_dict(self, d):\n        self.v = d\n    def write_dict(self):\n        return self.v\nassert v is not None\n' + mk("o.define_property('p', None, make=Made%s)" % key) + TWO,
           "m = Made()\nm.v = v\no.p = m\n" + COPY + 'r = n.p.v\n', 'r = v\n', w, total=True)
        d = mk("o.define_property('p', None, reader=rd, writer=wr%s)" % key) + 'def wr(p, d, v):\n    d["zz"] = (v, p.key)\ndef rd(p, d):\n    return d["zz"]\n' + TWO
        go(ctx, 'property with reader and writer', 'v', d, 'o.p = v\n' + COPY + 'r = (n.p, len(d))\n', "r = ((v, '%s'), 2)\n" % k, w, total=True)
        d = mk("o.define_property('p', u, hidden=True%s)" % key) + TWO
        go(ctx, 'hidden property', 'u, v', d, "o._set_persistent_property_value('p', v)\n" + COPY + "r = n._get_persistent_property_value('p')\n", 'r = u if v is None else v\n', w, total=True)
        d = mk("o.define_property('p', u, read_only=True%s)" % key) + TWO
        go(ctx, 'read-only property', 'u, v', d, "o._set_persistent_property_value('p', v)\n" + COPY + "r = n.p\n", 'r = u if v is None else v\n', w, total=True)
        d = mk("o.define_property('p', u, copy_on_read=True%s)" % key) + TWO
        go(ctx, 'property copied on read', 'u, v', d, 'o.p = v\n' + COPY + 'r = n.p\n', 'r = u if v is None else v\n', w, total=True)
    d = mk("o.define_property('p', None, key='q')\no.define_property('q', None, key='p')") + TWO
    go(ctx, 'two properties', 'v, u', d, 'assert u is not None\nassert v is not None\no.p = v\no.q = u\n' + COPY + "r = (n.p, n.q, d['p'], d['q'])\n", 'assert u is not None\nassert v is not None\nr = (v, u, u, v)\n', w, total=True)


def identity(ctx):
    """identity and type are written and the identity is read back"""
    w = where(ctx, O, 'write_to_dict')
    d = mk('o.define_type("t")') + TWO
    go(ctx, 'identity', 'u', d, 'o.uuid = u\n' + COPY + "r = (n.uuid, d['type'])\n", "r = (uuid.UUID(str(u)), 't')\n", w, total=True)
    go(ctx, 'identity kept', 'u, v', d, "n.uuid = u\nn.read_from_dict({'other': v})\nr = n.uuid\n", 'r = u\n', where(ctx, O, 'read_from_dict'), total=True)
    go(ctx, 'no type', '', mk('pass') + TWO, "r = 'type' in o.write_to_dict()\n", 'r = False\n', w, total=True)


def item(ctx):
    """an item is written where it is read; the one read is made by its factory and becomes part of the object; an absent one is left out and unchanged"""
    w = where(ctx, O, 'read_from_dict')
    d = mk("o.define_item('i', lambda l: child())\no.define_item('j', lambda l: child(), hidden=True)") + TWO + 'c = child()\nassert v is not None\n'
    act = "o.set_item('i', c)\nc.cp = v\n"
    go(ctx, 'item', 'v, u', d, act + 'c.uuid = u\n' + COPY + "y = n.get_item('i')\nr = (y.cp, y.uuid, y.persistent_object_parent.parent is n, y.persistent_object_parent.item_name, n.get_item('j'))\n", "r = (v, uuid.UUID(str(u)), True, 'i', None)\n", w, total=True)
    go(ctx, 'hidden item', 'v', d, "o.set_item('j', c)\nc.cp = v\n" + COPY + "r = (n.get_item('j').cp, n.get_item('i'))\n", 'r = (v, None)\n', w, total=True)
    go(ctx, 'no item', 'v', d, act + "o.set_item('i', None)\nd = o.write_to_dict()\nr = 'i' in d\n", 'r = False\n', where(ctx, O, 'write_to_dict'), total=True)
    go(ctx, 'item not there', 'v', d, "n.set_item('i', c)\nn.read_from_dict({'uuid': v})\nr = n.get_item('i') is c\n", 'r = True\n', w, total=True)
    d = "def fac(l):\n    sink(l('ck'), l('none'), l('none', v), l('ck', v))\n    return child()\n" + mk("o.define_item('i', fac, f)") + TWO + 'assert v is not None\nassert f\nassert f is not None\n'
    go(ctx, 'item factory', 'u, v, f, sink', d, "n.read_from_dict({'i': {'ck': u}})\nr = n.get_item('i').cp\nsink(n.get_item('i'))\n", "sink(u, None, v, u)\nc = child()\nf('i', None, c)\nsink(c)\nr = u\n", w, total=True)


def relationship(ctx):
    """relationship items are written under the storage key and read back in the same order, as parts of the object"""
    w = where(ctx, O, 'read_from_dict')
    for key, k in (('', 'r'), (", key='rk'", 'rk')):
        d = mk("o.define_relationship('r', lambda l: child()%s)" % key) + TWO + 'c = child()\ne = child()\nassert v is not None\nassert u is not None\n'
        act = "o.append_item('r', c)\no.append_item('r', e)\nc.cp = v\ne.cp = u\n"
        go(ctx, 'relationship', 'u, v', d, act + COPY + "r = (len(n.r), n.r[0].cp, n.r[1].cp, n.r[1].persistent_object_parent.parent is n, n.r[1].persistent_object_parent.relationship_name)\n", "r = (2, v, u, True, 'r')\n", w, total=True)
        go(ctx, 'relationship written', 'u, v', d, act + "d = o.write_to_dict()\nr = (len(d['%s']), d['%s'][0]['ck'], d['%s'][1]['ck'])\n" % (k, k, k), 'r = (2, v, u)\n', where(ctx, O, 'write_to_dict'), total=True)
        go(ctx, 'relationship empty', 'u, v', d, COPY + 'r = len(n.r)\n', 'r = 0\n', w, total=True)
        go(ctx, 'relationship not there', 'u, v', d, "n.append_item('r', c)\nn.read_from_dict({'uuid': v})\nr = (len(n.r), n.r[0] is c)\n", 'r = (1, True)\n', w, total=True)
        f = "def fac(l):\n    sink(l('ck'), l('none'), l('none', v), l('ck', v))\n    return child()\n" + mk("o.define_relationship('r', fac, f%s)" % key) + TWO + 'assert v is not None\nassert f\nassert f is not None\n'
        go(ctx, 'relationship factory', 'u, v, f, sink', f, "n.read_from_dict({'%s': [{'ck': u}, {'ck': v}]})\nr = (n.r[0].cp, n.r[1].cp)\nsink(n.r[0], n.r[1])\n" % k,
           "c = child()\ne = child()\nsink(u, None, v, u)\nf('r', 0, c)\nsink(v, None, v, v)\nf('r', 1, e)\nsink(c, e)\nr = (u, v)\n", w, total=True)
        for x, y, z in ('uvu', 'uuv', 'vuu', 'uuu'):
            go(ctx, 'relationship of equal items', 'u, v', d + 'assert not (u == v)\nassert not (v == u)\n', "n.read_from_dict({'%s': [{'ck': %s}, {'ck': %s}, {'ck': %s}]})\nr = (len(n.r), n.r[0].cp, n.r[1].cp, n.r[2].cp)\n" % (k, x, y, z), 'r = (3, %s, %s, %s)\n' % (x, y, z), w, total=True)
        go(ctx, 'relationship written while it is read', 'u, v', d, "n.begin_reading()\nn.read_from_dict({'%s': [{'ck': u}, {'ck': v}]})\nd = n.write_to_dict()\nr = (len(d['%s']), d['%s'][0]['ck'], d['%s'][1]['ck'])\n" % (k, k, k, k), 'r = (2, u, v)\n', where(ctx, O, 'write_to_dict'), total=True)
        go(ctx, 'relationship read in addition', 'u, v', d, "n.append_item('r', c)\nc.cp = v\nn.read_from_dict({'%s': [{'ck': u}]})\nr = (len(n.r), n.r[0] is c, n.r[1].cp)\n" % k, 'r = (2, True, u)\n', w, total=True)
    d = mk("o.define_relationship('r', lambda l: make2(), key='rk')") + 'def make2():\n    o = PersistentObject()\n    o.define_relationship("s", lambda l: child(), key="sk")\n    o.define_item("t", lambda l: child())\n    return o\n' + TWO + 'assert v is not None\nassert u is not None\n'
    go(ctx, 'nested', 'u, v', d, "m = make2()\no.append_item('r', m)\nc = child()\nc.cp = v\ne = child()\ne.cp = u\nm.append_item('s', c)\nm.set_item('t', e)\n" + COPY + 'r = (len(n.r), len(n.r[0].s), n.r[0].s[0].cp, n.r[0].t.cp)\n', 'r = (1, 1, v, u)\n', w, total=True)


def reading(ctx):
    """reading marks the objects being read until it is finished"""
    w = where(ctx, O, 'finish_reading')
    d = mk("o.define_relationship('r', lambda l: child(), key='rk')\no.define_item('i', lambda l: child())") + TWO
    go(ctx, 'finish_reading', 'u', d, "n.begin_reading()\nn.read_from_dict({'rk': [{'ck': u}], 'i': {'ck': u}})\nx = (n._is_reading, n.r[0]._is_reading, n.i._is_reading)\nn.finish_reading()\nr = (x, n._is_reading, n.r[0]._is_reading, n.i._is_reading)\n",
       'r = ((True, True, True), False, False, False)\n', w, total=True)


def deep(ctx):
    """a deep copy has every property, item and relationship item, hidden ones included, as objects of its own"""
    w = where(ctx, O, 'deepcopy_from')
    K = '''
class K(PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property('p', None, key='pk')
        self.define_property('h', None, hidden=True)
        self.define_property('o', None, read_only=True)
        self.define_item('i', None)
        self.define_item('j', None, hidden=True)
        self.define_relationship('r', None, key='rk')
o = K()
a = K()
b = K()
c = K()
assert v is not None
assert u is not None
'''
    P = 'v, u, t'
    go(ctx, 'deep copy of properties', P, K, "o.p = v\no._set_persistent_property_value('h', u)\no._set_persistent_property_value('o', t)\nn = copy.deepcopy(o)\nr = (n.p, n._get_persistent_property_value('h'), n.o, n is o)\n", 'r = (v, u, t, False)\n', w, total=True)
    go(ctx, 'deep copy of items', P, K, "o.set_item('i', a)\no.set_item('j', b)\na.p = v\nb.p = u\nn = copy.deepcopy(o)\nr = (n.get_item('i').p, n.get_item('j').p, n.get_item('i') is a, n.get_item('j') is b, n.get_item('i').persistent_object_parent.parent is n, o.get_item('i') is a)\n", 'r = (v, u, False, False, True, True)\n', w, total=True)
    go(ctx, 'deep copy of relationships', P, K, "o.append_item('r', a)\no.append_item('r', b)\na.p = v\nb.p = u\nn = copy.deepcopy(o)\nr = (len(n.r), n.r[0].p, n.r[1].p, n.r[0] is a, n.r[1] is b, n.r[0].persistent_object_parent.parent is n, len(o.r))\n", 'r = (2, v, u, False, False, True, 2)\n', w, total=True)
    go(ctx, 'deep copy without item', P, K, "n = copy.deepcopy(o)\nr = (n.get_item('i'), n.get_item('j'), len(n.r), n.p)\n", 'r = (None, None, 0, None)\n', w, total=True)
    go(ctx, 'deep copy of a tree', P, K, "o.append_item('r', a)\na.set_item('i', b)\nb._set_persistent_property_value('h', v)\nn = copy.deepcopy(o)\nr = n.r[0].i._get_persistent_property_value('h')\n", 'r = v\n', w, total=True)


def accessor(ctx):
    """the accessor of a child in its parent finds in what the parent writes what the child writes"""
    w = where(ctx, O, 'get_accessor_in_parent')
    d = mk("o.define_relationship('r', lambda l: child(), key='rk')\no.define_relationship('s', lambda l: child())\no.define_item('i', lambda l: child())") + TWO + 'c = child()\ne = child()\nc.cp = v\ne.cp = u\nassert v is not None\nassert u is not None\n'
    for rel in 'rs':
        for i, x in enumerate('ce'):
            go(ctx, 'accessor of a relationship item', 'v, u', d, "o.append_item('%s', c)\no.append_item('%s', e)\nr = %s.get_accessor_in_parent()(o.write_to_dict())['ck']\n" % (rel, rel, x), 'r = %s\n' % 'vu'[i], w, total=True)
        go(ctx, 'accessor after a removal', 'v, u', d, "o.append_item('%s', c)\no.append_item('%s', e)\no.remove_item('%s', c)\nr = e.get_accessor_in_parent()(o.write_to_dict())['ck']\n" % (rel, rel, rel), 'r = u\n', w, total=True)
    go(ctx, 'accessor of an item', 'v, u', d, "o.set_item('i', c)\nr = c.get_accessor_in_parent()(o.write_to_dict())['ck']\n", 'r = v\n', w, total=True)


RULES = [prop, identity, item, relationship, reading, deep, accessor]
