"""The recorder against reference definitions: client code changes a tree of observed objects and applies the recorder to a
symbolic object; what is done to that object, in order, is compared with the changes expected"""
from ..agree import agree
from ..program import Broken
from ..q import S

OPTS = {'dyn': True, 'alive': True, 'events': True, 'rec': 8, 'budget': 20000}
TYPES = {'rec': 'fn', 'x': 'obj', 'z': 'obj'}
PRE = '''
class Obs:
    def __init__(self, rec, v, i, r):
        self.rec = rec
        self.p = v
        self.i = i
        self.r = r
        self.item_names = ['i']
        self.relationship_names = ['r']
    def _is_persistent_property_recordable(self, k):
        return self.rec(k)
def ins(o, k, v):
    o.r.insert(k, v)
    o.item_inserted_event.fire('r', v, k)
def rem(o, k):
    v = o.r.pop(k)
    o.item_removed_event.fire('r', v, k)
def put(o, v):
    o.i = v
    o.item_set_event.fire('i', v)
def clear(o):
    o.i = None
    o.item_cleared_event.fire('i')
def change(o):
    o.property_changed_event.fire('p')
def leaf():
    return Obs(rec, v, None, [])
'''
YES = "assert rec('p')\n"
# every object of the tree has one item and up to two objects in its relationship
TREE = '''
ai = leaf()
ar = leaf()
a = Obs(rec, v, ai, [ar])
b0 = leaf()
ci = leaf()
cr = leaf()
b1 = Obs(rec, v, ci, [cr])
b2 = leaf()
o = Obs(rec, v, a, [b0, b1, b2])
k = Recorder(o)
'''
PLACE = {'o': 'x', 'a': 'x.i', 'ai': 'x.i.i', 'ar': 'x.i.r[0]', 'b0': 'x.r[0]', 'b1': 'x.r[1]', 'ci': 'x.r[1].i', 'cr': 'x.r[1].r[0]', 'b2': 'x.r[2]'}
APPLY = 'k.apply(x)\n'


def where(ctx, name):
    try:
        return ctx.method('Recorder', 'Recorder', name, None)[0]
    except Broken:
        return None


def rooted(t):
    while t and t[0] in ('fld', 'item', 'elem', 'copy', 'ver'):
        t = t[2] if t[0] == 'elem' else t[1]
    return t in (S('x'), S('z'))


def done(e):
    return e.kind in ('call', 'write') and e.recv is not None and (rooted(e.recv) or e.kind == 'write' and e.name == 'p' and not (e.fn and e.fn.name == '__init__'))


def go(ctx, what, pre, impl, ref, w, params='x, z, v, rec'):
    return agree(ctx, what, 'Recorder', params, PRE + YES + pre + impl, PRE + YES + pre + ref, observe=done, w=w, argtypes=TYPES, opts=OPTS, total=True)


def setp(p):
    return '%s.p = v\n' % p


def moved(p, at, by, root='x'):
    """the place after a change at index at of the relationship of root"""
    h = root + '.r['
    if not p.startswith(h):
        return p
    n, rest = p[len(h):].split(']', 1)
    n = int(n)
    if by < 0 and n == at:
        return None
    return '%s%d]%s' % (h, n + by if (n >= at if by > 0 else n > at) else n, rest)


def changes(ctx):
    """a recordable property change is logged once with the place of the object, others are not"""
    w = where(ctx, '__property_changed') or where(ctx, '__init__')
    for n, p in PLACE.items():
        go(ctx, 'property change', TREE, 'change(%s)\n' % n + APPLY, setp(p), w)
        agree(ctx, 'property change that is not recordable', 'Recorder', 'x, z, v, rec', PRE + "assert not rec('p')\n" + TREE + 'change(%s)\n' % n + APPLY, PRE + "assert not rec('p')\n" + TREE + 'pass\n', observe=done, w=w, argtypes=TYPES, opts=OPTS, total=True)
    for n, p in PLACE.items():
        for m, q in PLACE.items():
            go(ctx, 'two property changes', TREE, 'change(%s)\nchange(%s)\n' % (n, m) + APPLY, setp(p) + setp(q), w)
    go(ctx, 'value of the change', TREE + 'b1.p = z\n', 'change(b1)\n' + APPLY, 'x.r[1].p = z\n', w)
    go(ctx, 'nothing', TREE, APPLY, 'pass\n', where(ctx, 'apply'))
    go(ctx, 'applied again', TREE, 'change(a)\nchange(b1)\n' + APPLY + 'k.apply(z)\n', setp('x.i') + setp('x.r[1]') + setp('z.i') + setp('z.r[1]'), where(ctx, 'apply'))
    go(ctx, 'own accessor', TREE.replace('k = Recorder(o)\n', 'k = Recorder(o, lambda y: y.q)\ny = leaf()\n'), 'change(o)\nchange(cr)\nins(b1, 0, y)\nchange(cr)\n' + APPLY, 'x.q.p = v\nx.q.r[1].r[0].p = v\nx.q.r[1].insert_item("r", 0, y)\nx.q.r[1].r[1].p = v\n', where(ctx, '__init__'))


def items(ctx):
    """an item set or cleared is logged once; the one there before is no longer recorded and the new one is"""
    w = where(ctx, '__item_set') or where(ctx, '__init__')
    for n, p in PLACE.items():
        has = {'o': 'a', 'a': 'ai', 'b1': 'ci'}.get(n)
        go(ctx, 'item set', TREE + 'y = leaf()\n', 'put(%s, y)\n' % n + APPLY, '%s.i = y\n' % p, w)
        go(ctx, 'item set and changed', TREE + 'y = leaf()\n', 'put(%s, y)\nchange(y)\n' % n + APPLY, '%s.i = y\n%s.i.p = v\n' % (p, p), w)
        go(ctx, 'item cleared', TREE, 'clear(%s)\n' % n + APPLY, '%s.i = None\n' % p, where(ctx, '__item_cleared') or w)
        go(ctx, 'item set and cleared', TREE + 'y = leaf()\n', 'put(%s, y)\nclear(%s)\nchange(y)\n' % (n, n) + APPLY, '%s.i = y\n%s.i = None\n' % (p, p), w)
        if has:
            go(ctx, 'item replaced', TREE + 'y = leaf()\n', 'put(%s, y)\nchange(%s)\n' % (n, has) + APPLY, '%s.i = y\n' % p, w)
            go(ctx, 'item cleared, change of the old one', TREE, 'clear(%s)\nchange(%s)\n' % (n, has) + APPLY, '%s.i = None\n' % p, w)
    go(ctx, 'tree as item', TREE + 'yi = leaf()\nyr = leaf()\ny = Obs(rec, v, yi, [yr])\n', 'put(b1, y)\nchange(yi)\nchange(yr)\n' + APPLY, 'x.r[1].i = y\nx.r[1].i.i.p = v\nx.r[1].i.r[0].p = v\n', w)
    go(ctx, 'tree of the item before', TREE + 'y = leaf()\n', 'put(o, y)\nchange(ai)\nchange(ar)\nins(a, 0, leaf())\n' + APPLY, 'x.i = y\n', w)


def relationships(ctx):
    """an insertion or removal is logged once with its index; the object that joins is recorded there, the one that leaves no longer is"""
    w = where(ctx, '__item_inserted') or where(ctx, '__init__')
    wr = where(ctx, '__item_removed') or where(ctx, '__init__')
    for n, p in PLACE.items():
        size = {'o': 3, 'a': 1, 'b1': 1}.get(n, 0)
        for i in range(size + 1):
            go(ctx, 'inserted', TREE + 'y = leaf()\n', 'ins(%s, %d, y)\n' % (n, i) + APPLY, '%s.insert_item("r", %d, y)\n' % (p, i), w)
            go(ctx, 'inserted and changed', TREE + 'y = leaf()\n', 'ins(%s, %d, y)\nchange(y)\n' % (n, i) + APPLY, '%s.insert_item("r", %d, y)\n%s.r[%d].p = v\n' % (p, i, p, i), w)
            go(ctx, 'inserted and removed', TREE + 'y = leaf()\n', 'ins(%s, %d, y)\nrem(%s, %d)\nchange(y)\n' % (n, i, n, i) + APPLY, '%s.insert_item("r", %d, y)\n%s.remove_item("r", %s.r[%d])\n' % (p, i, p, p, i), wr)
        for i in range(size):
            go(ctx, 'removed', TREE + 'y = %s.r[%d]\n' % (n, i), 'rem(%s, %d)\nchange(y)\n' % (n, i) + APPLY, '%s.remove_item("r", %s.r[%d])\n' % (p, p, i), wr)
    go(ctx, 'tree inserted', TREE + 'yi = leaf()\nyr = leaf()\ny = Obs(rec, v, yi, [yr])\n', 'ins(o, 1, y)\nchange(yi)\nchange(yr)\n' + APPLY, 'x.insert_item("r", 1, y)\nx.r[1].i.p = v\nx.r[1].r[0].p = v\n', w)
    go(ctx, 'tree removed', TREE, 'rem(o, 1)\nchange(ci)\nchange(cr)\nchange(b1)\n' + APPLY, 'x.remove_item("r", x.r[1])\n', wr)


def shifts(ctx):
    """the siblings of an object that joins or leaves move by one, with everything below them; what was logged before keeps its place"""
    w = where(ctx, '__item_inserted') or where(ctx, '__init__')
    wr = where(ctx, '__item_removed') or where(ctx, '__init__')
    for i in range(4):
        for n, p in PLACE.items():
            q = moved(p, i, 1)
            go(ctx, 'changed, moved by an insertion and changed', TREE + 'y = leaf()\n', 'change(%s)\nins(o, %d, y)\nchange(%s)\n' % (n, i, n) + APPLY, setp(p) + 'x.insert_item("r", %d, y)\n' % i + setp(q), w)
    for i in range(3):
        for n, p in PLACE.items():
            q = moved(p, i, -1)
            go(ctx, 'changed, moved by a removal and changed', TREE, 'change(%s)\nrem(o, %d)\nchange(%s)\n' % (n, i, n) + APPLY, setp(p) + 'x.remove_item("r", x.r[%d])\n' % i + (setp(q) if q else ''), wr)
    for i in range(4):
        go(ctx, 'moved by an insertion and inserted below', TREE + 'y = leaf()\nz1 = leaf()\nz2 = leaf()\n', 'ins(b1, 0, z1)\nput(b1, z2)\nrem(b1, 1)\nins(o, %d, y)\n' % i + APPLY, 'x.r[1].insert_item("r", 0, z1)\nx.r[1].i = z2\nx.r[1].remove_item("r", x.r[1].r[1])\nx.insert_item("r", %d, y)\n' % i, w)
        q = moved('x.r[1]', i, 1)
        go(ctx, 'changes below after an insertion', TREE + 'y = leaf()\nz1 = leaf()\nz2 = leaf()\n', 'ins(o, %d, y)\nins(b1, 0, z1)\nput(b1, z2)\nrem(b1, 1)\nchange(z1)\nchange(z2)\n' % i + APPLY, 'x.insert_item("r", %d, y)\n' % i + '%s.insert_item("r", 0, z1)\n%s.i = z2\n%s.remove_item("r", %s.r[1])\n%s.r[0].p = v\n%s.i.p = v\n'.replace('%s', q), w)
        go(ctx, 'insertion below, then moved', TREE + 'y = leaf()\nz1 = leaf()\nz2 = leaf()\n', 'ins(b1, 0, z1)\nput(b1, z2)\nins(o, %d, y)\nchange(z1)\nchange(z2)\nchange(cr)\n' % i + APPLY, 'x.r[1].insert_item("r", 0, z1)\nx.r[1].i = z2\nx.insert_item("r", %d, y)\n' % i + '%s.r[0].p = v\n%s.i.p = v\n%s.r[1].p = v\n'.replace('%s', q), w)
    for i in range(3):
        for j in range(3):
            q = moved('x.r[1]', i, 1)
            q = moved(q, j, 1)
            go(ctx, 'moved twice', TREE + 'y = leaf()\nz1 = leaf()\n', 'ins(o, %d, y)\nins(o, %d, z1)\nchange(b1)\nchange(cr)\n' % (i, j) + APPLY, 'x.insert_item("r", %d, y)\nx.insert_item("r", %d, z1)\n' % (i, j) + setp(q) + setp(q + '.r[0]'), w)
            q = moved(q, 0, -1) if q != 'x.r[0]' else None
            if q:
                go(ctx, 'moved to and fro', TREE + 'y = leaf()\nz1 = leaf()\n', 'ins(o, %d, y)\nins(o, %d, z1)\nrem(o, 0)\nchange(b1)\nchange(cr)\n' % (i, j) + APPLY, 'x.insert_item("r", %d, y)\nx.insert_item("r", %d, z1)\nx.remove_item("r", x.r[0])\n' % (i, j) + setp(q) + setp(q + '.r[0]'), w)


def closed(ctx):
    """a closed recorder records nothing more"""
    w = where(ctx, 'close')
    for n in PLACE:
        go(ctx, 'closed', TREE, 'k.close()\nchange(%s)\n' % n + APPLY, 'pass\n', w)
        go(ctx, 'closed, structure', TREE + 'y = leaf()\nz1 = leaf()\n', 'k.close()\nput(%s, y)\nins(%s, 0, z1)\nclear(%s)\nrem(%s, 0)\n' % (n, n, n, n) + APPLY, 'pass\n', w)


RULES = [changes, items, relationships, shifts, closed]
