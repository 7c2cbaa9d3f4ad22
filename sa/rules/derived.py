"""Client histories on derived lists: the container, its items and their children change, the container is replaced; the list
afterwards, a copy kept by replaying the notifications and the selections attached are compared with what is expected."""
import itertools
import os
from ..agree import agree

THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
OPTS = {'inline_modules': ('ListModel', 'Observable', 'Selection'), 'dyn': True, 'alive': True, 'events': True, 'drops': True, 'rec': 8, 'budget': 40000}
PRE = '''
class Box:
    def __init__(self, things):
        self.things = things
        self.others = []
        self.item_inserted_event = Event.Event()
        self.item_removed_event = Event.Event()
        self.begin_changes_event = Event.Event()
        self.end_changes_event = Event.Event()
        self.reset_list_event = Event.Event()
class Thing:
    def __init__(self, kids):
        self.kids = kids
        self.item_changed_event = Event.Event()
        self.item_inserted_event = Event.Event()
        self.item_removed_event = Event.Event()
class Leaf:
    def __init__(self):
        self.item_changed_event = Event.Event()
def ins(c, i, x):
    c.things.insert(i, x)
    c.item_inserted_event.fire('things', x, i)
def rem(c, i):
    x = c.things.pop(i)
    c.item_removed_event.fire('things', x, i)
def kin(t, i, x):
    t.kids.insert(i, x)
    t.item_inserted_event.fire('kids', x, i)
def kout(t, i):
    x = t.kids.pop(i)
    t.item_removed_event.fire('kids', x, i)
def other(c, x):
    c.others.insert(0, x)
    c.item_inserted_event.fire('others', x, 0)
    c.others.pop(0)
    c.item_removed_event.fire('others', x, 0)
log = []
marks = []
def inserted(key, item, index):
    if key == 'shown':
        log.insert(index, item)
        marks.insert(index, False)
def removed(key, item, index):
    if key == 'shown':
        log.pop(index)
        marks.pop(index)
def bad(sel):
    n = 0
    for i in range(len(marks)):
        if (i in sel.indexes) != marks[i]:
            n += 1
    return n
'''
MAKE = {
    'MappedListModel': "f = MappedListModel(container=c, master_items_key='things', items_key='shown', map_fn=fn, unmap_fn=un)\n",
    'FlattenedListModel': "f = FlattenedListModel(container=c, master_items_key='things', child_items_key='kids', items_key='shown')\n",
    'FilteredListModel': "f = FilteredListModel(container=c, master_items_key='things', items_key='shown')\n",
}
WATCH = 'l1 = f.item_inserted_event.listen(inserted)\nl2 = f.item_removed_event.listen(removed)\nlog.extend(f.items)\nmarks.extend([False] * len(log))\n'
CLASSES = ('MappedListModel', 'FlattenedListModel', 'FilteredListModel')
TYPES = {'fn': 'fn', 'un': 'fn'}


class Client:
    """the client's text and, next to it, what its objects hold"""
    def __init__(self, cls, sizes=(2, 0, 1)):
        self.cls, self.n, self.src, self.boxes = cls, 0, '', 0
        self.kids = {}
        self.shown = self.box(sizes)
        self.src += 'c = %s\n' % self.shown_name + MAKE[cls] + WATCH

    def leaf(self):
        self.n += 1
        self.src += 'x%d = Leaf()\n' % self.n
        return 'x%d' % self.n

    def thing(self, size):
        ks = [self.leaf() for i in range(size)] if self.cls == 'FlattenedListModel' else []
        self.n += 1
        self.src += 'x%d = Thing([%s])\n' % (self.n, ', '.join(ks))
        self.kids['x%d' % self.n] = ks
        return 'x%d' % self.n

    def box(self, sizes):
        ts = [self.thing(s) for s in sizes]
        self.boxes += 1
        self.shown_name = 'c%d' % self.boxes
        self.src += 'c%d = Box([%s])\n' % (self.boxes, ', '.join(ts))
        return ts

    def expected(self):
        if self.shown is None:
            return []
        if self.cls == 'FlattenedListModel':
            return [k for t in self.shown for k in self.kids[t]]
        return ['fn(%s)' % t if self.cls == 'MappedListModel' else t for t in self.shown]

    def op(self, o):
        b = self.shown
        if o[0] == 'ins':
            if b is None:
                return False
            i, t = min(o[1], len(b)), self.thing(o[2])
            b.insert(i, t)
            self.src += 'ins(c, %d, %s)\n' % (i, t)
        elif o[0] == 'rem':
            if b is None or o[1] >= len(b):
                return False
            b.pop(o[1])
            self.src += 'rem(c, %d)\n' % o[1]
        elif o[0] == 'move':
            if b is None or max(o[1:]) >= len(b):
                return False
            t = b.pop(o[1])
            b.insert(o[2], t)
            self.src += 'rem(c, %d)\nins(c, %d, %s)\n' % (o[1], o[2], t)
        elif o[0] == 'kin':
            if b is None or o[1] >= len(b):
                return False
            t, k = b[o[1]], self.leaf()
            i = min(o[2], len(self.kids[t]))
            self.kids[t].insert(i, k)
            self.src += 'kin(%s, %d, %s)\n' % (t, i, k)
        elif o[0] == 'kout':
            if b is None or o[1] >= len(b) or o[2] >= len(self.kids[b[o[1]]]):
                return False
            t = b[o[1]]
            self.kids[t].pop(o[2])
            self.src += 'kout(%s, %d)\n' % (t, o[2])
        elif o[0] == 'late':
            # a removed item changes: no concern of the list any more
            if b is None or o[1] >= len(b):
                return False
            t = b.pop(o[1])
            self.src += 'rem(c, %d)\n' % o[1]
            if self.cls == 'FlattenedListModel':
                k = self.leaf()
                self.kids[t].insert(0, k)
                self.src += 'kin(%s, 0, %s)\n' % (t, k)
            else:
                self.src += '%s.item_changed_event.fire()\n' % t
        elif o[0] == 'other':
            if b is None:
                return False
            self.src += 'other(c, %s)\n' % self.leaf()
        elif o[0] == 'new':
            old = b is not None
            self.shown = self.box(o[1])
            self.src += 'd = c\nc = %s\nf.container = c\n' % self.shown_name
            if old:     # what happens to the old container is no concern of the list any more
                self.src += 'ins(d, 0, %s)\n' % self.thing(1)
        elif o[0] == 'none':
            if b is None:
                return False
            self.shown = None
            self.src += 'f.container = None\nins(c, 0, %s)\n' % self.thing(1)
        return True


STRUCT = [('ins', 0, 1), ('ins', 1, 2), ('ins', 9, 0), ('ins', 2, 1), ('rem', 0), ('rem', 1), ('rem', 2), ('move', 0, 2), ('move', 2, 0), ('late', 0), ('late', 1), ('other',), ('new', (1, 1)), ('new', ()), ('none',)]
KIDS = [('kin', 0, 0), ('kin', 0, 1), ('kin', 0, 9), ('kin', 1, 0), ('kin', 2, 0), ('kin', 2, 9), ('kout', 0, 0), ('kout', 0, 1), ('kout', 2, 0)]


def menus(cls):
    ops = STRUCT + (KIDS if cls == 'FlattenedListModel' else [])
    yield from ((o,) for o in ops)
    few = [('ins', 0, 1), ('ins', 1, 2), ('ins', 9, 1), ('rem', 0), ('rem', 1), ('move', 2, 0), ('new', (1, 1)), ('none',), ('other',)] + (KIDS[:1] + KIDS[2:5] + KIDS[6:] if cls == 'FlattenedListModel' else [])
    yield from itertools.product(ops if THOROUGH else few, repeat=2)


def histories(ctx, cls, observe, prepare=None, label='', one=False):
    """observe(client): statements setting r, statements of the expected r"""
    f = ctx.method('ListModel', cls, 'container', 'set')[0]
    for ops in menus(cls):
        if one and len(ops) > 1:
            continue
        c = Client(cls)
        c.src += prepare(c) if prepare else ''
        if not all([c.op(o) for o in ops]):
            continue
        got, want = observe(c)
        pre = ('assert fn\nassert un\n' if 'Mapped' in cls else '') + PRE
        agree(ctx, '%s%s: %s' % (cls, label, ', '.join(' '.join(map(str, o)) for o in ops)), 'ListModel', 'fn, un' if 'Mapped' in cls else '', pre + c.src + got, pre + want, w=f, opts=OPTS, total=True, effects=False, argtypes=TYPES)
