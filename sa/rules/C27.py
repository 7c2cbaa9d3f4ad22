"""The filtered list against sorting and filtering: client code changes the container, filter, sort order and items; the list
afterwards, and a copy kept by replaying its notifications, are compared with the container's items filtered and sorted.  The
sort keys are symbolic, only their order is assumed."""
import itertools
import os
from ..agree import agree
from ..program import Broken

NK = 7
OPTS = {'inline_modules': ('ListModel', 'Observable', 'Selection'), 'dyn': True, 'alive': True, 'events': True, 'drops': True, 'rec': 8, 'budget': 40000}
PARAMS = ', '.join('k%d' % i for i in range(NK))
TYPES = {'k%d' % i: 'int' for i in range(NK)}
ORDER = ''.join('assert k%d < k%d\n' % (i, j) for j in range(NK) for i in range(j))
THINGS = '''
class Thing:
    def __init__(self, k, on):
        self.k = k
        self.on = on
        self.item_changed_event = Event.Event()
def change(x, k, on):
    x.k = k
    x.on = on
    x.item_changed_event.fire()
log = []
def inserted(key, item, index):
    if key == 'things':
        log.insert(index, item)
def removed(key, item, index):
    if key == 'things':
        log.pop(index)
'''
BOX = '''
class Box:
    def __init__(self, things):
        self.things = things
        self.item_inserted_event = Event.Event()
        self.item_removed_event = Event.Event()
        self.begin_changes_event = Event.Event()
        self.end_changes_event = Event.Event()
        self.reset_list_event = Event.Event()
def ins(c, i, x):
    c.things.insert(i, x)
    c.item_inserted_event.fire('things', x, i)
def rem(c, i):
    x = c.things.pop(i)
    c.item_removed_event.fire('things', x, i)
'''
WATCH = '''
l1 = f.item_inserted_event.listen(inserted)
l2 = f.item_removed_event.listen(removed)
'''
KEY = 'lambda x: x.k'
ON = 'PredicateFilter(lambda x: x.on)'
OFF = 'PredicateFilter(lambda x: not x.on)'


class Model:
    """what is expected: the state of the client's objects"""
    def __init__(self, items, key, rev, flt):
        self.of = {n: (k, on) for n, k, on in items}
        self.box = [n for n, k, on in items]
        self.key, self.rev, self.flt = key, rev, flt
        self.new = 0
        self.src = ''

    def expected(self):
        xs = [n for n in self.box if self.flt is None or self.of[n][1] == self.flt]
        return sorted(xs, key=lambda n: self.of[n][0], reverse=self.rev) if self.key else xs

    def keys(self):
        return {k for k, on in self.of.values()}


def unused(m, where):
    """a key not in use, below / between / above those in the container"""
    used, ks = m.keys(), sorted(m.of[n][0] for n in m.box)
    free = [k for k in range(NK) if k not in used]
    if where == 'low':
        c = [k for k in free if not ks or k < ks[0]]
    elif where == 'high':
        c = [k for k in free if not ks or k > ks[-1]]
    else:
        c = [k for k in free if ks and ks[0] < k < ks[-1]]
    return c[0] if c else None


def op(m, o):
    """carry out one operation on the model; the client statement, or None when it is not possible"""
    if o[0] == 'ins':
        i, k = min(o[1], len(m.box)), unused(m, o[2])
        if k is None:
            return None
        n = 'n%d' % m.new
        m.new += 1
        m.of[n] = (k, o[3])
        m.box.insert(i, n)
        return '%s = Thing(k%d, %s)\nins(c, %d, %s)\n' % (n, k, o[3], i, n)
    if o[0] == 'rem':
        if o[1] >= len(m.box):
            return None
        m.of.pop(m.box.pop(o[1]))
        return 'rem(c, %d)\n' % o[1]
    if o[0] == 'chg':
        if o[1] >= len(m.box):
            return None
        n = m.box[o[1]]
        k, on = m.of[n]
        if o[2] != 'stay':
            del m.of[n]
            m.box.remove(n)
            k = unused(m, o[2])
            m.box.insert(o[1], n)
            if k is None:
                return None
        m.of[n] = (k, on != o[3])
        return 'change(%s, k%d, %s)\n' % (n, k, on != o[3])
    if o[0] == 'key':
        m.key = not m.key
        return 'f.sort_key = %s\n' % (KEY if m.key else 'None')
    if o[0] == 'rev':
        m.rev = not m.rev
        return 'f.sort_reverse = %s\n' % m.rev
    if o[0] == 'flt':
        m.flt = o[1]
        return 'f.filter = %s\n' % {None: 'Filter(True)', True: ON, False: OFF}[o[1]]
    if o[0] == 'mark':
        return 'f.mark_changed()\n'
    if o[0] == 'move':
        if o[1] >= len(m.box) or o[2] >= len(m.box):
            return None
        n = m.box.pop(o[1])
        m.box.insert(o[2], n)
        return 'rem(c, %d)\nins(c, %d, %s)\n' % (o[1], o[2], n)


STRUCT = [('ins', 0, 'low', True), ('ins', 1, 'mid', True), ('ins', 9, 'high', True), ('ins', 0, 'high', True), ('ins', 9, 'low', True), ('ins', 1, 'mid', False), ('rem', 0), ('rem', 1), ('rem', 2), ('move', 0, 2), ('move', 2, 0)]
CHANGE = [('chg', 0, 'low', False), ('chg', 0, 'mid', False), ('chg', 0, 'high', False), ('chg', 1, 'low', False), ('chg', 1, 'high', False), ('chg', 2, 'low', False), ('chg', 2, 'mid', False), ('chg', 0, 'stay', True), ('chg', 1, 'stay', True), ('chg', 2, 'high', True), ('chg', 1, 'mid', True)]
ORDERING = [('key',), ('rev',), ('flt', None), ('flt', True), ('flt', False), ('mark',)]
ITEMS = [('a', 3, True), ('b', 1, True), ('d', 5, False)]
SORTS = [(True, False), (True, True), (False, False)]


def where(ctx):
    return ctx.method('ListModel', 'FilteredListModel', 'items', 'get')[0]


def start(m):
    s = ''.join('%s = Thing(k%d, %s)\n' % (n, m.of[n][0], m.of[n][1]) for n in m.box)
    s += "c = Box([%s])\n" % ', '.join(m.box)
    s += "f = FilteredListModel(container=c, items_key='things')\n" + WATCH + 'log.extend(f.items)\n'
    if m.key:
        s += 'f.sort_key = %s\n' % KEY
    if m.rev:
        s += 'f.sort_reverse = True\n'
    if m.flt is not None:
        s += 'f.filter = %s\n' % {True: ON, False: OFF}[m.flt]
    return s


def result(m):
    xs = ', '.join(m.expected())
    return 'r = ([%s], [%s])\n' % (xs, xs)


def go(ctx, what, m, impl, w, pre=''):
    init = ORDER + THINGS + BOX + pre
    return agree(ctx, what, 'ListModel', PARAMS, init + impl + 'r = (f.items, log)\n', init + result(m), w=w, opts=OPTS, total=True, effects=False, argtypes=TYPES)


THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
ALL = STRUCT + CHANGE + ORDERING
FEW = [('ins', 0, 'high', True), ('ins', 9, 'low', True), ('ins', 1, 'mid', False), ('rem', 0), ('rem', 1), ('move', 0, 2), ('chg', 0, 'low', False), ('chg', 1, 'high', False), ('chg', 2, 'mid', True), ('chg', 0, 'stay', True), ('key',), ('rev',), ('flt', True), ('flt', False)]
CONFIGS = [(True, True, True), (False, False, True), (True, False, None)]


def histories(ctx, what, menu, configs=None, wrap=None):
    w = where(ctx)
    for key, rev, flt in configs or [(k, r, f) for k, r in SORTS for f in (None, True)]:
        for ops in menu:
            m = Model(ITEMS, key, rev, flt)
            s = start(m)
            st = [op(m, o) for o in ops]
            if None in st:
                continue
            go(ctx, '%s: %s' % (what, ', '.join(' '.join(map(str, o)) for o in ops)), m, s + (wrap(st) if wrap else ''.join(st)), w)


def block(st):
    return 'with f.changes():\n' + ''.join('    %s\n' % l for l in ''.join(st).split('\n') if l)


def split(st):
    """the last change after the bracket, the one before it inside"""
    return block(st[:-1]) + st[-1]


def nested(st):
    return 'f.begin_change()\n' + st[0] + 'f.begin_change()\n' + ''.join(st[1:]) + 'f.end_change()\nf.end_change()\n'


def single(ctx):
    """after each change of the container, of an item, of the filter or of the order, the list holds the matching items in order, and its notifications replay to the same list"""
    histories(ctx, 'one change', [(o,) for o in ALL])


def double(ctx):
    """the same after any two changes, made one after the other"""
    histories(ctx, 'two changes', itertools.product(ALL, ALL) if THOROUGH else itertools.product(FEW, FEW), None if THOROUGH else CONFIGS)


def bracket(ctx):
    """the same when changes are made within a bracket of changes, nested or not, or one after it"""
    histories(ctx, 'one change in a bracket', [(o,) for o in ALL], None if THOROUGH else CONFIGS, block)
    menu = list(itertools.product(ALL, ALL) if THOROUGH else itertools.product(FEW, FEW))
    histories(ctx, 'two changes in a bracket', menu, None if THOROUGH else CONFIGS[:2], block)
    few = menu if THOROUGH else list(itertools.product(FEW[1::2], FEW[::2]))
    histories(ctx, 'one change in a bracket and one after', few, CONFIGS, split)
    histories(ctx, 'nested brackets', few, CONFIGS[:1], nested)


RULES = [single, double, bracket]
