"""Shared facts about the list models: the public list behind `items`, its public key, changes and notifications in order."""
from .. import q
from .. import terms as T
from ..q import SELF, F, S
from ..terms import C, NONE
from ..engine import TooComplex
from ..program import Broken
from .common import entries, opts_for

CLASSES = [('ListModel', 'ListModel'), ('ListModel', 'FilteredListModel'), ('ListModel', 'MappedListModel'), ('ListModel', 'FlattenedListModel'), ('StructuredModel', 'ArrayModel')]
DERIVED = [('ListModel', 'FilteredListModel'), ('ListModel', 'MappedListModel'), ('ListModel', 'FlattenedListModel')]
# constructor arguments that give the public key, in order of preference; then the default
KEYS = {'ListModel': (('key',), C('items')), 'ArrayModel': ((), C('items')), 'FilteredListModel': (('items_key',), None), 'MappedListModel': (('items_key',), None),
        'FlattenedListModel': (('items_key', 'child_items_key'), None)}
INS, REM = 'item_inserted_event', 'item_removed_event'


class LM:
    """one list model class"""
    def __init__(self, ctx, mod, cls):
        self.ctx, self.mod, self.cls = ctx, mod, cls
        self.opts = opts_for(ctx, mod)
        fs = q.role_field(ctx, mod, cls, 'items')
        if len(fs) != 1:
            raise Broken('the list behind %s.items was not found' % cls) if False else Undecided('the list behind %s.items is not one field' % cls)
        self.field = list(fs)[0]
        self.L = F(SELF, self.field)
        self.inits = q.rets(ctx.paths(mod, cls, '__init__', opts=self.opts))
        self.entries = [e for e in entries(ctx, mod, cls, opts=self.opts) if not e.name.startswith('notify_')]

    def roles(self, want):
        """fields of self that hold want(path) at the end of every construction"""
        names = None
        for p in self.inits:
            w = want(p)
            if w is None:
                continue
            s = {n for (o, n), v in p.st.heap.items() if o == SELF and v == w}
            names = s if names is None else names & s
        return names or set()

    def param(self, name):
        return self.roles(lambda p: S(name))

    def key_norm(self):
        """fields holding the public key"""
        args, dflt = KEYS[self.cls]
        def want(p):
            for a in args:
                t = q.assumed(p.trace, ('truthy', S(a)))
                n = q.assumed(p.trace, ('isnone', S(a)))
                if t is True or n is False:
                    return S(a)
                if t is None and n is None:
                    return S(a) if a == args[-1] and dflt is None else None
            if dflt is not None:
                return dflt
            return S(args[-1])
        return self.roles(want)

    def key_ok(self, key, p, trace):
        """is this notification key the public key of the list"""
        if not hasattr(self, '_kn'):
            self._kn = self.key_norm()
            self._kr = self.param(KEYS[self.cls][0][0]) if KEYS[self.cls][0] else set()
        args, dflt = KEYS[self.cls]
        if self.cls == 'ArrayModel':
            if key == dflt:
                return True
            if key[0] == 'fld' and key[1] == SELF and key[2] in self.roles(lambda p: NONE) and (q.assumed(trace, ('truthy', key)) is True or q.assumed(trace, ('isnone', key)) is False):
                return True     # never the case: the key is not given
            return None if key[0] != 'const' else False
        if key[0] == 'fld' and key[1] == SELF:
            if key[2] in self._kn:
                return True
            if key[2] in self._kr and dflt is not None:
                t = q.assumed(trace, ('truthy', key))
                n = q.assumed(trace, ('isnone', key))
                if t is True or n is False:
                    return True
                return None if t is None and n is None and dflt is None else False
            if isinstance(key[2], str) and not self._kn and not self._kr:
                return None
            return False if isinstance(key[2], str) else None
        if key == dflt:
            for n in self._kr:
                t = q.assumed(trace, ('truthy', F(SELF, n)))
                m = q.assumed(trace, ('isnone', F(SELF, n)))
                if t is False or m is True:
                    return True
            return False if self._kr else None
        if key[0] == 'sym' and key[1] in args:
            return True         # still in the constructor
        if key[0] in ('const', 'sym'):
            return False
        return None


class Undecided(Exception):
    pass


def models(ctx, classes=CLASSES):
    for mod, cls in classes:
        k = ('LM', mod, cls)
        if k not in ctx._cache:
            try:
                ctx._cache[k] = LM(ctx, mod, cls)
            except (Undecided, TooComplex) as e:
                ctx._cache[k] = None
                ctx.unk(cls, str(e) or 'path budget exceeded')
        if ctx._cache[k] is not None:
            yield ctx._cache[k]


def kind_of(e, L):
    """'insert'/'remove'/'other' change of the list, 'ins'/'rem' notification, None"""
    if e.kind == 'mut' and e.recv == L:
        return {'insert': 'insert', 'remove_at': 'remove'}.get(e.name, 'other')
    if e.kind == 'write' and e.recv == SELF and L == F(SELF, e.name):
        return 'other'
    if q.is_fire(e, INS, SELF):
        return 'ins'
    if q.is_fire(e, REM, SELF):
        return 'rem'
    return None


def item_of(e):
    return e.args[1] if e.name == 'insert' else e.extra.get('item')


def index_verdict(actual, got):
    r = q.veq(actual, got)
    if r is None and got[0] in ('sym', 'const') and actual[0] != got[0]:
        return False        # a computed position, reported as a plain argument
    if r is None and got[0] == 'len' and not T.lossy(got) and actual[0] == 'phi':
        return False
    if r is False and got[0] in ('res', 'app', 'attr', 'unk'):
        return None
    return r


def compaction(trace, loop, body, mut, L):
    """a loop over a copy of the list that removes the element it stands on: is the position right?  True / False / None"""
    d = loop.desc
    if q.base(d.base) != L and d.base != L:
        return None
    at = mut.args[0]
    it = ('idx', loop.id, d.base)
    if d.order == 'rev':
        return True if at == it else None
    poly = T.to_poly(T.sub(at, it))
    if poly is None:
        return None
    if T.from_poly(poly) == T.ZERO:
        # the position never moves: right only if at most one element is removed
        return None if any(b.status[0] in ('break', 'ret', 'raise') and mut in b.trace for b in loop.paths) else False
    if len(poly) != 1:
        return None
    (m, c), = poly.items()
    if len(m) != 1 or m[0][0] != 'phi' or m[0][1] != loop.id or c not in (1, -1):
        return None
    k = m[0][2]
    init = loop.phis.get(k, (None, None))[1]
    if init != T.ZERO:
        return False if init is not None and init[0] == 'const' else None
    for b in loop.paths:
        if b.status[0] not in ('next', 'cont'):
            continue
        n = sum(1 for e in b.trace if e.kind == 'mut' and e.recv == L and e.name == 'remove_at')
        o = sum(1 for e in q.flat(b.trace) if kind_of(e, L) in ('insert', 'other'))
        if o or n > 1:
            return None
        delta = T.sub(b.ends.get(k, m[0]), m[0])
        if delta[0] != 'const':
            return None
        if delta[2] * c != -n:
            return False
    return True
