"""Path-sensitive interprocedural effect analysis.

For a root function the engine enumerates the control-flow paths through the function and everything it inlines, and
attaches to each path the ordered list of its effects (field writes, container mutations, calls, event fires, lock
acquire/release, loops) with operands in value-number normal form.  Loops are summarised by a single generic iteration
whose loop-carried variables are havocked (a fixpoint, so the summary stands for every iteration).  Nothing is executed and
no solver is consulted: branch feasibility uses only syntactic facts and intervals on normal forms.
"""
import ast
import builtins
import math
import re
import string
from fractions import Fraction
from . import rx
from . import terms as T
from .terms import C, NONE, TRUE, FALSE, ZERO, ONE
from .state import St, Eff, Desc, Loop, BodyPath
from .program import Broken, dotted, mangle, Func, ClassInfo
from .q import free_names, env_lookup


class TooComplex(Exception):
    pass


class Frame:
    __slots__ = ('func', 'env', 'cls', 'stack', 'module', 'selfterm', 'yield_k')

    def __init__(self, func, env, stack, selfterm=None, module=None, yield_k=None):
        self.func, self.env, self.stack, self.selfterm, self.yield_k = func, env, stack, selfterm, yield_k
        self.cls = func.cls if func else None
        self.module = func.module if func else module


class Path:
    def __init__(self, st, status, value):
        self.st, self.status, self.value = st, status, value
        self.trace = st.trace

    @property
    def raised(self):
        return self.status == 'raise'


PURE_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'find', 'split', 'join', 'format', 'isoformat', 'title', 'capitalize',
                'isdigit', 'isnumeric', 'rfind', 'partition', 'rpartition', 'splitlines', 'encode', 'decode', 'group', 'groups', 'groupdict', 'is_set', 'casefold',
                'zfill', 'rjust', 'ljust', 'issubset', 'issuperset', 'isdisjoint', 'as_integer_ratio', 'total_seconds', 'is_integer', 'timestamp', 'utcoffset'}
STR_METHODS = PURE_METHODS | {'replace', 'removeprefix', 'removesuffix', 'expandtabs', 'count', 'index'}
PURE_BUILTINS = {'abs', 'round', 'str', 'repr', 'float', 'int', 'bool', 'id', 'type', 'hash', 'frozenset', 'tuple', 'divmod', 'pow', 'format', 'ord', 'chr', 'bytes', 'slice',
                 'complex', 'object', 'issubclass', 'bytearray'}
PURE_EXT_PREFIX = ('math.', 're.', 'datetime.', 'uuid.UUID', 'operator.', 'string.', 'numbers.', 'fractions.', 'decimal.', 'json.', 'time.', 'os.path', 'numpy.', 'itertools.', 'locale.', 'dateutil.')
IMPURE_EXT = ('time.sleep', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'time.time', 'time.perf_counter')
FRESH_EXT = ('datetime.datetime.now', 'datetime.datetime.utcnow', 'time.time', 'time.perf_counter', 'time.monotonic', 'uuid.uuid1', 'uuid.uuid4')
LIST_OPS = {'append', 'insert', 'pop', 'remove', 'clear', 'extend', 'sort', 'reverse', 'index', 'count', 'copy', 'popleft', 'appendleft', '__contains__', '__len__', '__getitem__', '__setitem__', '__delitem__'}
DICT_OPS = {'get', 'pop', 'setdefault', 'items', 'keys', 'values', 'update', 'clear', 'copy', 'popitem', '__contains__', '__len__', '__getitem__', '__setitem__', '__delitem__'}
SET_OPS = {'add', 'discard', 'remove', 'clear', 'copy', 'update', 'union', 'intersection', 'difference', 'symmetric_difference', 'pop', 'difference_update', 'intersection_update',
           '__contains__', '__len__', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference_update'}
HEUR = {'append': 'list', 'extend': 'list', 'sort': 'list', 'setdefault': 'dict', 'items': 'dict', 'keys': 'dict', 'values': 'dict', 'discard': 'set', 'popleft': 'list'}
NONNULL = {'fresh', 'new', 'closure', 'bound', 'partial', 'class', 'enum', 'ext', 'tuple', 'weakref', 'copy', 'poly', 'len', 'idx', 'module', 'func', 'mcall', 'max', 'min', 'abs', 'joined', 'slice', 'sorted', 'enumerate',
           'range', 'zip', 'reversed', 'map', 'filter', 'items', 'keys', 'values', 'genexp', 'indexof', 'setop', 'glob', 'coro'}

KNOWN_NAMES = set(dir(builtins)) | {'__file__', '__name__', '__package__', '__path__', '__class__', '__annotations__'}

TASKS = {'create_task': 0, 'call_later': 1, 'call_at': 1, 'call_soon': 0, 'call_soon_threadsafe': 0}   # -> position of what is run


class Engine:
    def __init__(self, prog, inline_classes=(), opaque=(), raises=None, budget=6000, assume_int=True, max_depth=40, inline_modules=(), assume_ok=None, self_methods_opaque=(), geometry=True, reads=(), pure=False, events=False, meta=False, dyn=False, rec=2, alive=False, later=False, drops=False, strict=None):
        self.prog = prog
        self.inline_classes = set(inline_classes)
        self.inline_modules = set(inline_modules)
        self.meta = meta
        self.dyn, self.rec, self.alive = dyn, rec, alive
        self.strict = True if strict is None else strict     # operations certain to fail raise
        self.full = set()       # objects whose making was followed
        self.drops = drops      # a listener nothing refers to is no longer called
        self.later = later      # coroutines made by ordinary functions run at __run__()
        self.opaque = set(opaque)
        self.raises = raises
        self.budget = budget
        self.assume_int = assume_int
        self.max_depth = max_depth
        self.n = 0
        self.steps = 0
        self.symtypes = {}
        self.root_self = None
        self.root_module = None
        self.reads = frozenset(reads)
        self.diverged = []
        self.geometry = geometry
        self.inlined = set()
        self.restypes = {}
        self.factory = {}
        self.events = events    # fire calls the functions listening
        self.pure = pure        # equal calls of unknown code give equal results
        self.memo = {}
        self.resdef = {}
        self.unmodelled = set()
        self.copyof = {}        # deep copies of objects without a method for it
        self._plain = {}
        self.objenv = {}        # objects of classes made within a function: where
        self.born = {}          # initial content of the containers made
        self.copied = {}        # container made as a copy -> (original, version)

    # ------------------------------------------------------------------ roots
    def fresh(self):
        self.n += 1
        return self.n

    def run(self, func, self_cls=None, args=None, st=None, selfterm=None, closure_env=None, argtypes=None):
        """analyse a function as a root; args: name -> term overrides.  -> list of Path"""
        st = st.copy() if st is not None else St()
        self.steps = 0
        if self.root_module is None:
            self.root_module = func.module
        args = dict(args or {})
        a = func.node.args
        params = a.posonlyargs + a.args
        env = self.fresh()
        e = {'__parent__': closure_env}
        if func.cls is not None and func.outer is func.cls.outer_func and func.kind != 'static' and params and not isinstance(func.node, ast.Lambda):
            if func.kind == 'class':
                s = ('class', (self_cls or func.cls).id)
            else:
                s = selfterm or ('sym', 'self')
                self.symtypes.setdefault(s, 'cls:' + (self_cls or func.cls).id)
                if self.root_self is None:
                    self.root_self = s
            e[params[0].arg] = s
            selfterm = s
            params = params[1:]
        for p in params + a.kwonlyargs:
            t = args.get(p.arg, ('sym', p.arg))
            e[p.arg] = t
            ty = (argtypes or {}).get(p.arg) or self.prog.ann_type(func.module, p.annotation, func)
            if ty and t[0] == 'sym':
                self.symtypes.setdefault(t, ty)
                if (argtypes or {}).get(p.arg) in ('int', 'float'):
                    st.facts[('isnone', t)] = False
        if a.vararg:
            t = args.get(a.vararg.arg, ('sym', '*' + a.vararg.arg))
            e[a.vararg.arg] = t
            self.symtypes.setdefault(t, 'tuple')
        if a.kwarg:
            t = args.get(a.kwarg.arg, ('sym', '**' + a.kwarg.arg))
            e[a.kwarg.arg] = t
            self.symtypes.setdefault(t, 'dict')
        st.envs[env] = e
        fr = Frame(func, env, (func.id,), selfterm)
        out = []
        for s2, status, v in self.exec_func_body(func, st, fr):
            out.append(Path(s2, status, v))
        return out

    def exec_func_body(self, func, st, fr):
        self.inlined.add(func.id)
        out = []
        if isinstance(func.node, ast.Lambda):
            for s, v in self.ev(func.node.body, st, fr):
                out.append((s, 'raise', s.exc) if v is None else (s, 'ret', v))
            return out
        for s, status in self.ex(func.node.body, st, fr):
            if status[0] == 'ret':
                out.append((s, 'ret', status[1]))
            elif status[0] == 'next':
                out.append((s, 'ret', NONE))
            elif status[0] == 'raise':
                out.append((s, 'raise', s.exc))
            else:
                out.append((s, 'ret', NONE))
        return out

    # ------------------------------------------------------------------ types
    def type_of(self, t, st=None):
        op = t[0]
        if st is not None and t in st.types:
            return st.types[t]
        if op == 'const':
            return {'NoneType': 'none'}.get(t[1], t[1])
        if op in ('sym', 'glob'):
            return self.symtypes.get(t)
        if op == 'new':
            return t[1]
        if op == 'copy':
            return self.type_of(t[1], st)
        if op == 'fld':
            ot = self.type_of(t[1], st)
            if ot and ot.startswith('cls:') and isinstance(t[2], str):
                ci = self.prog.classes[ot[4:]]
                return self.prog.single_type(self.prog.field_types(ci, t[2]))
            return None
        if op in ('elem', 'item'):
            base = t[2] if op == 'elem' else t[1]
            while base[0] in ('copy', 'ver', 'keys'):
                base = base[1]
            if base[0] == 'fld':
                ot = self.type_of(base[1], st)
                if ot and ot.startswith('cls:') and isinstance(base[2], str):
                    ci = self.prog.classes[ot[4:]]
                    return self.prog.single_type(self.prog.elem_types(ci, base[2]))
            return None
        if op in ('len', 'idx', 'indexof'):
            return 'int'
        if op == 'poly':
            return 'num'
        if op in ('sorted', 'slice'):
            return 'list'
        if op in ('tuple',):
            return 'tuple'
        if op == 'setop':
            return 'set'
        if op == 'weakref':
            return 'weakref'
        if op in ('closure', 'bound', 'partial', 'func'):
            return 'fn'
        if op == 'res':
            return self.restypes.get(t)
        if op == 'app' and t[1] in ('str', 'repr', 'float', 'int', 'bool'):
            return {'repr': 'str'}.get(t[1], t[1])
        if op == 'app' and isinstance(t[1], str) and t[1] in ('.lower', '.upper', '.strip', '.lstrip', '.rstrip', '.replace', '.join', '.format', 'format', '.isoformat', '.casefold', '.removesuffix', '.removeprefix'):
            return 'str'
        if op == 'joined':
            return 'str'
        if op == 'phi':
            ty = self.restypes.get(t)
            return ty
        if op == 'deref':
            return self.restypes.get(t)
        return None

    def cls_of(self, t, st=None):
        ty = self.type_of(t, st)
        if ty and ty.startswith('cls:'):
            return self.prog.classes.get(ty[4:])
        return None

    def isint(self, d):
        p = T.to_poly(d)
        if p is None:
            return False
        for m in p:
            for a in m:
                if a[0] in ('len', 'idx', 'indexof'):
                    continue
                ty = self.type_of(a)
                if ty in ('int', 'bool'):
                    continue
                if ty is None and self.assume_int:
                    continue
                if a[0] in ('fdiv', 'mod') and self.assume_int:
                    continue
                return False
        return True

    # ------------------------------------------------------------------ state helpers
    def budget_check(self):
        self.steps += 1
        if self.steps > self.budget * 60:
            raise TooComplex()

    def emit(self, st, fr, node, kind, **kw):
        e = Eff(kind, line=getattr(node, 'lineno', 0), fn=fr.func, held=st.held, **kw)
        st.trace.append(e)
        return e

    def base_of(self, t):
        while t[0] == 'copy':
            t = t[1]
        return t

    def len_of(self, st, c):
        if c in st.content:
            return C(len(st.content[c]))
        if c in st.lens:
            return st.lens[c]
        if c[0] == 'tuple':
            if any(x[0] == 'star' for x in c[1]):
                return ('len', c)
            return C(len(c[1]))
        if c[0] == 'const' and c[1] == 'str':
            return C(len(c[2]))
        if c[0] == 'copy':
            v = st.vers.get(c[1], 0)
            if v == c[2]:
                return self.len_of(st, c[1])
            if c[2] == 0:
                return ('len', c[1])
            return ('len', ('ver', c[1], c[2]))
        if c[0] in ('sorted', 'reversed', 'enumerate'):
            return self.len_of(st, c[1])
        if c[0] == 'new' and c in st.built:
            b = st.built[c]
            if len(b[1]) == 1 and not b[1][0][0]:
                return self.len_of(st, b[0].base)
        return ('len', c)

    def bump(self, st, c, why='other'):
        st.vers[c] = st.vers.get(c, 0) + 1

    def container_known_other(self, st, c):
        """container changed in an unknown way"""
        self.bump(st, c)
        n = self.fresh()
        st.lens[c] = ('len', ('ver', c, n))
        st.muts[c] = [('other', n)]
        st.content.pop(c, None)
        st.built.pop(c, None)
        for k in [k for k in st.facts if k[0] == 'in' and k[2] == c]:
            del st.facts[k]
        for k in [k for k in st.dvals if k[0] == c]:
            del st.dvals[k]

    def mutate(self, st, fr, node, c, op, args, res=None):
        """apply a normalised mutation to container c; returns nothing (in place)"""
        ln = self.len_of(st, c)
        if op == 'insert' and T.is_const(args[0]) and args[0][1] == 'int' and c in st.content:
            n, i = len(st.content[c]), args[0][2]
            args = (C(max(0, n + i) if i < 0 else min(i, n)),) + tuple(args[1:])
        ex = {'len': ln, 'ver': st.vers.get(c, 0), 'was': self.known(st, ('in', args[0], c)) if op in ('add', 'discard') else None}
        if op in ('remove_at', 'set'):
            ex['item'] = self.read_item(st, c, args[0])
        self.emit(st, fr, node, 'mut', recv=c, name=op, args=args, res=res, extra=ex)
        ct = st.content.get(c)
        self.bump(st, c)
        st.built.pop(c, None)
        ms = list(st.muts.get(c, []))
        if op == 'insert':
            i, v = args
            st.lens[c] = T.add(ln, ONE)
            ms.append((op, i, v))
            if ct is not None:
                if T.is_const(i) and 0 <= i[2] <= len(ct):
                    st.content[c] = ct[:i[2]] + (v,) + ct[i[2]:]
                else:
                    del st.content[c]
            st.facts[('in', v, c)] = True
            for k in [k for k in st.facts if k[0] == 'in' and k[2] == c and k[1] != v and st.facts[k] is False]:
                if not self.provably_differ(k[1], v, st):
                    pass
        elif op == 'remove_at':
            i = args[0]
            st.lens[c] = T.sub(ln, ONE)
            ms.append((op, i))
            if ct is not None:
                if T.is_const(i) and 0 <= i[2] < len(ct):
                    st.content[c] = ct[:i[2]] + ct[i[2] + 1:]
                else:
                    del st.content[c]
            for k in [k for k in st.facts if k[0] == 'in' and k[2] == c and st.facts[k]]:
                del st.facts[k]
            if ct is None or c not in st.content:
                st.lens[c] = T.sub(ln, ONE)
        elif op == 'set':
            i, v = args
            st.lens[c] = ln
            ms.append((op, i, v))
            if ct is not None:
                if T.is_const(i) and 0 <= i[2] < len(ct):
                    st.content[c] = ct[:i[2]] + (v,) + ct[i[2] + 1:]
                else:
                    del st.content[c]
        elif op == 'clear':
            st.lens[c] = ZERO
            st.content[c] = ()
            ms = [('clear',)]
            for k in [k for k in st.facts if k[0] == 'in' and k[2] == c]:
                del st.facts[k]
            for k in [k for k in st.dvals if k[0] == c]:
                del st.dvals[k]
            st.facts[('empty', c)] = True
        elif op == 'add':
            known = self.known(st, ('in', args[0], c))
            st.lens[c] = ln if known else (T.add(ln, ONE) if known is False else ('len', ('ver', c, self.fresh())))
            st.facts[('in', args[0], c)] = True
            if ct is not None and args[0] not in ct:
                if all(self.distinct(x, args[0], st) for x in ct):
                    st.content[c] = ct + (args[0],)
                else:
                    del st.content[c]
            ms.append((op, args[0]))
        elif op == 'discard':
            known = self.known(st, ('in', args[0], c))
            st.lens[c] = ln if known is False else (T.sub(ln, ONE) if known else ('len', ('ver', c, self.fresh())))
            st.facts[('in', args[0], c)] = False
            if ct is not None:
                if all(x == args[0] or self.distinct(x, args[0], st) for x in ct):
                    st.content[c] = tuple(x for x in ct if x != args[0])
                else:
                    del st.content[c]
            ms.append((op, args[0]))
        elif op == 'dset':
            known = self.known(st, ('in', args[0], c))
            st.lens[c] = ln if known else (T.add(ln, ONE) if known is False else ('len', ('ver', c, self.fresh())))
            st.facts[('in', args[0], c)] = True
            st.dvals[(c, args[0])] = args[1]
            if ct is not None and args[0] not in ct:
                # keys with different value numbers are different keys
                st.content[c] = ct + (args[0],)
                st.lens[c] = C(len(ct) + 1)
            ms.append((op,) + tuple(args))
        elif op == 'ddel':
            st.lens[c] = T.sub(ln, ONE)
            st.facts[('in', args[0], c)] = False
            st.dvals.pop((c, args[0]), None)
            if ct is not None:
                if args[0] in ct:
                    st.content[c] = tuple(x for x in ct if x != args[0])
                else:
                    del st.content[c]
            ms.append((op,) + tuple(args))
        elif op in ('sort', 'reverse'):
            st.lens[c] = ln
            st.content.pop(c, None)
            ms.append(('other', self.fresh()))
        else:
            self.container_known_other(st, c)
            return
        st.muts[c] = ms

    def distinct(self, a, b, st):
        if self.alive and a[0] == b[0] == 'weakref':
            return self.distinct(a[1], b[1], st)
        if a[0] == b[0] == 'new' and a != b and not (self.cls_of(a, st) and self.prog.find_method(self.cls_of(a, st), '__eq__')):
            return True
        return self.provably_differ(a, b, st)

    def provably_differ(self, a, b, st):
        if a == b:
            return False
        if T.is_const(a) and T.is_const(b):
            return T.norm_num(a) != T.norm_num(b)
        k = self.known(st, ('eq',) + tuple(sorted((a, b), key=T.key_of)))
        if k is False:
            return True
        d = T.sub(a, b)
        if d[0] != 'sub':
            r = st.cmp('eq', d, self.isint(d))
            return r is False
        return False

    def read_item(self, st, c, i):
        """value at index/key i of container c (assuming it exists)"""
        if c[0] == 'tuple' and T.is_const(i) and i[1] == 'int':
            n = len(c[1])
            if -n <= i[2] < n and not any(x[0] == 'star' for x in c[1]):
                return c[1][i[2]]
            return ('item', c, i)
        if (c, i) in st.dvals:
            return st.dvals[(c, i)]
        if c in st.content:
            ct = st.content[c]
            if T.is_const(i) and i[1] == 'int' and -len(ct) <= i[2] < len(ct) and self.type_of(c) in ('list', 'tuple'):
                return ct[i[2]]
        if T.is_const(i) and i[1] == 'int' and i[2] < 0:
            ty = self.type_of(c, st)
            if ty in ('list', 'tuple', None) or ty is None:
                i = T.add(self.len_of(st, c), i)
        root = c
        if c[0] == 'copy':
            v = st.vers.get(c[1], 0)
            if not st.muts.get(c):
                if v == c[2]:
                    return self.read_item(st, c[1], i)
                root = c[1] if c[2] == 0 else ('ver', c[1], c[2])
                return self._mk_item(root, i)
        if c[0] == 'ver':
            return self._mk_item(c, i)
        for m in reversed(st.muts.get(c, [])):
            if m[0] == 'insert':
                d = T.sub(i, m[1])
                if d == ZERO:
                    return m[2]
                if d[0] == 'sub':
                    return ('item', ('ver', c, st.vers.get(c, 0)), i)
                lt = st.cmp('lt', d, True)
                if lt is True:
                    continue
                if lt is False and st.cmp('eq', d, True) is False:
                    i = T.sub(i, ONE)
                    continue
                return ('item', ('ver', c, st.vers.get(c, 0)), i)
            elif m[0] == 'set':
                if m[1] == i:
                    return m[2]
                if self.provably_differ(m[1], i, st):
                    continue
                return ('item', ('ver', c, st.vers.get(c, 0)), i)
            elif m[0] == 'remove_at':
                d = T.sub(i, m[1])
                lt = st.cmp('lt', d, True) if d[0] != 'sub' else None
                if lt is True:
                    continue
                if lt is False:
                    i = T.add(i, ONE)
                    continue
                return ('item', ('ver', c, st.vers.get(c, 0)), i)
            elif m[0] == 'dset':
                if m[1] == i:
                    return m[2]
                continue
            elif m[0] == 'ddel':
                continue
            else:
                return self._mk_item(('ver', c, m[1] if len(m) > 1 else st.vers.get(c, 0)), i)
        return self._mk_item(c, i)

    def _mk_item(self, c, i):
        if i[0] == 'idx' and i[2] == c:
            return ('elem', i[1], c)
        if i[0] == 'indexof' and i[1] == c:
            return i[2]
        if i[0] == 'max':
            pass
        return ('item', c, i)

    def get_field(self, st, obj, name):
        if (obj, name) in st.heap:
            return st.heap[(obj, name)]
        return ('fld', obj, name)

    def set_field(self, st, fr, node, obj, name, val):
        st.heap[(obj, name)] = val
        self.emit(st, fr, node, 'write', recv=obj, name=name, args=(val,))

    # ------------------------------------------------------------------ facts
    def known(self, st, atom):
        f = st.facts.get(atom)
        if f is not None:
            return f
        op = atom[0]
        if op == 'isnone':
            x = atom[1]
            if x == NONE:
                return True
            if self.alive and x[0] == 'deref':
                return False
            if x[0] in ('const',) or x[0] in NONNULL:
                return False
            if x[0] == 'app' and self.rx_found(x) is not None:
                return False
            if x in st.eqc:
                return st.eqc[x] == NONE
            if st.facts.get(('truthy', x)):
                return False
            if x[0] == 'app' and self.type_of(x, st) == 'str':
                return False
            if x[0] == 'app' and x[1] != 'getattr' and not str(x[1]).startswith('.') and not str(x[1]).startswith('re.'):
                return False
            if any(k[0] == 'isinst' and k[1] == x and v for k, v in st.facts.items()):
                return False
            f = st.form(x)
            if f and f[0] and f[0] in st.bounds and len(f[0]) == 1:
                b = st.bounds[f[0]]
                if b[0] != -float('inf') or b[2] != float('inf'):
                    return False
            return None
        if op == 'truthy':
            x = atom[1]
            if x[0] == 'const':
                return bool(x[2])
            if x[0] in ('closure', 'bound', 'partial', 'class', 'func', 'ext', 'weakref', 'enum', 'module'):
                return True
            if x[0] == 'new':
                ci = self.cls_of(x)
                if ci and not self.has_bool(ci):
                    return True
            if st.facts.get(('isnone', x)):
                return False
            if x in st.eqc and st.eqc[x][0] == 'const':
                return bool(st.eqc[x][2])
            return None
        if op in ('eq', 'is'):
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if a[0] == 'const' and b[0] == 'const':
                return T.norm_num(a) == T.norm_num(b) if op == 'eq' else a == b
            distinct = ('enum', 'class', 'ext', 'func', 'const')
            if a[0] in distinct and b[0] in distinct:
                return False
            if a[0] == 'new' and b[0] == 'new' and op == 'is':
                return False
            if a[0] == 'fresh' and b[0] == 'fresh' and a[1] == b[1] and a[1].startswith('uuid.'):
                return False
            for x, y in ((a, b), (b, a)):
                if y[0] in ('const', 'enum') and x in st.eqc and st.eqc[x] != y:
                    return False
                if y[0] in ('const', 'enum') and st.eqc.get(x) == y:
                    return True
                if y[0] == 'const' and y[2] is not None and x[0] in ('new', 'closure', 'bound'):
                    return False
                if y[0] in ('const', 'enum') and st.facts.get(('isnone', x)):
                    return False
                if y[0] == 'const' and y[2] and st.facts.get(('truthy', x)) is False:
                    return False
                if y[0] == 'const' and y[2] == '' and st.facts.get(('truthy', x)):
                    return False
            if a in st.eqc and b in st.eqc:
                return st.eqc[a] == st.eqc[b]
            if op == 'eq' and st.facts.get(('is', a, b)):
                return True
            if op == 'is' and st.facts.get(('eq', a, b)) is False:
                return False
            return None
        if op == 'in':
            x, c = atom[1], atom[2]
            ct = st.content.get(c)
            if ct is None and c[0] == 'tuple':
                ct = c[1]
            if ct is not None:
                if x in ct:
                    return True
                if all(T.is_const(y) for y in ct) and T.is_const(x):
                    return any(T.norm_num(y) == T.norm_num(x) for y in ct)
                if not ct:
                    return False
                if c[0] == 'new' and len(ct) <= 8 and not any(y[0] == 'star' for y in ct) and all(self.distinct(x, y, st) for y in ct):
                    return False
            if c[0] == 'copy' and st.vers.get(c[1], 0) == c[2] and not st.muts.get(c):
                return self.known(st, ('in', x, c[1]))
            if x[0] == 'elem' and x[2] == c and c not in st.vers:
                return True
            if x[0] == 'elem' and x[2] == ('keys', c) and c not in st.vers:
                return True
            if x[0] == 'item' and x[1] == c and c not in st.vers:
                return True if self.type_of(c, st) == 'list' else None
            return None
        if op == 'callable':
            x = atom[1]
            if x[0] in ('closure', 'bound', 'partial', 'class', 'func', 'mcall', 'weakref'):
                return True
            if x[0] == 'const':
                return False
            if st.facts.get(('isnone', x)):
                return False
            return None
        if op == 'isinst':
            return None
        if op == 'hasattr':
            if atom[1][0] == 'module' and atom[2][0] == 'const' and atom[2][2] in self.prog.modules[atom[1][1]].globals:
                return True
            x = atom[1]
            ci = self.cls_of(x, st)
            if ci and atom[2][0] == 'const':
                nm = atom[2][2]
                if self.prog.find_method(ci, nm) or self.prog.find_prop(ci, nm):
                    return True
                if (x, nm) in st.heap:
                    return True
            return None
        return None

    def has_bool(self, ci):
        for n in ('__bool__', '__len__'):
            if self.prog.find_method(ci, n):
                return True
        return False

    def put_fact(self, st, atom, val):
        st.facts[atom] = val
        op = atom[0]
        if op == 'isnone' and val:
            st.eqc[atom[1]] = NONE
        if op == 'isnone' and not val and st.eqc.get(atom[1]) == NONE:
            st.dead = True
        if op in ('eq', 'is') and val:
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                if y[0] in ('const', 'enum') and x[0] not in ('const', 'enum'):
                    st.eqc[x] = y
        if op == 'truthy' and val:
            st.facts.setdefault(('isnone', atom[1]), False)

    def split(self, st, fr, node, atom):
        if atom[0] in ('isnone', 'truthy'):
            while atom[1][0] == 'app' and atom[1][1] in ('copy.deepcopy', 'copy.copy') and len(atom[1]) == 3:
                atom = (atom[0], atom[1][2])    # a copy is absent (empty) when the original is
        k = self.known(st, atom)
        if k is not None:
            return [(st, k)]
        out = []
        for v in (True, False):
            s = st.copy()
            self.put_fact(s, atom, v)
            s.trace.append(Eff('assume', name=v, args=(atom,), line=getattr(node, 'lineno', 0), fn=fr.func, held=s.held))
            if not s.dead:
                out.append((s, v))
        self.budget_check()
        return out

    def split_cmp(self, st, fr, node, op, d):
        """split on d op 0 (op lt/le/eq)"""
        d = self.clear_inv(st, op, d)
        f = self.found(op, d)
        if f is not None:
            return [(s, v == f[1]) for s, v in self.split(st, fr, node, f[0])]
        ii = self.isint(d)
        k = st.cmp(op, d, ii)
        if k is not None:
            return [(st, k)]
        out = []
        for v in (True, False):
            s = st.copy()
            s.assume_cmp(op, d, v, ii)
            s.trace.append(Eff('assume', name=v, args=((op, d),), line=getattr(node, 'lineno', 0), fn=fr.func, held=s.held))
            if not s.dead:
                if op == 'eq' and v:
                    self._propagate_eq(s, d)
                out.append((s, v))
        self.budget_check()
        return out

    def clear_inv(self, st, op, d):
        """a comparison multiplied through by a denominator of known sign"""
        for _ in range(4):
            p = T.to_poly(d)
            x = next((a[1] for m in sorted(p or {}, key=T.key_of) for a in m if a[0] == 'inv'), None)
            if x is None:
                return d
            if st.cmp('lt', T.neg(x), False):
                d = T.mul(d, x)
            elif st.cmp('lt', x, False):
                d = T.neg(T.mul(d, x))
            elif op == 'eq' and st.cmp('eq', x, False) is False:
                d = T.mul(d, x)
            else:
                return d
        return d

    @staticmethod
    def found(op, d):
        """a comparison that only asks whether a text was found: (membership atom, truth of the comparison if it is there)"""
        p = T.to_poly(d)
        ms = [m for m in p if m] if p else []
        if len(ms) != 1 or len(ms[0]) != 1 or abs(p[ms[0]]) != 1:
            return None
        x = ms[0][0]
        if x[0] != 'app' or x[1] not in ('.find', '.rfind', '.count') or len(x) != 4:
            return None
        a, c = p[ms[0]], p.get((), 0)
        out, first = (-1, 0) if x[1] != '.count' else (0, 1)
        val = lambda n: {'lt': a * n + c < 0, 'le': a * n + c <= 0, 'eq': a * n + c == 0}[op]
        big = 10 ** 9
        inside = val(first)
        if val(out) == inside or val(first + 1) != inside or val(big) != inside:
            return None
        return ('in', x[3], x[2]), inside

    def _propagate_eq(self, s, d):
        p = T.to_poly(d)
        # x - c == 0 for an atom
        if p and len(p) <= 2:
            ms = [m for m in p if m]
            if len(ms) == 1 and len(ms[0]) == 1:
                c = -p.get((), 0) / p[ms[0]]
                s.eqc[ms[0][0]] = T.from_poly({(): c})

    def truth(self, st, fr, node, t):
        op = t[0]
        if op == 'const':
            return [(st, bool(t[2]))]
        if op in ('genexp', 'map', 'filter', 'zip', 'enumerate', 'reversed', 'closure', 'bound', 'partial', 'class', 'func', 'ext', 'weakref', 'enum', 'module', 'mcall'):
            return [(st, True)]
        if op == 'tuple':
            return [(st, bool(t[1]))]
        if op == 'app' and t[1] in ('re.match', 're.search', 're.fullmatch'):
            return [(s, not v) for s, v in self.split(st, fr, node, ('isnone', t))]
        if op == 'not':
            return [(s, not v) for s, v in self.truth(st, fr, node, t[1])]
        ty = self.type_of(t, st)
        if ty in ('list', 'dict', 'set', 'tuple') or op in ('len',):
            n = self.len_of(st, t) if op != 'len' else t
            # an optional container: None is falsy as well
            outs = []
            for s, isn in (self.split(st, fr, node, ('isnone', t)) if ty and self.maybe_none(t, st) else [(st, False)]):
                if isn:
                    outs.append((s, False))
                else:
                    outs += [(s2, not v) for s2, v in self.split_cmp(s, fr, node, 'le', n)]
            return outs
        if ty in ('int', 'num', 'float') and op != 'phi' or op == 'poly':
            if not self.maybe_none(t, st):
                return [(s, not v) for s, v in self.split_cmp(st, fr, node, 'eq', t)]
        ci = self.cls_of(t, st)
        if (ci is not None and not self.has_bool(ci)) or ty in ('fn', 'obj', 'weakref', 'lock', 'thread', 'tevent', 'queue'):
            return [(s, not v) for s, v in self.split(st, fr, node, ('isnone', t))]
        if ci is not None:
            f = self.prog.find_method(ci, '__bool__')
            if f and self.may_inline(f, t, fr):
                out = []
                for s, v in self.call_func(f, [t], [], st, fr, node, selfterm=t):
                    if v is None:
                        out.append((s, None))
                    else:
                        out += self.truth(s, fr, node, v)
                return out
        return self.split(st, fr, node, ('truthy', t))

    def maybe_none(self, t, st):
        if t[0] == 'fld':
            ci = self.cls_of(t[1], st)
            if ci:
                ts = self.prog.field_types(ci, t[2]) if isinstance(t[2], str) else set()
                return 'none' in ts
            return False
        return False

    # ------------------------------------------------------------------ statements
    def ex(self, stmts, st, fr):
        """-> [(st, status)], status tuples: ('next',) ('ret',v) ('raise',) ('break',) ('cont',)"""
        cur = [st]
        done = []
        for i, n in enumerate(stmts):
            nxt = []
            for s in cur:
                for s2, status in self.ex1(n, s, fr, stmts, i):
                    if status[0] == 'next':
                        nxt.append(s2)
                    else:
                        done.append((s2, status))
            cur = nxt
            if len(cur) + len(done) > self.budget:
                raise TooComplex()
            if not cur:
                break
        return done + [(s, ('next',)) for s in cur]

    def R(self, outs):
        """expression outcomes -> statement outcomes"""
        return [(s, ('raise',) if v is None else ('next',)) for s, v in outs]

    def ex1(self, n, st, fr, stmts=None, pos=0):
        self.budget_check()
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            self.unmodelled.add(type(n).__name__)
            return [(st, ('next',))]
        return m(n, st, fr)

    def ex_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, ('next',))]
        return self.R(self.ev(n.value, st, fr))

    def ex_Pass(self, n, st, fr):
        return [(st, ('next',))]

    def ex_Import(self, n, st, fr):
        for al in n.names:
            nm = al.asname or al.name.split('.')[0]
            full = al.name if al.asname else nm
            st.envs[fr.env][nm] = ('module', full) if full in self.prog.models else ('ext', full)
        return [(st, ('next',))]

    def ex_ImportFrom(self, n, st, fr):
        for al in n.names:
            nm = al.asname or al.name
            m = self.prog.models.get(n.module) if not n.level else None
            g = m and self.prog.global_ref(m, al.name)
            if g and g[0] in ('class', 'func'):
                st.envs[fr.env][nm] = self.ref_term(g, m, al.name, st)
            elif al.name in self.prog.modules:
                st.envs[fr.env][nm] = ('module', al.name)
            else:
                st.envs[fr.env][nm] = ('ext', (n.module or '') + '.' + al.name)
        return [(st, ('next',))]

    def ex_Global(self, n, st, fr):
        return [(st, ('next',))]

    ex_Nonlocal = ex_Global

    def ex_FunctionDef(self, n, st, fr):
        f = self.prog.func_by_node.get(id(n))
        if f is None:
            raise TooComplex()
        t = self.closure(f, n, st, fr)
        decs = [dotted(d) for d in n.decorator_list]
        self.bind_name(st, fr, n.name, t)
        for d in n.decorator_list:
            if dotted(d) in ('contextlib.contextmanager', 'contextmanager', 'functools.wraps'):
                continue
            self.emit(st, fr, n, 'call', recv=None, name='decorator:' + str(dotted(d)), args=(t,))
        return [(st, ('next',))]

    ex_AsyncFunctionDef = ex_FunctionDef

    def ex_ClassDef(self, n, st, fr):
        ci = self.prog.class_by_node.get(id(n))
        self.bind_name(st, fr, n.name, ('class', ci.id, fr.env))
        return [(st, ('next',))]

    def ex_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, ('raise',) if v is None else ('ret', v)) for s, v in self.ev(n.value, st, fr)]

    def ex_Break(self, n, st, fr):
        return [(st, ('break',))]

    def ex_Continue(self, n, st, fr):
        return [(st, ('cont',))]

    def ex_Raise(self, n, st, fr):
        if n.exc is None:
            if st.exc is None:
                st.exc = ('exc', 'reraise', None)
            return [(st, ('raise',))]
        out = []
        e = n.exc
        name = dotted(e) or '?'
        outs = self.ev(e, st, fr) if not isinstance(e, ast.Call) else self.ev_raise_call(e, st, fr)
        for s, v in outs:
            if v is not None:
                if v[0] in ('exc',):
                    s.exc = v
                else:
                    s.exc = ('exc', name.split('.')[-1], v)
                self.emit(s, fr, n, 'raise', name=name.split('.')[-1])
            out.append((s, ('raise',)))
        return out

    def ev_raise_call(self, e, st, fr):
        outs = []
        for s, vs in self.ev_list(e.args, st, fr):
            outs.append((s, None if vs is None else ('tuple', tuple(vs))))
        return outs

    def ex_Assert(self, n, st, fr):
        out = []
        for s, v in self.cond(n.test, st, fr):
            if v is None:
                out.append((s, ('raise',)))
            elif v:
                out.append((s, ('next',)))
            else:
                s.exc = ('exc', 'AssertionError', NONE)
                self.emit(s, fr, n, 'raise', name='AssertionError')
                out.append((s, ('raise',)))
        return out

    def ex_Delete(self, n, st, fr):
        cur = [st]
        done = []
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s.envs[fr.env].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s, fr):
                        if o is None:
                            done.append((s2, ('raise',)))
                            continue
                        nm = mangle(t.attr, fr.cls)
                        s2.heap[(o, nm)] = ('unk', self.fresh())
                        self.emit(s2, fr, n, 'delattr', recv=o, name=nm)
                        nxt.append(s2)
                elif isinstance(t, ast.Subscript):
                    for s2, vs in self.ev_list([t.value] + ([] if isinstance(t.slice, ast.Slice) else [t.slice]), s, fr):
                        if vs is None:
                            done.append((s2, ('raise',)))
                            continue
                        c = vs[0]
                        if isinstance(t.slice, ast.Slice):
                            if t.slice.lower is None and t.slice.upper is None:
                                self.mutate(s2, fr, n, c, 'clear', ())
                            else:
                                self.mutate(s2, fr, n, c, 'delslice', ())
                            nxt.append(s2)
                            continue
                        ci = self.cls_of(c, s2)
                        f = self.prog.find_method(ci, '__delitem__') if ci is not None else None
                        for s3, ok in (self.call_func(f, [c, vs[1]], [], s2, fr, n, selfterm=c) if f is not None and self.may_inline(f, c, fr) else self.del_item(s2, fr, n, c, vs[1])):
                            if ok is None:
                                done.append((s3, ('raise',)))
                            else:
                                nxt.append(s3)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for s2, status in self.ex_Delete(ast.Delete(targets=t.elts), s, fr):
                        if status[0] == 'next':
                            nxt.append(s2)
                        else:
                            done.append((s2, status))
            cur = nxt
        return done + [(s, ('next',)) for s in cur]

    def boom(self, st, fr, node, name):
        st.exc = ('exc', name, NONE)
        self.emit(st, fr, node, 'raise', name=name, extra='certain')
        return [(st, None)]

    def nothing(self, st, v):
        """is v certainly None (asked only where that is an error)"""
        return self.strict and v is not None and (v == NONE or v[0] not in ('const', 'new', 'tuple') and self.known(st, ('isnone', v)) is True)

    KINDS = {'int': int, 'float': float, 'str': str, 'bool': bool, 'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'none': type(None)}

    def kind(self, st, v):
        """the built-in type v certainly has"""
        if v == NONE or self.nothing(st, v):
            return type(None)
        if v[0] == 'const':
            return self.KINDS.get(v[1])
        if v[0] == 'tuple':
            return tuple
        if v[0] == 'new' and v[1] in ('list', 'dict', 'set'):
            return self.KINDS[v[1]]
        return None

    PLAIN = {'object', 'abc.ABC', 'typing.Generic', 'Generic', 'ABC', 'typing.Protocol'}

    def lacks(self, st, o, name):
        """is o certain to have no attribute of that name"""
        if not self.strict or name.startswith('__') and name.endswith('__'):
            return False
        k = self.kind(st, o)
        if k is not None:
            return not hasattr(k, name)
        if o[0] != 'new' or o not in self.full or self.loop_depth or (o, name) in st.heap:
            return False
        ci = self.cls_of(o, st)
        if ci is None or any(b not in self.PLAIN for b in self.prog.ext_bases(ci)) or any((self.prog.resolve_expr(c.module, b, c.outer_func) or ('?',))[0] not in ('class', 'ext', 'builtin') and not isinstance(b, ast.Subscript) for c in self.prog.mro(ci) for b in c.base_exprs):
            return False
        if self.events and '<client' in o[1] and name.endswith('_event'):
            return False        # events of the client's objects are taken as given
        if any(name in c.attrs or name in c.methods for c in self.prog.mro(ci)) or self.prog.find_prop(ci, name) or self.prog.find_method(ci, '__getattr__') or self.prog.find_method(ci, '__getattribute__') or self.prog.find_method(ci, '__slots__'):
            return False
        return True

    def missing(self, st, c, k, fr, node):
        """is the constant index or key certainly not in a container whose elements are all known"""
        ct = c[1] if c[0] == 'tuple' else st.content.get(c)
        if ct is None or not T.is_const(k) or any(x[0] == 'star' for x in ct) or c in self.factory:
            return False
        ty = 'list' if c[0] == 'tuple' else self.type_of(c, st)
        if ty == 'list' and k[1] == 'int' and not -len(ct) <= k[2] < len(ct):
            st.exc = ('exc', 'IndexError', NONE)
            self.emit(st, fr, node, 'raise', name='IndexError')
            return True
        if ty == 'dict' and all(x[0] == 'const' for x in ct) and T.norm_num(k) not in [T.norm_num(x) for x in ct]:
            st.exc = ('exc', 'KeyError', NONE)
            self.emit(st, fr, node, 'raise', name='KeyError')
            return True
        return False

    def del_item(self, st, fr, n, c, k):
        if self.strict and self.kind(st, c) in (type(None), int, float, bool, set, tuple, str):
            return self.boom(st, fr, n, 'TypeError')
        if self.missing(st, c, k, fr, n):
            return [(st, None)]
        ty = self.type_of(c, st)
        isdict = ty == 'dict' or (ty is None and not self.looks_int(k, st))
        outs = []
        if isdict:
            if self.catches(st, 'KeyError'):
                for s, v in self.split(st, fr, n, ('in', k, c)):
                    if v:
                        self.mutate(s, fr, n, c, 'ddel', (k,))
                        outs.append((s, True))
                    else:
                        s.exc = ('exc', 'KeyError', NONE)
                        outs.append((s, None))
                return outs
            self.mutate(st, fr, n, c, 'ddel', (k,))
        else:
            if T.is_const(k) and k[1] == 'int' and k[2] < 0:
                k = T.add(self.len_of(st, c), k)
            self.mutate(st, fr, n, c, 'remove_at', (k,))
        return [(st, True)]

    def looks_int(self, k, st):
        return k[0] in ('poly', 'idx', 'len', 'indexof') or (T.is_const(k) and k[1] == 'int') or self.type_of(k, st) in ('int', 'num') or \
            (k[0] in ('sym', 'phi') and ('index' in str(k[-1]) or str(k[-1]) in ('i', 'idx', 'pos', 'n')))

    def ex_Assign(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if v is None:
                out.append((s, ('raise',)))
                continue
            cur = [s]
            for t in n.targets:
                nxt = []
                for s1 in cur:
                    for s2, status in self.assign(t, v, s1, fr, n):
                        if status[0] == 'next':
                            nxt.append(s2)
                        else:
                            out.append((s2, status))
                cur = nxt
            out += [(x, ('next',)) for x in cur]
        return out

    def ex_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, ('next',))]
        out = []
        for s, v in self.ev(n.value, st, fr):
            if v is None:
                out.append((s, ('raise',)))
            else:
                out += self.assign(n.target, v, s, fr, n)
        return out

    def ex_AugAssign(self, n, st, fr):
        # x op= y
        load = self._as_load(n.target)
        out = []
        for s, vs in self.ev_list([load, n.value], st, fr):
            if vs is None:
                out.append((s, ('raise',)))
                continue
            a, b = vs
            ty = self.type_of(a, s)
            if isinstance(n.op, ast.Add) and ty == 'list':
                out += self.R(self.list_extend(s, fr, n, a, b))
                continue
            if isinstance(n.op, ast.BitOr) and ty == 'set':
                out += self.R(self.set_update(s, fr, n, a, b, 'add'))
                continue
            if isinstance(n.op, ast.Sub) and ty == 'set':
                out += self.R(self.set_update(s, fr, n, a, b, 'discard'))
                continue
            if isinstance(n.op, ast.BitOr) and ty == 'dict':
                self.dict_update(s, fr, n, a, b)
                out.append((s, ('next',)))
                continue
            if ty in ('set', 'dict') or isinstance(n.op, (ast.BitAnd, ast.BitXor)) and ty == 'set':
                self.mutate(s, fr, n, a, 'update', (b,))
                out.append((s, ('next',)))
                continue
            for s2, v in self.binop(n.op, a, b, s, fr, n):
                if v is None:
                    out.append((s2, ('raise',)))
                else:
                    out += self.assign(n.target, v, s2, fr, n)
        return out

    def _as_load(self, t):
        import copy as _c
        t2 = _c.copy(t)
        t2.ctx = ast.Load()
        return t2

    def bind_name(self, st, fr, name, v):
        # the environment in which the name lives
        f, env = fr.func, fr.env
        if f is not None and name in f.nonlocals:
            p = st.envs[env].get('__parent__')
            g = f.outer
            while p is not None and g is not None:
                if name in g.locals:
                    st.envs[p][name] = v
                    return
                p = st.envs[p].get('__parent__')
                g = g.outer
            st.heap[(('module', f.module.name), name)] = v
            self.emit(st, fr, f.node, 'write', recv=('module', f.module.name), name=name, args=(v,))
            return
        st.envs[env][name] = v

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            self.bind_name(st, fr, t.id, v)
            return [(st, ('next',))]
        if isinstance(t, (ast.Tuple, ast.List)):
            if self.own_iter(v, st, fr) is not None:
                out = []
                for s, x in self.materialise(v, st, fr, node):
                    if x is None:
                        out.append((s, ('raise',)))
                    elif x == v:
                        raise TooComplex()
                    else:
                        out += self.assign(t, x, s, fr, node)
                return out
            if v[0] in ('genexp', 'map', 'filter'):
                out = []
                for s, ct in self.elements_of(v, st, fr, node):
                    if ct is None:
                        raise TooComplex()
                    out += self.assign(t, ('tuple', tuple(ct)), s, fr, node)
                return out
            if self.strict:
                ct = v[1] if v[0] == 'tuple' else st.content.get(v) if self.type_of(v, st) == 'list' else None
                if self.kind(st, v) in (type(None), int, float, bool):
                    return [(s, ('raise',)) for s, _ in self.boom(st, fr, node, 'TypeError')]
                if ct is not None and not any(x[0] == 'star' for x in ct) and len(ct) != len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    return [(s, ('raise',)) for s, _ in self.boom(st, fr, node, 'ValueError')]
            cur = [st]
            done = []
            for i, e in enumerate(t.elts):
                nxt = []
                for s in cur:
                    if isinstance(e, ast.Starred):
                        x, e2 = ('unk', self.fresh()), e.value
                    else:
                        e2 = e
                        x = self.read_item(s, v, C(i)) if v[0] != 'unk' else ('unk', self.fresh())
                    for s2, status in self.assign(e2, x, s, fr, node):
                        (nxt if status[0] == 'next' else done).append(s2 if status[0] == 'next' else (s2, status))
                cur = nxt
            return done + [(s, ('next',)) for s in cur]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fr):
                if o is None:
                    out.append((s, ('raise',)))
                    continue
                out += self.R(self.store_attr(s, fr, node, o, mangle(t.attr, fr.cls), v))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for s, vs in self.ev_list([t.value], st, fr):
                    if vs is None:
                        out.append((s, ('raise',)))
                        continue
                    if t.slice.lower is None and t.slice.upper is None:
                        self.mutate(s, fr, node, vs[0], 'clear', ())
                        out += self.R(self.list_extend(s, fr, node, vs[0], v))
                    else:
                        self.mutate(s, fr, node, vs[0], 'setslice', (v,))
                        out.append((s, ('next',)))
                return out
            for s, vs in self.ev_list([t.value, t.slice], st, fr):
                if vs is None:
                    out.append((s, ('raise',)))
                    continue
                out += self.R(self.store_item(s, fr, node, vs[0], vs[1], v))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr, node)
        raise TooComplex()

    def store_item(self, st, fr, node, c, k, v):
        if self.strict:
            if self.kind(st, c) in (type(None), int, float, bool, set, tuple, str):
                return self.boom(st, fr, node, 'TypeError')
            if self.type_of(c, st) == 'list' and self.missing(st, c, k, fr, node):
                return [(st, None)]
        ci = self.cls_of(c, st)
        if ci is not None:
            f = self.prog.find_method(ci, '__setitem__')
            if f and self.may_inline(f, c, fr):
                return self.call_func(f, [c, k, v], [], st, fr, node, selfterm=c)
            return self.opaque_call(st, fr, node, c, '__setitem__', [k, v], [])
        ty = self.type_of(c, st)
        if ty == 'list' or (ty is None and self.looks_int(k, st)):
            if T.is_const(k) and k[1] == 'int' and k[2] < 0:
                k = T.add(self.len_of(st, c), k)
            self.mutate(st, fr, node, c, 'set', (k, v))
        else:
            self.mutate(st, fr, node, c, 'dset', (k, v))
        return [(st, NONE)]

    def store_attr(self, st, fr, node, o, name, v, plain=False):
        if self.strict and self.kind(st, o) is not None:
            return self.boom(st, fr, node, 'AttributeError')
        ci = self.cls_of(o, st)
        if ci is not None:
            sa = self.prog.find_method(ci, '__setattr__') if self.dyn and not plain else None
            if sa and self.may_inline(sa, o, fr):
                return self.call_func(sa, [o, C(name), v], [], st, fr, node, selfterm=o)
            p = self.prog.find_prop(ci, name)
            if p and 'set' in p and (self.may_inline(p['set'], o, fr)):
                return self.call_func(p['set'], [o, v], [], st, fr, node, selfterm=o)
        self.set_field(st, fr, node, o, name, v)
        return [(st, NONE)]

    def ex_If(self, n, st, fr):
        out = []
        for s, v in self.cond(n.test, st, fr):
            if v is None:
                out.append((s, ('raise',)))
            else:
                out += self.ex(n.body if v else n.orelse, s, fr)
        return out

    def ex_Try(self, n, st, fr):
        names = []
        for h in n.handlers:
            if h.type is None:
                names.append('BaseException')
            elif isinstance(h.type, ast.Tuple):
                names += [(dotted(e) or '?').split('.')[-1] for e in h.type.elts]
            else:
                names.append((dotted(h.type) or '?').split('.')[-1])
        save = st.tries
        if names:
            st.tries = st.tries + (tuple(names),)
        else:
            st.tries = st.tries + (('finally',),)
        res, gone = [], []
        for s, status in self.ex(n.body, st, fr):
            s.tries = save
            if status[0] == 'raise' and self.waits(s, fr):
                gone.append((s, status))
            elif status[0] == 'raise':
                res += self.handle(n, s, fr)
            elif status[0] == 'next' and n.orelse:
                res += self.ex(n.orelse, s, fr)
            else:
                res.append((s, status))
        if not n.finalbody:
            return res + gone
        out = gone
        for s, status in res:
            if status[0] == 'raise' and self.waits(s, fr):
                out.append((s, status))
                continue
            exc = s.exc
            s.exc = None
            self.emit(s, fr, n, 'finally')
            for s2, st2 in self.ex(n.finalbody, s, fr):
                if st2[0] == 'next':
                    s2.exc = exc
                    out.append((s2, status))
                else:
                    out.append((s2, st2))
        return out

    ex_TryStar = ex_Try

    def waits(self, s, fr):
        """the thread waits for another: nothing more happens on this path up to the model that ends it"""
        return bool(self.prog.models) and s.exc is not None and s.exc[1] == 'Blocked' and fr.module is not self.prog.models.get('threading')

    HIER = {'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'), 'ValueError': ('Exception',), 'TypeError': ('Exception',), 'AttributeError': ('Exception',),
            'AssertionError': ('Exception',), 'StopIteration': ('Exception',), 'NotImplementedError': ('RuntimeError', 'Exception'), 'RuntimeError': ('Exception',), 'Exception': (), 'OSError': ('Exception',), 'GeneratorExit': ('BaseException',), 'UnboundLocalError': ('NameError', 'Exception'), 'NameError': ('Exception',), 'ZeroDivisionError': ('ArithmeticError', 'Exception')}

    def handle(self, n, st, fr):
        exc = st.exc
        out = []
        ename = exc[1] if exc else '?'
        cur = st
        for h in n.handlers:
            if h.type is None:
                hn = ['BaseException']
            elif isinstance(h.type, ast.Tuple):
                hn = [(dotted(e) or '?').split('.')[-1] for e in h.type.elts]
            else:
                hn = [(dotted(h.type) or '?').split('.')[-1]]
            match = None
            if 'BaseException' in hn:
                match = True
            elif ename == '*':
                match = True if 'Exception' in hn else None
            elif ename in hn or any(x in self.HIER.get(ename, ('Exception',)) for x in hn):
                match = True
            elif ename == 'reraise':
                match = None
            else:
                match = False
            if match is False:
                continue
            s = cur.copy()
            s.exc = None
            self.emit(s, fr, h, 'caught', name='|'.join(hn), args=(exc,) if exc else ())
            if h.name:
                s.envs[fr.env][h.name] = exc or ('exc', '?', None)
            for s2, status in self.ex(h.body, s, fr):
                if status[0] == 'raise' and s2.exc and s2.exc[1] == 'reraise':
                    s2.exc = exc
                out.append((s2, status))
            if match:
                return out
        out.append((cur, ('raise',)))
        return out

    def catches(self, st, ename):
        for names in st.tries:
            if ename in names or any(x in names for x in self.HIER.get(ename, ('Exception',))) or 'BaseException' in names:
                return True
        return False

    # ---- with
    def ex_With(self, n, st, fr):
        return self.with_items(n, list(n.items), st, fr)

    ex_AsyncWith = ex_With

    def with_items(self, n, items, st, fr):
        if not items:
            return self.ex(n.body, st, fr)
        it = items[0]
        out = []
        for s, cm in self.ev(it.context_expr, st, fr):
            if cm is None:
                out.append((s, ('raise',)))
                continue
            if cm[0] == 'cm':       # a contextlib.contextmanager generator
                out += self.with_generator(n, items, cm, s, fr)
                continue
            ty = self.type_of(cm, s)
            nm = cm[2] if cm[0] == 'fld' else (cm[1] if cm[0] == 'sym' else '')
            if ty == 'lock' or (ty is None and isinstance(nm, str) and ('mutex' in nm or 'lock' in nm)):
                self.emit(s, fr, n, 'acq', recv=cm)
                save = s.held
                s.held = save + (cm,)
                cur = [(s, ('next',))]
                if it.optional_vars is not None:
                    cur = self.assign(it.optional_vars, cm, s, fr, n)
                for s1, _ in cur:
                    for s2, status in self.with_items(n, items[1:], s1, fr):
                        s2.held = save
                        self.emit(s2, fr, n, 'rel', recv=cm)
                        out.append((s2, status))
                continue
            ci = self.cls_of(cm, s)
            ent = self.prog.find_method(ci, '__enter__') if ci else None
            ext = self.prog.find_method(ci, '__exit__') if ci else None
            inl = ent and ext and (self.may_inline(ent, cm, fr) or cm[0] == 'new')
            if cm[0] == 'suppress':
                save = s.tries
                s.tries = save + (cm[1],)
                for s2, status in self.with_items(n, items[1:], s, fr):
                    s2.tries = save
                    if status[0] == 'raise':
                        en = s2.exc[1] if s2.exc else '?'
                        if en == '*' and 'Exception' in cm[1] or en in cm[1] or any(x in cm[1] for x in self.HIER.get(en, ('Exception',))) or 'BaseException' in cm[1]:
                            s2.exc = None
                            out.append((s2, ('next',)))
                            continue
                    out.append((s2, status))
                continue
            if inl:
                ents = self.call_func(ent, [cm], [], s, fr, n, selfterm=cm)
            else:
                ents = self.opaque_call(s, fr, n, cm, '__enter__', [], [])
            for s1, ev in ents:
                if ev is None:
                    out.append((s1, ('raise',)))
                    continue
                cur = [(s1, ('next',))]
                if it.optional_vars is not None:
                    cur = self.assign(it.optional_vars, ev, s1, fr, n)
                for s2, stt in cur:
                    if stt[0] != 'next':
                        out.append((s2, stt))
                        continue
                    for s3, status in self.with_items(n, items[1:], s2, fr):
                        if status[0] == 'raise' and self.waits(s3, fr):
                            out.append((s3, status))
                            continue
                        exc = s3.exc
                        s3.exc = None
                        if status[0] == 'raise':
                            ea = [('class', 'exc:' + str(exc[1] if exc else '?')), exc or ('exc', '?', None), ('unk', self.fresh())]
                        else:
                            ea = [NONE, NONE, NONE]
                        if inl:
                            exs = self.call_func(ext, [cm] + ea, [], s3, fr, n, selfterm=cm)
                        else:
                            exs = self.opaque_call(s3, fr, n, cm, '__exit__', [], [])
                        for s4, xv in exs:
                            if xv is None:
                                out.append((s4, ('raise',)))
                                continue
                            if status[0] == 'raise' and xv == TRUE and inl:
                                out.append((s4, ('next',)))
                                continue
                            s4.exc = exc
                            out.append((s4, status))
        return out

    def is_cm(self, f):
        return f.is_gen and any((dotted(d) or '').endswith('contextmanager') for d in getattr(f.node, 'decorator_list', []))

    def with_generator(self, n, items, cm, st, fr):
        it = items[0]
        out = []
        g, cenv, args, kws, selfterm = self.prog.funcs[cm[1]], cm[2], list(cm[3]), list(cm[4]), cm[5]

        def k(s, yv, gfr):
            """runs the with body at the yield point"""
            res = []
            cur = [(s, ('next',))]
            if it.optional_vars is not None:
                cur = self.assign(it.optional_vars, yv, s, fr, n)
            for s1, stt in cur:
                for s2, status in self.with_items(n, items[1:], s1, fr):
                    if status[0] == 'raise':
                        res.append((s2, None))
                    else:
                        s2.envs[gfr.env]['__stash__'] = status
                        res.append((s2, NONE))
            return res
        gfr = self.bind_args(g, args, kws, st, fr, cenv)
        if gfr is None:
            raise TooComplex()
        gfr.yield_k = k
        gfr.selfterm = selfterm
        for s3, status, v in self.exec_func_body(g, st, gfr):
            if status == 'raise':
                out.append((s3, ('raise',)))
            else:
                out.append((s3, s3.envs[gfr.env].get('__stash__', ('next',))))
        return out

    ITERATORS = ('list', 'tuple', 'set', 'zip', 'enumerate', 'map', 'filter', 'reversed', 'sorted', 'sum', 'min', 'max', 'any', 'all', 'iter', 'next', 'math.hypot', 'math.dist')

    def own_iter(self, x, st, fr):
        ci = self.cls_of(x, st)
        f = self.prog.find_method(ci, '__iter__') if ci is not None else None
        return f if f is not None and self.may_inline(f, x, fr, True) else None

    def materialise(self, x, st, fr, node):
        """the elements of an object that defines its own iteration, as a tuple"""
        f = self.own_iter(x, st, fr)
        if f is None:
            return [(st, x)]
        if not f.is_gen:
            out = []
            for s, v in self.call_func(f, [x], [], st, fr, node, selfterm=x):
                ct = self.literal_elems(s, v) if v is not None else None
                out.append((s, ('tuple', tuple(ct)) if ct is not None else (v and x)))
            return out

        def k(s, yv, gfr):
            e = s.envs[gfr.env]
            e['__ys__'] = ('tuple', e.get('__ys__', ('tuple', ()))[1] + (yv,)) if e.get('__ys__', ('tuple', ()))[0] == 'tuple' else ('unk', self.fresh())
            return [(s, NONE)]
        gfr = self.bind_args(f, [x], [], st, fr, None)
        gfr.yield_k = k
        st.envs[gfr.env]['__ys__'] = ('tuple', ())
        gfr.selfterm = x
        out = []
        for s, status, v in self.exec_func_body(f, st, gfr):
            if status == 'raise':
                out.append((s, None))
            else:
                ys = s.envs[gfr.env].get('__ys__', ('tuple', ()))
                out.append((s, ys if ys[0] == 'tuple' else x))
        return out

    def materialise_all(self, xs, st, fr, node):
        cur = [(st, ())]
        for x in xs:
            nxt = []
            for s, done in cur:
                if done is None:
                    nxt.append((s, None))
                    continue
                star = x[0] == 'star'
                for s2, v in self.materialise(x[1] if star else x, s, fr, node):
                    nxt.append((s2, None if v is None else done + ((('star', v) + x[2:] if star else v),)))
            cur = nxt
        return cur

    # ---- loops
    def ex_For(self, n, st, fr):
        out = []
        for s, it in self.ev(n.iter, st, fr):
            if it is None:
                out.append((s, ('raise',)))
                continue

            def body(s1, e):
                res = []
                for s2, stt in self.assign(n.target, e, s1, fr, n):
                    if stt[0] != 'next':
                        res.append((s2, stt))
                    else:
                        res += self.ex(n.body, s2, fr)
                return res
            for s2, status in self.run_loop(s, fr, n, it, body):
                if status[0] == 'next' and n.orelse:
                    out += self.ex(n.orelse, s2, fr)
                elif status[0] == 'break':
                    out.append((s2, ('next',)))
                else:
                    out.append((s2, status))
        return out

    ex_AsyncFor = ex_For

    def ex_While(self, n, st, fr):
        out = []

        def body(s1, e):
            res = []
            for s2, v in self.cond(n.test, s1, fr):
                if v is None:
                    res.append((s2, ('raise',)))
                elif v:
                    res += self.ex(n.body, s2, fr)
                else:
                    res.append((s2, ('exit',)))
            return res
        r = self.unroll_while(n, st, fr)
        if r is not None:
            return r
        for s2, status in self.run_loop(st, fr, n, None, body):
            if status[0] == 'next' and n.orelse:
                out += self.ex(n.orelse, s2, fr)
            elif status[0] == 'break':
                out.append((s2, ('next',)))
            else:
                out.append((s2, status))
        return out

    def unroll_while(self, n, st, fr):
        """a while loop whose condition is known on every iteration"""
        if isinstance(n.test, ast.Constant) and not self.prog.models:
            return None
        cur, out = [st.copy()], []
        seen = {}
        for _ in range(9):
            nxt = []
            for s in cur:
                k = len(s.trace)
                if self.prog.models:
                    sig = repr((s.heap, s.lens, s.content, s.muts, [s.envs.get(x) for x in st.envs if x != '__snap__']))
                    if sig in seen and len(cur) == 1 and not any(x.kind == 'assume' for x in s.trace[seen[sig]:]):
                        s.exc = ('exc', 'Blocked', NONE)        # nothing changes from one iteration to the next: the loop does not end
                        self.emit(s, fr, n, 'raise', name='Blocked')
                        out.append((s, ('raise',)))
                        continue
                    seen[sig] = k
                outs = self.cond(n.test, s, fr)
                if len(outs) != 1 or outs[0][1] is None or any(e.kind in ('assume', 'call') for e in outs[0][0].trace[k:]):
                    return None
                s2, v = outs[0]
                if not v:
                    out += self.ex(n.orelse, s2, fr) if n.orelse else [(s2, ('next',))]
                    continue
                for s3, status in self.ex(n.body, s2, fr):
                    if status[0] in ('next', 'cont'):
                        nxt.append(s3)
                    elif status[0] == 'break':
                        out.append((s3, ('next',)))
                    else:
                        out.append((s3, status))
            cur = nxt
            if not cur:
                return out
            if len(cur) > 16:
                return None
        return None

    def literal_elems(self, st, it):
        """elements if the iterable is statically known"""
        if it[0] == 'tuple' and not any(x[0] == 'star' for x in it[1]):
            return list(it[1])
        if it in st.content and self.type_of(it, st) in ('list', 'tuple', None):
            return list(st.content[it])
        if it[0] == 'copy' and not st.muts.get(it) and st.vers.get(it[1], 0) == it[2]:
            return self.literal_elems(st, it[1])
        if it[0] == 'reversed':
            x = self.literal_elems(st, it[1])
            return x[::-1] if x is not None else None
        if it[0] == 'enumerate':
            x = self.literal_elems(st, it[1])
            return [('tuple', (T.add(it[2], C(i)), e)) for i, e in enumerate(x)] if x is not None else None
        if it[0] == 'zip':
            xs = [self.literal_elems(st, y) for y in it[1]]
            if all(x is not None for x in xs):
                return [('tuple', tuple(e)) for e in zip(*xs)]
            return None
        if it[0] == 'range' and all(T.is_const(x) for x in it[1:]):
            r = range(it[1][2], it[2][2], it[3][2])
            return [C(i) for i in r] if len(r) <= 8 else None
        if it in st.content and self.type_of(it, st) == 'set':
            ct = st.content[it]
            if all(self.distinct(x, y, st) for i, x in enumerate(ct) for y in ct[:i]):
                return list(ct)
            return None
        d = it[1] if it[0] in ('keys', 'items', 'values') else it
        if d[0] == 'copy' and not st.muts.get(d) and st.vers.get(d[1], 0) == d[2]:
            d = d[1]
        if d in st.content and self.type_of(d, st) == 'dict' and all((d, k) in st.dvals for k in st.content[d]):
            if it[0] == 'items':
                return [('tuple', (k, st.dvals[(d, k)])) for k in st.content[d]]
            if it[0] == 'values':
                return [st.dvals[(d, k)] for k in st.content[d]]
            return list(st.content[d])
        return None

    def live_source(self, st, it):
        """the container a loop reads while it runs (changes of it are seen by the loop)"""
        if it[0] == 'enumerate':
            return self.live_source(st, it[1])
        d = it[1] if it[0] in ('keys', 'items', 'values') else it
        if d[0] == 'new' and d in st.content:
            ty = self.type_of(d, st)
            return (ty, d) if ty == 'list' and d == it else (('dict', d) if ty in ('dict', 'set') else None)
        return None

    def resolve_iter(self, st, it, lid):
        """-> (Desc, builder(st) -> elem term) for simple iterables, None for call-like ones"""
        op = it[0]
        if op == 'copy':
            r = self.resolve_iter(st, it[1], lid) if not st.muts.get(it) else None
            if r is None:
                return Desc(it, snapshot=True), ('elem', lid, it)
            d, e = r
            d.snapshot = True
            base = it[1]
            if st.vers.get(base, 0) != it[2] and base[0] not in ('enumerate', 'zip', 'reversed', 'items', 'keys', 'values'):
                # snapshot of an older version
                b = base if it[2] == 0 else ('ver', base, it[2])
                return Desc(b, d.order, True), ('elem', lid, b)
            return d, e
        if op == 'reversed':
            d, e = self.resolve_iter(st, it[1], lid)
            d.order = {'fwd': 'rev', 'rev': 'fwd'}.get(d.order, d.order)
            return d, e
        if op == 'enumerate':
            d, e = self.resolve_iter(st, it[1], lid)
            return d, ('tuple', (T.add(('idx', lid, d.base), it[2]), e))
        if op == 'zip':
            parts = [self.resolve_iter(st, x, lid) for x in it[1]]
            return Desc(parts[0][0].base, parts[0][0].order, kind='zip'), ('tuple', tuple(p[1] for p in parts))
        if op == 'range':
            lo, hi, step = it[1], it[2], it[3]
            ln = [c for c in list(st.lens) if st.lens[c] == hi] or ([hi[1]] if hi[0] == 'len' else [])
            if lo == ZERO and step == ONE and hi[0] == 'len':
                return Desc(hi[1], kind='index'), ('idx', lid, hi[1])
            if step == C(-1) and hi == C(-1):
                h = T.add(lo, ONE)
                if h[0] == 'len':
                    return Desc(h[1], 'rev', kind='index'), ('idx', lid, h[1])
            return Desc(it), ('elem', lid, it)
        if op == 'items':
            k = ('elem', lid, ('keys', it[1]))
            return Desc(it[1], kind='items'), ('tuple', (k, self.read_item(st, it[1], k)))
        if op == 'keys':
            return Desc(it[1], kind='keys'), ('elem', lid, ('keys', it[1]))
        if op == 'values':
            k = ('elem', lid, ('keys', it[1]))
            return Desc(it[1], kind='values'), self.read_item(st, it[1], k)
        if op == 'sorted':
            return Desc(it, 'sorted'), ('elem', lid, it)
        ty = self.type_of(it, st)
        if ty == 'dict':
            return Desc(it, kind='keys'), ('elem', lid, ('keys', it))
        if it in st.vers and st.vers[it]:
            b = ('ver', it, st.vers[it])
            return Desc(it), ('elem', lid, b)
        return Desc(it), ('elem', lid, it)

    def run_loop(self, st, fr, node, it, body):
        """body(st, elem) -> [(st,status)].  it None for while loops.  -> [(st, status)]"""
        self.budget_check()
        if self.strict and it is not None and self.kind(st, it) in (type(None), int, float, bool):
            return [(s, ('raise',)) for s, _ in self.boom(st, fr, node, 'TypeError')]
        if it is not None and self.own_iter(it, st, fr) is not None:
            out = []
            for s, x in self.materialise(it, st, fr, node):
                if x is None:
                    out.append((s, ('raise',)))
                else:
                    out += self.run_loop1(s, fr, node, x, body)
            return out
        return self.run_loop1(st, fr, node, it, body)

    def run_loop1(self, st, fr, node, it, body):
        if it is not None:
            lit = self.literal_elems(st, it)
            if lit is not None and len(lit) <= 12:
                cur = [st]
                done = []
                live = self.live_source(st, it)
                n0 = len(lit)
                for i in range(16):
                    nxt = []
                    for s in cur:
                        now = lit
                        if live is not None:
                            if live[0] == 'dict':
                                if len(s.content.get(live[1], lit)) != n0:
                                    s.exc = ('exc', 'RuntimeError', NONE)
                                    done.append((s, ('raise',)))
                                    continue
                            elif live[1] in s.content:
                                now = self.literal_elems(s, it)
                        if i >= len(now):
                            done.append((s, ('next',)))
                            continue
                        for s2, status in body(s, now[i]):
                            if status[0] in ('next', 'cont'):
                                nxt.append(s2)
                            else:
                                done.append((s2, status))
                    cur = nxt
                    if not cur:
                        break
                return done
            if it[0] == 'genexp':
                return self.loop_genexp(st, fr, node, it, body)
            if it[0] == 'map':
                def b2(s, e):
                    res = []
                    args = [e] if len(it[2]) == 1 else list(e[1])
                    for s2, v in self.call_value(it[1], args, [], s, fr, node):
                        res += [(s2, ('raise',))] if v is None else body(s2, v)
                    return res
                return self.run_loop(st, fr, node, it[2][0] if len(it[2]) == 1 else ('zip', it[2]), b2)
            if it[0] == 'filter':
                def b3(s, e):
                    res = []
                    outs = self.call_value(it[1], [e], [], s, fr, node) if it[1] != NONE else [(s, e)]
                    for s2, v in outs:
                        if v is None:
                            res.append((s2, ('raise',)))
                            continue
                        for s3, b in self.truth(s2, fr, node, v):
                            res += body(s3, e) if b else [(s3, ('next',))]
                    return res
                return self.run_loop(st, fr, node, it[2], b3)
            bt, start, flip = it, None, False
            if bt[0] == 'enumerate':
                bt, start = bt[1], bt[2]
            if bt[0] == 'reversed' and start is None:
                bt, flip = bt[1], True
            while bt[0] == 'copy' and not st.muts.get(bt):
                bt = bt[1]
            if bt in st.built and not (flip and st.built[bt][0].order not in ('fwd', 'rev')):
                desc0, variants, lid0 = st.built[bt]
                if flip:
                    desc0 = Desc(desc0.base, {'fwd': 'rev', 'rev': 'fwd'}[desc0.order], True, desc0.kind)
                if start is not None:
                    every = all(v is not None for _, v in variants) and desc0.order == 'fwd'
                    return self.loop_variants(st, fr, node, desc0, variants, lid0, body, lambda lid, v: ('tuple', (T.add(('idx', lid, desc0.base if every else bt), start), v)))
                return self.loop_variants(st, fr, node, desc0, variants, lid0, body)
        lid = self.fresh()
        if it is None:
            desc, elem = Desc(('while', lid), kind='while'), None
        else:
            desc, elem = self.resolve_iter(st, it, lid)
            if self.len_of(st, it) == ZERO and it[0] not in ('enumerate', 'zip', 'reversed'):
                return [(st, ('next',))]
        return self.generic_loop(st, fr, node, lid, desc, lambda s: body(s, elem))

    def loop_variants(self, st, fr, node, desc0, variants, lid0, body, wrap=lambda lid, v: v):
        lid = self.fresh()
        desc = Desc(desc0.base, desc0.order, True, desc0.kind)

        def ren(t):
            if not isinstance(t, tuple):
                return t
            if len(t) == 3 and t[0] in ('elem', 'idx') and t[1] == lid0:
                return (t[0], lid) + tuple(ren(x) for x in t[2:])
            if t and t[0] == 'poly':
                r = C(0)
                for mono, c in t[1]:
                    x = T.from_poly({(): c})
                    for f in mono:
                        x = T.mul(x, ren(f))
                    r = T.add(r, x)
                return r
            return tuple(ren(x) if isinstance(x, tuple) else x for x in t)

        def b(s):
            res = []
            for conds, val in variants:
                s2 = s.copy()
                for atom, v in conds:
                    at = ren(atom)
                    if at[0] in ('lt', 'le', 'eq') and len(at) == 2:
                        s2.assume_cmp(at[0], at[1], v, self.isint(at[1]))
                    else:
                        k = self.known(s2, at)
                        if k is not None and k != v:
                            s2.dead = True
                        self.put_fact(s2, at, v)
                    s2.trace.append(Eff('assume', name=v, args=(at,), line=getattr(node, 'lineno', 0), fn=fr.func, held=s2.held))
                if s2.dead:
                    continue
                if val is None:
                    res.append((s2, ('next',)))
                else:
                    res += body(s2, wrap(lid, ren(val)))
            return res
        return self.generic_loop(st, fr, node, lid, desc, b)

    def loop_genexp(self, st, fr, node, it, body):
        if isinstance(it[1], tuple) and it[1][0] == 'fn':
            return self.loop_generator(st, fr, node, it[1], body)
        comp = self._nodes[it[1]]
        gfr = self._frames[it[2]]

        def gen(i, s):
            if i == len(comp.generators):
                res = []
                for s2, v in self.ev(comp.elt, s, gfr):
                    res += [(s2, ('raise',))] if v is None else body(s2, v)
                return res
            g = comp.generators[i]

            def b(s1, e):
                res = []
                for s2, stt in self.assign(g.target, e, s1, gfr, node):
                    if stt[0] != 'next':
                        res.append((s2, stt))
                        continue
                    for s3, ok in self.cond_all(g.ifs, s2, gfr):
                        if ok is None:
                            res.append((s3, ('raise',)))
                        elif ok:
                            res += gen(i + 1, s3)
                        else:
                            res.append((s3, ('next',)))
                return res
            if i == 0:
                return self.run_loop(s, gfr, node, it[3], b)
            res = []
            for s1, x in self.ev(g.iter, s, gfr):
                res += [(s1, ('raise',))] if x is None else self.run_loop(s1, gfr, node, x, b)
            return res
        return gen(0, st)

    def loop_generator(self, st, fr, node, gen, body):
        """a loop over the generator returned by a generator function: the loop body runs at its yields"""
        f = self.prog.funcs[gen[1]]
        gfr = self.bind_args(f, list(gen[3]), list(gen[4]), st, fr, gen[2], gen[6])
        if gfr is None:
            raise TooComplex()

        def k(s, yv, gf):
            res = []
            for s2, status in body(s, yv):
                if status[0] in ('next', 'cont'):
                    res.append((s2, NONE))
                else:       # left early: the generator is closed where it stands
                    s2.envs[gf.env]['__left__'] = ('left', status, s2.exc)
                    s2.exc = ('exc', 'GeneratorExit', NONE)
                    res.append((s2, None))
            return res
        gfr.yield_k = k
        gfr.selfterm = gen[5]
        out = []
        for s, status, v in self.exec_func_body(f, st, gfr):
            left = s.envs[gfr.env].pop('__left__', None)
            if left is not None:
                s.exc = left[2]
                out.append((s, left[1]))
            else:
                out.append((s, ('raise',) if status == 'raise' else ('next',)))
        return out

    loop_depth = 0
    _nodes = {}
    _frames = {}

    def cond_all(self, tests, st, fr):
        cur = [st]
        out = []
        for t in tests:
            nxt = []
            for s in cur:
                for s2, v in self.cond(t, s, fr):
                    if v:
                        nxt.append(s2)
                    else:
                        out.append((s2, v))
            cur = nxt
        return out + [(s, True) for s in cur]

    def generic_loop(self, st, fr, node, lid, desc, body):
        keys = set()
        nocont = set()
        head = None
        for rnd in range(4):
            head = st.copy()
            head.trace = []
            self.havoc(head, keys, lid, st)
            probe = head.copy()
            self.loop_depth += 1
            try:
                outs = body(probe)
            finally:
                self.loop_depth -= 1
            new = set()
            for s, status in outs:
                new |= self.diff(head, s)
            if new <= keys:
                break
            keys |= new
        paths = []
        ends_of = {}
        for s, status in outs:
            ends = {}
            for k in keys:
                ends[k] = self.key_value(s, k)
            paths.append(BodyPath(s.trace, status, s, ends))
        init = {k: self.key_value(st, k) for k in keys}
        phis = {k: (('phi', lid, k), init[k]) for k in keys}
        loop = Loop(lid, desc, [p for p in paths], phis, node)
        # ---- exits
        res = []
        le = Eff('loop', line=getattr(node, 'lineno', 0), fn=fr.func, held=st.held, extra=loop)
        pre = list(st.trace)
        built = self.find_built(st, loop, paths, keys)
        if desc.kind == 'while':
            for p in paths:
                if p.status[0] == 'exit':
                    s = p.st.copy()
                    s.trace = pre + [le] + [e for e in p.trace]
                    self.install_built(s, built)
                    res.append((s, ('next',)))
        else:
            s = head.copy()
            s.trace = pre + [le]
            self.install_built(s, built)
            res.append((s, ('next',)))
        for p in paths:
            if p.status[0] in ('ret', 'raise', 'break'):
                s = p.st.copy()
                s.trace = pre + [le, Eff('iter', line=getattr(node, 'lineno', 0), fn=fr.func, held=st.held, extra=loop)] + list(p.trace)
                res.append((s, p.status))
        if not res and paths:
            # never left
            s = head.copy()
            s.trace = pre + [le]
            self.diverged.append(s)
        return res

    def find_built(self, st, loop, paths, keys):
        out = {}
        if loop.desc.kind == 'while':
            return out
        if any(p.status[0] not in ('next', 'cont') for p in paths):
            return out
        for k in keys:
            if k[0] != 'cont':
                continue
            c = k[1]
            if c[0] != 'new' or self.type_of(c) not in ('list', 'set') or st.content.get(c) != ():
                continue
            variants = []
            ok = True
            for p in paths:
                muts = [e for e in p.trace if e.kind == 'mut' and e.recv == c]
                if any(e.kind in ('loop',) and any(x.kind == 'mut' and x.recv == c for bp in e.extra.paths for x in bp.trace) for e in p.trace):
                    ok = False
                if len(muts) > 1 or any(e.name not in ('insert', 'add') for e in muts):
                    ok = False
                    break
                if muts and muts[0].name == 'insert' and muts[0].args[0] != muts[0].extra['len']:
                    ok = False
                    break
                val = muts[0].args[-1] if muts else None
                conds = tuple((e.args[0], e.name) for e in p.trace if e.kind == 'assume')
                if any(T.lossy(a) for a, _ in conds) or (val is not None and T.lossy(val)):
                    ok = False
                    break
                variants.append((conds, val))
            if ok and variants:
                out[c] = (loop.desc, variants, loop.id)
        return out

    def install_built(self, s, built):
        for c, b in built.items():
            s.built[c] = b
            ln = ('len', ('ver', c, b[2]))
            if len(b[1]) == 1 and not b[1][0][0] and b[1][0][1] is not None and b[0].kind != 'while':
                s.lens[c] = self.len_of(s, b[0].base) if b[0].base[0] not in ('range',) else ln

    def key_value(self, st, k):
        if k[0] == 'env':
            return st.envs.get(k[1], {}).get(k[2], ('undef',))
        if k[0] == 'heap':
            return st.heap.get((k[1], k[2]), ('fld', k[1], k[2]))
        if k[0] == 'cont':
            return ('contver', k[1], st.vers.get(k[1], 0))
        return ('undef',)

    def diff(self, a, b):
        out = set()
        for env, d in b.envs.items():
            if env not in a.envs:
                continue
            d0 = a.envs[env]
            for n, v in d.items():
                if n in ('__stash__',):
                    continue
                if d0.get(n) != v:
                    out.add(('env', env, n))
            for n in d0:
                if n not in d:
                    out.add(('env', env, n))
        for k, v in b.heap.items():
            if a.heap.get(k, ('fld',) + k) != v and not self.is_fresh_in(k[0], a):
                out.add(('heap',) + k)
        for c, v in b.vers.items():
            if a.vers.get(c, 0) != v:
                out.add(('cont', c))
        if b.held != a.held:
            out.add(('held',))
        return out

    def is_fresh_in(self, obj, a):
        return obj[0] == 'new' and isinstance(obj[2], int) and False

    def havoc(self, st, keys, lid, orig):
        for k in keys:
            phi = ('phi', lid, k)
            if k[0] == 'env':
                if k[1] in st.envs:
                    old = st.envs[k[1]].get(k[2])
                    if old is not None:
                        ty = self.type_of(old, orig)
                        if ty:
                            self.restypes[phi] = ty
                    st.envs[k[1]][k[2]] = phi
            elif k[0] == 'heap':
                old = st.heap.get((k[1], k[2]), ('fld', k[1], k[2]))
                ty = self.type_of(('fld', k[1], k[2]), orig) or self.type_of(old, orig)
                if ty:
                    self.restypes[phi] = ty
                st.heap[(k[1], k[2])] = phi
            elif k[0] == 'cont':
                c = k[1]
                st.vers[c] = ('phi', lid) if not isinstance(st.vers.get(c, 0), int) else st.vers.get(c, 0) + 1000 * lid
                st.lens[c] = ('len', ('ver', c, 'phi%d' % lid))
                st.muts[c] = [('other', 'phi%d' % lid)]
                st.content.pop(c, None)
                st.built.pop(c, None)
                for kk in [kk for kk in st.facts if kk[0] == 'in' and kk[2] == c]:
                    del st.facts[kk]
                for kk in [kk for kk in st.dvals if kk[0] == c]:
                    del st.dvals[kk]

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """-> [(st, True/False/None)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s, fr):
                        if b is None:
                            out.append((s2, None))
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, isand) for s in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, None if b is None else not b) for s, b in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.Compare):
            return self.compare(e, st, fr)
        if isinstance(e, ast.Constant):
            return [(st, bool(e.value))]
        if isinstance(e, ast.IfExp):
            out = []
            for s, b in self.cond(e.test, st, fr):
                if b is None:
                    out.append((s, None))
                else:
                    out += self.cond(e.body if b else e.orelse, s, fr)
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            if v is None:
                out.append((s, None))
            else:
                out += self.truth(s, fr, e, v)
        return out

    def compare(self, e, st, fr):
        out = []
        cur = []
        for s, v in self.ev(e.left, st, fr):
            (out if v is None else cur).append((s, None) if v is None else (s, v))
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for s, left in cur:
                for s2, r in self.ev(right, s, fr):
                    if r is None:
                        out.append((s2, None))
                        continue
                    for s3, b in self.cmp_vals(op, left, r, s2, fr, e):
                        if b:
                            nxt.append((s3, r))
                        else:
                            out.append((s3, b))
            cur = nxt
        return out + [(s, True) for s, _ in cur]

    def cmp_vals(self, op, a, b, st, fr, node):
        n = type(op).__name__
        if n == 'NotEq' and a != NONE:
            ci = self.cls_of(a, st)
            f = self.prog.find_method(ci, '__ne__') if ci is not None else None
            if f and self.may_inline(f, a, fr):
                out = []
                for s, v in self.call_func(f, [a, b], [], st, fr, node, selfterm=a):
                    out += [(s, None)] if v is None else self.truth(s, fr, node, v)
                return out
        if n in ('Eq', 'NotEq'):
            return [(s, None if v is None else (v if n == 'Eq' else not v)) for s, v in self.eq_split(a, b, st, fr, node)]
        if n in ('Is', 'IsNot'):
            return [(s, v if n == 'Is' else not v) for s, v in self.is_split(a, b, st, fr, node)]
        if n in ('In', 'NotIn'):
            return [(s, None if v is None else (v if n == 'In' else not v)) for s, v in self.in_split(a, b, st, fr, node)]
        # ordering
        ta, tb = self.type_of(a, st), self.type_of(b, st)
        if self.strict and (self.nothing(st, a) and self.cls_of(b, st) is None or self.nothing(st, b) and self.cls_of(a, st) is None):
            return self.boom(st, fr, node, 'TypeError')
        if T.is_const(a) and T.is_const(b) and (a[1] == b[1] == 'str' or a[1] in ('int', 'float', 'bool') and b[1] in ('int', 'float', 'bool')):
            return [(st, {'Lt': a[2] < b[2], 'LtE': a[2] <= b[2], 'Gt': a[2] > b[2], 'GtE': a[2] >= b[2]}[n])]
        if a[0] == 'tuple' and b[0] == 'tuple' and not any(x[0] == 'star' for x in a[1] + b[1]):
            # the first pair that is not equal decides, else the lengths
            cur, out = [st], []
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s in cur:
                    for s2, v in self.eq_split(x, y, s, fr, node):
                        if v is None:
                            out.append((s2, None))
                        elif v:
                            nxt.append(s2)
                        else:
                            out += self.cmp_vals(op, x, y, s2, fr, node)
                cur = nxt
            la, lb = len(a[1]), len(b[1])
            return out + [(s, {'Lt': la < lb, 'LtE': la <= lb, 'Gt': la > lb, 'GtE': la >= lb}[n]) for s in cur]
        if ta == 'set' or tb == 'set':
            return self.split(st, fr, node, ('subset' if n in ('LtE', 'Lt') else 'superset', a, b))
        if n in ('Lt', 'LtE'):
            d, o = T.sub(a, b), 'lt' if n == 'Lt' else 'le'
        else:
            d, o = T.sub(b, a), 'lt' if n == 'Gt' else 'le'
        if d[0] == 'sub':
            return self.split(st, fr, node, (o, d[1], d[2]))
        return self.split_minmax(st, fr, node, o, d)

    def split_minmax(self, st, fr, node, o, d):
        return self.split_cmp(st, fr, node, o, d)

    def is_numeric(self, t, st):
        return t[0] in ('poly', 'len', 'idx', 'indexof') or (t[0] == 'const' and t[1] in ('int', 'float')) or self.type_of(t, st) in ('int', 'num', 'float')

    def eq_split(self, a, b, st, fr, node):
        if a == b:
            return [(st, True)]
        if st.facts.get(('isnone', a)):
            a = NONE
        if st.facts.get(('isnone', b)):
            b = NONE
        if a == b:
            return [(st, True)]
        if a == NONE or b == NONE:
            return self.split(st, fr, node, ('isnone', b if a == NONE else a))
        if a[0] == 'tuple' and b[0] == 'tuple' and not any(x[0] == 'star' for x in a[1] + b[1]):
            if len(a[1]) != len(b[1]):
                return [(st, False)]
            cur, out = [st], []
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s in cur:
                    for s2, v in self.eq_split(x, y, s, fr, node):
                        if v:
                            nxt.append(s2)
                        else:
                            out.append((s2, v))
                cur = nxt
            return out + [(s, True) for s in cur]
        if a[0] == 'const' and b[0] == 'const':
            return [(st, T.norm_num(a) == T.norm_num(b))]
        if self.is_numeric(a, st) and self.is_numeric(b, st) or (self.is_numeric(a, st) and b[0] not in ('const',)) and self.type_of(b, st) in (None, 'bool') or \
                (self.is_numeric(b, st) and a[0] not in ('const',)) and self.type_of(a, st) in (None, 'bool'):
            d = T.sub(a, b)
            if d[0] != 'sub':
                # None never equals a number
                f = [x for x in (a, b) if st.facts.get(('isnone', x))]
                if f:
                    return [(st, False)]
                return self.split_cmp(st, fr, node, 'eq', d)
        for c, o in ((a, b), (b, a)):
            if c[0] == 'copy' and c[1] == o and st.vers.get(o, 0) == c[2] and not st.muts.get(c):
                return [(st, True)]
            if c[0] == 'copy' and o[0] == 'copy' and c[1] == o[1] and c[2] == o[2] and not st.muts.get(c) and not st.muts.get(o):
                return [(st, True)]
        ta, tb = self.type_of(a, st), self.type_of(b, st)
        if ta in ('list', 'set', 'dict') and tb == ta:
            la, lb = self.len_of(st, a), self.len_of(st, b)
            r = st.cmp('eq', T.sub(la, lb), True)
            if r is False:
                return [(st, False)]
            if la == ZERO == lb:
                return [(st, True)]
            if la == ZERO or lb == ZERO:
                return self.split_cmp(st, fr, node, 'eq', T.sub(la, lb))
            xs, ys = (self.literal_elems(st, c) if c in st.content or c[0] == 'lit' else None for c in (a, b))
            if xs is not None and ys is not None and ta != 'dict' and not any(y[0] == 'star' for y in tuple(xs) + tuple(ys)):
                if ta == 'set' and all(T.is_const(x) for x in tuple(xs) + tuple(ys)):
                    return [(st, {T.norm_num(x) for x in xs} == {T.norm_num(x) for x in ys})]
                if ta == 'list' and len(xs) == len(ys) <= 8:
                    cur, out = [st], []
                    for x, y in zip(xs, ys):
                        nxt = []
                        for s in cur:
                            for s2, v in self.eq_split(x, y, s, fr, node):
                                if v:
                                    nxt.append(s2)
                                else:
                                    out.append((s2, v))
                        cur = nxt
                    return out + [(s, True) for s in cur]
            ka = (a, st.vers.get(a, 0)) if a[0] != 'copy' else (a[1], a[2])
            kb = (b, st.vers.get(b, 0)) if b[0] != 'copy' else (b[1], b[2])
            va, vb = ('cval',) + ka, ('cval',) + kb
            x, y = sorted((va, vb), key=T.key_of)
            return self.split(st, fr, node, ('eq', x, y))
        ci = self.cls_of(a, st)
        if ci is not None:
            f = self.prog.find_method(ci, '__eq__')
            if f and self.may_inline(f, a, fr):
                out = []
                for s, v in self.call_func(f, [a, b], [], st, fr, node, selfterm=a):
                    out += [(s, None)] if v is None else self.truth(s, fr, node, v)
                return out
            cj = self.cls_of(b, st) if b[0] == 'new' == a[0] else None
            if f is None and cj is not None and self.by_identity(ci) and self.by_identity(cj):
                return [(st, False)]
        x, y = sorted((a, b), key=T.key_of)
        return self.split(st, fr, node, ('eq', x, y))

    def by_identity(self, ci):
        """objects of the class are only equal to themselves"""
        if self.prog.find_method(ci, '__eq__'):
            return False
        ms = self.prog.mro(ci)
        return not any(c.node.decorator_list or c.node.keywords or any((dotted(b) or '?').rsplit('.', 1)[-1] not in {x.name for x in ms} | {'object', 'ABC', 'Generic'} for b in c.base_exprs) for c in ms)

    def is_split(self, a, b, st, fr, node):
        if st.facts.get(('isnone', a)):
            a = NONE
        if st.facts.get(('isnone', b)):
            b = NONE
        if a == b:
            return [(st, True)]
        if a == NONE or b == NONE:
            return self.split(st, fr, node, ('isnone', b if a == NONE else a))
        for x in (a, b):
            if x[0] in ('enum',) or (x[0] == 'const' and x[1] == 'bool'):
                o = b if x is a else a
                x2, y2 = sorted((a, b), key=T.key_of)
                if x[0] == 'const':
                    ks = [(st, None)]
                    return self.split(st, fr, node, ('is', x2, y2))
                return self.split(st, fr, node, ('eq', x2, y2))
        x, y = sorted((a, b), key=T.key_of)
        return self.split(st, fr, node, ('is', x, y))

    def in_split(self, x, c, st, fr, node):
        if self.strict and self.kind(st, c) in (type(None), int, float, bool):
            return self.boom(st, fr, node, 'TypeError')
        ct = None
        if c[0] == 'tuple':
            ct = c[1]
        elif c in st.content and self.type_of(c, st) in ('list', 'set', 'tuple'):
            ct = st.content[c]
        if ct is not None and len(ct) <= 8 and not any(y[0] == 'star' for y in ct):
            cur, out = [st], []
            for y in ct:
                nxt = []
                for s in cur:
                    for s2, v in self.eq_split(x, y, s, fr, node):
                        if v is False:
                            nxt.append(s2)
                        else:
                            out.append((s2, v))
                cur = nxt
            return out + [(s, False) for s in cur]
        if c[0] in ('keys',):
            c = c[1]
        b = c
        while b[0] == 'copy' and not st.muts.get(b) and st.vers.get(b[1], 0) == b[2]:
            b = b[1]
        if b[0] == 'range' and b[3] == ONE:
            cur, out = [st], []
            for s, v in self.split_cmp(st, fr, node, 'le', T.sub(b[1], x)):
                if not v:
                    out.append((s, False))
                else:
                    out += self.split_cmp(s, fr, node, 'lt', T.sub(x, b[2]))
            return out
        cs = self.dict_cases(b, x, st, fr, node)
        if cs is not None:
            return [(s, y is not None) for s, y in cs]
        ci = self.cls_of(b, st)
        if ci is not None:
            f = self.prog.find_method(ci, '__contains__')
            if f and self.may_inline(f, b, fr):
                out = []
                for s, v in self.call_func(f, [b, x], [], st, fr, node, selfterm=b):
                    out += [(s, None)] if v is None else self.truth(s, fr, node, v)
                return out
        if b[0] == 'values':
            return self.split(st, fr, node, ('in', x, b))
        return self.split(st, fr, node, ('in', x, b))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.budget_check()
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            self.unmodelled.add(type(e).__name__)
            return [(st, ('unk', self.fresh()))]
        return m(e, st, fr)

    def ev_list(self, es, st, fr):
        cur = [(st, ())]
        out = []
        for e in es:
            nxt = []
            for s, vs in cur:
                if isinstance(e, ast.Starred):
                    star = []
                    for s2, v in self.ev(e.value, s, fr):
                        star += [(s2, None)] if v is None else self.materialise(v, s2, fr, e)
                    for s2, v in star:
                        if v is None:
                            out.append((s2, None))
                        elif v[0] == 'genexp':
                            t = self.new_container(s2, 'list')
                            for s3, ok in self.list_extend(s2, fr, e, t, v):
                                if ok is None:
                                    out.append((s3, None))
                                elif t in s3.content:
                                    nxt.append((s3, vs + tuple(s3.content[t])))
                                else:
                                    nxt.append((s3, vs + (('star', t),)))
                        elif v[0] == 'tuple':
                            nxt.append((s2, vs + v[1]))
                        elif v in s2.content and self.type_of(v) in ('list', 'tuple'):
                            nxt.append((s2, vs + tuple(s2.content[v])))
                        else:
                            nxt.append((s2, vs + (('star', v),)))
                    continue
                for s2, v in self.ev(e, s, fr):
                    if v is None:
                        out.append((s2, None))
                    else:
                        nxt.append((s2, vs + (v,)))
            cur = nxt
        return out + cur

    def ev_Constant(self, e, st, fr):
        return [(st, C(e.value))]

    def ev_JoinedStr(self, e, st, fr):
        exprs = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        out = []
        for s, vs in self.ev_list(exprs, st, fr):
            if vs is None:
                out.append((s, None))
                continue
            parts, i = [], 0
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    sp = v.format_spec
                    spec = '' if sp is None else (''.join(x.value for x in sp.values) if all(isinstance(x, ast.Constant) for x in sp.values) else None)
                    x = vs[i]
                    if v.conversion == ord('r'):
                        x = ('app', 'repr', x)
                    elif v.conversion == ord('s'):
                        x = self.to_text(x, '', s)
                    parts.append(self.to_text(x, spec, s) if spec is not None else ('app', 'format', x, ('unk', ast.dump(sp))))
                    i += 1
                else:
                    parts.append(C(v.value))
            out.append((s, self.text(parts, s)))
        return out

    # texts are kept as the concatenation of their parts
    def to_text(self, x, spec, st):
        if spec in ('', 's') and self.type_of(x, st) == 'str':
            return x
        if spec == '' or spec == 'd' and (self.is_int(x, st) or x[0] == 'app' and x[1] == 'int'):
            return C(str(x[2])) if x[0] == 'const' and x[1] in ('int', 'str') else ('app', 'str', x)
        return ('app', 'format', x, C(spec))

    def text(self, parts, st):
        flat = []
        for p in parts:
            for y in (p[1] if p[0] == 'joined' else (p,)):
                if y[0] == 'const' and y[1] == 'str' and flat and flat[-1][0] == 'const' and flat[-1][1] == 'str':
                    flat[-1] = C(flat[-1][2] + y[2])
                elif y != C(''):
                    flat.append(y)
        if not flat:
            return C('')
        if len(flat) == 1 and (flat[0][0] == 'const' or self.type_of(flat[0], st) == 'str'):
            return flat[0]
        return ('joined', tuple(flat))

    def str_method(self, o, name, args, kw, st):
        if name == 'join' and len(args) == 1:
            ct = self.literal_elems(st, args[0])
            if ct is None:
                return None
            parts = []
            for i, x in enumerate(ct):
                parts += ([o] if i else []) + [x]
            return self.text(parts, st)
        if name == 'format' and o[0] == 'const' and not any(a[0] == 'star' for a in args):
            parts, auto = [], 0
            kwd = dict(kw)
            try:
                fields = list(string.Formatter().parse(o[2]))
            except ValueError:
                return None
            for lit, f, spec, conv in fields:
                if lit:
                    parts.append(C(lit))
                if f is None:
                    continue
                if f == '':
                    f, auto = auto, auto + 1
                if isinstance(f, str) and f.isdigit():
                    f = int(f)
                x = args[f] if isinstance(f, int) and f < len(args) else kwd.get(f)
                if x is None or '{' in spec or conv not in (None, 's'):
                    return None
                parts.append(self.to_text(x, spec, st))
            return self.text(parts, st)
        return None

    def percent(self, fmt, b, st):
        args = list(b[1]) if b[0] == 'tuple' else [b]
        parts, i = [], 0
        for lit, f in re.findall(r'([^%]+)|%(.)', fmt):
            if lit:
                parts.append(C(lit))
            elif f == '%':
                parts.append(C('%'))
            elif f in 'sdg' and i < len(args):
                x = args[i]
                i += 1
                if f == 'd' and not self.is_int(x, st):
                    x = ('app', 'int', x)
                parts.append(self.to_text(x, '' if f in 'sd' else f, st))
            else:
                return None
        return self.text(parts, st) if i == len(args) else None

    def plain_locals(self, f):
        """names assigned in the body of a function, but nowhere in its loops, comprehensions or handlers"""
        if f.id not in self._plain:
            yes, no = set(), set()

            def go(n, odd):
                for x in ast.iter_child_nodes(n):
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                        if hasattr(x, 'name'):
                            no.add(x.name)
                        continue
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        (no if odd or isinstance(x.ctx, ast.Del) else yes).add(x.id)
                    if isinstance(x, ast.ExceptHandler) and x.name:
                        no.add(x.name)
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        no.update((a.asname or a.name).split('.')[0] for a in x.names)
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        no.update(x.names)
                    go(x, odd or isinstance(x, (ast.For, ast.While, ast.AsyncFor, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Match if hasattr(ast, 'Match') else ast.For)))
            if isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for b in f.node.body:
                    go(ast.Module(body=[b], type_ignores=[]), False)
            self._plain[f.id] = yes - no
        return self._plain[f.id]

    def lookup(self, name, st, fr):
        f, env = fr.func, fr.env
        first = True
        while env is not None and env in st.envs:
            if name in st.envs[env] and name != '__parent__' and (f is None or name in f.locals or name == '__class__' or not first or True):
                return st.envs[env][name]
            env = st.envs[env].get('__parent__')
            first = False
        return self.global_term(fr.module, name, st)

    def global_term(self, m, name, st=None):
        if st is not None and (('module', m.name), name) in st.heap:
            return st.heap[(('module', m.name), name)]
        r = self.prog.global_ref(m, name)
        return self.ref_term(r, m, name, st)

    def ref_term(self, r, m, name, st=None):
        if r is None:
            if name in m.globals:
                return ('glob', m.name, name)
            return ('ext', name)
        k = r[0]
        if k == 'func':
            return ('func', r[1].id)
        if k == 'class':
            return ('class', r[1].id)
        if k == 'module':
            return ('module', r[1].name)
        if k == 'ext':
            return ('ext', r[1])
        if k == 'builtin':
            return ('ext', r[1])
        if k == 'expr':
            mod, node = r[1], r[2]
            if isinstance(node, ast.Constant):
                return C(node.value)
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
                return C(-node.operand.value)
            if isinstance(node, ast.Tuple) and all(isinstance(x, ast.Constant) for x in node.elts):
                return ('tuple', tuple(C(x.value) for x in node.elts))
            if isinstance(node, ast.Lambda):
                return ('func', self.prog.func_by_node[id(node)].id)
            if isinstance(node, ast.Call) and (dotted(node.func) or '') in ('re.compile',) and st is not None:
                r2 = self.ev(node, st, Frame(None, None, (), module=mod))
                if len(r2) == 1 and r2[0][1] is not None:
                    return r2[0][1]
            t = ('glob', mod.name, name)
            ts = self.prog.expr_types(mod, node)
            ty = self.prog.single_type(ts)
            if ty:
                self.symtypes.setdefault(t, ty)
            return t
        return ('glob', m.name, name)

    def ev_Name(self, e, st, fr):
        if self.strict and fr.func is not None and e.id in fr.func.locals and fr.env in st.envs and e.id not in st.envs[fr.env] and e.id in self.plain_locals(fr.func):
            return self.boom(st, fr, e, 'UnboundLocalError')
        v = self.lookup(e.id, st, fr)
        if v == ('ext', e.id) and self.strict and e.id not in KNOWN_NAMES and e.id not in fr.module.globals and not (fr.func is not None and '<client' in fr.func.id) and (fr.func is None or not self.any_local(fr.func, e.id)):
            return self.boom(st, fr, e, 'NameError')
        return [(st, v)]

    def any_local(self, f, name):
        while f is not None:
            if name in f.locals:
                return True
            f = f.outer
        return False

    def ev_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if v is not None:
                self.bind_name(s, fr, e.target.id, v)
            out.append((s, v))
        return out

    def ev_Tuple(self, e, st, fr):
        return [(s, None if vs is None else ('tuple', vs)) for s, vs in self.ev_list(e.elts, st, fr)]

    def new_container(self, st, kind, content=()):
        t = ('new', kind, self.fresh())
        self.born[t] = None if content is None else tuple(content)
        if content is not None:
            st.content[t] = tuple(content)
            st.lens[t] = C(len(content))
        return t

    def ev_List(self, e, st, fr):
        out = []
        for s, vs in self.ev_list(e.elts, st, fr):
            if vs is None:
                out.append((s, None))
            elif any(v[0] == 'star' for v in vs):
                # [*a, x] : build by extension
                t = self.new_container(s, 'list')
                cur = [s]
                for v in vs:
                    nxt = []
                    for s1 in cur:
                        if v[0] == 'star':
                            nxt += [s2 for s2, ok in self.list_extend(s1, fr, e, t, v[1]) if ok is not None]
                        else:
                            self.mutate(s1, fr, e, t, 'insert', (self.len_of(s1, t), v))
                            nxt.append(s1)
                    cur = nxt
                out += [(s1, t) for s1 in cur]
            else:
                out.append((s, self.new_container(s, 'list', vs)))
        return out

    def ev_Set(self, e, st, fr):
        out = []
        for s, vs in self.ev_list(e.elts, st, fr):
            if vs is None:
                out.append((s, None))
            else:
                t = self.new_container(s, 'set', vs if not any(v[0] == 'star' for v in vs) else None)
                out.append((s, t))
        return out

    def ev_Dict(self, e, st, fr):
        out = []
        ks = [k for k in e.keys if k is not None]
        for s, vs in self.ev_list([x for x in ks] + list(e.values), st, fr):
            if vs is None:
                out.append((s, None))
                continue
            kv = list(vs[:len(ks)])
            vv = list(vs[len(ks):])
            if len(ks) < len(e.keys):
                t = self.new_container(s, 'dict', ())
                s.facts[('empty', t)] = True
                for k, v in zip(e.keys, vv):
                    if k is None:
                        self.dict_update(s, fr, e, t, v)
                    else:
                        self.mutate(s, fr, e, t, 'dset', (kv.pop(0), v))
                out.append((s, t))
                continue
            t = self.new_container(s, 'dict', None)
            s.lens[t] = C(len(ks))
            ki = 0
            for k, v in zip(e.keys, vv):
                s.dvals[(t, kv[ki])] = v
                s.facts[('in', kv[ki], t)] = True
                ki += 1
            if not e.keys:
                s.facts[('empty', t)] = True
                s.content[t] = ()
            elif None not in e.keys and len(set(kv)) == len(kv):
                s.content[t] = tuple(kv)
            out.append((s, t))
        return out

    def dict_update(self, st, fr, node, o, x):
        ks = [(kk[1], v) for kk, v in st.dvals.items() if kk[0] == x]
        if x in st.content and self.type_of(x, st) == 'dict':
            ks = [(k, st.dvals[(x, k)]) for k in st.content[x] if (x, k) in st.dvals]
        if x[0] == 'new' and st.lens.get(x) == C(len(ks)) and (ks or x in st.content):
            for k, v in ks:
                self.mutate(st, fr, node, o, 'dset', (k, v))
        else:
            self.mutate(st, fr, node, o, 'update', (x,))

    def ev_Lambda(self, e, st, fr):
        f = self.prog.func_by_node.get(id(e))
        if f is None:
            f = Func('%s.<lambda@%d>' % (fr.func.id if fr.func else fr.module.name, e.lineno), e, fr.module, fr.cls, '<lambda>', 'func', fr.func)
            self.prog.func_by_node[id(e)] = f
            self.prog.funcs[f.id] = f
        return [(st, self.closure(f, e, st, fr))]

    def closure(self, f, e, st, fr):
        """function value; the defaults are those at the definition"""
        a = e.args
        ps = (a.posonlyargs + a.args)
        ds = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        vals = []
        for p, d in ds:
            if not isinstance(d, ast.Constant):
                outs = self.ev(d, st, fr)
                if len(outs) == 1 and outs[0][0] is st and outs[0][1] is not None:
                    vals.append((p.arg, outs[0][1]))
        return ('closure', f.id, fr.env) + ((tuple(vals),) if vals else ())

    def ev_IfExp(self, e, st, fr):
        out = []
        for s, b in self.cond(e.test, st, fr):
            if b is None:
                out.append((s, None))
            else:
                out += self.ev(e.body if b else e.orelse, s, fr)
        return out

    def ev_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                if last:
                    out += self.ev(v, s, fr)
                    continue
                if isinstance(v, (ast.Compare,)) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)):
                    for s2, b in self.cond(v, s, fr):
                        if b is None:
                            out.append((s2, None))
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, TRUE if b else FALSE))
                    continue
                for s2, x in self.ev(v, s, fr):
                    if x is None:
                        out.append((s2, None))
                        continue
                    for s3, b in self.truth(s2, fr, v, x):
                        if b is None:
                            out.append((s3, None))
                        elif b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, x))
            cur = nxt
        return out

    def ev_Compare(self, e, st, fr):
        return [(s, None if b is None else (TRUE if b else FALSE)) for s, b in self.compare(e, st, fr)]

    def ev_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [(s, None if b is None else (TRUE if b else FALSE)) for s, b in self.cond(e, st, fr)]
        out = []
        for s, v in self.ev(e.operand, st, fr):
            if v is None:
                out.append((s, None))
            elif isinstance(e.op, ast.USub):
                ci = self.cls_of(v, s)
                f = self.prog.find_method(ci, '__neg__') if ci else None
                if f and self.may_inline(f, v, fr):
                    out += self.call_func(f, [v], [], s, fr, e, selfterm=v)
                else:
                    out.append((s, T.neg(v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, ('invert', v)))
        return out

    def ev_BinOp(self, e, st, fr):
        out = []
        for s, vs in self.ev_list([e.left, e.right], st, fr):
            if vs is None:
                out.append((s, None))
            else:
                out += self.binop(e.op, vs[0], vs[1], s, fr, e)
        return out

    DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__', 'Pow': '__pow__', 'BitOr': '__or__', 'BitAnd': '__and__', 'BitXor': '__xor__'}

    def binop(self, op, a, b, st, fr, node):
        n = type(op).__name__
        ta, tb = self.type_of(a, st), self.type_of(b, st)
        ci = self.cls_of(a, st)
        if ci is not None:
            f = self.prog.find_method(ci, self.DUNDER.get(n, '?'))
            if f and self.may_inline(f, a, fr):
                return self.call_func(f, [a, b], [], st, fr, node, selfterm=a)
            if f is None and a[0] == 'new' and a[1].startswith('cls:') is False:
                pass
        cb = self.cls_of(b, st)
        if cb is not None and ci is None:
            f = self.prog.find_method(cb, self.DUNDER.get(n, '?').replace('__', '__r', 1))
            if f and self.may_inline(f, b, fr):
                return self.call_func(f, [b, a], [], st, fr, node, selfterm=b)
        if self.strict and ci is None and cb is None:
            ka, kb = self.kind(st, a), self.kind(st, b)
            none, lst, num = type(None), (list, dict, set, tuple), (int, float, bool)
            if none in (ka, kb) and ka is not str or ka in lst and n in ('Div', 'FloorDiv', 'Pow', 'Mod') or ka in (list, tuple, str) and n == 'Sub' or kb in lst and n in ('Div', 'FloorDiv', 'Pow', 'Sub') and ka in num or \
                    n == 'Add' and ka is not None and kb is not None and ka is not kb and not (ka in num and kb in num) or ka is str and kb is none and n == 'Add' or n in ('Div', 'FloorDiv', 'Mod') and ka in num and kb in num and b[2] == 0:
                return self.boom(st, fr, node, 'ZeroDivisionError' if ka in num and kb in num else 'TypeError')
            if n in ('Div', 'FloorDiv', 'Mod') and T.is_num_const(b) and b[2] == 0 and not T.is_num_const(a) and ka is None and self.is_number(a, st):
                return self.boom(st, fr, node, 'ZeroDivisionError')
        if ta == 'list' and n == 'Add':
            # concatenation
            t = self.new_container(st, 'list')
            out = []
            for s, ok in self.list_extend(st, fr, node, t, a):
                if ok is None:
                    out.append((s, None))
                    continue
                for s2, ok2 in self.list_extend(s, fr, node, t, b):
                    out.append((s2, None if ok2 is None else t))
            return out
        if ta == 'tuple' and tb == 'tuple' and n == 'Add' and a[0] == 'tuple' and b[0] == 'tuple':
            return [(st, ('tuple', a[1] + b[1]))]
        if (ta == 'set' or tb == 'set') and n in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            return [(st, self.set_known(st, n, a, b) or ('setop', n, self.freeze(a, st), self.freeze(b, st)))]
        if ta == 'str' or tb == 'str' or a[0] == 'const' and a[1] == 'str':
            if a[0] == 'const' and b[0] == 'const' and n == 'Add' and a[1] == b[1] == 'str':
                return [(st, C(a[2] + b[2]))]
            if n == 'Add':
                return [(st, self.text([a, b], st))]
            if n == 'Mod' and a[0] == 'const':
                t = self.percent(a[2], b, st)
                if t is not None:
                    return [(st, t)]
            if ta == 'str' and tb == 'str' and n in ('Sub', 'Mult', 'Div', 'FloorDiv', 'Pow'):
                return self.boom(st, fr, node, 'TypeError')
            return [(st, ('strop', n, a, b))]
        if n == 'Add':
            return [(st, T.add(a, b))]
        if n == 'Sub':
            return [(st, T.sub(a, b))]
        if n == 'Mult':
            for x, k in ((a, b), (b, a)):
                if self.type_of(x, st) == 'list' and x in st.content:
                    if T.is_num_const(k) and len(st.content[x]) * max(k[2], 0) <= 16 and not any(y[0] == 'star' for y in st.content[x]):
                        return [(st, self.new_container(st, 'list', st.content[x] * int(k[2])))]
                    t = self.new_container(st, 'list', None)
                    st.lens[t] = T.mul(self.len_of(st, x), k)
                    return [(st, t)]
            return [(st, T.mul(a, b))]
        if n == 'Div':
            return [(st, T.div(a, b))]
        if n in ('FloorDiv', 'Mod') and T.is_num_const(a) and T.is_num_const(b) and b[2]:
            return [(st, C(a[2] // b[2] if n == 'FloorDiv' else a[2] % b[2]))]
        if n == 'FloorDiv':
            return [(st, self.fdiv(a, b, st))]
        if n == 'Mod':
            return [(st, ('mod', a, b))]
        if n == 'Pow':
            if b in (C(2), C(2.0)):
                return [(st, T.mul(a, a))]
            if T.is_num_const(a) and T.is_num_const(b):
                try:
                    return [(st, C(a[2] ** b[2]))]
                except Exception:
                    pass
            if b == C(0.5):
                return [(st, ('app', 'math.sqrt', a))]
            return [(st, ('pow', a, b))]
        return [(st, ('binop', n, a, b))]

    def freeze(self, c, st):
        """immutable name for the present value of a container"""
        if c in st.content and self.type_of(c) in ('set', 'list'):
            ct = st.content[c]
            return ('lit', self.type_of(c), tuple(sorted(ct, key=T.key_of)) if self.type_of(c) == 'set' else ct)
        if c[0] == 'copy':
            return self.freeze(c[1], st) if st.vers.get(c[1], 0) == c[2] else ('cval', c[1], c[2])
        v = st.vers.get(c, 0)
        return c if v == 0 else ('cval', c, v)

    def ev_Attribute(self, e, st, fr):
        # super().x as value
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super':
            f = self.super_target(e, st, fr)
            if f is not None:
                return [(st, ('bound', fr_self(self, st, fr), f.id))]
        out = []
        for s, o in self.ev(e.value, st, fr):
            if o is None:
                out.append((s, None))
            else:
                out += self.load_attr(s, fr, e, o, mangle(e.attr, fr.cls))
        return out

    def load_attr(self, st, fr, node, o, name):
        k = o[0]
        if k == 'module':
            if o[1] in self.prog.models and name not in self.prog.models[o[1]].globals:
                return [(st, ('ext', o[1] + '.' + name))]
            return [(st, self.global_term(self.prog.modules[o[1]], name, st))]
        if k == 'ext':
            return [(st, ('ext', o[1] + '.' + name))]
        if k == 'app' and o[1] == 're.compile' or k == 'const' and o[1] == 'str' and name in STR_METHODS:
            return [(st, ('bmeth', o, name))]
        if k == 'class':
            if ((k, o[1]), name) in st.heap:
                return [(st, st.heap[((k, o[1]), name)])]
            return [(st, self.class_attr(o, name, st))]
        if k == 'enum':
            if name == 'name':
                return [(st, C(o[2]))]
            if name == 'value':
                ci = self.prog.classes[o[1]]
                a = ci.attrs.get(o[2])
                if a and a[0] == 'expr' and isinstance(a[1], ast.Constant):
                    return [(st, C(a[1].value))]
            return [(st, ('fld', o, name))]
        if name in self.reads and o == self.root_self:
            self.emit(st, fr, node, 'read', recv=o, name=name)
        if (o, name) in st.heap:
            return [(st, st.heap[(o, name)])]
        if self.lacks(st, o, name):
            return self.boom(st, fr, node, 'AttributeError')
        ci = self.cls_of(o, st)
        if ci is not None:
            if name == '__class__':
                return [(st, ('class', ci.id))]
            if name == '__dict__':
                return [(st, ('fld', o, name))]
            p = self.prog.find_prop(ci, name)
            if p and 'get' in p:
                if self.may_inline(p['get'], o, fr):
                    return self.call_func(p['get'], [o], [], st, fr, node, selfterm=o)
                return [(st, ('fld', o, name))]
            f = self.prog.find_method(ci, name)
            if f is not None:
                if f.kind == 'class':
                    return [(st, ('bound', ('class', ci.id), f.id))]
                if f.kind == 'static':
                    return [(st, ('func', f.id))]
                return [(st, ('bound', o, f.id))]
            fts = self.prog.field_types(ci, name)
            if self.dyn and o[0] == 'new' and not self.loop_depth or fts == {'?'} and not any((c.id, name) in self.prog._fassign for c in self.prog.mro(ci)):
                for c in self.prog.mro(ci):
                    if name in c.attrs:
                        return [(st, self.class_attr(('class', c.id), name, st))]
            f = self.prog.find_method(ci, '__getattr__') if self.dyn and o[0] == 'new' else None
            if f is not None and self.may_inline(f, o, fr):
                return self.call_func(f, [o, C(name)], [], st, fr, node, selfterm=o)
        return [(st, ('fld', o, name))]

    def class_attr(self, o, name, st):
        ci = self.prog.classes.get(o[1])
        if ci is None:
            return ('fld', o, name)
        if name == '__name__':
            return C(ci.name)
        isenum = any(b.split('.')[-1] in ('Enum', 'IntEnum', 'Flag') for b in self.prog.ext_bases(ci))
        for c in self.prog.mro(ci):
            if name in c.methods:
                f = c.methods[name]
                if f.kind == 'class':
                    return ('bound', ('class', ci.id), f.id)
                return ('func', f.id)
            if name in c.attrs:
                a = c.attrs[name]
                if a[0] == 'class':
                    return ('class', a[1].id)
                if isenum:
                    return ('enum', ci.id, name)
                if isinstance(a[1], ast.Constant):
                    return C(a[1].value)
                return ('fld', ('class', c.id), name)
        return ('fld', ('class', ci.id), name)

    def ev_Subscript(self, e, st, fr):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            for s, vs in self.ev_list([e.value] + parts, st, fr):
                if vs is None:
                    out.append((s, None))
                    continue
                vs = list(vs)
                c = vs.pop(0)
                lo = vs.pop(0) if e.slice.lower is not None else NONE
                hi = vs.pop(0) if e.slice.upper is not None else NONE
                step = vs.pop(0) if e.slice.step is not None else NONE
                out.append((s, self.mk_slice(s, c, lo, hi, step)))
            return out
        for s, vs in self.ev_list([e.value, e.slice], st, fr):
            if vs is None:
                out.append((s, None))
                continue
            out += self.load_item(s, fr, e, vs[0], vs[1])
        return out

    def mk_slice(self, st, c, lo, hi, step):
        if lo in (NONE, ZERO) and hi == NONE and step in (NONE, ONE):
            if self.type_of(c, st) in ('str', 'tuple') and c[0] != 'new':
                return c
            return self.mk_copy(st, c)
        ct = st.content.get(c) if c[0] != 'tuple' else c[1]
        if c[0] == 'const' and c[1] == 'str':
            if all(x == NONE or T.is_const(x) for x in (lo, hi, step)):
                return C(c[2][slice(lo[2], hi[2], step[2])])
            ct = None
        if ct is not None and all(x == NONE or T.is_const(x) for x in (lo, hi, step)) and not any(y[0] == 'star' for y in ct):
            r = ct[slice(lo[2], hi[2], step[2])]
            return ('tuple', tuple(r)) if c[0] == 'tuple' else self.new_container(st, 'list', r)
        if step == C(-1) and lo == NONE and hi == NONE:
            return ('reversed', self.mk_copy(st, c))
        return ('slice', self.freeze(c, st), lo, hi, step)

    def load_item(self, st, fr, node, c, k):
        if self.strict and self.kind(st, c) in (type(None), int, float, bool, set):
            return self.boom(st, fr, node, 'TypeError')
        if c[0] == 'class' or c[0] == 'ext':
            return [(st, c)]        # typing generics
        ci = self.cls_of(c, st)
        if ci is not None:
            f = self.prog.find_method(ci, '__getitem__')
            if f and self.may_inline(f, c, fr):
                return self.call_func(f, [c, k], [], st, fr, node, selfterm=c)
        ty = self.type_of(c, st)
        if self.missing(st, c, k, fr, node):
            return [(st, None)]
        if c in self.factory:
            out = []
            for s, v in self.split(st, fr, node, ('in', k, c)):
                if not v:
                    self.mutate(s, fr, node, c, 'dset', (k, self.new_container(s, self.factory[c])))
                out.append((s, self.read_item(s, c, k)))
            return out
        if c[0] == 'app' and c[1] in ('re.match', 're.search', 're.fullmatch'):
            return [(st, self.group(c, k))]
        cs = self.dict_cases(c, k, st, fr, node) if ty == 'dict' else None
        if cs is not None:
            out = []
            for s, x in cs:
                if x is None:
                    s.exc = ('exc', 'KeyError', NONE)
                out.append((s, None if x is None else s.dvals[(c, x)]))
            return out
        if ty == 'dict' and self.catches(st, 'KeyError'):
            out = []
            for s, v in self.split(st, fr, node, ('in', k, c)):
                if v:
                    out.append((s, self.read_item(s, c, k)))
                else:
                    s.exc = ('exc', 'KeyError', NONE)
                    out.append((s, None))
            return out
        return [(st, self.read_item(st, c, k))]

    def ev_Slice(self, e, st, fr):
        return [(st, ('unk', self.fresh()))]

    def ev_Starred(self, e, st, fr):
        return [(s, None if v is None else ('star', v)) for s, v in self.ev(e.value, st, fr)]

    def ev_Await(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if v is not None:
                self.emit(s, fr, e, 'await', args=(v,))
                if v[0] == 'coro' and len(v) > 2 and self.later:
                    out += self.run_coro(v, s, fr, e)
                    continue
            out.append((s, v))
        return out

    def ev_Yield(self, e, st, fr):
        outs = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]
        res = []
        for s, v in outs:
            if v is None:
                res.append((s, None))
                continue
            if fr.yield_k is not None:
                res += fr.yield_k(s, v, fr)
                continue
            self.emit(s, fr, e, 'yield', args=(v,))
            res.append((s, ('res', self.fresh())))
        return res

    def ev_YieldFrom(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if v is not None and fr.yield_k is not None and '__ys__' not in s.envs[fr.env] and self.own_iter(v, s, fr) is None:
                out += [(s2, NONE if stt[0] in ('next', 'cont') else None) for s2, stt in
                        self.run_loop(s, fr, e, v, lambda s1, x: [(s2, ('raise',) if w is None else ('next',)) for s2, w in fr.yield_k(s1, x, fr)])]
                continue
            if v is not None and fr.yield_k is not None:
                for s1, v1 in self.materialise(v, s, fr, e):
                    for s2, ct in ([(s1, None)] if v1 is None else self.elements_of(v1, s1, fr, e)):
                        if v1 is None:
                            out.append((s2, None))
                            continue
                        cur = [s2]
                        for x in (ct if ct is not None else [('unk', self.fresh())]):
                            nxt = []
                            for s3 in cur:
                                for s4, w in fr.yield_k(s3, x, fr):
                                    (out if w is None else nxt).append((s4, None) if w is None else s4)
                            cur = nxt
                        for s3 in cur:
                            if ct is None:
                                s3.envs[fr.env]['__ys__'] = ('unk', self.fresh())
                        out += [(s3, NONE) for s3 in cur]
                continue
            if v is not None:
                self.emit(s, fr, e, 'yield', name='from', args=(v,))
            out.append((s, v))
        return out

    def elements_of(self, v, st, fr, node):
        """the elements of an iterable with known content, generator expressions expanded; None when not known"""
        if v[0] in ('genexp', 'map', 'filter'):
            t = self.new_container(st, 'list')
            return [(s, s.content.get(t) if ok is not None else None) for s, ok in self.list_extend(st, fr, node, t, v)]
        return [(st, self.literal_elems(st, v))]

    def dict_cases(self, c, k, st, fr, node):
        """a computed key looked up in a mapping with written out constant keys: [(state, the key met | None)]"""
        ks = st.content.get(c)
        if ks is None or k[0] == 'const' or self.type_of(c, st) != 'dict' or not 0 < len(ks) <= 8 or c in self.factory or \
                not all(x[0] == 'const' and (c, x) in st.dvals for x in ks):
            return None
        cur, out = [st], []
        for x in ks:
            nxt = []
            for s in cur:
                for s2, v in self.eq_split(k, x, s, fr, node):
                    if v:
                        out.append((s2, x))
                    elif v is False:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, None) for s in cur]

    # comprehensions
    def comp(self, e, st, fr, kind):
        t = None
        it0 = e.generators[0].iter
        out = []
        for s, x in self.ev(it0, st, fr):
            if x is None:
                out.append((s, None))
                continue
            g = self.mk_genexp(e, fr, x, s, elt=getattr(e, 'elt', None))
            t = self.new_container(s, kind)
            if kind == 'dict':
                def body(s1, v):
                    self.mutate(s1, fr, e, t, 'dset', (v[1][0], v[1][1]))
                    return [(s1, ('next',))]
            elif kind == 'set':
                def body(s1, v):
                    self.mutate(s1, fr, e, t, 'add', (v,))
                    return [(s1, ('next',))]
            else:
                def body(s1, v):
                    self.mutate(s1, fr, e, t, 'insert', (self.len_of(s1, t), v))
                    return [(s1, ('next',))]
            s.content[t] = ()
            for s2, status in self.run_loop(s, fr, e, g, body):
                if status[0] == 'raise':
                    out.append((s2, None))
                else:
                    out.append((s2, t))
        return out

    def mk_genexp(self, e, fr, it, st, elt=None):
        nid, fid = id(e), id(fr)
        if isinstance(e, ast.DictComp):
            e2 = ast.GeneratorExp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
            ast.copy_location(e2, e)
            ast.fix_missing_locations(e2)
            self._nodes[('d', nid)] = e2
            nid = ('d', nid)
            self._nodes[nid] = e2
        else:
            self._nodes[nid] = e
        self._frames[fid] = fr
        return ('genexp', nid, fid, it)

    def ev_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, 'list')

    def ev_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, 'set')

    def ev_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, 'dict')

    def ev_GeneratorExp(self, e, st, fr):
        out = []
        for s, x in self.ev(e.generators[0].iter, st, fr):
            out.append((s, None if x is None else self.mk_genexp(e, fr, x, s)))
        return out

    # ------------------------------------------------------------------ calls
    def super_target(self, attr, st, fr):
        s = fr_self(self, st, fr)
        ci = self.cls_of(s, st) if s and s[0] != 'class' else (self.prog.classes.get(s[1]) if s else None)
        cls = fr.cls
        if ci is None or cls is None:
            return None
        return self.prog.find_method(ci, mangle(attr.attr, fr.cls), after=cls)

    def may_inline(self, f, selfterm, fr, gen=False):
        if f.id in self.opaque or (f.cls is not None and f.cls.id in self.opaque):
            return False
        if fr is not None and fr.stack.count(f.id) >= self.rec:
            return False
        if fr is not None and len(fr.stack) > self.max_depth:
            return False
        if f.cls is None:
            return True
        if f.cls.outer_func is not None:
            return True
        if f.outer is not None and f.outer is not f.cls.outer_func:
            return True     # nested function inside a method
        if f.kind in ('static', 'class'):
            return f.module is self.root_module or f.cls.id in self.inline_classes or f.module.name in self.inline_modules or (self.geometry and f.module.name == 'Geometry')
        if selfterm is not None and selfterm == self.root_self:
            return True
        if self.geometry and f.module.name == 'Geometry':
            return True
        if f.cls.id in self.inline_classes or f.module.name in self.inline_modules:
            return True
        if selfterm is not None and selfterm[0] == 'new' and f.module is self.root_module and f.cls.id not in self.opaque:
            return True
        return False

    def bind_args(self, f, args, kw, st, fr, closure_env, dvals=()):
        """create the callee environment; returns Frame or None if the call shape does not fit"""
        a = f.node.args
        params = a.posonlyargs + a.args
        env = self.fresh()
        e = {'__parent__': closure_env}
        args = list(args)
        kw = list(kw)
        rest = []
        names = [p.arg for p in params]
        for i, v in enumerate(args):
            if v[0] == 'star':
                # a star argument: only fits into *varargs
                rest = args[i:]
                args = args[:i]
                break
        if len(args) > len(params):
            rest = args[len(params):] + rest
            args = args[:len(params)]
        for p, v in zip(params, args):
            e[p.arg] = v
        extra_kw = []
        for k, v in kw:
            if k is None:
                extra_kw.append((None, v))
            elif k in names or k in [p.arg for p in a.kwonlyargs]:
                e[k] = v
            else:
                extra_kw.append((k, v))
        if rest:
            if not a.vararg:
                if rest[0][0] == 'star':
                    # spread an unknown tuple over the remaining positional parameters
                    src = rest[0][1]
                    j = 0
                    for p in params:
                        if p.arg not in e:
                            e[p.arg] = self.read_item(st, src, C(j))
                            j += 1
                else:
                    return None
            else:
                if len(rest) == 1 and rest[0][0] == 'star':
                    e[a.vararg.arg] = rest[0][1]
                else:
                    e[a.vararg.arg] = ('tuple', tuple(rest))
        elif a.vararg:
            e[a.vararg.arg] = ('tuple', ())
        if a.kwarg:
            if len(extra_kw) == 1 and extra_kw[0][0] is None:
                e[a.kwarg.arg] = extra_kw[0][1]
            elif not extra_kw:
                t = self.new_container(st, 'dict', ())
                e[a.kwarg.arg] = t
            else:
                t = self.new_container(st, 'dict', None if any(k is None for k, _ in extra_kw) else tuple(C(k) for k, _ in extra_kw))
                for k, v in extra_kw:
                    if k is not None:
                        st.dvals[(t, C(k))] = v
                        st.facts[('in', C(k), t)] = True
                e[a.kwarg.arg] = t
        elif extra_kw and not any(k is None for k, _ in extra_kw):
            return None
        dfl = dict(zip([p.arg for p in params][len(params) - len(a.defaults):], a.defaults))
        dfl.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        nfr = Frame(f, env, (fr.stack if fr else ()) + (f.id,))
        for p in params + a.kwonlyargs:
            if p.arg not in e:
                if p.arg in dict(dvals):
                    e[p.arg] = dict(dvals)[p.arg]
                elif p.arg in dfl:
                    e[p.arg] = self.default_val(f, dfl[p.arg], st, closure_env)
                else:
                    return None
            ty = self.prog.ann_type(f.module, p.annotation, f)
            t = e[p.arg]
            if ty and t[0] in ('sym', 'res', 'elem', 'item') and self.type_of(t, st) is None:
                st.types[t] = ty
        st.envs[env] = e
        return nfr

    def default_val(self, f, node, st, closure_env):
        if isinstance(node, ast.Constant):
            return C(node.value)
        dfr = Frame(f.outer, closure_env, ()) if f.outer is not None and closure_env is not None else Frame(None, -1, (), module=f.module)
        if dfr.func is None:
            dfr.cls = f.cls
        try:
            outs = self.ev(node, st, dfr)
            if outs and outs[0][1] is not None:
                return outs[0][1]
        except (KeyError, TooComplex):
            pass
        return ('unk', self.fresh())

    def call_func(self, f, args, kw, st, fr, node, selfterm=None, closure_env=None, dvals=()):
        if closure_env is None and selfterm in self.objenv and f.cls is not None and f.cls.outer_func is not None:
            closure_env = self.objenv[selfterm]     # a method of a class made within a function
        if self.is_cm(f):
            return [(st, ('cm', f.id, closure_env, tuple(args), tuple(kw), selfterm))]
        if f.is_gen and not f.is_async:
            return [(st, ('genexp', ('fn', f.id, closure_env, tuple(args), tuple(kw), selfterm, tuple(dvals)), 0, NONE))]
        if self.later and f.is_async and not (fr is not None and fr.func is not None and fr.func.is_async):
            return [(st, ('coro', f.id, closure_env, tuple(args), tuple(kw), selfterm, tuple(dvals)))]
        nfr = self.bind_args(f, args, kw, st, fr, closure_env, dvals)
        if nfr is None and self.strict and not any(a[0] == 'star' for a in args) and not any(k is None for k, _ in kw):
            return self.boom(st, fr, node, 'TypeError')
        if nfr is None:
            return self.opaque_call(st, fr, node, selfterm, f.name, list(args[1:] if selfterm is not None else args), kw)
        nfr.selfterm = selfterm
        out = []
        held = st.held
        for s, status, v in self.exec_func_body(f, st, nfr):
            s.done = s.done | {nfr.env}
            if status == 'raise':
                if f.is_async and fr is not None and not (fr.func is not None and fr.func.is_async):
                    # the exception stays in the coroutine's task
                    s.exc = None
                    self.emit(s, fr, node, 'coro_raise', name=f.name)
                    out.append((s, ('coro', f.id)))
                    continue
                out.append((s, None))
            else:
                out.append((s, v))
        return out

    def opaque_call(self, st, fr, node, recv, name, args, kw, rtype=None):
        if recv in (('ext', 'asyncio.ensure_future'), ('ext', 'asyncio.create_task')) and args:
            recv, name, args, kw = ('ext', 'asyncio'), 'create_task', args[:1], []
        if name == 'add_ref' and recv is not None and not args and not kw:
            res = recv
        elif self.pure and name != 'listen' and name not in TASKS:
            mk = (recv, name, tuple(args), tuple(kw))
            res = self.memo.get(mk)
            if res is None:
                res = self.memo[mk] = ('res', self.fresh())
                self.resdef[res] = mk
        else:
            res = ('res', self.fresh())
            if self.pure:
                self.resdef[res] = (recv, name, tuple(args), tuple(kw))
        if rtype:
            self.restypes[res] = rtype
        eff = self.emit(st, fr, node, 'call', recv=recv, name=name, args=args, kw=kw, res=res)
        if self.events and name == 'fire' and recv is not None:
            return [(s, None if v is None else res) for s, v in self.fire(recv, args, kw, st, fr, node)]
        if self.events and (name == 'listen' or name in TASKS) and recv is not None:
            st.facts[('isnone', res)] = False
            st.facts[('truthy', res)] = True
        out = [(st, res)]
        if self.raises is not None and self.raises(eff, st):
            s2 = st.copy()
            s2.exc = ('exc', '*', NONE)
            s2.trace[-1] = Eff('call', recv=recv, name=name, args=args, kw=kw, res=None, line=eff.line, fn=eff.fn, held=eff.held, extra='raised')
            out.append((s2, None))
        # containers handed to unknown code may change
        for a in list(args) + [v for _, v in kw]:
            if a[0] == 'new' and a in st.content and self.type_of(a) in ('list', 'dict', 'set') and recv != ('ext', 'print'):
                pass
        return out

    SNAP = ('heap', 'lens', 'vers', 'muts', 'content', 'built', 'dvals')

    def intrinsic(self, e, st, fr):
        """client code only.  __snap__(k, value): marks the halves of a comparison (k=1 puts the object state back to what it was
        at k=0, keeping the branch facts); __fire__(event, ...): calls the functions listening to the event, in order"""
        out = []
        for s, args, kw in self.ev_args(e, st, fr):
            if args is None:
                out.append((s, None))
                continue
            if e.func.id == '__snap__':
                k = args[0][2]
                args = [args[0]] + [self.snapval(a, s) for a in args[1:]]
                if k == 0:
                    s.envs.setdefault('__snap__', {})
                    s.envs['__snap__'] = {'state': {n: dict(getattr(s, n)) for n in self.SNAP}}
                elif k == 1:
                    for n, v in s.envs['__snap__']['state'].items():
                        setattr(s, n, dict(v))
                self.emit(s, fr, e, 'snap', name=k, args=tuple(args[1:]))
                out.append((s, NONE))
                continue
            if e.func.id == '__await__':
                out += self.run_coro(args[0], s, fr, e)
                continue
            if e.func.id == '__run__':
                out += self.run_tasks(s, fr, e)
                continue
            self.emit(s, fr, e, 'fired', recv=args[0], args=tuple(args[1:]))
            out += self.fire(args[0], args[1:], kw, s, fr, e)
        return out

    def snapval(self, t, st, depth=0):
        """the value with the containers of known content written out"""
        if not isinstance(t, tuple) or not t or depth > 6:
            return t
        if t[0] == 'tuple':
            return ('tuple', tuple(self.snapval(x, st, depth + 1) for x in t[1]))
        if t[0] in ('new', 'copy', 'lit') and not (t[0] == 'new' and t[1].startswith('cls:')):
            v = t if t[0] == 'lit' else self.freeze(t, st)
            if v[0] == 'lit':
                return ('lit', v[1], tuple(self.snapval(x, st, depth + 1) for x in v[2]))
        return t

    def run_coro(self, c, st, fr, node):
        """a coroutine runs to its end at this point"""
        if c[0] != 'coro' or len(c) < 3:
            raise TooComplex('not a coroutine of the package')
        f = self.prog.funcs[c[1]]
        nfr = self.bind_args(f, list(c[3]), list(c[4]), st, fr, c[2], list(c[6]))
        if nfr is None:
            return [(st, None)]
        nfr.selfterm = c[5]
        return [(s, None if status == 'raise' else v) for s, status, v in self.exec_func_body(f, st, nfr)]

    def done_callbacks(self, s, r, fr, node):
        cur, out = [s], []
        for cb in [x.args[0] for x in s.trace if x.kind == 'call' and x.name == 'add_done_callback' and x.recv == r and x.args]:
            nxt = []
            for s1 in cur:
                for s2, v in self.call_value(cb, [r], [], s1, fr, node):
                    (out if v is None else nxt).append((s2, False) if v is None else s2)
            cur = nxt
        return out + [(x, True) for x in cur]

    def run_tasks(self, s, fr, node):
        """the tasks waiting at this point run to their end, in the order they were made, each followed by its callbacks"""
        ran = {x.recv for x in s.trace if x.kind == 'ran'}
        todo = [(x.res, x.args[TASKS[x.name]:]) for x in s.trace if x.kind == 'call' and x.name in TASKS and len(x.args) > TASKS[x.name] and x.res not in ran]
        out, cur = [], [s]
        for r, cs in todo:
            nxt = []
            for s1 in cur:
                gone = any(x.kind == 'call' and x.name == 'cancel' and x.recv == r for x in s1.trace)
                self.emit(s1, fr, node, 'ran', recv=r)
                if gone:
                    # a cancelled task ends without running; its callbacks are told
                    a = self.done_callbacks(s1, r, fr, node)
                    out += [(x, None) for x, ok in a if not ok]
                    nxt += [x for x, ok in a if ok]
                    continue
                if cs[0][0] != 'coro' or len(cs[0]) < 3:
                    for s2, v in self.call_value(cs[0], list(cs[1:]), [], s1, fr, node):
                        s2.exc = None
                        nxt.append(s2)
                    continue
                c = cs[0]
                f = self.prog.funcs[c[1]]
                nfr = self.bind_args(f, list(c[3]), list(c[4]), s1, fr, c[2], list(c[6]))
                if nfr is None:
                    out.append((s1, None))
                    continue
                nfr.selfterm = c[5]
                for s2, status, v in self.exec_func_body(f, s1, nfr):
                    if status == 'raise':
                        s2.exc = None
                        self.emit(s2, fr, node, 'coro_raise', name=f.name)
                    a = self.done_callbacks(s2, r, fr, node)
                    out += [(x, None) for x, ok in a if not ok]
                    nxt += [x for x, ok in a if ok]
            cur = nxt
        return out + [(s1, NONE) for s1 in cur]

    def fire(self, ev, args, kw, s, fr, node):
        """the functions listening to the event on this path are called, in order"""
        closed = {x.recv for x in s.trace if x.kind == 'call' and x.name == 'close'}
        fns = [(x.res, x.args[0]) for x in s.trace if x.kind == 'call' and x.name == 'listen' and x.recv == ev and x.res not in closed and x.args]
        if fns and self.drops:
            kept = self.reached(s)
            fns = [(r, f) for r, f in fns if r in kept]
        out, cur = [], [s]
        for r, f in fns:
            nxt = []
            for s1 in cur:
                if any(x.kind == 'call' and x.name == 'close' and x.recv == r for x in s1.trace):
                    nxt.append(s1)
                    continue
                for s2, v in self.call_value(f, list(args), list(kw), s1, fr, node):
                    if v is None:
                        out.append((s2, None))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s1, NONE) for s1 in cur]

    def reached(self, st):
        """the values a variable of a call under way, or what lies behind it, still refers to: a listener that is not among them is gone"""
        by = {}
        todo = []
        for (r, n), v in st.heap.items():
            if r[0] == 'new':
                by.setdefault(r, []).append(v)
            else:
                todo.append(v)
        for (r, k), v in st.dvals.items():
            if st.facts.get(('in', k, r)) is not False:
                by.setdefault(r, []).extend((k, v))
        for r, c in st.content.items():
            by.setdefault(r, []).extend(c)
        for e, d in st.envs.items():
            if e not in st.done and e != '__snap__':
                todo.extend(v for n, v in d.items() if n != '__parent__')
        for x in st.trace:
            if x.kind == 'call' and x.name not in ('close', 'listen'):
                todo.extend(x.args)
        seen = set()
        while todo:
            t = todo.pop()
            if not isinstance(t, tuple) or not t or t in seen:
                continue
            seen.add(t)
            if t[0] == 'weakref':
                todo.extend(t[2:3])
                continue
            todo.extend(by.get(t, ()))
            if t[0] == 'closure':
                f = self.prog.funcs.get(t[1])
                for n in (free_names(f) if f is not None else ()):
                    v = env_lookup(st, t[2], n)
                    if v is not None:
                        todo.append(v)
                todo.extend(t[3:])
            elif t[0] == 'class' and len(t) > 2:
                continue
            else:
                todo.extend(x for x in t if isinstance(x, tuple))
        return seen

    def deepcopy(self, a, memo, st, fr, node):
        ci = self.cls_of(a, st) if a[0] == 'new' else None
        if ci is None:
            if a[0] == 'const':
                return [(st, a)]
            ty = self.type_of(a, st)
            ct = self.literal_elems(st, a) if ty in ('list', 'tuple', 'dict') and (a in st.content or a[0] == 'tuple') else None
            if ct is not None and len(ct) <= 8:
                xs = ct if ty != 'dict' else [st.dvals[(a, k)] for k in ct]
                cur = [(st, ())]
                for x in xs:
                    nxt = []
                    for s, ys in cur:
                        if ys is None:
                            nxt.append((s, None))
                            continue
                        for s2, y in self.deepcopy(x, memo, s, fr, node):
                            nxt.append((s2, None if y is None else ys + (y,)))
                    cur = nxt
                out = []
                for s, ys in cur:
                    if ys is None:
                        out.append((s, None))
                    elif a[0] == 'tuple':
                        out.append((s, ('tuple', ys)))
                    elif ty == 'dict':
                        t = self.new_container(s, 'dict')
                        for k, y in zip(ct, ys):
                            self.mutate(s, fr, node, t, 'dset', (k, y))
                        out.append((s, t))
                    else:
                        out.append((s, self.new_container(s, ty, ys)))
                return out
            return [(st, ('app', 'copy.deepcopy', self.freeze(a, st)))]
        f = self.prog.find_method(ci, '__deepcopy__')
        if f is not None:
            if not self.may_inline(f, a, fr):
                return [(st, ('app', 'copy.deepcopy', a))]
            return self.call_func(f, [a, memo], [], st, fr, node, selfterm=a)
        t = ('new', a[1], self.fresh())
        self.copyof[t] = a
        for (o, n), v in list(st.heap.items()):
            if o == a:
                st.heap[(t, n)] = v if v[0] in ('const', 'class', 'func', 'ext') else ('app', 'copy.deepcopy', self.freeze(v, st))
        return [(st, t)]

    def ev_Call(self, e, st, fr):
        fe = e.func
        if isinstance(fe, ast.Name) and fe.id in ('__snap__', '__fire__', '__run__', '__await__'):
            return self.intrinsic(e, st, fr)
        # super()
        if isinstance(fe, ast.Name) and fe.id == 'super':
            return [(st, ('super', fr.cls.id if fr.cls else ''))]
        if isinstance(fe, ast.Attribute) and isinstance(fe.value, ast.Call) and isinstance(fe.value.func, ast.Name) and fe.value.func.id == 'super':
            f = self.super_target(fe, st, fr)
            s0 = fr_self(self, st, fr)
            out = []
            for s, args, kw in self.ev_args(e, st, fr):
                if args is None:
                    out.append((s, None))
                elif f is None:
                    if fe.attr == '__call__' and s0 is not None and s0[0] == 'class':
                        out += self.instantiate(s0, args, kw, s, fr, e, raw=True)
                    elif fe.attr == '__init__':
                        out.append((s, NONE))
                    elif fe.attr == '__setattr__' and len(args) == 2:
                        if args[0][0] == 'const':
                            out += self.store_attr(s, fr, e, s0, args[0][2], args[1], plain=True)
                            continue
                        self.emit(s, fr, e, 'setattr', recv=s0, args=args)
                        out.append((s, NONE))
                    else:
                        out += self.opaque_call(s, fr, e, ('super', s0), fe.attr, args, kw)
                elif f.kind == 'class' or not self.may_inline(f, s0, fr):
                    if f.kind == 'class':
                        out += self.call_func(f, [s0] + args, kw, s, fr, e, selfterm=s0)
                    else:
                        out += self.opaque_call(s, fr, e, ('super', s0), fe.attr, args, kw)
                else:
                    out += self.call_func(f, [s0] + args, kw, s, fr, e, selfterm=s0)
            return out
        # method call: evaluate the receiver, then the arguments
        if isinstance(fe, ast.Attribute):
            out = []
            for s, o in self.ev(fe.value, st, fr):
                if o is None:
                    out.append((s, None))
                    continue
                nm = mangle(fe.attr, fr.cls)
                for s2, args, kw in self.ev_args(e, s, fr):
                    if args is None:
                        out.append((s2, None))
                    else:
                        out += self.call_method(o, nm, args, kw, s2, fr, e)
            return out
        out = []
        for s, fv in self.ev(fe, st, fr):
            if fv is None:
                out.append((s, None))
                continue
            for s2, args, kw in self.ev_args(e, s, fr):
                if args is None:
                    out.append((s2, None))
                else:
                    out += self.call_value(fv, args, kw, s2, fr, e)
        return out

    def ev_args(self, e, st, fr):
        exprs = list(e.args) + [k.value for k in e.keywords]
        out = []
        na = len(e.args)
        if not any(isinstance(a, ast.Starred) for a in e.args):
            for s, vs in self.ev_list(exprs, st, fr):
                if vs is None:
                    out.append((s, None, None))
                else:
                    out.append((s, list(vs[:na]), self.kwlist(e, vs[na:], s)))
            return out
        for s, vs in self.ev_list(e.args, st, fr):
            if vs is None:
                out.append((s, None, None))
                continue
            for s2, ks in self.ev_list([k.value for k in e.keywords], s, fr):
                if ks is None:
                    out.append((s2, None, None))
                else:
                    out.append((s2, list(vs), self.kwlist(e, ks, s2)))
        return out

    def kwlist(self, e, vals, st):
        r = []
        for k, v in zip(e.keywords, vals):
            if k.arg is None and v[0] == 'new' and v in st.content and not st.content[v]:
                continue
            if k.arg is None and v[0] == 'new':
                ks = [(kk[1][2], x) for kk, x in st.dvals.items() if kk[0] == v and kk[1][0] == 'const']
                if ks:
                    r += ks
                    continue
            r.append((k.arg, v))
        return r

    def call_method(self, o, name, args, kw, st, fr, node):
        k = o[0]
        if name == '__class__' and self.cls_of(o, st) is not None:
            return self.instantiate(('class', self.cls_of(o, st).id), args, kw, st, fr, node)
        if k in ('module', 'ext', 'class', 'super'):
            if k == 'super':
                ci = self.cls_of(fr_self(self, st, fr), st)
                return self.opaque_call(st, fr, node, o, name, args, kw)
            if k == 'class' and name == '__new__':
                ci = self.prog.classes.get(args[0][1]) if args and args[0][0] == 'class' else self.prog.classes.get(o[1])
                return [(st, ('new', 'cls:' + ci.id, self.fresh()))]
            outs = self.load_attr(st, fr, node, o, name)
            res = []
            for s, fv in outs:
                res += self.call_value(fv, args, kw, s, fr, node)
            return res
        # a field that shadows (e.g. self.call = fn)
        if (o, name) in st.heap:
            return self.call_value(st.heap[(o, name)], args, kw, st, fr, node, via=(o, name))
        if self.lacks(st, o, name):
            return self.boom(st, fr, node, 'AttributeError')
        ci = self.cls_of(o, st)
        if ci is not None:
            p = self.prog.find_prop(ci, name)
            if p and 'get' in p:
                out = []
                for s, fv in self.load_attr(st, fr, node, o, name):
                    if fv is None:
                        out.append((s, None))
                    else:
                        out += self.call_value(fv, args, kw, s, fr, node, via=(o, name))
                return out
            f = self.prog.find_method(ci, name)
            if f is not None:
                if f.kind == 'class':
                    if self.may_inline(f, ('class', ci.id), fr):
                        return self.call_func(f, [('class', ci.id)] + args, kw, st, fr, node, selfterm=('class', ci.id))
                elif f.kind == 'static':
                    return self.call_func(f, args, kw, st, fr, node)
                elif self.may_inline(f, o, fr):
                    return self.call_func(f, [o] + args, kw, st, fr, node, selfterm=o)
                rt = self.prog.single_type(self.prog.return_types(f))
                # normalise keyword arguments to positional ones
                args, kw = self.normalise_args(f, args, kw)
                return self.opaque_call(st, fr, node, o, name, args, kw, rtype=rt)
            if name == '__setattr__' and len(args) == 2:
                return self.builtin_setattr([o] + args, st, fr, node)
        ty = self.type_of(o, st)
        if k == 'tuple' or ty in ('list', 'dict', 'set', 'tuple') or (ty is None and name in HEUR and ci is None):
            r = self.container_method(o, ty or HEUR[name], name, args, kw, st, fr, node)
            if r is not None:
                return r
        if k in ('range', 'sorted', 'items', 'keys', 'values') and name in ('index', 'count'):
            return [(st, ('app', '.' + name, o) + tuple(args))]
        if ty == 'lock':
            if name == 'acquire':
                self.emit(st, fr, node, 'acq', recv=o)
                st.held = st.held + (o,)
                return [(st, TRUE)]
            if name == 'release':
                h = list(st.held)
                if o in h:
                    h.reverse()
                    h.remove(o)
                    h.reverse()
                st.held = tuple(h)
                self.emit(st, fr, node, 'rel', recv=o)
                return [(st, NONE)]
        if ty == 'str' and not kw and name in ('join', 'format') or name == 'format' and o[0] == 'const' and o[1] == 'str':
            r = self.str_method(o, name, args, kw, st)
            if r is not None:
                return [(st, r)]
        if o[0] == 'const' and o[1] == 'str' and not kw and name in ('startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'removeprefix', 'removesuffix', 'replace', 'find', 'isidentifier', 'count', 'rfind', 'casefold', 'isdigit', 'isnumeric', 'isalpha', 'isspace', 'zfill', 'title', 'capitalize', 'split', 'rsplit', 'partition', 'rpartition', 'splitlines') and \
                all(st.eqc.get(a, a)[0] == 'const' for a in args):
            try:
                v = getattr(o[2], name)(*[int(x[2]) if x[1] in ('int', 'float') else x[2] for x in (st.eqc.get(a, a) for a in args)])
                if isinstance(v, list):
                    return [(st, self.new_container(st, 'list', tuple(C(x) for x in v)))]
                return [(st, ('tuple', tuple(C(x) for x in v)) if isinstance(v, tuple) else C(v))]
            except Exception:
                pass
        if name == 'replace' and o[0] == 'const' and o[1] == 'str' and not kw and len(args) >= 2 and args[0][0] == 'const' and args[0][1] == 'str' and args[0][2] not in o[2]:
            return [(st, o)]
        if name in STR_METHODS and not kw and (ty == 'str' or o[0] == 'app' and o[1] in ('.group',)):
            return [(st, ('app', '.' + name, o) + tuple(args))]
        if o[0] == 'app' and o[1] in ('re.match', 're.search', 're.fullmatch') and name in ('group', '__getitem__') and not kw and len(args) < 2:
            return [(st, self.group(o, args[0] if args else ZERO))]
        if o[0] == 'app' and o[1] in ('re.match', 're.search', 're.fullmatch') and name in ('start', 'end', 'span', 'groups') and not kw and self.rx_found(o) is not None and all(a[0] == 'const' for a in args):
            try:
                v = getattr(self.rx_found(o), name)(*[int(a[2]) if a[1] in ('int', 'float') else a[2] for a in args])
                return [(st, ('tuple', tuple(C(x) for x in v)) if isinstance(v, tuple) else C(v))]
            except (IndexError, TypeError):
                pass
        if o[0] == 'app' and o[1] == 're.compile' and name in ('match', 'search', 'fullmatch', 'findall', 'sub', 'split') and not kw:
            return self.call_ext('re.' + name, [o[2]] + list(args), [('flags', x) for x in o[3:]], st, fr, node)
        if o == ('app', 'locale.localeconv') and name == 'get' and args and args[0][0] == 'const':
            return [(st, ('item', o, args[0]))]
        if name in PURE_METHODS and ty in (None, 'str', 'num', 'float', 'int') and not kw and (ci is None):
            return [(st, ('app', '.' + name, o) + tuple(args))]
        if name == '__exit__' and ty == 'lock':
            pass
        if name in ('run_in_executor',) and len(args) >= 2 and args[1][0] in ('closure', 'bound', 'partial', 'func', 'sym', 'res', 'fld') and not kw:
            self.emit(st, fr, node, 'call', recv=o, name=name, args=args, res=NONE)
            return self.call_value(args[1], list(args[2:]), [], st, fr, node)
        # calling through a stored function value is a call of that value
        ftv = self.type_of(('fld', o, name), st) if ci is not None else None
        return self.opaque_call(st, fr, node, o, name, args, kw)

    def normalise_args(self, f, args, kw):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args][1:]
        if any(x[0] == 'star' for x in args) or len(args) > len(params) or any(k is None for k, _ in kw):
            return args, kw
        kd = dict(kw)
        out = list(args)
        for p in params[len(args):]:
            if p in kd:
                out.append(kd.pop(p))
            else:
                break
        return out, [(k, v) for k, v in kw if k in kd]

    def call_value(self, fv, args, kw, st, fr, node, via=None):
        k = fv[0]
        if self.strict and self.kind(st, fv) is not None:
            return self.boom(st, fr, node, 'TypeError')
        if k == 'closure':
            f = self.prog.funcs[fv[1]]
            if (fr.stack.count(f.id) >= max(2, self.rec)) or len(fr.stack) > self.max_depth or f.id in self.opaque:
                return self.opaque_call(st, fr, node, fv, '()', args, kw)
            return self.call_func(f, args, kw, st, fr, node, closure_env=fv[2], selfterm=None, dvals=fv[3] if len(fv) > 3 else ())
        if k == 'func':
            f = self.prog.funcs[fv[1]]
            if f.cls is not None and f.kind == 'func' and args and not isinstance(f.node, ast.Lambda):
                # unbound method call  Class.method(obj, ...)
                if self.may_inline(f, args[0], fr):
                    return self.call_func(f, args, kw, st, fr, node, selfterm=args[0])
                return self.opaque_call(st, fr, node, args[0], f.name, args[1:], kw)
            if self.may_inline(f, None, fr):
                return self.call_func(f, args, kw, st, fr, node)
            return self.opaque_call(st, fr, node, fv, f.name, args, kw)
        if k == 'bound':
            f = self.prog.funcs[fv[2]]
            o = fv[1]
            if self.may_inline(f, o, fr):
                return self.call_func(f, [o] + list(args), kw, st, fr, node, selfterm=o)
            return self.opaque_call(st, fr, node, o, mangle(f.name, f.cls), args, kw)
        if k == 'bmeth':
            return self.call_method(fv[1], fv[2], list(args), kw, st, fr, node)
        if k == 'partial':
            return self.call_value(fv[1], list(fv[2]) + list(args), list(fv[3]) + [x for x in kw], st, fr, node)
        if k == 'mcall':
            return self.call_method(args[0], fv[1], list(fv[2]), [], st, fr, node)
        if k == 'agetter':
            return self.load_attr(st, fr, node, args[0], fv[1]) if isinstance(fv[1], str) else self.opaque_call(st, fr, node, fv, '()', args, kw)
        if k == 'class':
            return self.instantiate(fv, args, kw, st, fr, node)
        if k == 'ext':
            return self.call_ext(fv[1], args, kw, st, fr, node)
        if k == 'weakref':
            out = []
            for s, dead in self.split(st, fr, node, ('isnone', ('deref', fv))):
                out.append((s, NONE if dead else fv[1]))
            return out
        if self.type_of(fv, st) == 'weakref' and not args:
            return [(st, ('deref', fv))]
        if k == 'new':
            ci = self.cls_of(fv)
            f = self.prog.find_method(ci, '__call__') if ci else None
            if f and self.may_inline(f, fv, fr):
                return self.call_func(f, [fv] + list(args), kw, st, fr, node, selfterm=fv)
        if fv[0] == 'fld' and isinstance(fv[2], str):
            # the value stored in a field: the same call whether or not it went through a local variable
            return self.opaque_call(st, fr, node, fv[1], fv[2], args, kw)
        return self.opaque_call(st, fr, node, fv, '()', args, kw)

    def instantiate(self, cv, args, kw, st, fr, node, raw=False):
        ci = self.prog.classes.get(cv[1])
        if ci is None:
            return self.opaque_call(st, fr, node, cv, '()', args, kw)
        isenum = any(b.split('.')[-1] in ('Enum', 'IntEnum') for b in self.prog.ext_bases(ci))
        if isenum:
            return [(st, ('app', 'enum:' + ci.id) + tuple(args))]
        t = ('new', 'cls:' + ci.id, self.fresh())
        mc = self.prog.metaclass(ci) if self.meta and not raw else None
        f = self.prog.find_method(mc, '__call__') if mc is not None else None
        if f is not None:
            ct = ('class', ci.id)
            cur = [st]
            if (ct, '__made__') not in st.heap:
                st.heap[(ct, '__made__')] = TRUE
                g = self.prog.find_method(mc, '__init__')
                if g is not None:
                    cur = [s for s, v in self.call_func(g, [ct, C(ci.name), ('tuple', ()), ('unk', self.fresh())], [], st, fr, node, selfterm=ct) if v is not None]
            out = []
            for s in cur:
                out += self.call_func(f, [ct] + list(args), kw, s, fr, node, selfterm=ct)
            return out
        if ci.name == 'ComponentManager' and not self.meta:
            t = ('glob', 'Registry', 'ComponentManager()')
            self.symtypes[t] = 'cls:' + ci.id
            return [(st, t)]
        init = self.prog.find_method(ci, '__init__')
        nw = self.prog.find_method(ci, '__new__')
        inl = ci.outer_func is not None or ci.module is self.root_module and ci.id not in self.opaque or ci.id in self.inline_classes or ci.module.name in self.inline_modules or \
            (self.geometry and ci.module.name == 'Geometry')
        if init is not None and not self.may_inline_init(init, fr):
            inl = False
        if len(cv) > 2:
            self.objenv[t] = cv[2]
        if inl:
            self.full.add(t)
            if init is None:
                if ci.node.decorator_list and any((dotted(d) or '').endswith('dataclass') for d in ci.node.decorator_list):
                    return self.dataclass_init(ci, t, args, kw, st, fr, node)
                if args or kw:
                    # e.g. a tuple / exception subclass
                    self.emit(st, fr, node, 'call', recv=('class', ci.id), name='new', args=args, kw=kw, res=t)
                return [(st, t)]
            out = []
            self.emit(st, fr, node, 'new', recv=('class', ci.id), name=ci.name, args=args, kw=kw, res=t)
            cenv = cv[2] if len(cv) > 2 and init.cls is not None and init.cls.outer_func is not None else None
            for s, v in self.call_func(init, [t] + list(args), kw, st, fr, node, selfterm=t, closure_env=cenv):
                out.append((s, None if v is None else t))
            return out
        if init is not None:
            args, kw = self.normalise_args(init, list(args), kw)
        self.emit(st, fr, node, 'new', recv=('class', ci.id), name=ci.name, args=args, kw=kw, res=t)
        out = [(st, t)]
        if self.raises is not None and self.raises(st.trace[-1], st):
            s2 = st.copy()
            s2.exc = ('exc', '*', NONE)
            out.append((s2, None))
        return out

    def may_inline_init(self, init, fr):
        if init.id in self.opaque:
            return False
        return fr.stack.count(init.id) < self.rec and len(fr.stack) < self.max_depth

    def dataclass_init(self, ci, t, args, kw, st, fr, node):
        names = []
        dfl = {}
        for c in reversed(self.prog.mro(ci)):
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.target.id not in names:
                        names.append(s.target.id)
                    if s.value is not None:
                        dfl[s.target.id] = s.value
        vals = dict(zip(names, args))
        vals.update({k: v for k, v in kw if k})
        for n in names:
            if n in vals:
                st.heap[(t, n)] = vals[n]
            elif n in dfl and isinstance(dfl[n], ast.Constant):
                st.heap[(t, n)] = C(dfl[n].value)
        self.emit(st, fr, node, 'new', recv=('class', ci.id), name=ci.name, args=args, kw=kw, res=t)
        return [(st, t)]

    def all_fixed(self, ct):
        return len(ct) <= 50 and all(x[0] == 'const' or x[0] == 'tuple' and self.all_fixed(x[1]) for x in ct)

    def absent(self, st, o, x):
        """is the constant certainly not among the known constant elements"""
        ct = st.content.get(o)
        return self.strict and ct is not None and T.is_const(x) and all(T.is_const(y) and y[2] != x[2] for y in ct)

    def sort_known(self, ct, key, rev, st, fr, node):
        """stable sort of known elements: [(state, elements in order)]"""
        cur, out = [(st, [])], []
        for x in ct:
            nxt = []
            for s, ks in cur:
                for s2, k in ([(s, x)] if key == NONE else self.call_value(key, [x], [], s, fr, node)):
                    if k is None:
                        out.append((s2, None))
                    else:
                        nxt.append((s2, ks + [(x, k)]))
            cur = nxt
        done = []
        todo = [(s, [], ks) for s, ks in cur]
        while todo:
            s, have, rest = todo.pop()
            if not rest:
                done.append((s, [x for x, _ in have]))
                continue
            # insert the next element after the last one that does not come later
            places = [(s, len(have))]
            while places:
                s2, i = places.pop()
                if i == 0:
                    todo.append((s2, [rest[0]] + have, rest[1:]))
                    continue
                a, b = (rest[0][1], have[i - 1][1]) if not rev else (have[i - 1][1], rest[0][1])
                for s3, v in self.cmp_vals(ast.Lt(), a, b, s2, fr, node):
                    if v is None:
                        out.append((s3, None))
                    elif v:
                        places.append((s3, i - 1))
                    else:
                        todo.append((s3, have[:i] + [rest[0]] + have[i:], rest[1:]))
        return out + done

    # ---- containers
    def mk_copy(self, st, c):
        if c[0] == 'copy' and not st.muts.get(c) and st.vers.get(c[1], 0) == c[2]:
            c = c[1]
        if c in st.content and self.type_of(c) == 'dict' and c[0] == 'new' and all((c, k) in st.dvals for k in st.content[c]):
            t = self.new_container(st, 'dict', st.content[c])
            for k in st.content[c]:
                st.dvals[(t, k)] = st.dvals[(c, k)]
            return t
        if c in st.content and self.type_of(c) in ('list', 'set') and c[0] == 'new':
            return self.new_container(st, self.type_of(c), st.content[c])
        if c in st.built:
            t = self.new_container(st, self.type_of(c) or 'list', None)
            self.copied[t] = (c, st.vers.get(c, 0))
            st.built[t] = st.built[c]
            st.lens[t] = self.len_of(st, c)
            return t
        t = ('copy', c, st.vers.get(c, 0), self.fresh())
        return t

    def list_extend(self, st, fr, node, c, x):
        def body(s, e):
            self.mutate(s, fr, node, c, 'insert', (self.len_of(s, c), e))
            return [(s, ('next',))]
        return [(s, None if status[0] == 'raise' else NONE) for s, status in self.run_loop(st, fr, node, x, body)]

    def set_known(self, st, n, a, b):
        """set operation of known elements, pairwise known to be equal or different; None otherwise"""
        xs, ys = self.literal_elems(st, a), self.literal_elems(st, b)
        if xs is None or ys is None or len(xs) > 6 or len(ys) > 6:
            return None
        if any(x != y and not self.distinct(x, y, st) for x in xs for y in ys):
            return None
        if n == 'BitOr':
            r = xs + [y for y in ys if y not in xs]
        elif n == 'BitAnd':
            r = [x for x in xs if x in ys]
        elif n == 'Sub':
            r = [x for x in xs if x not in ys]
        else:
            r = [x for x in xs if x not in ys] + [y for y in ys if y not in xs]
        return self.new_container(st, 'set', r)

    def set_update(self, st, fr, node, c, x, op):
        if x == c:
            if op == 'discard':
                self.mutate(st, fr, node, c, 'clear', ())
            return [(st, NONE)]
        def body(s, e):
            self.mutate(s, fr, node, c, op, (e,))
            return [(s, ('next',))]
        return [(s, None if status[0] == 'raise' else NONE) for s, status in self.run_loop(st, fr, node, x, body)]

    ARITY = {'list': {'insert': 2, 'append': 1, 'remove': 1, 'extend': 1, 'index': 1, 'count': 1}, 'dict': {'get': 1, 'pop': 1, 'setdefault': 1}, 'set': {'add': 1, 'discard': 1, 'remove': 1}}

    def container_method(self, o, ty, name, args, kw, st, fr, node):
        if self.strict and not kw and len(args) < self.ARITY.get(ty, {}).get(name, 0) and not any(a[0] == 'star' for a in args):
            return self.boom(st, fr, node, 'TypeError')
        R1 = lambda v: [(st, v)]
        kwd = dict(kw)
        if ty == 'list' or ty == 'tuple':
            if name not in LIST_OPS:
                return None
            if name == 'append':
                self.mutate(st, fr, node, o, 'insert', (self.len_of(st, o), args[0]))
                return R1(NONE)
            if name == 'appendleft':
                self.mutate(st, fr, node, o, 'insert', (ZERO, args[0]))
                return R1(NONE)
            if name == 'insert':
                i = args[0]
                if self.strict and self.kind(st, i) in (str, list, dict, set, tuple, type(None)):
                    return self.boom(st, fr, node, 'TypeError')
                self.mutate(st, fr, node, o, 'insert', (i, args[1]))
                return R1(NONE)
            if name in ('pop', 'popleft', '__delitem__'):
                if self.missing(st, o, args[0] if args else C(-1), fr, node):
                    return [(st, None)]
                ln = self.len_of(st, o)
                i = args[0] if args else (ZERO if name == 'popleft' else T.sub(ln, ONE))
                if T.is_const(i) and i[1] == 'int' and i[2] < 0:
                    i = T.add(ln, i)
                v = self.read_item(st, o, i)
                self.mutate(st, fr, node, o, 'remove_at', (i,), res=v)
                return R1(v)
            if name in ('remove', 'index') and len(args) == 1 and self.absent(st, o, args[0]):
                return self.boom(st, fr, node, 'ValueError')
            if name == 'remove':
                out = []
                outs = [(st, True)]
                if self.catches(st, 'ValueError'):
                    outs = self.split(st, fr, node, ('in', args[0], o))
                for s, v in outs:
                    if not v:
                        s.exc = ('exc', 'ValueError', NONE)
                        out.append((s, None))
                        continue
                    i = self.index_of(s, o, args[0])
                    self.mutate(s, fr, node, o, 'remove_at', (i,), res=args[0])
                    out.append((s, NONE))
                return out
            if name == 'index':
                out = []
                outs = [(st, True)]
                if self.catches(st, 'ValueError'):
                    outs = self.split(st, fr, node, ('in', args[0], o))
                for s, v in outs:
                    if not v:
                        s.exc = ('exc', 'ValueError', NONE)
                        out.append((s, None))
                    else:
                        out.append((s, self.index_of(s, o, args[0])))
                return out
            if name == 'clear':
                self.mutate(st, fr, node, o, 'clear', ())
                return R1(NONE)
            if name == 'extend':
                return self.list_extend(st, fr, node, o, args[0])
            if name == 'sort':
                ct, rev = self.literal_elems(st, o) if o in st.content else None, kwd.get('reverse', FALSE)
                if ct is not None and (len(ct) <= (6 if self.dyn else 3) or self.all_fixed(ct)) and rev in (TRUE, FALSE):
                    out = []
                    for s, v in self.sort_known(ct, kwd.get('key', NONE), rev == TRUE, st, fr, node):
                        if v is not None:
                            self.mutate(s, fr, node, o, 'sort', (kwd.get('key', NONE), rev))
                            s.content[o] = list(v)
                            s.lens[o] = C(len(v))
                        out.append((s, None if v is None else NONE))
                    return out
                self.mutate(st, fr, node, o, 'sort', (kwd.get('key', NONE), kwd.get('reverse', FALSE)))
                return R1(NONE)
            if name == 'reverse':
                self.mutate(st, fr, node, o, 'reverse', ())
                return R1(NONE)
            if name == 'count':
                return R1(('app', '.count', self.freeze(o, st), args[0]))
            if name == 'copy':
                return R1(self.mk_copy(st, o))
            if name == '__contains__':
                return [(s, TRUE if v else FALSE) for s, v in self.in_split(args[0], o, st, fr, node)]
            if name == '__len__':
                return R1(self.len_of(st, o))
            if name == '__getitem__':
                return R1(self.read_item(st, o, args[0]))
            if name == '__setitem__':
                self.mutate(st, fr, node, o, 'set', (args[0], args[1]))
                return R1(NONE)
        if ty == 'dict':
            if name not in DICT_OPS:
                return None
            if name == 'get':
                out = []
                d = args[1] if len(args) > 1 else kwd.get('default', NONE)
                cs = self.dict_cases(o, args[0], st, fr, node)
                if cs is not None:
                    return [(s, d if x is None else s.dvals[(o, x)]) for s, x in cs]
                for s, v in self.split(st, fr, node, ('in', args[0], o)):
                    out.append((s, self.read_item(s, o, args[0]) if v else d))
                return out
            if name == 'pop':
                out = []
                outs = [(st, True)]
                if len(args) > 1 or self.catches(st, 'KeyError'):
                    outs = self.split(st, fr, node, ('in', args[0], o))
                for s, v in outs:
                    if v:
                        x = self.read_item(s, o, args[0])
                        self.mutate(s, fr, node, o, 'ddel', (args[0],), res=x)
                        out.append((s, x))
                    elif len(args) > 1:
                        out.append((s, args[1]))
                    else:
                        s.exc = ('exc', 'KeyError', NONE)
                        out.append((s, None))
                return out
            if name == 'setdefault':
                out = []
                for s, v in self.split(st, fr, node, ('in', args[0], o)):
                    if v:
                        out.append((s, self.read_item(s, o, args[0])))
                    else:
                        d = args[1] if len(args) > 1 else NONE
                        self.mutate(s, fr, node, o, 'dset', (args[0], d))
                        out.append((s, d))
                return out
            if name in ('items', 'keys', 'values'):
                return R1((name, o))
            if name == 'clear':
                self.mutate(st, fr, node, o, 'clear', ())
                return R1(NONE)
            if name == 'copy':
                return R1(self.mk_copy(st, o))
            if name == 'update':
                for k, v in kw:
                    if k is not None:
                        self.mutate(st, fr, node, o, 'dset', (C(k), v))
                if args:
                    self.dict_update(st, fr, node, o, args[0])
                return R1(NONE)
            if name == 'popitem':
                self.mutate(st, fr, node, o, 'popitem', ())
                return R1(('unk', self.fresh()))
            if name == '__contains__':
                return [(s, TRUE if v else FALSE) for s, v in self.in_split(args[0], o, st, fr, node)]
            if name == '__getitem__':
                return R1(self.read_item(st, o, args[0]))
            if name == '__setitem__':
                self.mutate(st, fr, node, o, 'dset', (args[0], args[1]))
                return R1(NONE)
            if name == '__delitem__':
                self.mutate(st, fr, node, o, 'ddel', (args[0],))
                return R1(NONE)
            if name == '__len__':
                return R1(self.len_of(st, o))
        if ty == 'set':
            if name not in SET_OPS:
                return None
            if name == 'add':
                self.mutate(st, fr, node, o, 'add', (args[0],))
                return R1(NONE)
            if name == 'remove' and self.absent(st, o, args[0]):
                return self.boom(st, fr, node, 'KeyError')
            if name in ('discard', 'remove'):
                out = []
                outs = [(st, True)]
                if name == 'remove' and self.catches(st, 'KeyError'):
                    outs = self.split(st, fr, node, ('in', args[0], o))
                for s, v in outs:
                    if not v:
                        s.exc = ('exc', 'KeyError', NONE)
                        out.append((s, None))
                        continue
                    if name == 'remove':
                        # the element must have been a member for the statement to complete
                        if self.known(s, ('in', args[0], o)) is None:
                            s.facts[('in', args[0], o)] = True
                    self.mutate(s, fr, node, o, 'discard', (args[0],))
                    out.append((s, NONE))
                return out
            if name == 'clear':
                self.mutate(st, fr, node, o, 'clear', ())
                return R1(NONE)
            if name == 'copy':
                return R1(self.mk_copy(st, o))
            if name == 'update':
                cur = [(st, NONE)]
                for a in args:
                    nxt = []
                    for s, _ in cur:
                        nxt += self.set_update(s, fr, node, o, a, 'add')
                    cur = nxt
                return cur
            if name == 'difference_update':
                return self.set_update(st, fr, node, o, args[0], 'discard')
            if name in ('union', 'intersection', 'difference', 'symmetric_difference') and len(args) == 1:
                n = {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub', 'symmetric_difference': 'BitXor'}[name]
                return R1(self.set_known(st, n, o, args[0]) or ('setop', n, self.freeze(o, st), self.freeze(args[0], st)))
            if name == '__contains__':
                return [(s, TRUE if v else FALSE) for s, v in self.in_split(args[0], o, st, fr, node)]
            if name == '__len__':
                return R1(self.len_of(st, o))
            if name in ('issubset', 'issuperset', 'isdisjoint'):
                return R1(('app', '.' + name, self.freeze(o, st), self.freeze(args[0], st)))
            if name == 'pop':
                v = ('unk', self.fresh())
                self.mutate(st, fr, node, o, 'setpop', ())
                return R1(v)
            self.mutate(st, fr, node, o, name, tuple(args))
            return R1(NONE)
        return None

    def index_of(self, st, c, v):
        if v[0] == 'item' and v[1] == c and not st.vers.get(c):
            pass
        if c in st.content and v in st.content[c]:
            return C(st.content[c].index(v))
        b = c
        while b[0] == 'copy' and not st.muts.get(b) and st.vers.get(b[1], 0) == b[2]:
            b = b[1]
        if st.vers.get(b, 0) == 0:
            return ('indexof', b, v)
        ms = st.muts.get(b)
        if ms and len(ms) == 1 and ms[0][0] == 'other' and len(ms[0]) > 1:
            return ('indexof', ('ver', b, ms[0][1]), v)
        return ('indexof', ('ver', b, st.vers[b]), v)

    # ---- builtins and external functions
    def builtin_setattr(self, args, st, fr, node):
        o, n, v = args
        if n[0] == 'const':
            return self.store_attr(st, fr, node, o, n[2], v)
        st.heap[(o, n)] = v
        self.emit(st, fr, node, 'setattr', recv=o, args=(n, v))
        return [(st, NONE)]

    def call_ext(self, name, args, kw, st, fr, node):
        R1 = lambda v: [(st, v)]
        if self.strict and args and name in ('len', 'list', 'tuple', 'set', 'sorted', 'iter', 'reversed', 'sum', 'any', 'all', 'enumerate', 'abs', 'int', 'float', 'next', 'frozenset') and self.nothing(st, args[0]):
            return self.boom(st, fr, node, 'TypeError')
        kwd = {k: v for k, v in kw if k}
        na = len(args)
        star = any(a[0] == 'star' for a in args)
        if name in self.ITERATORS and any(self.own_iter(a, st, fr) is not None for a in args):
            out = []
            for s, xs in self.materialise_all(args, st, fr, node):
                if xs is None:
                    out.append((s, None))
                elif any(self.own_iter(a, s, fr) is not None for a in xs):
                    return self.opaque_call(s, fr, node, ('ext', name), '()', args, kw)
                else:
                    out += self.call_ext(name, list(xs), kw, s, fr, node)
            return out
        if name == 'len' and na == 1:
            ci = self.cls_of(args[0], st)
            if ci:
                f = self.prog.find_method(ci, '__len__')
                if f and self.may_inline(f, args[0], fr):
                    return self.call_func(f, [args[0]], [], st, fr, node, selfterm=args[0])
            return R1(self.len_of(st, args[0]))
        if name in ('typing.cast', 'cast') and na == 2:
            return R1(args[1])
        if name == 'isinstance' and na == 2:
            return self.isinstance_(args[0], args[1], st, fr, node)
        if name == 'callable' and na == 1 and self.type_of(args[0], st) == 'fn' and args[0][0] in ('sym', 'fld'):
            return [(s, FALSE if v else TRUE) for s, v in self.split(st, fr, node, ('isnone', args[0]))]
        if name == 'callable' and na == 1:
            return [(s, TRUE if v else FALSE) for s, v in self.split(st, fr, node, ('callable', args[0]))]
        if name == 'hasattr' and na == 2:
            return [(s, TRUE if v else FALSE) for s, v in self.split(st, fr, node, ('hasattr', args[0], args[1]))]
        if name == 'getattr':
            if na == 3:
                out = []
                for s, v in self.split(st, fr, node, ('hasattr', args[0], args[1])):
                    out += self.getattr_(args[0], args[1], s, fr, node) if v else [(s, args[2])]
                return out
            if na == 2:
                return self.getattr_(args[0], args[1], st, fr, node)
        if name == 'setattr' and na == 3:
            return self.builtin_setattr(args, st, fr, node)
        if name == 'delattr' and na == 2:
            self.emit(st, fr, node, 'delattr', recv=args[0], name=args[1][2] if args[1][0] == 'const' else None, args=args)
            return R1(NONE)
        if name in ('list', 'set', 'tuple', 'dict', 'frozenset', 'collections.deque', 'collections.OrderedDict', 'collections.defaultdict', 'weakref.WeakSet', 'weakref.WeakKeyDictionary', 'weakref.WeakValueDictionary'):
            kind = {'list': 'list', 'set': 'set', 'tuple': 'tuple', 'frozenset': 'set', 'collections.deque': 'list', 'weakref.WeakSet': 'set'}.get(name, 'dict')
            if not args or name == 'collections.defaultdict':
                if kind == 'tuple':
                    return R1(('tuple', ()))
                t = self.new_container(st, kind, () if not kw else tuple(C(k) for k, v in kw))
                if name == 'collections.defaultdict':
                    if args and args[0][-1] in ('list', 'dict', 'set'):
                        self.factory[t] = args[0][-1]
                    else:
                        st.content.pop(t, None)
                for k, v in kw:
                    st.dvals[(t, C(k))] = v
                    st.facts[('in', C(k), t)] = True
                return R1(t)
            x = args[0]
            if kind == 'list':
                if x[0] in ('genexp', 'map', 'filter'):
                    t = self.new_container(st, 'list')
                    return [(s, None if v is None else t) for s, v in self.list_extend(st, fr, node, t, x)]
                ct = self.literal_elems(st, x)
                if ct is not None:
                    return R1(self.new_container(st, 'list', ct))
                t = self.mk_copy(st, x)
                if self.type_of(t, st) not in ('list',):
                    st.types[t] = 'list'
                return R1(t)
            if kind == 'tuple':
                if x[0] == 'tuple':
                    return R1(x)
                if x[0] in ('genexp', 'map', 'filter'):
                    t = self.new_container(st, 'list')
                    return [(s, None if v is None else t) for s, v in self.list_extend(st, fr, node, t, x)]
                ct = self.literal_elems(st, x)
                if ct is not None:
                    return R1(('tuple', tuple(ct)))
                return R1(self.mk_copy(st, x))
            if kind == 'set':
                ct = self.literal_elems(st, x)
                if ct is not None:
                    return R1(self.new_container(st, 'set', ct))
                if x[0] in ('genexp', 'map', 'filter'):
                    t = self.new_container(st, 'set')
                    return [(s, None if v is None else t) for s, v in self.set_update(st, fr, node, t, x, 'add')]
                t = self.mk_copy(st, x)
                if self.type_of(t, st) != 'set':
                    t = ('setof', self.freeze(x, st), self.fresh())
                    st.types[t] = 'set'
                return R1(t)
            if kind == 'dict':
                t = self.mk_copy(st, x)
                st.types[t] = 'dict'
                for k, v in kw:
                    if k is not None:
                        self.mutate(st, fr, node, t, 'dset', (C(k), v))
                return R1(t)
        if name in ('copy.copy',) and na >= 1:
            x = args[0]
            if self.type_of(x, st) in ('list', 'set', 'dict', None) and not self.cls_of(x, st):
                if self.type_of(x, st) is None:
                    return R1(('copy', x, st.vers.get(x, 0), self.fresh()))
                return R1(self.mk_copy(st, x))
            return R1(('app', 'copy.copy', x))
        if name == 'copy.deepcopy':
            return self.deepcopy(args[0], args[1] if na > 1 else ('app', 'memo'), st, fr, node)
        if name == 'reversed' and na == 1:
            return R1(('reversed', args[0]))
        if name == 'enumerate':
            return R1(('enumerate', args[0], args[1] if na > 1 else kwd.get('start', ZERO)))
        if name == 'zip':
            return R1(('zip', tuple(args)))
        if name == 'map':
            return R1(('map', args[0], tuple(args[1:])))
        if name == 'filter':
            return R1(('filter', args[0], args[1]))
        if name == 'range':
            a = [x for x in args]
            lo, hi, step = (ZERO, a[0], ONE) if na == 1 else ((a[0], a[1], ONE) if na == 2 else (a[0], a[1], a[2]))
            return R1(('range', lo, hi, step))
        if name == 'iter' and na == 1:
            return R1(args[0])
        if name in ('any', 'all') and na == 1:
            return self.any_all(name, args[0], st, fr, node)
        if name == 'next':
            return self.next_(args, st, fr, node)
        if name == 'sorted':
            x = args[0]
            ct = self.literal_elems(st, x)
            key, rev = kwd.get('key', NONE), kwd.get('reverse', FALSE)
            if ct is not None and (len(ct) <= (6 if self.dyn else 3) or self.all_fixed(ct)) and rev in (TRUE, FALSE):
                return [(s, None if v is None else self.new_container(s, 'list', v)) for s, v in self.sort_known(ct, key, rev == TRUE, st, fr, node)]
            return R1(('sorted', self.freeze_iter(x, st), key, rev))
        if name in ('max', 'min') and na == 1 and self.strict and 'default' not in kwd and st.content.get(args[0]) == ():
            return self.boom(st, fr, node, 'ValueError')
        if name in ('max', 'min') and not kw:
            if na >= 2 and not star:
                r = args[0]
                for a in args[1:]:
                    r = self.minmax(name, r, a, st)
                return R1(r)
            x = args[0]
            ct = self.literal_elems(st, x) if na == 1 else None
            if ct:
                r = ct[0]
                for a in ct[1:]:
                    r = self.minmax(name, r, a, st)
                return R1(r)
            return R1((name + 'of', self.freeze_iter(x, st)))
        if name in ('max', 'min') and na == 1 and set(kwd) <= {'key', 'default'}:
            ct = self.literal_elems(st, args[0])
            if ct is not None and (len(ct) <= 3 or self.all_fixed(ct)) and (ct or 'default' in kwd):
                if not ct:
                    return R1(kwd['default'])
                # the first of the largest (smallest)
                return [(s, v and v[0]) for s, v in self.sort_known(ct, kwd.get('key', NONE), name == 'max', st, fr, node)]
        if name in ('max', 'min'):
            return R1((name + 'of', self.freeze_iter(args[0], st), tuple(sorted(kwd.items()))))
        if name == 'sum':
            return self.sum_(args, st, fr, node)
        if name in ('float', 'int') and na == 1:
            x = args[0]
            if name == 'float' and (x[0] != 'const' or x[1] in ('int', 'float')) and self.type_of(x, st) in ('int', 'float', 'num', None) and not self.str_float(x):
                return R1(x) if x[0] != 'const' else R1(C(float(x[2])))
            if name == 'float' and x[0] == 'const' and x[1] == 'str':
                try:
                    v = float(x[2])
                    if v == v and abs(v) < 1e300:
                        return R1(C(v))
                except ValueError:
                    st.exc = ('exc', 'ValueError', NONE)
                    return [(st, None)]
            if name == 'int' and x[0] == 'const' and x[1] == 'str' and x[2].isascii() and x[2].isdigit():
                return R1(C(int(x[2])))
            if name == 'int' and (self.type_of(x, st) == 'int' or x[0] in ('len', 'idx')):
                return R1(x)
            if name == 'int' and x[0] == 'const' and x[1] in ('int', 'float', 'bool'):
                return R1(C(int(x[2])))
            if name == 'int' and self.is_int(x, st):
                return R1(x)
            if name == 'int':
                # truncation of an integer polynomial over an integer
                k = self.denominator(x)
                if k > 1 and self.is_int(T.mul(x, C(k)), st):
                    p = T.mul(x, C(k))
                    return [(s, T.neg(self.fdiv(T.neg(p), C(k), s)) if v else self.fdiv(p, C(k), s)) for s, v in self.split_cmp(st, fr, node, 'lt', p)]
            if name == 'int' and x[0] == 'app' and x[1] == 'int':
                return R1(x)
            return R1(('app', name, x))
        if name == 'bool' and na == 1:
            return [(s, None if v is None else (TRUE if v else FALSE)) for s, v in self.truth(st, fr, node, args[0])]
        if name in ('math.floor', 'math.ceil', 'math.trunc') and na == 1:
            x = args[0]
            k = self.denominator(x)
            if self.is_int(x, st):
                return R1(x)
            if name == 'math.trunc':
                return self.call_ext('int', args, kw, st, fr, node)
            p = T.mul(x, C(k))
            if k > 1 and self.is_int(p, st):
                return R1(self.fdiv(p, C(k), st) if name == 'math.floor' else T.neg(self.fdiv(T.neg(p), C(k), st)))
        if name == 'abs' and na == 1 and self.cls_of(args[0], st):
            f = self.prog.find_method(self.cls_of(args[0], st), '__abs__')
            if f and self.may_inline(f, args[0], fr):
                return self.call_func(f, [args[0]], [], st, fr, node, selfterm=args[0])
        if name == 'format' and na in (1, 2) and (na == 1 or args[1][0] == 'const'):
            return R1(self.to_text(args[0], args[1][2] if na == 2 else '', st))
        if name == 'str' and na == 1 and self.type_of(args[0], st) == 'str':
            return R1(args[0])
        if name == 'str' and na == 1 and args[0][0] == 'const' and args[0][1] == 'int':
            return R1(C(str(args[0][2])))
        if name in ('re.match', 're.search', 're.fullmatch') and 2 <= na <= 3 and not star:
            fl = list(args[2:]) + [v for k, v in kw if k == 'flags']
            names = []
            for f in fl:
                names += self.flags(f)
            if all(a[0] == 'const' and a[1] == 'str' for a in args[:2]) and rx.match(name[3:], args[0][2], args[1][2], tuple(sorted(set(names)))) is None:
                return R1(NONE)
            return R1(('app', name, args[0], args[1]) + tuple(C(f) for f in sorted(set(names))))
        if name == 'locale.atof' and na == 1 and not kw and args[0][0] == 'const' and args[0][1] == 'str' and rx.plain(args[0][2]) and (args[0][2].lstrip('+-').isdigit() or st.eqc.get(('item', ('app', 'locale.localeconv'), C('decimal_point'))) == C('.')):
            return R1(C(float(args[0][2])))
        if name in ('pow', 'math.pow') and na == 2 and not kw:
            return self.binop(ast.Pow(), args[0], args[1], st, fr, node)
        if name == 'math.hypot' and not star and not kw:
            r = ZERO
            for a in args:
                r = T.add(r, T.mul(a, a))
            return R1(('app', 'math.sqrt', r))
        if name == 'math.dist' and na == 2:
            xs, ys = self.literal_elems(st, args[0]), self.literal_elems(st, args[1])
            if xs is not None and ys is not None and len(xs) == len(ys):
                r = ZERO
                for a, b in zip(xs, ys):
                    d = T.sub(a, b)
                    r = T.add(r, T.mul(d, d))
                return R1(('app', 'math.sqrt', r))
        if name == 'abs' and na == 1 and self.is_number(args[0], st) and not T.is_num_const(args[0]):
            return [(s, T.neg(args[0]) if v else args[0]) for s, v in self.split_cmp(st, fr, node, 'lt', args[0])]
        if name == 'abs' and na == 1:
            return R1(('abs', args[0])) if not T.is_num_const(args[0]) else R1(C(abs(args[0][2])))
        if name == 'type' and na == 1:
            ci = self.cls_of(args[0], st)
            return R1(('class', ci.id)) if ci else R1(('app', 'type', args[0]))
        if name in ('functools.partial', 'partial'):
            f = args[0]
            a, k2 = args[1:], tuple(kw)
            if f[0] == 'partial':
                a, k2, f = list(f[2]) + list(a), tuple(f[3]) + k2, f[1]
            return R1(('partial', f, tuple(a), k2))
        if name == 'operator.methodcaller' and args and args[0][0] == 'const':
            return R1(('mcall', args[0][2], tuple(args[1:])))
        if name == 'operator.attrgetter' and args and args[0][0] == 'const':
            return R1(('agetter', args[0][2]))
        if name in ('weakref.ref',):
            return R1(('weakref', args[0], args[1] if na > 1 and not self.alive else NONE))
        if name in ('contextlib.suppress',):
            return R1(('suppress', tuple((a[1].split('.')[-1] if a[0] == 'ext' else '?') for a in args)))
        if name.startswith('operator.') and not star:
            o = name.split('.')[1].strip('_')
            ops = {'lt': ast.Lt, 'gt': ast.Gt, 'le': ast.LtE, 'ge': ast.GtE, 'eq': ast.Eq, 'ne': ast.NotEq}
            if o in ops and na == 2:
                return [(s, None if v is None else (TRUE if v else FALSE)) for s, v in self.cmp_vals(ops[o](), args[0], args[1], st, fr, node)]
            if o == 'not' and na == 1:
                return [(s, None if v is None else (FALSE if v else TRUE)) for s, v in self.truth(st, fr, node, args[0])]
            ops2 = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'floordiv': ast.FloorDiv}
            if o in ops2 and na == 2:
                return self.binop(ops2[o](), args[0], args[1], st, fr, node)
            if o == 'contains' and na == 2:
                return [(s, None if v is None else (TRUE if v else FALSE)) for s, v in self.in_split(args[1], args[0], st, fr, node)]
        if name in PURE_BUILTINS or (name.startswith(PURE_EXT_PREFIX) and name not in IMPURE_EXT):
            if name == 'id' or name == 'str' or True:
                return R1(('app', name) + tuple(self.freeze_pure(a, st) for a in args) + tuple(('kw', k, v) for k, v in kw))
        if self.pure and name in FRESH_EXT and not self.loop_depth:      # another value at each call
            t = ('fresh', name, sum(1 for e in st.trace if e.kind == 'fresh' and e.name == name))
            self.emit(st, fr, node, 'fresh', name=name, args=args, res=t)
            return R1(t)
        et = {'threading.RLock': 'lock', 'threading.Lock': 'lock', 'threading.Event': 'tevent', 'queue.Queue': 'queue', 'threading.Thread': 'thread'}.get(name)
        return self.opaque_call(st, fr, node, ('ext', name), '()', args, kw, rtype=et)

    def is_number(self, t, st):
        p = T.to_poly(t)
        return p is not None and all(self.type_of(a, st) in ('int', 'float', 'num') or a[0] == 'inv' and self.is_number(a[1], st) for m in p for a in m)

    def is_int(self, t, st):
        """certainly an integer"""
        p = T.to_poly(t)
        if p is None:
            return False
        for m, c in p.items():
            if c.denominator != 1:
                return False
            for a in m:
                if a[0] == 'fdiv' and self.is_int(a[1], st) and self.is_int(a[2], st):
                    continue
                if a[0] in ('min', 'max') and all(self.is_int(y, st) for y in a[1]):
                    continue
                if a[0] == 'app' and a[1] in ('int', 'math.floor', 'math.ceil'):
                    continue
                if a[0] in ('len', 'idx', 'indexof') or self.type_of(a, st) == 'int':
                    continue
                return False
        return True

    def denominator(self, t):
        p = T.to_poly(t) or {}
        k = 1
        for c in p.values():
            k = k * c.denominator // math.gcd(k, c.denominator)
        return k

    def fdiv(self, a, b, st):
        """floor division, integer multiples of a constant divisor taken out"""
        if T.is_num_const(b) and b[1] == 'int' and b[2] > 0 and self.is_int(a, st):
            out, rest = {}, {}
            for m, c in T.to_poly(a).items():
                q, r = divmod(int(c), b[2])
                if q:
                    out[m] = Fraction(q)
                if r:
                    rest[m] = Fraction(r)
            rest = T.from_poly(rest)
            if T.is_num_const(rest):
                return T.from_poly(out)
            return T.add(T.from_poly(out), ('fdiv', rest, b))
        return ('fdiv', a, b)

    def rx_found(self, m):
        """a constant pattern in a constant text"""
        if m[0] == 'app' and m[1] in ('re.match', 're.search', 're.fullmatch') and all(a[0] == 'const' and a[1] == 'str' for a in m[2:]):
            r = rx.match(m[1][3:], m[2][2], m[3][2], tuple(a[2] for a in m[4:]))
            return r or None
        return None

    def group(self, m, k):
        r = self.rx_found(m)
        if r is not None and k[0] == 'const':
            try:
                return C(r.group(int(k[2]) if k[1] in ('int', 'float') else k[2]))
            except (IndexError, ValueError):
                pass
        return ('app', '.group', m, k)

    FLAGS = {'IGNORECASE': 'I', 'VERBOSE': 'X', 'MULTILINE': 'M', 'DOTALL': 'S', 'ASCII': 'A', 'UNICODE': 'U'}

    def flags(self, f):
        if f[0] == 'binop' and f[1] in ('BitOr', 'Add'):
            return self.flags(f[2]) + self.flags(f[3])
        if f[0] == 'ext':
            n = f[1].split('.')[-1]
            return [self.FLAGS.get(n, n)]
        if f == ZERO or f == ('const', 'int', 0):
            return []
        return [repr(f)]

    def str_float(self, x):
        return self.type_of(x) == 'str' or x[0] in ('app', 'strop', 'joined')

    def freeze_pure(self, a, st):
        return a if a[0] in ('new',) and a not in st.content else (self.freeze(a, st) if a in st.vers or a in st.content else a)

    def freeze_iter(self, x, st):
        if x[0] in ('genexp', 'map', 'filter', 'items', 'keys', 'values', 'zip', 'enumerate', 'reversed'):
            return x
        return self.freeze(x, st)

    def minmax(self, name, a, b, st):
        if a == b:
            return a
        d = T.sub(a, b)
        if d[0] != 'sub':
            r = st.cmp('le', d, self.isint(d))
            if r is True:
                return a if name == 'min' else b
            r = st.cmp('le', T.neg(d), self.isint(d))
            if r is True:
                return b if name == 'min' else a
        xs = set()
        for x in (a, b):
            if x[0] == name:
                xs |= set(x[1])
            else:
                xs.add(x)
        return (name, tuple(sorted(xs, key=T.key_of)))

    def getattr_(self, o, n, st, fr, node):
        if n[0] == 'const' and isinstance(n[2], str):
            return self.load_attr(st, fr, node, o, n[2])
        if (o, n) in st.heap:
            return [(st, st.heap[(o, n)])]
        return [(st, ('fld', o, n))]

    INSTANCES = {
        'int': {'int', 'numbers.Integral', 'numbers.Rational', 'numbers.Real', 'numbers.Complex', 'numbers.Number'},
        'bool': {'bool', 'int', 'numbers.Integral', 'numbers.Rational', 'numbers.Real', 'numbers.Complex', 'numbers.Number'},
        'float': {'float', 'numbers.Real', 'numbers.Complex', 'numbers.Number'},
        'str': {'str', 'Sequence', 'Iterable', 'Collection', 'Sized', 'Container', 'Reversible'},
        'list': {'list', 'Sequence', 'MutableSequence', 'Iterable', 'Collection', 'Sized', 'Container', 'Reversible'},
        'dict': {'dict', 'Mapping', 'MutableMapping', 'Iterable', 'Collection', 'Sized', 'Container', 'Reversible'},
        'set': {'set', 'Set', 'MutableSet', 'Iterable', 'Collection', 'Sized', 'Container'},
    }
    for _k in list(INSTANCES):
        INSTANCES[_k] |= {'object'} | {m + _n for _n in INSTANCES[_k] if _n[0].isupper() for m in ('collections.abc.', 'typing.')}
        if _k in ('int', 'str', 'bool', 'float'):
            INSTANCES[_k] |= {'collections.abc.Hashable', 'typing.Hashable'}
    INSTANCES['set'] |= {'typing.AbstractSet'}
    INSTANCES['set'] -= {'typing.Set', 'Set'}
    INSTANCES['set'] |= {'collections.abc.Set', 'typing.Set'}
    INSTANCES['list'] |= {'typing.List'}
    INSTANCES['dict'] |= {'typing.Dict'}
    ABSTRACT = set().union(*INSTANCES.values()) | {'tuple', 'frozenset', 'bytes', 'bytearray', 'complex', 'type', 'range', 'slice', 'decimal.Decimal', 'fractions.Fraction', 'uuid.UUID', 'pathlib.Path', 'datetime.datetime', 'collections.abc.Callable', 'typing.Callable', 'collections.abc.Iterator', 'collections.abc.Generator', 'numpy.ndarray', 'collections.OrderedDict', 'collections.deque'}

    def isinstance_(self, x, c, st, fr, node):
        cs = list(c[1]) if c[0] == 'tuple' else [c]
        ci = self.cls_of(x, st)
        cur, out = [st], []
        for k in cs:
            nxt = []
            for s in cur:
                if ci is not None and k[0] == 'class' and x[0] == 'new':
                    kc = self.prog.classes.get(k[1])
                    v = kc in self.prog.mro(ci)
                    if v:
                        out.append((s, TRUE))
                    else:
                        nxt.append(s)
                    continue
                if x[0] in ('const', 'new') and k[0] == 'ext' and x[1] in self.INSTANCES and k[1] in self.ABSTRACT:
                    if k[1] in self.INSTANCES[x[1]]:
                        out.append((s, TRUE))
                    else:
                        nxt.append(s)
                    continue
                if k[0] == 'class' and (x[0] in ('const', 'tuple') or x[0] == 'new' and x[1] in ('list', 'dict', 'set')):
                    nxt.append(s)
                    continue
                for s2, v in self.split(s, fr, node, ('isinst', x, k)):
                    if v:
                        if k[0] == 'class' and self.type_of(x, s2) is None:
                            s2.types[x] = 'cls:' + k[1]
                        if k[0] == 'ext' and k[1] in ('list', 'dict', 'set', 'tuple', 'str') and self.type_of(x, s2) is None:
                            s2.types[x] = k[1]
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, FALSE) for s in cur]

    def any_all(self, name, x, st, fr, node):
        stop = name == 'any'

        def body(s, e):
            res = []
            for s2, b in self.truth(s, fr, node, e):
                if b is None:
                    res.append((s2, ('raise',)))
                elif b == stop:
                    res.append((s2, ('break', 'anyall')))
                else:
                    res.append((s2, ('next',)))
            return res
        out = []
        for s, status in self.run_loop(st, fr, node, x, body):
            if status[0] == 'raise':
                out.append((s, None))
            elif status[0] == 'break':
                out.append((s, TRUE if stop else FALSE))
            else:
                out.append((s, FALSE if stop else TRUE))
        return out

    def next_(self, args, st, fr, node):
        if args[0][0] not in ('genexp', 'map', 'filter', 'new', 'copy', 'fld', 'reversed', 'items', 'keys', 'values', 'enumerate', 'zip'):
            return [(st, ('unk', self.fresh()))]
        found = []

        def body(s, e):
            return [(s, ('break', e))]
        out = []
        for s, status in self.run_loop(st, fr, node, args[0], body):
            if status[0] == 'raise':
                out.append((s, None))
            elif status[0] == 'break':
                out.append((s, status[1]))
            else:
                if len(args) > 1:
                    out.append((s, args[1]))
                else:
                    s.exc = ('exc', 'StopIteration', NONE)
                    out.append((s, None))
        return out

    def sum_(self, args, st, fr, node):
        """sum(iterable) as an accumulation loop, same shape as an explicit += loop"""
        env = fr.env
        nm = '$sum%d' % self.fresh()
        start = args[1] if len(args) > 1 else ZERO
        if env not in st.envs:
            st.envs[env] = {'__parent__': None}
        st.envs[env][nm] = start

        def body(s, e):
            s.envs[env][nm] = T.add(s.envs[env][nm], e)
            return [(s, ('next',))]
        out = []
        for s, status in self.run_loop(st, fr, node, args[0], body):
            out.append((s, None if status[0] == 'raise' else s.envs[env][nm]))
        return out


def fr_self(eng, st, fr):
    f = fr.func
    if fr.selfterm is not None:
        return fr.selfterm
    # nested function: self from the closure
    env = fr.env
    while env is not None and env in st.envs:
        for n in ('self', 'cls'):
            if n in st.envs[env]:
                return st.envs[env][n]
        env = st.envs[env].get('__parent__')
    return None
