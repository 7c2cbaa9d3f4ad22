"""Loads the whole package from /repo's working tree and resolves modules, classes, methods, properties and field types."""
import ast
import os

from .normal import normalise


class Broken(Exception):
    """the analysis cannot be carried out (anchor vanished, file does not parse)"""


class Func:
    def __init__(self, fid, node, module, cls, name, kind, outer):
        self.id, self.node, self.module, self.cls, self.name, self.kind, self.outer = fid, node, module, cls, name, kind, outer
        self.decorators = []
        body = node.body if isinstance(node.body, list) else [node.body]
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(body))
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        # names bound in this function (locals), excluding nonlocal/global declarations
        self.locals = set()
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            self.locals.add(p.arg)
        self.nonlocals = set()
        for n in walk_own(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.Nonlocal, ast.Global)):
                self.nonlocals.update(n.names)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                pass
        self.locals -= self.nonlocals

    @property
    def line(self):
        return self.node.lineno

    def __repr__(self):
        return '<Func %s>' % self.id


def walk_own(body):
    """walk statements without descending into nested functions/classes (their header names are yielded)"""
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                stack.append(d)
            continue
        if isinstance(n, ast.Lambda):
            continue
        for c in ast.iter_child_nodes(n):
            stack.append(c)


class ClassInfo:
    def __init__(self, cid, node, module, outer_func):
        self.id, self.node, self.module, self.name, self.outer_func = cid, node, module, node.name, outer_func
        self.methods = {}
        self.props = {}
        self.attrs = {}
        self.base_exprs = list(node.bases)
        self._mro = None

    def __repr__(self):
        return '<Class %s>' % self.id


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.globals = {}


CONTAINER_ANN = {'List': 'list', 'Sequence': 'list', 'MutableSequence': 'list', 'list': 'list', 'Dict': 'dict', 'dict': 'dict',
                 'Set': 'set', 'set': 'set', 'MutableSet': 'set', 'Tuple': 'tuple', 'tuple': 'tuple', 'Callable': 'fn',
                 'int': 'int', 'float': 'float', 'str': 'str', 'bool': 'bool', 'range': 'range', 'DefaultDict': 'dict', 'Mapping': 'dict'}

EXT_TYPES = {'threading.RLock': 'lock', 'threading.Lock': 'lock', 'threading.Event': 'tevent', 'threading.Condition': 'lock', 'queue.Queue': 'queue',
             'threading.Thread': 'thread', 'weakref.ref': 'weakref', 'collections.defaultdict': 'dict', 'collections.OrderedDict': 'dict',
             'collections.deque': 'list', 'weakref.WeakSet': 'set', 'threading.Semaphore': 'lock', 'queue.SimpleQueue': 'queue'}


class Program:
    def __init__(self, root='/repo', models=()):
        self.root = root
        self.models = {}
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.func_by_node = {}
        self.class_by_node = {}
        self._ftypes = None
        self._fstack, self._fhit = [], 1 << 30
        self._etypes = {}
        base = os.path.join(root, 'nion')
        if not os.path.isdir(base):
            raise Broken('package directory %s is missing' % base)
        self.files = []
        for d, dirs, files in os.walk(base):
            dirs.sort()
            if os.path.basename(d) in ('test', 'tests', '__pycache__'):
                dirs[:] = []
                continue
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                    try:
                        tree = normalise(ast.parse(src, p))
                    except SyntaxError as e:
                        raise Broken('%s does not parse: %s' % (p, e))
                    name = f[:-3] if f != '__init__.py' else os.path.relpath(d, base).replace(os.sep, '.') + '.__init__'
                    self.files.append(p)
                    m = Module(name, p, tree, src)
                    self.modules[name] = m
        for name in models:
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'models', name + '.py')
            with open(p, encoding='utf-8') as fh:
                src = fh.read()
            self.modules[name] = self.models[name] = Module(name, p, normalise(ast.parse(src, p)), src)
        for m in self.modules.values():
            self._load(m)

    # ---- loading
    def _load(self, m):
        self._scan(m, m.tree.body, None, None, m.name, m.globals)

    def _uid(self, table, uid):
        n, k = uid, 2
        while n in table:
            n = '%s#%d' % (uid, k)
            k += 1
        return n

    def _scan(self, m, body, cls, outer, prefix, scope):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add_func(m, n, cls, outer, prefix + ('.' if cls or outer else ':') + n.name)
                if scope is not None:
                    scope[n.name] = ('func', f)
            elif isinstance(n, ast.ClassDef):
                ci = self._add_class(m, n, outer, prefix + '.' + n.name)
                if scope is not None:
                    scope[n.name] = ('class', ci)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._scan(m, getattr(n, fld, []), cls, outer, prefix, scope)
                for h in getattr(n, 'handlers', []):
                    self._scan(m, h.body, cls, outer, prefix, scope)
            elif isinstance(n, ast.Import) and scope is not None:
                for al in n.names:
                    if al.asname:
                        scope[al.asname] = ('import', al.name)
                    else:
                        scope[al.name.split('.')[0]] = ('import', al.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom) and scope is not None:
                for al in n.names:
                    scope[al.asname or al.name] = ('from', n.module or '', n.level, al.name)
            elif isinstance(n, ast.Assign) and scope is not None:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        scope[t.id] = ('expr', n.value)
            elif isinstance(n, ast.AnnAssign) and scope is not None and n.value is not None and isinstance(n.target, ast.Name):
                scope[n.target.id] = ('expr', n.value)
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.If, ast.Try, ast.With, ast.For, ast.While)):
                self._lambdas(m, n, cls, outer, prefix)
            elif isinstance(n, (ast.If, ast.While, ast.For, ast.With)):
                for fld in ('test', 'iter', 'items'):
                    v = getattr(n, fld, None)
                    for x in (v if isinstance(v, list) else [v]):
                        if x is not None:
                            self._lambdas(m, x, cls, outer, prefix)

    def _lambdas(self, m, n, cls, outer, prefix):
        for x in ast.walk(n):
            if isinstance(x, ast.Lambda) and id(x) not in self.func_by_node:
                fid = self._uid(self.funcs, '%s.<lambda>' % prefix)
                f = Func(fid, x, m, cls, '<lambda>', 'func', outer)
                self.funcs[fid] = f
                self.func_by_node[id(x)] = f

    def _add_func(self, m, n, cls, outer, prefix):
        fid = self._uid(self.funcs, prefix)
        f = Func(fid, n, m, cls, n.name, 'func', outer)
        self.funcs[fid] = f
        self.func_by_node[id(n)] = f
        self._scan(m, n.body, cls, f, fid, None)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self._lambdas(m, d, cls, outer, prefix)
        return f

    def _add_class(self, m, n, outer, prefix):
        cid = self._uid(self.classes, prefix)
        ci = ClassInfo(cid, n, m, outer)
        self.classes[cid] = ci
        self.class_by_node[id(n)] = ci
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add_func(m, s, ci, outer, cid + '.' + s.name)
                kind = 'func'
                for d in s.decorator_list:
                    dn = dotted(d)
                    f.decorators.append(dn)
                    if dn in ('property', 'functools.cached_property', 'cached_property'):
                        kind = 'getter'
                    elif dn == 'classmethod':
                        kind = 'class'
                    elif dn == 'staticmethod':
                        kind = 'static'
                    elif dn and dn.endswith('.setter'):
                        kind = 'setter'
                    elif dn and dn.endswith('.getter'):
                        kind = 'getter'
                    elif dn and dn.endswith('.deleter'):
                        kind = 'deleter'
                f.kind = kind
                if kind == 'getter':
                    ci.props.setdefault(mangle(s.name, ci), {})['get'] = f
                elif kind == 'setter':
                    ci.props.setdefault(mangle(s.name, ci), {})['set'] = f
                elif kind == 'deleter':
                    pass
                else:
                    ci.methods[mangle(s.name, ci)] = f
            elif isinstance(s, ast.ClassDef):
                sub = self._add_class(m, s, outer, cid + '.' + s.name)
                ci.attrs[s.name] = ('class', sub)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in targets:
                    if isinstance(t, ast.Name):
                        v = s.value
                        if isinstance(v, ast.Call) and dotted(v.func) == 'property':
                            names = [a.id if isinstance(a, ast.Name) else None for a in v.args]
                            kw = {k.arg: k.value for k in v.keywords}
                            fg = names[0] if names else (kw['fget'].id if 'fget' in kw and isinstance(kw['fget'], ast.Name) else None)
                            fs = names[1] if len(names) > 1 else (kw['fset'].id if 'fset' in kw and isinstance(kw['fset'], ast.Name) else None)
                            d = ci.props.setdefault(mangle(t.id, ci), {})
                            if fg and mangle(fg, ci) in ci.methods:
                                d['get'] = ci.methods[mangle(fg, ci)]
                            elif v.args and isinstance(v.args[0], ast.Lambda):
                                self._lambdas(m, v, ci, outer, cid)
                                d['get'] = self.func_by_node[id(v.args[0])]
                            if fs and mangle(fs, ci) in ci.methods:
                                d['set'] = ci.methods[mangle(fs, ci)]
                        elif isinstance(v, ast.Name) and mangle(v.id, ci) in ci.methods:
                            ci.methods[mangle(t.id, ci)] = ci.methods[mangle(v.id, ci)]
                        else:
                            ci.attrs[mangle(t.id, ci)] = ('expr', v)
                        self._lambdas(m, v, ci, outer, cid)
        return ci

    # ---- resolution
    def global_ref(self, m, name, seen=()):
        """-> ('func',Func) | ('class',ClassInfo) | ('module',Module) | ('ext',dotted) | ('expr', module, node) | None"""
        if (m.name, name) in seen:
            return None
        g = m.globals.get(name)
        if g is None:
            return None
        if g[0] in ('func', 'class'):
            return g
        if g[0] == 'import':
            last = g[1].split('.')[-1]
            if g[1].startswith('nion') and last in self.modules:
                return ('module', self.modules[last])
            if g[1] in self.models:
                return ('module', self.models[g[1]])
            return ('ext', g[1])
        if g[0] == 'from':
            mod, level, nm = g[1], g[2], g[3]
            if mod in self.models and not level:
                return self.global_ref(self.models[mod], nm, seen + ((m.name, name),)) or ('ext', mod + '.' + nm)
            pkg = mod.split('.')[-1] if mod else ''
            if level or mod.startswith('nion'):
                if nm in self.modules and (not pkg or pkg not in self.modules):
                    return ('module', self.modules[nm])
                if pkg in self.modules:
                    return self.global_ref(self.modules[pkg], nm, seen + ((m.name, name),))
            return ('ext', mod + '.' + nm)
        if g[0] == 'expr':
            v = g[1]
            # alias of another global?
            if isinstance(v, ast.Name) and v.id != name:
                r = self.global_ref(m, v.id, seen + ((m.name, name),))
                if r:
                    return r
            if isinstance(v, ast.Attribute):
                r = self.resolve_expr(m, v)
                if r:
                    return r
            return ('expr', m, v)
        return None

    def resolve_expr(self, m, e, func=None):
        """static resolution of Name / dotted Attribute at module scope"""
        if isinstance(e, ast.Name):
            f = func
            while f is not None:
                if e.id in f.locals:
                    for n in walk_own(f.node.body if isinstance(f.node.body, list) else []):
                        if isinstance(n, ast.ClassDef) and n.name == e.id:
                            return ('class', self.class_by_node[id(n)])
                        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == e.id:
                            return ('func', self.func_by_node[id(n)])
                    return None
                f = f.outer
            r = self.global_ref(m, e.id)
            if r is None and e.id not in m.globals:
                return ('builtin', e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, func)
            if b is None:
                return None
            if b[0] == 'module':
                return self.global_ref(b[1], e.attr) or ('ext', ('%s.%s' if b[1].name in self.models else 'nion.utils.%s.%s') % (b[1].name, e.attr))
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'class':
                a = b[1].attrs.get(e.attr)
                if a and a[0] == 'class':
                    return a
            return None
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value, func)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode='eval').body, func)
            except SyntaxError:
                return None
        return None

    def mro(self, ci):
        if ci._mro is None:
            out, seen = [], set()

            def lin(c):
                seqs = []
                bases = []
                for b in c.base_exprs:
                    r = self.resolve_expr(c.module, b, c.outer_func)
                    if r and r[0] == 'class':
                        bases.append(r[1])
                seqs = [self.mro(b)[:] for b in bases] + [bases[:]]
                res = [c]
                seqs = [s for s in seqs if s]
                while seqs:
                    for s in seqs:
                        h = s[0]
                        if not any(h in t[1:] for t in seqs):
                            break
                    else:
                        break
                    res.append(h)
                    seqs = [[x for x in s if x is not h] for s in seqs]
                    seqs = [s for s in seqs if s]
                return res
            ci._mro = [ci]
            ci._mro = lin(ci)
        return ci._mro

    def metaclass(self, ci):
        for c in self.mro(ci):
            for k in c.node.keywords:
                if k.arg == 'metaclass':
                    r = self.resolve_expr(c.module, k.value, c.outer_func)
                    return r[1] if r and r[0] == 'class' else None
        return None

    def ext_bases(self, ci):
        out = []
        for c in self.mro(ci):
            for b in c.base_exprs:
                r = self.resolve_expr(c.module, b, c.outer_func)
                if r and r[0] in ('ext', 'builtin'):
                    out.append(r[1])
        return out

    def find_method(self, ci, name, after=None):
        mro = self.mro(ci)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else self.mro(after)[1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
            if name in c.props:
                return None
        return None

    def find_prop(self, ci, name, after=None):
        mro = self.mro(ci)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.props:
                return c.props[name]
            if name in c.methods:
                return None
        return None

    def cls(self, mod, name):
        m = self.modules.get(mod)
        if m is None:
            raise Broken('module nion.utils.%s is gone' % mod)
        r = self.global_ref(m, name)
        if not r or r[0] != 'class':
            raise Broken('public class nion.utils.%s.%s is gone' % (mod, name))
        return r[1]

    def func(self, mod, name):
        m = self.modules.get(mod)
        if m is None:
            raise Broken('module nion.utils.%s is gone' % mod)
        r = self.global_ref(m, name)
        if not r or r[0] != 'func':
            raise Broken('public function nion.utils.%s.%s is gone' % (mod, name))
        return r[1]

    def subclasses(self, ci, strict=False):
        out = []
        for c in self.classes.values():
            if ci in self.mro(c) and not (strict and c is ci):
                out.append(c)
        return out

    # ---- types
    def ann_type(self, m, a, func=None):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(a, ast.Subscript):
            d = dotted(a.value)
            last = d.split('.')[-1] if d else ''
            if last == 'Optional':
                return self.ann_type(m, a.slice, func)
            if last in CONTAINER_ANN:
                return CONTAINER_ANN[last]
            return self.ann_type(m, a.value, func)
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = self.ann_type(m, a.left, func), self.ann_type(m, a.right, func)
            return l if r in (None, 'none') else (r if l in (None, 'none') else None)
        d = dotted(a)
        if d is None:
            return None
        r = self.resolve_expr(m, a, func)
        if r and r[0] == 'class':
            return 'cls:' + r[1].id
        if r and r[0] == 'ext':
            last = r[1].split('.')[-1]
            if r[1] in EXT_TYPES:
                return EXT_TYPES[r[1]]
            if r[1].startswith('typing.') and last in CONTAINER_ANN:
                return CONTAINER_ANN[last]
            return None
        if d in CONTAINER_ANN:
            return CONTAINER_ANN[d]
        return None

    def expr_types(self, m, e, func=None, cls=None, depth=0):
        """set of possible types of an expression (syntactic), 'none' for None, '?' unknown"""
        if depth > 6:
            return {'?'}
        T = lambda x: self.expr_types(m, x, func, cls, depth + 1)
        if isinstance(e, ast.Constant):
            return {'none'} if e.value is None else {type(e.value).__name__}
        if isinstance(e, (ast.List, ast.ListComp)):
            return {'list'}
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return {'dict'}
        if isinstance(e, (ast.Set, ast.SetComp)):
            return {'set'}
        if isinstance(e, ast.Tuple):
            return {'tuple'}
        if isinstance(e, ast.JoinedStr):
            return {'str'}
        if isinstance(e, ast.Lambda):
            return {'fn'}
        if isinstance(e, ast.IfExp):
            return T(e.body) | T(e.orelse)
        if isinstance(e, ast.BoolOp):
            r = set()
            for v in e.values:
                r |= T(v)
            return r
        if isinstance(e, (ast.Compare,)):
            return {'bool'}
        if isinstance(e, ast.BinOp):
            l, r = T(e.left), T(e.right)
            if l == {'list'}:
                return {'list'}
            if l <= {'int', 'float'} and r <= {'int', 'float'} and (l or r):
                return {'float'} if isinstance(e.op, ast.Div) or 'float' in l | r else {'int'}
            return {'?'}
        if isinstance(e, ast.Await):
            return {'?'}
        if isinstance(e, ast.Name):
            f = func
            while f is not None:
                if e.id in f.locals:
                    a = f.node.args
                    allp = a.posonlyargs + a.args + a.kwonlyargs
                    for p in allp:
                        if p.arg == e.id:
                            t = self.ann_type(m, p.annotation, f)
                            if t:
                                return {t}
                            if f.kind not in ('static',) and f.cls is not None and allp and allp[0] is p and f.kind != 'class' and f.outer is f.cls.outer_func:
                                return {'cls:' + f.cls.id}
                            if a.vararg and a.vararg.arg == e.id:
                                return {'tuple'}
                            return {'?'}
                    if a.vararg and a.vararg.arg == e.id:
                        return {'tuple'}
                    if a.kwarg and a.kwarg.arg == e.id:
                        return {'dict'}
                    r, hit = set(), False
                    for n in walk_own(f.node.body if isinstance(f.node.body, list) else []):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                            r |= self.expr_types(m, n.value, f, cls, depth + 1)
                            hit = True
                        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                            t = self.ann_type(m, n.annotation, f)
                            r |= {t} if t else (self.expr_types(m, n.value, f, cls, depth + 1) if n.value else set())
                        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == e.id:
                            r.add('fn')
                        elif isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store):
                            pass
                    return r if r or hit else {'?'}
                f = f.outer
            return {'?'}
        if isinstance(e, ast.Attribute):
            bt = T(e.value)
            if len(bt) == 1:
                b = next(iter(bt))
                if b.startswith('cls:'):
                    ci = self.classes[b[4:]]
                    nm = mangle(e.attr, cls)
                    p = self.find_prop(ci, nm)
                    if p and 'get' in p:
                        return self.return_types(p['get'], depth + 1)
                    return self.field_types(ci, nm)
            return {'?'}
        if isinstance(e, ast.Call):
            r = self.resolve_expr(m, e.func, func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if r and r[0] == 'class':
                return {'cls:' + r[1].id}
            if r and r[0] == 'ext':
                if r[1] in EXT_TYPES:
                    return {EXT_TYPES[r[1]]}
                if r[1] in ('copy.copy', 'copy.deepcopy') and e.args:
                    return T(e.args[0])
                if r[1] == 'typing.cast' and len(e.args) == 2:
                    return T(e.args[1])
                return {'?'}
            if r and r[0] == 'builtin':
                n = r[1]
                if n in ('list', 'sorted'):
                    return {'list'}
                if n in ('dict', 'set', 'tuple', 'int', 'float', 'str', 'bool'):
                    return {n}
                if n in ('len', 'id', 'round'):
                    return {'int'}
                return {'?'}
            if r and r[0] == 'func':
                return self.return_types(r[1], depth + 1)
            if isinstance(e.func, ast.Attribute):
                br = self.resolve_expr(m, e.func.value, func) if isinstance(e.func.value, (ast.Name, ast.Attribute)) else None
                nm = mangle(e.func.attr, cls)
                if br and br[0] == 'class':
                    f = self.find_method(br[1], nm)
                    return self.return_types(f, depth + 1) if f else {'?'}
                bt = T(e.func.value)
                if len(bt) == 1:
                    b = next(iter(bt))
                    if b.startswith('cls:'):
                        f = self.find_method(self.classes[b[4:]], nm)
                        if f:
                            return self.return_types(f, depth + 1)
                    if b in ('list', 'dict', 'set') and e.func.attr == 'copy':
                        return {b}
                if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super' and cls:
                    f = self.find_method(cls, nm, after=cls)
                    if f:
                        return self.return_types(f, depth + 1)
            return {'?'}
        return {'?'}

    def return_types(self, f, depth=0):
        if depth > 6:
            return {'?'}
        if f.is_async or f.is_gen:
            return {'?'}
        if f.node is not None and getattr(f.node, 'returns', None) is not None:
            t = self.ann_type(f.module, f.node.returns, f)
            if t:
                return {t}
        if isinstance(f.node, ast.Lambda):
            return self.expr_types(f.module, f.node.body, f, f.cls, depth + 1)
        r = set()
        for n in walk_own(f.node.body):
            if isinstance(n, ast.Return):
                r |= self.expr_types(f.module, n.value, f, f.cls, depth + 1) if n.value else {'none'}
        return r or {'none'}

    def _collect_fields(self):
        """assigned expressions per (class id, field)"""
        self._fassign = {}
        self._eassign = {}
        self.field_writers = {}
        for f in list(self.funcs.values()):
            cls = f.cls
            if cls is None:
                continue
            body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
            selfname = self.self_name(f)
            if not selfname:
                continue
            stored = {}
            for n in walk_own(body):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    stored[n.id] = stored.get(n.id, 0) + 1
            # locals that are another name of a field
            short = {n.targets[0].id: n.value for n in walk_own(body) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and stored[n.targets[0].id] == 1 and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == selfname}
            for n in walk_own(body):
                targets, val, ann = [], None, None
                if isinstance(n, ast.Assign):
                    targets, val = n.targets, n.value
                elif isinstance(n, ast.AnnAssign):
                    targets, val, ann = [n.target], n.value, n.annotation
                elif isinstance(n, ast.AugAssign):
                    targets, val = [n.target], None
                for t in targets:
                    for tt in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(tt, ast.Attribute) and isinstance(tt.value, ast.Name) and tt.value.id == selfname:
                            k = (cls.id, mangle(tt.attr, cls))
                            self.field_writers.setdefault(k, set()).add(f.id)
                            if isinstance(t, (ast.Tuple, ast.List)):
                                self._fassign.setdefault(k, []).append((None, f, None))
                            else:
                                self._fassign.setdefault(k, []).append((val, f, ann))
                        if isinstance(tt, ast.Subscript):
                            b = short.get(tt.value.id, tt.value) if isinstance(tt.value, ast.Name) else tt.value
                            if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == selfname and val is not None:
                                self._eassign.setdefault((cls.id, mangle(b.attr, cls)), []).append((val, f))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'insert', 'add', 'setdefault') and n.args:
                    b = n.func.value
                    if isinstance(b, ast.Name):
                        b = short.get(b.id, b)
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == selfname:
                        self._eassign.setdefault((cls.id, mangle(b.attr, cls)), []).append((n.args[-1], f))

    def self_name(self, f):
        """name under which the enclosing method's self is visible in f"""
        g = f
        while g is not None:
            if g.cls is f.cls and g.outer is (f.cls.outer_func if f.cls else None) and g.kind != 'static':
                a = g.node.args
                ps = a.posonlyargs + a.args
                return ps[0].arg if ps else None
            g = g.outer
        return None

    def field_types(self, ci, name):
        if self._ftypes is None:
            self._collect_fields()
            self._ftypes = {}
        key = (ci.id, name)
        if key in self._ftypes:
            return self._ftypes[key]
        if key in self._fstack:
            # a field defined in terms of itself: nothing new; what is inferred on the way is not kept
            self._fhit = min(self._fhit, self._fstack.index(key))
            return set()
        at = len(self._fstack)
        save, self._fhit = self._fhit, 1 << 30
        self._fstack.append(key)
        r = set()
        for c in self.mro(ci):
            for val, f, ann in self._fassign.get((c.id, name), []):
                t = self.ann_type(f.module, ann, f) if ann is not None else None
                if t:
                    r.add(t)
                elif val is not None:
                    r |= self.expr_types(f.module, val, f, f.cls)
                elif ann is None:
                    pass
        self._fstack.pop()
        if self._fhit >= at:
            r = r or {'?'}
            self._ftypes[key] = r
        self._fhit = min(save, self._fhit) if self._fhit < at else save
        return r

    def elem_types(self, ci, name):
        if self._ftypes is None:
            self.field_types(ci, name)
        r = set()
        for c in self.mro(ci):
            for val, f in self._eassign.get((c.id, name), []):
                r |= self.expr_types(f.module, val, f, f.cls)
        return r or {'?'}

    def single_type(self, types):
        t = {x for x in types if x != 'none'}
        if len(t) == 1:
            x = next(iter(t))
            return None if x == '?' else x
        t.discard('?')
        if len(t) == 1 and next(iter(t)) in ('list', 'dict', 'set', 'lock', 'queue', 'tevent', 'thread'):
            return next(iter(t))
        return None


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    if isinstance(e, ast.Call):
        return dotted(e.func)
    return None


def mangle(name, cls):
    if cls is not None and name.startswith('__') and not name.endswith('__'):
        return '_' + cls.name.lstrip('_') + name
    return name
