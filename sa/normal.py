"""Loop normalisation on the syntax tree: index loops over a sequence become element loops.

  i = 0                                   for i in range(len(X)):          for i in reversed(range(len(X))) / range(len(X)-1,-1,-1)
  while i < len(X):
      ... X[i] ... ; i += 1
-> for i, e in enumerate(X) (or reversed(list(enumerate(X)))), X[i] -> e

only where the sequence expression is a name or attribute chain that the body neither rebinds nor mutates, and the index is
not assigned otherwise nor used after the loop.  Anything else is left as it is.
"""
import ast
import copy

MUT = {'append', 'insert', 'pop', 'remove', 'clear', 'extend', 'sort', 'reverse', 'add', 'discard', 'update', 'popleft', 'appendleft', '__setitem__', '__delitem__', 'setdefault', 'popitem'}


def chain(e):
    if isinstance(e, ast.Name):
        return True
    return isinstance(e, ast.Attribute) and chain(e.value)


def same(a, b):
    return ast.dump(strip(a)) == ast.dump(strip(b))


def strip(e):
    e = copy.deepcopy(e)
    for n in ast.walk(e):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return e


def is_len_of(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and not e.keywords and chain(e.args[0]):
        return e.args[0]
    return None


def const(e, v):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return -e.operand.value == v
    return isinstance(e, ast.Constant) and e.value == v and type(e.value) is int


def names_in(nodes, name):
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and n.id == name:
                yield n


def own_walk(nodes):
    for b in nodes:
        yield from ast.walk(b)


def safe_body(body, X, idx):
    """X not rebound / mutated, idx not stored"""
    root = X
    for n in own_walk(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and (n.id == idx or isinstance(X, ast.Name) and n.id == X.id):
            return False
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and same(n, X):
            return False
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and same(n.value, X):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and same(n.func.value, X):
            return False
        if isinstance(n, ast.AugAssign) and same(n.target, X):
            return False
        if isinstance(n, (ast.Nonlocal, ast.Global)) and idx in n.names:
            return False
        # a method of the owner may change an attribute sequence
        if not isinstance(X, ast.Name) and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and isinstance(X, ast.Attribute) and \
                isinstance(X.value, ast.Name) and n.func.value.id == X.value.id:
            return False
    return True


class Repl(ast.NodeTransformer):
    def __init__(self, X, idx, var):
        self.X, self.idx, self.var, self.n = X, idx, var, 0

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and n.slice.id == self.idx and same(n.value, self.X):
            self.n += 1
            return ast.copy_location(ast.Name(self.var, ast.Load()), n)
        return n


def build(X, idx, body, at, rev, k):
    var = '__e%d' % k
    r = Repl(X, idx, var)
    nb = [r.visit(copy.deepcopy(s)) for s in body]
    it = ast.Call(ast.Name('enumerate', ast.Load()), [copy.deepcopy(X)], [])
    if rev:
        it = ast.Call(ast.Name('reversed', ast.Load()), [ast.Call(ast.Name('list', ast.Load()), [it], [])], [])
    used = any(True for _ in names_in(nb, idx))
    tgt = ast.Tuple([ast.Name(idx, ast.Store()), ast.Name(var, ast.Store())], ast.Store())
    if not used:
        it = copy.deepcopy(X) if not rev else ast.Call(ast.Name('reversed', ast.Load()), [copy.deepcopy(X)], [])
        tgt = ast.Name(var, ast.Store())
    f = ast.For(tgt, it, nb, list(at.orelse), None)
    ast.copy_location(f, at)
    ast.fix_missing_locations(f)
    return f


class Norm(ast.NodeTransformer):
    k = 0

    def block(self, stmts, fn):
        out = []
        for i, s in enumerate(stmts):
            rest = stmts[i + 1:]
            if isinstance(s, ast.For):
                r = self.range_loop(s) or self.call_loop(s)
                out.append(r or s)
            elif isinstance(s, ast.While) and out:
                r = self.while_loop(s, out, rest, fn)
                out.append(r or s)
            else:
                out.append(s)
        return out

    def call_loop(self, s):
        """for x in iter(f, last): ...  ->  while True: x = f(); if x == last: break; ..."""
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'iter' and len(it.args) == 2 and not it.keywords and not s.orelse and chain(it.args[0]) and isinstance(it.args[1], ast.Constant) and isinstance(s.target, ast.Name)):
            return None
        end = ast.Compare(ast.Name(s.target.id, ast.Load()), [ast.Is() if it.args[1].value is None else ast.Eq()], [it.args[1]])
        w = ast.While(ast.Constant(True), [ast.Assign([s.target], ast.Call(it.args[0], [], [])), ast.If(end, [ast.Break()], [])] + s.body, [])
        ast.copy_location(w, s)
        for x in w.body[:2]:
            ast.copy_location(x, s)
        return ast.fix_missing_locations(w)

    def range_loop(self, s):
        it, rev = s.iter, False
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'reversed' and len(it.args) == 1:
            it, rev = it.args[0], True
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and not it.keywords and isinstance(s.target, ast.Name)):
            return None
        X = None
        a = it.args
        if len(a) == 1:
            X = is_len_of(a[0])
        elif len(a) == 2 and const(a[0], 0):
            X = is_len_of(a[1])
        elif len(a) == 3 and not rev and const(a[1], -1) and const(a[2], -1) and isinstance(a[0], ast.BinOp) and isinstance(a[0].op, ast.Sub) and const(a[0].right, 1):
            X, rev = is_len_of(a[0].left), True
        if X is None or not safe_body(s.body, X, s.target.id):
            return None
        r = Repl(X, s.target.id, '_')
        for b in s.body:
            r.visit(copy.deepcopy(b))
        if not r.n:
            return None
        Norm.k += 1
        return build(X, s.target.id, s.body, s, rev, Norm.k)

    def while_loop(self, s, before, rest, fn):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, ast.Gt):
            l, r = r, l
        elif not isinstance(op, (ast.Lt, ast.NotEq)):
            return None
        X = is_len_of(r)
        if X is None or not isinstance(l, ast.Name):
            return None
        idx = l.id
        # the initialisation: the last statement before that mentions idx is `idx = 0`
        init = None
        for b in reversed(before):
            if any(True for _ in names_in([b], idx)):
                init = b
                break
        if init is None or not (isinstance(init, ast.Assign) and len(init.targets) == 1 and isinstance(init.targets[0], ast.Name) and init.targets[0].id == idx and const(init.value, 0)):
            return None
        incs = [b for b in s.body if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == idx and isinstance(b.op, ast.Add) and const(b.value, 1)
                or isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == idx and isinstance(b.value, ast.BinOp) and
                isinstance(b.value.op, ast.Add) and isinstance(b.value.left, ast.Name) and b.value.left.id == idx and const(b.value.right, 1)]
        if len(incs) != 1:
            return None
        pos = s.body.index(incs[0])
        body = s.body[:pos] + s.body[pos + 1:]
        if any(True for _ in names_in(s.body[pos + 1:], idx)):
            return None
        if any(isinstance(n, ast.Continue) for n in own_walk(s.body[:pos])):
            return None
        if not safe_body(body, X, idx):
            return None
        # idx dead afterwards (in the whole function)
        if fn is not None:
            total = sum(1 for _ in names_in([fn], idx))
            inside = sum(1 for _ in names_in([s], idx)) + sum(1 for _ in names_in([init], idx))
            if any(True for _ in names_in(rest, idx)):
                return None
            if total != inside and not any(True for _ in names_in(before, idx)):
                return None
        Norm.k += 1
        return build(X, idx, body or [ast.Pass()], s, False, Norm.k)

    def visit_FunctionDef(self, n):
        old = getattr(self, 'fn', None)
        self.fn = n
        self.generic_visit(n)
        self.blocks(n)
        self.fn = old
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def blocks(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, f, self.block(v, getattr(self, 'fn', None)))

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ExceptHandler, ast.AsyncWith, ast.AsyncFor)):
            self.blocks(n)
        return n


def dealias(tree):
    """a local that is only another name of a parameter (this = self) is read as that parameter"""
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        params = {a.arg for a in fn.args.posonlyargs + fn.args.args}
        for s in fn.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name) and s.value.id in params:
                x, p = s.targets[0].id, s.value.id
                if x == p or sum(1 for n in names_in([fn], x) if not isinstance(n.ctx, ast.Load)) != 1 or any(not isinstance(n.ctx, ast.Load) for n in names_in([fn], p)):
                    continue
                bound = [n for n in ast.walk(fn) if isinstance(n, ast.arg) and n.arg in (x, p) or isinstance(n, (ast.Global, ast.Nonlocal)) and {x, p} & set(n.names) or isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.ExceptHandler)) and n.name in (x, p)]
                if len(bound) != 1:
                    continue
                for n in names_in([fn], x):
                    if isinstance(n.ctx, ast.Load):
                        n.id = p
    return tree


def normalise(tree):
    return Norm().visit(dealias(tree))
