"""Mechanical behaviour preserving rewrites of whole modules; every check must stay quiet (development only, no check runs it):
    python3 dev/refactor.py [-t transform,...] [-m module,...] [-c check,...] [-j jobs]
Each rewrite is applied to all functions of a module at once; an alarm is narrowed down to the functions that cause it.
"""
import ast, concurrent.futures as cf, copy, glob, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'dev'))
import selftest

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def bodies(n):
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, b
    for h in getattr(n, 'handlers', []):
        yield 'body', h.body


def own(fn):
    """nodes of a function without those of nested scopes"""
    todo = list(fn.body)
    while todo:
        x = todo.pop(0)
        yield x
        if isinstance(x, FN + (ast.Lambda, ast.ClassDef)):
            continue
        todo = list(ast.iter_child_nodes(x)) + todo


def each_block(fn, go):
    """replace every statement list by go(list)"""
    def walk(n):
        for f, b in list(bodies(n)):
            for s in b:
                if not isinstance(s, FN + (ast.ClassDef,)):
                    walk(s)
            b[:] = go(b)
    walk(fn)


def parse(s):
    return ast.parse(s).body


def neg(e):
    return e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else ast.UnaryOp(ast.Not(), e)


class Names:
    n = 0

    def __call__(self, base):
        Names.n += 1
        return '%s_%d' % (base, Names.n)


fresh = Names()
N = lambda n: ast.Name(n, ast.Load())
A = lambda n, v: ast.Assign([ast.Name(n, ast.Store())], v)


def stmts(rule):
    def t(fn, cls):
        each_block(fn, lambda b: [y for i, x in enumerate(b) for y in (rule(x, b, i) or [x])])
    return t


@stmts
def retvar(s, b, i):
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
        n = fresh('result')
        return [A(n, s.value), ast.Return(N(n))]


@stmts
def invert(s, b, i):
    if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
        return [ast.If(neg(s.test), s.orelse, s.body)]


@stmts
def ifexp(s, b, i):
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
        a, c = copy.copy(s), copy.copy(s)
        a.value, c.value = s.value.body, s.value.orelse
        return [ast.If(s.value.test, [a], [c])]


@stmts
def ifexp_join(s, b, i):
    if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and type(s.body[0]) is type(s.orelse[0]):
        x, y = s.body[0], s.orelse[0]
        if isinstance(x, ast.Return) and x.value is not None and y.value is not None:
            return [ast.Return(ast.IfExp(s.test, x.value, y.value))]
        if isinstance(x, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and not isinstance(x.targets[0], ast.Tuple):
            return [ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))]


@stmts
def condvar(s, b, i):
    if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
        n = fresh('condition')
        return [A(n, s.test), ast.If(N(n), s.body, s.orelse)]


@stmts
def andsplit(s, b, i):
    if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
        r = s.body
        for c in reversed(s.test.values):
            r = [ast.If(c, r, [])]
        return r


@stmts
def aug(s, b, i):
    if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.target, (ast.Name, ast.Attribute)):
        ld = copy.deepcopy(s.target)
        ld.ctx = ast.Load()
        return [ast.Assign([s.target], ast.BinOp(ld, s.op, s.value))]


@stmts
def withlock(s, b, i):
    if isinstance(s, ast.With) and len(s.items) == 1 and s.items[0].optional_vars is None:
        e = s.items[0].context_expr
        if isinstance(e, ast.Attribute) and ('lock' in e.attr or 'mutex' in e.attr):
            call = lambda m: ast.Expr(ast.Call(ast.Attribute(copy.deepcopy(e), m, ast.Load()), [], []))
            return [call('acquire'), ast.Try(s.body, [], [], [call('release')])]


@stmts
def argvars(s, b, i):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and not s.value.keywords and s.value.args and not any(isinstance(a, (ast.Starred, ast.Lambda)) for a in s.value.args):
        f = s.value.func
        x = f
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        out, args = [], []
        for a in s.value.args:
            if isinstance(a, (ast.Constant, ast.Name)):
                args.append(a)
            else:
                n = fresh('arg')
                out.append(A(n, a))
                args.append(N(n))
        return out + [ast.Expr(ast.Call(f, args, []))]


@stmts
def recvvar(s, b, i):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Attribute):
        n = fresh('target')
        f = s.value.func
        return [A(n, f.value), ast.Expr(ast.Call(ast.Attribute(N(n), f.attr, ast.Load()), s.value.args, s.value.keywords))]


@stmts
def literals(s, b, i):
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and not n.args and not n.keywords and n.func.id in ('list', 'dict', 'str'):
                return {'list': ast.List([], ast.Load()), 'dict': ast.Dict([], []), 'str': ast.Constant('')}[n.func.id]
            return n
    if not isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With) + FN):
        return [V().visit(s)]


@stmts
def noop(s, b, i):
    return [ast.Pass(), s] if i == 0 and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) else None


@stmts
def compare(s, b, i):
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in SW and all(isinstance(x, (ast.Name, ast.Constant)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' for x in (n.left, n.comparators[0])):
                return ast.Compare(n.comparators[0], [SW[type(n.ops[0])]()], [n.left])
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
            return n
    if isinstance(s, (ast.If, ast.While)):
        s.test = V().visit(s.test)
        return [s]
    if not isinstance(s, (ast.For, ast.Try, ast.With) + FN):
        return [V().visit(s)]


def guard(fn, cls):
    """a last `if c: ...` becomes an early return"""
    s = fn.body[-1]
    if isinstance(s, ast.If) and not s.orelse and not any(isinstance(x, ast.Yield) for x in own(fn)) and fn.name != '__init__':
        fn.body[-1:] = [ast.If(neg(s.test), [ast.Return(None)], [])] + s.body


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and ends(b[-1].orelse)


def elsify(fn, cls):
    """statements after `if c: return` go to its else"""
    def go(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = go(b[i + 1:])
                return b[:i + 1]
        return b
    each_block(fn, go)


@stmts
def unelse(s, b, i):
    if isinstance(s, ast.If) and s.orelse and ends(s.body):
        e, s.orelse = s.orelse, []
        return [s] + e


@stmts
def enumerated(s, b, i):
    if isinstance(s, ast.For) and isinstance(s.target, (ast.Name, ast.Tuple)) and not isinstance(s.iter, ast.Call):
        s.target = ast.Tuple([ast.Name(fresh('position'), ast.Store()), s.target], ast.Store())
        s.iter = ast.Call(N('enumerate'), [s.iter], [])
        return [s]


@stmts
def listed(s, b, i):
    """iterate over a list of the elements"""
    if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ('range', 'zip', 'enumerate', 'reversed', 'sorted'):
        n = fresh('elements')
        it, s.iter = s.iter, N(n)
        return [A(n, ast.Call(N('list'), [it], [])), s]


@stmts
def loopify(s, b, i):
    """a list comprehension as a loop"""
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
        g = s.value.generators[0]
        if g.is_async:
            return None
        n = fresh('found')
        ren = {x.id: fresh(x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        class R(ast.NodeTransformer):
            def visit_Name(self, x):
                return ast.Name(ren.get(x.id, x.id), x.ctx)
        if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for y in [s.value.elt] + g.ifs for x in ast.walk(y)):
            return None
        body = [ast.Expr(ast.Call(ast.Attribute(N(n), 'append', ast.Load()), [R().visit(s.value.elt)], []))]
        for c in reversed(g.ifs):
            body = [ast.If(R().visit(c), body, [])]
        loop = ast.For(R().visit(g.target), g.iter, body, [])
        s.value = N(n)
        return [A(n, ast.List([], ast.Load())), loop, s]


def this(fn, cls):
    if cls is None or not fn.args.args or fn.args.args[0].arg != 'self' or any(isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod') for d in fn.decorator_list):
        return
    if any(isinstance(x, ast.Name) and x.id == 'self' and not isinstance(x.ctx, ast.Load) for x in ast.walk(fn)) or sum(isinstance(x, ast.arg) and x.arg == 'self' for x in ast.walk(fn)) > 1:
        return

    class V(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.Name('this', n.ctx) if n.id == 'self' else n
    if not any(isinstance(x, ast.Name) and x.id == 'self' for x in ast.walk(fn)):
        return
    fn.body[:] = [A('this', N('self'))] + [V().visit(s) for s in fn.body]


def locals_(fn, cls):
    """local variables get other names"""
    params = {a.arg for x in ast.walk(fn) if isinstance(x, FN + (ast.Lambda,)) for a in x.args.args + x.args.kwonlyargs + x.args.posonlyargs + [y for y in (x.args.vararg, x.args.kwarg) if y]}
    other = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names} | {x.name for x in ast.walk(fn) if isinstance(x, FN + (ast.ClassDef,))} | {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name} | {a.asname or a.name for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    mine = {x.id for x in own(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - other

    class V(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.Name(n.id + '_value', n.ctx) if n.id in mine else n
    fn.body[:] = [V().visit(s) for s in fn.body]


def helper(fn, cls):
    """the body goes to a method of its own"""
    if cls is None or isinstance(fn, ast.AsyncFunctionDef) or not fn.args.args or fn.args.args[0].arg != 'self':
        return
    if any(not (isinstance(d, ast.Name) and d.id == 'property' or isinstance(d, ast.Attribute) and d.attr == 'setter') for d in fn.decorator_list):
        return
    n = '__do_' + fn.name.strip('_')
    a = fn.args
    new = ast.FunctionDef(fresh(n), copy.deepcopy(a), fn.body, [], fn.returns, None)
    call = ast.Call(ast.Attribute(N('self'), new.name, ast.Load()), [N(x.arg) for x in a.args[1:]] + ([ast.Starred(N(a.vararg.arg), ast.Load())] if a.vararg else []), [ast.keyword(x.arg, N(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, N(a.kwarg.arg))] if a.kwarg else []))
    fn.body = [ast.Expr(call)] if fn.name == '__init__' else [ast.Return(call)]
    return new


@stmts
def swapinit(s, b, i):
    """independent assignments of private attributes in another order"""
    return None


def reorder(fn, cls):
    if fn.name != '__init__':
        return

    def easy(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == 'self' and s.targets[0].attr.startswith('__') and (isinstance(s.value, (ast.Constant, ast.Name)) or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('list', 'dict', 'set') and not s.value.args)
    i = 0
    while i + 1 < len(fn.body):
        if easy(fn.body[i]) and easy(fn.body[i + 1]):
            fn.body[i], fn.body[i + 1] = fn.body[i + 1], fn.body[i]
            i += 1
        i += 1


def private(fn, cls):
    class V(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr.startswith('__') and not n.attr.endswith('__'):
                n.attr += '_field'
            return n
    V().visit(fn)
    if fn.name.startswith('__') and not fn.name.endswith('__') and cls is not None:
        fn.name += '_field'


def unannotate(fn, cls):
    for x in ast.walk(fn):
        if isinstance(x, FN):
            x.returns = None
        if isinstance(x, ast.arg):
            x.annotation = None
    each_block(fn, lambda b: [ast.Assign([s.target], s.value) if isinstance(s, ast.AnnAssign) and s.value is not None and s.simple == 0 else s for s in b])


def leaves(b):
    """does the block return, break out, wait or define names"""
    return any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Global, ast.Delete) + FN + (ast.ClassDef, ast.Import, ast.ImportFrom, ast.ExceptHandler)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for s in b for x in ast.walk(s))


def extract(fn, cls):
    """blocks of if, for and with go to methods of their own"""
    if cls is None or isinstance(fn, ast.AsyncFunctionDef) or not fn.args.args or fn.args.args[0].arg != 'self' or fn.decorator_list and not isinstance(fn.decorator_list[0], (ast.Name, ast.Attribute)):
        return None
    if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in fn.decorator_list):
        return None
    made = []
    local = {x.id for x in own(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set()) | {x.name for x in own(fn) if isinstance(x, FN + (ast.ClassDef,))} | {x.name for x in own(fn) if isinstance(x, ast.ExceptHandler) and x.name}

    def walk(n):
        for f, b in list(bodies(n)):
            for s in b:
                if isinstance(s, FN + (ast.ClassDef,)):
                    continue
                walk(s)
                for f2, b2 in list(bodies(s)):
                    if len(b2) == 1 and isinstance(b2[0], (ast.Pass, ast.Raise)) or leaves(b2):
                        continue
                    stored = {x.id for y in b2 for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    count = lambda ys: sum(isinstance(x, ast.Name) and x.id in stored for y in ys for x in ast.walk(y))
                    if stored and count(fn.body) != count(b2):
                        continue
                    used = sorted({x.id for y in b2 for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} & local - {'self'} - stored)
                    m = fresh('__part')
                    made.append(ast.FunctionDef(m, ast.arguments([], [ast.arg('self')] + [ast.arg(u) for u in used], None, [], [], None, []), list(b2), [], None, None))
                    b2[:] = [ast.Expr(ast.Call(ast.Attribute(N('self'), m, ast.Load()), [N(u) for u in used], []))]
    walk(fn)
    return made


@stmts
def iternext(s, b, i):
    """a for loop as a while loop over an iterator"""
    if isinstance(s, ast.For) and not s.orelse:
        it, end, v = fresh('iterator'), fresh('end'), fresh('element')
        nx = ast.Call(N('next'), [N(it), N(end)], [])
        return [A(it, ast.Call(N('iter'), [s.iter], [])), A(end, ast.Call(N('object'), [], [])), ast.While(ast.Constant(True), [A(v, nx), ast.If(ast.Compare(N(v), [ast.Is()], [N(end)]), [ast.Break()], []), ast.Assign([s.target], N(v))] + s.body, [])]


def inline(fn, cls):
    """x = e; return x"""
    def go(b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and out and isinstance(out[-1], ast.Assign) and len(out[-1].targets) == 1 and isinstance(out[-1].targets[0], ast.Name) and out[-1].targets[0].id == s.value.id:
                out[-1] = ast.Return(out[-1].value)
            else:
                out.append(s)
        return out
    each_block(fn, go)


@stmts
def andjoin(s, b, i):
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
        return [ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])]


def pairs(fn, cls):
    """two assignments of constants or parameters at once"""
    ps = {a.arg for a in fn.args.args}

    def easy(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and (isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Name) and s.value.id in ps or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('list', 'dict', 'set') and not s.value.args) and (isinstance(s.targets[0], ast.Name) and s.targets[0].id not in ps or isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr.startswith('__'))

    def go(b):
        out = []
        i = 0
        while i < len(b):
            if i + 1 < len(b) and easy(b[i]) and easy(b[i + 1]):
                out.append(ast.Assign([ast.Tuple([b[i].targets[0], b[i + 1].targets[0]], ast.Store())], ast.Tuple([b[i].value, b[i + 1].value], ast.Load())))
                i += 2
            else:
                out.append(b[i])
                i += 1
        return out
    each_block(fn, go)


@stmts
def deflambda(s, b, i):
    if isinstance(s, ast.FunctionDef) and not s.decorator_list and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
        a = copy.deepcopy(s.args)
        for x in a.args + a.kwonlyargs:
            x.annotation = None
        return [A(s.name, ast.Lambda(a, s.body[0].value))]


@stmts
def lambdadef(s, b, i):
    """a lambda as a local function"""
    if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)):
        return None
    defs = []

    class V(ast.NodeTransformer):
        def visit_ListComp(self, n):
            return n
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Lambda(self, n):
            m = fresh('fn')
            defs.append(ast.FunctionDef(m, n.args, [ast.Return(n.body)], [], None, None))
            return N(m)
    s = V().visit(s)
    return defs + [s]


@stmts
def delpop(s, b, i):
    if isinstance(s, ast.Delete) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and not isinstance(s.targets[0].slice, ast.Slice):
        t = s.targets[0]
        return [ast.Expr(ast.Call(ast.Attribute(t.value, 'pop', ast.Load()), [t.slice], []))]


@stmts
def inexpand(s, b, i):
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and n.comparators[0].elts and isinstance(n.left, (ast.Name, ast.Attribute)):
                es = [ast.Compare(n.left, [ast.Eq()], [e]) for e in n.comparators[0].elts]
                return es[0] if len(es) == 1 else ast.BoolOp(ast.Or(), es)
            return n
    if isinstance(s, (ast.If, ast.While)):
        s.test = V().visit(s.test)
        return [s]
    if not isinstance(s, (ast.For, ast.Try, ast.With) + FN):
        return [V().visit(s)]


@stmts
def tryelse(s, b, i):
    """with as statement of a context manager object: the lock is named first"""
    if isinstance(s, ast.With) and len(s.items) == 1 and s.items[0].optional_vars is None:
        n = fresh('manager')
        e, s.items[0].context_expr = s.items[0].context_expr, N(n)
        return [A(n, e), s]


@stmts
def boundlambda(s, b, i):
    """self.__method given away as a lambda that calls it"""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'listen':
                n.args = [ast.parse('lambda *args, **kwargs: self.%s(*args, **kwargs)' % a.attr, mode='eval').body if isinstance(a, ast.Attribute) and a.attr.startswith('__') and isinstance(a.value, ast.Name) and a.value.id == 'self' else a for a in n.args]
            return n
    if isinstance(s, (ast.Expr, ast.Assign)):
        return [V().visit(s)]


@stmts
def deadelse(s, b, i):
    """an else with pass"""
    if isinstance(s, ast.If) and not s.orelse:
        return [ast.If(s.test, s.body, [ast.Pass()])]


@stmts
def truthif(s, b, i):
    """return c  ->  if c: return True / return False, for comparisons"""
    if isinstance(s, ast.Return) and isinstance(s.value, ast.Compare):
        return [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]


TRANSFORMS = {f.__name__ if f.__name__ != 't' else n: f for n, f in dict(retvar=retvar, invert=invert, ifexp=ifexp, ifexp_join=ifexp_join, condvar=condvar, andsplit=andsplit, aug=aug, withlock=withlock, argvars=argvars, recvvar=recvvar, literals=literals,
                                                                       noop=noop, compare=compare, guard=guard, elsify=elsify, unelse=unelse, enumerated=enumerated, listed=listed, loopify=loopify, this=this, locals_=locals_, helper=helper, reorder=reorder, private=private, unannotate=unannotate, extract=extract, iternext=iternext, inline=inline, andjoin=andjoin, pairs=pairs, deflambda=deflambda, lambdadef=lambdadef, delpop=delpop, inexpand=inexpand, tryelse=tryelse, boundlambda=boundlambda, deadelse=deadelse, truthif=truthif).items()}
WHOLE = {'private'}


def apply(src, tr, only=None):
    """the rewritten source; only: indexes of the functions to rewrite.  Returns (source, names of functions changed)"""
    Names.n = 0
    tree = ast.parse(src)
    names = []
    k = 0

    def visit(n, cls, nested):
        nonlocal k
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            for x in list(b):
                if isinstance(x, FN):
                    visit(x, None, True)
                    if tr in WHOLE and not nested or tr not in WHOLE and (only is None or k in only):
                        old = ast.dump(x)
                        new = TRANSFORMS[tr](x, cls)
                        for m in reversed(new if isinstance(new, list) else [new] if isinstance(new, ast.AST) else []):
                            b.insert(b.index(x) + 1, m)
                        if ast.dump(x) != old:
                            names.append((k, (cls + '.' if cls else '') + x.name))
                    k += 1
                elif isinstance(x, ast.ClassDef):
                    visit(x, x.name, nested)
                elif isinstance(x, ast.If) and not isinstance(n, FN):
                    visit(x, cls, nested)
    visit(tree, None, False)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n', names


def check(mod, src, pids):
    d = tempfile.mkdtemp(prefix='rft')
    try:
        shutil.copytree('/repo/nion', d + '/nion', ignore=shutil.ignore_patterns('test', '__pycache__'))
        open(d + '/nion/utils/%s.py' % mod, 'w').write(src)
        out = []
        for p in pids:
            try:
                r = subprocess.run([sys.executable, '-W', 'ignore', '-c', selftest.RUN, d, p], capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                out.append((p, 'TIMEOUT', ''))
                continue
            t = r.stdout
            if 'refuted 0' not in t or 'BROKEN' in t:
                out.append((p, 'ALARM', t[:1500] + r.stderr[-300:]))
            elif not t.strip().splitlines()[0].endswith('unknown 0'):
                out.append((p, 'undecided', t.strip().splitlines()[0]))
        return out
    finally:
        shutil.rmtree(d)


def tests(mod, src):
    """the repository's tests with the rewritten module"""
    d = tempfile.mkdtemp(prefix='rft')
    try:
        shutil.copytree('/repo/nion', d + '/nion', ignore=shutil.ignore_patterns('__pycache__'))
        open(d + '/nion/utils/%s.py' % mod, 'w').write(src)
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'unittest', 'discover', '-s', 'nion/utils/test', '-p', '*_test.py', '-t', '.'], cwd=d, capture_output=True, text=True, timeout=300)
        return r.returncode, r.stderr[-500:]
    finally:
        shutil.rmtree(d)


def job(a):
    mod, tr, pids = a
    src = open('/repo/nion/utils/%s.py' % mod).read()
    new, names = apply(src, tr)
    if not names:
        return a, None
    try:
        compile(new, mod, 'exec')
    except SyntaxError as e:
        return a, [('-', 'ERROR', str(e))]
    rc, err = tests(mod, new)
    if rc:
        return a, [('-', 'TESTS', err)]
    res = check(mod, new, pids)
    al = [r for r in res if r[1] == 'ALARM']
    if al and tr not in WHOLE:
        for k, n in names:
            one, _ = apply(src, tr, {k})
            r = check(mod, one, [x[0] for x in al])
            if any(x[1] == 'ALARM' for x in r):
                res.append(('-', 'by', n))
    return a, res


def main(argv):
    opt = dict(zip(argv[::2], argv[1::2]))
    trs = opt.get('-t', ','.join(TRANSFORMS)).split(',')
    mods = opt.get('-m', ','.join(sorted({m for v in selftest.DEPS.values() for m in v}))).split(',')
    cs = opt['-c'].split(',') if '-c' in opt else None
    jobs = [(m, t, [p for p in sorted(selftest.DEPS) if m in selftest.DEPS[p] and (cs is None or p in cs)]) for m in mods for t in trs]
    with cf.ThreadPoolExecutor(int(opt.get('-j', 6))) as ex:
        for a, res in ex.map(job, jobs):
            if res is None:
                continue
            print(a[0], a[1], 'ok' if not res else '', flush=True)
            for r in res or ():
                print('   ', *r, flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
