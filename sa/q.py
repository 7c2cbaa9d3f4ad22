"""Queries over effect traces."""
from . import terms as T
from .terms import C, NONE, TRUE, FALSE, ZERO, ONE

SELF = ('sym', 'self')
LOUD = ('call', 'mut', 'write', 'loop', 'new', 'yield', 'await', 'setattr', 'delattr')


def F(obj, name):
    return ('fld', obj, name)


def S(name):
    return ('sym', name)


def is_call(e, name=None, recv=None):
    return e.kind == 'call' and (name is None or e.name == name or (isinstance(name, (tuple, set, frozenset)) and e.name in name)) and (recv is None or e.recv == recv)


def is_fire(e, event=None, obj=None, forms=('fire',)):
    """a fire of the event stored in the public field `event` (of obj)"""
    if e.kind != 'call' or e.name not in forms or not e.recv:
        return False
    if event is None:
        return True
    r = e.recv
    if r[0] == 'fld' and r[2] == event and (obj is None or r[1] == obj):
        return True
    return False


def flat(trace, loops=True):
    """every effect, loops expanded in place (each body path)"""
    for e in trace:
        yield e
        if loops and e.kind == 'loop':
            for p in e.extra.paths:
                yield from flat(p.trace)


def calls(trace, name=None, recv=None, loops=True):
    return [e for e in flat(trace, loops) if is_call(e, name, recv)]


def fires(trace, event=None, obj=None, loops=True, forms=('fire',)):
    return [e for e in flat(trace, loops) if is_fire(e, event, obj, forms)]


def muts(trace, recv=None, loops=True):
    return [e for e in flat(trace, loops) if e.kind == 'mut' and (recv is None or e.recv == recv)]


def writes(trace, obj=None, name=None, loops=True):
    return [e for e in flat(trace, loops) if e.kind == 'write' and (obj is None or e.recv == obj) and (name is None or e.name == name)]


def loopsof(trace):
    return [e.extra for e in flat(trace) if e.kind == 'loop']


def rets(paths):
    return [p for p in paths if p.status == 'ret']


def assumed(trace, atom):
    """last assumed truth of an atom on the trace, or None"""
    r = None
    for e in trace:
        if e.kind == 'assume' and e.args[0] == atom:
            r = e.name
    return r


def base(t):
    while t and t[0] in ('copy',):
        t = t[1]
    return t


def field_name(t):
    return t[2] if t and t[0] == 'fld' and isinstance(t[2], str) else None


def veq(a, b):
    """equal / different / undecided value numbers"""
    if a == b:
        return True
    if a is None or b is None:
        return False
    if T.lossy(a) or T.lossy(b):
        d = T.sub(a, b)
        if d[0] == 'const' and d[1] in ('int', 'float') and d[2]:
            return False        # the same unknown, a different offset
        return None
    return False


def seq_linear(trace):
    """effects without branch facts"""
    return [e for e in trace if e.kind in LOUD]


def nowhere(trace, pred):
    return not any(pred(e) for e in flat(trace))


def role_field(ctx, mod, cls, getter, kind='get'):
    """the private field behind a public accessor: name of the field of self its value is read from"""
    names = set()
    ps = ctx.paths(mod, cls, getter, kind) if kind else ctx.paths(mod, cls, getter)
    for p in rets(ps):
        t = base(p.value)
        if t[0] == 'fld' and t[1] == SELF:
            names.add(t[2])
    return names


def listen_calls(trace, event=None, obj=None):
    return [e for e in flat(trace) if e.kind == 'call' and e.name == 'listen' and e.recv and (event is None or (e.recv[0] == 'fld' and e.recv[2] == event and (obj is None or e.recv[1] == obj)))]


def run_callback(ctx, path_st, eng, fn, args=None, opts=None, keep_heap=False, argsyms=None):
    """analyse a function value handed to listen(): its captured variables keep their values, the object state is arbitrary.
    args: list of terms (positional).  -> list of (Path)"""
    from .engine import Engine, Frame, Path
    from .state import St
    st = St()
    st.envs = {k: dict(v) for k, v in path_st.envs.items()}
    if keep_heap:
        st.heap = dict(path_st.heap)
    st.types = dict(path_st.types)
    e = eng
    e.steps = 0
    kw = []
    args = list(args or [])
    fr = Frame(None, -1, (), module=eng.root_module)
    outs = e.call_value(fn, args, kw, st, fr, None)
    ps = []
    for s, v in outs:
        ps.append(Path(s, 'raise' if v is None else 'ret', s.exc if v is None else v))
    for p in ps:
        p.eng = e
    ctx.npaths += len(ps)
    ctx.inlined |= e.inlined
    return ps


def free_names(func):
    """names a function takes from its defining scopes (nested functions included)"""
    import ast as _a
    out = set()

    def go(node, bound):
        a = node.args
        loc = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        body = node.body if isinstance(node.body, list) else [node.body]
        nested = []
        nl = set()
        loads = set()
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (_a.FunctionDef, _a.AsyncFunctionDef, _a.Lambda)):
                if not isinstance(n, _a.Lambda):
                    loc.add(n.name)
                nested.append(n)
                stack.extend(n.args.defaults + [d for d in n.args.kw_defaults if d])
                continue
            if isinstance(n, _a.Name):
                (loads if isinstance(n.ctx, _a.Load) else loc).add(n.id)
            elif isinstance(n, (_a.Nonlocal, _a.Global)):
                nl.update(n.names)
            elif isinstance(n, _a.ExceptHandler) and n.name:
                loc.add(n.name)
            stack.extend(_a.iter_child_nodes(n))
        loc -= nl
        out.update(x for x in loads | nl if x not in loc and x not in bound)
        for n in nested:
            go(n, bound | loc)
    go(func.node, frozenset())
    return out


def env_lookup(st, env, name):
    while env is not None and env in st.envs:
        d = st.envs[env]
        if name in d:
            return d[name]
        env = d.get('__parent__')
    return None


def keeps(ctx, st, t, target, seen=None):
    """does value t keep `target` alive: strong reachability through containers, bound methods, partials, captured variables"""
    seen = set() if seen is None else seen
    if t == target:
        return True
    if not isinstance(t, tuple) or t in seen:
        return False
    seen.add(t)
    if t and t[0] == 'weakref':
        return keeps(ctx, st, t[2], target, seen) if len(t) > 2 else False
    if t and t[0] == 'closure':
        f = ctx.prog.funcs.get(t[1])
        if f is None:
            return False
        for _, v in (t[3] if len(t) > 3 else ()):
            if keeps(ctx, st, v, target, seen):
                return True
        for n in free_names(f):
            v = env_lookup(st, t[2], n)
            if v is not None and keeps(ctx, st, v, target, seen):
                return True
        return False
    if t and t[0] in ('app', 'idx', 'len', 'indexof', 'truthy', 'deref'):
        return False
    return any(keeps(ctx, st, x, target, seen) for x in t if isinstance(x, tuple))


def then(ctx, p, obj, name, args=(), kw=(), raises=None, keep_trace=False):
    """continue from the end state of a path with a call of a method of obj -> list of Path (with only the new effects)"""
    from .engine import Frame, Path
    st = p.st.copy()
    if not keep_trace:
        st.trace = []
    st.exc = None
    eng = p.eng
    eng.steps = 0
    old = eng.raises
    if raises is not None:
        eng.raises = raises
    out = []
    try:
        for s, v in eng.call_method(obj, name, list(args), list(kw), st, Frame(None, -1, (), module=eng.root_module), None):
            x = Path(s, 'raise' if v is None else 'ret', s.exc if v is None else v)
            x.eng = eng
            out.append(x)
    finally:
        eng.raises = old
    ctx.npaths += len(out)
    return out


def then_get(ctx, p, obj, name, raises=None):
    """continue with reading a property of obj"""
    from .engine import Frame, Path
    st = p.st.copy()
    st.trace = []
    eng = p.eng
    eng.steps = 0
    old = eng.raises
    if raises is not None:
        eng.raises = raises
    out = []
    try:
        for s, v in eng.load_attr(st, Frame(None, -1, (), module=eng.root_module), None, obj, name):
            x = Path(s, 'raise' if v is None else 'ret', s.exc if v is None else v)
            x.eng = eng
            out.append(x)
    finally:
        eng.raises = old
    return out
