"""Driver:  python3 -m sa.check <property>   (run in /verif).

Decides one property from the source in /repo's working tree and nothing else.  Exit 0: no obligation refuted (known findings
are listed); exit 1 + VIOLATION line: an obligation is refuted by a named construct; exit 2: the analysis itself could not be
carried out (source does not parse, a public anchor of the property is gone, nothing could be decided).
"""
import contextlib
import importlib
import json
import os
import sys
import signal
import time
import traceback
import warnings

from .program import Program, Broken, mangle
from .engine import Engine, TooComplex
from . import terms as T

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

ASSUMPTIONS = [
    'callbacks and collaborators called through an unknown value do not themselves reassign the private state of the object under analysis between two of its own statements',
    'mapping keys with different value numbers are different keys',
    'attributes are not monkey-patched from outside the package; dynamic features not used by the package (exec, metaclass tricks) are absent',
    'paths on which the analysis loses the value of an operand are reported as undecided, not as violations',
]


class Skip(Exception):
    pass


TOTAL_S, CASE_S, ENOUGH = 600, 40, 30


def alarm(seconds):
    """TooComplex after so many seconds"""
    def ring(*_):
        raise TooComplex()
    try:
        signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, seconds)
    except ValueError:
        pass        # not in the main thread


class Ctx:
    def __init__(self, prop, prog):
        self.prop = prop
        self.prog = prog
        self.proved = []
        self.refuted = []
        self.unknown = []
        self.roots = {}
        self.inlined = set()
        self.npaths = 0
        self.neffects = 0
        self.rule = '?'
        self.rules = []
        self._cache = {}
        self._progs = {}
        self.deadline = time.time() + TOTAL_S

    def case(self, what, fn, limit=None):
        """one case of a rule: what the analysis cannot follow, or not in time, is undecided and the other cases go on"""
        left = self.deadline - time.time()
        if left <= 0:
            self.unk(what, 'time limit')
            return None
        if len({r[1] for r in self.refuted}) >= ENOUGH:
            return None     # the violation is established
        alarm(min(limit or CASE_S, left))
        try:
            return fn()
        except Broken:
            raise
        except TooComplex:
            self.unk(what, 'path or time budget exceeded')
        except Exception as e:
            if os.environ.get('SA_STRICT'):
                traceback.print_exc()
            self.unk(what, 'analysis could not follow the code: %s: %s' % (type(e).__name__, e))
        finally:
            alarm(max(1, self.deadline - time.time()))
        return None

    # ---- obligations
    def where(self, w):
        if w is None:
            return ''
        if hasattr(w, 'where'):
            return w.where()
        if hasattr(w, 'node') and hasattr(w, 'module'):
            return '%s:%s (%s)' % (w.module.path, w.node.lineno, w.id)
        return str(w)

    def ok(self, what, w=None):
        self.proved.append((self.rule, what, self.where(w)))

    def bad(self, construct, msg, w=None):
        self.refuted.append((self.rule, construct, msg, self.where(w)))

    def unk(self, construct, msg='', w=None):
        self.unknown.append((self.rule, construct, msg, self.where(w)))

    def check(self, cond, construct, msg, w=None):
        """cond: True proved / False refuted / None undecided"""
        if cond is None:
            self.unk(construct, msg, w)
        elif cond:
            self.ok(construct, w)
        else:
            self.bad(construct, msg, w)
        return cond

    # ---- anchors
    def cls(self, mod, name):
        return self.prog.cls(mod, name)

    def method(self, mod, cls, name, kind=None):
        """public method/property accessor; Broken when it is gone"""
        ci = self.prog.cls(mod, cls)
        if kind in ('get', 'set'):
            p = self.prog.find_prop(ci, name)
            if not p or kind not in p:
                raise Broken('public property %s.%s.%s (%s) is gone' % (mod, cls, name, kind))
            return p[kind], ci
        f = self.prog.find_method(ci, name)
        if f is None:
            raise Broken('public method %s.%s.%s is gone' % (mod, cls, name))
        return f, ci

    def has(self, mod, cls, name):
        ci = self.prog.cls(mod, cls)
        return self.prog.find_method(ci, name) is not None or self.prog.find_prop(ci, name) is not None

    @contextlib.contextmanager
    def modelled(self, *models):
        """the package together with models of these library modules"""
        save = self.prog, self._cache
        if models not in self._progs:
            self._progs[models] = (Program(self.prog.root, models), {})
        self.prog, self._cache = self._progs[models]
        try:
            yield
        finally:
            self.prog, self._cache = save

    # ---- analysis
    def engine(self, **opts):
        return Engine(self.prog, **opts)

    def run(self, func, self_cls=None, opts=None, **kw):
        e = Engine(self.prog, **(opts or {}))
        ps = e.run(func, self_cls=self_cls, **kw)
        self.account(func, e, ps)
        for p in ps:
            p.eng = e
        return ps

    def account(self, func, e, ps):
        self.roots[func.id] = self.roots.get(func.id, 0) + len(ps)
        self.inlined |= e.inlined
        self.npaths += len(ps)
        self.neffects += sum(count(p.trace) for p in ps)

    def paths(self, mod, cls, name, kind=None, opts=None, self_cls=None, **kw):
        f, ci = self.method(mod, cls, name, kind)
        key = (f.id, (self_cls or ci).id, repr(sorted((opts or {}).items(), key=str)), repr(sorted(kw.items(), key=str)))
        if key not in self._cache:
            self._cache[key] = self.run(f, self_cls=self_cls or ci, opts=opts, **kw)
        return self._cache[key]

    def probe(self, mod, cls, src, opts=None, **kw):
        """analyse client code (source text of one function) written against a class (self) or a module"""
        import ast
        key = ('probe', mod, cls, src, repr(sorted((opts or {}).items(), key=str)), repr(sorted(kw.items(), key=str)))
        if key in self._cache:
            return self._cache[key]
        m = self.prog.modules.get(mod)
        if m is None:
            raise Broken('module %s is gone' % mod)
        ci = self.prog.cls(mod, cls) if cls else None
        node = ast.parse(src).body[0]
        f = self.prog._add_func(m, node, ci, None, '%s.<client of %s>' % (mod, cls or mod))
        e = Engine(self.prog, **(opts or {}))
        ps = e.run(f, self_cls=ci, **kw)
        self.inlined |= e.inlined - {f.id}
        self.npaths += len(ps)
        self.neffects += sum(count(p.trace) for p in ps)
        for p in ps:
            p.eng = e
        self._cache[key] = ps
        return ps

    def fpaths(self, mod, name, opts=None, **kw):
        f = self.prog.func(mod, name)
        return self.run(f, opts=opts, **kw)


def count(tr):
    n = 0
    for e in tr:
        n += 1
        if e.kind == 'loop':
            n += sum(count(p.trace) for p in e.extra.paths)
    return n


def load_findings():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                parts = l[len('finding: '):].split(' ', 2)
                prop = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1]
                out.append((prop, key, parts[2] if len(parts) > 2 else ''))
    return out


def slug(s):
    return ''.join(c if c.isalnum() or c in '._-' else '_' for c in s)


def run_property(pid, root=REPO):
    warnings.simplefilter('ignore')
    prog = Program(root)
    mod = importlib.import_module('sa.rules.' + pid)
    ctx = Ctx(pid, prog)
    for fn in mod.RULES:
        ctx.rule = fn.__name__
        ctx.rules.append((fn.__name__, (fn.__doc__ or '').strip()))
        alarm(max(1, ctx.deadline - time.time()))
        try:
            fn(ctx)
        except Broken:
            raise
        except TooComplex:
            ctx.unk(fn.__name__, 'path budget exceeded')
        except Exception as e:
            if os.environ.get('SA_STRICT'):
                traceback.print_exc()
            ctx.unk(fn.__name__, 'analysis could not follow the code: %s: %s' % (type(e).__name__, e))
        finally:
            alarm(0)
    return ctx


def main(argv):
    sys.setrecursionlimit(20000)
    pid = argv[0]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        ctx = run_property(pid)
    except Broken as e:
        print('BROKEN property=%s: %s' % (pid, e))
        return 2
    findings = [(k, w) for p, k, w in load_findings() if p == pid]
    new, known = [], []
    seen = set()
    for rule, construct, msg, where in ctx.refuted:
        key = '%s|%s' % (rule, slug(construct))
        if key in seen:
            continue
        seen.add(key)
        hit = [w for k, w in findings if k == key]
        (known if hit else new).append((key, rule, construct, msg, where, hit[0] if hit else ''))
    used = {k[0] for k in known}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'path-sensitive interprocedural effect analysis of the source: each root function below was expanded together with everything it calls in the package, '
                           'every control-flow path (loops: one generic iteration with loop-carried state havocked) was matched against the rules; nothing was executed',
            'rules': [{'rule': n, 'text': d} for n, d in ctx.rules],
            'root_functions': sorted(ctx.roots),
            'functions_inlined': len(ctx.inlined),
            'paths': ctx.npaths,
            'effects_on_paths': ctx.neffects,
            'obligations': len(ctx.proved) + len(ctx.refuted) + len(ctx.unknown),
            'discharged': len(ctx.proved),
            'undecided': [{'rule': r, 'construct': c, 'why': m, 'where': w} for r, c, m, w in ctx.unknown][:200],
            'samples': [{'rule': r, 'construct': c, 'where': w} for r, c, w in ctx.proved[:: max(1, len(ctx.proved) // 12)]][:14],
            'refuted_new': [{'rule': r, 'construct': c, 'why': m, 'where': w} for _, r, c, m, w, _ in new],
            'known_findings': [{'key': k, 'why': m, 'where': w} for k, r, c, m, w, _ in known],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    if os.environ.get('SA_NOEVIDENCE'):
        evd = '/tmp'
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('property %s: %d root functions, %d functions expanded, %d paths, %d effects; %d obligations: %d discharged, %d refuted, %d undecided (%.1fs)' % (
        pid, len(ctx.roots), len(ctx.inlined), ctx.npaths, ctx.neffects, len(ctx.proved) + len(ctx.refuted) + len(ctx.unknown), len(ctx.proved), len(ctx.refuted), len(ctx.unknown), time.time() - t0))
    for n, d in ctx.rules:
        print('  rule %s: %s' % (n, ' '.join(d.split())))
    for r, c, m, w in ctx.unknown[:40]:
        print('  undecided [%s] %s: %s %s' % (r, c, m, w))
    for k, r, c, m, w, what in known:
        print('KNOWN-FINDING: property=%s %s (%s at %s)' % (pid, what or m, k, w))
    if not ctx.proved and not new:
        print('BROKEN property=%s: no obligation could be decided' % pid)
        return 2
    if new:
        rp = os.path.join(evd, pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump([{'key': k, 'rule': r, 'construct': c, 'why': m, 'where': w} for k, r, c, m, w, _ in new], f, indent=1)
        for k, r, c, m, w, _ in new:
            print('  refuted [%s] %s: %s at %s' % (r, c, m, w))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
