"""Self test of the analyses (development only, no check runs it):  python3 dev/selftest.py [-v] [filter ...]
dev/edits_*.py define BAD = [(name, property, file, [(old, new), ...])]   edits that break a property: the check must report it
                    GOOD = [(name, file, [(old, new), ...])]             behaviour preserving rewrites: every check must stay quiet
"""
import concurrent.futures as cf
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def load():
    bad, good = [], []
    for p in sorted(glob.glob(os.path.join(ROOT, 'dev', 'edits_*.py'))):
        spec = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bad += getattr(m, 'BAD', [])
        good += getattr(m, 'GOOD', [])
    return bad, good


def props():
    return sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(ROOT, 'sa', 'rules', 'C[0-9][0-9].py')))


def make(edits_by_file):
    d = tempfile.mkdtemp(prefix='mut')
    shutil.copytree('/repo/nion', os.path.join(d, 'nion'), ignore=shutil.ignore_patterns('test', '__pycache__'))
    for f, eds in edits_by_file:
        p = os.path.join(d, 'nion', 'utils', f)
        s = open(p).read()
        for e in eds:
            o, n = e[0], e[1]
            k = e[2] if len(e) > 2 else 1
            if k == 'all':
                if o not in s:
                    raise ValueError('edit does not apply: %r' % o)
                s = s.replace(o, n)
                continue
            if s.count(o) < k or (len(e) <= 2 and s.count(o) != 1):
                raise ValueError('edit applies %d times: %r' % (s.count(o), o))
            i = -1
            for _ in range(k):
                i = s.index(o, i + 1)
            s = s[:i] + n + s[i + len(o):]
        compile(s, p, 'exec')
        open(p, 'w').write(s)
    return d


# modules whose functions each check expands (a rewrite elsewhere cannot change its answer)
DEPS = {
 'C01': ['Event'],
 'C02': ['Event'],
 'C03': ['Event', 'Model', 'Observable', 'Process', 'ThreadPool'],
 'C04': ['Event', 'ListModel', 'Observable', 'Process', 'Promise', 'ReferenceCounting', 'Stream', 'ThreadPool'],
 'C05': ['ListModel', 'Model', 'Observable', 'StructuredModel'],
 'C06': ['ListModel', 'Observable', 'StructuredModel'],
 'C07': ['ListModel', 'Observable'],
 'C08': ['ListModel', 'Observable', 'Selection'],
 'C09': ['Selection'],
 'C10': ['ListModel', 'Observable'],
 'C11': ['ListModel'],
 'C12': ['Model', 'Observable', 'ReferenceCounting', 'Stream'],
 'C13': ['Binding'],
 'C14': ['Binding', 'ListModel', 'Model', 'Observable', 'Recorder', 'Stream', 'StructuredModel'],
 'C15': ['Stream'],
 'C16': ['ReferenceCounting'],
 'C17': ['Promise'],
 'C18': ['Persistence'],
 'C19': ['Persistence'],
 'C20': ['Persistence'],
 'C21': ['Registry'],
 'C22': ['ListModel', 'Model', 'Observable', 'StructuredModel'],
 'C23': ['Process', 'ThreadPool'],
 'C24': ['Geometry'],
 'C25': ['Converter', 'Validator'],
 'C26': ['Recorder'],
 'C27': ['ListModel', 'Observable'],
 'C29': ['Stream', 'Event', 'ReferenceCounting'],
 'C31': ['Process'],
}


RUN = """
import sys, os, warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
sys.path.insert(0, %r)
from sa import check
rc = 0
for pid in sys.argv[2:]:
    try:
        ctx = check.run_property(pid, sys.argv[1])
    except check.Broken as e:
        print('BROKEN', pid, e); continue
    keys = {k for p, k, w in check.load_findings() if p == pid}
    new = [r for r in ctx.refuted if '%%s|%%s' %% (r[0], check.slug(r[1])) not in keys]
    print(pid, 'refuted', len(new), 'proved', len(ctx.proved), 'unknown', len(ctx.unknown))
    for r in new[:3]: print('   ', r)
    if os.environ.get('V'):
        for r in ctx.unknown[:6]: print('   ?', r)
""" % ROOT


def run(job):
    kind, name, pids, edits = job
    try:
        d = make(edits)
    except Exception as e:
        return job, 'EDIT-ERROR %s' % e, ''
    try:
        r = subprocess.run([sys.executable, '-c', RUN, d] + pids, capture_output=True, text=True)
        return job, r.stdout, r.stderr
    finally:
        shutil.rmtree(d)


def main():
    args = [a for a in sys.argv[1:] if a != '-v']
    v = '-v' in sys.argv
    if v:
        os.environ['V'] = '1'
    bad, good = load()
    jobs = []
    ps = props()
    for b in bad:
        name, pid, f, eds = b
        if args and not any(a == pid or a in name for a in args):
            continue
        if pid not in ps:
            continue
        jobs.append(('bad', name, [pid], [(f, eds)]))
    for g in good:
        name, f, eds = g
        want = [a for a in args if a in ps]
        if args and not want and not any(a in name or a == 'good' for a in args):
            continue
        jobs.append(('good', name, want or [p for p in ps if p not in DEPS or f[:-3] in DEPS[p]] or ps[:1], [(f, eds)]))
    miss = fa = err = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for job, out, errs in ex.map(run, jobs):
            kind, name, pids, _ = job
            if out.startswith('EDIT-ERROR') or not out.strip():
                err += 1
                print('ERROR', kind, name, out[:300], errs[-400:])
                continue
            n = sum(int(l.split()[2]) for l in out.splitlines() if l.startswith('C') and l.split()[1] == 'refuted')
            br = 'BROKEN' in out or 'Traceback' in errs
            if kind == 'bad' and n == 0:
                miss += 1
                print('MISSED', name, pids)
                if v:
                    print(out)
            elif kind == 'good' and (n or br):
                fa += 1
                print('FALSE ALARM', name)
                print(out if v else '\n'.join(l for l in out.splitlines() if 'refuted 0' not in l), errs[-300:])
            elif v and kind == 'bad':
                print('caught', name, [l for l in out.splitlines() if l.startswith('   ')][:1])
    print('%d jobs, %d missed, %d false alarms, %d errors' % (len(jobs), miss, fa, err))


if __name__ == '__main__':
    main()
