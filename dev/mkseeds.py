"""python3 dev/mkseeds.py [id ...]: (re)generate /verif/seeded from dev/seeds_*.py and confirm each one in a scratch copy
(applies to HEAD, builds, stable tests pass, demo 0 on the unchanged tree and non-zero with the patch), then run its check."""
import concurrent.futures as cf
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or []) if os.path.exists('/opt/vp/BASELINE.json') else set()


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(ROOT, 'dev', 'seeds_*.py'))):
        spec = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    return out


def blame_ok(patch_dir, f, old):
    """every removed line must be a line of the original commit"""
    d = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--', 'nion/utils/' + f], capture_output=True, text=True).stdout.splitlines()
    return d


def one(sd):
    sid, prop, f, edits, demo, needs, breaks = sd
    d = tempfile.mkdtemp(prefix='seed')
    try:
        w = os.path.join(d, 'repo')
        shutil.copytree('/repo', w)
        edits = edits if isinstance(f, (list, tuple)) else edits
        files = [(f, edits)] if isinstance(f, str) else list(zip(f, edits))
        for fn, eds in files:
            p = os.path.join(w, 'nion', 'utils', fn)
            s = open(p).read()
            for e in eds:
                if s.count(e[0]) != 1:
                    return sid, 'edit applies %d times: %r' % (s.count(e[0]), e[0])
                s = s.replace(e[0], e[1])
            open(p, 'w').write(s)
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        # removed lines must be original
        for fn, eds in files:
            bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--', 'nion/utils/' + fn], capture_output=True, text=True).stdout.splitlines()
            base = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--reverse'], capture_output=True, text=True).stdout.split()[0]
            hl = subprocess.run(['git', '-C', w, 'diff', '-U0', '--', 'nion/utils/' + fn], capture_output=True, text=True).stdout
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', hl, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    if base[:7] not in bl[i - 1].split()[0]:
                        return sid, 'touches a fixed line: %s' % bl[i - 1]
        out = os.path.join(ROOT, 'seeded', sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r0 = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
        r1 = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=w, capture_output=True, text=True)
        env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'nion'], cwd=w, capture_output=True, text=True, env=env)
        tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else '?'
        c = subprocess.run([sys.executable, '-m', 'sa.check', prop], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, SA_NOEVIDENCE='1'))
        caught = 'CAUGHT' if c.returncode == 1 else 'missed(%d)' % c.returncode
        why = [l for l in c.stdout.splitlines() if 'refuted [' in l][:1]
        good = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        return sid, '%s %s clean=%d patched=%d tests=%s %s' % ('OK ' if good else 'BAD', caught, r0.returncode, r1.returncode, tests, (why[0].strip()[:140] if why else '')) + ('' if good else '\n' + r0.stderr[-600:] + t.stdout[-600:])
    finally:
        shutil.rmtree(d)


def main():
    flt = sys.argv[1:]
    seeds = [s for s in load() if not flt or any(x == s[0] or x == s[1] for x in flt)]
    with cf.ThreadPoolExecutor(8) as ex:
        for sid, msg in ex.map(one, seeds):
            print(sid, msg, flush=True)


main()
