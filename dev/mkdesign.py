"""DESIGN.md = dev/design_head.md + one section per property (statement, method, rules, seeds) + dev/design_tail.md"""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dev import techniques
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
seeds = {}
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
NOTES = {}
exec(open(os.path.join(ROOT, 'dev', 'design_notes.py')).read())
out = open(os.path.join(ROOT, 'dev', 'design_head.md')).read().rstrip() + '\n\n## Properties\n'
for p in props:
    i = p['id']
    out += '\n### %s %s\n\n' % (i, p['title'])
    out += p['statement'] + '\n\n'
    if i in na:
        out += '**Not applicable.** %s.\n' % na[i][0].upper().__add__(na[i][1:].rstrip('.'))
        continue
    out += '*Method:* %s.\n\n*Obligations:*\n\n' % techniques.TECH[i]
    mod = importlib.import_module('sa.rules.' + i)
    for r in mod.RULES:
        out += '- `%s`: %s\n' % (r.__name__, ' '.join((r.__doc__ or '').split()))
    if i in NOTES:
        out += '\n*Bounds and what is left out:* %s\n' % NOTES[i]
    if i in seeds:
        out += '\n*Planted bugs (all caught by this check):* ' + '; '.join('`%s` (%s)' % (n, d['what_it_breaks'].strip().rstrip('.')) for n, d in seeds[i]) + '.\n'
fixes = [l.split(' ', 3) for l in open(os.path.join(ROOT, 'known_findings.txt')) if l.startswith('fixed:')]
out += '\n' + open(os.path.join(ROOT, 'dev', 'design_tail.md')).read().replace('FIXES', '\n'.join('- %s (`%s`): %s' % (a[1].split('=')[1], a[2], a[3].strip()) for a in fixes))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(out)
print(len(out))
