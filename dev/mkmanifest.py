import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
have = {os.path.basename(p)[:-3] for p in glob.glob(os.path.join(ROOT, 'sa', 'rules', 'C[0-9][0-9].py'))}
TECH = {
 'default': 'path-sensitive interprocedural effect analysis of the syntax tree',
}
import importlib.util
spec = importlib.util.spec_from_file_location('t', os.path.join(ROOT, 'dev', 'techniques.py'))
t = importlib.util.module_from_spec(spec); spec.loader.exec_module(t)
NA = {
 'C28': 'numeric property of floating point rounding (round, log10, powers) over a continuous range; value numbers cannot bound it',
 'C30': 'depends on the rounding of decimal formatting and parsing of floating point values and on locale data at run time; the text round trip is not expressible in terms of the source alone (the structural half, same format and factors in both directions, is C25)',
}
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 9)"', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in have:
        cmd = 'python3 -m sa.check %s' % i
        m['checks'].append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': 'env VERIF_TIER=thorough ' + cmd, 'technique': t.TECH.get(i, TECH['default']), 'level': 'other',
            'level_note': t.NOTE.get(i, 'static: every control-flow path of the anchored functions with everything they call expanded, loops as one generic iteration; obligations the analysis cannot decide are listed in the evidence and raise no alarm')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'rule under construction')})
m['notes'] = 'All checks are pure static analysis of /repo/nion/utils with the Python standard library (ast); nothing of the repository is imported or executed. See DESIGN.md.'
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
