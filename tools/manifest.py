"""regenerate MANIFEST.json from properties.jsonl and the check modules present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = json.load(open(V + '/tools/not_applicable.json'))
checks = []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)['id']
    if any(x['property'] == p for x in na):
        continue
    assert os.path.exists('%s/checks/%s.py' % (V, p.lower())), p
    src = open('%s/checks/%s.py' % (V, p.lower())).read()
    import ast
    b = {t.targets[0].id: ast.literal_eval(t.value) for t in ast.parse(src).body if isinstance(t, ast.Assign) and isinstance(t.targets[0], ast.Name) and t.targets[0].id in ('BOUNDS', 'OUTSIDE')}
    checks.append(dict(property=p, quick_cmd='./check.sh ' + p, thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p, level='model_checking',
                       technique='bounded symbolic execution of the real Python functions with Z3 (all inputs within bounds; counterexamples replayed on the unmodified code)',
                       level_note='Bounds: %s. Outside: %s. Real arithmetic stands for float64.' % (b['BOUNDS'], b['OUTSIDE'])))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Run tools/manifest.py after changing properties.jsonl or the bounds of a check. VSX_STRICT=1 makes undecided tasks errors (development).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
