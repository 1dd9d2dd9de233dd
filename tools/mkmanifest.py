"""Writes MANIFEST.json from the check modules that exist."""
import ast, json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
NA = {}
for i in ids:
    f = os.path.join(H, 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
        continue
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in ast.parse(open(f).read()).body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) in ('RULE', 'BOUNDS', 'ASSUME', 'TECH')}
    checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i,
                       evidence_file='evidence/%s.json' % i,
                       technique=c.get('TECH', 'stateless model checking of the real code: exhaustive enumeration of its random decisions under a controlled generator'),
                       level='model_checking',
                       level_note='Explored: ' + c['RULE'] + '. Bounds: ' + c['BOUNDS']['quick'] + '. Assumes: ' + '; '.join(c['ASSUME'] or ['nothing beyond the bounds'])))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import numpy, scipy"', checks=checks, not_applicable=na,
               hooks=dict(guard='none', enable='no hooks: the checks drive the unmodified code through its generator argument', source_commits=[])),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
