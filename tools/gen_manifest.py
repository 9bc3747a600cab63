#!/usr/bin/env python3
"""Writes MANIFEST.json from the constants TECHNIQUE, LEVEL, NOTE of the check modules."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p.lower() + '.py')
    c = {}
    if os.path.exists(f):
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try: c[n.targets[0].id] = ast.literal_eval(n.value)
                except Exception: pass
    if 'TECHNIQUE' in c:
        checks.append(dict(property=p, quick_cmd='./check ' + p, thorough_cmd='VERIF_TIER=thorough ./check ' + p,
                           technique=c['TECHNIQUE'], level=c['LEVEL'], level_note=c['NOTE'],
                           evidence_file='evidence/%s.json' % p))
    else:
        na.append(dict(property=p, reason='no check has been built for it yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -m mc.build', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks replace multiprocessing, the random sources, the clock and os calls '
               'from outside. known_findings.json lists findings and repairs.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
