#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, missing = [], []
for i in ids:
    p = os.path.join(V, 'rv/props', i.lower() + '.py')
    if not os.path.exists(p):
        missing.append(i)
        continue
    g = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                g[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        'property': i,
        'quick_cmd': 'bin/check %s --tier quick' % i,
        'thorough_cmd': 'bin/check %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': g.get('TECHNIQUE', 'runtime monitoring: generated workloads on the real code, judged by an independent reference model'),
        'level': g['LEVEL'],
        'level_note': g['RULE'],
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in missing],
     'notes': 'bin/check ID --replay FILE repeats a recorded violation; see DESIGN.md. '
              'Known findings and fixed defects: known_findings.json.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks; missing', missing)
