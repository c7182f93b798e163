"""Writes MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B run.py '
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
NOTE = ('Runs the real code of /repo on generated hostile workloads; holds for '
        'every execution observed, no claim beyond. Trusts the reference model '
        'in nrwalv/ (written from the documentation, uses only the public '
        'API), the Python interpreter, numpy, pandas and PyYAML. ')
props = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))
         if x.strip()]
checks, na = [], []
for p in props:
    if p in TECH and os.path.exists(os.path.join(V, 'nrwalv',
                                                 p.lower() + '.py')):
        checks.append({
            'property': p,
            'quick_cmd': PY + p + ' --tier quick',
            'thorough_cmd': PY + p + ' --tier thorough',
            'evidence_file': 'evidence/{}.json'.format(p),
            'technique': TECH[p][0],
            'level': 'exploration',
            'level_note': NOTE + TECH[p][1]})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -B run.py --selftest',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all monitors sit at the public API.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
