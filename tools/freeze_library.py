"""Freeze the published analysis library and default configs (run once)."""
import json
import os
import sys

import yaml

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'
OUT = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'data', 'library.json')


def clean(g):
    return {str(k): clean(v) if isinstance(v, dict) else v
            for k, v in g.items()}


def spec(path):
    out = {'vars': None, 'files': {}, 'dirs': {}}
    for n in sorted(os.listdir(path)):
        p = os.path.join(path, n)
        if os.path.isdir(p):
            out['dirs'][n] = spec(p)
        elif n.endswith(('.yaml', '.yml', '.json')):
            stem, ext = os.path.splitext(n)
            data = clean(yaml.safe_load(open(p)))
            if stem == 'variables':
                out['vars'] = data
            else:
                out['files'][stem] = [ext, data]
    return out


cfgs = {}
base = os.path.join(REPO, 'NRWAL', 'default_configs')
for d, _, fns in sorted(os.walk(base)):
    for fn in sorted(fns):
        if fn.endswith(('.yaml', '.yml')):
            fp = os.path.join(d, fn)
            cfgs[os.path.relpath(fp, base)] = yaml.safe_load(open(fp))
os.makedirs(os.path.dirname(OUT), exist_ok=True)
with open(OUT, 'w') as f:
    json.dump({'library': spec(os.path.join(REPO, 'NRWAL',
                                            'analysis_library')),
               'configs': cfgs}, f, indent=0, sort_keys=False)
