"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.PROPS:
        note = registry.NOTES.get(i, '')
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=registry.TECH.get(i, registry.TECHNIQUE),
                           level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
