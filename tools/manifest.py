"""writes /verif/MANIFEST.json from the list of implemented checks"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.ABOUT:
        tech, note = registry.ABOUT[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique=tech, level='model_checking', level_note=note, evidence_file='evidence/%s.json' % i))
    else:
        na.append(dict(property=i, reason=registry.NOT.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC and bound to the code by replayed specification behaviours and validated traces; see DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
