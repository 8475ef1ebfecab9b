"""Regenerates MANIFEST.json from sim/meta.py and properties.jsonl (run by hand after a property is added)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from meta import COVERS  # noqa: E402

V = os.path.dirname(HERE)
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in COVERS:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    m = COVERS[i]
    checks.append({
        'property': i, 'quick_cmd': f'bash check {i} quick', 'thorough_cmd': f'bash check {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'deterministic simulation with fault injection: seeded search over ' + m['search'],
        'level': m['level'],
        'level_note': f'{m["runs"]["quick"]} (quick) or {m["runs"]["thorough"]} (thorough) seeded runs. ' + m['rule'].split(' Non-trivial')[0]
                      + ' Shows that the property held on every execution explored, not on all; trusts the reference codec and the seams (sim/seams.py), '
                      'and takes process death, not power loss, as the crash.',
    })
man = {'version': 1, 'setup_cmd': 'bash check setup', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: every source of nondeterminism is replaced from outside (sim/seams.py) before ccnpy is imported.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
