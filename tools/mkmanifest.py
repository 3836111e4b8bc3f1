"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and sa/registry.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'sa')]
from props import PROPS, NOT_APPLICABLE
from registry import CHECKS
V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        fh.write(json.dumps(p) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 sa/run.py %s quick' % i,
            'thorough_cmd': 'python3 sa/run.py %s thorough' % i,
            'technique': c['technique'], 'level': 'other',
            'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE[i]})
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(0)"', 'checks': checks,
     'not_applicable': na,
     'notes': 'Pure static analysis of /repo/qiskit/ignis (sources are parsed, never imported or '
              'run); see DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
