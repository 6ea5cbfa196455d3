#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and tools/checks.py."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from props import P
from checks import CHECKS, NOT_APPLICABLE
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
        for x in p['anchors']['files']: assert os.path.exists('/repo/' + x), x
checks, na = [], []
for p in P:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': c.get('technique', 'explicit-state / stateless model checking of the real code: exhaustive enumeration of bounded operation histories and inputs against a reference model'),
                       'level': 'model_checking', 'level_note': c.get('note', '')})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup_check.py',
           'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the harnesses compile the headers and sources of /repo as they are', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'Every check compiles its harness from /repo\'s current headers and enumerates executions of the real code; see DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
