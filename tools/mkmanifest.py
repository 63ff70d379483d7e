#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
from config import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level=c.get('level', 'exploration'), level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'No check yet: the harness for this part is still being built.')))
m = dict(version=1, setup_cmd='python3 tools/selftest.py', checks=checks, not_applicable=na,
         notes='Every check builds its harnesses and the sources it needs from the working tree of /repo into /verif/.build (git-ignored) and runs them; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
