#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
import registry  # noqa: E402
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl')) if x.strip()]
ids = [p['id'] for p in props]
assert len(set(ids)) == len(ids)
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        checks.append({'property': i, 'quick_cmd': 'python3 checks/run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': registry.CHECKS[i][2], 'level': 'other',
                       'level_note': registry.NOTES.get(i, registry.DEFAULT_NOTE)})
    else:
        na.append({'property': i, 'reason': registry.NA[i]})
for i in registry.CHECKS:
    assert i in ids, i
m = {'version': 1, 'setup_cmd': 'sh tools/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks analyse LLVM IR compiled from the current sources of /repo; nothing of the repository is executed. No hooks are used.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
