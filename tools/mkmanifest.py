#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 tools/fxcheck.py %s --tier quick' % i, thorough_cmd='python3 tools/fxcheck.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the LLVM bitcode of the current sources; every branch and assertion decided by z3; counterexamples replayed in a native build',
            level='model_checking', level_note=c.get('note', 'Within the bounds listed per harness in the evidence.' + (' Outside: ' + c['outside'] if c.get('outside') else ''))))
    else: na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 tools/fxbuild.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
