#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (the single place where they are edited)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the LLVM IR of the real sources (own VC generator, z3), counterexamples replayed natively'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA: continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt vc/check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt vc/check.py %s --tier thorough' % p['id'],
        technique=TECH, level='proof', level_note=p['note']))
m = dict(version=1, setup_cmd='python3-vt vc/setup.py', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='Contracts are the C++ files in contracts/; vc/ is the verifier.  See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
