#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
import specs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'level': 'model_checking',
            'technique': 'symbolic execution of the LLVM bitcode of the current sources; every assertion decided for all inputs within the bounds by an algebraic normal form or by z3; counterexamples replayed natively',
            'level_note': 'Bounds: %s Outside: %s' % (s['bounds'], s.get('outside', ''))})
    else: na.append({'property': i, 'reason': specs.NA.get(i, 'no check has been built for this property yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
