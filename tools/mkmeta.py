#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single source of the property texts)."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS, NA
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
m = {'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'No hooks: the checks read /repo as it is. Known findings and repaired defects: known_findings.txt.'}
for p in PROPS:
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
        'technique': p.get('technique', 'contract-based deductive verification of the real Python code (pyvc VC generator over the repository source, z3 back end)'),
        'level': p.get('level', 'proof'), 'level_note': p['note']})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'claimed', len(NA), 'n/a')
