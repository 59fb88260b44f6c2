#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/props.py and the specs that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tool')
from props import PROPS, NA  # noqa: E402

with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = []
na = []
for p in PROPS:
    i = p['id']
    if os.path.exists('%s/specs/%s.py' % (V, i.lower())) and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': p.get('technique', 'contracts on the extracted functions, verification conditions discharged by z3 and cvc5, counterexamples replayed on the compiled code'),
                       'level': p.get('level', 'proof'), 'level_note': p['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the functions are extracted from the working tree on every run. See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
