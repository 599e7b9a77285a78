#!/usr/bin/env python3
"""properties.yaml-like source -> properties.jsonl and MANIFEST.json. Edit tools/props.py, run this."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        for x in p['files']: assert os.path.exists('/repo/' + x), x
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe', [])}}) + '\n')
checks = []
for p in PROPS:
    if p.get('pending'): continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p.get('level', 'proof'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA] + [{'property': p['id'], 'reason': 'not built yet'} for p in PROPS if p.get('pending')],
     'notes': 'No hooks: contracts live in /verif/specs and are attached to the functions extracted from /repo on every run.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    for p in PROPS:
        e = V + '/evidence/%s.json' % p['id']
        if os.path.exists(e): jsonschema.validate(json.load(open(e)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
except ImportError: print('no jsonschema; use python3-vt')
print(len(PROPS), len(NA))
