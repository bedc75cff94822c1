#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/lib')
import registry
NA = {}
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    c = registry.CHECKS.get(i)
    if c:
        m['checks'].append({'property': i, 'quick_cmd': '/opt/venv/bin/python checks/check.py %s quick' % i, 'thorough_cmd': '/opt/venv/bin/python checks/check.py %s thorough' % i,
                            'technique': c['technique'], 'level': 'other', 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m['notes'] = 'Static analysis only: nothing of PyWavelets is built or executed by the checks. Genuine defects found and repaired are listed in known_findings.json.'
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
