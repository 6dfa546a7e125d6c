#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from checks/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
from props import PROPS, NA
props = dict(PROPS); props.update({p['id']: p for p in NA})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for i in sorted(props):
        p = props[i]
        assert len(p['title']) <= 80, (i, len(p['title']))
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['tests'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
for i in sorted(PROPS):
    p = PROPS[i]
    m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py ' + i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
        'technique': p['technique'], 'level': p['level'], 'level_note': p.get('note') or p['rule']})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
