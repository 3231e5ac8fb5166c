#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
V = os.path.dirname(here)
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b}
                                      for a, b in p['mech']],
                        'observe_at': p['observe']}}) + '\n')
na = getattr(props, 'NA', {})
json.dump({
    'version': 1,
    'setup_cmd': 'python3 engine/selftest.py',
    'checks': [{'property': p['id'],
                'quick_cmd': 'python3 engine/run.py ' + p['id'],
                'thorough_cmd': 'python3 engine/run.py %s thorough' % p['id'],
                'technique': p['technique'], 'level': 'other',
                'level_note': p['note']}
               for p in props.P if p['id'] not in na],
    'not_applicable': [{'property': k, 'reason': v}
                       for k, v in sorted(na.items())],
}, open(V + '/MANIFEST.json', 'w'), indent=1)
