#!/usr/bin/env python3
"""Write MANIFEST.json from lib/props.py and the list of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = props.NOT_APPLICABLE
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.CHECKS:
        fn, level, note = props.CHECKS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough',
            'technique': props.TECHNIQUE[i], 'level': level, 'level_note': note + ' ' + props.TRUST.get(i, props.TRUST_DEFAULT)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
