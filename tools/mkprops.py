#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (development helper)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from proptable import PROPS, SETUP
claimed, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = p['quant']
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': q[0], 'text': q[1]}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        if 'observe' in p:
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
        for x in p['files']:
            assert os.path.exists(os.path.join('/repo', x)), x
        if os.path.exists(os.path.join(HERE, 'harness/props', p['id'] + '.py')):
            claimed.append({'property': p['id'], 'quick_cmd': './check.sh %s --tier quick' % p['id'],
                            'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
                            'technique': 'property-based testing: ' + p['technique'], 'level': 'exploration',
                            'level_note': p.get('note', 'generated-input search against an explicit oracle; bounded '
                                                        'sizes, no proof of absence')})
        else:
            na.append({'property': p['id'], 'reason': p.get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': SETUP, 'checks': claimed, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(claimed), 'claimed', len(na), 'na')
