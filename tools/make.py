#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py"""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props

lines = []
checks = []
na = []
for p in props.PROPS:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    lines.append(json.dumps(dict(
        id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['quant']),
        why_tests_cant=p['why'],
        anchors=dict(files=p['files'], state=[dict(name=n, meaning=m, where=w) for n, m, w in p['state']],
                     mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                     observe_at=p['observe'], hook_needed=None))))
    if os.path.exists(os.path.join(root, 'mc', p['id'].lower() + '.py')):
        checks.append(dict(property=p['id'],
                           quick_cmd='./run.sh {} --tier quick'.format(p['id']),
                           thorough_cmd='./run.sh {} --tier thorough'.format(p['id']),
                           evidence_file='evidence/{}.json'.format(p['id']),
                           technique=p['technique'], level='model_checking', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=getattr(props, 'NA', {}).get(p['id'], 'no check has been built for it yet')))
open(os.path.join(root, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='Each check enumerates bounded spaces of inputs / operation histories completely and executes every member on the code in /repo; see DESIGN.md. No hooks in /repo are needed.'),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties,', len(checks), 'checks')
