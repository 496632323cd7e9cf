#!/usr/bin/env python3
"""writes DESIGN.md; usage: MC_REPO=... design.py [evidence directory ...] (needs the python that runs the checks)"""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, root, os.environ.get('MC_REPO', '/repo')]
import design_text
import props

cost = {}
path = os.path.join(here, 'cost.json')
if os.path.exists(path):
    cost = json.load(open(path))
for d in sys.argv[1:]:
    for f in glob.glob(os.path.join(d, 'C*.json')):
        e = json.load(open(f))
        c = e['coverage']
        cost.setdefault(e['property'], {})[e['tier']] = [
            c['states'], c['transitions'], c['traces_validated_against_impl'], round(e['wall_s'])]
json.dump(cost, open(path, 'w'), indent=1, sort_keys=True)

out = [design_text.HEAD, '## The properties\n']
for p in props.PROPS:
    m = importlib.import_module('mc.' + p['id'].lower())
    out.append('### {} {}\n'.format(p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('*For* {}. *Anchored in* {}.\n'.format(p['quant'], ', '.join('`{}`'.format(f) for f in p['files'])))
    out.append('*Tests cannot settle it:* {}.\n'.format(p['why'].rstrip('.')))
    out.append('*Decided by* {}.\n'.format(p['technique']))
    out.append(design_text.NOTES[p['id']] + '\n')
    out.append('Spaces (in parentheses: thorough tier):\n')
    for s in m.SPACES:
        out.append('* `{}`: {}'.format(s.name, s.bound or '-'))
    out.append('')
    out.append('Assumed: {}.\n'.format('; '.join(getattr(m, 'ASSUMPTIONS', []) or ['nothing'])))
    for tier in 'quick', 'thorough':
        if tier in cost.get(p['id'], {}):
            s, t, c, w = cost[p['id']][tier]
            out.append('Cost ({}): {:,} states, {:,} transitions, {:,} comparisons with the reference, {} s on 8 cores.\n'.format(tier, s, t, c, w))
out.append(design_text.TAIL)
out.append('## Planted bugs\n')
out.append('Each is a change to the original code that passes the stable tests (`tools/plant.sh ID` verifies that, the demonstration and '
           'the check); "missed at first" means that the check was strengthened by it.\n')
caught = json.load(open(os.path.join(here, 'caught.json')))
out.append('| bug | breaks | needs | caught by |')
out.append('|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    j = json.load(open(f))
    out.append('| `{}` | {} | {} | {} |'.format(os.path.basename(os.path.dirname(f)), j['what_it_breaks'], j['needs'],
                                          caught.get(os.path.basename(os.path.dirname(f)), j['property'])))
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
