#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/meta.py and lib/specs.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, '..', 'lib')]
import meta
from specs import PROPS
root = os.path.join(here, '..')
ids = [p['id'] for p in meta.ALL]
assert len(set(ids)) == len(ids)
assert all(p in ids for p in PROPS), [p for p in PROPS if p not in ids]
for p in meta.ALL:
    assert len(p['title']) <= 80, p['id']
    for w in p['anchors']['files']:
        assert os.path.exists('/repo/' + w), w
with open(root + '/properties.jsonl', 'w') as f:
    for p in meta.ALL:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in meta.ALL:
    i = p['id']
    if i in PROPS:
        s = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'technique': 'bounded symbolic execution of the real C code with cbmc and a SAT solver; counterexamples replayed natively',
                       'level': 'model_checking',
                       'level_note': 'Holds for all values within the bounds recorded per query in the evidence (%s). %s' % (
                           s.get('scope', 'sizes and operation sequences bounded'),
                           s.get('note', 'Trusts cbmc, its C semantics and the harness oracle; allocation never fails.'))})
    else:
        na.append({'property': i, 'reason': meta.NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --list', 'checks': checks, 'not_applicable': na,
           'notes': 'Known and fixed defects: known_findings.txt. No hooks are needed: harnesses include the sources directly, through transforms listed in DESIGN.md where needed.'},
          open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
