#!/usr/bin/env python3
"""check.py PROPERTY [--query NAME] | --replay FILE | --list"""
import json, os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import engine
from specs import PROPS


def main(a):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if a[0] == '--list':
        for p, s in sorted(PROPS.items()):
            print(p, s['title'], len(s['queries']))
        return 0
    if a[0] == '--replay':
        d = json.load(open(os.path.join(engine.VERIF, a[1]) if not os.path.exists(a[1]) else a[1]))
        q = next(q for q in PROPS[d['property']]['queries'] if q.name == d['query'])
        with tempfile.TemporaryDirectory() as w:
            engine.setup_gens([q], w)
            v, det, out = engine.replay_vals(q, d['values'], w, 'r')
        print(v, det)
        return 1 if v in ('fail', 'hang') else 0
    pid = a[0]
    spec = dict(PROPS[pid])
    for x in a[1:]:
        if x in ('--thorough', '--quick'):
            tier = x[2:]
    if '--query' in a:
        n = a[a.index('--query') + 1]
        spec['queries'] = [q for q in spec['queries'] if q.name.startswith(n)]
        for q in spec['queries']:
            q.tier = 'quick'
    return engine.run_property(pid, spec, tier)


sys.exit(main(sys.argv[1:]))
