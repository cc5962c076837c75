#!/usr/bin/env python3
"""Records evaluations and wall time of the last runs (evidence/) in tools/costs.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, 'tools', 'costs.json')
c = json.load(open(f)) if os.path.exists(f) else {}
for e in glob.glob(os.path.join(V, 'evidence', '*.json')):
    d = json.load(open(e))
    c.setdefault(d['property'], {})[d['tier']] = [d['coverage']['evaluations'], d['wall_s']]
json.dump(c, open(f, 'w'), indent=0, sort_keys=True)
