#!/usr/bin/env python3
"""design/cost.json from the evidence files of the last quick runs."""
import json, glob, os, re
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
f = V + '/design/cost.json'; c = json.load(open(f)) if os.path.exists(f) else {}
for e in sorted(glob.glob(V + '/evidence/*.json')):
    d = json.load(open(e))
    if d['tier'] == 'quick': c[d['property_id'] if 'property_id' in d else d['property']] = '%d s' % round(d['wall_s'])
json.dump(c, open(f, 'w'), indent=0, sort_keys=True); print(len(c))
