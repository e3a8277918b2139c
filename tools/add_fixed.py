#!/usr/bin/env python3
"""tools/add_fixed.py PROPERTY COMMIT 'what failed': record a repaired defect"""
import json, sys
p = '/verif/known_findings.json'; d = json.load(open(p)); L = d['findings'] if isinstance(d, dict) else d
i = 'F%02d' % (max(int(x['id'][1:]) for x in L) + 1)
pr, c, w = sys.argv[1:4]; e = {'id': i, 'property': pr, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (pr, c, w)}
for k in L[0]:
    if k not in e: e[k] = c if k == 'commit' else ''
L.append(e); json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
