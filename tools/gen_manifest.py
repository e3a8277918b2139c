#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl, the harness headers and the reasons below."""
import json, glob, re, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
units = {}
for f in sorted(glob.glob(V + '/harness/*.cpp')):
    t = open(f).read(); ps = []; es = []
    for m in re.finditer(r'^//@(\w+) *(.*)$', t, re.M):
        if m.group(1) == 'property': ps += m.group(2).split()
        if m.group(1) == 'entry': es.append(m.group(2))
    for p in ps: units.setdefault(p, []).extend(e for e in es if not re.search(r'\bprop=', e) or 'prop=' + p in e)
NA = {}
exec(open(V + '/tools/not_applicable.py').read())
checks = []; na = []
for p in props:
    i = p['id']
    if i in units and i not in NA:
        b = '; '.join(e.split()[0] + ': ' + e.split('|', 1)[1].strip() for e in units[i] if '|' in e)
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i + ' --tier quick', thorough_cmd='python3 check.py ' + i + ' --tier thorough',
            evidence_file='evidence/%s.json' % i, technique='symbolic execution of the LLVM IR of the real code, SMT (Z3) verdicts, native replay of counterexamples', level='model_checking',
            level_note='Solver verdict over all values within these bounds, nothing outside them: ' + b))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='make -s -j8 -C engine OUT=../build/engine', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
