#!/usr/bin/env python3
"""DESIGN.md from design/*.md, design/how.py, properties.jsonl, harness headers, seeds and known_findings.json."""
import json, glob, re, os
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
exec(open(V + '/design/how.py').read())
NA = {}
exec(open(V + '/tools/not_applicable.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = {c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']}
ent, har, src = {}, {}, {}
for f in sorted(glob.glob(V + '/harness/*.cpp')):
    t = open(f).read(); d = {}
    for m in re.finditer(r'^//@(\w+) *(.*)$', t, re.M): d.setdefault(m.group(1), []).append(m.group(2))
    for p in [x for l in d.get('property', []) for x in l.split()]:
        har.setdefault(p, []).append(os.path.basename(f))
        src.setdefault(p, []).extend(x for l in d.get('src', []) for x in l.split())
        ent.setdefault(p, []).extend(e for e in d.get('entry', []) if not re.search(r'\bprop=', e) or 'prop=' + p in e)
COST = json.load(open(V + '/design/cost.json')) if os.path.exists(V + '/design/cost.json') else {}
o = [open(V + '/design/head.md').read()]
o.append('## Properties and how each is decided\n\nOracle: what the assertion compares; reach: why tests cannot settle it / what is replaced; bounds: per entry. '
         'Cost: quick tier wall time on 8 cores.\n')
for p in props:
    i = p['id']; o.append('### %s %s\n' % (i, p['title']))
    if i not in man: o.append('Not applicable: %s\n' % NA.get(i, 'no check built')); continue
    h = HOW[i]; o.append('* Oracle: %s.\n* Reach: %s.' % h)
    o.append('* Harness: %s; real sources besides headers: %s.' % (', '.join(har[i]), ', '.join('`%s`' % s.replace('src/jogasaki/', '') for s in dict.fromkeys(src[i])) or 'none (header-only code)'))
    if i in COST: o.append('* Cost: %s' % COST[i])
    o.append('* Bounds:')
    for e in ent[i]:
        n, _, b = e.partition('|'); o.append('  * `%s`: %s' % (n.split()[0], b.strip()))
    o.append('')
if os.path.exists(V + '/design/na.md'): o.append(open(V + '/design/na.md').read())
o.append('## Seeded bugs\n\nEach one compiles, passes the existing tests and has a demonstration. `tools/seed.py run ID` repeats the validation.\n')
o.append('| id | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); o.append('| %s | %s | %s | check %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '\\|'), m['property']))
o.append('\n## Findings\n\nGenuine defects of the original tree found by the checks (a `fix:` commit in /repo each; nothing is left unrepaired in known_findings.json).\n')
for k in json.load(open(V + '/known_findings.json')): o.append('* %s: %s' % (k['id'], k['what']))
o.append('\n' + open(V + '/design/tail.md').read() if os.path.exists(V + '/design/tail.md') else '')
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n'); print('DESIGN.md', len('\n'.join(o)))
