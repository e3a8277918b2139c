#!/usr/bin/env python3
"""mkseed.py: reads a python literal dict on stdin: id, property, needs, breaks, edits=[(file, old, new)], demo (C++ body), flags, srcs"""
import sys, os, json, subprocess as sp, ast
R = os.environ.get('SEED_REPO', '/repo')
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
d = eval(sys.stdin.read())
p = V + '/seeded/' + d['id']; os.makedirs(p, exist_ok=True)
for f, o, n in d['edits']:
    t = open(R + '/' + f).read(); assert t.count(o) >= 1, (f, o); assert d.get('multi') or t.count(o) == 1, ('ambiguous', t.count(o), o)
    open(R + '/' + f, 'w').write(t.replace(o, n))
diff = sp.run(['git', '-C', R, 'diff'], stdout=sp.PIPE, text=True).stdout
sp.run(['git', '-C', R, 'checkout', '--', '.'])
open(p + '/patch.diff', 'w').write(diff)
json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(p + '/meta.json', 'w'), indent=1)
open(p + '/demo.cpp', 'w').write(d['demo'].lstrip())
inc = d.get('inc', '')
open(p + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -O1 -w %s -DBOOST_THREAD_VERSION=4 %s -I"$R/include" -I"$R/src" "$D/demo.cpp" %s -o "$T/demo" %s || { echo "demo does not build"; exit 0; }
cd "$T" && timeout 120 ./demo
''' % (d.get('flags', '-fsanitize=address'), inc, ' '.join('"$R/%s"' % s for s in d.get('srcs', [])), d.get('libs', '-lglog -lpthread')))
print(p)
