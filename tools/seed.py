#!/usr/bin/env python3
"""seed.py run ID...: apply a planted bug to /repo, build, run stable tests, demo and the property's check, undo.
seed.py check ID...: only apply, run the check, undo.   (never leaves /repo changed)"""
import sys, os, json, subprocess as sp
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
def sh(c, **k): return sp.run(c, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, errors='replace', **k)
mode = sys.argv[1]
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
def build_test():
    r = sh('bash /opt/vp/test.sh /tmp/seed_t.json', cwd='/repo'); d = json.load(open('/tmp/seed_t.json')); st = json.load(open('/opt/vp/BASELINE.json'))['stable']; return [s for s in st if s not in d['passed']], r.stdout[-600:]
ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
base = {}
if mode == 'run':
    sh('bash /opt/vp/build.sh')
    for i in ids: base[i] = sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd='/repo', timeout=300)
for i in ids:
    d = V + '/seeded/' + i; m = json.load(open(d + '/meta.json')); out = []
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stdout); continue
    try:
        if mode == 'run':
            miss, tail = build_test(); dm = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            out.append('tests %s demo base=%d patched=%d' % ('ok' if not miss else 'FAIL %s %s' % (miss[:3], tail), base[i].returncode, dm.returncode))
            if base[i].returncode: out.append(base[i].stdout[-800:])
            if not dm.returncode: out.append(dm.stdout[-300:])
        import time; t = time.time()
        r = sh('python3 %s/check.py %s' % (V, m['property'])); v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % m['property'])]
        out.append('check %s rc=%d %s %.0fs' % (m['property'], r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', time.time() - t))
        if not (r.returncode == 1 and v): out.append(r.stdout[-1500:])
    finally: sh('git -C /repo checkout -- .')
    print(i, ' | '.join(out), flush=True)
if mode == 'run': sh('bash /opt/vp/build.sh')
