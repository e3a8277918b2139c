#!/usr/bin/env python3
"""environment: MUT_PROPS=ID,.. MUT_ARGS=extra arguments of check.py
mutate.py map                       write /tmp/mutmap.json: repository file -> properties whose checks compile it
mutate.py run OUT.jsonl PERFILE FILE... mutate each FILE (in a scratch copy) and run the checks of its properties
Works on /tmp/mutsys (copy of /repo's sources); never touches /repo."""
import sys, os, re, json, random, subprocess as sp, glob, shutil, time
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..')); sys.path.insert(0, V)
R = '/tmp/mutsys'; MAP = '/tmp/mutmap.json'
def run(c, t=900, **k):
    try: return sp.run(c, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, errors='replace', timeout=t, **k)
    except sp.TimeoutExpired: return sp.CompletedProcess(c, -9, stdout='timeout')
if sys.argv[1] == 'map':
    import check
    m = {}
    for h in sorted(glob.glob(V + '/harness/c*.cpp')):
        u = check.Unit(h)
        if not u.entries: continue
        w = '/tmp/mutmapwork'; os.makedirs(w, exist_ok=True)
        if u.protoenum: check.gen_protoenum(u, w)
        if u.proto:
            u.gen = w + '/gen'; d = set()
            for x in u.proto: check.protogen.generate('/usr/include' if x.startswith('google/') else os.path.join(check.REPO, 'src'), x, u.gen, d)
        props = sorted(set(u.props) | {e['prop'] for e in u.entries if 'prop' in e})
        for f in [h] + u.src:
            p = f if os.path.isabs(f) else (os.path.join(V, f) if f.startswith(('harness/', 'stubs')) else os.path.join(check.REPO, f))
            o = run(['clang++', '-M'] + [a for a in check.SYMF if a not in ('-c', '-emit-llvm')] + u.flags + u.incs(True) + [p]).stdout
            for t in o.replace('\\\n', ' ').split():
                t = os.path.normpath(t)
                if t.startswith('/repo/'): m.setdefault(t[6:], {}); [m[t[6:]].setdefault(x, []).append(u.name) for x in props if u.name not in m[t[6:]].get(x, [])]
    json.dump(m, open(MAP, 'w'), indent=1); print(len(m)); sys.exit()
OPS = [(r'(?<![<>=!])<(?![<=>])(?=\s)', '<='), (r'(?<![->=])>(?![>=])(?=\s)', '>='), (r'<=', '<'), (r'(?<!-)>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=\s)\+(?=\s)', '-'), (r'(?<=[\w)\]]\s)-(?=\s)', '+'), (r'\+\+', '--'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bif\s*\(\s*!\s*', 'if ('), (r'\bif\s*\((?!\s*!|\s*auto|\s*constexpr)', 'if (! '), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])0x[0-9a-fA-F]+[uU]?\b', None), (r'<<=?(?=\s*\(?\d)', '>>'), (r'(?<=\s)&(?=\s)', '|'), (r'(?<=\s)\|(?=\s)', '&'), (r'(?<=\s)/(?=\s)', '*'), (r'\*(?=\s)', '/'), (r'\bcontinue\b', 'break'), (r'\bbreak;', ';'), (r'nullptr', None), (r'std::min', 'std::max'), (r'std::max', 'std::min'), (r'lower', 'upper'), (r'front', 'back'), (r'\bnotify_all', 'notify_one'), (r'notify_one', 'notify_all')]
def mutants(text):
    out = []; pos = 0; com = False
    for ln, l in enumerate(text.split('\n')):
        s = l.strip(); start = pos; pos += len(l) + 1
        if com:
            if '*/' in s: com = False
            continue
        if s.startswith('/*'): com = '*/' not in s; continue
        if not s or s.startswith(('//', '#', '*', 'using ', 'namespace', 'template', '[[nodiscard]]', 'static_assert')) or 'LOG' in s: continue
        code = l.split('//')[0]
        for rx, new in OPS:
            if '<<' in code and rx.startswith(('(?<![<>=!])<', r'<<=')) and 'out' in code: continue
            for m in re.finditer(rx, code):
                n = new
                if n is None:
                    if m.group(0).startswith('0x'): v = m.group(0).rstrip('uU'); n = '0x%x%s' % (int(v, 16) ^ 1, m.group(0)[len(v):])
                    else: continue
                out.append((ln + 1, start + m.start(), start + m.end(), n))
        if re.match(r'^\s+[\w:>.\-*\[\]()]+(\(.*\)|\s*[-+|&]?=[^=].*|\+\+|--);\s*$', code) and not s.startswith(('return', 'auto', 'const', 'static', 'std::size_t', 'explicit', 'virtual', 'delete')): out.append((ln + 1, start + len(l) - len(l.lstrip()), start + len(code.rstrip()), ';'))
    return out
m = json.load(open(MAP)); outf, per = sys.argv[2], int(sys.argv[3])
if not os.path.exists(R):
    os.makedirs(R)
    for d in ('src', 'include', 'mock', 'third_party'): sp.run(['cp', '-a', '/repo/' + d, R + '/'])
props = {json.loads(l)['id']: json.loads(l) for l in open(V + '/properties.jsonl')}
done = set()
if os.path.exists(outf): done = {(d['file'], d['line'], d['col'], d['new']) for d in map(json.loads, open(outf))}
env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD='/tmp/mutsysbuild')
for f in sys.argv[4:]:
    orig = open('/repo/' + f).read(); open(R + '/' + f, 'w').write(orig); ms = mutants(orig); random.Random(f).shuffle(ms); k = 0
    cand = m.get(f, {})
    if os.environ.get('MUT_PROPS'): cand = {x: [] for x in os.environ['MUT_PROPS'].split(',')}
    if not cand: print(f, 'NOT COMPILED BY ANY CHECK', len(ms)); continue
    anch = [p for p in cand if f in json.dumps(props[p].get('anchors', props[p]))]; order = anch + [p for p in cand if p not in anch]; order = anch or order[:3]
    for ln, a, b, n in ms:
        if k >= per: break
        col = a - orig.rfind('\n', 0, a); t = orig[:a] + n + orig[b:]
        if (f, ln, col, n) in done: k += 1; continue
        open(R + '/' + f, 'w').write(t)
        tu = R + '/' + f
        if f.endswith('.cpp'):
            c = run(['g++', '-std=c++17', '-fsyntax-only', '-w', '-I' + V + '/stubs', '-I' + V + '/stubs_native', '-I' + V + '/stubs_tbb', '-I' + R + '/include', '-I' + R + '/src', tu], 120)
            if c.returncode and ':%d:' % ln in c.stdout.split('error:')[0].split('\n')[-1]: continue
        k += 1; res = []; caught = None; t0 = time.time()
        for p in order:
            r = run(['python3', V + '/check.py', p] + os.environ.get('MUT_ARGS', '').split(), 900, env=env); res.append((p, r.returncode, round(time.time() - t0)))
            if r.returncode == 1: caught = p; break
        rec = dict(file=f, line=ln, col=col, old=orig[a:b], new=n, text=orig.split('\n')[ln - 1].strip()[:140], caught=caught, res=res, note=r.stdout[-200:] if caught is None and r.returncode else '')
        open(outf, 'a').write(json.dumps(rec) + '\n'); print(f, ln, col, repr(orig[a:b]), '->', repr(n), caught or 'SURVIVED %s' % res, flush=True)
    open(R + '/' + f, 'w').write(orig)
