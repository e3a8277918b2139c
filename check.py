#!/usr/bin/env python3
"""Decide one property: compile the real code to LLVM IR, execute it symbolically, replay what the solver finds.

usage: check.py ID [--tier quick|thorough] [--entry NAME] [--keep] [-v]
exit 0: held on everything explored (KNOWN-FINDING lines for listed findings)
exit 1: VIOLATION line(s), each with a replay confirmed natively against the real code
exit 3: the check could not give an answer (tool or compile failure)
"""
import sys, os, re, json, time, subprocess, hashlib, glob, shutil, fcntl, threading, random
sys.dont_write_bytecode = True; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import protogen
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
LINK = '/usr/lib/llvm-18/bin/llvm-link'
NCPU = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
T0 = time.time()
def log(*a): print(*a, flush=True)
def run(cmd, timeout=None, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        r = subprocess.CompletedProcess(cmd, -999); r.stdout = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''); return r
class Broken(Exception): pass

SYMF = ('-std=c++17 -O1 -fno-pic -g1 -emit-llvm -c -w -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -U_FORTIFY_SOURCE -fno-stack-protector -ffp-contract=off -DBOOST_THREAD_VERSION=4 -DJSON_HAS_FILESYSTEM=0 -DJSON_HAS_EXPERIMENTAL_FILESYSTEM=0 -DJSYM').split()
NATF = ('-std=c++17 -O1 -g1 -c -w -fno-omit-frame-pointer -ffp-contract=off -DBOOST_THREAD_VERSION=4').split()

def ensure_engine():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(['make', '-s', '-j%d' % NCPU, '-C', os.path.join(V, 'engine'), 'OUT=' + os.path.join(B, 'engine')])
        if r.returncode: raise Broken('engine build failed:\n' + r.stdout[-3000:])
        rt = os.path.join(B, 'rt.bc')
        deps = glob.glob(V + '/runtime/*') + glob.glob(V + '/shim/**', recursive=True)
        if not os.path.exists(rt) or any(os.path.getmtime(d) > os.path.getmtime(rt) for d in deps if os.path.isfile(d)):
            cs = [['clang++'] + SYMF + ['-fno-builtin', '-I' + V + '/shim', '-I' + V + '/runtime', V + '/runtime/rt.cpp', '-o', B + '/rt_cpp.bc'],
                  ['clang', '-O1', '-g1', '-emit-llvm', '-c', '-w', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', V + '/runtime/rtc.c', '-o', B + '/rt_c.bc']]
            for c in cs:
                r = run(c)
                if r.returncode: raise Broken('runtime build failed:\n' + r.stdout[-3000:])
            r = run([LINK, B + '/rt_cpp.bc', B + '/rt_c.bc', '-o', rt + '.tmp'])
            if r.returncode: raise Broken('runtime link failed:\n' + r.stdout[-3000:])
            os.rename(rt + '.tmp', rt)

class Unit:
    def __init__(s, path):
        s.path = path; s.name = os.path.splitext(os.path.basename(path))[0]; s.src = []; s.entries = []; s.stubs = False; s.threads = False; s.flags = []; s.libs = []; s.ubsan = ''; s.props = []; s.mocks = []; s.nosan = False; s.protoenum = []; s.proto = []; s.gen = ''; s.inc = []
        for l in open(path):
            m = re.match(r'//@(\w+)\s*(.*)', l)
            if not m: continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'property': s.props += v.split()
            elif k == 'src': s.src += v.split()
            elif k == 'stubs': s.stubs = True
            elif k == 'threads': s.threads = True; s.flags.append('-D_GLIBCXX_TSAN=1')
            elif k == 'flags': s.flags += v.split()
            elif k == 'inc': s.inc += v.split()
            elif k == 'libs': s.libs += v.split()
            elif k == 'ubsan': s.ubsan = v
            elif k == 'protoenum': s.protoenum += v.split()
            elif k == 'proto': s.proto += v.split()
            elif k == 'entry':
                head, _, bounds = v.partition('|'); p = head.split(); e = {'name': p[0], 'bounds': bounds.strip(), 'quick': 60.0, 'thorough': 600.0}
                for o in p[1:]:
                    a, _, b = o.partition('='); e[a] = float(b) if a in ('quick', 'thorough') else b
                s.entries.append(e)
    def incs(s, sym):
        r = []
        if 'stubs_tbb' in s.inc: r += ['-I' + V + '/stubs_tbb']
        if sym: r += ['-I' + V + '/shim']
        r += ['-I' + V + '/runtime', '-I' + V + '/harness']
        if s.gen: r += ['-I' + s.gen]
        r += ['-I' + os.path.join(V, x) for x in s.inc]
        if s.stubs: r += ['-I' + V + '/stubs'] + (['-I' + V + '/stubs_sym'] if sym else ['-I' + V + '/stubs_native'])
        r += ['-I' + REPO + '/include', '-I' + REPO + '/src']
        return r

def build(cmd):
    # mutation testing only (VERIF_CACHE): reuse the object of an identical preprocessed source
    d = os.environ.get('VERIF_CACHE')
    if not d: return run(cmd, timeout=600)
    i = cmd.index('-o'); flags = cmd[:i] + cmd[i + 2:]; e = subprocess.run([x for x in flags if x not in ('-c', '-emit-llvm')] + ['-E'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    h = os.path.join(d, hashlib.sha1(repr(flags).encode() + e.stdout).hexdigest())
    if e.returncode == 0 and os.path.exists(h): shutil.copyfile(h, cmd[i + 1]); return subprocess.CompletedProcess(cmd, 0, stdout='')
    r = run(cmd, timeout=600)
    if r.returncode == 0 and e.returncode == 0: os.makedirs(d, exist_ok=True); t = '%s.%d.%d' % (h, os.getpid(), threading.get_ident()); shutil.copyfile(cmd[i + 1], t); os.replace(t, h)
    return r
def gen_protoenum(u, work):
    # the wire enumerations of a .proto file as a plain C++ header (regenerated from the current tree)
    u.gen = os.path.join(work, 'gen')
    for x in u.protoenum:
        src, _, hdr = x.partition('='); t = open(os.path.join(REPO, src)).read(); t = re.sub(r'//[^\n]*', '', t); t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        pk = re.search(r'package\s+([\w.]+)\s*;', t).group(1).replace('.', '::'); o = '#pragma once\nnamespace %s {\n' % pk
        for m in re.finditer(r'enum\s+(\w+)\s*\{(.*?)\}', t, re.S): o += 'enum %s : int { %s };\n' % (m.group(1), ', '.join('%s = %s' % (a, b) for a, b in re.findall(r'(\w+)\s*=\s*(-?\d+)', m.group(2)) if a not in ('reserved',)))
        p = os.path.join(u.gen, hdr); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(o + '}\n')
def compile_units(units, tier, work, pool):
    for u in units:
        if u.protoenum: gen_protoenum(u, work)
        if u.proto:
            u.gen = os.path.join(work, 'gen'); done = set()
            for x in u.proto: protogen.generate('/usr/include' if x.startswith('google/') else os.path.join(REPO, 'src'), x, u.gen, done)
    jobs = {}; shared = {}
    TH = ['-DJSYM_THOROUGH'] if tier == 'thorough' else []
    def comp(cmd, out):
        r = build(cmd); return (r.returncode, r.stdout)
    for u in units:
        fl = SYMF + u.flags + TH
        ub = ['-fsanitize=' + u.ubsan, '-fsanitize-trap=' + u.ubsan] if u.ubsan else []
        for f in [u.path] + u.src:
            p = f if os.path.isabs(f) else (os.path.join(V, f) if f.startswith('harness/') or f.startswith('stubs') else os.path.join(REPO, f))
            key = (p, tuple(u.flags), tuple(u.inc), u.stubs, u.ubsan if p.startswith(REPO) else '')
            if key in jobs: continue
            out = os.path.join(work, hashlib.sha1(repr(key).encode()).hexdigest()[:16] + '.bc')
            jobs[key] = (out, pool.submit(comp, ['clang++'] + fl + (ub if p.startswith(REPO) else []) + u.incs(True) + [p, '-o', out], out))
    res = {}
    for u in units:
        outs = []; err = None
        for f in [u.path] + u.src:
            p = f if os.path.isabs(f) else (os.path.join(V, f) if f.startswith('harness/') or f.startswith('stubs') else os.path.join(REPO, f))
            out, fu = jobs[(p, tuple(u.flags), tuple(u.inc), u.stubs, u.ubsan if p.startswith(REPO) else '')]
            rc, o = fu.result()
            if rc: err = 'compile of %s failed:\n%s' % (p, o[-2500:]); break
            outs.append(out)
        if not err:
            bc = os.path.join(work, u.name + '.linked.bc'); r = run([LINK] + outs + [B + '/rt.bc', '-o', bc])
            if r.returncode: err = 'link of %s failed:\n%s' % (u.name, r.stdout[-2500:])
            else: u.bc = bc
        res[u.name] = err
    return res

def native_build(u, tier, work):
    TH = ['-DJSYM_THOROUGH'] if tier == 'thorough' else []
    if u.threads: san = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-memory-accesses=0', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-mllvm', '-tsan-instrument-memintrinsics=0', '-DSYM_THREADS']; lsan = []
    else: san = ['-fsanitize=address']; lsan = ['-fsanitize=address']
    objs = []; cmds = []
    for f in [u.path] + u.src + [V + '/runtime/native.cpp']:
        p = f if os.path.isabs(f) else (os.path.join(V, f) if f.startswith('harness/') or f.startswith('stubs') else os.path.join(REPO, f))
        o = os.path.join(work, 'n_' + u.name + '_' + hashlib.sha1(p.encode()).hexdigest()[:12] + '.o')
        s = list(san)
        if p.endswith('runtime/native.cpp') and u.threads: s = ['-DSYM_THREADS']
        if u.ubsan and p.startswith(REPO) and not u.threads: s += ['-fsanitize=' + u.ubsan, '-fno-sanitize-recover=' + u.ubsan]
        cmds.append(['clang++'] + NATF + s + u.flags + TH + u.incs(False) + [p, '-o', o]); objs.append(o)
    with ThreadPoolExecutor(max(2, NCPU // 2)) as ex:
        for r in ex.map(build, cmds):
            if r.returncode: return None, 'native compile failed:\n' + r.stdout[-2500:]
    exe = os.path.join(work, 'native_' + u.name)
    ub = ['-fsanitize=' + u.ubsan] if (u.ubsan and not u.threads) else []
    r = run(['clang++'] + lsan + ub + objs + ['-rdynamic', '-o', exe, '-lglog', '-ldl', '-lpthread'] + u.libs, timeout=600)
    if r.returncode: return None, 'native link failed:\n' + r.stdout[-2500:]
    return exe, None

def write_replay(path, entry, inputs, sched):
    with open(path, 'w') as f:
        f.write('entry %s\n' % entry)
        for n, w, v in inputs: f.write('in %s %d %s\n' % (n, w, v))
        if sched: f.write('sched ' + ' '.join(map(str, sched)) + '\n')
def native_run(exe, rep, fill=None):
    env = dict(os.environ); ao = 'detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:allocator_release_to_os_interval_ms=-1'
    if fill is not None: ao += ':max_malloc_fill_size=1048576:malloc_fill_byte=%d' % fill
    env['ASAN_OPTIONS'] = ao; env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98'; env['GLOG_logtostderr'] = '0'; env['GLOG_minloglevel'] = '4'
    r = run([exe, rep], timeout=40, env=env); return r.returncode, r.stdout
def confirmed(kind, msg, rc, out):
    if rc in (0, 95, 96, 97): return False
    if rc == 11: return True
    if 'ASSERT-FAILED' in out: return True
    if rc == -14 or rc == -999: return kind in ('deadlock', 'step-limit', 'hang')
    return True

def main():
    a = sys.argv[1:]; pid = None; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False; verb = False; notime = False
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--entry': only = a.pop(0).split(',')
        elif x == '--keep': keep = True
        elif x == '-v': verb = True
        else: pid = x
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); rng = random.Random(seed)
    budget = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '3000'))
    ensure_engine()
    units = [u for u in (Unit(p) for p in sorted(glob.glob(V + '/harness/*.cpp'))) if pid in u.props]
    if only:
        for u in units: u.entries = [e for e in u.entries if e['name'] in only]
    else:
        for u in units: u.entries = [e for e in u.entries if e.get('prop', pid) == pid and (tier == 'thorough' or e.get('tier') != 'thorough')]
    units = [u for u in units if u.entries]
    if not units: raise Broken('no harness for ' + pid)
    work = os.path.join(B, 'work', '%s-%s-%d' % (pid, tier, os.getpid())); os.makedirs(work, exist_ok=True)
    repdir = os.path.join(B, 'replays', pid); shutil.rmtree(repdir, ignore_errors=True); os.makedirs(repdir, exist_ok=True)
    rc = 3
    try: rc = decide(pid, tier, seed, rng, budget, units, work, repdir, only, verb)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(pid, tier, seed, rng, budget, units, work, repdir, only, verb):
    pool = ThreadPoolExecutor(NCPU)
    cerr = compile_units(units, tier, work, pool)
    broken = {n: e for n, e in cerr.items() if e}
    for n, e in broken.items(): log('CHECK-ERROR %s: %s' % (n, e))
    ok = [u for u in units if not cerr[u.name]]
    tcomp = time.time() - T0
    jobs = []
    nent = sum(len(u.entries) for u in ok)
    npool = ThreadPoolExecutor(2); nat = {u.name: npool.submit(native_build, u, tier, work) for u in ok}
    def eng(u, e):
        left = budget - (time.time() - T0) - 60
        t = min(e[tier], max(10, left)); out = os.path.join(work, '%s.%s.json' % (u.name, e['name']))
        cmd = [B + '/engine/jsym', '--entry', e['name'], '--time', str(t), '--out', out, '--seed', str(seed), '--repo', REPO + '/', '--mem', e.get('mem', '3500'), '--samples', '10', '--solver-ms', e.get('solverms', '20000')]
        for k in ('preempt', 'spurious', 'steps'):
            if k in e: cmd += ['--' + k, e[k]]
        if os.environ.get('VERIF_XDIR'): cmd += ['--xdir', os.environ['VERIF_XDIR'], '--xevery', '50']
        r = run(cmd + [u.bc], timeout=t + 120)
        if not os.path.exists(out): return {'fatal': 'engine failed (%s): %s' % (r.returncode, r.stdout[-1500:])}
        try: return json.load(open(out))
        except Exception as x: return {'fatal': 'engine output unreadable: %s' % x}
    order = sorted(((u, e) for u in ok for e in u.entries), key=lambda x: -x[1][tier])
    res = [(u, e, pool.submit(eng, u, e)) for u, e in order]
    res = [(u, e, f.result()) for u, e, f in res]
    teng = time.time() - T0
    kf = []
    kp = os.path.join(V, 'known_findings.json')
    if os.path.exists(kp): kf = [k for k in json.load(open(kp)) if k.get('property') == pid and k.get('status') == 'known']
    violations = []; known = {}; unconf = []; ev_entries = []; funcs = {}; tot = dict(paths=0, forks=0, steps=0, asserts=0, queries=0, z3=0, sat=0, unsat=0, unknown=0, time=0.0); validated = 0; mism = []; samples = []; incomplete = []
    for u, e, r in res:
        if 'fatal' in r: broken[u.name + ':' + e['name']] = r['fatal']; log('CHECK-ERROR %s: %s' % (e['name'], r['fatal'])); continue
        exe, nerr = nat[u.name].result()
        if nerr and u.name not in broken: broken[u.name] = nerr; log('CHECK-ERROR %s: %s' % (u.name, nerr))
        s = r['solver']
        for k in ('paths', 'forks', 'steps', 'asserts'): tot[k] += r[k]
        for k in ('queries', 'z3', 'sat', 'unsat', 'unknown'): tot[k] += s[k]
        tot['time'] += s['time']
        for f in r['functions']:
            g = funcs.setdefault(f['name'], dict(at=f['at'].replace(REPO + '/', ''), blocks=f['blocks'], covered=0, calls=0)); g['covered'] = max(g['covered'], f['covered']); g['calls'] += f['calls']
        complete = not r['pending'] and not r['time_up'] and not r['mem_up'] and not r['incomplete'] and not s['unknown'] and not r['unmodelled']
        inc = [x for x in r['errors'] if x['inconclusive']]; hard = [x for x in r['errors'] if not x['inconclusive']]
        if not complete: incomplete.append(e['name'])
        vac = not r['asserts'] and not r['errors'] and not e.get('noassert')
        ent = dict(entry=e['name'], unit=u.name, bounds=e['bounds'], complete=complete, paths=r['paths'], pending=r['pending'], forks=r['forks'], instructions=r['steps'], assertions=r['asserts'], assumptions_ended=r['assume_ended'], queries=s['queries'], z3_calls=s['z3'], sat=s['sat'], unsat=s['unsat'], unknown=s['unknown'], solver_s=round(s['time'], 2), wall_s=round(r['wall'], 2), reach=r['reach'], not_modelled=r['unmodelled'], solver_cross_check_mismatch=s['mismatch'])
        if vac: ent['vacuous'] = True
        nval = 0; smp = r['samples']
        if exe:
            rng.shuffle(smp); got = []
            for i, p in enumerate(smp[:8]):
                rp = os.path.join(work, 's_%s_%d.replay' % (e['name'], i)); write_replay(rp, e['name'], p['inputs'], p['sched']); rc, out = native_run(exe, rp)
                obs = re.findall(r'^OBS (.*) ([0-9a-f]+)$', out, re.M); want = [(n, v[2:] if v.startswith('0x') else v) for n, v in p['obs']]
                okk = rc == 0 and (obs == want or 'STOP' in out)
                if okk: nval += 1
                else: mism.append(dict(entry=e['name'], rc=rc, want=want[:6], got=obs[:6], tail=out[-300:]))
                if okk and len(got) < 2: got.append(dict(entry=e['name'], inputs=[' '.join(map(str, x)) for x in p['inputs'][:24]], sched=p['sched'][:60], observed=[' '.join(x) for x in obs[:8]]))
            samples += got
        validated += nval; ent['traces_validated_against_impl'] = nval
        for i, x in enumerate(hard):
            rp = os.path.join(repdir, '%s-%d.replay' % (e['name'], i)); write_replay(rp, e['name'], x['inputs'], x['sched'])
            conf = False; tries = []
            if exe:
                for fill in (None, 0, 255, 1, 127):
                    rc, out = native_run(exe, rp, fill); tries.append(rc)
                    if confirmed(x['kind'], x['msg'], rc, out): conf = True; break
                    if u.threads: break
                with open(rp[:-7] + '.txt', 'w') as f: f.write('property %s entry %s\n%s: %s\n%s\n\nnative replay: exit %s\n%s\n' % (pid, e['name'], x['kind'], x['msg'], '\n'.join(x['stack']), rc, out[-6000:]))
            d = dict(entry=e['name'], kind=x['kind'], msg=x['msg'], stack=x['stack'][:6], count=x['count'], replay=rp, native_exit=tries, inputs=[' '.join(map(str, y)) for y in x['inputs'][:40]])
            k = next((k for k in kf if k['entry'] == e['name'] and k['kind'] == x['kind'] and k['msg'] in x['msg'] and (not k.get('at') or any(k['at'] in z for z in x['stack']))), None)
            if conf and k: known.setdefault(k['id'], k)
            elif conf: violations.append(d)
            else: unconf.append(d)
        if unconf and verb: log('UNCONFIRMED', json.dumps([z for z in unconf if z['entry'] == e['name']], indent=1))
        ent['inconclusive'] = [dict(kind=x['kind'], msg=x['msg'], count=x['count']) for x in inc]
        ev_entries.append(ent)
        log('%-34s %s paths=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs validated=%d%s%s' % (e['name'], 'complete  ' if complete else 'INCOMPLETE', r['paths'], r['asserts'], s['queries'], s['time'], r['wall'], nval, ' VACUOUS' if vac else '', (' not-modelled: ' + '; '.join(list(r['unmodelled'])[:3])) if r['unmodelled'] else ''))
        if verb:
            for x in inc: log('   inconclusive', x['kind'], x['msg'], x['stack'][:3])
    for m in mism[:6]: log('NOTE sample replay differs from the engine:', json.dumps(m)[:600])
    wall = time.time() - T0
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), coverage=dict(
        explanation='Symbolic execution of the LLVM IR compiled on this run from /repo: each path is a set of inputs/schedules decided by Z3; states = symbolic paths (finished + forked), transitions = IR instructions executed symbolically.',
        states=tot['paths'] + tot['forks'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=samples[:12] or ['no completed path sampled'],
        complete=not incomplete and not broken, entries_incomplete=incomplete, paths=tot['paths'], assertions_checked=tot['asserts'],
        queries=tot['queries'], queries_solver=tot['z3'], queries_sat=tot['sat'], queries_unsat=tot['unsat'], queries_unknown=tot['unknown'], solver_s=round(tot['time'], 2),
        entries=ev_entries, functions_encoded=[dict(name=n, **f) for n, f in sorted(funcs.items())], bounds={e['entry']: e['bounds'] for e in ev_entries},
        sample_replay_differences=mism, unconfirmed_by_native_replay=unconf, compile_s=round(tcomp, 2), engine_s=round(teng - tcomp, 2)),
        violations=len(violations), violation_details=violations, known_findings=[k['id'] for k in known.values()], errors=broken,
        assumptions=['sequentially consistent memory; scheduling points at atomics, mutexes and condition variables', 'stream, exception and container internals of libstdc++ that live in its shared object are modelled in runtime/ and shim/ and cross-checked by native replay of sampled paths', 'Z3 answers are trusted for unsat; every sat model is re-evaluated by the engine'])
    if not only:
        os.makedirs(V + '/evidence', exist_ok=True)
        with open(V + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    for k in known.values(): log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for d in unconf: log('NOTE not reported (native replay did not confirm): %s %s: %s %s' % (d['entry'], d['kind'], d['msg'], d['stack'][:2]))
    if violations:
        for d in violations: log('  %s: %s: %s\n    at %s\n    inputs %s' % (d['entry'], d['kind'], d['msg'], '\n       '.join(d['stack'][:4]), '; '.join(d['inputs'])))
        seen = set()
        for d in violations:
            if d['replay'] not in seen: seen.add(d['replay']); log('VIOLATION property=%s replay=%s' % (pid, d['replay']))
        return 1
    if broken: log('CHECK-ERROR: no answer for ' + ', '.join(broken)); return 3
    log('%s held: %d entries, %d paths, %d solver queries, %.1fs' % (pid, len(ev_entries), tot['paths'], tot['queries'], wall)); return 0
if __name__ == '__main__':
    try: main()
    except Broken as e: log('CHECK-ERROR', e); sys.exit(3)
