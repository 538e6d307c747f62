#!/usr/bin/env python3
"""Decide one property: compile /repo's current source to LLVM IR, execute its harnesses symbolically, let Z3 decide
every assertion on every path, and replay counterexamples (and a sample of the passing paths) on the native binary."""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, '.build')
HARNESS = os.path.join(V, 'smt', 'harness')
ACTORS = {'C22', 'C23', 'C24', 'C25'}
REMOTE = {'C26', 'C27', 'C28', 'C30', 'C31'}
T0 = time.time()

VIOLATED = False

def die(msg):
    print('ERROR', msg, flush=True)
    sys.exit(1 if VIOLATED else 2)

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        print(p.stdout[-6000:])
        die('command failed: ' + ' '.join(cmd))
    return p.stdout

def digest(files):
    h = hashlib.sha256()
    for f in sorted(files): h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def start_symex():
    src = glob.glob(V + '/smt/symex/*')
    out = f'{B}/symex-{digest(src)}'
    if os.path.exists(out): return out, None
    os.makedirs(B, exist_ok=True)
    return out, (subprocess.Popen(['g++', '-std=c++17', '-O2', '-o', out + '.tmp', V + '/smt/symex/symex.cpp', '-lz3'],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out)

def build(variant, tier, only=''):
    """Native binary and LLVM IR of the harnesses of one property linked with the library, from the current source."""
    sym, job = start_symex()
    out = f'{B}/{variant}-{tier}'
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=f'{B}/target-{variant}', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', KH_ONLY=only)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_RUSTFLAGS'): env.pop(k, None)
    root = sh(['rustc', '--print', 'sysroot'], env=env).strip()
    bins = root + '/lib/rustlib/x86_64-unknown-linux-gnu/bin'
    crate = HARNESS if variant != 'remote' else os.path.join(V, 'smt', 'remote')
    sh(['gcc', '-O1', '-c', HARNESS + '/shim.c', '-o', out + '/shim.o'])
    feats = ([variant] if variant in ('actors', 'macros') else []) + (['thorough'] if tier == 'thorough' else [])
    for f in glob.glob(f'{B}/target-{variant}/release/deps/kh-*.bc'): os.unlink(f)
    main = crate + '/src/main.rs'
    os.utime(main)
    sh(['cargo', 'rustc', '--offline', '--locked', '--release', '--manifest-path', crate + '/Cargo.toml', '--features', ' '.join(feats),
        '--', '--emit=llvm-bc,link', '-C', 'link-arg=' + out + '/shim.o'], env=env, cwd=crate)
    bcs = [f for f in glob.glob(f'{B}/target-{variant}/release/deps/kh-*.bc') if re.fullmatch(r'kh-[0-9a-f]{16}\.bc', os.path.basename(f))]
    if len(bcs) != 1: die(f'expected one bitcode file, found {bcs}')
    sh([bins + '/opt', '--strip-debug', bcs[0], '-o', out + '/kh.bc'])
    sh([bins + '/llvm-dis', out + '/kh.bc', '-o', out + '/kh.ll'])
    shutil.copy(f'{B}/target-{variant}/release/kh', out + '/kh')
    if job:
        p, dst = job
        o, _ = p.communicate()
        if p.returncode: print(o[-4000:]); die('symex does not compile')
        os.rename(dst + '.tmp', dst)
    return sym, out + '/kh.ll', out + '/kh'

class Threads:
    """Native binary of the harnesses with several threads: the same IR, with a call to the scheduler of threads.c before every
    atomic operation, so that a schedule found by the executor can be repeated. Built in the background."""
    def __init__(self, ll, names):
        self.out, self.names, self.error = os.path.dirname(ll), names, None
        self.t = threading.Thread(target=self.make)
        self.t.start()
    def make(self):
        o = self.out
        root = subprocess.run(['rustc', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, env=dict(os.environ, RUSTUP_TOOLCHAIN='stable')).stdout.strip()
        bins = root + '/lib/rustlib/x86_64-unknown-linux-gnu/bin'
        def run(*c):
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise RuntimeError(' '.join(c) + '\n' + r.stdout[-3000:])
        try:
            run(bins + '/opt', '--passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(self.names), o + '/kh.bc', '-o', o + '/mt.bc')
            run(bins + '/llvm-dis', o + '/mt.bc', '-o', o + '/mt.ll')
            s = open(o + '/mt.ll').read()
            s = re.sub(r'^(  (?:%[^ ]+ = )?(?:load atomic|store atomic|cmpxchg|atomicrmw) )', r'  call void @sym_point()\n\1', s, flags=re.M)
            s = s.replace('call void @llvm.x86.sse2.pause()', 'call void @sym_yield()') + '\ndeclare void @sym_point()\ndeclare void @sym_yield()\n'
            open(o + '/mt.ll', 'w').write(s)
            run(bins + '/llc', '-O1', '--relocation-model=pic', '-filetype=obj', o + '/mt.ll', '-o', o + '/mt.o')
            run('gcc', '-O1', '-c', HARNESS + '/threads.c', '-o', o + '/threads.o')
            run('gcc', '-rdynamic', o + '/mt.o', o + '/threads.o', '-o', o + '/khmt', '-lgcc_s', '-lm', '-ldl', '-lpthread')
        except Exception as e: self.error = str(e)
    def binary(self):
        self.t.join()
        if self.error: die('threaded native binary: ' + self.error)
        return self.out + '/khmt'

def native(binary, harness, f, valgrind=False):
    """Run the harness natively on concrete inputs: ('trace', hash, n) | ('violated', label) | ('signal', n) | ('timeout',) | ('exit', n)"""
    cmd = [binary, harness]
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd
    p = subprocess.Popen(cmd, env=dict(os.environ, SYM_REPLAY=f), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=120 if valgrind else 10)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return ('timeout',)
    m = re.search(r'^VIOLATED (.*)$', o, re.M)
    if m: return ('violated', m.group(1))
    m = re.search(r'^TRACE (\d+) (\d+)$', o, re.M)
    if m and p.returncode == 0: return ('trace', m.group(1), m.group(2))
    if p.returncode < 0: return ('signal', -p.returncode)
    if p.returncode == 134: return ('signal', 6)
    return ('exit', p.returncode)

def reproduces(binary, harness, f, label):
    r = native(binary, harness, f)
    if label.startswith(('blocked:', 'no-progress:')): return r == ('timeout',) or r[0] == 'signal', r
    if label == 'abort' or label.startswith(('panic: ', 'unreachable executed', 'stack overflow', 'division by zero', 'memory:')):
        if r[0] == 'signal': return True, r
        if label.startswith(('memory:', 'unreachable')):
            if r[0] in ('violated', 'timeout'): return True, r
            r = native(binary, harness, f, valgrind=True)
            return r == ('exit', 99) or r[0] == 'signal', r
        return False, r
    return r == ('violated', label), r

def known():
    out = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)$', l.strip())
            if m: out.append(m.groups())
    return out

def demangle(names):
    try:
        o = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    except OSError: o = names
    res = []
    for d in o:
        d = re.sub(r'::h[0-9a-f]{16}$', '', d)
        if 'kameo' in d: res.append(d)
    return sorted(set(res))

def main():
    global VIOLATED
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--only', help='run only this harness (no evidence)')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    if a.prop == 'setup':
        build('core', 'quick', 'setup'); build('actors', 'quick', 'setup')
        build('remote', 'quick', 'setup')
        return 0
    prop, tier = a.prop, a.tier
    variant = 'actors' if prop in ACTORS else 'remote' if prop in REMOTE else 'macros' if prop == 'C93' else 'core'
    sym, ll, binary = build(variant, tier, prop.lower() + '_')
    build_s = time.time() - T0
    limit = 780 if tier == 'quick' else 6 * 3600
    names = re.findall(rf'^define [^@\n]*@({prop.lower()}_\w+)\(', open(ll).read(), re.M)
    names = sorted(set(names), key=lambda n: (n.endswith('_mt'), n))
    if a.only: names = [n for n in names if n == a.only]
    if not names: die('no harness for ' + prop)
    meta = json.load(open(V + '/smt/meta.json')).get(prop, {})
    ev = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], paths=0, queries=0, queries_sat=0, queries_unsat=0,
              solver_s=0.0, executor_s=0.0, build_s=round(build_s, 1), assertion_evaluations=0, harnesses=[])
    funcs, violations, findings = set(), 0, 0
    kn = known()
    plain, mt = binary, [n for n in names if n.endswith('_mt')]
    mt = Threads(ll, mt) if mt else None
    rep = os.path.join(V, 'replays'); os.makedirs(rep, exist_ok=True)
    for n in names:
        out = f'{B}/out/{prop}-{n}'
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        left = limit - (time.time() - T0)
        if left < 20: die('out of time before ' + n)
        r = subprocess.run([sym, ll, n, '-o', out, '-j', '8', '-t', str(int(left)), '-v', '12'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out + '/result.json') or r.returncode not in (0, 1): print(r.stdout[-3000:]); die(f'{n}: executor failed ({r.returncode})')
        res = json.load(open(out + '/result.json'))
        if res.get('error'): die(f'{n}: executor: {res["error"]}')
        binary = mt.binary() if n.endswith('_mt') else plain
        vio = sorted(glob.glob(out + '/viol-*.txt'))
        seen = {}
        for f in vio:
            t = open(f).read()
            label = re.search(r'^label (.*)$', t, re.M).group(1)
            ok, got = reproduces(binary, n, f, label)
            if not ok:
                print(t[:1500]); die(f'{n}: counterexample for "{label}" does not reproduce natively (got {got})')
            seen.setdefault(label, []).append(f)
        for label, fs in seen.items():
            k = next((k for k in kn if k[0] == prop and k[1] == n and k[2] == label), None)
            if k:
                print(f'KNOWN-FINDING: property={prop} {k[3]}', flush=True); findings += 1
                continue
            dst = f'{rep}/{prop}-{n}-{hashlib.sha1(label.encode()).hexdigest()[:8]}.txt'
            shutil.copy(fs[0], dst)
            open(dst, 'a').write(f'\nreplay: SYM_REPLAY={dst} SYM_NOTES=1 {binary} {n}\n')
            print(f'{n}: violated: {label}')
            print(f'VIOLATION property={prop} replay={dst}', flush=True); violations += 1; VIOLATED = True
        if not vio and not res['complete']: die(f'{n}: exploration incomplete within the limits (unexplored {res["unexplored"]}, limited {res["limit_paths"]})')
        reached = [l for l in res['labels'] if l['hits'] > 0]
        if not vio:
            need = set(meta.get('reach', {}).get(n, ['end']))
            have = {l['label'] for l in reached if l['kind'] == 'reach'}
            if not need <= have: die(f'{n}: vacuous: never reached {sorted(need - have)}')
        val = 0
        for f in sorted(glob.glob(out + '/pass-*.txt')):
            t = open(f).read()
            m = re.search(r'^trace (\d+) (\d+)', t, re.M)
            if not m: continue
            got = native(binary, n, f)
            if got != ('trace', m.group(1), m.group(2)):
                if violations: continue
                print(t[:1500]); die(f'{n}: native run of a passing path differs: {got} vs {m.groups()} ({f})')
            val += 1
            if len(ev['samples']) < 12: ev['samples'].append({'harness': n, 'inputs': re.findall(r'^in (\S+) (\d+)', t, re.M)[:40], 'outcome': 'all assertions hold; native run agrees'})
        ev['states'] += res['paths'] + res['forks']; ev['transitions'] += res['instructions']; ev['paths'] += res['paths']
        ev['traces_validated_against_impl'] += val
        ev['queries'] += res['queries']; ev['queries_sat'] += res['sat']; ev['queries_unsat'] += res['unsat']
        ev['solver_s'] += res['solver_s']; ev['executor_s'] += res['wall_s']; ev['assertion_evaluations'] += res['checks']
        ev['harnesses'].append({'name': n, 'paths': res['paths'], 'infeasible': res['infeasible'], 'forks': res['forks'], 'depth': res['depth'], 'queries': res['queries'],
                                'instructions': res['instructions'], 'wall_s': round(res['wall_s'], 2), 'solver_s': round(res['solver_s'], 2),
                                'traces_validated': val, **({k: res[k] for k in ('preemptions', 'rounds', 'shared_addresses', 'points')} if n.endswith('_mt') else {}),
                                'assertions': {l['label']: l['hits'] for l in res['labels'] if l['kind'] == 'check'},
                                'reached': [l['label'] for l in reached if l['kind'] == 'reach']})
        funcs |= set(res['functions'])
        print(f'{n}: {res["paths"]} paths, {res["queries"]} queries, {res["solver_s"]:.1f} s solver, {res["wall_s"]:.1f} s, {val} replayed, complete={res["complete"]}', flush=True)
    ev['solver_s'] = round(ev['solver_s'], 2); ev['executor_s'] = round(ev['executor_s'], 2)
    fl = demangle(sorted(funcs))
    ev['functions_encoded'] = len(funcs); ev['kameo_functions_encoded'] = fl
    ev['bounds'] = meta.get('bounds', '')
    ev['exhaustive'] = True
    ev['rule'] = ('states: nodes of the symbolic execution tree (completed paths plus feasible forks); transitions: LLVM instructions executed symbolically; '
                  'queries: satisfiability queries decided by Z3; traces validated: passing paths whose model was run on the native binary with an identical assertion trace')
    if not a.only:
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', coverage=ev,
                       assumptions=meta.get('assumptions', []) + COMMON, wall_s=round(time.time() - T0, 1), violations=violations, known_findings=findings),
                  open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    return 1 if violations else 0

COMMON = [
    'rustc/LLVM compile the library to the IR that is executed symbolically (release profile, opt-level 1, overflow and debug assertions on); the native binary used for replay is linked from the same build',
    'harnesses named *_mt run several OS threads, interrupted before any atomic operation on shared memory up to the stated number of times and '
    'wherever a thread waits; memory is sequentially consistent. All others run one thread: interleavings are those of async tasks at await '
    'points, and task order is symbolic within the stated bound',
    'tokio, futures and std are executed as compiled, not modelled; system calls (futex, clock, getrandom, epoll-free runtime) are modelled by the executor',
]
if __name__ == '__main__': sys.exit(main())
