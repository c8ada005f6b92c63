#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current working tree.

  check.py run C03            quick or thorough according to VERIF_TIER
  check.py replay FILE        replays a stored counterexample against the uninstrumented build
  check.py build              builds everything (used by setup_cmd, optional)
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', V + '/.build')
CPUS = int(os.environ.get('VERIF_JOBS', '8'))
sys.path.insert(0, V)
LLVM = 'clang++-18' if shutil.which('clang++-18') else 'clang++'

# ------------------------------------------------------------------ build
def sha(*a):
    h = hashlib.sha256()
    for x in a: h.update(x if isinstance(x, bytes) else str(x).encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def slurp(p):
    with open(p, 'rb') as f: return f.read()
def tree(*dirs, ext=('.h', '.hpp', '.capnp')):
    o = []
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(ext): o.append((os.path.join(r, f)))
    return o
def run(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
def made(path, key, make):
    """path is up to date when path.key holds key; make(tmp) writes tmp"""
    k = path + '.key'
    if os.path.exists(path) and os.path.exists(k) and open(k).read() == key: return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid(); make(tmp); os.replace(tmp, path)
    with open(k, 'w') as f: f.write(key)
    return path
class BuildError(Exception): pass
def must(cmd, what):
    p = run(cmd)
    if p.returncode: raise BuildError('%s failed:\n%s\n%s' % (what, ' '.join(cmd) if isinstance(cmd, list) else cmd, (p.stdout + p.stderr)[-6000:]))
    return p
def engine():
    srcs = [V + '/engine/rt/core.cpp', V + '/engine/rt/rt.cpp']; hdr = tree(V + '/engine/rt', V + '/engine/include')
    def pas(t):
        fl = run(['llvm-config-18', '--cxxflags']).stdout.replace('-fno-exceptions', '').split()
        must(['g++', '-O1', '-std=c++17', '-fPIC', '-shared', '-fno-rtti', V + '/engine/pass/SymPass.cpp', '-o', t] + fl + ['-L/usr/lib/llvm-18/lib', '-lLLVM-18'], 'engine pass')
    return (lambda: made(B + '/SymPass.so', sha(slurp(V + '/engine/pass/SymPass.cpp')), pas),
            lambda: made(B + '/libsymrt.so', sha(*[slurp(x) for x in srcs + hdr]), lambda t: must(['g++', '-O2', '-std=c++17', '-fPIC', '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-shared'] + srcs + ['-o', t, '-lz3'], 'engine runtime')))
def am_sources(am, var):
    s = re.sub(r'\\\n', ' ', open(am).read()); m = re.search(r'^%s\s*=\s*(.*)$' % var, s, re.M)
    return [x for x in m.group(1).split() if x.endswith('.cpp')]
def repo_sources():
    a = ['connection_scan_algorithm/src/' + x for x in am_sources(R + '/connection_scan_algorithm/src/Makefile.am', 'libcsa_la_SOURCES')]
    b = ['src/' + x for x in am_sources(R + '/src/Makefile.am', 'trRouting_SOURCES')]
    return a + b
from configs import HARNESSES, plan  # noqa: E402
def flavor_sources(h):
    spec = HARNESSES[h]; drop = set()
    if 'table_geofilter' in spec['with']: drop |= {'src/euclideangeofilter.cpp'}
    return [s for s in repo_sources() if s not in drop]
def gen():
    gj = slurp(V + '/harness/gen_json.sh'); sysj = slurp('/usr/include/nlohmann/json.hpp')
    d = B + '/gen'
    def mk(t):
        must(['bash', V + '/harness/gen_json.sh', d], 'json header'); open(t, 'w').write('ok')
    made(d + '/stamp', sha(gj, sysj), mk)
    # Cap'n Proto classes from the schemas of the working tree
    caps = sorted(x for x in os.listdir(R + '/include/capnp') if x.endswith('.capnp'))
    c = B + '/capnp'
    def mkc(t):
        os.makedirs(c + '/capnp', exist_ok=True)
        if shutil.which('capnp'):
            must('cd %s/include/capnp && capnp compile -o c++:%s/capnp %s' % (R, c, ' '.join(caps)), 'capnp schemas')
        open(t, 'w').write('ok')
    made(c + '/stamp', sha(*[slurp(R + '/include/capnp/' + x) for x in caps]), mkc)
    return d, c
def build(h, native=False):
    """returns the path of the harness program (instrumented, or uninstrumented with AddressSanitizer)"""
    os.makedirs(B, exist_ok=True)
    with open(B + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try: return _build(h, native)
        except BuildError:
            if 'table_geofilter' not in HARNESSES[h]['with']: raise
            # the interface of the walking router is another one in this tree: use the real OSRM client and a scripted router instead of the table
            HARNESSES[h] = dict(HARNESSES[h], **{'with': [x for x in HARNESSES[h]['with'] if x != 'table_geofilter']}); FALLBACK.add(h)
            return _build(h, native)
FALLBACK = set()
def extra(job): return {'router': 'osrm'} if job['harness'] in FALLBACK and not job['opts'].get('router') else {}
def _build(h, native):
    spec = HARNESSES[h]; d, c = gen(); mode = ('m' if spec.get('race') else 'n') if native else ('r' if spec.get('race') else 's')
    pool = cf.ThreadPoolExecutor(CPUS); mkpass, mkrt = engine()
    fr = None if native else pool.submit(mkrt)
    so = mkpass()
    inc = ['-I' + V + '/stubs'] + ['-I' + V + '/stubs_' + x for x in spec.get('stubs', [])] + ['-I' + d, '-I' + c, '-I' + R + '/include', '-I' + R + '/connection_scan_algorithm/include', '-I' + V + '/engine/include', '-I' + V + '/harness', '-w'] + ['-D' + x for x in spec.get('defs', [])]
    if native: base = [LLVM, '-std=c++17', '-O1', '-g'] + (['-D_GLIBCXX_EXTERN_TEMPLATE=0'] if spec.get('race') else []) + [ '-fpass-plugin=' + so, '-fsanitize=address,bounds,null,return,unreachable,vptr', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DTRROUTING_VERIF', '-DVT_NATIVE'] + inc
    else: base = [LLVM, '-std=c++17', '-O1', '-fpass-plugin=' + so, '-fno-vectorize', '-fno-slp-vectorize', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS', '-DTRROUTING_VERIF'] + inc
    env = dict(os.environ)
    hs = sha(spec.get('race', ''), *[x.encode() + slurp(x) for x in tree(R + '/include', R + '/connection_scan_algorithm/include', V + '/stubs', *[V + '/stubs_' + x for x in spec.get('stubs', [])], V + '/engine/include', V + '/engine/rt', V + '/harness')], slurp(so) if not native or spec.get('race') else '')
    jobs = []; objs = []
    od = '%s/%s' % (B, mode)
    def comp(src, flags, plain=False):
        name = os.path.relpath(src, R if src.startswith(R + '/') else V).replace('/', '_')
        cmd = flags + ['-c', src]; key = sha(hs, ' '.join(cmd), slurp(src)); o = '%s/%s.%s.o' % (od, name, sha(' '.join(flags))[:8]); objs.append(o)
        def mk(t):
            e = dict(env, SYM_SECTIONS='1' if src.startswith(R + '/') else '0', SYM_SECTIONS_ONLY='0') if not native else dict(env, SYM_SECTIONS_ONLY='1' if src.startswith(R + '/') else '2')
            if spec.get('race') and src.startswith(R + '/'): e['SYM_RACE'] = '1'
            if not native and not plain: e['SYM_SITES'] = o + '.sites'
            p = subprocess.run(cmd + ['-o', t], capture_output=True, text=True, env=e)
            if p.returncode: raise BuildError('compiling %s failed\n%s' % (src, (p.stdout + p.stderr)[-6000:]))
        jobs.append((src, lambda: made(o, key, mk)))
    for s in flavor_sources(h): comp(R + '/' + s, base + ['-Dmain=trrouting_main'] + spec.get('flags', []))
    for s in spec['with'] + [spec.get('src', h)]: comp(V + '/harness/%s.cpp' % s, base + spec.get('flags', []))
    if 'disk' in spec['with']:
        for x in sorted(os.listdir(R + '/include/capnp')):
            if x.endswith('.capnp'):
                p = c + '/capnp/' + x + '.c++'
                if os.path.exists(p): comp(p, [LLVM, '-std=c++17', '-O1', '-w', '-I' + c] , True)
    for s in ['httpmatch'] + spec.get('plain', []): comp(V + '/harness/%s.cpp' % s, [LLVM, '-O1', '-std=c++17', '-fno-threadsafe-statics'], True)
    if native: comp(V + '/engine/rt/native.cpp', [LLVM, '-std=c++17', '-g', '-O1'], True)
    else: comp(V + '/engine/rt/models.cpp', base); comp(V + '/engine/rt/heap.cpp', [LLVM, '-O1'], True)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**7 if 'http_server' in j[0] else 0))
    fs = [pool.submit(j[1]) for j in jobs]
    for f in fs: f.result()
    if fr: fr.result()
    pool.shutdown()
    exe = '%s/%s_%s' % (B, h, mode)
    lk = sha(*[slurp(o + '.key') for o in objs], '' if native else slurp(B + '/libsymrt.so.key'))
    libs = spec.get('libs', []) + ['-lboost_program_options', '-lboost_date_time', '-lboost_system', '-lpthread', '-ldl']
    if native: made(exe, lk, lambda t: must([LLVM, '-fsanitize=address,bounds,null,return,unreachable,vptr'] + objs + ['-o', t] + libs, 'link'))
    else: made(exe, lk, lambda t: must([LLVM] + objs + ['-o', t, '-L' + B, '-lsymrt', '-Wl,-rpath,' + B, '-Wl,-z,now'] + libs, 'link'))
    return exe
def site_map(h):
    m = {}; fns = 0; od = B + ('/r' if HARNESSES[h].get('race') else '/s')
    for s in flavor_sources(h):
        n = s.replace('/', '_')
        for f in os.listdir(od):
            if f.startswith(n + '.') and f.endswith('.sites'):
                for l in open(od + '/' + f):
                    a = l.split()
                    if a[0] == 'F': fns += 1
                    else: m[int(a[0])] = a[1]
    return m, fns
def demangle(names):
    p = subprocess.run(['c++filt', '-p'], input='\n'.join(names), capture_output=True, text=True); return p.stdout.split('\n') if p.returncode == 0 else list(names)

# ------------------------------------------------------------------ exploration
def optargs(o):
    a = []
    for k, v in o.items(): a += ['-o', '%s=%s' % (k, v)]
    return a
def explore(exe, job, tl, tmp, viols=6):
    out = '%s/%s.json' % (tmp, sha(job['harness'], json.dumps(job['opts'], sort_keys=True), job.get('order', 0)))
    cmd = [exe, '--jobs', str(job.get('jobs', 1)), '--time', '%.1f' % tl, '--path-time', str(job.get('path_time', 10)), '--out', out, '--tmp', tmp, '--max-viol', str(viols), '--cross', str(job.get('cross', 50)), '--order', str(job.get('order', 0)), '--seed', os.environ.get('VERIF_SEED', '1')] + optargs(dict(job['opts'], **extra(job)))
    try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=tl + 60, errors='replace')
    except subprocess.TimeoutExpired: return None, 'explorer did not end'
    try: return json.load(open(out, errors='replace')), ''
    except Exception as e: return None, 'explorer exit %s %s %s' % (p.returncode, e, p.stderr[-500:])
ASAN = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0'
def replay(exe, opts, inputs, tmp, tl=30):
    f = '%s/in.%d.%d' % (tmp, os.getpid(), threading.get_ident()); open(f, 'w').write('\n'.join(map(str, inputs)) + '\n')
    try:
        p = subprocess.run([exe, '--replay', f] + optargs(opts), capture_output=True, text=True, timeout=tl, env=dict(os.environ, ASAN_OPTIONS=ASAN + (':quarantine_size_mb=0:thread_local_quarantine_size_kb=0' if opts.get('reuse') else '')), cwd=tmp, errors='replace')
    except subprocess.TimeoutExpired: return True, 'no answer within %d s' % tl, ''
    out = p.stdout[-4000:]; err = p.stderr[-6000:]
    if p.returncode == 0: return False, 'held', out + err
    if p.returncode == 3: return False, 'outside the assumptions', out + err
    if p.returncode == 1 and 'CHECK FAILED' in p.stdout: return True, re.search(r'CHECK FAILED: (.*)', p.stdout).group(1), out + err
    m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*|terminate called.*|Assertion .* failed)', p.stderr)
    return True, 'crash: %s' % (m.group(1) if m else 'exit %d' % p.returncode), out + err
def known():
    try: return json.load(open(V + '/known_findings.json'))
    except FileNotFoundError: return []
def matches(k, prop, label, job, names, inputs):
    if k.get('status') != 'known' or k['property'] != prop: return False
    if not re.fullmatch(k['label'], label): return False
    for a, b in k.get('opts', {}).items():
        if str(job['opts'].get(a)) != str(b): return False
    vals = dict(zip(names, inputs))
    for a, b in k.get('inputs', {}).items():
        if vals.get(a) != b: return False
    return True
def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    P = plan(prop, tier, seed); budget = float(os.environ.get('VERIF_BUDGET', P['budget']))
    tmp = '%s/tmp.%s.%d' % (B, prop, os.getpid()); os.makedirs(tmp, exist_ok=True)
    rep = V + '/replays/' + prop; shutil.rmtree(rep, ignore_errors=True)
    try:
        exes = {}
        for h in P['harnesses']: exes[h] = build(h)
        tb = time.time() - t0
        return _check(prop, tier, seed, t0, tb, P, budget, tmp, rep, exes)
    finally: shutil.rmtree(tmp, ignore_errors=True)
def _check(prop, tier, seed, t0, tb, P, budget, tmp, rep, exes):
    results = []; cand = []; stop = threading.Event(); lock = threading.Lock(); slots = threading.Semaphore(CPUS); big = threading.Lock()
    start = time.time(); end = start + budget
    def one(job):
        n = job.get('jobs', 1)
        with big:
            for _ in range(n): slots.acquire()
        try:
            left = end - time.time()
            if stop.is_set() or left < 0.5: return
            r, err = explore(exes[job['harness']], job, min(job.get('time', 1e9), left), tmp)
            with lock:
                results.append((job, r, err))
                if r and r['violations']:
                    cand.extend((job, v) for v in r['violations'])
                    if not P.get('all'): stop.set()
        finally:
            for _ in range(n): slots.release()
    confirmed = []; unconfirmed = []; knownhits = {}; nat = {}; tried = {}
    def handle():
        while cand:
            job, v = cand.pop(0); names = v['names'].split('\n'); names = [x for x in names if x]
            key = (v['label'], job['harness'])
            if tried.get(key, 0) >= 4: continue
            tried[key] = tried.get(key, 0) + 1
            if job['harness'] not in nat: nat[job['harness']] = build(job['harness'], True)
            bad, why, out = replay(nat[job['harness']], dict(job['opts'], **extra(job)), v['inputs'], tmp)
            rec = {'property': prop, 'harness': job['harness'], 'opts': job['opts'], 'label': v['label'], 'native': why, 'inputs': dict(zip(names, v['inputs'])), 'values': v['inputs'], 'detail': v['detail'][-3000:], 'native_output': out[-6000:]}
            if not bad: unconfirmed.append(rec); continue
            k = next((k for k in known() if matches(k, prop, v['label'], job, names, v['inputs']) or matches(k, prop, why, job, names, v['inputs'])), None)
            if k: knownhits[k['id']] = k; continue
            os.makedirs(rep, exist_ok=True); f = '%s/%d.json' % (rep, len(confirmed) + 1); json.dump(rec, open(f, 'w'), indent=1); confirmed.append((f, rec))
            if len(confirmed) >= 3: return
    jobs = P['jobs']; pos = 0; rounds = 0
    while True:
        stop.clear()
        with cf.ThreadPoolExecutor(CPUS) as ex: list(ex.map(one, jobs if rounds == 0 else [j for j in jobs if id(j) not in done]))
        done = {id(j) for j, _, _ in results}; rounds += 1
        handle()
        if confirmed or time.time() > end - 1 or all(id(j) in done for j in jobs) or rounds > 20: break
    # a result that does not survive the native replay is an engine matter, not a violation
    for f, rec in confirmed: print('VIOLATION property=%s replay=%s' % (prop, f)); print('  %s (native replay: %s) %s' % (rec['label'], rec['native'], json.dumps(rec['inputs'])[:600]))
    for k in known():
        if k.get('status') == 'known' and k['property'] == prop: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ok = [(j, r) for j, r, e in results if r]; errs = [(j, e) for j, r, e in results if not r]
    S = lambda k: sum(r[k] for _, r in ok)
    reach = {}; inc = {}; touched = set(); enc = {}
    for j, r in ok:
        for a, b in r['reached'].items(): reach[a] = reach.get(a, 0) + b
        for a, b in r['incomplete'].items(): inc[a] = inc.get(a, 0) + b
    for h in exes:
        try:
            m, fns = site_map(h); enc[h] = fns
            for j, r in ok:
                if j['harness'] == h: touched |= {m[s] for s in r['sites'] if s in m}
        except OSError: pass
    tn = sorted(set(x for x in demangle(sorted(touched)) if 'TrRouting' in x or 'trrouting_main' in x or x.startswith('main')))
    comp = [j for j, r in ok if r['complete']]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'], 'wall_s': round(time.time() - t0, 1), 'violations': len(confirmed),
          'assumptions': P['assumptions'],
          'coverage': {
              'explanation': P['explanation'] + ' A configuration counts as complete when every path condition of the real code within its bounds was followed and every assertion on it was discharged by the solver; incomplete ones were stopped by the time budget with their frontier non-empty, and only the paths counted here were decided.',
              'evaluations': S('paths'), 'distinct_nontrivial': max(0, S('paths') - reach.get('trivial', 0)),
              'rule': 'one evaluation = one path of the real code decided for every value of the symbolic inputs that follow it; paths are distinct because their path conditions are disjoint',
              'configurations': len(ok), 'configurations_complete': len(comp), 'configurations_stopped': len(ok) - len(comp), 'frontier_left': S('frontier'),
              'not_started': len(jobs) - len(ok) - len(errs), 'explorer_errors': [{'opts': j['opts'], 'error': e} for j, e in errs][:10],
              'bounds': P['bounds'], 'functions_encoded': enc, 'functions_with_symbolic_branches': tn,
              'solver': {'branches_on_symbolic_values': S('branches'), 'assertions': S('assertions'), 'solver_queries': S('queries') + S('fast_sat') + S('fast_unsat'), 'decided_by_difference_bounds': S('fast_sat') + S('fast_unsat'), 'z3_queries': S('queries'), 'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown'), 'cross_checked_with_z3': S('cross_checked'), 'entailed_syntactically': S('syntactic'), 'solver_s': round(S('solver_s') + S('fast_s'), 2)},
              'reached': reach, 'incomplete_reasons': inc, 'unconfirmed_by_native_replay': unconfirmed[:5], 'known_findings_hit': sorted(knownhits),
              'build_s': round(tb, 1), 'walking_router_scripted_instead_of_table': sorted(FALLBACK & set(exes)),
              'samples': [{'harness': j['harness'], 'opts': j['opts'], 'paths': r['paths'], 'complete': r['complete'], 'assertions': r['assertions'], 'depth': r['max_depth'], 'seconds': r['wall_s']} for j, r in ok][:60]}}
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for j, e in errs[:3]: print('note: %s %s: %s' % (j['harness'], j['opts'], e))
    if unconfirmed: print('note: %d candidate(s) did not survive the native replay, e.g. %s' % (len(unconfirmed), unconfirmed[0]['label']))
    print('%s: %s, %d paths, %d configurations (%d complete), %d assertions, %.0f s' % (prop, 'VIOLATED' if confirmed else 'held', S('paths'), len(ok), len(comp), S('assertions'), time.time() - t0))
    if not ok and not confirmed: print('nothing could be explored'); return 2
    return 1 if confirmed else 0
def main():
    a = sys.argv[1:]
    if a[0] == 'run':
        try: sys.exit(check(a[1]))
        except BuildError as e: print(e); sys.exit(3)
    if a[0] == 'setup':  # every check builds what it needs itself; this only confirms that the tools are there
        for t in (LLVM, 'g++', 'llvm-config-18'): print(t, shutil.which(t) or sys.exit('missing ' + t))
        sys.exit(0)
    if a[0] == 'build':
        for h in HARNESSES: build(h); print(h)
        sys.exit(0)
    if a[0] == 'replay':
        r = json.load(open(a[1])); exe = build(r['harness'], True); bad, why, out = replay(exe, dict(r['opts'], **extra(r), **dict(x.split('=', 1) for x in a[2:])), r['values'], B); print(out); print(why); sys.exit(1 if bad else 0)
main() if __name__ == '__main__' else None
