#!/usr/bin/env python3
"""Runs the solver-based check of one property:  runner.py PROPERTY [--tier quick|thorough] [--only JOB]

For every job of the property (checks/spec.py): the harness and the /repo code it calls are compiled
to LLVM bitcode from /repo's current tree, executed symbolically by build/symx, and every assertion is
decided over all inputs within the job's bounds.  A counterexample is replayed on a native build of
the same harness against the real code and libraries before it is reported.  Sample paths of every
job are replayed natively as well, comparing observed values (validates the engine and the models).
"""
import sys, os, json, subprocess, time, tempfile, shutil, threading, hashlib, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
REPO = os.environ.get('VERIF_REPO', '/repo')
import spec
M = os.path.join(V, 'model')
SYMX = os.path.join(V, 'build', 'symx')
CPUS = os.cpu_count() or 4
COMMON = ['-std=c++17', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
SYMF = ['-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin', '-gline-tables-only', '-fno-discard-value-names']
t_start = time.time()

def sh(cmd, timeout=300, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('latin1')

def build_engine():
    rc, out = sh(['make', '-C', os.path.join(V, 'engine'), '-j8'], 600)
    if rc: raise SystemExit('engine build failed:\n' + out)

def die(msg):
    print('ERROR: ' + msg); sys.exit(2)

def expand(f): return [x.replace('$REPO', REPO).replace('$V', V) for x in f]

def build_rt(d):
    o = []
    F = ['-O1', '-fno-builtin', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops']
    a, b = os.path.join(d, 'rt_c.bc'), os.path.join(d, 'rt.bc')
    rc, t = sh(['clang-18', '-w'] + F + [os.path.join(M, 'rt_c.c'), '-o', a])
    if rc: die('runtime model does not compile:\n' + t)
    rc, t = sh(['clang++-18'] + COMMON + F + [os.path.join(M, 'rt.cpp'), '-o', b])
    if rc: die('runtime model does not compile:\n' + t)
    return [a, b]

def build_sym(u, d, rt):
    """u: unit description of spec.UNITS -> bitcode"""
    bcs = []
    srcs = [os.path.join(V, 'harness', u['src'])] + expand(u.get('repo_src', [])) + [os.path.join(V, 'harness', x) for x in u.get('extra', [])]
    for i, s in enumerate(srcs):
        o = os.path.join(d, '%s_%d.bc' % (u['name'], i))
        isc = s.endswith('.c')
        cmd = (['clang-18', '-std=gnu11', '-w'] if isc else ['clang++-18'] + COMMON) + [u.get('opt', '-O1')] + SYMF + ['-I' + M, '-I' + os.path.join(V, 'harness'), '-I' + REPO + '/include'] + expand(u.get('flags', [])) + expand(u.get('sym_flags', [])) + ['-emit-llvm', '-c', s, '-o', o]
        rc, t = sh(cmd)
        if rc: return None, 'symbolic build failed: ' + ' '.join(cmd) + '\n' + t[-4000:]
        bcs.append(o)
    out = os.path.join(d, u['name'] + '.bc')
    rc, t = sh(['llvm-link-18'] + bcs + rt + ['-o', out])
    if rc: return None, 'llvm-link failed: ' + t[-3000:]
    return out, None

def build_native(u, d):
    """the same harness against the real headers and libraries"""
    inc = os.path.join(d, 'ninc_' + u['name']); os.makedirs(inc, exist_ok=True)   # one per unit: units build in parallel
    shutil.copy(os.path.join(M, 'sym.h'), inc)
    objs = []
    srcs = [os.path.join(V, 'harness', u['src']), os.path.join(M, 'native.cpp')] + expand(u.get('repo_src', [])) + expand(u.get('native_src', [])) + [os.path.join(V, 'harness', x) for x in u.get('extra', [])]
    exe = os.path.join(d, u['name'] + '.native')
    for i, s in enumerate(srcs):
        o = os.path.join(d, '%s_%d.o' % (u['name'], i)); objs.append(o)
        isc = s.endswith('.c')
        cmd = (['gcc', '-std=gnu11'] if isc else ['g++', '-std=c++17']) + ['-w', '-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-DSYM_NATIVE', '-I' + inc, '-I' + os.path.join(V, 'harness'), '-I' + REPO + '/include'] + expand(u.get('flags', [])) + ['-c', s, '-o', o]
        rc, t = sh(cmd)
        if rc: return None, 'native build failed: ' + ' '.join(cmd) + '\n' + t[-4000:]
    rc, t = sh(['g++', '-fsanitize=address', '-o', exe] + objs + ['-lntl', '-lgmp', '-lpthread'] + u.get('libs', []))
    if rc: return None, 'native link failed: ' + t[-3000:]
    return exe, None

def native_run(exe, replay, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0')
    rc, out = sh(['bash', '-c', 'ulimit -c 0; exec "$0" "$@"', exe, replay], timeout, env=env)
    return rc, out

STOP = threading.Event()        # a violation is confirmed: the remaining jobs are not needed
BUDGET = 780                    # seconds a quick check may take before its remaining jobs are given up

def engine_run(cmd, timeout, tier):
    lf = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
    t0 = time.time(); rc = None
    while rc is None:
        try: rc = p.wait(0.25)
        except subprocess.TimeoutExpired:
            if STOP.is_set(): rc = -100
            elif time.time() - t0 > timeout: rc = 124
            elif tier == 'quick' and time.time() - t_start > BUDGET: rc = -101
    try: os.killpg(p.pid, 9)
    except OSError: pass
    p.wait(); lf.seek(0)
    return rc, lf.read().decode('latin1')

def run_job(job, bc, d, tier, maxviol=2):
    tag = re.sub(r'[^A-Za-z0-9_.-]', '_', job['name'])
    od = os.path.join(d, 'run_' + tag); os.makedirs(od, exist_ok=True)
    out = os.path.join(od, 'o.json')
    T = job.get('t', 120)
    cmd = [SYMX, bc, '-o', out, '-r', os.path.join(od, 'r'), '-t', str(T), '-q', str(job.get('q', 60)), '-samples', str(job.get('samples', 2)), '-maxviol', str(maxviol)]
    if job.get('cut'): cmd += ['-cut', str(job['cut'])]
    if job.get('nomerge'): cmd += ['-nomerge']
    for k, v in job.get('c', {}).items(): cmd += ['-c', '%s=%d' % (k, v)]
    lim = job.get('mem', 4)
    if STOP.is_set(): return {'verdict': 'inconclusive', 'why': 'not run: a violation was found by another job', 'stopped': True, 'violations': [], 'reached': {}, 'functions': [], 'samples': [], 'dir': od}
    rc, txt = engine_run(['bash', '-c', 'ulimit -c 0; exec "$0" "$@"'] + cmd, T + job.get('q', 60) * 3 + 60, tier)
    if rc == -100: return {'verdict': 'inconclusive', 'why': 'stopped: a violation was found by another job', 'stopped': True, 'violations': [], 'reached': {}, 'functions': [], 'samples': [], 'dir': od}
    if rc == -101: txt = 'time budget of the quick check exhausted'
    try:
        r = json.load(open(out))
    except Exception:
        r = {'verdict': 'inconclusive', 'why': 'engine ended with %d: %s' % (rc, txt[-400:]), 'violations': [], 'reached': {}, 'functions': [], 'samples': []}
    r['log'] = txt[-2000:]
    r['dir'] = od
    return r

def load_known(prop):
    known = []
    p = os.path.join(V, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l: continue
            e = json.loads(l)
            if e.get('property') == prop and e.get('status') == 'known': known.append(e)
    return known

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    P = spec.PROPS[prop]
    build_engine()
    jobs = [j for j in P['jobs'] if tier == 'thorough' or not j.get('thorough_only')]
    if tier == 'thorough': jobs = [dict(j, **j.get('thorough', {}), c=dict(j.get('c', {}), **j.get('thorough', {}).get('c', {}))) for j in jobs]
    if a.only: jobs = [j for j in jobs if re.fullmatch(a.only, j['name'])]
    base = os.path.join(V, 'build', 'work'); os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(prefix=prop + '_', dir=base)
    rdir = os.path.join(V, 'build', 'replay', prop)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    try:
        code = run(prop, tier, P, jobs, d, rdir, a)
    finally:
        if not a.keep: shutil.rmtree(d, ignore_errors=True)
    sys.exit(code)

def run(prop, tier, P, jobs, d, rdir, a):
    rt = build_rt(d)
    units = {}
    for j in jobs: units[j['unit']] = dict(spec.UNITS[j['unit']], name=j['unit'])
    pool = ThreadPoolExecutor(CPUS)
    symf = {n: pool.submit(build_sym, u, d, rt) for n, u in units.items()}
    natf = {n: pool.submit(build_native, u, d) for n, u in units.items()}
    bad = []
    bc, nat = {}, {}
    for n in units:
        bc[n], e = symf[n].result()
        if e: bad.append((n, e))
    if bad:
        for n, e in bad: print('ERROR: unit %s: %s' % (n, e))
        return 2
    knowns = load_known(prop)
    mv = 6 if knowns else 2
    def full(j):
        r = full1(j)
        for vi in r['violations']:
            rep = vi.get('replay', ''); exe = natf[j['unit']].result()[0]
            if not exe or not rep or not os.path.exists(rep) or STOP.is_set(): continue
            rc, out = native_run(exe, rep)
            if rc not in (0, 3) and not any(e['job'] == j['name'] for e in knowns): STOP.set()
        return r
    def full1(j):
        r = run_job(j, bc[j['unit']], d, tier, mv)
        if r['verdict'] == 'inconclusive' and not r['violations'] and j.get('fallback'):
            k = dict(j, **j['fallback']); k['c'] = dict(j.get('c', {}), **j['fallback'].get('c', {})); k['name'] = j['name'] + '-fallback'
            r2 = run_job(k, bc[j['unit']], d, tier, mv)
            r2['fell_back'] = r.get('why'); r2['bounds_used'] = k['c']
            if r2['verdict'] != 'inconclusive' or r2['violations']: r = r2
        return r
    order = sorted(jobs, key=lambda j: -j.get('w', 1))
    resf = {j['name']: pool.submit(full, j) for j in order}
    res = {n: f.result() for n, f in resf.items()}
    for n in units:
        nat[n], e = natf[n].result()
        if e:
            print('ERROR: unit %s: %s' % (n, e)); return 2
    viol, known_hits, undecided, errors = [], [], [], []
    validated = 0; samples_out = []
    tot = {k: 0 for k in ('insts', 'paths', 'forks', 'merges', 'asserts', 'asserts_by_normal_form', 'asserts_by_solver', 'queries', 'sat', 'unsat', 'unknown', 'query_cache_hits', 'model_hits', 'full_queries')}
    solver_s = 0.0; maxq = 0.0; funcs = set(); per_job = []; exhaustive = True
    for j in jobs:
        r = res[j['name']]
        for k in tot: tot[k] += r.get(k, 0)
        solver_s += r.get('solver_s', 0); maxq = max(maxq, r.get('max_query_s', 0))
        for f in r.get('functions', []):
            if f.startswith(REPO + '/') or '/repo/' in f: funcs.add(f.replace(REPO + '/', '').replace('/repo/', ''))
        per_job.append({'job': j['name'], 'what': j.get('what', ''), 'bounds': r.get('bounds_used', j.get('c', {})), 'verdict': r['verdict'], 'why': r.get('why', ''), 'paths': r.get('paths', 0), 'asserts': r.get('asserts', 0), 'queries': r.get('queries', 0), 'solver_s': r.get('solver_s', 0), 'wall_s': r.get('wall_s', 0), 'reached': r.get('reached', {}), 'max_rss_mb': r.get('max_rss_mb', 0)})
        exe = nat[j['unit']]
        confirmed = False
        for vi in r['violations']:
            rep = vi.get('replay', '')
            dst = os.path.join(rdir, '%s_%s' % (j['name'], os.path.basename(rep))) if rep else ''
            if rep and os.path.exists(rep): shutil.copy(rep, dst)
            rc, out = native_run(exe, dst) if dst else (0, '')
            kind = vi.get('kind', '')
            ok = rc != 0 and rc != 3
            nat_label = re.findall(r'ASSERT-FAILED (.*)', out)
            if ok:
                confirmed = True
                k = next((e for e in knowns if e['job'] == j['name'] and (e['label'] == vi['label'] or e['label'] in nat_label)), None)
                with open(dst, 'a') as f:
                    f.write('# property %s job %s unit %s\n# engine: %s %s at %s\n# native exit %d: %s\n' % (prop, j['name'], j['unit'], kind, vi['label'], vi.get('where', ''), rc, '; '.join(nat_label) or out[-300:].replace('\n', ' | ')))
                (known_hits if k else viol).append((j, vi, dst, k))
            else:
                undecided.append((j['name'], 'counterexample not reproduced natively: %s %s at %s (native exit %d)' % (kind, vi['label'], vi.get('where', ''), rc)))
        if r['verdict'] == 'inconclusive' and not confirmed and not r.get('stopped'):
            lim = os.path.join(r['dir'], 'rlimit.txt')
            hang = False
            if os.path.exists(lim) and j.get('termination', True):
                rc, out = native_run(exe, lim, 60)
                if rc == 124:
                    dst = os.path.join(rdir, j['name'] + '_hang.txt'); shutil.copy(lim, dst)
                    with open(dst, 'a') as f: f.write('# property %s job %s: does not terminate natively within 60 s\n' % (prop, j['name']))
                    viol.append((j, {'kind': 'hang', 'label': 'does-not-terminate'}, dst, None)); hang = True
                elif rc not in (0, 3):
                    dst = os.path.join(rdir, j['name'] + '_limit.txt'); shutil.copy(lim, dst)
                    viol.append((j, {'kind': 'native', 'label': 'native run of limit path fails'}, dst, None)); hang = True
            if not hang: undecided.append((j['name'], r.get('why', '')))
        if r['verdict'] == 'holds':
            for lab in j.get('reach', []):
                if not r['reached'].get(lab): errors.append('job %s: witness "%s" was not reached (vacuous)' % (j['name'], lab))
            if not r['reached'] and not j.get('reach'): errors.append('job %s: no witness reached (vacuous)' % j['name'])
        if not confirmed:
          for s in r.get('samples', []):
            rc, out = native_run(exe, s)
            if rc == 0:
                validated += 1
                if len(samples_out) < 4:
                    t = open(s).read().split('\n'); samples_out.append({'job': j['name'], 'inputs_and_observations': [x for x in t if x][:25], 'native': 'agrees'})
            elif rc == 1 and 'ASSERT-FAILED' in out:
                dst = os.path.join(rdir, j['name'] + '_' + os.path.basename(s)); shutil.copy(s, dst)
                viol.append((j, {'kind': 'native', 'label': 'replay of a path model fails natively: ' + ','.join(re.findall(r'ASSERT-FAILED (.*)', out))[:100]}, dst, None))
            else:
                errors.append('job %s: native replay of a path model disagrees with the engine (exit %d): %s' % (j['name'], rc, out[-300:]))
    wall = time.time() - t_start
    decided = [p for p in per_job if p['verdict'] == 'holds']
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': tot['paths'], 'transitions': tot['insts'], 'traces_validated_against_impl': validated, 'samples': samples_out or [{'note': 'no sample'}],
                       'exhaustive': not undecided and not viol,
                       'meaning': 'states = symbolic paths completed (each stands for every input that follows it); transitions = LLVM instructions executed symbolically; traces_validated = solver models of complete paths replayed on the native build with equal observations',
                       'functions_encoded': sorted(funcs), 'jobs': per_job, 'assertions': tot['asserts'], 'assertions_discharged_by_normal_form': tot['asserts_by_normal_form'], 'assertions_discharged_by_solver': tot['asserts_by_solver'],
                       'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_unknown': tot['unknown'], 'query_cache_hits': tot['query_cache_hits'], 'solver_s': round(solver_s, 2), 'max_query_s': round(maxq, 2),
                       'bounds': P.get('bounds', ''), 'outside': P.get('outside', ''), 'undecided': ['%s: %s' % u for u in undecided]},
          'assumptions': P.get('assume', []) + spec.ASSUME, 'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for j, vi, dst, k in known_hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for n, w in undecided: print('UNDECIDED: property=%s job=%s %s' % (prop, n, w))
    for j, vi, dst, k in viol:
        print('violated: job %s: %s "%s" %s' % (j['name'], vi.get('kind'), vi['label'], vi.get('where', '')))
        print('VIOLATION property=%s replay=%s' % (prop, dst))
    for e in errors: print('ERROR: ' + e)
    print('%s %s: %d jobs, %d hold, %d undecided, %d violations; %d paths, %d assertions (%d by solver), %d queries, solver %.1fs, %d traces validated, wall %.1fs' % (prop, tier, len(jobs), len(decided), len(undecided), len(viol), tot['paths'], tot['asserts'], tot['asserts_by_solver'], tot['queries'], solver_s, validated, wall))
    if a.v:
        for p in sorted(per_job, key=lambda p: -p['wall_s']): print('   %-32s %-12s paths %-6d asserts %-7d q %-5d solver %.1fs wall %.1fs rss %d %s' % (p['job'], p['verdict'], p['paths'], p['asserts'], p['queries'], p['solver_s'], p['wall_s'], p['max_rss_mb'], p['why'][:150]))
    if viol: return 1
    if errors: return 2
    if not decided and not known_hits: return 2
    return 0
main()
