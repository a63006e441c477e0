#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by symbolic execution of /repo's current sources.
Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the check could not be carried out."""
import sys, os, json, time, subprocess, hashlib, tempfile, shutil, fcntl, re, signal, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
REPO = os.environ.get('VERIF_REPO', '/repo')
OUTV = os.environ.get('VERIF_OUT', V)            # where build output, evidence and replays go
H = V + '/harness'
T0 = time.time()
CLANG, CLANGXX = 'clang-18', 'clang++-18'
CF = '-O1 -emit-llvm -c -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -w'.split()

RUNNING, DONE = set(), threading.Event()     # executors under way; a violation has been confirmed: wrap up
def sh(cmd, timeout=None, env=None, cwd=None, executor=False):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=cwd, start_new_session=True)
    if executor: RUNNING.add(p)
    try:
        if executor and DONE.is_set(): p.terminate()
        out, _ = p.communicate(timeout=timeout); RUNNING.discard(p); return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); return -99, out

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths): h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def ensure_engine():
    """The executor and its run-time bitcode, rebuilt when their sources change."""
    src = [f'{V}/engine/{f}' for f in os.listdir(V + '/engine')] + [H + '/rt.cpp', H + '/rt_c.c', H + '/sym.h']
    key = filehash(src); B = OUTV + '/build'; os.makedirs(B, exist_ok=True); E = f'{B}/engine-{key}'
    with open(B + '/lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(E + '/ok'):
            shutil.rmtree(E, ignore_errors=True); os.makedirs(E)
            for o in os.listdir(B):
                if o.startswith('engine-') and o != os.path.basename(E): shutil.rmtree(f'{B}/{o}', ignore_errors=True)
            r, o = sh([V + '/engine/build.sh', E])
            if r: return None, 'engine build failed:\n' + o[-3000:]
            for c in ([CLANGXX, '-std=c++17', *CF, '-fno-builtin', '-fno-access-control', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DNDEBUG', H + '/rt.cpp', '-o', E + '/rt.bc'], [CLANG, '-std=gnu11', *CF, '-fno-builtin', H + '/rt_c.c', '-o', E + '/rt_c.bc']):
                r, o = sh(c)
                if r: return None, 'run-time library build failed:\n' + o[-3000:]
            open(E + '/ok', 'w').write('ok')
    return E, None

class Job:
    """One symbolic execution: a harness with its macros, the C/C++ sources of the code under test it is linked with, and bounds."""
    def __init__(self, name, src, defs=(), repo=(), opts=(), reach=(), inc=(), replay='asan', parts=1, tmax=600, native_src=(), native_libs=(), wrap=(), std='c++17', bounds='', native_defs=(), mem=6000, cstd='c99', extra=(), expect_errors=False, flags=()):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})

def incs(job): return [x for i in job.inc for x in ('-I', i.replace('@', V))] + ['-I', H, '-I', REPO + '/include', '-I', REPO]
def compile_bc(job, d):
    outs = []; jobs = []
    defs = ['-D' + x for x in job.defs]
    out = f'{d}/{job.name}.bc'; jobs.append(([CLANGXX, '-std=' + job.std, *CF, '-DNDEBUG', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSYM_ENGINE=1', *job.flags, *defs, *incs(job), f'{H}/{job.src}', '-o', out], out))
    for i, r in enumerate(list(job.repo) + list(job.extra)):
        p = r if r.startswith('/') else (f'{H}/{r}' if r in job.extra else f'{REPO}/{r}'); out = f'{d}/{job.name}.{i}.bc'
        if p.endswith('.c'): jobs.append(([CLANG, '-std=' + job.cstd, *CF, '-DNDEBUG', '-DSYM_ENGINE=1', *defs, *incs(job), p, '-o', out], out))
        else: jobs.append(([CLANGXX, '-std=' + job.std, *CF, '-DNDEBUG', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSYM_ENGINE=1', *job.flags, *defs, *incs(job), p, '-o', out], out))
    for c, o in jobs:
        r, t = sh(c, 300)
        if r: return None, f'{job.name}: compile failed: {" ".join(c)}\n{t[-3000:]}'
        outs.append(o)
    return outs, None

NATIVE, NLOCK = {}, threading.Lock()
def compile_native(job, d, kind):
    with NLOCK: l = NATIVE.setdefault((job.name, kind), [threading.Lock(), None])
    with l[0]:
        if l[1] is None: l[1] = build_native(job, d, kind)
        return l[1]
def build_native(job, d, kind):
    exe = f'{d}/{job.name}.{kind}'
    san = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=float-cast-overflow,float-divide-by-zero'], 'tsan': ['-fsanitize=thread'], 'plain': []}[kind]
    defs = ['-D' + x for x in list(job.defs) + list(job.native_defs)]
    com = ['-O0' if kind == 'tsan' else '-O1', '-g', '-w', '-DNDEBUG', '-U_FORTIFY_SOURCE', *san]
    thr = job.replay == 'threads'
    pre = ['-include', H + '/native_atomic.h'] if thr else []
    objs = []; cmds = []
    def add(p, isC, extra):
        o = f'{exe}.{len(objs)}.o'; objs.append(o)
        cmds.append((['gcc', '-std=' + job.cstd] if isC else ['g++', '-std=' + job.std]) + com + defs + incs(job) + extra + ['-c', p, '-o', o])
    add(f'{H}/{job.src}', False, pre)
    for r in list(job.repo) + list(job.extra): p = r if r.startswith('/') else (f'{H}/{r}' if r in job.extra else f'{REPO}/{r}'); add(p, p.endswith('.c'), [] if p.endswith('.c') else pre)
    for r in job.native_src: add(f'{H}/{r}', r.endswith('.c'), [])
    o = f'{exe}.rt.o'; objs.append(o); cmds.append(['g++', '-std=c++17', *(com if kind != 'tsan' else ['-O1', '-g', '-w', '-DVERIF_TSAN']), '-I', H, '-c', H + '/native.cpp', '-o', o])
    ld = ['-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock']
    if thr:
        o = f'{exe}.thr.o'; objs.append(o); cmds.append(['g++', '-std=c++17', *com, '-fno-access-control', '-I', H, '-c', H + '/native_threads.cpp', '-o', o])
        ld.append('-Wl,--wrap=_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE,--wrap=_ZNSt6thread4joinEv,--wrap=nanosleep')
    for w in job.wrap: ld.append('-Wl,--wrap=' + w)
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace') for c in cmds]
    for p, c in zip(ps, cmds):
        t = p.communicate()[0]
        if p.returncode: return None, f'native build failed: {" ".join(c)}\n{t[-2000:]}'
    r, t = sh(['g++', *san, *objs, *ld, *job.native_libs, '-lpthread', '-o', exe])
    return (exe, None) if r == 0 else (None, 'native link failed:\n' + t[-2000:])

def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, w, v in inputs:
            v = int(v, 16); n = re.sub(r'[ \t\n]', '_', n) or '_'
            f.write(f'{n} {w} {v >> 64:x} {v & (2**64 - 1):x}\n')

def native_run(exe, inputs):
    env = dict(os.environ, REPLAY=inputs); 
    r, t = sh(['setarch', '-R', exe], 90, env)      # fixed addresses: sanitizers dislike high-entropy layouts
    return r, t

def confirm(job, err, d, n):
    """Replays a counterexample against the real code compiled natively. Returns (confirmed, log)."""
    ip = f'{d}/{job.name}.cex{n}.txt'; write_inputs(ip, err['inputs'])
    kinds = ['tsan'] if err['kind'] == 'race' else ['asan', 'plain'] if job.replay != 'none' else []
    log = ''
    for k in kinds:
        exe, e = compile_native(job, d, k)
        if not exe: log += e; continue
        r, t = native_run(exe, ip); log += f'[{k}] exit {r}\n{t[-1500:]}\n'
        if k == 'tsan' and r == 99 and re.search(r'SUMMARY.*native(_threads)?\.cpp', t): continue   # not in the code under test
        if r in (66, 99) or (r < 0 and r not in (-99, -14)) or (r == -14 and err['kind'] in ('livelock', 'deadlock')): return True, log, k
        if r not in (0, 77, 78): return True, log, k
    return False, log, None

def run_job(E, job, d, tier, part=None):
    bcs, e = job.bc
    out = f'{d}/{job.name}{"" if part is None else "." + str(part)}.json'
    opts = list(job.opts); tmax = job.tmax if tier != 'quick' else max(20, min(job.tmax, 760 - (time.time() - T0)))
    if part is not None: opts += ['-parts', str(job.parts), '-part', str(part)]
    r, t = sh([E + '/clsym', *bcs, E + '/rt.bc', E + '/rt_c.bc', '-max-time', str(tmax), '-mem', str(job.mem), '-o', out, *opts], tmax + 120, executor=True)
    try: rep = json.load(open(out))
    except Exception as x: return None, f'{job.name}: executor gave no report (exit {r})\n{t[-2000:]}'
    rep['log'] = t; return rep, None

def known_findings():
    p = V + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def main():
    if sys.argv[1] == '--setup':
        E, err = ensure_engine(); print(err or 'engine ready: ' + E); return 2 if err else 0
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import jobs as J
    spec = J.SPEC[prop]; jobs = spec['jobs'](tier)
    only = os.environ.get('VERIF_JOB')
    if only: jobs = [j for j in jobs if re.search(only, j.name)]
    E, err = ensure_engine()
    if not E: print(err); return 2
    d = tempfile.mkdtemp(prefix='clsym-')
    try: return decide(prop, tier, spec, jobs, E, d)
    finally: shutil.rmtree(d, ignore_errors=True)

def decide(prop, tier, spec, jobs, E, d):
    from jobs import COMMON_ASSUMPTIONS as COMMON
    broken, reports = [], {}
    with ThreadPoolExecutor(8) as ex:
        for j, res in zip(jobs, ex.map(lambda j: compile_bc(j, d), jobs)):
            j.bc = res
            if res[0] is None: broken.append(res[1])
    units = [(j, p) for j in jobs if j.bc[0] for p in (range(j.parts) if j.parts > 1 else [None])]
    kf = [k for k in known_findings()['findings'] if k['property'] == prop]
    isKnown = lambda j, er: any(er['kind'] == k['kind'] and k['msg'] in er['msg'] and re.fullmatch(k['job'], j.name) and re.search(k.get('where', ''), er['where']) for k in kf)
    def unit(u):
        j, p = u
        if DONE.is_set(): return {}, None
        rep, e = run_job(E, j, d, tier, p); er = next((x for x in rep['errors'] if not isKnown(j, x)), None) if rep else None
        if er and not DONE.is_set() and confirm(j, er, d, f'first{p or ""}')[0]:
            DONE.set(); t = threading.Timer(20, lambda: [q.terminate() for q in list(RUNNING)]); t.daemon = True; t.start()    # the others may finish what they have found in 20 s
        return rep, e
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(unit, units))
    for (j, p), (rep, e) in zip(units, res):
        if rep == {}: continue        # not run any more
        elif rep is None: broken.append(e)
        else: reports.setdefault(j.name, (j, []))[1].append(rep)
    # verdicts
    violations, known, unconfirmed, incomplete = [], [], [], {}
    rdir = f'{OUTV}/evidence/replays/{prop}'; shutil.rmtree(rdir, ignore_errors=True)
    todo = []
    for name, (j, reps) in reports.items():
        reach = {}
        for rep in reps:
            for l, c in rep['reach'].items(): reach[l] = reach.get(l, 0) + c
            for l, c in rep['incomplete'].items(): incomplete.setdefault(name, {}); incomplete[name][l] = incomplete[name].get(l, 0) + c
        errs = []
        for rep in reps:
            for er in rep['errors']:
                if not any(x['kind'] == er['kind'] and x['msg'] == er['msg'] and x['where'] == er['where'] for x in errs): errs.append(er)
        for n, er in enumerate(errs): todo.append((j, er, n))
        if not errs and not (name in incomplete):
            for l in j.reach:
                if not reach.get(l): broken.append(f'{name}: vacuous: "{l}" was never reached')
        j.reached = reach
    def one(x):
        j, er, n = x
        if isKnown(j, er): return (x, 'known', None, None, '')
        ok, log, kind = confirm(j, er, d, n); return (x, 'yes' if ok else 'no', log, kind, '')
    with ThreadPoolExecutor(4) as ex: verdicts = list(ex.map(one, todo[:24]))
    for (j, er, n), v, log, kind, _ in verdicts:
        if v == 'known':
            k = next(k for k in kf if er['kind'] == k['kind'] and k['msg'] in er['msg'] and re.fullmatch(k['job'], j.name) and re.search(k.get('where', ''), er['where']))
            if k not in known: known.append(k)
        elif v == 'yes':
            os.makedirs(rdir, exist_ok=True); rp = f'{rdir}/{j.name}-{n}'
            write_inputs(rp + '.txt', er['inputs'])
            json.dump({'property': prop, 'job': j.name, 'harness': j.src, 'defines': list(j.defs), 'kind': er['kind'], 'message': er['msg'], 'where': er['where'], 'stack': er['stack'], 'inputs': er['inputs'], 'native_replay': log, 'replay_build': kind, 'rerun': f'python3 {V}/replay.py {rp}.json'}, open(rp + '.json', 'w'), indent=1)
            violations.append((er, j, rp + '.json'))
        else: unconfirmed.append({'job': j.name, 'kind': er['kind'], 'msg': er['msg'], 'where': er['where'], 'native': (log or '')[-600:], 'inputs': er['inputs'][:40]})
    # validate the executor against native runs on sampled witnesses of completed paths
    validated, vfail = 0, []
    vjobs = [reports[n] for n in reports if reports[n][0].replay != 'none' and any(r.get('sample_inputs') for r in reports[n][1])]
    if tier == 'quick': vjobs = vjobs[:1]
    if not violations and time.time() - T0 < 600:
        def val(x):
            j, reps = x; exe, e = compile_native(j, d, 'asan')
            if not exe: return 0, [e[-800:]]
            ok, bad = 0, []
            si = [s for r in reps for s in r['sample_inputs']][-6:]
            for i, s in enumerate(si):
                p = f'{d}/{j.name}.s{i}.txt'; write_inputs(p, s); r, t = native_run(exe, p)
                if r == 0: ok += 1
                elif r == 77 and 'uf:' not in str(s): bad.append(f'{j.name}: witness {i} does not fit the native run: {t[-300:]}')
                elif r != 77: bad.append(f'{j.name}: native run of a clean witness exits {r}: {t[-600:]}')
            return ok, bad
        with ThreadPoolExecutor(4) as ex:
            for ok, bad in ex.map(val, vjobs): validated += ok; vfail += bad
    allr = [r for _, reps in reports.values() for r in reps]
    S = lambda k: sum(r[k] for r in allr)
    funcs = {}
    for r in allr:
        for f in r['functions']: funcs[f['name'] + ' @ ' + re.sub(r'^.*?/repo/', '', f['file']) if False else f['name'] + ' @ ' + os.path.relpath(os.path.normpath(f['file']), REPO)] = 1
    cov = {'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': validated, 'samples': [f'{n}: {s}' for n, (j, reps) in reports.items() for r in reps for s in r['samples'][-1:]][:12] or ['no path completed'],
           'explanation': spec['how'], 'exhaustive': not incomplete and not broken,
           'paths_completed': S('complete'), 'paths_pruned_as_equivalent': S('pruned'), 'paths_not_completed': S('truncated'), 'forks': S('forks'), 'schedule_points': S('schedule_points'),
           'assertions_evaluated': S('checks'), 'assertions_needing_the_solver': S('checks_by_solver'), 'memory_accesses_checked': S('memory_accesses_checked'),
           'queries': sum(r['solver']['queries'] for r in allr), 'queries_unsat': sum(r['solver']['unsat'] for r in allr), 'queries_sat': sum(r['solver']['sat'] for r in allr), 'queries_unknown': sum(r['solver']['unknown'] for r in allr), 'query_cache_hits': sum(r['solver']['cache_hits'] for r in allr), 'answered_by_known_model': sum(r['solver']['model_hits'] for r in allr), 'solver_time_s': round(sum(r['solver']['time'] for r in allr), 2),
           'functions_encoded': sorted(funcs), 'bounds': {n: (j.bounds or ' '.join(j.defs)) for n, (j, _) in reports.items()}, 'reached': {n: j.reached for n, (j, _) in reports.items()},
           'jobs': {n: {'paths': sum(r['paths'] for r in reps), 'seconds': round(max(r['elapsed'] for r in reps), 1), 'queries': sum(r['solver']['queries'] for r in reps)} for n, (j, reps) in reports.items()},
           'incomplete': incomplete, 'unconfirmed_counterexamples': unconfirmed, 'native_disagreements': vfail, 'broken': broken, 'known_findings': [k['what'] for k in known]}
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov, 'assumptions': spec.get('assumptions', []) + COMMON, 'wall_s': round(time.time() - T0, 1), 'violations': len(violations)}
    os.makedirs(OUTV + '/evidence', exist_ok=True); json.dump(ev, open(f'{OUTV}/evidence/{prop}.json', 'w'), indent=1)
    for k in known: print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    for er, j, rp in violations: print(f'  {j.name}: {er["kind"]}: {er["msg"]} at {er["where"]}')
    for u in unconfirmed: print(f'  not confirmed natively: {u["job"]}: {u["kind"]}: {u["msg"]} at {u["where"]}')
    for n, m in incomplete.items(): print(f'  incomplete: {n}: {json.dumps(m)[:300]}')
    for f in vfail: print('  native disagreement:', f)
    print(f'{prop} [{tier}]: {cov["states"]} paths, {cov["assertions_evaluated"]} assertions, {cov["queries"]} queries in {cov["solver_time_s"]} s solver time, {len(reports)} jobs, {validated} witnesses validated natively, {ev["wall_s"]} s')
    if violations:
        print(f'VIOLATION property={prop} replay={violations[0][2]}'); return 1
    if broken:
        for b in broken[:3]: print('BROKEN', b[:1500])
        return 2
    return 0
if __name__ == '__main__': sys.exit(main())
