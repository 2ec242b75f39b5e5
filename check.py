#!/usr/bin/env python3
"""Runs the check of one property: builds heFFTe and the monitors from /repo's working tree, runs the
workloads, applies the verdict rules and writes the evidence.

    python3 check.py P01 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=.. replay=..': broken.  Exit 2: the check failed.
"""
import sys, os, json, time, re, subprocess, threading, signal, argparse, hashlib, shutil, tempfile, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import specs

REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
CORES = 8
SESSIONS = tempfile.mkdtemp(prefix='vh')    # Open MPI's session directories: private, pids of two sandboxes may be the same
atexit.register(shutil.rmtree, SESSIONS, True)

class HarnessError(Exception): pass

def base_env():
    e = dict(os.environ)
    e.update(LC_ALL='C.UTF-8', CC='gcc', CXX='g++', FC='gfortran', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
        OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1',
        OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1',
        OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_btl_base_warn_component_unused='0', OMPI_MCA_plm='isolated',
        OMPI_MCA_oob_tcp_if_include='lo', OMPI_MCA_orte_tmpdir_base=SESSIONS)
    for k in ('MAKEFLAGS', 'DESTDIR'): e.pop(k, None)
    return e

def run(cmd, env=None, timeout=None, cwd=None):
    """-> (rc, output); rc None: timed out"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or base_env(), cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out.decode('utf-8', 'replace')

# ------------------------------------------------------------------ building
def build(flavour, targets):
    f = specs.FLAVOURS[flavour]
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    cm = ['cmake', '-S', os.path.join(HERE, 'harness'), '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DVH_REPO=' + REPO,
          '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_C_COMPILER=gcc', '-DHeffte_MKL_INCLUDES=/usr/include/mkl', '-DPython_EXECUTABLE=/usr/bin/python3',
          '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=' + f['flags'], '-DCMAKE_C_FLAGS_RELWITHDEBINFO=' + f['flags'],
          '-DCMAKE_Fortran_FLAGS_RELWITHDEBINFO=' + f['flags']] + ['-D' + x for x in f['defs']]
    for attempt in (1, 2):
        rc, out = run(cm, timeout=300)
        if rc == 0:
            rc, out = run(['cmake', '--build', d, '-j%d' % CORES, '--target'] + targets, timeout=800)
        if rc == 0: return
        if attempt == 1:   # a stale build directory is no reason to fail: start afresh
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d, exist_ok=True)
    raise HarnessError('building flavour %s failed\n%s' % (flavour, out[-6000:]))

# ------------------------------------------------------------------ running
class Slots:
    def __init__(self, n): self.free = n; self.n = n; self.c = threading.Condition()
    def take(self, k):
        k = min(k, self.n)
        with self.c:
            while self.free < k: self.c.wait()
            self.free -= k
        return k
    def give(self, k):
        with self.c: self.free += k; self.c.notify_all()

def san_env(env):
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=16'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    env['TSAN_OPTIONS'] = 'halt_on_error=1'
    return env

def command(job, seed, start, count, log):
    exe = [x.replace('@BUILD@', os.path.join(BUILD, job['fl'])).replace('@HERE@', HERE) for x in job['exe']]
    return ['mpirun', '-np', str(job['np'])] + exe + ['--mode', job['mode'], '--seed', str(seed), '--start', str(start), '--count', str(count), '--tier', str(job.get('tier', 0)), '--log', log]

def parse(log):
    d = dict(started=[], results={}, viol=[], totals={}, end=False, texts={})
    try: f = open(log, encoding='utf-8', errors='replace')
    except OSError: return d
    for line in f:
        p = line.rstrip('\n').split('\t')
        try:
            if p[0] == 'S': i = int(p[1]); d['started'].append(i); d['texts'][i] = p[2]
            elif p[0] == 'R': d['results'][int(p[1])] = (p[2], float(p[3]), p[4] if len(p) > 4 else '')
            elif p[0] == 'V': d['viol'].append((int(p[1]), p[2], p[3] if len(p) > 3 else '?', ' '.join(p[4:])))
            elif p[0] == 'T': d['totals'][p[1]] = float(p[2])
            elif p[0] == 'E': d['end'] = True
        except (ValueError, IndexError): pass
    return d

SAN = re.compile(r'(AddressSanitizer|UndefinedBehaviorSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer): |runtime error:')
def crash_text(out):
    lines = out.splitlines()
    for i, l in enumerate(lines):
        if SAN.search(l):
            fr = [x.strip() for x in lines[i:i + 25] if '#' in x and ('heffte' in x or 'stock' in x)]
            return 'sanitizer', l.strip()[:300] + ' | ' + ' | '.join(re.sub(r'^#\d+ 0x[0-9a-f]+ (in )?', '', x)[:160] for x in fr[:4])
    for l in lines:
        if l.startswith('HANG case'): return 'hang', 'the case did not finish: ' + l
    for l in lines:
        if l.startswith('EXCEPTION case'): return 'exception', l[:400]
    for l in lines:
        if 'Assertion' in l and 'failed' in l: return 'assert', l[:400]
    for l in lines:
        m = re.search(r'exited on signal (\d+) \(([^)]*)\)', l)
        if m: return 'signal', 'a rank died: ' + l.strip()[:300]
    for l in lines:
        if 'MPI_ERR' in l or 'MPI_ABORT' in l: return 'mpi-error', ' '.join(x.strip() for x in lines if 'MPI_' in x or '***' in x)[:400]
    return 'exit', ' '.join(lines[-6:])[:400]

def launch(job, seed, start, count, tag, timeout):
    log = os.path.join(job['work'], tag + '.log')
    try: os.unlink(log)
    except FileNotFoundError: pass
    env = san_env(base_env()); env.update(job.get('env', {})); env.setdefault('VH_CASE_SECONDS', '60')
    env.setdefault('MALLOC_PERTURB_', '1')    # fresh heap memory holds 0xFE, freed memory 0x01
    env['VH_WORK'] = os.path.join(job['work'], tag + '.d'); env['VH_BUILD'] = os.path.join(BUILD, job['fl'])
    os.makedirs(env['VH_WORK'], exist_ok=True)
    env = {k: v.replace('@BUILD@', os.path.join(BUILD, job['fl'])) for k, v in env.items()}
    t = time.time()
    rc, out = run(command(job, seed, start, count, log), env=env, timeout=timeout, cwd=env['VH_WORK'])
    shutil.rmtree(env['VH_WORK'], ignore_errors=True)
    return rc, out, parse(log), time.time() - t

def run_job(job, seed, slots, res):
    """Runs one launch, continuing after a crash; adds violations and observations to res."""
    start, end = job['start'], job['start'] + job['count']
    tries = 0
    while start < end:
        if res['viol'] and time.time() > res['until']: return    # decided already
        k = slots.take(job['np'])
        try: rc, out, d, wall = launch(job, seed, start, end - start, job['name'] + '.%d' % start, job['timeout'])
        finally: slots.give(k)
        with res['lock']:
            for i, r in d['results'].items(): res['cases'].append((job, i, r, d['texts'].get(i, '')))
            for v in d['viol']: res['viol'].append(dict(job=job, case=v[0], rank=v[1], key=v[2], text=v[3], where=d['texts'].get(v[0], '')))
            for a, b in d['totals'].items(): res['totals'][a] = res['totals'].get(a, 0) + b
        if rc == 0 and d['end']: return
        pending = [i for i in d['started'] if i not in d['results']]
        if rc == 0 and not d['end']:
            tries += 1
            if tries <= 2: continue
            raise HarnessError('launch %s ended without its end mark\n%s' % (job['name'], out[-2000:]))
        if not pending:
            kind, text = crash_text(out)
            if not d['started'] and kind in ('exit', 'hang') or rc is None:
                tries += 1
                if tries <= 2: continue
                raise HarnessError('launch %s failed (rc=%s) before or between cases\n%s' % (job['name'], rc, out[-3000:]))
            if d['end'] or len(d['results']) + start >= end:    # died in the teardown, after the last case
                if tries < 1 and kind not in ('sanitizer',): tries += 1; start_again = True; continue
                with res['lock']: res['viol'].append(dict(job=job, case=-1, rank='?', key='crash-' + kind, text='after the last case: ' + text, where=''))
                return
            tries += 1
            if tries <= 2: continue
            with res['lock']: res['viol'].append(dict(job=job, case=-1, rank='?', key='crash-' + kind, text=text, where=''))
            return
        case = pending[0]; kind, text = crash_text(out)
        if rc is None: kind, text = 'hang', 'the launch did not finish in %d s' % job['timeout']
        confirmed = kind in ('sanitizer',)
        if not confirmed:     # once more: the case alone, then the history that led to it
            k = slots.take(job['np'])
            try:
                rc1, out1, d1, _ = launch(job, seed, case, 1, job['name'] + '.c%d' % case, job['timeout'])
                if rc1 == 0 or case in d1['results']:
                    rc1, out1, d1, _ = launch(job, seed, start, case - start + 1, job['name'] + '.h%d' % case, job['timeout'])
                if case not in d1['results']: confirmed = True; kind, text = crash_text(out1) if rc1 is not None else (kind, text)
            finally: slots.give(k)
        with res['lock']:
            if confirmed or kind in ('signal', 'assert', 'exception', 'mpi-error'):
                res['viol'].append(dict(job=job, case=case, rank='?', key='crash-' + kind, text=text + ('' if confirmed else ' (not reproduced by the second run)'), where=d['texts'].get(case, '')))
            else: res['inconclusive'].append('%s case %d: %s' % (job['name'], case, text))
            res['crashes'] += 1
            if res['crashes'] >= 6 or kind == 'hang': return
        start = case + 1

# ------------------------------------------------------------------ known findings
def known(prop):
    r = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) match=/(.*)/ what=(.*)$', line.strip())
            if m and m.group(1) == prop: r.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick'); ap.add_argument('--replay')
    a = ap.parse_args()
    spec = specs.SPECS[a.prop]; t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    work = os.path.join(BUILD, 'work-' + a.prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    jobs = spec['jobs'](tier)
    if a.replay:
        rp = json.load(open(a.replay)); seed = rp['seed']
        jobs = [dict(rp['job'])]
        if rp['case'] >= 0: jobs[0]['start'] = rp['case']; jobs[0]['count'] = 1
    fl = {}
    for j in jobs: fl.setdefault(j['fl'], set()).update(j.get('targets', ['driver']))
    for f, t in sorted(fl.items()): build(f, sorted(t))
    tb = time.time() - t0
    res = dict(lock=threading.Lock(), cases=[], viol=[], totals={}, inconclusive=[], crashes=0, until=t0 + (400 if tier == 'quick' else 7200))
    slots = Slots(spec.get('slots', 10)); errs = []
    def worker(j):
        try: run_job(j, seed, slots, res)
        except Exception as e: errs.append(e)
    th = []
    for n, j in enumerate(jobs):
        j['work'] = work; j['tier'] = 1 if tier == 'thorough' else 0
        j.setdefault('start', 0); j.setdefault('timeout', 240 if tier == 'quick' else 3000); j.setdefault('exe', ['@BUILD@/driver'])
        j.setdefault('name', 'j%d.%s.np%d' % (n, j['mode'], j['np']))
        th.append(threading.Thread(target=worker, args=(j,)))
    for t in th: t.start()
    for t in th: t.join()
    # verdict
    kf = known(a.prop); hit = {}; new = []; seen = set()
    for v in res['viol']:
        k = [x for x in kf if x[0].fullmatch(v['key']) and x[1].search(v['where'] + ' || ' + v['text'])]
        if k: hit[k[0][2]] = hit.get(k[0][2], 0) + 1; continue
        new.append(v)
    for w, n in sorted(hit.items()): print('KNOWN-FINDING: property=%s %s (%d observations)' % (a.prop, w, n))
    if tier == 'quick' or True:
        for w in [x[2] for x in kf]:
            if w not in hit: print('KNOWN-FINDING: property=%s %s (not met by this run)' % (a.prop, w))
    nontriv = spec.get('nontrivial', lambda r: r[2].startswith('ok'))
    distinct = len({r[0] for _, _, r, _ in res['cases'] if nontriv(r)})
    worst = max([r[1] for _, _, r, _ in res['cases'] if r[1] < 1e6] or [0])
    by_np = {}
    for j, _, _, _ in res['cases']: by_np[str(j['np'])] = by_np.get(str(j['np']), 0) + 1
    kinds = {}
    for _, _, r, _ in res['cases']: kinds[r[2][:40]] = kinds.get(r[2][:40], 0) + 1
    samples = [dict(case=i, ranks=j['np'], workload=j['mode'], text=t[:600], outcome=r[2][:300], error_over_tolerance=r[1]) for j, i, r, t in res['cases'][:: max(1, len(res['cases']) // 5)][:6]]
    planned = sum(j['count'] for j in jobs)
    ev = dict(property=a.prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'), wall_s=round(time.time() - t0, 1), violations=len(new),
        coverage=dict(evaluations=len(res['cases']), distinct_nontrivial=distinct, rule=spec['rule'], samples=samples, planned_cases=planned,
            cases_by_ranks=by_np, outcomes=dict(sorted(kinds.items(), key=lambda x: -x[1])[:40]), observed={k: (int(v) if v == int(v) else v) for k, v in sorted(res['totals'].items())},
            largest_error_over_tolerance=worst, builds=sorted(fl), build_s=round(tb, 1), inconclusive=res['inconclusive'], launches=len(jobs)),
        assumptions=spec.get('assumptions', []))
    evp = os.path.join(HERE, spec.get('evidence', 'evidence/%s.json' % a.prop))
    if not a.replay:
        tmp = evp + '.tmp'; json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, evp)
    print('%s %s seed=%d: %d/%d cases, %d distinct non-trivial, worst error/tolerance %.3g, %d violations, build %.0f s, total %.0f s' % (a.prop, tier, seed, len(res['cases']), planned, distinct, worst, len(new), tb, time.time() - t0))
    if new:
        rd = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        keys = {}
        for v in new: keys.setdefault(v['key'], []).append(v)
        for n, (k, vs) in enumerate(sorted(keys.items())):
            v = vs[0]; path = os.path.join(rd, '%s-%d.json' % (a.prop, n))
            job = {x: y for x, y in v['job'].items() if x not in ('work',)}
            json.dump(dict(property=a.prop, seed=seed, job=job, case=v['case'], key=k, text=v['text'], where=v['where'],
                how='python3 /verif/check.py %s --replay %s' % (a.prop, path)), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            print('  [%s] x%d np=%d case %d %s: %s\n    %s' % (k, len(vs), v['job']['np'], v['case'], v['rank'], v['text'][:500], v['where'][:700]))
        return 1
    for e in errs: print('CHECK FAILED:', e, file=sys.stderr)
    if errs: return 2
    if res['inconclusive']:
        print('INCONCLUSIVE:', *res['inconclusive'], sep='\n  ')
    if not a.replay and (len(res['cases']) < 0.9 * planned or distinct < 2):
        print('CHECK FAILED: only %d of %d cases were observed, %d of them non-trivial' % (len(res['cases']), planned, distinct), file=sys.stderr); return 2
    for k in spec.get('must_see', []):
        if res['totals'].get(k, 0) <= 0 and not a.replay:
            # which MPI calls the library prefers is its own business; that values were compared is not
            if k.startswith('mpi_') or k == 'comm_created': print('note: the run observed no', k); continue
            print('CHECK FAILED: the run observed no', k, file=sys.stderr); return 2
    if not a.replay: shutil.rmtree(work, ignore_errors=True)
    return 0

if __name__ == '__main__':
    try: rc = main()
    except HarnessError as e: print('CHECK FAILED:', e, file=sys.stderr); rc = 2
    sys.exit(rc)
