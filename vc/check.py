"""One property check:  python3-vt vc/check.py C05 [--tier quick|thorough]

1. extracts the instantiated AST of the functions the property depends on from the current source,
2. discharges every obligation of the contracts of the property (units run in parallel),
3. at the same time compiles the replay harness against the real code and runs it with the contracts as
   run-time oracle (corner and random inputs, plus the values of any counterexample of the solver),
4. writes the evidence file, reports.
"""
import sys, os, json, time, subprocess, tempfile, shutil, signal, re, traceback, glob
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import front
from props import registry
VERIF = os.path.dirname(HERE)
REPO = front.REPO
WORK = os.path.join(VERIF, 'build', 'work')
CXX = 'g++-11' if shutil.which('g++-11') else 'g++'

def compile_harness(spec, d):
    exe = os.path.join(d, 'harness')
    cmd = [CXX, '-std=c++17', '-mfpmath=sse', '-msse3', '-O1', '-g1', '-w', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS',
           '-I' + os.path.join(VERIF, 'replay')]
    if spec.get('stubs'):
        cmd += ['-I' + os.path.join(VERIF, 'stubs')]
    cmd += ['-I' + REPO + '/ndt_gslam/include', '-I' + REPO + '/ndt_gslam/src', '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/suitesparse']
    cmd += [os.path.join(VERIF, 'replay', spec['src'])] + [REPO + '/' + s for s in spec.get('sources', [])]
    cmd += ['-o', exe] + list(spec.get('flags', [])) + list(spec.get('link', []))
    p = subprocess.run(cmd, capture_output=True, text=True)
    return exe if p.returncode == 0 else None, p.stderr[-3000:]

def run_harness(exe, pid, secs, seed, d, hints=(), tag='a', limit=240):
    """status: ok / fail / crash / hang / error"""
    case = os.path.join(d, 'case_' + tag)
    hf = os.path.join(d, 'hints_' + tag)
    with open(hf, 'w') as f:
        f.write('\n'.join('%.17g' % h for h in hints))
    out = os.path.join(d, 'out_' + tag)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1', OMP_NUM_THREADS='2')
    with open(out, 'w') as fo:
        p = subprocess.Popen([exe, pid, str(secs), str(seed), case, hf], stdout=fo, stderr=subprocess.STDOUT, env=env, cwd=d)
        t0 = time.time()
        last, lastt = None, t0
        st = None
        while p.poll() is None:
            time.sleep(0.05)
            now = time.time()
            try:
                cur = open(case, 'rb').read(1 << 16).split(b'\0')[0]
            except OSError:
                cur = None
            if cur != last:
                last, lastt = cur, now
            if now - lastt > 90 or now - t0 > limit + secs:
                p.kill()
                p.wait()
                st = 'hang' if now - lastt > 60 else 'slow'
                break
    txt = open(out, errors='replace').read()
    try:
        cur = open(case, 'rb').read().split(b'\0')[0].decode(errors='replace')
    except OSError:
        cur = ''
    samples = re.findall(r'^SAMPLE (.*)$', txt, re.M)
    m = re.search(r'^OK cases=(\d+) checks=(\d+)', txt, re.M)
    if st is None:
        if p.returncode == 0 and m:
            st = 'ok'
        elif re.search(r'^FAIL ', txt, re.M):
            st = 'fail'
        elif p.returncode in (3,) or (p.returncode == 1 and 'FAIL' not in txt):
            st = 'error'
        else:
            st = 'crash'
    r = {'status': st, 'case': cur, 'cases': int(m.group(1)) if m else 0, 'checks': int(m.group(2)) if m else 0, 'samples': samples[:3], 'text': ''}
    if st in ('fail', 'crash', 'hang', 'error'):
        i = txt.find('FAIL ')
        r['text'] = txt[i:i + 3000] if st == 'fail' else txt[-6000:][:3500]
        r['rc'] = p.returncode
    return r

PROGS = {}
def unit_job(args):
    """runs in a forked worker"""
    name, tu, fn, opts, tier = args
    import verify, prove
    t0 = time.time()
    out = {'unit': name, 'tu': tu, 'obl': [], 'fails': [], 'runs': [], 'error': None, 'functions': [], 'contracts': [], 'lib': [], 'loops': [], 'bounds': []}
    prog = PROGS.get(tu)
    if isinstance(prog, str):
        out['error'] = prog
        out['kind'] = 'extract'
        return out
    V = verify.Verifier(prog, name, timeout=opts.get('timeout', 20) * (3 if tier == 'thorough' else 1))
    prog.used = {}
    prove.STATS.clear()
    try:
        fn(V)
    except (verify.Unsupported, front.ExtractError) as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['kind'] = 'reach'
    except RecursionError as e:
        out['error'] = 'recursion limit'
        out['kind'] = 'reach'
    except Exception as e:
        out['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4))
        out['kind'] = 'reach'
    out['obl'], out['fails'], out['runs'] = V.obl, V.fails, V.runs
    out['functions'] = sorted({(q, f.replace(REPO + '/', ''), l) for (q, f, l) in prog.used if f.startswith(REPO)})
    out['contracts'] = sorted(V.used_contracts)
    out['lib'] = sorted(V.used_lib)
    out['loops'] = sorted(V.loops_cut)
    out['bounds'] = V.bounds
    out['stats'] = {k: [v[0], round(v[1], 2)] for k, v in prove.STATS.items()}
    out['time'] = round(time.time() - t0, 2)
    return out

def extract_job(a):
    tu, libs, stubs = a
    try:
        return tu, front.extract(tu, libs=libs, stubs=stubs)
    except front.ExtractError as e:
        return tu, str(e)

def worker(job, path):
    try:
        r = unit_job(job)
    except BaseException as e:
        r = {'unit': job[0], 'tu': job[1], 'obl': [], 'fails': [], 'runs': [], 'error': 'worker: %r' % e, 'kind': 'reach', 'functions': [], 'contracts': [], 'lib': [], 'loops': [], 'bounds': [], 'stats': {}, 'time': 0}
    with open(path, 'w') as f:
        json.dump(r, f)
    os._exit(0)

def run_units(jobs, d, nproc, limit, bad=lambda: False):
    """bad(): a failing input is known; the units then get 20 s more to name the obligations that fail"""
    since = None
    ctxm = mp.get_context('fork')
    todo = list(enumerate(jobs))
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < nproc:
            i, j = todo.pop(0)
            path = os.path.join(d, 'unit%d.json' % i)
            p = ctxm.Process(target=worker, args=(j, path))
            p.start()
            live[i] = (p, path, j, time.time())
        for i, (p, path, j, t0) in list(live.items()):
            if not p.is_alive():
                p.join()
                try:
                    res[i] = json.load(open(path))
                except Exception:
                    res[i] = {'unit': j[0], 'tu': j[1], 'obl': [], 'fails': [], 'runs': [], 'error': 'the worker ended without a result (exit %s)' % p.exitcode, 'kind': 'reach', 'functions': [], 'contracts': [], 'lib': [], 'loops': [], 'bounds': [], 'stats': {}, 'time': 0}
                del live[i]
            elif time.time() - t0 > limit or since and time.time() - since > 20:
                subprocess.run(['pkill', '-9', '-P', str(p.pid)], capture_output=True)
                p.kill()
                p.join()
                res[i] = {'unit': j[0], 'tu': j[1], 'obl': [], 'fails': [], 'runs': [], 'error': 'stopped, a failing input is known' if since else 'time limit of %d s' % limit, 'kind': 'reach', 'functions': [], 'contracts': [], 'lib': [], 'loops': [], 'bounds': [], 'stats': {}, 'time': limit}
                del live[i]
        if since is None and bad():
            since = time.time()
        if since and time.time() - since > 20 and todo:
            for i, j in todo:
                res[i] = {'unit': j[0], 'tu': j[1], 'obl': [], 'fails': [], 'runs': [], 'error': 'stopped, a failing input is known', 'kind': 'reach', 'functions': [], 'contracts': [], 'lib': [], 'loops': [], 'bounds': [], 'stats': {}, 'time': 0}
            todo = []
        time.sleep(0.02)
    return [res[i] for i in sorted(res)]

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def scan_trusted():
    """assumptions written in the specification files, found mechanically on every run"""
    n = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'props', '*.py'))):
        s = open(f).read()
        n[os.path.basename(f)] = len(re.findall(r'\.assume\(', s))
    return n

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    prop = registry.PROPS[pid]
    t0 = time.time()
    d = os.path.join(WORK, '%s-%d' % (pid, os.getpid()))
    os.makedirs(d, exist_ok=True)
    rdir = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rc = 1
    try:
        rc = check(pid, prop, tier, seed, t0, d, rdir)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

def check(pid, prop, tier, seed, t0, d, rdir):
    import threading
    hs = prop.get('replay')
    box = {}
    secs = prop.get('secs', 6) * (8 if tier == 'thorough' else 1)
    def hrun():
        exe, err = compile_harness(hs, d)
        box['exe'], box['err'] = exe, err
        if exe:
            box['res'] = run_harness(exe, pid, secs, seed, d)
    # extraction (parallel), then units
    tus = {}
    for u in prop['units']:
        tus[u['tu']] = (u['tu'], tuple(u.get('libs', ())), u.get('stubs', False))
    front.ensure_tool()
    th = None
    te = time.time()
    with mp.get_context('fork').Pool(min(4, max(1, len(tus)))) as pool:
        for tu, pr in pool.imap_unordered(extract_job, tus.values()):
            PROGS[tu] = pr
    te = time.time() - te
    jobs = [(u['name'], u['tu'], u['fn'], u.get('opts', {}), tier) for u in prop['units']]
    if hs:
        th = threading.Thread(target=hrun)
        # workers fork before the thread starts touching anything shared
        th.start()
    res = run_units(jobs, d, 7, 300 if tier == 'quick' else 2400, lambda: (box.get('res') or {}).get('status') in ('fail', 'crash', 'hang'))
    if th:
        th.join()
    hres = box.get('res')
    obl = [o for r in res for o in r['obl']]
    fails = [o for r in res for o in r['fails']]
    reach = [r for r in res if r['error']]
    # counterexample values steer a second run of the harness
    hints = []
    for o in fails:
        for v in (o.get('model') or {}).values():
            try:
                hints.append(float(eval_num(v)))
            except Exception:
                pass
    runs = [hres] if hres else []
    if box.get('exe') and hres and hres['status'] == 'ok' and (fails or reach):
        for k in range(2):
            h2 = run_harness(box['exe'], pid, 20 if tier == 'quick' else 60, seed * 1000 + 17 + k, d, hints, tag='b%d' % k)
            runs.append(h2)
            if h2['status'] != 'ok':
                hres = h2
                break
    bad = hres is not None and hres['status'] in ('fail', 'crash', 'hang')
    nobl = len(obl)
    ndis = sum(1 for o in obl if o['status'] == 'proved')
    harness_broken = hs is not None and (box.get('exe') is None or (hres and hres['status'] == 'error'))
    # ------------------------------------------------------------ verdict
    known = known_findings(pid)
    kf = []
    for key, text in known:
        kf.append('KNOWN-FINDING: property=%s %s' % (pid, text))
    viol = None
    rp = os.path.join(rdir, '%s.txt' % pid)
    lines = []
    if bad:
        viol = 'input'
    elif fails:
        viol = 'obligation'
    elif reach and harness_broken:
        viol = 'unbuildable'
    elif harness_broken:
        viol = 'harness'
    elif not nobl and not reach:
        viol = 'vacuous'
    if viol:
        lines.append('property %s: %s' % (pid, prop['title']))
        if bad:
            lines += ['', 'Failing input on the real code (harness %s, seed %d): %s' % (hs['src'], seed, hres['status']), 'case: ' + hres['case'], hres['text']]
        for o in fails:
            lines += ['', 'Undischarged obligation: %s' % o['name'], '  contract: %s   kind: %s   status: %s (%s)' % (o['run'], o['kind'], o['status'], o['backend']), '  goal: ' + str(o.get('goal', ''))]
            if o.get('model'):
                lines += ['  counterexample: ' + json.dumps(o['model'])]
        for r in reach:
            lines += ['', 'Unit %s: %s' % (r['unit'], r['error'])]
        if harness_broken:
            lines += ['', 'harness does not build / run:', (box.get('err') or (hres or {}).get('text') or '')[:3000]]
        with open(rp, 'w') as f:
            f.write('\n'.join(lines) + '\n')
    # ------------------------------------------------------------ evidence
    stats = {}
    for r in res:
        for k, v in (r.get('stats') or {}).items():
            s = stats.setdefault(k, [0, 0.0])
            s[0] += v[0]
            s[1] = round(s[1] + v[1], 2)
    by = {}
    for o in obl:
        if o['status'] == 'proved':
            by[o['backend']] = by.get(o['backend'], 0) + 1
    fnset = sorted({tuple(f) for r in res for f in r['functions']})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'proof'),
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': 'cd /verif && python3-vt vc/check.py %s' % pid,
            'trusted_base': prop.get('trusted', []) + registry.TRUSTED,
            'discharged_by_backend': by, 'solver_calls_and_seconds': stats,
            'functions_executed_symbolically': ['%s (%s)' % (q, f) for q, f, l in fnset],
            'functions_used_through_contract': sorted({c for r in res for c in r['contracts']}),
            'library_contracts_assumed': sorted({c for r in res for c in r['lib']}),
            'loops_cut_by_invariant': sorted({c for r in res for c in r['loops']}),
            'contracts': [dict(x, unit=r['unit']) for r in res for x in r['runs']],
            'bounded_units': [r['unit'] + ': ' + str(r['error'])[:300] for r in reach] + [b for r in res for b in r['bounds']],
            'units': [{'unit': r['unit'], 'tu': r['tu'], 'seconds': r.get('time')} for r in res],
            'extraction_seconds': round(te, 2),
            'spec_assumptions_scan': scan_trusted(),
            'replay_cases_on_real_code': sum(r['cases'] for r in runs if r), 'replay_checks': sum(r['checks'] for r in runs if r),
            'replay_samples': [s for r in runs if r for s in r['samples']][:4],
            'known_findings': [t for _, t in known],
        },
        'assumptions': prop.get('assumptions', []) + registry.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in kf:
        print(l)
    print('%s: %d obligations, %d discharged, %d units, %d replay cases, %.1f s' % (pid, nobl, ndis, len(res), ev['coverage']['replay_cases_on_real_code'], ev['wall_s']))
    for r in reach:
        print('NOTE: unit %s is out of the verifier\'s reach on this source (%s); bounded replay stands in' % (r['unit'], str(r['error']).split('\n')[0][:200]))
    if '-v' in sys.argv:
        for o in fails:
            print('  undischarged:', o['run'], '|', o['name'], '|', o['status'])
        if viol:
            print('\n'.join(lines)[:3000])
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if bad else ' no-failing-input-found'))
        return 1
    return 0

def eval_num(v):
    v = str(v)
    m = re.match(r'^\(?-?\d+\)?$', v)
    if '/' in v:
        a, b = v.split('/')
        return float(a) / float(b)
    return float(v.rstrip('?'))

if __name__ == '__main__':
    main()
