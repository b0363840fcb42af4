#!/usr/bin/env python3-vt
"""Driver of one property's check:   run.py ID [-v] [--only TASK] [--tier quick|thorough]

1 compile the property's instantiation file (wrappers over /repo's public API) to LLVM IR from /repo's current sources
2 run every contract task in its own process; each symbolically executes the real functions and discharges obligations
3 run the native oracle: a short smoke run always; a longer directed search for a failing input when an obligation failed
4 write evidence/<ID>.json; exit 0 / 1 (VIOLATION line) / 2 (no answer)"""
import sys, os, time, json, subprocess, tempfile, shutil, multiprocessing as mp, importlib.util, re, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
REPO = os.environ.get('CE_REPO', '/repo')
CXX = ['clang++-18', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-I' + REPO + '/lib/h', '-I' + HERE, '-w']

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def compile_ir(src, out, flags=()):
    a = sh(CXX + list(flags) + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', src, '-o', out + '.0'])
    if a.returncode: return a.stderr
    a = sh(['opt-18' if shutil.which('opt-18') else 'opt', '-S', '-passes=function(sroa,instsimplify,simplifycfg)', out + '.0', '-o', out])
    return a.stderr if a.returncode else None

def load_spec(pid):
    import spec
    spec.TASKS.clear()
    sp = importlib.util.spec_from_file_location('prop_' + pid, os.path.join(ROOT, 'props', pid, 'spec.py'))
    m = importlib.util.module_from_spec(sp); sys.path.insert(0, os.path.join(ROOT, 'props', pid)); sp.loader.exec_module(m)
    return m, list(spec.TASKS)

def run_task(pid, ll, tname, verbose, deadline, q):
    """in a child process"""
    res = dict(task=tname, obl=[], error=None, stats={}, inlined=[], contracted=[], assumptions=[], consts=[], loops=[])
    t0 = time.time()
    eng = []
    try:
        import ir, spec, engine
        if os.environ.get('CEV_PROF'): import prof
        m, tasks = load_spec(pid)
        t = next(x for x in tasks if x['name'] == tname)
        kw = t['kw']
        mod = ir.load(ll[kw.get('inst', getattr(m, 'INST', 'inst.cpp'))], getattr(m, 'FPBITS', False))
        T = spec.T(mod, tname, verbose); eng = T.engines
        T.deadline = deadline
        try: t['fn'](T)
        except engine.Unsupported as ex: res['error'] = 'not translated: ' + str(ex)
        except Exception as ex:
            res['error'] = 'engine: %s: %s' % (type(ex).__name__, str(ex)[:200])
            tb = traceback.extract_tb(sys.exc_info()[2]); res['error'] += ' @' + ' '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb[-4:])
    except Exception as ex:
        res['error'] = 'driver: %s %s' % (type(ex).__name__, str(ex)[:300])
        if verbose: traceback.print_exc()
    names = set()
    for e in eng:
        for o in e.obl: res['obl'].append({k: (v if k != 'model' else {a: b for a, b in v.items()}) for k, v in o.items()})
        for k, v in e.stats.items(): res['stats'][k] = res['stats'].get(k, 0) + v
        res['stats']['trivial'] = res['stats'].get('trivial', 0) + getattr(e, 'ntriv', 0)
        res['inlined'] += [x[:160] for x in e.inlined]; res['contracted'] += [x[:200] for x in e.contracted]; res['assumptions'] += list(e.assumptions)
        names |= e.inlined
        res['loops'] += [(a, b) for a, b, c in e.loop_log]
    try:
        cs = set()
        import ir as _ir
        if eng:
            for f in eng[0].mod.fns.values():
                if f.demangled in names:
                    for b in f.blocks:
                        for I in b.ins:
                            for o in I.ops or ():
                                if isinstance(o, _ir.Const) and o.k == 'int' and isinstance(o.v, int): cs.add(o.v & (1 << 64) - 1)
                            if I.op == 'switch': cs.update(x & (1 << 64) - 1 for x in I.cases if isinstance(x, int))
        res['consts'] = sorted(cs)[:2000]
    except Exception: pass
    res['time'] = time.time() - t0
    if 'prof' in sys.modules: sys.modules['prof'].report()
    q.put(json.dumps(res, default=str))

def run_tasks(pid, ll, names, verbose, budget, tier):
    jobs = max(1, min(8, os.cpu_count() or 4)); pend = list(names); live = []; done = []
    ctx = mp.get_context('fork'); start = time.time()
    while pend or live:
        while pend and len(live) < jobs:
            n = pend.pop(0); q = ctx.SimpleQueue()
            p = ctx.Process(target=run_task, args=(pid, ll, n, verbose, start + budget, q)); p.start(); live.append((n, p, q, time.time()))
        time.sleep(0.02)
        for x in list(live):
            n, p, q, t = x
            if not q.empty():
                done.append(json.loads(q.get())); p.join(5); live.remove(x)
                if p.is_alive(): p.kill()
            elif not p.is_alive():
                if not q.empty(): continue
                done.append(dict(task=n, obl=[], error='task process died (%s)' % p.exitcode, stats={}, inlined=[], contracted=[], assumptions=[], consts=[], loops=[], time=time.time() - t)); live.remove(x)
            elif time.time() > start + budget + 20:
                p.kill(); done.append(dict(task=n, obl=[], error='time budget exhausted', stats={}, inlined=[], contracted=[], assumptions=[], consts=[], loops=[], time=time.time() - t)); live.remove(x)
    return done

def native_build(pid, tmp, m):
    src = os.path.join(ROOT, 'props', pid, 'replay.cpp')
    if not os.path.exists(src): return None, 'no oracle'
    exe = os.path.join(tmp, 'replay')
    extra = [x.replace('$REPO', REPO) for x in getattr(m, 'NATIVE', ['$REPO/lib/os.cpp', '$REPO/lib/os_posix.cpp', '$REPO/lib/to_text.cpp'])]
    san = getattr(m, 'SAN', ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,function,vptr', '-fno-sanitize-recover=all'])
    a = sh(CXX + ['-O1', '-g', *san, src, *extra, '-o', exe, '-lpthread'])
    return (exe, None) if a.returncode == 0 else (None, a.stderr[-2000:])

def native(exe, mode, seed, secs, hints, jobs=1):
    """returns (found: dict|None, cases)"""
    hf = exe + '.hints'
    with open(hf, 'w') as f: f.write('\n'.join(str(h) for h in hints) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=77')
    ps = [subprocess.Popen([exe, mode, str(seed * 1000 + j), str(secs), hf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env) for j in range(jobs)]
    found = None; cases = 0; distinct = 0; err = None
    for p in ps:
        try: o, e = p.communicate(timeout=secs + 60)
        except subprocess.TimeoutExpired: p.kill(); o, e = p.communicate(); p.returncode = -9
        for l in o.split('\n'):
            if l.startswith('CASES '): cases += int(l.split()[1])
        if p.returncode != 0:
            fl = [l for l in (o + '\n' + e).split('\n') if l.startswith('FAIL') or l.startswith('CASE ') or 'runtime error' in l or 'ERROR: ' in l]
            if p.returncode in (1, 77, -5, -6, -11, -8, 124) and any(l.startswith('CASE ') for l in fl): found = found or dict(rc=p.returncode, lines=fl[:12], stderr=e[-1500:])
            else: err = 'oracle ended with %s: %s' % (p.returncode, (o + e)[-400:])
    return found, cases, err

def main():
    pid = sys.argv[1]; verbose = '-v' in sys.argv; only = None
    if '--only' in sys.argv: only = sys.argv[sys.argv.index('--only') + 1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='cev_' + pid + '_')
    try: rc = check(pid, tmp, verbose, only, tier, seed, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def known(pid):
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): out.append(l.split(' ', 2)[2])
    except OSError: pass
    return out

def check(pid, tmp, verbose, only, tier, seed, t0):
    m, tasks = load_spec(pid)
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, pid + '.replay.txt')
    if os.path.exists(rp): os.unlink(rp)
    insts = sorted({t['kw'].get('inst', getattr(m, 'INST', 'inst.cpp')) for t in tasks})
    ll = {}; cerr = []
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        fn = {i: ex.submit(compile_ir, os.path.join(ROOT, 'props', pid, i), os.path.join(tmp, i + '.ll'), getattr(m, 'FLAGS', ())) for i in insts}
        nb = ex.submit(native_build, pid, tmp, m)
        for i, f in fn.items():
            e = f.result(); ll[i] = os.path.join(tmp, i + '.ll')
            if e: cerr.append('%s: %s' % (i, e[-1500:]))
        exe, nerr = nb.result()
    if nerr and not nerr == 'no oracle': print('oracle does not build:', nerr[-800:])
    names = [t['name'] for t in tasks if only is None or re.search(only, t['name'])]
    budget = getattr(m, 'BUDGET', 420 if tier == 'quick' else 700)
    res = []
    if not cerr: res = run_tasks(pid, ll, names, verbose, budget, tier)
    obl = [dict(o, task=r['task']) for r in res for o in r['obl']]
    errs = [(r['task'], r['error']) for r in res if r['error']] + [('compile', e) for e in cerr]
    bad = [o for o in obl if o['status'] != 'proved']
    empty = [r['task'] for r in res if not r['error'] and not [o for o in r['obl'] if not o.get('cover')]]
    for t in empty: errs.append((t, 'task generated no obligation'))
    refuted = [o for o in bad if o['status'] == 'refuted']
    consts = []
    for r in res: consts += r['consts']
    for o in bad:
        for k, v in (o.get('model') or {}).items():
            if isinstance(v, int) and not isinstance(v, bool): consts.insert(0, v & (1 << 64) - 1)
    seen = set(); hints = [c for c in consts if not (c in seen or seen.add(c))][:3000]
    failing = bool(bad or errs)
    found = None; cases = 0; oerr = None; searched = 0
    if exe:
        secs = getattr(m, 'SMOKE', 4) if tier == 'quick' else 60
        if failing: secs = getattr(m, 'SEARCH', 60)
        if '--nosearch' in sys.argv: secs = 1
        found, cases, oerr = native(exe, 'search', seed, secs, hints, 8 if failing else 4); searched = secs
    wall = time.time() - t0
    nob = [o for o in obl if not o.get('cover')]
    disc = [o for o in nob if o['status'] == 'proved']
    be = {}
    for o in disc: be[o['backend']] = be.get(o['backend'], 0) + 1
    st = {}
    for r in res:
        for k, v in r['stats'].items(): st[k] = round(st.get(k, 0) + v, 3)
    fu = sorted({x for r in res for x in r['inlined']}); fc = sorted({x for r in res for x in r['contracted']})
    findings = known(pid)
    evd = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(wall, 2), violations=1 if (found or failing) else 0,
        assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + sorted({x for r in res for x in r['assumptions']}) + ['known finding: ' + f for f in findings],
        coverage=dict(obligations=len(nob), discharged=len(disc), checker_cmd='python3-vt /verif/cev/run.py %s' % pid,
            trusted_base=['clang 18 front end and -O0 IR with sroa/instsimplify/simplifycfg', 'verifier /verif/cev (ir.py, dom.py, engine.py, gf2.py)', 'z3 5.3.2 / cvc5 1.1.2'] + list(getattr(m, 'TRUSTED', [])),
            by_backend=be, syntactically_decided_bounds_checks=st.get('trivial', 0), solver_queries=st.get('queries', 0), solver_time_s=st.get('qtime', 0), paths=st.get('paths', 0),
            vacuity_covers=len([o for o in obl if o.get('cover')]), tasks=[dict(task=r['task'], obligations=len([o for o in r['obl'] if not o.get('cover')]), undischarged=len([o for o in r['obl'] if o['status'] != 'proved']), error=r['error'], seconds=round(r['time'], 2)) for r in res],
            functions_executed=fu, functions_under_contract_at_calls=fc,
            bounded_native_crosscheck=dict(label='bounded, not counted as proved', evaluations=cases, seconds=searched, failing_input=bool(found)),
            undischarged=[dict(name=o['name'], status=o['status'], goal=o.get('goal')) for o in bad][:20], errors=['%s: %s' % e for e in errs][:10]))
    if only is None:
        with open(os.path.join(ev, pid + '.json'), 'w') as f: json.dump(evd, f, indent=1)
    print('%s: %d obligations, %d discharged, %d tasks, %d native cases, %.1fs' % (pid, len(nob), len(disc), len(res), cases, wall))
    for o in bad[:12]: print('  undischarged [%s] %s :: %s' % (o['status'], o['name'], (o.get('goal') or '')[:200].replace('\n', ' ')))
    for e in errs[:8]: print('  error %s: %s' % (e[0], e[1][:300]))
    if verbose:
        for r in sorted(res, key=lambda r: -r['time'])[:12]: print('   %-40s %3d obl %6.1fs' % (r['task'], len(r['obl']), r['time']))
    for f in findings: print('KNOWN-FINDING: property=%s %s' % (pid, f))
    if found or failing:
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            if found:
                f.write('FAILING INPUT (native run against /repo):\n' + '\n'.join(found['lines']) + '\n\nreproduce: cd /verif && python3-vt cev/replay.py %s\n' % rp)
                for l in found['lines']:
                    if l.startswith('CASE '): f.write('REPLAY ' + l[5:] + '\n')
                f.write('HINTS ' + ' '.join(map(str, hints)) + '\n')
            f.write('\nundischarged obligations:\n')
            for o in bad: f.write('- [%s, %s] %s\n    goal: %s\n    path: %s\n    model: %s\n' % (o['status'], o['backend'], o['name'], o.get('goal'), o.get('trail'), o.get('model')))
            for e in errs: f.write('- [not translated] task %s: %s\n' % e)
            if found: f.write('\nstderr:\n' + found['stderr'])
    if found:
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    if oerr: print('  oracle:', oerr)
    if cerr and not exe:
        print('no answer: the instantiation file does not compile against /repo'); return 2
    if failing:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); return 1
    if oerr or (nerr and nerr != 'no oracle'): return 2
    return 0

if __name__ == '__main__': main()
