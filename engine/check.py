"""check.py PROPERTY quick|thorough : decides one property from /repo's current sources."""
import sys, os, time, json, pickle, hashlib, glob, importlib, traceback, tempfile, shutil, signal, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'contracts'))
import z3
import prog as progmod
from prog import ToolError, BUILD, REPO
import fol, core, spec, replay
from fol import prove, bv

T0 = time.time()
DEADLINE = float(os.environ.get('VP_DEADLINE', '780'))
def left(): return DEADLINE - (time.time() - T0)

def load_prog(extra=()):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, 'src', 'pe_lib', '*')) + [os.path.join(VERIF, 'extract', 'extract.cpp'), os.path.join(VERIF, 'extract', 'inst.cpp'), os.path.join(HERE, 'prog.py')] + list(extra)):
        h.update(os.path.basename(f).encode()); h.update(open(f, 'rb').read())
    pk = os.path.join(BUILD, 'prog-%s.pkl' % h.hexdigest()[:16])
    if os.path.exists(pk):
        try: return pickle.load(open(pk, 'rb'))
        except Exception: pass
    p = progmod.load(extra=extra)
    os.makedirs(BUILD, exist_ok=True)
    for o in glob.glob(os.path.join(BUILD, 'prog-*.pkl')):
        try: os.unlink(o)
        except OSError: pass
    t = pk + '.%d' % os.getpid(); pickle.dump(p, open(t, 'wb')); os.rename(t, pk)
    return p

def load_contracts():
    import common
    for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.py'))):
        m = os.path.basename(f)[:-3]
        if m != 'common': importlib.import_module(m)
    return common

def sig(fn): return '%s(%s)%s' % (fn['qn'].replace('pe_bliss::', ''), ', '.join(p['t'].replace('pe_bliss::', '') for p in fn['params']), ' const' if fn.get('const') else '')

PROG = CONS = CALLS = None
def usedcon(ci, k):
    """the contract that stood for function k while verifying contract ci"""
    for c in reversed(CONS[ci].opts.get('use', ())):
        if any(f['key'] == k for f in c.matches(PROG)): return c
    return CALLS[k]
def job(a):
    """verify one function against its contract in one configuration"""
    ci, key, cfg, tmo = a
    con = CONS[ci]; fn = PROG.funcs[key]
    t0 = time.time()
    r = {'fn': sig(fn), 'cfg': cfg, 'ci': ci, 'key': key, 'obls': [], 'error': None, 'loc': fn.get('loc')}
    signal.signal(signal.SIGALRM, lambda *x: (_ for _ in ()).throw(TimeoutError()))
    signal.alarm(int(tmo))
    try:
        g = spec.generate(PROG, con, fn, cfg, CALLS)
        r['gen'] = time.time() - t0
        r['used'] = sorted(g.used_contracts); r['inlined'] = sorted(g.inlined); r['trusted'] = sorted(g.trusted)
        r['usedkeys'] = sorted(getattr(g, 'used_keys', ()))
        r['inv'] = g.stat.get('inv', 0); r['failed_invs'] = g.failed_invs
        def one(o):
            x = prove(o.hyps, o.goal, timeout=con.opts.get('timeout', 60), rounds=con.opts.get('rounds', 3), maxinst=con.opts.get('maxinst', 600), want_model=False)
            return (o.kind, o.label, o.loc, x.status, round(x.t, 3), x.backend, x.ninst)
        t1 = time.time(); rest = list(g.obls)
        while rest and (time.time() - t1 < 12 or len(rest) == 1): r['obls'].append(one(rest.pop(0)))
        if rest: r['obls'] += forked(one, rest, 5)
        cov = {}
        for k, pc in sorted(g.covers, key=lambda kp: len(kp[1])):
            if cov.get(k) == 'refuted': continue
            cov[k] = prove(pc, z3.BoolVal(False), timeout=10, maxinst=200, want_model=False).status
        r['covers'] = cov
        r['pre'] = prove(g.precond, z3.BoolVal(False), timeout=10, want_model=False).status if g.precond else 'refuted'
    except TimeoutError: r['error'] = 'timeout after %ds' % tmo
    except ToolError as e: r['error'] = 'unsupported: %s' % e
    except RecursionError: r['error'] = 'unsupported: recursion depth'
    except Exception as e:
        r['error'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:300]); r['tb'] = traceback.format_exc()[-1500:]
    finally: signal.alarm(0)
    r['time'] = time.time() - t0
    return r

def tasks(fn, items, n, tmo, mem):
    """run fn on every item, each in a process of its own with limits on memory (GB) and time (s); yields (item, result or None, why lost)"""
    import selectors, resource
    sel = selectors.DefaultSelector(); run = {}; items = list(items)[::-1]
    try:
        while items or run:
            while items and len(run) < n:
                it = items.pop(); rd, wr = os.pipe(); pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.setsid(); os.close(rd); signal.signal(signal.SIGINT, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_AS, (mem << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
                        d = pickle.dumps(fn(it))
                        with os.fdopen(wr, 'wb') as f: f.write(d)
                        code = 0
                    except BaseException: pass
                    os._exit(code)
                os.close(wr); run[rd] = [pid, it, time.time(), []]; sel.register(rd, selectors.EVENT_READ)
            for k, _ in sel.select(1.0):
                b = os.read(k.fd, 1 << 20)
                if b: run[k.fd][3].append(b); continue
                sel.unregister(k.fd); os.close(k.fd); pid, it, t, buf = run.pop(k.fd); st = os.waitpid(pid, 0)[1]
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: pass
                try: yield it, pickle.loads(b''.join(buf)), None
                except Exception: yield it, None, 'worker ended (status %d)' % st
            for fd in [f for f, r in run.items() if time.time() - r[2] > tmo]:
                sel.unregister(fd); os.close(fd); pid, it, t, buf = run.pop(fd)
                for kill in (os.killpg, os.kill):
                    try: kill(pid, signal.SIGKILL)
                    except OSError: pass
                os.waitpid(pid, 0); yield it, None, 'timeout after %ds' % tmo
    finally:
        for pid, it, t, buf in run.values():
            for kill in (os.killpg, os.kill):
                try: kill(pid, signal.SIGKILL)
                except OSError: pass

def forked(fn, items, n):
    """map fn over items in up to n child processes"""
    n = min(n, len(items)); kids = []
    for w in range(n):
        rd, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.alarm(0); os.close(rd)
                res = [(i, fn(items[i])) for i in range(w, len(items), n)]
                with os.fdopen(wr, 'wb') as f: pickle.dump(res, f)
                code = 0
            except BaseException: pass
            os._exit(code)
        os.close(wr); kids.append((pid, rd))
    out = {}
    try:
        for pid, rd in kids:
            with os.fdopen(rd, 'rb') as f: data = f.read()
            os.waitpid(pid, 0)
            if not data: raise ToolError('obligation worker failed')
            for i, r in pickle.loads(data): out[i] = r
    except BaseException:
        for pid, rd in kids:
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
        raise
    return [out[i] for i in range(len(items))]

def rjob(a):
    ci, key, cfg, work, budget = a
    con = CONS[ci]; fn = PROG.funcs[key]
    d = tempfile.mkdtemp(dir=work)
    signal.signal(signal.SIGALRM, lambda *x: (_ for _ in ()).throw(TimeoutError()))
    signal.alarm(int(budget) + 30)
    try:
        for un in (3, 6):
            res, why = replay.try_replay(PROG, con, fn, cfg, unroll=un, timeout=12, budget=budget / 2, workdir=d)
            if res: return (a[:3], res, None)
        return (a[:3], None, why)
    except TimeoutError: return (a[:3], None, 'replay timeout')
    except Exception as e: return (a[:3], None, 'replay engine: %s %s' % (type(e).__name__, str(e)[:200]))
    finally: signal.alarm(0)

def run_harness(name, tier, seed, work, secs):
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    exe = os.path.join(work, name)
    replay.compile_driver(src, exe)
    try:
        r = subprocess.run([exe, tier, str(seed), str(int(secs))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs * 3 + 60, env=replay.ENV, cwd=work)
        out, err, rc = r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace'), r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace'), 'timeout'
    res = {'name': name, 'rc': rc, 'stat': {}, 'samples': [], 'fails': [], 'err': err[-4000:]}
    for l in out.split('\n'):
        if l.startswith('STAT '): k, v = l[5:].rsplit(' ', 1); res['stat'][k] = int(v)
        elif l.startswith('SAMPLE ') and len(res['samples']) < 4: res['samples'].append(l[7:400])
        elif l.startswith('FAIL '): res['fails'].append(l[5:2000])
    if rc == 'timeout': res['fails'].append('termination: no answer within %d s (case %s)' % (secs * 3 + 60, last_case(err)))
    elif rc != 0 and not res['fails']: res['fails'].append('abnormal termination rc=%s: %s (case %s)' % (rc, replay.first_err(err), last_case(err)))
    return res
def last_case(err):
    c = [l for l in err.split('\n') if l.startswith('CASE ')]
    return c[-1][5:] if c else '?'

def known_findings(prop):
    f = os.path.join(VERIF, 'known_findings.txt'); res = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): res.append(l.split(' ', 2)[2])
    return res

def main():
    global PROG, CONS, CALLS
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    work = tempfile.mkdtemp(prefix='vpchk')
    try: return run(prop, tier, seed, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def run(prop, tier, seed, work):
    global PROG, CONS, CALLS
    os.environ['VP_TIER'] = tier
    common = load_contracts()
    CONS = common.ALL
    META = common.PROPS.get(prop, {})
    notes = []
    try: PROG = load_prog()
    except ToolError as e:
        PROG = None; notes.append('extraction failed, nothing proved: %s' % e)
    results = []
    missing = []; elsewhere = set(); assumed = set()
    if PROG is not None:
        CALLS = {}
        for f in common.EXPANDERS: f(PROG)
        idx = {}
        for i, c in enumerate(CONS):
            for f in c.matches(PROG):
                if not c.opts.get('nocall') and f['key'] not in CALLS: CALLS[f['key']] = c
                idx.setdefault(f['key'], []).append(i)
        todo = []; seen = set()
        for i, c in enumerate(CONS):
            if prop not in c.props: continue
            fs = c.matches(PROG)
            if not fs: missing.append(c.qn)
            for f in fs:
                for cfg in (c.opts.get('quick_cfgs', c.cfgs) if tier == 'quick' else c.cfgs): todo.append((i, f['key'], cfg))
        per = 300 if tier == 'quick' else 900
        if True:
            while todo:
                batch = [(i, k, cfg, per) for (i, k, cfg) in todo if (i, k, cfg) not in seen]
                seen |= set(todo); todo = []
                for it, r, why in tasks(job, batch, 8, min(per + 60, max(30, left())), 6):
                    if r is None: r = {'fn': sig(PROG.funcs[it[1]]), 'cfg': it[2], 'ci': it[0], 'key': it[1], 'obls': [], 'error': why, 'loc': None, 'time': 0.0}
                    results.append(r)
                    # contracts assumed at call sites are proved in the same run
                    for k in r.get('usedkeys', []):
                        c = usedcon(r['ci'], k); i = CONS.index(c); by = CONS[r['ci']].opts.get('by')
                        if c.opts.get('assumed'): assumed.add(sig(PROG.funcs[k])); continue
                        if tier == 'quick' and by and by != prop and by in c.props: elsewhere.add((by, sig(PROG.funcs[k]))); continue
                        for cfg in c.cfgs:
                            if cfg == r['cfg'] and (i, k, cfg) not in seen: todo.append((i, k, cfg))
                todo = list(dict.fromkeys(todo))
    nob = sum(len(r['obls']) for r in results); dis = sum(1 for r in results for o in r['obls'] if o[3] == 'valid')
    failed = [r for r in results if any(o[3] != 'valid' for o in r['obls'])]
    undecided = [r for r in results if r['error']]
    vacuous = [r for r in results if not r['error'] and (r.get('pre') == 'valid' or (r.get('covers') and all(v == 'valid' for v in r['covers'].values())))]
    # bounded stand-ins
    hs = list(META.get('bounded', [])) + (list(META.get('fallback', [])) if (failed or undecided or missing or PROG is None) else [])
    hres = []
    if hs:
        secs = max(5, min(META.get('secs', 15) if tier == 'quick' else 120, left() / (len(hs) + 1)))
        import concurrent.futures as cf
        try:
            replay.build_lib()
            with cf.ThreadPoolExecutor(4) as ex: hres = list(ex.map(lambda h: run_harness(h, tier, seed, work, secs), hs))
        except ToolError as e: notes.append('bounded stand-in not run: %s' % e)
    violations = []   # (label, text, concrete?)
    for h in hres:
        for f in h['fails']: violations.append(('bounded check %s: %s' % (h['name'], f), json.dumps({'harness': h['name'], 'seed': seed, 'tier': tier, 'fail': f, 'stderr': h['err'][-3000:]}, indent=1), True))
    # replay of failed obligations
    if failed:
        jobs = [(r['ci'], r['key'], r['cfg'], work, max(30, min(150, left() / 3))) for r in failed[:16]]
        try: replay.build_lib()
        except ToolError as e: notes.append('replay build: %s' % e); jobs = []
        rr = {}
        if jobs and left() > 60:
            for it, r, why in tasks(rjob, jobs, 8, max(45, min(240, left() - 20)), 5):
                if r is None: rr[it[:3]] = (None, 'replay: ' + why)
                else: rr[r[0]] = r[1:]
        for r in failed:
            res, why = rr.get((r['ci'], r['key'], r['cfg']), (None, 'not replayed'))
            bad = [o for o in r['obls'] if o[3] != 'valid']
            txt = {'function': r['fn'], 'config': 'PE32' if r['cfg'] == 32 else 'PE32+', 'failed_obligations': [dict(zip(('kind', 'label', 'location', 'status', 'time', 'backend', 'instances'), o)) for o in bad]}
            if res:
                txt['violated'] = res['clauses']; txt['input'] = json.loads(json.dumps(res['values'], default=lambda b: b.hex())); txt['outcome'] = json.loads(json.dumps(res['result'], default=lambda b: b.hex()))
                violations.append(('%s: %s' % (r['fn'], '; '.join(res['clauses'])), json.dumps(txt, indent=1)[:200000] + '\n--- driver ---\n' + res['source'], True))
            elif CONS[r['ci']].opts.get('soft') == 'all' and not r.get('failed_invs') and all(o[3] == 'unknown' for o in bad):
                notes.append('%s [%d]: undecided, the solvers gave up on %s' % (r['fn'], r['cfg'], bad[0][1]))
            elif CONS[r['ci']].opts.get('soft') and r.get('failed_invs'):
                notes.append('%s [%d]: undecided, its loop is no longer of the shape the invariants are stated for (%s)' % (r['fn'], r['cfg'], bad[0][1]))
            else:
                txt['replay'] = why
                violations.append(('%s: obligation not discharged: %s' % (r['fn'], bad[0][1]), json.dumps(txt, indent=1), False))
    for r in undecided: notes.append('%s [%d]: %s' % (r['fn'], r['cfg'], r['error']))
    for m in missing: notes.append('no function %s in the current source: its contract was not checked' % m)
    for r in vacuous: notes.append('vacuous: %s [%d]' % (r['fn'], r['cfg']))
    # findings
    kf = known_findings(prop); rep = []
    for lbl, txt, conc in violations:
        k = [x for x in kf if x.split(' :: ')[0] in lbl]
        if k: print('KNOWN-FINDING: property=%s %s' % (prop, k[0]))
        else: rep.append((lbl, txt, conc))
    rep.sort(key=lambda v: not v[2])
    evd = os.environ.get('VP_EVID') or os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
    for o in glob.glob(os.path.join(evd, 'replay-%s-*' % prop)): os.unlink(o)
    lines = []
    for n, (lbl, txt, conc) in enumerate(rep[:8]):
        path = os.path.join(evd, 'replay-%s-%d.txt' % (prop, n + 1))
        open(path, 'w').write('property %s\n%s\n%s\n' % (prop, lbl, txt))
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conc else ' no-failing-input-found'))
        print('# ' + lbl[:300])
    # a concrete violation speaks for the property; drop the weaker lines then
    if any(not l.endswith('found') for l in lines): lines = [l for l in lines if not l.endswith('no-failing-input-found')]
    for l in lines[:4]: print(l)
    fns = sorted({r['fn'] for r in results if not r['error']})
    proved = sorted(set(fns) - {r['fn'] for r in results if r['error'] or any(o[3] != 'valid' for o in r['obls'])})
    kinds = {}
    for r in results:
        for o in r['obls']: kinds[o[0]] = kinds.get(o[0], 0) + 1
    be = {}
    for r in results:
        for o in r['obls']: be[o[5]] = be.get(o[5], 0) + 1
    level = META.get('level', 'proof')
    cov = {'obligations': nob, 'discharged': dis,
           'checker_cmd': 'python3-vt /verif/engine/check.py %s %s' % (prop, tier),
           'contracts_proved_by_another_check': ['%s by %s' % (f, b) for b, f in sorted(elsewhere)],
           'trusted_base': sorted({'std contract: ' + t for r in results for t in r.get('trusted', [])}) + META.get('trusted', []) + ['assumed contract (body not verified): ' + x for x in sorted(assumed)] + common.TRUSTED,
           'functions_under_contract': fns, 'functions_proved': len(proved), 'inlined_functions': sorted({x.replace('pe_bliss::', '') for r in results for x in r.get('inlined', [])}),
           'callee_contracts_used': sorted({x.replace('pe_bliss::', '') for r in results for x in r.get('used', [])}),
           'obligation_kinds': kinds, 'backends': be, 'solver_s': round(sum(o[4] for r in results for o in r['obls']), 2), 'loop_invariants': sum(r.get('inv', 0) for r in results),
           'vacuity': {'return_paths_reachable': sum(1 for r in results if r.get('covers', {}).get('return') == 'refuted'), 'throw_paths_reachable': sum(1 for r in results if r.get('covers', {}).get('throw') == 'refuted'), 'vacuous': [r['fn'] for r in vacuous]},
           'undecided': [{'function': r['fn'], 'config': r['cfg'], 'reason': r['error']} for r in undecided] + [{'function': m, 'reason': 'not found'} for m in missing],
           'samples': [{'function': r['fn'], 'config': r['cfg'], 'obligations': ['%s %s: %s' % (o[0], o[1], o[3]) for o in r['obls'][:6]]} for r in results[:4]]}
    if hres:
        cov['bounded'] = [{'harness': h['name'], 'stat': h['stat'], 'samples': h['samples']} for h in hres]
        cov['evaluations'] = sum(h['stat'].get('cases', 0) for h in hres)
        cov['distinct_nontrivial'] = sum(h['stat'].get('nontrivial', 0) for h in hres)
        cov['rule'] = META.get('rule', 'bounded stand-in: seeded cases run on the real library under ASan/UBSan against an independent oracle; not counted as proved')
    if level == 'other' or META.get('explanation'): cov['explanation'] = META.get('explanation', 'contracts on the real code discharged by an SMT-based verifier; functions out of its reach are exercised by the bounded stand-ins listed, which are not counted as proved')
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': common.ASSUMPTIONS + META.get('assumptions', []) + (['quick tier: the contracts listed under contracts_proved_by_another_check are used here and discharged by the check named there; the thorough tier discharges them again'] if elsewhere else []) + notes, 'wall_s': round(time.time() - T0, 2), 'violations': len(rep)}
    tmp = os.path.join(evd, '.%s.tmp' % prop); json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, os.path.join(evd, prop + '.json'))
    print('%s %s: %d/%d obligations, %d functions (%d proved), %d undecided, bounded %s, %.1fs' % (prop, tier, dis, nob, len(fns), len(proved), len(undecided) + len(missing), {h['name']: h['stat'].get('cases') for h in hres}, time.time() - T0))
    if os.environ.get('VP_PROF'):
        for r in sorted(results, key=lambda r: -r['time'])[:14]: print('%6.1fs gen %.1f %s [%d] %s' % (r['time'], r.get('gen', 0), r['fn'][:110], r['cfg'], [(o[1][:50], o[4]) for o in sorted(r['obls'], key=lambda o: -o[4])[:4]]))
    for n in notes[:20]: print('note: ' + n[:300])
    return 1 if lines else 0

if __name__ == '__main__': sys.exit(main())
