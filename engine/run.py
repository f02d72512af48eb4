"""Runs the check of one property:  run.py <property> quick|thorough
   replays a counterexample:        run.py replay <file> [dev|rel]"""
import importlib, json, os, random, re, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build

VERIF = build.VERIF
NPROC = max(2, min(8, os.cpu_count() or 4))
PROG = None
CFG = {}


def make_task(spec, prog):
    mod, fn, kw = spec
    m = importlib.import_module(mod)
    kw = {k: v for k, v in kw.items()}
    return getattr(m, fn)(prog, **kw)


def jsonable(spec):
    def f(x):
        if isinstance(x, dict):
            return {'__d': [[f(k), f(v)] for k, v in x.items()]}
        if isinstance(x, (tuple, set, frozenset)):
            return {'__t': [f(v) for v in x]}
        if isinstance(x, list):
            return [f(v) for v in x]
        return x
    return f(spec)


def unjson(x):
    if isinstance(x, dict):
        if '__d' in x:
            return {unjson(k): unjson(v) for k, v in x['__d']}
        return tuple(unjson(v) for v in x['__t'])
    if isinstance(x, list):
        return [unjson(v) for v in x]
    return x


def work_chunk(args):
    return [work(a) for a in args]


def work(arg):
    idx, spec, canary = arg
    t0 = time.time()
    PROG.executed = set()
    try:
        t = make_task(spec, PROG)
        t.canary = canary
        if not canary:
            t.cross = CFG.get('cross', False)
        r = t.run()
        return idx, canary, r, t.stats, None, time.time() - t0, PROG.executed, t.describe()
    except Exception:
        return idx, canary, None, {}, traceback.format_exc()[-1500:], time.time() - t0, set(), str(spec)[:200]


def replay_one(spec, job, libpath, impl_steps=True):
    import native
    lib = native.load(libpath)
    t = make_task(spec, None)
    return t.replay(job, lib)


def cmd_replay_batch(path, libpath):
    """child process: replays the jobs of a file, one JSON line each"""
    for i, j in enumerate(json.load(open(path))):
        print(json.dumps(['start', i]), flush=True)
        r = replay_one(unjson(j['spec']), j['job'], libpath)
        print(json.dumps(['done', i, r]), flush=True)


def run_batch(jobs, libpath, scratch, timeout=None):
    """[(status, texts)] per job; every crash or hang costs only its own job"""
    out = {}
    timeout = timeout or 60 + 2 * len(jobs)
    todo = list(range(len(jobs)))
    while todo:
        p = os.path.join(scratch, 'batch-%d.json' % os.getpid())
        json.dump([jobs[i] for i in todo], open(p, 'w'))
        cur = None
        err = ''
        try:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), 'replaybatch', p, libpath], capture_output=True,
                               timeout=timeout, text=True)
            so, rc, err = r.stdout, r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            so, rc = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
        for l in so.splitlines():
            if not l.startswith('["'):
                continue
            x = json.loads(l)
            if x[0] == 'start':
                cur = todo[x[1]]
            else:
                out[cur] = ('ok', x[2])
                cur = None
        if rc == 0:
            break
        if cur is None:
            nxt = [i for i in todo if i not in out]
            if not nxt:
                break
            cur = nxt[0]
        if rc == 'timeout':
            out[cur] = ('hang', ['does not return within %d s' % timeout])
        elif rc < 0:
            m = re.search(r'panicked at .*', err, re.S)
            out[cur] = ('crash', ['signal %d; %s' % (-rc, (m.group(0) if m else err[-300:])[:300])])
        else:
            out[cur] = ('error', [err[-1500:]])
        todo = [i for i in todo if i not in out]
    return [out[i] for i in range(len(jobs))]


def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(known, prop, desc, texts):
    for k in known:
        if k.get('property') == prop and k.get('status') == 'known' and re.fullmatch(k['where'], desc) and \
                all(any(re.search(p, t) for p in k['what']) for t in texts):
            return k
    return None


def main(prop_id, tier):
    global PROG, CFG
    t0 = time.time()
    import props, props2
    prop = props.PROPS[prop_id]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    b = build.Builder()
    try:
        return check(prop_id, prop, tier, seed, b, t0)
    finally:
        b.cleanup()


def check(prop_id, prop, tier, seed, b, t0):
    global PROG, CFG
    import llir
    crate = prop.crate
    b.start(crate, 'ir')
    b.start(crate, 'dev')
    if prop.core:
        b.start_core()
    files = b.wait(crate, 'ir')
    files = [f for f in files if not re.search(r'/(syn|quote|proc_macro2|serde_derive|unicode_ident|build_script\w*)-', f)]
    PROG = llir.Program(files, b.wait_core() if prop.core else None)
    t_build = time.time() - t0
    specs = prop.specs(tier)
    names = [s[0:2] for s in specs]
    rng = random.Random(seed)
    known = load_known()
    CFG = {'cross': tier == 'thorough'}
    ncan = min(len(specs), 40 if tier == 'quick' else 200)
    can = [i for i in rng.sample(range(len(specs)), ncan) if specs[i][2].get('repeat', 0) < 2000]
    jobs = [(i, s, False) for i, s in enumerate(specs)] + [(i, specs[i], True) for i in can]
    if prop.slow_first:
        jobs.sort(key=lambda j: prop.slow_first(j[1]))
    else:
        rng.shuffle(jobs)
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    tot, funcs, errs, viol, canres = {}, set(), [], [], []
    slow = []
    deadline = t0 + (800 if tier == 'quick' else 820)
    samples = []
    done = 0
    need_core = False
    with ctx.Pool(NPROC, maxtasksperchild=prop.maxtasks) as pool:
        it = pool.imap_unordered(work_chunk, [jobs[i:i + prop.chunk] for i in range(0, len(jobs), prop.chunk)])
        batch = []
        while done < len(jobs):
            try:
                if not batch:
                    batch = it.next(timeout=max(1, deadline - time.time()))
                idx, canary, r, st, err, dt, fs, desc = batch.pop()
            except mp.TimeoutError:
                errs.append('time budget exhausted after %d of %d scenarios' % (done, len(jobs)))
                pool.terminate()
                break
            done += 1
            slow.append((dt, desc, canary))
            funcs |= fs
            if err and not prop.core and re.search(r'call to external \S*4core|external global', err):
                need_core = True
                pool.terminate()
                break
            if err:
                errs.append('%s: %s' % (desc, err))
                continue
            if canary:
                canres.append((idx, r, desc))
                continue
            for k, v in st.items():
                if isinstance(v, (int, float)):
                    tot[k] = tot.get(k, 0) + v
            if r is not None:
                viol.append((idx, r, desc))
                if len(viol) >= 40:
                    pool.terminate()
                    break
            elif len(samples) < 8:
                samples.append('%s: %d paths, all obligations hold' % (desc, st.get('paths', 0)))
    if need_core:
        # the code now calls functions of core that are not inlined: execute those too
        prop.core = True
        return check(prop_id, prop, tier, seed, b, t0)
    t_sym = time.time() - t0 - t_build
    # native replays
    viol.sort()
    libdev = b.wait(crate, 'dev')
    confirmed, findings, unconfirmed = [], [], []
    scratch = b.dir
    if viol:
        b.start(crate, 'rel')
        todo = viol[:12]
        vj = [{'spec': jsonable(list(specs[i])), 'job': r[1]} for i, r, d in todo]
        res = run_batch(vj, libdev, scratch)
        try:
            res2 = run_batch(vj, b.wait(crate, 'rel'), scratch)
        except build.BuildError as e:
            res2 = [('error', [str(e)])] * len(vj)
        for (i, r, d), j, x, y in zip(todo, vj, res, res2):
            ok = [p for p, z in (('dev', x), ('release', y)) if z[0] in ('crash', 'hang') or (z[0] == 'ok' and z[1])]
            if ok:
                k = match_known(known, prop_id, d, r[0])
                (findings if k else confirmed).append((d, r, j, ok, x, y, k))
            else:
                unconfirmed.append((d, r, x, y))
    # canaries: the flipped expectation must be refuted, and the model it is refuted
    # with must make the real code agree with the right hand side
    vac = [d for i, r, d in canres if r is None]
    cj = [(i, r, d) for i, r, d in canres if r is not None]
    traces = 0
    for (i, r, d), x in zip(cj, run_batch([{'spec': jsonable(list(specs[i])), 'job': r[1]} for i, r, d in cj], libdev, scratch)
                            if cj else []):
        if x[0] == 'ok' and not x[1]:
            traces += 1
        elif x[0] == 'error' and 'NotReplayable' in x[1][0]:
            continue
        elif not viol:
            if x[0] == 'error':
                errs.append('trace validation of %s: %s' % (d, x[1]))
                continue
            job = {'spec': jsonable(list(specs[i])), 'job': r[1]}
            if match_known(known, prop_id, d, x[1]):
                continue
            errs.append('the encoding and the native code disagree on %s: %s' % (d, x))
    if not viol and vac:
        errs.append('vacuous scenarios (flipped expectation not refuted): %s' % vac[:5])
    if not viol and prop.replayable and cj and not traces:
        errs.append('no trace could be validated natively')
    rc = 0
    for k in {json.dumps(f[6]) for f in findings}:
        print('KNOWN-FINDING: property=%s %s' % (prop_id, json.loads(k)['title']))
    if confirmed:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for n, (d, r, j, ok, x, y, k) in enumerate(confirmed[:3]):
            rp = os.path.join(rdir, '%s-%d.json' % (prop_id, n))
            json.dump({'property': prop_id, 'crate': crate, 'scenario': d, 'mismatch': r[0], 'spec': j['spec'], 'job': j['job'],
                       'reproduced_in': ok, 'native_dev': x, 'native_release': y}, open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop_id, rp))
            print('  scenario: %s' % d)
            for t in r[0][:6]:
                print('   ', t)
            print('  reproduced natively in: %s' % ', '.join(ok))
        rc = 1
    elif unconfirmed:
        rc = 2
        for d, r, x, y in unconfirmed[:3]:
            print('ERROR: counterexample does not reproduce natively: %s %s dev=%s rel=%s' % (d, r[0][:4], x, y))
    if errs and rc != 1:
        rc = 2
    for e in errs[:5]:
        print('ERROR:', e[:1500])
    slow.sort(reverse=True)
    ev = {
        'property': prop_id, 'tier': tier, 'seed': seed, 'level': prop.level,
        'coverage': {
            'states': tot.get('paths', 0), 'transitions': tot.get('steps', 0), 'traces_validated_against_impl': traces,
            'samples': samples,
            'scenarios': len(specs), 'scenarios_done': done - len(canres), 'obligations': tot.get('obligations', 0),
            'discharged_by_rewriting': tot.get('by_rewriting', 0), 'discharged_by_solver': tot.get('by_solver', 0),
            'solver_queries': tot.get('queries', 0), 'solver_s': round(tot.get('solver_s', 0), 2),
            'second_solver_queries': tot.get('cross', 0), 'second_solver_unknown': tot.get('cross_unknown', 0),
            'reachability_witnesses': len(cj), 'vacuous': len(vac),
            'functions_encoded': len(funcs), 'functions': sorted({demangle(f) for f in funcs})[:400],
            'bounds': prop.bounds(tier), 'build_s': round(t_build, 1), 'symbolic_s': round(t_sym, 1),
            'explanation': 'states = symbolic end states (one per feasible path); transitions = IR instructions executed symbolically; '
                           'every state covers all values of the symbolic inputs that reach it.',
        },
        'assumptions': prop.assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop_id + '.json'), 'w'), indent=1)
    print('%s %s: %s; %d scenarios, %d paths, %d obligations (%d by solver), %d queries, solver %.1f s, %d native traces, %.1f s'
          % (prop_id, tier, {0: 'held', 1: 'VIOLATED'}.get(rc, 'ERROR'), len(specs), tot.get('paths', 0), tot.get('obligations', 0),
             tot.get('by_solver', 0), tot.get('queries', 0), tot.get('solver_s', 0), traces, time.time() - t0))
    if os.environ.get('ZV_DEBUG'):
        for x in slow[:8]:
            print('  slow', x)
    return rc


def demangle(n):
    n = n.strip('"')
    if not n.startswith('_ZN'):
        m = re.findall(r'(?<=\d)[A-Za-z_]\w*', n)
        return n if not n.startswith('_R') else '::'.join(m)[:120]
    out, i = [], 3
    while i < len(n) and n[i].isdigit():
        j = i
        while n[j].isdigit():
            j += 1
        k = int(n[i:j])
        out.append(n[j:j + k])
        i = j + k
    return '::'.join(o for o in out if not re.fullmatch(r'h[0-9a-f]{16}', o))[:160]


def cmd_replay(path, kinds):
    j = json.load(open(path))
    b = build.Builder()
    rc = 0
    try:
        for k in kinds:
            x = run_batch([{'spec': j['spec'], 'job': j['job']}], b.wait(j['crate'], k), b.dir)[0]
            print(k, x)
            if x[0] in ('crash', 'hang') or (x[0] == 'ok' and x[1]):
                rc = 1
    finally:
        b.cleanup()
    return rc


if __name__ == '__main__':
    if sys.argv[1] == 'replaybatch':
        cmd_replay_batch(sys.argv[2], sys.argv[3])
        sys.exit(0)
    if sys.argv[1] == 'replay':
        sys.exit(cmd_replay(sys.argv[2], sys.argv[3:] or ['dev', 'rel']))
    try:
        rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
