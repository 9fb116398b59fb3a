#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] : decides one property on /repo's current tree."""
import sys, os, json, time, random, importlib, multiprocessing as mp, signal, argparse, traceback, glob

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('OMP_NUM_THREADS', '4'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
from vc import build

NCPU = min(8, os.cpu_count() or 4)


def proof_child(conn, spec, idx, tier, scale=1):
    from vc.proof import run_proof
    from vc import prover
    prover.SCALE = scale
    try:
        pr = spec.proofs(tier)[idx]
        pr.max_time *= scale
        conn.send(run_proof(pr, tier))
    except BaseException as e:
        conn.send(dict(name='?', status='undecided', reason=traceback.format_exc()[-800:], obligations=0, discharged=0, failures=[]))
    conn.close()


def search_child(path, spec, seed, budget, hints, tier):
    """generate inputs for the real code until one contradicts the property"""
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    rng = random.Random(seed)
    n = 0; distinct = set(); samples = []
    t0 = time.time(); out = dict(n=0, violation=None, samples=[], distinct=0)
    cur = path + '.case'
    lib = spec.native_load()
    fh = open(cur, 'w')
    try:
        for case in spec.cases(rng, hints, tier, seed):
            if time.time() - t0 > budget: break
            fh.seek(0); fh.truncate(); fh.write(json.dumps(case)); fh.flush()
            signal.alarm(30)
            r = spec.run_case(lib, case)
            signal.alarm(0)
            n += 1
            key = json.dumps(case, sort_keys=True)
            if len(distinct) < 200000: distinct.add(hash(key))
            if (len(samples) < 3 or (n % 97 == 0 and len(samples) < 6)) and len(key) < 1500: samples.append(case)
            if r:
                known = spec.known(case, r) if hasattr(spec, 'known') else None
                if known:
                    out.setdefault('known', {})[known] = out.get('known', {}).get(known, 0) + 1
                    continue
                out['violation'] = dict(case=case, observed=r); out['n'] = n
                json.dump(out, open(path, 'w')); break
    except Exception:
        out['error'] = traceback.format_exc()[-1500:]
    out['n'] = n; out['distinct'] = len(distinct); out['samples'] = samples
    json.dump(out, open(path, 'w'))
    os._exit(0)


def run_search(spec, seeds, budget, hints, tier, wd, tag):
    procs = []
    for s in seeds:
        path = os.path.join(wd, 'search.%s.%d' % (tag, s))
        pid = os.fork()
        if pid == 0:
            try: search_child(path, spec, s, budget, hints, tier)
            except BaseException: traceback.print_exc()
            os._exit(3)
        procs.append((pid, path, s))
    return procs


def collect_search(procs, spec, budget):
    tot = dict(n=0, distinct=0, samples=[], violation=None, errors=[], known={})
    end = time.time() + budget + 45
    for pid, path, s in procs:
        st = None
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p: break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL); p, st = os.waitpid(pid, 0); st = None; break
            time.sleep(0.05)
        o = None
        if os.path.exists(path):
            try: o = json.load(open(path))
            except Exception: o = None      # the process died while writing it
        if o is not None:
            tot['n'] += o['n']; tot['distinct'] += o['distinct']; tot['samples'] += o['samples']
            for k, v in o.get('known', {}).items(): tot['known'][k] = tot['known'].get(k, 0) + v
            if o.get('error'): tot['errors'].append(o['error'])
            if o['violation'] and not tot['violation']: tot['violation'] = o['violation']
        elif st is not None and os.WIFSIGNALED(st) or (st is not None and os.WIFEXITED(st) and os.WEXITSTATUS(st) not in (0, 3)):
            try: case = json.load(open(path + '.case'))
            except Exception: case = None
            if case is not None:
                what = 'signal %s' % signal.Signals(os.WTERMSIG(st)).name if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)
                if 'SIGALRM' in what: what = 'no answer within 30 s (SIGALRM)'
                r = 'the code under test stopped the process: ' + what
                known = spec.known(case, r) if hasattr(spec, 'known') else None
                if known: tot['known'][known] = tot['known'].get(known, 0) + 1
                elif not tot['violation']: tot['violation'] = dict(case=case, observed=r)
        for e in (path, path + '.case'):
            if os.path.exists(e): os.unlink(e)
    return tot


def replay(spec, f):
    d = json.load(open(f))
    if d.get('kind') != 'input':
        print('replay file names a failed obligation; rerun: python3-vt check.py ' + d['property']); return 1
    spec.native_build()
    pid = os.fork()
    if pid == 0:
        signal.alarm(60)
        r = spec.run_case(spec.native_load(), d['input'])
        print('observed: %s' % (r or 'property holds on this input')); sys.stdout.flush()
        os._exit(1 if r else 0)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st): print('observed: signal %d' % os.WTERMSIG(st)); return 1
    return os.WEXITSTATUS(st)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--only', help='run the proofs whose name contains this'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--nosearch', action='store_true')
    a = ap.parse_args()
    os.chdir(HERE)
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    f = glob.glob(os.path.join(HERE, 'specs', a.prop + '_*.py'))
    if len(f) != 1: print('unknown property ' + a.prop); return 2
    spec = importlib.import_module('specs.' + os.path.basename(f[0])[:-3])
    if a.replay: return replay(spec, a.replay)
    wd = build.workdir()
    os.environ['VERIF_WORK'] = wd
    tier = a.tier
    proofs = spec.proofs(tier)
    idxs = [i for i, p in enumerate(proofs) if not a.only or a.only in p.name]
    # ---- build (IR units and the native library), in parallel
    units = sorted(set(spec.UNITS))
    berr = []
    with mp.get_context('fork').Pool(NCPU) as pool:
        rs = [(u, pool.apply_async(try_ir, (u,))) for u in units]
        nb = None if a.nosearch or not hasattr(spec, 'cases') else pool.apply_async(try_native, (spec.__name__,))
        for u, r in rs:
            e = r.get()
            if e: berr.append(e)
        ne = nb.get() if nb else None
    native_ok = not a.nosearch and hasattr(spec, 'cases') and ne is None
    # ---- standing bounded search on the real code (labelled bounded), concurrent with the proofs
    sb = getattr(spec, 'SEARCH_S', 20) * (1 if tier == 'quick' else 8)
    nsearch = getattr(spec, 'NSEARCH', 2)
    sprocs = run_search(spec, [seed * 1000 + k for k in range(nsearch)], sb, {}, tier, wd, 'a') if native_ok else []
    results = []
    try: busy = max(1.0, min(4.0, os.getloadavg()[0] / NCPU))
    except OSError: busy = 1.0
    pend = [(i, 1) for i in idxs]; live = []; first = {}
    limit = 700 if tier == 'quick' else 3000
    while pend or live:
        while pend and len(live) < NCPU - (nsearch if time.time() - t0 < sb else 0) or (pend and not live):
            i, att = pend.pop(0)
            r, w = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=proof_child, args=(w, spec, i, tier, busy * (4 if att == 2 else 1))); p.start(); w.close()
            live.append((p, r, i, att))
        for x in list(live):
            p, r, i, att = x
            if r.poll(0.02):
                try: res = r.recv()
                except EOFError: res = dict(name=proofs[i].name, status='undecided', reason='verifier process died', obligations=0, discharged=0, failures=[])
                p.join(); live.remove(x)
                if att == 1 and not witnessed(sprocs) and time.time() - t0 < limit * 0.4 and (res['status'] == 'failed' or res['reason'].startswith(('time', 'verifier process died'))):
                    # a slow or busy machine must not look like a broken contract: once more with four times the solver limits
                    first[i] = res; pend.append((i, 2)); continue
                results.append(res)
                if a.v: print(fmt(res)); sys.stdout.flush()
            elif time.time() - t0 > limit:
                p.kill(); p.join(); live.remove(x)
                results.append(first[i] if i in first else dict(name=proofs[i].name, status='undecided', reason='time limit of the check', obligations=0, discharged=0, failures=[]))
    found = collect_search(sprocs, spec, max(0, sb - (time.time() - t0))) if sprocs else dict(n=0, distinct=0, samples=[], violation=None, errors=[], known={})
    failed = [r for r in results if r['status'] == 'failed']
    undecided = [r for r in results if r['status'] == 'undecided']
    # ---- a failed obligation or an undecided function: look harder for a failing input
    extra = None
    if (failed or undecided) and not found['violation'] and native_ok and not a.only:
        hints = {}
        for r in failed:
            for f in r['failures']: hints.setdefault(r['name'], []).append(f.get('model', {}))
        eb = getattr(spec, 'EXTRA_S', 60)
        extra = collect_search(run_search(spec, [seed * 1000 + 100 + k for k in range(NCPU)], eb, hints, 'thorough', wd, 'b'), spec, eb)
        found['n'] += extra['n']; found['distinct'] += extra['distinct']; found['violation'] = extra['violation']
        found['errors'] += extra['errors']
        for k, v in extra['known'].items(): found['known'][k] = found['known'].get(k, 0) + v
    kf = json.load(open(os.path.join(HERE, 'known_findings.json'))) if os.path.exists(os.path.join(HERE, 'known_findings.json')) else []
    for k in kf:
        if k.get('property') == a.prop and k.get('kind') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    # ---- evidence
    obl = sum(r['obligations'] for r in results); dis = sum(r['discharged'] for r in results)
    full = [r for r in results if r['status'] == 'proved']
    trusted = sorted(set(x for r in results for x in r.get('models', [])) | set(x for r in results for x in r.get('assumed', [])))
    be = {}; kinds = {}
    for r in results:
        for k, v in r.get('backends', {}).items(): be[k] = be.get(k, 0) + v
        for k, v in r.get('kinds', {}).items(): kinds[k] = kinds.get(k, 0) + v
    ev = dict(property=a.prop, tier=tier, seed=seed, level=getattr(spec, 'LEVEL', 'proof'),
              coverage=dict(obligations=obl, discharged=dis, checker_cmd='python3-vt check.py %s --tier %s' % (a.prop, tier),
                            trusted_base=['clang-18/opt-18 -O0 + ' + build.PASSES, 'vc/ (LLVM IR verifier of this framework)', 'z3 %s, cvc5' % z3v()] + list(getattr(spec, 'TRUSTED', [])) + trusted,
                            functions_under_contract=sorted(set(x for r in full for x in r.get('under', []))),
                            functions_inlined=sorted(set(x for r in full for x in r.get('inlined', []))),
                            obligations_by_kind=kinds, obligations_by_backend=be,
                            solver_s=round(sum(r.get('solver_s', 0) for r in results), 1), solver_queries=sum(r.get('queries', 0) for r in results),
                            invariants={r['name']: r.get('invariants', {}) for r in results},
                            proofs=[dict(name=r['name'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'], reason=r['reason'][:400], wall_s=r.get('wall_s')) for r in results],
                            not_proved=[dict(name=r['name'], reason=r['reason'][:400], failures=[f['name'] for f in r['failures']]) for r in results if r['status'] != 'proved'],
                            bounded_stand_in=dict(label='bounded, not proof: real code run on generated inputs against the same contract', evaluations=found['n'], distinct_nontrivial=found['distinct'],
                                                  rule=getattr(spec, 'RULE', ''), samples=found['samples'][:6], errors=found['errors'][:2], covers=getattr(spec, 'BOUNDED', ''))),
              assumptions=list(getattr(spec, 'ASSUMPTIONS', [])) + trusted, wall_s=round(time.time() - t0, 1),
              violations=1 if (found['violation'] or failed) else 0)
    if a.prop and not a.only:
        os.makedirs('evidence', exist_ok=True)
        json.dump(ev, open('evidence/%s.json' % a.prop, 'w'), indent=1, default=str)
    print('%s: %d proofs, %d proved, %d failed, %d undecided; obligations %d/%d; inputs run on the real code %d; %.0f s' %
          (a.prop, len(results), len(full), len(failed), len(undecided), dis, obl, found['n'], time.time() - t0))
    for r in undecided: print('UNDECIDED %s: %s' % (r['name'], r['reason'][:300]))
    if not a.v:
        for r in failed[:4]: print(fmt(r))
    for e in found['errors'][:1]: print('SEARCH-ERROR', e)
    if ne: print('NATIVE-BUILD', ne[-600:])
    os.makedirs('replay', exist_ok=True)
    if found['violation']:
        path = 'replay/%s.json' % a.prop
        json.dump(dict(property=a.prop, kind='input', input=found['violation']['case'], observed=found['violation']['observed'],
                       failed_obligations=[f['name'] for r in failed for f in r['failures']][:20],
                       how='python3-vt check.py %s --replay %s' % (a.prop, path)), open(path, 'w'), indent=1, default=str)
        print('input: %s' % json.dumps(found['violation']['case'])[:600]); print('observed: %s' % str(found['violation']['observed'])[:600])
        print('VIOLATION property=%s replay=%s' % (a.prop, path)); return 1
    if failed:
        path = 'replay/%s.json' % a.prop
        json.dump(dict(property=a.prop, kind='obligation', failed=[dict(proof=r['name'], failures=r['failures'], dropped_invariants=r.get('dropped', [])) for r in failed]), open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, path)); return 1
    return 0


def witnessed(procs):
    """a search process has already found a failing input"""
    for _, path, _ in procs:
        try:
            if json.load(open(path)).get('violation'): return True
        except Exception: pass
    return False


def z3v():
    try:
        import z3; return z3.get_version_string()
    except Exception: return '?'


def try_ir(u):
    try:
        if isinstance(u, tuple): build.ir(u[0], u[1])
        else: build.ir(u)
    except build.BuildError as e: return str(e)


def try_native(modname):
    try: importlib.import_module(modname).native_build()
    except build.BuildError as e: return str(e)


def fmt(r):
    s = '  %-10s %s  obligations %d/%d  %.1f s (solver %.1f s)' % (r['status'].upper(), r['name'], r['discharged'], r['obligations'], r.get('wall_s', 0), r.get('solver_s', 0))
    if r['reason']: s += '  [' + r['reason'][:500] + ']'
    for f in r['failures'][:8]: s += '\n      failed %s (%s) %s\n        %s' % (f['name'], f['kind'], f['where'], f['goal'][:300].replace('\n', ' '))
    return s


if __name__ == '__main__':
    sys.exit(main())
