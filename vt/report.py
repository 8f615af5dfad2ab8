"""Check driver: runs harnesses in child processes, replays counterexamples, writes evidence."""
import os, sys, json, time, traceback, multiprocessing, subprocess, signal, hashlib, importlib
from . import VERIF, REPO

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
PY = sys.executable


class Ctx:
    """Handed to a harness; collects what was encoded, discharged and found."""

    def __init__(self, prop, harness, tier):
        self.prop, self.harness, self.tier = prop, harness, tier
        self.thorough = tier == 'thorough'
        self.stats = dict(paths=0, branches=0, queries=0, asserts=0, solver_s=0.0, aborted=0)
        self.failures = []      # dicts(label, model, info, key)
        self.reached = {}
        self.inconclusive = []
        self.bounds = []
        self.functions = []
        self.samples = []
        self.notes = []
        self.cases = []
        self.case_errors = []

    def encodes(self, *names):
        for n in names:
            if n not in self.functions:
                self.functions.append(n)

    def bound(self, text):
        if text not in self.bounds:
            self.bounds.append(text)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:600])

    def engine(self, **kw):
        from .engine import Engine
        return Engine(**kw)

    def absorb(self, eng, data=None, key=None):
        """Merge an engine's outcome; data is attached to each failure's model for replay."""
        for k in ('paths', 'branches', 'queries', 'asserts', 'solver_s', 'aborted'):
            self.stats[k] += eng.stats.get(k, 0)
        for k, v in eng.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        for f in eng.failures:
            m = dict(f.model)
            self.failures.append(dict(label=f.label, model=m, data=data or {}, info=str(f.info)[:2000] if f.info else None,
                                      key=key, kind=f.kind))
        for l in eng.inconclusive:
            self.inconclusive.append(f"unknown: {l}")
        if not getattr(eng, 'complete', True) and not eng.failures:
            self.inconclusive.append("path/time budget exhausted")

    target = None      # replay mode: (case, model)
    replayed = None

    def run(self, case, body, key=None, expect=None, **kw):
        """Run one scenario body over all its paths (or, replaying, on one model unpatched)."""
        from .env import SymEnv, ConcEnv
        if self.target is not None:
            tcase, model = self.target
            if tcase is None or tcase == case:
                env = ConcEnv(model)
                for p in env.run(body):
                    self.replayed.append((case, p, key))
            return None
        kw.setdefault('max_time', 600)
        eng = SymEnv(**kw)
        t = time.time()
        try:
            eng.explore(body)
        except Exception as exc:
            self.case_errors.append((case, ''.join(traceback.format_exception(exc))[-3000:]))
            return eng
        self.absorb(eng, dict(case=case), key)
        if not eng.failures:
            if eng.stats['paths'] == 0:
                self.inconclusive.append(f"{case}: vacuous, no path reached the end of the scenario")
            for label in expect or ():
                if not eng.reached.get(label):
                    self.inconclusive.append(f"{case}: vacuous, '{label}' never reached")
        self.cases.append((case, eng.stats['paths'], eng.stats['asserts'], round(time.time() - t, 2)))
        return eng

    def explore(self, fn, data=None, key=None, expect=None, **kw):
        eng = self.engine(**kw)
        eng.explore(fn)
        self.absorb(eng, data, key)
        if not eng.failures:
            if eng.stats['paths'] == 0:
                self.inconclusive.append("vacuous: no path reached the end of the harness")
            for label in expect or ():
                if not eng.reached.get(label):
                    self.inconclusive.append(f"vacuous: '{label}' never reached")
        return eng

    # --- direct queries (no forking)
    def prove(self, cond, label, assumptions=(), symbols=(), data=None, key=None, timeout_ms=120000):
        """Ask z3 whether `cond` holds for every assignment satisfying assumptions."""
        import z3
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        for a in assumptions:
            s.add(a)
        t = time.time()
        s.add(z3.Not(cond))
        r = s.check()
        self.stats['queries'] += 1
        self.stats['asserts'] += 1
        self.stats['solver_s'] += time.time() - t
        self.reached[label] = self.reached.get(label, 0) + 1
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.inconclusive.append(f"unknown: {label}")
            return None
        m = s.model()
        from .engine import Engine
        e = Engine()
        e.symbols = {str(v): v for v in symbols}
        self.failures.append(dict(label=label, model=e.model_dict(m), data=data or {}, info=None, key=key, kind='assert'))
        return False

    def fail(self, label, model=None, data=None, info=None, key=None, kind='assert'):
        self.failures.append(dict(label=label, model=model or {}, data=data or {}, info=info, key=key, kind=kind))

    def result(self):
        return {k: getattr(self, k) for k in ('harness', 'stats', 'failures', 'reached', 'inconclusive', 'bounds',
                                              'functions', 'samples', 'notes', 'cases', 'case_errors')}


def _child(modname, prop, hname, tier, conn):
    t0 = time.time()
    try:
        mod = importlib.import_module(modname)
        fn = dict(mod.harnesses(tier))[hname]
        ctx = Ctx(prop, hname, tier)
        err = None
        try:
            fn(ctx)
        except BaseException as exc:
            err = ''.join(traceback.format_exception(exc))[-4000:]
        out = ctx.result()
        out['error'] = err
    except BaseException as exc:
        out = dict(harness=hname, error=''.join(traceback.format_exception(exc))[-4000:], failures=[], inconclusive=[],
                   stats={}, reached={}, bounds=[], functions=[], samples=[], notes=[], cases=[], case_errors=[])
    out['wall_s'] = time.time() - t0
    conn.send(out)
    conn.close()
    os._exit(0)


def run_harnesses(modname, prop, names, tier, nproc=7, limit=780):
    ctxm = multiprocessing.get_context('fork')
    pending = list(names)
    running = {}
    results = {}
    t0 = time.time()
    while pending or running:
        while pending and len(running) < nproc:
            n = pending.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(modname, prop, n, tier, b))
            p.start()
            b.close()
            running[n] = (p, a)
        done = []
        for n, (p, a) in running.items():
            if a.poll(0.02):
                try:
                    results[n] = a.recv()
                except EOFError:
                    results[n] = _dead(n, 'child died')
                p.join()
                done.append(n)
            elif not p.is_alive():
                results[n] = _dead(n, f'child exit {p.exitcode}')
                done.append(n)
        for n in done:
            running.pop(n)
        if time.time() - t0 > limit:
            for n, (p, a) in running.items():
                p.kill()
                results[n] = _dead(n, 'time limit')
            for n in pending:
                results[n] = _dead(n, 'time limit (not started)')
            break
    return [results[n] for n in names]


def _dead(n, why):
    return dict(harness=n, error=why, failures=[], inconclusive=[], stats={}, reached={}, bounds=[], functions=[],
                samples=[], notes=[], cases=[], case_errors=[], wall_s=0)


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('property') == prop and d.get('status', 'open') == 'open':
                out[d['key']] = d['what']
    return out


def do_replay(modname, prop, failure, hname, path, known=(), tier='quick'):
    with open(path, 'w') as f:
        json.dump(dict(module=modname, property=prop, harness=hname, label=failure['label'], model=failure['model'],
                       data=failure['data'], info=failure['info'], tier=tier, known=list(known)), f, indent=1, default=str)
    try:
        r = subprocess.run([PY, '-m', 'vt.replay', path], cwd=VERIF, capture_output=True,
                           text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return None, 'replay timeout', None
    out = r.stdout.strip().splitlines()
    for line in out:
        if line.startswith('REPRODUCED '):
            d = json.loads(line[len('REPRODUCED '):])
            return True, d['what'], d.get('key')
        if line.startswith('NOT-REPRODUCED'):
            return False, line, None
    return None, (r.stdout + r.stderr)[-3000:], None


def main(prop, modname, argv):
    tier = TIER
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1].split(',') if '--only' in argv else None
    t0 = time.time()
    mod = importlib.import_module(modname)
    names = [n for n, _ in mod.harnesses(tier)]
    if only:
        names = [n for n in names if any(o in n for o in only)]
    results = run_harnesses(modname, prop, names, tier, nproc=getattr(mod, 'NPROC', 7),
                            limit=700 if tier == 'quick' else 3300)
    known = known_findings(prop)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    violations, knowns, errors = [], {}, []
    seen = set()
    nrep = 0
    for r in results:
        h = r['harness']
        per = 0
        cands = sorted(r['failures'], key=lambda f: f['kind'] != 'assert')
        for f in cands:
            sig = (h, f['label'], f['key'], json.dumps(f['data'], sort_keys=True, default=str))
            if sig in seen or per >= 6 or nrep >= 40 or len(violations) >= 6:
                continue
            seen.add(sig)
            per += 1
            nrep += 1
            hid = hashlib.sha1(repr(sig).encode()).hexdigest()[:8]
            path = os.path.join(rdir, f"{prop}-{h}-{hid}.json".replace('/', '_').replace(' ', '_'))
            ok, what, key = do_replay(modname, prop, f, h, path, known, tier)
            if ok:
                key = key or f['key']
                if key in known:
                    knowns[key] = known[key]
                else:
                    violations.append((h, f['label'], what, path))
            elif ok is False:
                errors.append(f"{h}: counterexample for '{f['label']}' did not reproduce on the real code; model={f['model']} info={f['info']}")
            else:
                errors.append(f"{h}: replay of '{f['label']}' failed: {what}")
        for n, (case, err) in enumerate(r['case_errors']):
            # the encoding could not follow the code: see whether the real code misbehaves on a default input
            ok = None
            if n < 3 and not violations:
                path = os.path.join(rdir, f"{prop}-{h}-case{n}.json".replace('/', '_').replace(' ', '_'))
                ok, what, key = do_replay(modname, prop, dict(label='not encodable', model={}, data={'case': case}, info=err), h, path, known, tier)
                if ok:
                    if key in known:
                        knowns[key] = known[key]
                        ok = None
                    else:
                        violations.append((h, 'real code misbehaves', what, path))
            if not ok:
                errors.append(f"{h}: [{case}] not encodable: {err}")
        if r.get('error'):
            # the harness itself broke: see whether the real code misbehaves on the default input
            path = os.path.join(rdir, f"{prop}-{h}-error.json".replace('/', '_').replace(' ', '_'))
            ok = None
            if getattr(mod, 'REPLAY_ON_ERROR', True) and not violations:
                ok, what, key = do_replay(modname, prop, dict(label='harness error', model={}, data={'default': True}, info=r['error']), h, path, known, tier)
                if ok:
                    if key in known:
                        knowns[key] = known[key]
                        ok = None
                    else:
                        violations.append((h, 'real code fails where the property requires an answer', what, path))
            if not ok:
                errors.append(f"{h}: {r['error']}")
        for i in r['inconclusive']:
            errors.append(f"{h}: inconclusive: {i}")
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    nfail = sum(len(r['failures']) for r in results)
    cov = dict(
        explanation="Bounded symbolic execution of the real functions (read from the current source on this run): "
                    "inputs are symbolic, every assertion is discharged by z3 for all values within the bounds; "
                    "counterexamples are replayed on the unpatched code before being reported.",
        harnesses=[dict(name=r['harness'], paths=r['stats'].get('paths', 0), branch_decisions=r['stats'].get('branches', 0),
                        solver_queries=r['stats'].get('queries', 0), assertions=r['stats'].get('asserts', 0),
                        solver_s=round(r['stats'].get('solver_s', 0), 3), wall_s=round(r['wall_s'], 2),
                        reached=r['reached'] if len(r['reached']) < 40 else len(r['reached']),
                        bounds=r['bounds'], notes=r['notes'],
                        cases=len(r['cases']), slowest_cases=sorted(r['cases'], key=lambda c: -c[3])[:3]) for r in results],
        functions_encoded=sorted({f for r in results for f in r['functions']}),
        obligations=tot.get('asserts', 0), discharged=tot.get('asserts', 0) - nfail,
        paths=tot.get('paths', 0), branch_decisions=tot.get('branches', 0), solver_queries=tot.get('queries', 0),
        solver_s=round(tot.get('solver_s', 0), 2),
        replays=nrep, known_findings=sorted(knowns), inconclusive=errors[:20],
        samples=[s for r in results for s in r['samples']][:12],
    )
    ev = dict(property=prop, tier=tier, seed=SEED, level=getattr(mod, 'LEVEL', 'other'), coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in results:
        print(f"[{prop}] {r['harness']}: paths={r['stats'].get('paths',0)} asserts={r['stats'].get('asserts',0)} queries={r['stats'].get('queries',0)} "
              f"solver={r['stats'].get('solver_s',0):.2f}s wall={r['wall_s']:.1f}s fails={len(r['failures'])} {'ERROR' if r.get('error') else ''}")
    for k, w in knowns.items():
        print(f"KNOWN-FINDING: property={prop} {w}")
    for h, label, what, path in violations:
        print(f"  {h}: {label}: {what}")
        print(f"VIOLATION property={prop} replay={path}")
    for e in errors[:10]:
        print(f"ERROR {e}", file=sys.stderr)
    print(f"[{prop}] tier={tier} wall={time.time()-t0:.1f}s violations={len(violations)} known={len(knowns)} errors={len(errors)}")
    sys.stdout.flush()
    if violations:
        return 1
    return 2 if errors else 0
