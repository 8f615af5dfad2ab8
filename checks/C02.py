"""Each timestep advances the state exactly by the scheme's IMEX formula with this step's matrices, time and history."""
import numpy as np
from collections import deque
from vt import scen, geo, lin

ASSUMPTIONS = ["initial state: every combination of representable modes (|x|<=1), right-hand sides linear in the state (plus one quadratic case)",
               "subproblem solves by their contract (exact dense inverse as a user-supplied matrix solver)",
               "step sizes: every sequence over the listed values; agreement to 1e-8"]
MULTI = ['CNAB1', 'SBDF1', 'CNAB2', 'MCNAB2', 'SBDF2', 'CNLF2', 'SBDF3', 'SBDF4']
RK = ['RK111', 'RK222', 'RK443', 'RKSMR', 'RKGFY']


class Dense:
    """Exact solve through a dense inverse."""
    config = {}

    def __init__(self, matrix, solver=None):
        self.inv = np.linalg.inv(matrix.toarray())

    def solve(self, v):
        return scen.along(self.inv, v, 0)


# ------------------------------------------------------------------ problems: build(env, d3) -> problem
def p_cheb(env, d3):
    g = geo.cart(d3, [('x', 'T', 4, (0, 2))], np.float64)
    b, = g.bases
    x = g.dist.local_grid(b)
    u = g.dist.Field(name='u', bases=b)
    t1, t2 = g.dist.Field(name='t1'), g.dist.Field(name='t2')
    t = g.dist.Field(name='t')
    f = g.dist.Field(name='f', bases=b)
    f['g'] = 1 + x
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    lb = b.derivative_basis(2)
    p = d3.IVP([u, t1, t2], time=t)
    p.add_equation((d3.dt(u) - 0.7*dx(dx(u)) + d3.Lift(t1, lb, -1) + d3.Lift(t2, lb, -2), t*f*u + 3*t))
    p.add_equation((u(x=0), t))
    p.add_equation((dx(u)(x=2), 0))
    return p


def p_wave(env, d3):
    g = geo.cart(d3, [('x', 'R', 4, (0, 3))], np.float64)
    b, = g.bases
    u, v = g.dist.Field(name='u', bases=b), g.dist.Field(name='v', bases=b)
    t = g.dist.Field(name='t')
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    p = d3.IVP([u, v], time=t)
    p.add_equation((d3.dt(u) + 0.5*d3.dt(v) - dx(v), t*v - 2*u))
    p.add_equation((3*d3.dt(v) - 2*dx(u) + v, t*t + dx(v)))
    return p


def p_2d(env, d3):
    g = geo.cart(d3, [('x', 'C', 3, (0, 3)), ('z', 'L', 3, (0, 1))], np.complex128, dealias=1.5)
    b = g.bases
    u, q = g.dist.Field(name='u', bases=b), g.dist.Field(name='q', bases=b)
    tq = g.dist.Field(name='tq', bases=b[0])
    t = g.dist.Field(name='t')
    dz = lambda A: d3.Differentiate(A, g.coords['z'])
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    n = g.dist.Field(name='n', bases=b[1])
    n['g'] = 2 + g.dist.local_grid(b[1])
    p = d3.IVP([u, q, tq], time=t, namespace={})
    p.add_equation((n*d3.dt(u) - dz(q) + 1j*dx(u), t*n*dx(u) + q))
    p.add_equation((q - dz(u) + d3.Lift(tq, b[1].derivative_basis(1), -1), 0))
    p.add_equation((u(z=0), t))
    return p


def p_disk(env, d3):
    g = geo.polar(d3, 'disk', (4, 3), np.float64, radius=1.5)
    u = g.dist.Field(name='u', bases=g.bases)
    tau = g.dist.Field(name='tau', bases=g.basis.edge)
    t = g.dist.Field(name='t')
    p = d3.IVP([u, tau], time=t)
    p.add_equation((d3.dt(u) - d3.lap(u) + d3.Lift(tau, g.basis, -1), t*u - 3*u + t))
    p.add_equation((u(r=1.5), 0))
    return p


def p_sphere(env, d3):
    g = geo.sphere(d3, (4, 3), np.float64, radius=1.2)
    h = g.dist.Field(name='h', bases=g.bases)
    u = g.dist.VectorField(g.cs, name='u', bases=g.bases)
    t = g.dist.Field(name='t')
    p = d3.IVP([u, h], time=t)
    p.add_equation((d3.dt(u) + d3.grad(h) + 2*d3.MulCosine(d3.skew(u)), -t*u))
    p.add_equation((d3.dt(h) + 0.5*d3.div(u), t*h))
    return p


def p_quad(env, d3):
    """0-D nonlinear system."""
    c = d3.Coordinate('x')
    dist = d3.Distributor(c, dtype=np.float64)
    u, v = dist.Field(name='u'), dist.Field(name='v')
    t = dist.Field(name='t')
    p = d3.IVP([u, v], time=t)
    p.add_equation((d3.dt(u) + 2*u - v, u*v - t*u))
    p.add_equation((d3.dt(v) + v, 0.5*u*u))
    return p


PROBLEMS = dict(cheb=p_cheb, wave=p_wave, complex2d=p_2d, disk=p_disk, sphere=p_sphere, quadratic=p_quad)


def reference(env, solver, problem, scheme, X, t0, dts):
    """Generator: per step, the expected subproblem vectors after the step (exact IMEX formula)."""
    sps = [sp for sp in solver.subproblems if sp.size]
    M = {sp: sp.M_min.toarray() for sp in sps}
    L = {sp: sp.L_min.toarray() for sp in sps}
    state = solver.state

    def F(X, t):
        """Right-hand sides at state X and time t, evaluated directly; leaves no trace."""
        old = [(f, f['c'].copy()) for f in state]
        told = problem.time['g'].copy()
        for sp in sps:
            sp.scatter_inputs(X[sp], state)
        problem.time['g'] = t
        outs = []
        for eq in problem.eqs:
            e = eq['F']
            f = e.copy() if hasattr(e, 'preset_scales') else e.evaluate()
            f.change_layout('c')
            outs.append(f)
        r = {sp: sp.gather_outputs(outs).copy() for sp in sps}
        for f, c in old:
            f.preset_scales(1)
            f['c'] = c
        problem.time['g'] = told
        return r
    t = t0
    if hasattr(scheme, 'compute_coefficients'):
        hist = deque([0.]*scheme.steps)
        MX, LX, FX = [], [], []
        for n, dt in enumerate(dts):
            hist.rotate()
            hist[0] = dt
            a, b, c = scheme.compute_coefficients(list(hist), n)
            MX.insert(0, {sp: scen.along(M[sp], X[sp], 0) for sp in sps})
            LX.insert(0, {sp: scen.along(L[sp], X[sp], 0) for sp in sps})
            FX.insert(0, F(X, t))
            new = {}
            for sp in sps:
                rhs = 0
                for j in range(1, len(c)):
                    if c[j] != 0:
                        rhs = rhs + float(c[j])*FX[j-1][sp]
                for j in range(1, len(a)):
                    if a[j] != 0:
                        rhs = rhs - float(a[j])*MX[j-1][sp]
                for j in range(1, len(b)):
                    if b[j] != 0:
                        rhs = rhs - float(b[j])*LX[j-1][sp]
                new[sp] = scen.along(np.linalg.inv(float(a[0])*M[sp] + float(b[0])*L[sp]), rhs, 0)
            X = new
            t = t + dt
            yield X, t
    else:
        A, H, c = scheme.A, scheme.H, scheme.c
        for dt in dts:
            MX0 = {sp: scen.along(M[sp], X[sp], 0) for sp in sps}
            Fs, Ls = [], []
            for i in range(1, scheme.stages+1):
                Fs.append(F(X, t + dt*float(c[i-1])))
                Ls.append({sp: scen.along(L[sp], X[sp], 0) for sp in sps})
                new = {}
                for sp in sps:
                    rhs = MX0[sp]
                    for j in range(i):
                        rhs = rhs + float(dt*A[i, j])*Fs[j][sp] - float(dt*H[i, j])*Ls[j][sp]
                    new[sp] = scen.along(np.linalg.inv(M[sp] + float(dt*H[i, i])*L[sp]), rhs, 0)
                X = new
            t = t + dt
            yield X, t


def watch(solver):
    """An output handler writing a multiple of every variable on every iteration."""
    from dedalus.core.evaluator import DictionaryHandler
    log = []

    class Rec(DictionaryHandler):
        def process(self, **kw):
            super().process(**kw)
            vals = []
            for f in self.fields.values():
                f = f.copy()
                f.change_scales(1)
                f.change_layout('c')
                vals.append(f)
            log.append((kw, vals))
    h = solver.evaluator.add_handler(Rec(solver.dist, solver.evaluator.vars, iter=1))
    for v in solver.state:
        h.add_task(2*v, name=v.name)
    return log


def case(build, name, dts, store, t0=0.0, cadence=100, it0=0, outputs=False, back=None):
    def body(env):
        d3 = scen.start(env)
        from dedalus.core import timesteppers
        scheme = getattr(timesteppers, name)
        problem = build(env, d3)
        problem.time['g'] = t0
        solver = problem.build_solver(scheme, matsolver=Dense, store_expanded_matrices=store, enforce_real_cadence=cadence)
        if it0:
            # as after loading a checkpoint
            solver.iteration = solver.initial_iteration = it0
        cplx = np.dtype(problem.dtype).kind == 'c'
        sps = [sp for sp in solver.subproblems if sp.size]
        for v in solver.state:
            v.preset_scales(1)
            v['c'] = 0
        for i, sp in enumerate(sps):
            sp.scatter_inputs(env.array(f'x{i}', sp.shape, complex=cplx), solver.state)
        for v in solver.state:
            v['g']
            v['c']
        X = {sp: sp.gather_inputs(solver.state).copy() for sp in sps}
        env.nonzero(np.concatenate([np.ravel(x) for x in X.values()]), 'initial state')
        env.equal(solver.sim_time, t0, 'initial simulation time is the problem time')
        ref = list(reference(env, solver, problem, scheme, X, t0, dts))
        log = watch(solver) if outputs else None
        before, tb = X, t0
        if back:
            # load an earlier state into a running solver, as load_state does
            for dt in back:
                solver.step(dt)
            solver.iteration = solver.initial_iteration = it0
            solver.sim_time = solver.initial_sim_time = t0
            for v in solver.state:
                v.preset_scales(1)
                v.preset_layout('c')
            for sp in sps:
                sp.scatter_inputs(X[sp], solver.state)
        for n, dt in enumerate(dts):
            if outputs:
                log.clear()
            solver.step(dt)
            if outputs:
                env.check(len(log) == 1, 'output handlers run once per step')
                kw, vals = log[0]
                env.check(kw['iteration'] == it0 + n and kw['timestep'] == dt and abs(kw['sim_time'] - tb) < 1e-12 and kw['wall_time'] >= 0, 'outputs get the iteration, time and timestep of the state they describe')
                for sp in sps:
                    env.equal(sp.gather_inputs(vals), 2*before[sp], 'outputs describe the state at the start of the step', tol=1e-8, info=f'step {n}, group {sp.group}')
                before, tb = ref[n]
            Xr, t = ref[n]
            for f in solver.state:
                f.change_layout('c')
            for sp in sps:
                env.equal(sp.gather_inputs(solver.state), Xr[sp], 'state after the step follows the scheme formula', tol=1e-8, info=f'step {n}, group {sp.group}')
            env.check(abs(solver.sim_time - t) < 1e-12*(1+abs(t)), 'simulation time advances by the timestep')
            env.equal(problem.time['g'].ravel(), np.array([t]), 'time field equals the simulation time')
            env.check(int(solver.iteration) == it0+n+1, 'iteration count advances by one')
    return body


def patterns(values, n):
    import itertools
    out = []
    for p in itertools.product(range(len(values)), repeat=n):
        # canonical up to which values come first
        out.append(tuple(values[i] for i in p))
    return out


def harnesses(tier):
    out = []
    thorough = tier == 'thorough'

    def mk(pname, scheme):
        def h(ctx):
            from dedalus.core import timesteppers
            if not hasattr(timesteppers, scheme):
                return
            s = getattr(timesteppers, scheme)
            ctx.encodes(f'timesteppers.{scheme}.step', 'solvers.InitialValueSolver.step', 'evaluator.Evaluator.evaluate_scheduled/evaluate_group', 'subsystems.Subproblem.gather/scatter', 'system.CoeffSystem')
            multi = scheme in MULTI
            if multi:
                n = max(3, s.steps + 2)
                n = min(n, 4) if not thorough and pname != 'wave' else n
                vals = (0.1, 0.25)
            else:
                n, vals = 3, (0.1, 0.25)
            if pname == 'quadratic':
                n = 2
                if scheme in ('RK443', 'RKGFY', 'RKSMR'):
                    n = 0 if not thorough and scheme == 'RK443' else 1
            pats = patterns(vals, n) if n else []
            if pname != 'wave' and not thorough:
                pats = [p for p in pats if p[0] == vals[0]]
                if pname in ('complex2d', 'disk', 'sphere'):
                    pats = pats[1::3] or pats
            if pname == 'wave':
                # nearly equal steps
                pats += [(0.1, 0.1, 0.1*(1+1e-5), 0.1), (0.1,)*(n-1) + (0.1*(1+2e-6),)]
            ctx.bound(f'{pname}/{scheme}: {len(pats)} timestep sequences of length {n} over {vals}, expanded-matrix storage on/off')
            for i, p in enumerate(pats):
                for store in ((False, True) if thorough or (pname in ('wave', 'cheb') and i % 2 == 0) else (bool(i % 2),)):
                    ctx.run(f'{pname} {scheme} dt={p} store={store}', case(PROBLEMS[pname], scheme, p, store, t0=0.3 if i % 2 else 0.0))
            if pname == 'wave':
                ctx.run(f'{pname} {scheme} cadence 1', case(PROBLEMS[pname], scheme, (0.1, 0.2, 0.2), False, t0=0.3, cadence=1))
                ctx.run(f'{pname} {scheme} restarted', case(PROBLEMS[pname], scheme, pats[1], False, t0=0.3, it0=7))
            if pname in ('wave', 'cheb'):
                ctx.run(f'{pname} {scheme} outputs', case(PROBLEMS[pname], scheme, (0.1, 0.2, 0.2), True, t0=0.3, it0=5, outputs=True))
                if not multi:
                    for it0 in (0, 3):
                        ctx.run(f'{pname} {scheme} reloaded {it0}', case(PROBLEMS[pname], scheme, (0.1, 0.2), False, t0=0.3, it0=it0, back=(0.1, 0.3)))
        return h
    for pname in PROBLEMS:
        for scheme in MULTI + RK:
            if pname in ('disk', 'sphere', 'complex2d') and not thorough and scheme not in ('CNAB2', 'MCNAB2', 'SBDF2', 'SBDF3', 'RK222', 'RKSMR'):
                continue
            out.append((f'{pname}-{scheme}', mk(pname, scheme)))
    return out
