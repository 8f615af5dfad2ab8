"""Boundary value and eigenvalue solvers: the computed state satisfies the stated equations."""
import numpy as np
from vt import scen, geo, lin

ASSUMPTIONS = ["right-hand sides: every combination of representable modes (|x|<=1); agreement to 1e-8",
               "linear solves and eigensolves by contract (exact inverse as a user-supplied matrix solver; any eigenpair of the matrices passed)",
               "well-posed discrete problems"]
R, C = np.float64, np.complex128


class Dense:
    config = {}

    def __init__(self, matrix, solver=None):
        self.inv = np.linalg.inv(matrix.toarray())

    def solve(self, v):
        return scen.along(self.inv, v, 0)

    def solve_H(self, v):
        return scen.along(self.inv.conj().T, v, 0)


class Prob:
    """vars, knowns (symbolic data), eqs: list of (LHS, RHS, condition)"""
    def __init__(self, vars, knowns, eqs, ncc=()):
        self.vars, self.knowns, self.eqs, self.ncc = vars, knowns, eqs, ncc


def fld(g, name, bases=(), rank=0, dtype=None):
    if rank == 0:
        return g.dist.Field(name=name, bases=bases)
    if rank == 1:
        return g.dist.VectorField(g.cs, name=name, bases=bases)
    return g.dist.TensorField((g.cs,)*rank, name=name, bases=bases)


# ------------------------------------------------------------------ linear problems
def l_cheb(d3, dtype=R):
    g = geo.cart(d3, [('x', 'T', 6, (0, 2))], dtype, dealias=1.5)
    b, = g.bases
    u, t1, t2 = fld(g, 'u', b), fld(g, 't1'), fld(g, 't2')
    f, n = fld(g, 'f', b), fld(g, 'n', b)
    G, H = fld(g, 'G'), fld(g, 'H')
    x = g.dist.local_grid(b)
    n['g'] = 1 + x + 0.5*x**2
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    lb = b.derivative_basis(2)
    return Prob([u, t1, t2], [f, G, H], [(dx(dx(u)) + n*u + d3.Lift(t1, lb, -1) + d3.Lift(t2, lb, -2), f), (u(x=0), G), (dx(u)(x=2) - u(x=2), H)], ncc=[(n, lambda: (2 - 0.3*x**2))])


def l_stokes(d3, dtype=R):
    g = geo.cart(d3, [('x', 'R' if dtype is R else 'C', 4, (0, 3)), ('z', 'L', 4, (0, 1))], dtype, dealias=1.5)
    bx, bz = g.bases
    p, u = fld(g, 'p', g.bases), fld(g, 'u', g.bases, 1)
    tp, t1, t2 = fld(g, 'tp'), fld(g, 't1', bx, 1), fld(g, 't2', bx, 1)
    f, w = fld(g, 'f', g.bases, 1), fld(g, 'w', bx, 1)
    ex, ez = g.cs.unit_vector_fields(g.dist)
    lb = bz.derivative_basis(1)
    lift = lambda A: d3.Lift(A, lb, -1)
    gu = d3.grad(u) + ez*lift(t1)
    return Prob([p, u, tp, t1, t2], [f, w], [(d3.trace(gu) + tp, 0), (d3.div(gu) - d3.grad(p) + lift(t2), f), (u(z=0), 0), (u(z=1), w), (d3.integ(p), 0)])


def l_cond(d3, dtype=C):
    """Different equations for different groups, two separable axes."""
    g = geo.cart(d3, [('x', 'C', 3, (0, 3)), ('y', 'C', 4, (0, 2)), ('z', 'T', 4, (0, 1))], dtype)
    bx, by, bz = g.bases
    u, tu = fld(g, 'u', g.bases), fld(g, 'tu', (bx, by))
    f, h = fld(g, 'f', g.bases), fld(g, 'h', (bx, by))
    dz = lambda A: d3.Differentiate(A, g.coords['z'])
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    lb = bz.derivative_basis(1)
    return Prob([u, tu], [f, h], [(dz(u) + dx(u) + 1j*u + d3.Lift(tu, lb, -1), f), (u(z=0), h, "nx != 0 and ny == 0"), (u(z=1), h, "nx == 0 or ny != 0")])


def l_polar(kind, dtype=R, shape=(4, 4)):
    def f(d3):
        o = dict(radius=1.5) if kind == 'disk' else dict(radii=(.5, 2))
        g = geo.polar(d3, kind, shape, dtype, **o)
        b = g.basis
        u = fld(g, 'u', b, 1)
        f = fld(g, 'f', b, 1)
        if kind == 'disk':
            t, w = fld(g, 't', b.edge, 1), fld(g, 'w', b.edge, 1)
            return Prob([u, t], [f, w], [(d3.lap(u) - 2*u + d3.Lift(t, b, -1), f), (u(r=1.5), w)])
        t1, t2, w = fld(g, 't1', b.outer_edge, 1), fld(g, 't2', b.outer_edge, 1), fld(g, 'w', b.outer_edge, 1)
        lb = b.derivative_basis(2)
        return Prob([u, t1, t2], [f, w], [(d3.lap(u) - 2*u + d3.Lift(t1, lb, -1) + d3.Lift(t2, lb, -2), f), (u(r=.5), 0), (u(r=2), w)])
    return f


def l_sphere(dtype=R, shape=(4, 4)):
    def f(d3):
        g = geo.sphere(d3, shape, dtype, radius=1.3)
        b = g.basis
        h, u = fld(g, 'h', b), fld(g, 'u', b, 1)
        f, w = fld(g, 'f', b), fld(g, 'w', b, 1)
        return Prob([h, u], [f, w], [(d3.lap(h) - 2*h + d3.div(u), f), (d3.lap(u) - 3*u + d3.skew(u) + d3.grad(h), w)])
    return f


def l_spherical(kind, dtype=R, shape=(4, 3, 3), rank=0):
    def f(d3):
        o = dict(radius=1.5) if kind == 'ball' else dict(radii=(.5, 2))
        g = geo.spherical(d3, kind, shape, dtype, **o)
        b = g.basis
        u, f = fld(g, 'u', b, rank), fld(g, 'f', b, rank)
        edge = b.surface if kind == 'ball' else b.outer_surface
        if kind == 'ball':
            t, w = fld(g, 't', edge, rank), fld(g, 'w', edge, rank)
            return Prob([u, t], [f, w], [(d3.lap(u) - 2*u + d3.Lift(t, b, -1), f), (u(r=1.5), w)])
        t1, t2, w = fld(g, 't1', edge, rank), fld(g, 't2', edge, rank), fld(g, 'w', edge, rank)
        lb = b.derivative_basis(2)
        return Prob([u, t1, t2], [f, w], [(d3.lap(u) - u + d3.Lift(t1, lb, -1) + d3.Lift(t2, lb, -2), f), (u(r=.5), 0), (u(r=2), w)])
    return f


LINEAR = dict(cheb=l_cheb, chebC=lambda d3: l_cheb(d3, C), stokes=l_stokes, stokesC=lambda d3: l_stokes(d3, C), conditions=l_cond,
              disk=l_polar('disk'), annulus=l_polar('annulus'), diskC=l_polar('disk', C), sphere=l_sphere(), sphereC=l_sphere(C),
              ball=l_spherical('ball'), shell=l_spherical('shell'), ballvec=l_spherical('ball', rank=1), shellvec=l_spherical('shell', rank=1))


def symbolic_known(env, f, name):
    """Every representable value of a known field."""
    f.preset_scales(1)
    f.preset_layout('c')
    f['c'] = env.array(name, f.data.shape, complex=np.dtype(f.dtype).kind == 'c')*f.valid_modes.astype(float)
    f['g']
    f['c']


def junk(f, scale, seed):
    """Leave arbitrary old grid data in a field."""
    f.preset_scales(scale)
    f.preset_layout('g')
    f.data[:] = 0
    f['g'] = np.random.default_rng(seed).standard_normal(f.data.shape)


def residuals(d3, env, problem, solver, eqs):
    """gather_outputs of LHS - RHS per subproblem, by explicit evaluation."""
    from dedalus.core import operators
    outs = []
    for eq, e in zip(problem.equations, eqs):
        ex = e[0] - e[1] if not (np.isscalar(e[1]) and e[1] == 0) else e[0]
        f = operators.convert(ex, eq['domain'].bases).evaluate()
        f = f.copy()
        f.change_scales(1)
        f.change_layout('c')
        outs.append(f)
    if not hasattr(solver, 'set_state'):
        return {sp: sp.gather_outputs(outs).copy() for sp in solver.subproblems if sp.size}
    return {sp: [scen.along(sp.pre_left.toarray(), ss.gather(outs).copy(), 0) for ss in sp.subsystems] for sp in solver.subproblems if hasattr(sp, 'pre_left') and sp.size}


def only_solution(env, solver, vars):
    """nothing but the solution vectors is left in the variables"""
    keep = {sp: sp.gather_inputs(vars).copy() for sp in solver.subproblems}
    fresh = [v.copy() for v in vars]
    for v in fresh:
        v.preset_scales(1)
        v.preset_layout('c')
        v.data[:] = 0
        v['c'] = 0
    return fresh, keep


def lbvp_body(build, solver_kw, mode):
    def body(env):
        d3 = scen.start(env)
        p = build(d3)
        problem = d3.LBVP(p.vars)
        for e in p.eqs:
            problem.add_equation(e[:2], **(dict(condition=e[2]) if len(e) > 2 else {}))
        for i, f in enumerate(p.knowns):
            symbolic_known(env, f, f'k{i}')
        solver = problem.build_solver(matsolver=Dense, **solver_kw)
        rounds = {'once': 1, 'again': 2, 'rebuild': 2, 'subset': 1}[mode]
        sps = list(solver.subproblems)
        for rd in range(rounds):
            if rd:
                for i, f in enumerate(p.knowns):
                    symbolic_known(env, f, f'r{i}')
                if mode == 'rebuild':
                    for n, fn in p.ncc:
                        n.preset_scales(1)
                        n['g'] = fn()
            for i, v in enumerate(p.vars):
                junk(v, [1, 2][rd] if mode != 'again' else [v.domain.dealias, 3][rd], 7*i + rd)
            if mode == 'subset':
                # selected groups solved one after the other
                for sp in sps[::2]:
                    solver.solve(sp)
                solver.solve(sps[1::2])
            else:
                solver.solve(**(dict(rebuild_matrices=True) if rd and mode == 'rebuild' else {}))
            sps = [sp for sp in solver.subproblems if sp.size]
            # state: exactly the solution vectors
            for v in p.vars:
                v.change_scales(1)
                v.change_layout('c')
            fresh, keep = only_solution(env, solver, p.vars)
            for sp in sps:
                sp.scatter_inputs(keep[sp], fresh)
            for v, w in zip(p.vars, fresh):
                env.equal(v['c'], w['c'], 'after solving, the variables hold nothing but the solution')
            res = residuals(d3, env, problem, solver, p.eqs)
            for sp in sps:
                env.equal(res[sp], 0*res[sp], 'the solution satisfies every equation of every group', tol=1e-7, info=f'group {sp.group}')
            env.nonzero(np.concatenate([np.ravel(keep[sp]) for sp in sps]), 'solution')
    return body


def h_linear(name):
    def h(ctx):
        ctx.encodes('solvers.LinearBoundaryValueSolver.solve', 'problems.LinearBoundaryValueProblem', 'subsystems.Subproblem.build_matrices/gather/scatter')
        ctx.bound('one small problem per geometry, every right-hand side; repeated solves, rebuilt coefficients, group subsets, stale state; ordering options')
        kws = [dict(), dict(bc_top=True, tau_left=True), dict(interleave_components=True, store_expanded_matrices=True)]
        heavy = name in ('stokes', 'stokesC', 'ballvec', 'shellvec', 'shell', 'ball')
        for mode in ('once', 'again', 'rebuild', 'subset'):
            if mode == 'rebuild' and name not in ('cheb', 'chebC'):
                continue
            for kw in (kws if mode == 'once' and not heavy else [kws[len(mode) % 3]]):
                ctx.run(f'{name} {mode} {kw}', lbvp_body(LINEAR[name], kw, mode), expect=['the solution satisfies every equation of every group'])
    return h


# ------------------------------------------------------------------ Newton iterations
def n_cheb(d3):
    g = geo.cart(d3, [('x', 'T', 6, (0, 2))], R, dealias=2)
    b, = g.bases
    u, v, t1, t2 = fld(g, 'u', b), fld(g, 'v', b), fld(g, 't1'), fld(g, 't2')
    f, h, G = fld(g, 'f', b), fld(g, 'h', b), fld(g, 'G')
    x = g.dist.local_grid(b)
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    lb = b.derivative_basis(1)
    return Prob([u, v, t1, t2], [f, h, G], [(dx(u) - v + d3.Lift(t1, lb, -1), f), (dx(v) + d3.Lift(t2, lb, -1), u*u + v*u + h), (u(x=0), G), (v(x=2)*u(x=2) + u(x=0), 1)]), {u: lambda: 1 + x, v: lambda: 2 - x}


def n_const(d3):
    c = d3.Coordinate('x')
    dist = d3.Distributor(c, dtype=R)
    class G: pass
    g = G()
    g.dist, g.cs = dist, c
    u, v, f = fld(g, 'u'), fld(g, 'v'), fld(g, 'f')
    return Prob([u, v], [f], [(u*u - 3*v, f), (u*v + v, 2)]), {u: lambda: 1.3, v: lambda: 0.4}


def n_fourier(d3):
    g = geo.cart(d3, [('x', 'C', 5, (0, 2))], C, dealias=2)
    b, = g.bases
    u, f = fld(g, 'u', b), fld(g, 'f', b)
    x = g.dist.local_grid(b)
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    return Prob([u], [f], [(dx(dx(u)) - 3*u, u*dx(u) + 0.5*u*u + f)]), {u: lambda: 1 + 0.3*np.exp(1j*np.pi*x)}


def n_vec(d3):
    g = geo.cart(d3, [('x', 'R', 4, (0, 3)), ('z', 'T', 5, (0, 1))], R, dealias=2)
    bx, bz = g.bases
    u, p, t1 = fld(g, 'u', g.bases, 1), fld(g, 'p', g.bases), fld(g, 't1', bx, 1)
    f = fld(g, 'f', g.bases, 1)
    c = fld(g, 'c', (), 1)
    c["g"] = np.array([0.4, -0.7]).reshape(c["g"].shape)
    z = g.dist.local_grid(bz)
    dz = lambda A: d3.Differentiate(A, g.coords['z'])
    lb = bz.derivative_basis(1)
    def init():
        a = np.zeros(u['g'].shape)
        a[0], a[1] = 1 + z, 2 - z
        return a
    return Prob([u, p, t1], [f], [(dz(u) + d3.Lift(t1, lb, -1), p*u + u*(u@c) + f), (p - d3.trace(d3.grad(u)), 0), (u(z=0) + u(z=1)*(u(z=1)@c), 0)]), {u: init, p: lambda: 0.3 + z}


NEWTON = dict(cheb=n_cheb, const=n_const, fourier=n_fourier, vector=n_vec)


def newton_body(build, damping, scale, iters, solver_kw):
    def body(env):
        d3 = scen.start(env)
        from dedalus.core import operators
        p, init = build(d3)
        problem = d3.NLBVP(p.vars)
        for e in p.eqs:
            problem.add_equation(e[:2])
        for i, f in enumerate(p.knowns):
            symbolic_known(env, f, f'k{i}')
            f['c'] = 0.1*f['c']
        solver = problem.build_solver(matsolver=Dense, **solver_kw)
        for v in p.vars:
            v.preset_scales(1)
            v['c'] = 0
            if v in init:
                v['g'] = init[v]()
            v['c']

        def state(vars=p.vars):
            out = []
            for v in vars:
                v.change_scales(1)
                out.append(v['c'].copy())
            return out

        def put(vals):
            for v, x in zip(p.vars, vals):
                v.preset_scales(1)
                v['c'] = x
        X0 = state()
        for v in p.vars:
            v.change_scales(scale)
            v['g']
        if iters > 1:
            # an earlier step from another state
            for v in p.vars:
                v.preset_scales(1)
                v['c'] = 0
                if v in init:
                    v['g'] = 0.7*init[v]()
            solver.newton_iteration()
            put(X0)
            for v in p.vars:
                v.change_scales(scale)
                v['g']
        solver.newton_iteration(damping=damping)
        sps = [sp for sp in solver.subproblems if sp.size]
        env.check(int(solver.iteration) == iters, 'iterations are counted')
        X1 = state()
        D = [(b - a)/damping for a, b in zip(X0, X1)]
        P = []
        for q, d in zip(solver.perturbations, D):
            q.change_scales(1)
            env.equal(q['c'], -1*d, 'the state is updated by the damped perturbation', tol=1e-8)
        env.nonzero(np.concatenate([np.ravel(d) for d in D]), 'update')
        def at(s):
            put([a + s*d for a, d in zip(X0, D)])
            return residuals(d3, env, problem, solver, p.eqs)
        F0, Fp, Fm = at(0.), at(1.), at(-1.)
        put(X1)
        for sp in sps:
            # quadratic equations: the directional derivative is the central difference
            lin_ = F0[sp] + 0.5*Fp[sp] - 0.5*Fm[sp]
            env.equal(lin_, 0*lin_, 'a Newton step solves the equations linearized about the current state', tol=1e-7, info=f'group {sp.group}')
    return body


def h_newton(ctx):
    ctx.encodes('solvers.NonlinearBoundaryValueSolver.newton_iteration', 'problems.NonlinearBoundaryValueProblem._build_matrix_expressions', 'field.Operand.frechet_differential')
    ctx.bound('quadratic problems, one Newton step from a fixed smooth state, every forcing; damping 1, 0.5; scales 1, 3/2')
    for name, build in NEWTON.items():
        for damping, scale, iters, kw in ((1, 1, 1, {}), (0.5, 1.5, 2, dict(bc_top=True)), (1, 2, 1, dict(tau_left=True, interleave_components=True))):
            ctx.run(f'newton {name} damping={damping} scale={scale} steps={iters}', newton_body(build, damping, scale, iters, kw))


# ------------------------------------------------------------------ linear stability from IVPs
def s_cheb(d3):
    g = geo.cart(d3, [('x', 'C', 4, (0, 3)), ('z', 'T', 6, (0, 1))], C, dealias=2)
    bx, bz = g.bases
    u, v, t1, t2 = fld(g, 'u', g.bases), fld(g, 'v', g.bases), fld(g, 't1', bx), fld(g, 't2', bx)
    U, V, T1, T2 = fld(g, 'U', bz), fld(g, 'V', bz), fld(g, 'T1'), fld(g, 'T2')
    z = g.dist.local_grid(bz)
    dz = lambda A: d3.Differentiate(A, g.coords['z'])
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    lb = bz.derivative_basis(1)
    eqs = lambda dt: [(dt(u) + dz(v) + 2*u + d3.Lift(t1, lb, -1), u*dx(u) - u*v + 1.0), (2*dt(v) + dt(u) - dz(u) + dx(dx(v)) + d3.Lift(t2, lb, -1), 0), (u(z=0), 1), (v(z=1) + dt(u)(z=1), u(z=0)*u(z=1))]
    return g, [u, v, t1, t2], [U, V, T1, T2], {'U': lambda: 1 + z, 'V': lambda: 2 - z}, eqs


def s_vec(d3):
    g = geo.cart(d3, [('x', 'C', 3, (0, 3)), ('z', 'L', 6, (0, 1))], C, dealias=2)
    bx, bz = g.bases
    u, p = fld(g, 'u', g.bases, 1), fld(g, 'p', g.bases)
    U, P = fld(g, 'U', bz, 1), fld(g, 'P', bz)
    z = g.dist.local_grid(bz)
    def bg():
        a = np.zeros(U['g'].shape, complex)
        a[0], a[1] = 1 + z, 0.5*z
        return a
    eqs = lambda dt: [(dt(u) + u, u*p - u*(u@u)*0 + p*u), (dt(p) - 2*p, u@u)]
    return g, [u, p], [U, P], {'U': bg, 'P': lambda: 0.3 - z}, eqs


STABILITY = dict(cheb=s_cheb, vector=s_vec)


def stability_body(build, explicit, perts):
    """build_EVP on an IVP: the matrices are lam*M + L - F'(X0)"""
    def body(env):
        d3 = scen.start(env)
        from dedalus.core import operators
        g, vars, bgs, init, eqs = build(d3)
        dt = d3.dt
        ivp = d3.IVP(vars)
        for e in eqs(dt):
            ivp.add_equation(e)
        s = g.dist.Field(name='s')
        kw = {}
        if perts:
            kw['perturbations'] = [v.copy() for v in vars]
            for i, q in enumerate(kw['perturbations']):
                q.name = f'q{i}'
        if explicit:
            kw['backgrounds'] = bgs
        evp = ivp.build_EVP(eigenvalue=s, **kw)
        back = bgs if explicit else vars
        X0 = []
        for b, B in zip(back, bgs):
            b.preset_scales(1)
            b['c'] = 0
            b['g'] = init[B.name]() if B.name in init else 0
            X0.append(b['g'].copy()*np.ones(vars[len(X0)]['g'].shape))
        q = evp.variables
        solver = evp.build_solver(matsolver=Dense)
        sps = [sp for sp in solver.subproblems if abs(sp.group[0] or 0)*2 != g.bases[0].size]
        solver.build_matrices(sps, ['M', 'L'])
        sps = [sp for sp in sps if sp.size]
        lam = 0.6 - 0.3j
        for i, v in enumerate(q):
            symbolic_known(env, v, f'q{i}')
        got = {sp: scen.along(lam*sp.M_min.toarray() + sp.L_min.toarray(), scen.along(sp.pre_right_pinv.toarray(), sp.subsystems[0].gather(q), 0), 0) for sp in sps}
        dX = []
        for v in q:
            v.preset_scales(1)
            dX.append(v['g'].copy())
        def at(a, alg):
            for v, x, d in zip(vars, X0, dX):
                v.preset_scales(1)
                v['g'] = x + a*d
            outs = []
            for (l, r), e in zip(eqs(lambda A: lam*A if alg else 0*A), evp.equations):
                ex = l - r if not np.isscalar(r) else l
                f = operators.convert(ex, e['domain'].bases).evaluate().copy()
                f.change_scales(1)
                f.change_layout('c')
                outs.append(f)
            return {sp: scen.along(sp.pre_left.toarray(), sp.subsystems[0].gather(outs).copy(), 0) for sp in sps}
        Fp, Fm = at(1., True), at(-1., True)
        for sp in sps:
            want = 0.5*Fp[sp] - 0.5*Fm[sp]
            env.equal(got[sp], want, 'the eigenvalue problem of an IVP is its linearization about the background', tol=1e-8, info=f'group {sp.group}')
        env.nonzero(np.concatenate([np.ravel(got[sp]) for sp in sps]), 'linearization')
    return body


def h_stability(ctx):
    ctx.encodes('problems.InitialValueProblem.build_EVP', 'field.Operand.frechet_differential/replace/sym_diff')
    ctx.bound('two quadratic IVPs, fixed resolved backgrounds, every perturbation; given and default backgrounds and perturbations')
    for name, build in STABILITY.items():
        for explicit in (True, False):
            for perts in (False, True):
                ctx.run(f'stability {name} backgrounds={explicit} perturbations={perts}', stability_body(build, explicit, perts), expect=['the eigenvalue problem of an IVP is its linearization about the background'])


# ------------------------------------------------------------------ eigenvalue problems
def e_wave(d3, dtype=C):
    g = geo.cart(d3, [('x', 'C', 3, (0, 3)), ('z', 'T', 5, (0, 2))], dtype)
    bx, bz = g.bases
    u, w, t1 = fld(g, 'u', g.bases), fld(g, 'w', g.bases), fld(g, 't1', bx)
    n = fld(g, 'n', bz)
    z = g.dist.local_grid(bz)
    n['g'] = 1 + z
    s = g.dist.Field(name='s')
    dz = lambda A: d3.Differentiate(A, g.coords['z'])
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    lb = bz.derivative_basis(1)
    return Prob([u, w, t1], [], lambda s: [(s*u + 1j*dx(w) + n*u + s*dz(w)*2, 0), (dz(u) - w + s*n*u*0.5 + d3.Lift(t1, lb, -1), 0), (u(z=0) + s*u(z=2), 0)], ncc=[(n, lambda: 2 - z)]), s


def e_disk(d3):
    g = geo.polar(d3, 'disk', (4, 4), C, radius=1.5)
    b = g.basis
    u, t = fld(g, 'u', b, 1), fld(g, 't', b.edge, 1)
    s = g.dist.Field(name='s')
    return Prob([u, t], [], lambda s: [(s*u + d3.lap(u) + d3.Lift(t, b, -1), 0), (u(r=1.5), 0)]), s


def e_real(d3):
    """real variables, complex eigenvalue problem per group"""
    g = geo.sphere(d3, (4, 4), C, radius=1.)
    b = g.basis
    u, h = fld(g, 'u', b, 1), fld(g, 'h', b)
    s = g.dist.Field(name='s')
    return Prob([u, h], [], lambda s: [(s*u + d3.grad(h) + 2*d3.MulCosine(d3.skew(u)), 0), (s*h + d3.div(u), 0)]), s


EIG = dict(wave=e_wave, disk=e_disk, sphere=e_real)


def evp_body(build, how, left, solver_kw, rebuild=False, nyq=None):
    def body(env):
        d3 = scen.start(env)
        from dedalus.core import solvers, operators
        from dedalus.tools import array as tarray
        p, s = build(d3)
        problem = d3.EVP(p.vars, eigenvalue=s)
        for e in p.eqs(s):
            problem.add_equation(e[:2])
        solver = problem.build_solver(matsolver=Dense, **solver_kw)
        # Nyquist modes are not representable on the grid
        sps = [sp for sp in solver.subproblems if sp.group[0] is None or abs(sp.group[0]) != nyq]
        lam = np.array([0.7 - 0.4j, -1.1 + 0.2j])
        for k, sp in enumerate(sps[:: max(1, len(sps)//4)]):
            got = {}
            if how == 'dense' and k == 0:
                solver.build_matrices([sp], ['M', 'L'])
            if hasattr(sp, 'pre_left') and not sp.size:
                continue
            if rebuild:
                if how == 'dense':
                    pass
                solver.build_matrices([sp], ['M', 'L'])
                for n, fn in p.ncc:
                    n.preset_scales(1)
                    n['g'] = fn()
            def vec(m, tag):
                return env.array(f'{tag}{k}', (m, len(lam)), complex=True)

            def eig(A, b=None, left=False, **kw):
                got['A'], got['B'] = np.array(A), np.array(b)
                got['kw'] = kw
                got['x'] = vec(A.shape[0], 'x')
                if left:
                    got['y'] = vec(A.shape[0], 'y')
                    return lam, got['y'], got['x']
                return lam, got['x']

            def eigs(A, B, left, N, target, matsolver, v0=None, **kw):
                got['A'], got['B'] = A.toarray(), B.toarray()
                got.update(N=N, target=target, matsolver=matsolver, kw=kw, v0=v0)
                got['x'] = vec(A.shape[0], 'x')
                if left:
                    got['y'] = vec(A.shape[0], 'y')
                    return lam, got['x'], lam.conj(), got['y']
                return lam, got['x']
            if how == 'dense':
                import types
                env.stub(solvers, 'scipy', types.SimpleNamespace(linalg=types.SimpleNamespace(eig=eig)))
                solver.solve_dense(sp, left=left, normalize_left=False, rebuild_matrices=rebuild, overwrite_a=False)
                env.check(got['kw'] == dict(overwrite_a=False), 'options are passed on')
            else:
                env.stub(solvers, 'scipy_sparse_eigs', eigs)
                solver.solve_sparse(sp, 2, 0.3j, left=left, normalize_left=False, rebuild_matrices=rebuild, tol=1e-3)
                env.check(got['N'] == 2 and got['target'] == 0.3j and got['matsolver'] is Dense and got['kw'] == dict(tol=1e-3), 'number, target and options are passed on')
            solver.build_matrices([q for q in sps if not hasattr(q, 'L_min')], ['M', 'L'])
            sps = [q for q in sps if q.size]
            A, B, x = got['A'], got['B'], got['x']
            env.equal(solver.eigenvalues, lam, 'eigenvalues are those found')
            for j, sub in enumerate(sp.subsystems):
                for i in range(len(lam)):
                    for q, v in enumerate(p.vars):
                        junk(v, 1.5, q)
                    solver.set_state(i, sub if j % 2 else j)
                    env.equal(s['g'].ravel()[0], lam[i], 'the eigenvalue of the mode is set with its state')
                    for v in p.vars:
                        v.change_scales(1)
                        v.change_layout('c')
                    # explicit evaluation of the equations with the eigenvalue
                    res = residuals(d3, env, problem, solver, p.eqs(lam[i]))
                    want = scen.along(A, x[:, i], 0) - lam[i]*scen.along(B, x[:, i], 0)
                    for s2 in sps:
                        for j2, r in enumerate(res[s2]):
                            env.equal(r, want if s2 is sp and j == j2 else 0*r, 'an eigenpair of the matrices solves the equations in its group, and only there', tol=1e-8, info=f'group {sp.group}')
                    # evaluating the equations left the state alone
                    for v in p.vars:
                        v.change_scales(1)
                        v.change_layout('c')
                    vec_ = scen.along(sp.pre_right_pinv.toarray(), sub.gather(p.vars), 0)
                    env.equal(vec_, x[:, i], 'the state of a mode is its eigenvector', tol=1e-8)
                    env.nonzero(want, 'eigen residual')
            if left:
                # left eigenvectors: pairing with equation residuals in coefficient space
                y = got['y']
                M = sp.M_min.toarray()
                yM = scen.along((M @ sp.pre_right_pinv.toarray()).conj().T, y, 0)
                env.equal(solver.modified_left_eigenvectors, yM, 'modified left eigenvectors pair with states through the mass matrix', tol=1e-8)
                env.equal(solver.left_eigenvectors, scen.along(sp.pre_left.toarray().conj().T, y, 0), 'left eigenvectors pair with equation residuals', tol=1e-8)
    return body


def h_eig(ctx):
    ctx.encodes('solvers.EigenvalueSolver.solve_dense/solve_sparse/set_state', 'problems.EigenvalueProblem._build_matrix_expressions')
    ctx.bound('three problems; two eigenvalues with arbitrary eigenvectors; all groups of a sample; dense and sparse; left vectors')
    for name, build in EIG.items():
        for how in ('dense', 'sparse'):
            for left in (False, True):
                ctx.run(f'evp {name} {how} left={left}', evp_body(build, how, left, dict(bc_top=left), nyq=2 if name in ('disk', 'sphere') else None), expect=['an eigenpair of the matrices solves the equations in its group, and only there'])
    ctx.run('evp rebuild dense', evp_body(e_wave, 'dense', False, {}, True))
    ctx.run('evp rebuild sparse', evp_body(e_wave, 'sparse', False, {}, True))


def harnesses(tier):
    return [('lbvp-' + n, h_linear(n)) for n in LINEAR] + [('newton', h_newton), ('stability', h_stability), ('eig', h_eig)]
