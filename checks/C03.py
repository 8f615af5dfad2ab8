"""LHS matrices act exactly as the explicit evaluation of the same linear operator, for all data."""
import numpy as np
from vt import scen, geo, lin

ASSUMPTIONS = ["variable data are all combinations of representable modes (magnitude <= 1); agreement to 1e-9",
               "compiled kernels by their contract (checked in C18)"]
R, C = np.float64, np.complex128


def matrices_match(env, problem, exprs, restrict=None, **solver_kw):
    """exprs: {'L': [callable or None per equation], 'M': ...}"""
    from dedalus.core import operators
    solver = problem.build_solver(**solver_kw)
    names = list(exprs)
    solver.build_matrices(solver.subproblems, names)
    lhs_vars = problem.LHS_variables
    for v in lhs_vars:
        v.preset_scales(1)
        v['c'] = 0
    X = {}
    cplx = np.dtype(problem.dtype).kind == 'c'
    for i, sp in enumerate(solver.subproblems):
        X[sp] = env.array(f'x{i}', sp.shape, complex=cplx)
        sp.scatter_inputs(X[sp], lhs_vars)
    # keep what the real-space field can represent (drops Nyquist modes and spin/real redundancies)
    for v in lhs_vars:
        v['g']
        v['c']
        if restrict and v in restrict:
            axes, margin = restrict[v]
            for a in axes:
                v.data[(slice(None),)*(v.data.ndim + a) + (slice(max(v.data.shape[a] - margin, 0), None),)] = 0
    for i, sp in enumerate(solver.subproblems):
        X[sp] = sp.gather_inputs(lhs_vars).copy()
    env.nonzero(np.concatenate([np.ravel(x) for x in X.values()]), 'data')
    total = 0
    for name in names:
        outs = []
        for eq, e in zip(problem.equations, exprs[name]):
            e = e() if callable(e) else e
            if e is None or (np.isscalar(e) and e == 0):
                f = problem.dist.Field(bases=eq['domain'].bases, tensorsig=eq['tensorsig'], dtype=eq['dtype'])
                f['c'] = 0
            else:
                f = operators.convert(e, eq['domain'].bases).evaluate()
                f.change_layout('c')
            outs.append(f)
        for i, sp in enumerate(solver.subproblems):
            A = getattr(sp, name + '_min')
            if A.shape[0] == 0:
                continue
            got = scen.along(A.toarray(), X[sp], 0)
            exp = sp.gather_outputs(outs).copy()
            env.equal(got, exp, f'{name} matrix acts as the evaluated operator', info=f'group {sp.group}')
            total += A.nnz
    env.check(total > 0, 'some matrix is nonzero')
    return solver


def single(env, d3, dist, u, op, coupling=None, **solver_kw):
    """Op(u) through an auxiliary variable w of the right type: w + Op(u) = 0, u = 0."""
    e = op(u)
    w = dist.Field(name='w', bases=e.domain.bases, tensorsig=e.tensorsig, dtype=e.dtype)
    p = d3.LBVP([u, w])
    p.add_equation((w + op(u), 0))
    p.add_equation((u, 0))
    kw = dict(solver_kw)
    if coupling is not None:
        kw['matrix_coupling'] = coupling
    return matrices_match(env, p, {'L': [lambda: w + op(u), lambda: u]}, **kw)


def case(build, sig, op, bases=None, coupling=None, kw=None):
    """build(d3)->geo; sig: tensor rank or callable(geo); op(geo, u)"""
    def body(env):
        d3 = scen.start(env)
        g = build(d3)
        b = g.bases if bases is None else bases(g)
        ts = sig(g) if callable(sig) else (g.cs,)*sig
        u = g.dist.Field(name='u', bases=b, tensorsig=ts, dtype=g.dtype)
        single(env, d3, g.dist, u, lambda x: op(g, x), coupling=coupling, **(kw or {}))
    return body


# ------------------------------------------------------------------ Cartesian
def cart_specs(tier):
    s = [
        ('T', [('x', 'T', 6, (-1, 2))], R),
        ('L', [('x', 'L', 5, (0, 3))], R),
        ('U', [('x', 'U', 5, (0, 3), {'alpha': 1.5})], C),
        ('J', [('x', 'J', 5, (-2, 1), {'a': 0.5, 'b': 1, 'a0': -.5, 'b0': 0})], R),
        ('R', [('x', 'R', 6, (0, 3))], R),
        ('C', [('x', 'C', 5, (-1, 3))], C),
        ('RT', [('x', 'R', 4, (0, 3)), ('z', 'T', 4, (0, 2))], R),
        ('CL', [('x', 'C', 4, (0, 3)), ('z', 'L', 4, (0, 2))], C),
        ('TR', [('x', 'T', 4, (0, 3)), ('z', 'R', 4, (0, 2))], R),
        ('RR', [('x', 'R', 4, (0, 3)), ('y', 'R', 4, (0, 2))], R),
        ('CC', [('x', 'C', 3, (0, 3)), ('y', 'C', 4, (0, 2))], C),
        ('R-T', [('x', 'R', 4), ('y', '-', 1), ('z', 'T', 3)], R),
        ('RRT', [('x', 'R', 4, (0, 3)), ('y', 'R', 4, (0, 2)), ('z', 'T', 3, (0, 1))], R),
        ('CCL', [('x', 'C', 3, (0, 3)), ('y', 'C', 3, (0, 2)), ('z', 'L', 3, (0, 1))], C),
        ('TL', [('x', 'T', 3, (0, 3)), ('z', 'L', 4, (0, 2))], R),
    ]
    if tier == 'thorough':
        s += [('T9', [('x', 'T', 9, (-1, 2))], C), ('J2', [('x', 'J', 7, (0, 1), {'a': 0, 'b': 2})], R),
              ('R12', [('x', 'R', 12, (0, 3))], R), ('C8', [('x', 'C', 8, (-1, 3))], C),
              ('RT8', [('x', 'R', 8, (0, 3)), ('z', 'T', 6, (0, 2))], R),
              ('TRR', [('x', 'T', 3, (0, 3)), ('y', 'R', 4, (0, 2)), ('z', 'R', 4, (0, 1))], R),
              ('RTR', [('x', 'R', 4, (0, 3)), ('y', 'T', 3, (0, 2)), ('z', 'R', 4, (0, 1))], R),
              ('RRR', [('x', 'R', 4, (0, 3)), ('y', 'R', 4, (0, 2)), ('z', 'R', 4, (0, 1))], R),
              ('TLT', [('x', 'T', 3, (0, 3)), ('y', 'L', 2, (0, 2)), ('z', 'T', 3, (0, 1))], R)]
    return s


def cart_harness(name, spec, dtype, tier):
    def h(ctx):
        from dedalus.core import operators as ops
        ctx.encodes('operators.* (Cartesian)', 'basis.ConvertJacobi/Differentiate*/Interpolate*/Integrate*/Average*/Lift*',
                    'subsystems.Subproblem.build_matrices/gather/scatter', 'problems/solvers construction',
                    'operators.SpectralOperator1D.subproblem_matrix/operate', 'operators.LinearOperator.expression_matrices', 'arithmetic.Add.expression_matrices')
        ctx.bound(f'{name}: {[s[:4] for s in spec]}')
        build = lambda d3: geo.cart(d3, spec, dtype)
        names = [s[0] for s in spec if s[1] != '-']
        kinds = {s[0]: s[1] for s in spec}
        dim = len(spec)
        allF = all(k in 'RC' for k in kinds.values())

        def go(label, sig, op, **kw):
            ctx.run(f'{name} {label}', case(build, sig, op, **kw))
        import dedalus.public as d3
        for n in names:
            co = lambda g: g.coords[n]
            lo, hi = [s for s in spec if s[0] == n][0][3:5][0] if len([s for s in spec if s[0] == n][0]) > 3 else ((0, 2*np.pi) if kinds[n] in 'RC' else (-1, 1))
            go(f'd{n}', 0, lambda g, u, n=n: d3.Differentiate(u, g.coords[n]))
            go(f'd2{n}', 0, lambda g, u, n=n: d3.Differentiate(d3.Differentiate(u, g.coords[n]), g.coords[n]) + 2.5*u)
            full = [True]*dim if kinds[n] in 'RC' else None
            for pos in (lo, lo + 0.3*(hi-lo), hi, 'left', 'right', 'center'):
                go(f'interp {n}={pos}', 0, lambda g, u, n=n, pos=pos: d3.Interpolate(u, g.coords[n], pos), coupling=full)
            go(f'integ {n}', 0, lambda g, u, n=n: d3.Integrate(u, g.coords[n]))
            if kinds[n] not in 'RC':
                for i in (-1, -2):
                    for k in (0, 1, 2):
                        ob = lambda g, n=n: [b for b in g.bases if b.coord.name == n][0]
                        go(f'lift {n} {i} {k}', 0, lambda g, u, i=i, k=k, ob=ob: d3.Lift(u, ob(g).derivative_basis(k), i),
                           bases=lambda g, ob=ob: tuple(b for b in g.bases if b is not ob(g)))
                for k in (1, 2):
                    go(f'convert {n} {k}', 0, lambda g, u, n=n, k=k: d3.Convert(u, [b for b in g.bases if b.coord.name == n][0].derivative_basis(k)))
            # constant along n, converted into n by addition with a field that has it
            if dim > 1 or True:
                go(f'const-convert {n}', 0, lambda g, u, n=n: d3.Convert(u, [b for b in g.bases if b.coord.name == n][0]),
                   bases=lambda g, n=n: tuple(b for b in g.bases if b.coord.name != n))
        go('integ all', 0, lambda g, u: d3.integ(u))
        go('scale', 0, lambda g, u: -3*(u*2) + u/4)
        if dim > 1:
            go('lap', 0, lambda g, u: d3.lap(u))
            go('grad', 0, lambda g, u: d3.grad(u))
            go('grad vec', 1, lambda g, u: d3.grad(u))
            go('div', 1, lambda g, u: d3.div(u))
            go('lap vec', 1, lambda g, u: d3.lap(u) - 2*d3.grad(d3.div(u)))
            go('div tensor', 2, lambda g, u: d3.div(u))
            go('trace', 2, lambda g, u: d3.trace(u))
            go('transpose', 2, lambda g, u: d3.trans(u) + 2*u)
            go('strain', 1, lambda g, u: d3.div(d3.grad(u) + d3.trans(d3.grad(u))))
            for n in g_names(spec):
                go(f'comp {n}', 1, lambda g, u, n=n: d3.comp(u, index=0, comp=g.coords[n]))
                go(f'comp1 {n}', 2, lambda g, u, n=n: d3.comp(u, index=1, comp=g.coords[n]))
            if dim == 2:
                go('skew', 1, lambda g, u: d3.skew(u))
                go('curl2', 1, lambda g, u: -d3.div(d3.skew(u)))
            if dim == 3:
                go('curl', 1, lambda g, u: d3.curl(u))
                go('curlcurl', 1, lambda g, u: d3.curl(d3.curl(u)))
    return h


def g_names(spec):
    return [s[0] for s in spec]


# ------------------------------------------------------------------ curvilinear
def polar_harness(kind, dtype, tier):
    def h(ctx):
        import dedalus.public as d3
        ctx.encodes('basis.PolarBasis/DiskBasis/AnnulusBasis operators', 'operators.PolarMOperator', 'operators.PolarGradient/PolarDivergence/PolarLaplacian',
                    'operators.PolarTrace/SpinSkew', 'basis.LiftDisk/LiftAnnulus', 'basis.IntegrateDisk/IntegrateAnnulus', 'subsystems.Subproblem')
        opts = [dict(radius=1.5)] if kind == 'disk' else [dict(radii=(0.5, 2))]
        if kind == 'disk':
            opts += [dict(radius=0.7, alpha=1, k=1)]
            edge = lambda g: (g.basis.edge,)
            pos = lambda g: (g.basis.radius, 0.4*g.basis.radius)
        else:
            opts += [dict(radii=(1, 1.7), alpha=(0, 0), k=1)]
            edge = lambda g: (g.basis.outer_edge,)
            pos = lambda g: tuple(g.basis.radii) + (0.5*sum(g.basis.radii),)
        shapes = [(4, 4), (8, 4)] if tier != 'thorough' else [(4, 4), (8, 4), (6, 6), (8, 7)]
        ctx.bound(f'{kind} {np.dtype(dtype).name}: shapes {shapes}, options {opts}')
        for i, shape in enumerate(shapes):
            for o in opts if tier == 'thorough' else [opts[i]]:
                build = lambda d3, shape=shape, o=o: geo.polar(d3, kind, shape, dtype, **o)

                def go(label, sig, op, **kw):
                    ctx.run(f'{kind} {np.dtype(dtype).name} {shape} {o} {label}', case(build, sig, op, **kw))
                for r in (0, 1, 2):
                    go(f'lap {r}', r, lambda g, u: d3.lap(u))
                    go(f'grad {r}', r, lambda g, u: d3.grad(u))
                    go(f'id {r}', r, lambda g, u: 3*u - u/2)
                    for i in range(3 if kind == 'annulus' else 2):
                        go(f'interp {r} {i}', r, lambda g, u, i=i: d3.Interpolate(u, g.cs['r'], pos(g)[i]))
                    for i in (-1, -2):
                        for k in (0, 1, 2):
                            go(f'lift {r} {i} {k}', r, lambda g, u, i=i, k=k: d3.Lift(u, g.basis.derivative_basis(k), i), bases=edge)
                    for k in (1, 2):
                        go(f'convert {r} {k}', r, lambda g, u, k=k: d3.Convert(u, g.basis.derivative_basis(k)))
                for r in (1, 2):
                    go(f'div {r}', r, lambda g, u: d3.div(u))
                go('skew', 1, lambda g, u: d3.skew(u))
                go('curl', 1, lambda g, u: -d3.div(d3.skew(u)))
                go('trace', 2, lambda g, u: d3.trace(u))
                go('transpose', 2, lambda g, u: d3.trans(u) - 3*u)
                go('visc', 1, lambda g, u: d3.div(d3.grad(u) + d3.trans(d3.grad(u))))
                go('div grad', 0, lambda g, u: d3.div(d3.grad(u)) + 2*u)
                go('integ', 0, lambda g, u: d3.integ(u))
                for nm in ('radial', 'angular', 'azimuthal'):
                    go(f'{nm} of boundary value', 1, lambda g, u, nm=nm: getattr(d3, nm)(u(r=pos(g)[0])))
                    if nm != 'angular':  # the polar angular component is only defined for vectors
                        go(f'{nm} of boundary strain', 1, lambda g, u, nm=nm: getattr(d3, nm)(d3.grad(u)(r=pos(g)[0]), index=1))
                go('const', 0, lambda g, u: d3.Convert(u, g.basis), bases=lambda g: ())
    return h


def sphere_harness(dtype, tier):
    def h(ctx):
        import dedalus.public as d3
        ctx.encodes('basis.SphereBasis operators', 'operators.SeparableSphereOperator', 'operators.MulCosine', 'basis.SphereGradient/SphereDivergence/SphereLaplacian', 'operators.SpinSkew')
        shapes = [(4, 4), (8, 4)] if tier != 'thorough' else [(4, 4), (8, 4), (4, 6), (12, 6)]
        ctx.bound(f'sphere {np.dtype(dtype).name}: shapes {shapes}')
        for shape in shapes:
            for rad in (1, 2.5) if tier == 'thorough' else [(1, 2.5)[shapes.index(shape)]]:
                build = lambda d3, shape=shape, rad=rad: geo.sphere(d3, shape, dtype, radius=rad)

                def go(label, sig, op, **kw):
                    for coup in (None, [False, True]) if kw.pop('both', True) else (None,):
                        ctx.run(f'sphere {np.dtype(dtype).name} {shape} {rad} {label} coupling={coup}', case(build, sig, op, coupling=coup, **kw))
                for r in (0, 1, 2):
                    go(f'lap {r}', r, lambda g, u: d3.lap(u))
                    go(f'grad {r}', r, lambda g, u: d3.grad(u))
                    go(f'id {r}', r, lambda g, u: 3*u - u/2)
                    go(f'mulcos {r}', r, lambda g, u: d3.MulCosine(u), both=False)
                for r in (1, 2):
                    go(f'div {r}', r, lambda g, u: d3.div(u))
                go('skew', 1, lambda g, u: d3.skew(u))
                go('coriolis', 1, lambda g, u: d3.MulCosine(d3.skew(u)) - 2*u, both=False)
                go('transpose', 2, lambda g, u: d3.trans(u) - 3*u)
                go('const', 0, lambda g, u: d3.Convert(u, g.basis), bases=lambda g: ())
    return h


def spherical_harness(kind, dtype, tier):
    def h(ctx):
        import dedalus.public as d3
        ctx.encodes('basis.ShellBasis/BallBasis operators', 'operators.SphericalEllOperator', 'operators.Spherical*', 'basis.LiftBall/LiftShell', 'basis.*RadialInterpolate', 'basis.Integrate*/Average*')
        opts = [dict(radius=1.5)] if kind == 'ball' else [dict(radii=(0.5, 2))]
        if kind == 'ball':
            opts += [dict(radius=0.7, alpha=1, k=1)]
            edge = lambda g: (g.basis.surface,)
            pos = lambda g: (g.basis.radius, 0.4*g.basis.radius)
        else:
            opts += [dict(radii=(1, 1.7), alpha=(0, 0), k=1)]
            edge = lambda g: (g.basis.outer_surface,)
            pos = lambda g: tuple(g.basis.radii) + (0.5*sum(g.basis.radii),)
        shapes = [(4, 4, 4), (8, 4, 3)] if tier != 'thorough' else [(4, 4, 4), (8, 4, 3), (4, 6, 6), (8, 5, 5)]
        ctx.bound(f'{kind} {np.dtype(dtype).name}: shapes {shapes}, options {opts}')
        for i, shape in enumerate(shapes):
            for o in opts if tier == 'thorough' else [opts[i]]:
                build = lambda d3, shape=shape, o=o: geo.spherical(d3, kind, shape, dtype, **o)

                def go(label, sig, op, ell=False, **kw):
                    # explicitly unsupported: ell-coupled ball matrices (radial sizes vary with ell)
                    for coup in ((None, [False, True, True]) if ell and kind == 'shell' else (None,)):
                        ctx.run(f'{kind} {np.dtype(dtype).name} {shape} {o} {label} coupling={coup}', case(build, sig, op, coupling=coup, **kw))
                for r in (0, 1, 2):
                    if r < 2 or shape == shapes[0]:
                        go(f'lap {r}', r, lambda g, u: d3.lap(u), ell=r < 2)
                        go(f'grad {r}', r, lambda g, u: d3.grad(u), ell=r < 2)
                        go(f'id {r}', r, lambda g, u: 3*u - u/2)
                        for i in range(3 if kind == 'shell' else 2):
                            go(f'interp {r} {i}', r, lambda g, u, i=i: d3.Interpolate(u, g.cs['r'], pos(g)[i]), ell=r < 2)
                    for i in (-1, -2):
                        for k in (0, 1, 2):
                            if r < 2 or (i, k) == (-1, 1):
                                go(f'lift {r} {i} {k}', r, lambda g, u, i=i, k=k: d3.Lift(u, g.basis.derivative_basis(k), i), bases=edge)
                    for k in (1, 2):
                        if r < 2:
                            go(f'convert {r} {k}', r, lambda g, u, k=k: d3.Convert(u, g.basis.derivative_basis(k)), ell=True)
                for r in (1, 2):
                    go(f'div {r}', r, lambda g, u: d3.div(u), ell=r < 2)
                go('curl', 1, lambda g, u: d3.curl(u))
                go('trace', 2, lambda g, u: d3.trace(u))
                go('transpose', 2, lambda g, u: d3.trans(u) - 3*u)
                go('visc', 1, lambda g, u: d3.div(d3.grad(u) + d3.trans(d3.grad(u))))
                go('ell product', 0, lambda g, u: d3.SphericalEllProduct(u, g.cs, lambda l: l*l+3))
                go('ell product vec', 1, lambda g, u: d3.SphericalEllProduct(u, g.cs, lambda l: l+3))
                go('div grad', 0, lambda g, u: d3.div(d3.grad(u)) + 2*u)
                go('integ', 0, lambda g, u: d3.integ(u))
                for nm in ('radial', 'angular'):
                    go(f'{nm} of boundary value', 1, lambda g, u, nm=nm: getattr(d3, nm)(u(r=pos(g)[0])))
                    go(f'{nm} of boundary strain', 1, lambda g, u, nm=nm: getattr(d3, nm)(d3.grad(u)(r=pos(g)[0]), index=1))
                go('const', 0, lambda g, u: d3.Convert(u, g.basis), bases=lambda g: ())
    return h


def cylinder_harness(kind, dtype, tier):
    def h(ctx):
        import dedalus.public as d3
        ctx.encodes('operators.DirectProduct*', 'basis.PolarBasis')
        zk = 'R' if dtype is R else 'C'
        builds = {f'per{kind}': lambda d3: geo.cylinder(d3, kind, 4, (4, 4), dtype, zk)}
        ctx.bound(f'{kind} x Fourier(4), polar shape (4,4), {np.dtype(dtype).name}')
        for lab, build in builds.items():
            def go(label, sig, op, **kw):
                ctx.run(f'{lab} {np.dtype(dtype).name} {label}', case(build, sig, op, **kw))
            for r in (0, 1, 2):
                go(f'lap {r}', r, lambda g, u: d3.lap(u))
                if r < 2:
                    go(f'grad {r}', r, lambda g, u: d3.grad(u))
                go(f'id {r}', r, lambda g, u: 3*u - u/2)
            for r in (1, 2):
                go(f'div {r}', r, lambda g, u: d3.div(u))
            go('trace', 2, lambda g, u: d3.trace(u))
            go('transpose', 2, lambda g, u: d3.trans(u) - 3*u)
            go('integ', 0, lambda g, u: d3.integ(u))
            for ax in (0, 1):
                go(f'comp {ax}', 1, lambda g, u, ax=ax: d3.comp(u, index=0, comp=[g.cz, g.cp][ax]))
    return h


def harnesses(tier):
    out = [(f'cart-{n}', cart_harness(n, s, dt, tier)) for n, s, dt in cart_specs(tier)]
    for dt, dn in ((R, 'real'), (C, 'complex')):
        for k in ('disk', 'annulus'):
            out.append((f'{k}-{dn}', polar_harness(k, dt, tier)))
        out.append((f'sphere-{dn}', sphere_harness(dt, tier)))
        for k in ('ball', 'shell'):
            out.append((f'{k}-{dn}', spherical_harness(k, dt, tier)))
        for k in ('disk', 'annulus'):
            out.append((f'cyl{k}-{dn}', cylinder_harness(k, dt, tier)))
    return out
