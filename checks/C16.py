"""CFL timesteps: advective frequencies on the grid, and the limited timestep computed from them."""
import numpy as np
from vt import scen, geo
from vt.shims import symbolic_module

ASSUMPTIONS = ["velocity magnitudes symbolic for fixed sign patterns",
               "sphere velocities: one component symbolic or both proportional to one symbol (the magnitude is then linear)",
               "timestep limits consistent: min_dt <= initial_dt <= max_dt, min_change <= 1 <= max_change; positive safety"]
R, C = np.float64, np.complex128


# ------------------------------------------------------------------ compute_timestep
class Store:
    """Minimal stand-in for an evaluated frequency field."""
    def __init__(self, data):
        self.data = data

    def __getitem__(self, k):
        return self.data


def make_solver(it0):
    import dedalus.public as d3, logging
    logging.disable(logging.CRITICAL)
    c = d3.Coordinate('x')
    dist = d3.Distributor(c, dtype=np.float64)
    b = d3.RealFourier(c, 4, bounds=(0, 1))
    u = dist.Field(name='u', bases=b)
    p = d3.IVP([u], namespace=locals())
    p.add_equation("dt(u) = 0")
    s = p.build_solver('RK111')
    s.iteration = s.initial_iteration = it0
    return s


def clip(env, x, lo, hi):
    from vt.engine import sym_min, sym_max
    return sym_max(sym_min(x, hi), lo) if env.sym else max(min(x, hi), lo)


def step_body(it0, cadence, nf, N, limits):
    def body(env):
        from dedalus.extras import flow_tools as F
        from vt.engine import sym_max
        solver = make_solver(it0)
        symbolic_module(env, F)
        lim = {}
        init = env.real('init', pos=True)
        if 'dt' in limits:
            lim['max_dt'] = env.real('max_dt', pos=True)
            lim['min_dt'] = env.real('min_dt', 0)
            env.assume(init <= lim['max_dt'])
            env.assume(lim['min_dt'] <= init)
        if 'change' in limits:
            lim['max_change'] = env.choose('maxc', [1.5, 2.])
            lim['min_change'] = 0.5
        if 'threshold' in limits:
            lim['threshold'] = env.choose('thr', [0.1, 0.5])
        safety = env.real('safety', pos=True) if not limits else 0.4
        cfl = F.CFL(solver, initial_dt=init, cadence=cadence, safety=safety, **lim)
        import types
        if env.sym:
            red = types.SimpleNamespace(global_max=lambda data, empty=-np.inf: sym_max(list(np.ravel(data))), global_min=None)
            env.patch(cfl, 'reducer', red)
        stored = init
        used = 0
        for it in range(it0, it0 + N):
            solver.iteration = it
            fresh = [[env.real(f'f{it}_{i}_{j}') for j in range(2)] for i in range(nf)]
            if (it - 1) % cadence == 0:
                cfl.frequencies.fields = {f'f{i}': Store(np.array(fresh[i], dtype=object if env.sym else float)) for i in range(nf)}
            got = cfl.compute_timestep()
            if (it - 1) % cadence == 0 and it - 1 > it0:
                used += 1
                tot = [sum(abs(fresh[i][j]) for i in range(nf)) for j in range(2)]
                big = sym_max(tot) if env.sym else max(tot)
                if bool(big == 0):
                    want = np.inf
                else:
                    want = safety / big
                lo = lim.get('min_dt', 0.)
                hi = lim.get('max_dt', np.inf)
                if 'min_change' in lim:
                    lo = clip(env, lo, lim['min_change']*stored, np.inf)
                    hi = clip(env, hi, 0., lim['max_change']*stored)
                want = clip(env, want, lo, hi)
                if isinstance(want, float) and np.isinf(want):
                    env.check(isinstance(got, float) and np.isinf(got), 'without frequencies or limits the timestep is unbounded')
                    return
                th = lim.get('threshold', 0.)
                if bool(abs(want - stored) > th*stored):
                    stored = want
            env.same(got, stored, 'the timestep follows the frequencies within safety, limits, change and threshold; unchanged between cadences')
            if 'dt' in limits:
                env.check(got <= lim['max_dt'], 'never above max_dt')
                env.check(got >= lim['min_dt'], 'never below min_dt')
        env.check(used > 0, 'frequencies used')
    return body


def h_step(ctx):
    ctx.encodes('extras.flow_tools.CFL.__init__', 'extras.flow_tools.CFL.compute_timestep')
    ctx.bound('cadences 1-3, fresh and restarted iteration counts, 2 grid points, up to 2 frequencies, up to 5 calls; option values symbolic or from a table')
    for it0, cad, nf, N in ((0, 1, 1, 4), (0, 2, 2, 4), (7, 3, 1, 5), (3, 3, 2, 5)):
        for limits in ((), ('dt',), ('change',), ('dt', 'change', 'threshold')) if nf == 1 else ((), ('threshold',)):
            ctx.run(f'timestep it0={it0} cadence={cad} n={nf} {limits}', step_body(it0, cad, nf, N, limits), expect=['frequencies used'])


# ------------------------------------------------------------------ grid frequencies
def grad1(x):
    x = np.ravel(x)
    return np.gradient(x, edge_order=2) if len(x) > 2 else np.gradient(x)


def cart_spacing(kind, size, bounds, dealias):
    """effective spacing at the base resolution, on the dealiased grid"""
    L = bounds[1] - bounds[0]
    N = int(np.ceil(size*dealias))
    if kind in 'RC':
        return np.full(N, L/N*dealias)
    if kind == 'T':
        th = np.pi*(np.arange(N) + .5)/N
        return dealias*L/2*np.sin(th)*np.pi/N
    return None       # from the grid itself


def freq_body(build, refspace, bases=None, mode='all', seed=0, tangent=None):
    """refspace(g, grids) -> list of (spacing array broadcastable to the grid)"""
    def body(env):
        from vt import lin
        lin.SPACE.nonneg = True
        d3 = scen.start(env)
        g = build(d3)
        dist = g.dist
        u = dist.VectorField(g.cs, bases=bases(g) if bases else g.bases)
        dl = u.domain.dealias
        u.preset_scales(dl)
        u.preset_layout('g')
        shape = u.data.shape
        rng = np.random.default_rng(seed)
        sgn = rng.choice([-1., 1.], size=shape)
        if g.kind in ('sphere', 'ball', 'shell'):
            # the two tangential components share a symbol: magnitude sqrt(a^2+b^2) |x|
            # one symbol per component and point along the last axis, with distinct weights over the other points
            x = env.array('x', (shape[0]-1,) + (1,)*(len(shape)-2) + (shape[-1],))
            w = rng.uniform(0.5, 2, size=shape[1:])
            ab = {'phi': (1., 0.), 'theta': (0., 1.), 'all': (3., 4.)}[tangent or 'all']
            u['g'][0] = x[0]*(ab[0]*sgn[0]*w)
            u['g'][1] = x[0]*(ab[1]*sgn[1]*w)
            mags = [abs(x[0]*(np.hypot(*ab)*w))]
            if shape[0] == 3:
                u['g'][2] = x[1]*(sgn[2]*w)
                mags.append(abs(x[1]*w))
        else:
            x = env.array('x', shape)
            u['g'] = x*sgn
            mags = [abs(x[i]) for i in range(shape[0])]
        f = d3.AdvectiveCFL(u, g.cs).evaluate()
        got = f['g']
        sp = refspace(g, dl)
        env.check(len(sp) == len(mags), 'one spacing per contribution')
        ref = sum(m*np.broadcast_to(1/np.asarray(s, dtype=float), m.shape) for m, s in zip(mags, sp))
        env.equal(got, ref, 'advective frequency is the sum of speeds over the local effective grid spacings')
        # through the CFL tool: registered velocity frequencies are the same numbers, at dealias scales
        env.nonzero(got, 'frequency')
    return body


def bc(a, dim, ax):
    return np.reshape(a, [-1 if i == ax else 1 for i in range(dim)])


def cart_refs(spec, deal, off=0, dim=None):
    def ref(g, dl):
        n = dim or len(spec)
        out = []
        for i, s in enumerate(spec):
            if s[1] == '-':
                out.append(np.inf)
                continue
            sp = cart_spacing(s[1], s[2], s[3], deal)
            if sp is None:
                b = [b for b in g.allbases if b is not None and b.coord.name == s[0]][0]
                sp = deal*grad1(b.global_grid(g.dist, deal))
            out.append(bc(sp, n, i + off))
        return out
    return ref


def h_freq(ctx):
    ctx.encodes('operators.AdvectiveCFL', 'basis.*AdvectiveCFL.cfl_spacing/compute_cfl_frequency', 'basis.local_grid_spacing')
    ctx.bound('one to three dimensional Cartesian, polar, sphere, ball, shell and direct-product domains; dealias 1, 3/2, 2; every velocity magnitude')
    for deal in (1, 1.5, 2):
        for spec in ([('x', 'R', 6, (1, 3))], [('x', 'T', 5, (0, 3))], [('x', 'R', 4, (0, 2)), ('z', 'T', 5, (-1, 2))], [('x', 'C', 4, (0, 2)), ('z', 'L', 5, (-1, 2))],
                     [('x', 'T', 5, (0, 2)), ('z', 'R', 4, (-1, 2))], [('x', 'R', 4, (0, 2)), ('y', '-', 1, (0, 1)), ('z', 'T', 5, (0, 3))],
                     [('x', 'R', 4, (0, 2)), ('y', 'R', 6, (0, 1)), ('z', 'T', 5, (0, 3))], [('x', 'R', 4, (0, 2)), ('y', 'T', 4, (0, 1)), ('z', 'L', 3, (0, 3))]):
            dt = C if any(s[1] == 'C' for s in spec) else R
            def build(d3, spec=spec, dt=dt, deal=deal):
                if len(spec) > 1:
                    return geo.cart(d3, spec, dt, dealias=deal)
                cs = d3.CartesianCoordinates('x')
                dist = d3.Distributor(cs, dtype=dt)
                s = spec[0]
                b = {'R': d3.RealFourier, 'T': d3.ChebyshevT}[s[1]](cs['x'], s[2], bounds=s[3], dealias=deal)
                return geo._out(kind='cart', cs=cs, dist=dist, bases=(b,), allbases=(b,), dtype=dt)
            if dt is R:
                ctx.run(f'cart {[s[:3] for s in spec]} {deal}', freq_body(build, cart_refs(spec, deal)))
        for kind, o in (('disk', dict(radius=1.7)), ('annulus', dict(radii=(.5, 2)))):
            for shape in ((8, 5), (12, 4)):
                def ref(g, dl, kind=kind, o=o, shape=shape, deal=deal):
                    r = np.ravel(g.dist.local_grids(g.basis, scales=deal)[1])
                    m = shape[0]//2 - 1
                    return [o['radius']/m if kind == 'disk' else bc(r, 2, 1)/m, bc(deal*grad1(r), 2, 1)]
                ctx.run(f'{kind} {shape} {deal}', freq_body(lambda d3, kind=kind, shape=shape, o=o, deal=deal: geo.polar(d3, kind, shape, R, dealias=deal, **o), ref))
        for tg in ('phi', 'theta', 'all'):
            for rad in (1, 2.5):
                ctx.run(f'sphere {rad} {tg} {deal}', freq_body(lambda d3, rad=rad, deal=deal: geo.sphere(d3, (8, 5), R, radius=rad, dealias=deal), lambda g, dl, rad=rad: [rad/np.sqrt(3*4)], tangent=tg))
        for kind, o in (('ball', dict(radius=1.7)), ('shell', dict(radii=(.5, 2)))):
            def ref(g, dl, kind=kind, o=o, deal=deal):
                r = np.ravel(g.dist.local_grids(g.basis, scales=deal)[2])
                ll = np.sqrt(3*4)
                return [o['radius']/ll if kind == 'ball' else bc(r, 3, 2)/ll, bc(deal*grad1(r), 3, 2)]
            ctx.run(f'{kind} {deal}', freq_body(lambda d3, kind=kind, o=o, deal=deal: geo.spherical(d3, kind, (8, 5, 4), R, dealias=deal, **o), ref))
    # direct products, in both orders
    for deal in (1, 1.5):
        for zk in 'RT':
            for order in (0, 1):
                def build(d3, zk=zk, order=order, deal=deal):
                    cz, cp = d3.Coordinate('z'), d3.PolarCoordinates('phi', 'r')
                    cs = d3.DirectProduct(cz, cp) if order == 0 else d3.DirectProduct(cp, cz)
                    dist = d3.Distributor(cs, dtype=R)
                    bz = {'R': d3.RealFourier, 'T': d3.ChebyshevT}[zk](cz, 6, bounds=(0, 1.88), dealias=deal)
                    b = d3.DiskBasis(cp, (8, 4), dtype=R, radius=1.5, dealias=deal)
                    return geo._out(kind='cyl', cs=cs, dist=dist, bases=(bz, b) if order == 0 else (b, bz), basis=b)
                def ref(g, dl, zk=zk, order=order, deal=deal):
                    r = np.ravel(g.dist.local_grids(g.basis, scales=deal)[1])
                    ip, iz = (1, 0) if order == 0 else (0, 2)
                    z = bc(cart_spacing(zk, 6, (0, 1.88), deal), 3, iz)
                    p = [1.5/3, bc(deal*grad1(r), 3, ip+1)]
                    return [z] + p if order == 0 else p + [z]
                ctx.run(f'cylinder {zk} order {order} {deal}', freq_body(build, ref))


def h_tool(ctx):
    """CFL.add_velocity registers the frequency of the velocity; evaluation with a solver gives current values."""
    ctx.encodes('extras.flow_tools.CFL.add_velocity/add_frequency', 'evaluator.DictionaryHandler.process')
    ctx.bound('one problem, two velocities, two evaluations with changed velocities')

    def body(env):
        from vt import lin
        lin.SPACE.nonneg = True
        d3 = scen.start(env)
        from dedalus.extras import flow_tools
        g = geo.cart(d3, [('x', 'R', 4, (0, 2)), ('z', 'T', 4, (0, 3))], R, dealias=1.5)
        u = g.dist.VectorField(g.cs, name='u', bases=g.bases)
        p = d3.IVP([u], namespace=dict(u=u))
        p.add_equation("dt(u) = 0")
        s = p.build_solver('RK111')
        cfl = flow_tools.CFL(s, initial_dt=1., cadence=1)
        cfl.add_velocity(u)
        w = g.dist.Field(name='w', bases=g.bases)
        cfl.add_frequency(w)
        for k in range(2):
            # velocities constant in space so that grid values survive the transform round trip exactly
            x = env.array(f'x{k}', (2,))
            y = env.array(f'y{k}', (1,))
            u.preset_scales(1)
            u.preset_layout('c')
            u['c'][:] = 0
            u['g'][0] = x[0]*(-1. if k else 1.)
            u['g'][1] = x[1]*(-1.)
            w['g'] = y[0]*1.
            s.evaluate_handlers([cfl.frequencies])
            vals = list(cfl.frequencies.fields.values())
            env.check(len(vals) == 2, 'one frequency per registration')
            Nx, Nz = 6, 6
            dx = 2/Nx*1.5
            dz = cart_spacing('T', 4, (0, 3), 1.5)[None, :]
            shape = (Nx, Nz)
            one = np.ones(shape)
            ref = x[0]*(one/dx) + x[1]*(one/dz)
            env.equal(vals[0]['g'], ref, 'registered velocity gives its current advective frequency', tol=1e-8)
            env.equal(vals[1]['g'], y[0]*one, 'registered frequency gives its current value on the dealiased grid', tol=1e-8)
    ctx.run('tool', body)


def harnesses(tier):
    return [('timestep', h_step), ('freq', h_freq), ('tool', h_tool)]
