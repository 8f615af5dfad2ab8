"""Operators of vector calculus and products evaluate to the exact analytic result on every representable field."""
import numpy as np
from vt import scen, geo, poly, lin
from vt.poly import Ten, rotate

ASSUMPTIONS = ["fields: all combinations (magnitude <= 1) of polynomial/trigonometric tensor fields below the resolution, so that the results are representable",
               "products: one operand symbolic, the other generic concrete (products are bilinear); dealiasing 2",
               "compiled kernels by their contract (checked in C18)"]
R, C = np.float64, np.complex128


# ---- points and frames
def mesh(grids):
    return [np.asarray(a, dtype=float) for a in np.meshgrid(*grids, indexing='ij')]


class Geom:
    """A geometry: cartesian dimension, radial dims, frame (ncomp, dim, npts) and points from native grids."""


def g_cart(n):
    def pts(gr):
        m = mesh(gr)
        return np.stack([a.ravel() for a in m], 1)

    def frames(gr):
        N = int(np.prod([len(x) for x in gr]))
        return np.broadcast_to(np.eye(n)[:, :, None], (n, n, N))
    return pts, frames


def g_polar():
    def pts(gr):
        f, r = [a.ravel() for a in mesh(gr)]
        return np.stack([r*np.cos(f), r*np.sin(f)], 1)

    def frames(gr):
        f, r = [a.ravel() for a in mesh(gr)]
        return np.array([[-np.sin(f), np.cos(f)], [np.cos(f), np.sin(f)]])
    return pts, frames


def sph_frames(f, t):
    z = 0*f
    return np.array([[-np.sin(f), np.cos(f), z], [np.cos(t)*np.cos(f), np.cos(t)*np.sin(f), -np.sin(t)],
                     [np.sin(t)*np.cos(f), np.sin(t)*np.sin(f), np.cos(t)]])


def g_spherical():
    def pts(gr):
        f, t, r = [a.ravel() for a in mesh(gr)]
        return np.stack([r*np.sin(t)*np.cos(f), r*np.sin(t)*np.sin(f), r*np.cos(t)], 1)

    def frames(gr):
        f, t, r = [a.ravel() for a in mesh(gr)]
        return sph_frames(f, t)
    return pts, frames


def g_sphere(rad):
    def pts(gr):
        f, t = [a.ravel() for a in mesh(gr)]
        return rad*np.stack([np.sin(t)*np.cos(f), np.sin(t)*np.sin(f), np.cos(t)], 1)

    def frames(gr):
        f, t = [a.ravel() for a in mesh(gr)]
        return sph_frames(f, t)[:2]
    return pts, frames


def g_cyl():
    # native axes (z, phi, r); Cartesian coordinates (x, y, z)
    def pts(gr):
        z, f, r = [a.ravel() for a in mesh(gr)]
        return np.stack([r*np.cos(f), r*np.sin(f), z], 1)

    def frames(gr):
        z, f, r = [a.ravel() for a in mesh(gr)]
        o = 0*f
        return np.array([[o, o, o+1], [-np.sin(f), np.cos(f), o], [np.cos(f), np.sin(f), o]])
    return pts, frames


# ---- a scenario: a generic field u (Ten, symbols), set on the grid, an operator, its analytic reference
def grids(f, scale):
    """1-D native grids of a field's domain at a scale (constant axes: one point)."""
    dist = f.dist
    out = []
    for ax in range(dist.dim):
        b = f.domain.full_bases[ax]
        out.append(np.array([0.]) if b is None else None)
    for b in f.domain.bases:
        gs = dist.local_grids(b, scales=scale)
        a0 = dist.get_basis_axis(b)
        for i, g in enumerate(gs):
            out[a0 + i] = np.ravel(g)
    return out


def values(T, pts, fr, rank, dtype):
    v = rotate(T.at(pts), fr, rank)
    if np.dtype(dtype).kind == 'f':
        assert np.abs(v.imag).max() < 1e-8*(1 + np.abs(v).max()), 'reference is complex'
        v = v.real
    return v


def as_data(v, sym, shape):
    M = v.reshape(-1, v.shape[-1])
    return scen.along(M, sym, 0).reshape(shape)


def fill(env, f, T, sym, pts, frames, scale=1):
    f.preset_scales(scale)
    gr = grids(f, scale)
    v = values(T, pts(gr), frames(gr), T.rank, f.dtype)
    d = as_data(v, sym, tuple(v.shape[:T.rank]) + tuple(len(x) for x in gr))
    f['g'] = d


def compare(env, e, T, sym, pts, frames, label, scales=(1,), where=None, tol=1e-8):
    """e: expression; T: reference Ten (or a function of grids -> values array)"""
    out = e.evaluate() if not hasattr(e, 'preset_layout') or hasattr(e, 'evaluate') else e
    for s in scales:
        out.change_scales(s)
        got = out['g']
        gr = grids(out, s)
        if callable(T):
            v = T(gr)
            if np.dtype(out.dtype).kind == 'f':
                v = v.real
        else:
            g2 = where(gr) if where else gr
            v = values(T, pts(g2), frames(g2), T.rank, out.dtype)
        ref = as_data(v, sym, got.shape)
        env.equal(got, ref, label, tol=tol)
    return out


def scenario(build, setup, opname, op, rank=0, ref=None, scales=(1,), where=None, frames_out=None, make=None, out_ref=None, tol=1e-8, bases=None):
    """build(d3)->g ; setup(g) -> (pts, frames, generic(rank) -> Ten) ; op(d3,g,u)->expr ; ref(T)->Ten or out_ref(g,T,gr)"""
    def body(env):
        d3 = scen.start(env)
        g = build(d3)
        pts, frames, gen = setup(g)
        T = gen(rank)
        cx = np.dtype(g.dtype).kind == 'c'
        sym = env.array('s', (T.nsym,), complex=cx)
        u = g.dist.Field(name='u', bases=bases(g) if bases else g.bases, tensorsig=(g.cs,)*rank, dtype=g.dtype)
        fill(env, u, T, sym, pts, frames)
        u['c']
        e = op(d3, g, u)
        if np.isscalar(e):
            return env.equal(np.array(e), 0*sym[0], opname)
        rf = ref(T) if ref else None
        if out_ref:
            compare(env, e, lambda gr: out_ref(g, T, gr), sym, pts, frames, opname, scales, tol=tol)
        else:
            compare(env, e, rf, sym, pts, frames_out or frames, opname, scales, where, tol=tol)
    return body


# ------------------------------------------------------------------ Cartesian
def cart_setup(spec, dtype, deg=None):
    n = len(spec)
    bounds = [s[3] for s in spec]
    k0 = tuple(2*np.pi/(b[1]-b[0]) if s[1] in 'RC' else 1. for s, b in zip(spec, bounds))

    def setup(g):
        pts, frames = g_cart(n)

        def gen(rank):
            per = []
            for s in spec:
                N = s[2]
                if s[1] in 'RC':
                    K = (N-1)//2
                    per.append([('k', k) for k in range(-K, K+1)])
                else:
                    per.append([('a', a) for a in range(min(N, 5) if rank == 0 else min(N, 4))])
            import itertools
            exps = []
            for combo in itertools.product(*per):
                a = [0]*n
                k = [0]*n
                for i, (t, v) in enumerate(combo):
                    (a if t == 'a' else k)[i] = v
                exps.append(tuple(a) + (0,) + tuple(k))
            # symbols are coefficients of e^{ik(x)}: the phase origin is x=0
            T = poly.generic(n, rank, exps, 0, k0)
            return poly.real_trig(T) if np.dtype(dtype).kind == 'f' else T
        return pts, frames, gen
    return setup


def quad(lo, hi, n=24):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5*(hi-lo)*x + 0.5*(hi+lo), 0.5*(hi-lo)*w


def cart_integral(spec, axes, ave):
    """reference of integration over the listed axes: Gauss-Legendre on the analytic field"""
    def ref(g, T, gr):
        pts, frames = g_cart(len(spec))
        nodes, weights = [], []
        for i, s in enumerate(spec):
            if i in axes:
                x, w = quad(*s[3], 40)
                if ave:
                    w = w/(s[3][1]-s[3][0])
            else:
                x, w = gr[i], None
            nodes.append(x)
            weights.append(w)
        v = T.at(pts(nodes)).reshape([len(x) for x in nodes] + [T.nsym])
        for i in range(len(spec)):
            if weights[i] is not None:
                v = np.expand_dims(np.tensordot(weights[i], np.moveaxis(v, i, 0), axes=(0, 0)), i)
        return v.reshape(-1, T.nsym)
    return ref


def cart_list(tier):
    s = [('R', [('x', 'R', 8, (1, 3))], R), ('C', [('x', 'C', 7, (-1, 3))], C), ('T', [('x', 'T', 7, (-1, 2))], R), ('L', [('x', 'L', 6, (1, 3))], C),
         ('J', [('x', 'J', 7, (-2, 1), {'a': 0.5, 'b': 1, 'a0': -.5, 'b0': 0})], R),
         ('RT', [('x', 'R', 6, (1, 3)), ('z', 'T', 6, (0.5, 2))], R), ('CL', [('x', 'C', 4, (0, 3)), ('z', 'L', 6, (-1, 2))], C),
         ('TL', [('x', 'T', 6, (0, 3)), ('z', 'L', 5, (-1, 2))], R), ('RR', [('x', 'R', 4, (1, 4)), ('y', 'R', 6, (0, 2))], R),
         ('CCT', [('x', 'C', 3, (0, 3)), ('y', 'C', 4, (1, 2)), ('z', 'T', 5, (0, 1))], C), ('RRT', [('x', 'R', 4, (0.5, 3)), ('y', 'R', 4, (0, 2)), ('z', 'T', 5, (0, 1))], R)]
    return s


def cart_harness(name, spec, dtype, tier):
    def h(ctx):
        import dedalus.public as D
        ctx.encodes('operators.Cartesian*', 'basis.Differentiate*/Interpolate*/Integrate*/Average*/Lift*', 'arithmetic.Add/Multiply/DotProduct/CrossProduct (evaluation)', 'field/transforms pipeline')
        n = len(spec)
        ctx.bound(f'{name}: {[s[:4] for s in spec]}')
        names = [s[0] for s in spec]
        setup = cart_setup(spec, dtype)
        build = lambda d3, dealias=1: geo.cart(d3, spec, dtype, dealias=dealias)

        def go(label, rank, op, ref=None, **kw):
            ctx.run(f'{name} {label} rank {rank}', scenario(build, setup, label, op, rank, ref, **kw))
        go('identity', 0, lambda d3, g, u: u + 0*u, lambda T: T, scales=(1, 1.5, 2))
        go('arithmetic', 0, lambda d3, g, u: -3*(u*2) + u/4 - (u + u), lambda T: (-6 + .25 - 2)*T)
        for i, nm in enumerate(names):
            lo, hi = spec[i][3]
            go(f'd{nm}', 0, lambda d3, g, u, nm=nm: d3.Differentiate(u, g.coords[nm]), lambda T, i=i: T.d(i), scales=(1, 2))
            go(f'd2{nm}', 0, lambda d3, g, u, nm=nm: d3.Differentiate(d3.Differentiate(u, g.coords[nm]), g.coords[nm]), lambda T, i=i: T.d(i).d(i))
            for pos in (lo, hi, lo + .3*(hi-lo), 'left', 'right', 'center'):
                p = {'left': lo, 'right': hi, 'center': (lo+hi)/2}.get(pos, pos)
                where = lambda gr, i=i, p=p: [np.array([p]) if j == i else x for j, x in enumerate(gr)]
                go(f'{nm}={pos}', 0, lambda d3, g, u, nm=nm, pos=pos: u(**{nm: pos}) if not isinstance(pos, str) else d3.Interpolate(u, g.coords[nm], pos), lambda T: T, where=where)
            go(f'integ {nm}', 0, lambda d3, g, u, nm=nm: d3.Integrate(u, g.coords[nm]), out_ref=cart_integral(spec, [i], False))
            go(f'ave {nm}', 0, lambda d3, g, u, nm=nm: d3.Average(u, g.coords[nm]), out_ref=cart_integral(spec, [i], True))
        go('integ all', 0, lambda d3, g, u: d3.integ(u), out_ref=cart_integral(spec, list(range(n)), False))
        go('ave all', 0, lambda d3, g, u: d3.ave(u), out_ref=cart_integral(spec, list(range(n)), True))
        if n == 1:
            return
        for r in (0, 1):
            go('grad', r, lambda d3, g, u: d3.grad(u), Ten.grad)
            go('lap', r, lambda d3, g, u: d3.lap(u), Ten.lap)
        go('div', 1, lambda d3, g, u: d3.div(u), Ten.div)
        go('grad div', 1, lambda d3, g, u: d3.grad(d3.div(u)), lambda T: T.div().grad())
        go('strain', 1, lambda d3, g, u: d3.grad(u) + d3.trans(d3.grad(u)), lambda T: T.grad() + T.grad().transpose())
        go('trace', 2, lambda d3, g, u: d3.trace(u), Ten.contract)
        go('transpose', 2, lambda d3, g, u: d3.trans(u), Ten.transpose)
        go('transpose neg', 2, lambda d3, g, u: d3.TransposeComponents(u, indices=(0, -1)), Ten.transpose)
        go('transpose rank3', 2, lambda d3, g, u: d3.TransposeComponents(d3.grad(u), indices=(0, 2)), lambda T: T.grad().transpose(0, 2))
        go('div', 2, lambda d3, g, u: d3.div(u), Ten.div)
        for i, nm in enumerate(names):
            for idx in (0, -1):
                go(f'comp {nm} index {idx}', 1, lambda d3, g, u, nm=nm, idx=idx: _comp(d3)(u, index=idx, comp=g.coords[nm]), lambda T, i=i: T.comp(i))
            go(f'comp1 {nm}', 2, lambda d3, g, u, nm=nm: _comp(d3)(u, index=1, comp=g.coords[nm]), lambda T, i=i: T.transpose().comp(i))
        if n == 2:
            sk = lambda T: T.lin(lambda c: np.array([-c[1], c[0]]), T.rank)
            go('skew', 1, lambda d3, g, u: d3.skew(u), sk)
            go('skew', 2, lambda d3, g, u: d3.skew(u), sk)
            for idx in (1, -1):
                go(f'skew index {idx}', 2, lambda d3, g, u, idx=idx: d3.Skew(u, index=idx), lambda T: sk(T.transpose()).transpose())
        if n == 3:
            go('curl', 1, lambda d3, g, u: d3.curl(u), Ten.curl)
            go('curl curl', 1, lambda d3, g, u: d3.curl(d3.curl(u)), lambda T: T.curl().curl())
    return h


def _comp(d3):
    from dedalus.core.operators import CartCompBase
    return CartCompBase


# ------------------------------------------------------------------ polar
def regular(n, rank, deg, dtype, extra=()):
    exps = [tuple(a) + (0,) + (0,)*n for a in poly.monomials(n, deg)]
    for p in extra:
        exps += [tuple(a) + (p,) + (0,)*n for a in poly.monomials(n, max(deg-1, 1))]
    return exps


def curv_setup(kind, deg, rad=None, cyl=None, dtype=R):
    n = 2 if kind in ('disk', 'annulus') else 3
    nr = 3 if kind in ('ball', 'shell', 'sphere') else 2

    def setup(g):
        pts, frames = (g_sphere(rad) if kind == 'sphere' else g_spherical() if kind in ('ball', 'shell') else g_cyl() if cyl else g_polar())

        def gen(rank):
            d = max(deg - rank, 1)
            extra = ()
            if kind in ('annulus', 'shell', 'cylannulus'):
                extra = (1,) if d < 3 else (1, -1)
            if kind == 'sphere':
                # homogeneous degree 0: polynomials of the unit vector (independent on the sphere: z power <= 1)
                exps = [tuple(a) + (-sum(a),) + (0,)*3 for a in poly.monomials(3, d) if a[2] <= 1]
                T = poly.generic(3, rank, exps, 3)
                return T.project() if rank else T
            if cyl:
                K = 1
                exps = []
                for a in poly.monomials(2, d):
                    for k in range(-K, K+1):
                        for p in (0,) + extra:
                            exps.append(tuple(a) + (0, p, 0, 0, k))
                T = poly.generic(3, rank, exps, 2, (1., 1., 2*np.pi/cyl))
                return poly.real_trig(T) if np.dtype(dtype).kind == 'f' else T
            exps = regular(n, rank, d, dtype, extra)
            if kind == 'annulus' and -1 in extra:
                # x^a r^-1 with a >= 1 only: polynomials in r
                exps = [e for e in exps if sum(e[:n]) + e[n] >= 0]
            return poly.generic(n, rank, exps, nr)
        return pts, frames, gen
    return setup


def shell_fix(setup):
    def s(g):
        pts, frames, gen = setup(g)

        def gen2(rank):
            T = gen(rank)
            bad = [e for e in T.data if sum(e[:T.dim]) + e[T.dim] < 0]
            for e in bad:
                del T.data[e]
            return T
        return pts, frames, gen2
    return s


def polar_integral(radii, ave, azim=False):
    def ref(g, T, gr):
        pts, frames = g_polar()
        x, w = quad(*radii, 40)
        f = 2*np.pi*np.arange(64)/64
        v = T.at(pts([f, x])).reshape(64, len(x), T.nsym)
        out = np.einsum('frs,r->s', v, w*x)*2*np.pi/64
        if ave:
            out = out/(np.pi*(radii[1]**2 - radii[0]**2))
        return out.reshape(1, -1)
    return ref


def sphere_quad():
    c, w = np.polynomial.legendre.leggauss(24)
    f = 2*np.pi*np.arange(48)/48
    return f, np.arccos(c), w*2*np.pi/48


def sph_integral(radii, ave, surf=False):
    def ref(g, T, gr):
        pts, frames = g_spherical()
        f, t, w = sphere_quad()
        if surf:
            v = T.at(pts([f, t, gr[2]])).reshape(len(f), len(t), len(gr[2]), T.nsym)
            return np.einsum('ftrs,t->rs', v, w)/(4*np.pi if ave else 1)
        x, wr = quad(*radii, 40)
        v = T.at(pts([f, t, x])).reshape(len(f), len(t), len(x), T.nsym)
        out = np.einsum('ftrs,t,r->s', v, w, wr*x**2)
        if ave:
            out = out/(4/3*np.pi*(radii[1]**3 - radii[0]**3))
        return out.reshape(1, -1)
    return ref


def S2_integral(rad, ave):
    def ref(g, T, gr):
        pts, frames = g_sphere(rad)
        f, t, w = sphere_quad()
        v = T.at(pts([f, t])).reshape(len(f), len(t), T.nsym)
        return (np.einsum('fts,t->s', v, w)*(rad**2 if not ave else 1/(4*np.pi))).reshape(1, -1)
    return ref


def polar_harness(kind, dtype, tier):
    def h(ctx):
        ctx.encodes('basis.PolarBasis/DiskBasis/AnnulusBasis transforms and operators', 'operators.Polar*', 'operators.SpinSkew/PolarTrace', 'libraries.spin_recombination (contract)')
        deg = 4 if tier == 'thorough' else 3
        shape = (16, 8) if tier == 'thorough' else (12, 6)
        if dtype is C:
            shape = (shape[0]-2, shape[1]+1)
        confs = [dict(radius=1.5), dict(radius=0.8, alpha=1, k=1)] if kind == 'disk' else [dict(radii=(.5, 2)), dict(radii=(1, 1.7), alpha=(0, 0), k=1)]
        ctx.bound(f'{kind} {np.dtype(dtype).name}: shape {shape}, {confs}, polynomials of degree {deg}')
        for o in confs:
            build = lambda d3, o=o: geo.polar(d3, kind, shape, dtype, **o)
            setup = curv_setup(kind, deg, dtype=dtype)
            r0, r1 = (0, o['radius']) if kind == 'disk' else o['radii']

            def go(label, rank, op, ref=None, **kw):
                ctx.run(f'{kind} {np.dtype(dtype).name} {o} {label} rank {rank}', scenario(build, setup, label, op, rank, ref, **kw))
            for r in (0, 1, 2):
                go('identity', r, lambda d3, g, u: 2*u - u/2, lambda T: 1.5*T, scales=(1, 1.5))
                go('grad', r, lambda d3, g, u: d3.grad(u), Ten.grad)
                go('lap', r, lambda d3, g, u: d3.lap(u), Ten.lap)
                for pos in (r1, .4*r0 + .6*r1) + ((r0,) if r0 else ()):
                    where = lambda gr, pos=pos: [gr[0], np.array([pos])]
                    go(f'r={pos:.2f}', r, lambda d3, g, u, pos=pos: u(r=pos), lambda T: T, where=where)
            for r in (1, 2):
                go('div', r, lambda d3, g, u: d3.div(u), Ten.div)
            # right-handed rotation by +90 degrees
            rot = lambda T: T.lin(lambda c: np.array([-c[1], c[0]]), T.rank)
            go('skew', 1, lambda d3, g, u: d3.skew(u), rot)
            go('skew coeff', 1, lambda d3, g, u: d3.skew(d3.Coeff(u)), rot)
            go('skew grid', 1, lambda d3, g, u: d3.skew(d3.Grid(u)), rot)
            go('skew', 2, lambda d3, g, u: d3.skew(u), rot)
            for idx in (1, -1):
                for w in ('Coeff', 'Grid'):
                    go(f'skew index {idx} {w}', 2, lambda d3, g, u, idx=idx, w=w: d3.Skew(getattr(d3, w)(u), index=idx), lambda T: rot(T.transpose()).transpose())
            go('curl', 1, lambda d3, g, u: -d3.div(d3.skew(u)), lambda T: T.grad().lin(lambda c: c[0, 1] - c[1, 0], 0))
            go('trace', 2, lambda d3, g, u: d3.trace(u), Ten.contract)
            go('trace Grid', 2, lambda d3, g, u: d3.trace(d3.Grid(u)), Ten.contract)
            for w in ('Coeff', 'Grid'):
                go(f'transpose {w}', 2, lambda d3, g, u, w=w: d3.trans(getattr(d3, w)(u)), Ten.transpose)
            go('transpose neg', 2, lambda d3, g, u: d3.TransposeComponents(u, indices=(0, -1)), Ten.transpose)
            go('strain', 1, lambda d3, g, u: d3.grad(u) + d3.trans(d3.grad(u)), lambda T: T.grad() + T.grad().transpose())
            go('visc', 1, lambda d3, g, u: d3.div(d3.grad(u) + d3.trans(d3.grad(u))), lambda T: (T.grad() + T.grad().transpose()).div())
            go('integ', 0, lambda d3, g, u: d3.integ(u), out_ref=polar_integral((r0, r1), False))
            go('ave', 0, lambda d3, g, u: d3.ave(u), out_ref=polar_integral((r0, r1), True))
            pts, frames = g_polar()
            where = [lambda gr: [gr[0], np.array([r1])]][0]

            def comp_ref(which, idx):
                def ref(g, T, gr):
                    gr = where(gr)
                    v = values(T, pts(gr), frames(gr), T.rank, dtype)
                    return np.take(v, which, axis=idx)
                return ref
            for idx in (0, -1):
                go(f'radial {idx}', 1, lambda d3, g, u, idx=idx: d3.radial(u(r=r1), index=idx), out_ref=comp_ref(1, 0))
                go(f'azimuthal {idx}', 1, lambda d3, g, u, idx=idx: d3.azimuthal(u(r=r1), index=idx), out_ref=comp_ref(0, 0))
                go(f'angular {idx}', 1, lambda d3, g, u, idx=idx: d3.angular(u(r=r1), index=idx), out_ref=comp_ref(0, 0))
            for idx in (0, 1, -1):
                go(f'radial {idx}', 2, lambda d3, g, u, idx=idx: d3.radial(u(r=r1), index=idx), out_ref=comp_ref(1, idx % 2))
                go(f'azimuthal {idx}', 2, lambda d3, g, u, idx=idx: d3.azimuthal(u(r=r1), index=idx), out_ref=comp_ref(0, idx % 2))
    return h


def sphere_harness(dtype, tier):
    def h(ctx):
        ctx.encodes('basis.SphereBasis transforms and operators', 'operators.Sphere*', 'operators.MulCosine', 'libraries.dedalus_sphere')
        deg = 4 if tier == 'thorough' else 3
        shape = (16, 9) if dtype is R else (12, 8)
        ctx.bound(f'sphere {np.dtype(dtype).name}: shape {shape}, degree {deg}')
        for rad in (1, 2.5):
            build = lambda d3, rad=rad: geo.sphere(d3, shape, dtype, radius=rad)
            setup = curv_setup('sphere', deg, rad, dtype=dtype)

            def go(label, rank, op, ref=None, **kw):
                ctx.run(f'sphere {np.dtype(dtype).name} {rad} {label} rank {rank}', scenario(build, setup, label, op, rank, ref, **kw))
            sgrad = lambda T: T.grad().project()
            sdiv = lambda T: sgrad(T).contract()
            slap = lambda T: sdiv(sgrad(T))
            cosm = lambda T: T.times(2, -1)

            def sk(T):     # e_r x u, on the first index
                eps = np.zeros((3, 3, 3))
                for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
                    eps[a, b, c] = 1
                    eps[a, c, b] = -1
                parts = [T.lin(lambda c, i=i: np.tensordot(eps[:, i, :], c, axes=(1, 0)), T.rank).times(i, -1) for i in range(3)]
                return parts[0] + parts[1] + parts[2]
            for r in (0, 1, 2):
                go('identity', r, lambda d3, g, u: 2*u - u/2, lambda T: 1.5*T, scales=(1, 1.5))
                go('grad', r, lambda d3, g, u: d3.grad(u), sgrad)
                go('lap', r, lambda d3, g, u: d3.lap(u), slap)
                go('mulcos', r, lambda d3, g, u: d3.MulCosine(u), cosm)
            for r in (1, 2):
                go('div', r, lambda d3, g, u: d3.div(u), sdiv)
            for w in ('Coeff', 'Grid'):
                go(f'skew {w}', 1, lambda d3, g, u, w=w: d3.skew(getattr(d3, w)(u)), sk)
                go(f'transpose {w}', 2, lambda d3, g, u, w=w: d3.trans(getattr(d3, w)(u)), Ten.transpose)
                for idx in (0, 1, -1):
                    go(f'skew index {idx} {w}', 2, lambda d3, g, u, w=w, idx=idx: d3.Skew(getattr(d3, w)(u), index=idx), sk if idx == 0 else lambda T: sk(T.transpose()).transpose())
            go('curl', 1, lambda d3, g, u: -d3.div(d3.skew(u)), lambda T: -sdiv(sk(T)))
            go('ave', 0, lambda d3, g, u: d3.ave(u), out_ref=S2_integral(rad, True))
    return h


def spherical_harness(kind, dtype, tier, which=(0, 1)):
    def h(ctx):
        ctx.encodes('basis.BallBasis/ShellBasis transforms and operators', 'operators.Spherical*', 'libraries.dedalus_sphere (intertwiners, zernike, shell)')
        deg = 3 if tier == 'thorough' else 2
        shape = (16, 7, 7) if dtype is R else (10, 6, 6)
        if tier != 'thorough':
            shape = (12, 6, 5) if dtype is R else (8, 5, 6)
        # second configuration: packing of the triangular truncation with separated rows of equal ell
        shapes = [shape, (12, 8, shape[2]) if dtype is R else (8, 6, shape[2])]
        confs = [dict(radius=1.5), dict(radius=0.8, alpha=1, k=1)] if kind == 'ball' else [dict(radii=(.5, 2)), dict(radii=(1, 1.7), alpha=(0, 0), k=1)]
        ctx.bound(f'{kind} {np.dtype(dtype).name}: shapes {shapes}, {confs}, degree {deg}')
        pts, frames = g_spherical()
        for ci in which:
            o = confs[ci]
            build = lambda d3, o=o, shape=shapes[ci]: geo.spherical(d3, kind, shape, dtype, **o)
            setup = shell_fix(curv_setup(kind, deg, dtype=dtype))
            r0, r1 = (0, o['radius']) if kind == 'ball' else o['radii']

            def go(label, rank, op, ref=None, **kw):
                ctx.run(f'{kind} {np.dtype(dtype).name} {o} {label} rank {rank}', scenario(build, setup, label, op, rank, ref, **kw))
            for r in (0, 1, 2):
                go('identity', r, lambda d3, g, u: 2*u - u/2, lambda T: 1.5*T, scales=(1, 1.5))
                go('grad', r, lambda d3, g, u: d3.grad(u), Ten.grad)
                go('lap', r, lambda d3, g, u: d3.lap(u), Ten.lap)
                for pos in (r1, .4*r0 + .6*r1) + ((r0,) if r0 else ()):
                    where = lambda gr, pos=pos: [gr[0], gr[1], np.array([pos])]
                    go(f'r={pos:.2f}', r, lambda d3, g, u, pos=pos: u(r=pos), lambda T: T, where=where)
            for r in (1, 2):
                go('div', r, lambda d3, g, u: d3.div(u), Ten.div)
            go('curl', 1, lambda d3, g, u: d3.curl(u), Ten.curl)
            go('curl curl', 1, lambda d3, g, u: d3.curl(d3.curl(u)), lambda T: T.curl().curl())
            go('trace Grid', 2, lambda d3, g, u: d3.trace(d3.Grid(u)), Ten.contract)
            for w in ('Coeff', 'Grid'):
                go(f'transpose {w}', 2, lambda d3, g, u, w=w: d3.trans(getattr(d3, w)(u)), Ten.transpose)
            go('transpose neg', 2, lambda d3, g, u: d3.TransposeComponents(u, indices=(0, -1)), Ten.transpose)
            go('strain', 1, lambda d3, g, u: d3.grad(u) + d3.trans(d3.grad(u)), lambda T: T.grad() + T.grad().transpose())
            go('visc', 1, lambda d3, g, u: d3.div(d3.grad(u) + d3.trans(d3.grad(u))), lambda T: (T.grad() + T.grad().transpose()).div())
            go('integ', 0, lambda d3, g, u: d3.integ(u), out_ref=sph_integral((r0, r1), False))
            where = lambda gr: [gr[0], gr[1], np.array([r1])]

            def comp_ref(which, idx):
                def ref(g, T, gr):
                    gr = where(gr)
                    v = values(T, pts(gr), frames(gr), T.rank, dtype)
                    return np.take(v, which, axis=idx)
                return ref
            for r in (1, 2):
                for idx in (0, 1, -1)[:r+1] if r == 2 else (0, -1):
                    go(f'radial {idx}', r, lambda d3, g, u, idx=idx: d3.radial(u(r=r1), index=idx), out_ref=comp_ref(2, idx % r))
                    go(f'angular {idx}', r, lambda d3, g, u, idx=idx: d3.angular(u(r=r1), index=idx), out_ref=comp_ref([0, 1], idx % r))
    return h


def cyl_harness(kind, dtype, tier):
    def h(ctx):
        ctx.encodes('operators.DirectProduct*', 'basis.PolarBasis/Fourier', 'coords.DirectProduct')
        deg, L = 2, 1.88
        shape = (8, 6) if tier != 'thorough' else (12, 7)
        conf = dict(radius=1.5) if kind == 'disk' else dict(radii=(.5, 2))
        ctx.bound(f'cylinder {kind} {np.dtype(dtype).name}: z 4, shape {shape}')
        build = lambda d3: geo.cylinder(d3, kind, 4, shape, dtype, zkind='R' if dtype is R else 'C', length=L, **conf)
        setup = curv_setup('cyl' + kind, deg, cyl=L, dtype=dtype)

        def go(label, rank, op, ref=None, **kw):
            ctx.run(f'cyl{kind} {np.dtype(dtype).name} {label} rank {rank}', scenario(build, setup, label, op, rank, ref, **kw))
        for r in (0, 1, 2):
            go('identity', r, lambda d3, g, u: 2*u - u/2, lambda T: 1.5*T, scales=(1, 1.5))
            go('lap', r, lambda d3, g, u: d3.lap(u), Ten.lap)
            if r < 2:
                go('grad', r, lambda d3, g, u: d3.grad(u), Ten.grad)
        for r in (1, 2):
            go('div', r, lambda d3, g, u: d3.div(u), Ten.div)
        go('trace', 2, lambda d3, g, u: d3.trace(u), Ten.contract)
        go('transpose', 2, lambda d3, g, u: d3.trans(u), Ten.transpose)
        go('curl', 1, lambda d3, g, u: d3.curl(u), Ten.curl)
    return h


# ------------------------------------------------------------------ products
def product_scenario(build, setup, op, ra, rb, ref, dtype, seed=3, degb=None):
    def body(env):
        d3 = scen.start(env)
        g = build(d3)
        pts, frames, gen = setup(g)
        T = gen(ra)
        B = gen(rb)
        cx = np.dtype(dtype).kind == 'c'
        sym = env.array('s', (T.nsym,), complex=cx)
        rng = np.random.default_rng(seed)
        cb = rng.uniform(-1, 1, B.nsym)
        if cx:
            cb = cb + 1j*rng.uniform(-1, 1, B.nsym)
        a = g.dist.Field(name='a', bases=g.bases, tensorsig=(g.cs,)*ra, dtype=dtype)
        b = g.dist.Field(name='b', bases=g.bases, tensorsig=(g.cs,)*rb, dtype=dtype)
        fill(env, a, T, sym, pts, frames)
        fill(env, b, B, np.asarray(cb), pts, frames)
        a['c']
        b['c']
        for nm, e in op(d3, a, b).items():
            out = e.evaluate()
            out.change_scales(1)
            got = out['g']
            gr = grids(out, 1)
            va = T.at(pts(gr))
            vb = B.at(pts(gr)) @ cb
            v = ref[nm](va, vb)
            rank = v.ndim - 2
            v = rotate(v, frames(gr), rank)
            env.equal(got, as_data(v if cx else v.real, sym, got.shape), nm, tol=1e-8)
    return body


def out(a, b):
    ra, rb = a.ndim - 2, b.ndim - 1
    return np.einsum(a, list(range(ra)) + [50, 51], b, list(range(10, 10+rb)) + [50], list(range(ra)) + list(range(10, 10+rb)) + [50, 51])


def tuo(a, b):
    ra, rb = a.ndim - 2, b.ndim - 1
    return np.einsum(a, list(range(ra)) + [50, 51], b, list(range(10, 10+rb)) + [50], list(range(10, 10+rb)) + list(range(ra)) + [50, 51])


def dot(a, b):
    ra, rb = a.ndim - 2, b.ndim - 1
    ib = [ra-1] + list(range(10, 9+rb))
    return np.einsum(a, list(range(ra)) + [50, 51], b, ib + [50], list(range(ra-1)) + list(range(10, 9+rb)) + [50, 51])


def tod(a, b):
    ra, rb = a.ndim - 2, b.ndim - 1
    ib = list(range(10, 9+rb)) + [0]
    return np.einsum(a, list(range(ra)) + [50, 51], b, ib + [50], list(range(10, 9+rb)) + list(range(1, ra)) + [50, 51])


def product_harness(name, build, setup, dtype, dim, tier):
    def h(ctx):
        ctx.encodes('arithmetic.Multiply/DotProduct/CrossProduct.operate', 'future.Future.evaluate', 'arithmetic.GhostBroadcaster')
        ctx.bound(f'products on {name}')
        for ra, rb in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2)):
            ops = {'a b': lambda d3, a, b: a*b, 'b a': lambda d3, a, b: b*a} if ra + rb < 3 else {}
            refs = {'a b': out, 'b a': tuo}
            if ra and rb:
                ops['a.b'] = lambda d3, a, b: a@b
                ops['b.a'] = lambda d3, a, b: b@a
                refs['a.b'] = dot
                refs['b.a'] = tod
            if dim == 3 and ra == rb == 1:
                eps = np.zeros((3, 3, 3))
                for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
                    eps[i, j, k] = 1
                    eps[i, k, j] = -1
                ops['a x b'] = lambda d3, a, b: d3.cross(a, b)
                ops['b x a'] = lambda d3, a, b: d3.cross(b, a)
                refs['a x b'] = lambda va, vb: np.einsum('ijk,jps,kp->ips', eps, va, vb)
                refs['b x a'] = lambda va, vb: -np.einsum('ijk,jps,kp->ips', eps, va, vb)
            if ra == 0 and rb == 0:
                ops['a b + b - 2 a'] = lambda d3, a, b: a*b - 2*a
                refs['a b + b - 2 a'] = lambda va, vb: out(va, vb) - 2*va
            ctx.run(f'{name} products {ra}x{rb}', product_scenario(build, setup, lambda d3, a, b: {k: f(d3, a, b) for k, f in ops.items()}, ra, rb, refs, dtype))
    return h


def product_list(tier):
    o = []
    halve = lambda spec: [tuple([s[0], s[1], (s[2]+1)//2 if s[1] not in 'RC' else max((s[2]-1)//4*2+1, 3)] + list(s[3:])) for s in spec]
    for nm, spec, dt in (('T', [('x', 'T', 7, (-1, 2))], R), ('C', [('x', 'C', 8, (0, 3))], C), ('RT', [('x', 'R', 6, (1, 3)), ('z', 'T', 6, (0.5, 2))], R),
                         ('CL', [('x', 'C', 6, (1, 3)), ('z', 'L', 5, (0.5, 2))], C), ('RRT', [('x', 'R', 6, (.5, 3)), ('y', 'R', 6, (0, 2)), ('z', 'T', 4, (0, 1))], R)):
        o.append(('cart' + nm, lambda d3, spec=spec, dt=dt: geo.cart(d3, spec, dt, dealias=3/2), cart_setup(halve(spec), dt), dt, len(spec)))
    for dt in (R, C):
        n = 'r' if dt is R else 'c'
        o.append(('disk' + n, lambda d3, dt=dt: geo.polar(d3, 'disk', (16, 8), dt, radius=1.5, dealias=3/2), curv_setup('disk', 2, dtype=dt), dt, 2))
        o.append(('annulus' + n, lambda d3, dt=dt: geo.polar(d3, 'annulus', (16, 8), dt, radii=(.5, 2), dealias=3/2), curv_setup('annulus', 2, dtype=dt), dt, 2))
        o.append(('ball' + n, lambda d3, dt=dt: geo.spherical(d3, 'ball', (16, 8, 7), dt, radius=1.5, dealias=3/2), shell_fix(curv_setup('ball', 1, dtype=dt)), dt, 3))
        o.append(('shell' + n, lambda d3, dt=dt: geo.spherical(d3, 'shell', (16, 8, 7), dt, radii=(.5, 2), dealias=3/2), shell_fix(curv_setup('shell', 1, dtype=dt)), dt, 3))
        o.append(('cyl' + n, lambda d3, dt=dt: geo.cylinder(d3, 'disk', 6, (12, 6), dt, zkind='R' if dt is R else 'C', radius=1.5, dealias=3/2), curv_setup('cyldisk', 1, cyl=1.88, dtype=dt), dt, 3))
    return o


def harnesses(tier):
    out = [('cart-' + s[0], cart_harness(*s, tier)) for s in cart_list(tier)]
    for dt, dn in ((R, 'real'), (C, 'complex')):
        for k in ('disk', 'annulus'):
            out.append((f'{k}-{dn}', polar_harness(k, dt, tier)))
        out.append((f'sphere-{dn}', sphere_harness(dt, tier)))
        for k in ('ball', 'shell'):
            for i in (0, 1):
                out.append((f'{k}-{dn}-{i}', spherical_harness(k, dt, tier, (i,))))
        for k in ('disk', 'annulus'):
            out.append((f'cyl{k}-{dn}', cyl_harness(k, dt, tier)))
    out += [('prod-' + p[0], product_harness(*p, tier)) for p in product_list(tier)]
    return sorted(out, key=lambda h: not h[0].startswith(('ball', 'shell', 'disk-c', 'sphere-c')))
