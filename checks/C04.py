"""Matrices of products with non-constant coefficients act exactly as the evaluated (fully dealiased) product."""
import numpy as np
from vt import scen, geo, lin
from checks.C03 import matrices_match

ASSUMPTIONS = ["unknown-field data are all combinations of representable modes (magnitude <= 1); agreement to 1e-9",
               "the product matrix is linear in the coefficient field, which takes generic concrete values (seeded); dealiasing factor 2 so that explicit evaluation is exact",
               "compiled kernels by their contract (checked in C18)"]
R, C = np.float64, np.complex128


def generic(f, seed, axes=(), deg=None):
    """Fill a coefficient field with generic representable data."""
    rng = np.random.default_rng(seed)
    shape = f['c'].shape
    d = rng.uniform(0.5, 1.5, shape)*rng.choice([-1, 1], shape)
    if np.dtype(f.dtype).kind == 'c':
        d = d + 1j*rng.uniform(-1, 1, shape)
    if deg is not None:
        d = d*lowpass(shape, [a for a in axes if shape[a] > 1], deg + 1)
    f['c'] = d
    f['g']
    f['c']
    return f


def lowpass(shape, axes, keep):
    m = np.ones(shape)
    for a in axes:
        i = [slice(None)]*len(shape)
        i[a] = slice(keep if keep >= 0 else shape[a] + keep, None)
        m[tuple(i)] = 0
    return m


def case(build, nb, ub, ranks, op, first=True, coupling=None, seed=1, resolved=None, kw=None):
    """build(d3)->geo; nb/ub(g)->bases of the coefficient / unknown; ranks (ncc, unknown); op(d3, a, b, g).
    resolved: None (all modes) or (polynomial axes from the end, coefficient degree, unknown margin)."""
    def body(env):
        d3 = scen.start(env)
        g = build(d3)
        f = g.dist.Field(name='f', bases=nb(g), tensorsig=(g.cs,)*ranks[0], dtype=g.dtype)
        u = g.dist.Field(name='u', bases=ub(g), tensorsig=(g.cs,)*ranks[1], dtype=g.dtype)
        axes, deg, margin = resolved or ((), None, 0)
        generic(f, seed, axes, deg)
        prod = (lambda: op(d3, f, u, g)) if first else (lambda: op(d3, u, f, g))
        e = prod()
        w = g.dist.Field(name='w', bases=e.domain.bases, tensorsig=e.tensorsig, dtype=e.dtype)
        p = d3.LBVP([u, w])
        p.add_equation((w + prod(), 0))
        p.add_equation((u, 0))
        k = dict(kw or {})
        k['ncc_cutoff'] = 1e-14
        if coupling is not None:
            k['matrix_coupling'] = coupling
        matrices_match(env, p, {'L': [lambda: w + prod(), lambda: u]}, restrict={u: (axes, margin)} if margin else None, **k)
    return body


MUL = lambda d3, a, b, g: a*b
DOT = lambda d3, a, b, g: a@b
CROSS = lambda d3, a, b, g: d3.cross(a, b)


def ops(dim, maxrank=2):
    o = [('mul', (0, 0), MUL), ('mul', (0, 1), MUL), ('mul', (1, 0), MUL), ('mul', (1, 1), MUL), ('dot', (1, 1), DOT),
         ('mul', (0, 2), MUL), ('mul', (2, 0), MUL), ('dot', (1, 2), DOT), ('dot', (2, 1), DOT)]
    if dim == 3:
        o += [('cross', (1, 1), CROSS)]
    return o


def cart_list(tier):
    # name, spec, dtype, ncc axes, unknown axes
    s = [('T', [('x', 'T', 6, (-1, 2))], R, 'x', 'x'),
         ('U', [('x', 'U', 5, (0, 3), {'alpha': 1.5})], C, 'x', 'x'),
         ('L', [('x', 'L', 6, (0, 3))], R, 'x', 'x'),
         ('R', [('x', 'R', 8, (0, 3))], R, 'x', 'x'),
         ('C', [('x', 'C', 7, (0, 3))], C, 'x', 'x'),
         ('RT', [('x', 'R', 4, (0, 3)), ('z', 'T', 4, (0, 2))], R, 'z', 'xz'),
         ('CT', [('x', 'C', 4, (0, 3)), ('z', 'L', 4, (0, 2))], C, 'z', 'xz'),
         ('RTc', [('x', 'R', 4, (0, 3)), ('z', 'T', 4, (0, 2))], R, 'xz', 'xz'),
         ('CTx', [('x', 'C', 3, (0, 3)), ('z', 'T', 3, (0, 2))], C, 'x', 'xz'),
         ('TT', [('x', 'T', 3, (0, 3)), ('z', 'L', 4, (0, 2))], R, 'xz', 'xz'),
         ('RTz', [('x', 'R', 4, (0, 3)), ('z', 'T', 4, (0, 2))], R, 'z', 'x'),
         ('RR', [('x', 'R', 4, (0, 3)), ('y', 'R', 6, (0, 2))], R, 'y', 'xy'),
         ('CRT', [('x', 'R', 4, (0, 3)), ('y', 'R', 4, (0, 2)), ('z', 'T', 3, (0, 2))], R, 'z', 'xyz'),
         ('CCL', [('x', 'C', 3, (0, 3)), ('y', 'C', 3, (0, 2)), ('z', 'L', 3, (0, 2))], C, 'yz', 'xyz')]
    return s


def cart_harness(name, spec, dtype, na, ua, tier):
    def h(ctx):
        ctx.encodes('arithmetic.Product.build_ncc_matrix/cartesian_mode_matrix', 'basis.*.product_matrix', 'tools.clenshaw', 'basis.Jacobi._last_axis_component_ncc_matrix')
        ctx.bound(f'{name}: {[s[:4] for s in spec]}, coefficient on {na}, unknown on {ua}')
        dim = len(spec)
        pick = lambda g, axes, k=0: tuple((b.derivative_basis(k) if k and hasattr(b, 'a') else b) for b in g.bases if b.coord.name in axes)
        poly = [i - dim for i, x in enumerate(spec) if x[1] in 'TLUJ' and x[0] in na]
        for kn, ku in ((0, 0), (1, 0), (0, 1), (2, 1), (1, 2)):
            if (kn or ku) and not any(x[1] in 'TLUJ' for x in spec):
                continue
            for first in (True, False):
                for o, ranks, op in ops(dim):
                    if dim == 1 and sum(ranks):
                        continue
                    if tier != 'thorough' and (sum(ranks) > 2 or (dim == 3 and sum(ranks) > 1 and o == 'mul') or (kn + ku > 0 and sum(ranks) > 1) or (not first and sum(ranks) != 1 and o not in ('dot', 'cross') and dim > 1)):
                        continue
                    ctx.run(f'{name} {o} ranks={ranks} k={kn},{ku} first={first}',
                            case(lambda d3: geo.cart(d3, spec, dtype, dealias=2), lambda g: pick(g, na, kn), lambda g: pick(g, ua, ku), ranks, op, first,
                                 resolved=(poly, 1, 1) if ku and poly else None))
    return h


def curv_list(tier):
    P = geo.polar
    S = geo.spherical
    Y = geo.cylinder
    out = []
    for dt, n in ((R, 'r'), (C, 'c')):
        out += [
            ('disk' + n, lambda d3, dt=dt: P(d3, 'disk', (8 if dt is R else 6, 6), dt, radius=1.5, dealias=2), 'radial', None, 2),
            ('diska' + n, lambda d3, dt=dt: P(d3, 'disk', (4, 6), dt, radius=1.5, dealias=2, alpha=1), 'radial', None, 2),
            ('annulus' + n, lambda d3, dt=dt: P(d3, 'annulus', (4, 5), dt, radii=(0.6, 1.7), dealias=2), 'radial', None, 2),
            ('sphere' + n, lambda d3, dt=dt: geo.sphere(d3, (8, 5) if dt is R else (6, 4), dt, radius=1.3, dealias=2), 'zonal', None, 2),
            ('ball' + n, lambda d3, dt=dt: S(d3, 'ball', (4, 3, 5), dt, radius=1.4, dealias=2), 'radial', (False, False, True), 3),
            ('shell' + n, lambda d3, dt=dt: S(d3, 'shell', (4, 3, 5), dt, radii=(0.6, 1.7), dealias=2), 'radial', (False, False, True), 3),
            ('shellm' + n, lambda d3, dt=dt: S(d3, 'shell', (4, 3, 5), dt, radii=(0.6, 1.7), dealias=2), 'meridional', (False, True, True), 3),
            ('cyldisk' + n, lambda d3, dt=dt: Y(d3, 'disk', 4 if dt is R else 2, (4, 6), dt, zkind='R' if dt is R else 'C', radius=1.5, dealias=2), 'radial', None, 3),
            ('cylann' + n, lambda d3, dt=dt: Y(d3, 'annulus', 4 if dt is R else 2, (4, 5), dt, zkind='R' if dt is R else 'C', radii=(.5, 1.5), dealias=2), 'radial', None, 3),
        ]
    return [c for c in out if c[0] != 'shellmr']      # real meridional coefficients are not implemented upstream


def curv_harness(name, build, kind, coupling, dim, tier):
    def h(ctx):
        ctx.encodes('arithmetic.Product.build_ncc_matrix', 'basis._last_axis_field_ncc_matrix', 'basis.*._last_axis_component_ncc_matrix', 'arithmetic.*.Gamma', 'tools.clenshaw')
        ctx.bound(f'{name}: {kind} coefficient, k of coefficient and unknown in 0..2')

        def nb(g, k):
            b = g.basis
            if kind == 'radial':
                rb = b.radial_basis
                return (rb.clone_with(k=k),)
            if kind == 'zonal':
                return (b.clone_with(shape=(1, b.shape[1])),)
            return (b.clone_with(shape=(1, b.shape[1], b.shape[2]), k=k),)

        def ub(g, k):
            b = g.basis.clone_with(k=k) if kind != 'zonal' else g.basis
            return g.bases[:-1] + (b,)
        real = name.endswith('r')
        slow = name.startswith('cyl') or kind == 'meridional' or (dim == 3 and not real)
        n = 0
        for kn, ku in ((0, 0), (0, 1), (1, 0), (2, 1)) if kind != 'zonal' else ((0, 0),):
            for first in (True, False):
                for o, ranks, op in ops(dim):
                    if o == 'cross' and real:
                        continue        # raises NotImplementedError: imaginary couplings of real fields
                    n += 1
                    if tier != 'thorough':
                        if sum(ranks) > 2 and (kn or ku or not first):
                            continue
                        if slow and (sum(ranks) > 2 or (sum(ranks) > 1 and (kn or ku) and not o == 'dot') or ((kn or ku) and n % 2)):
                            continue
                        if (kn or ku) and not first and sum(ranks) != 1:
                            continue
                    rank = sum(ranks) + (0 if o == 'mul' else -2 if o == 'dot' else -1)
                    zern = 'disk' in name
                    res = None
                    if zern:
                        res = ((-1,), 1, 1 + (sum(ranks) + rank + 1)//2)
                    elif ku or kn:
                        res = ((-1,), 1, 1 + (kn + ku if name[:4] != 'ball' else 0) + (sum(ranks) + rank + 1)//2)
                    ctx.run(f'{name} {o} ranks={ranks} k={kn},{ku} first={first}', case(build, lambda g: nb(g, kn), lambda g: ub(g, ku), ranks, op, first, coupling=coupling, resolved=res))
    return h


NESTED = [('a lap b', (0, 0), lambda d3, a, b, g: a*d3.lap(b)), ('a.grad b', (1, 0), lambda d3, a, b, g: a@d3.grad(b)),
          ('div(a grad b)', (0, 0), lambda d3, a, b, g: d3.div(a*d3.grad(b))), ('a a b', (0, 0), lambda d3, a, b, g: (a*a)*b),
          ('a (b + a b)', (0, 0), lambda d3, a, b, g: a*(b + 2*(a*b))), ('grad a . b', (0, 1), lambda d3, a, b, g: d3.grad(a)@b),
          ('div(a b) - 3 a div b', (0, 1), lambda d3, a, b, g: d3.div(a*b) - 3*(a*d3.div(b))), ('lap a b', (0, 0), lambda d3, a, b, g: d3.lap(a*a)*b - b),
          ('trace(a grad b)', (0, 1), lambda d3, a, b, g: d3.trace(a*d3.grad(b))), ('2 a b 3', (0, 0), lambda d3, a, b, g: 2*a*b*3 - b*0.5)]


def nested_harness(name, build, nb, ub, tier, skip=(), deg=1, margin=4):
    def h(ctx):
        ctx.encodes('arithmetic.Product.expression_matrices/gather_ncc_coeffs/matrix_coupling', 'operators.LinearOperator.expression_matrices')
        ctx.bound(f'{name}: operators inside and outside of products, products of coefficients; resolved data')
        for label, ranks, op in NESTED:
            if label in skip:
                continue
            ctx.run(f'{name} {label}', case(build, nb, ub, ranks, op, True, resolved=((-1,), deg, margin)))
    return h


def nested_list(tier):
    R1 = lambda d3: geo.cart(d3, [('x', 'R', 4, (0, 3)), ('z', 'T', 8, (0, 2))], R, dealias=2)
    C1 = lambda d3: geo.cart(d3, [('x', 'C', 4, (0, 3)), ('z', 'L', 8, (0, 2))], C, dealias=2)
    out = [('RT', R1, lambda g: g.bases[1], lambda g: g.bases), ('CL', C1, lambda g: g.bases[1], lambda g: g.bases)]
    out.append(('annulus', lambda d3: geo.polar(d3, 'annulus', (4, 9), R, radii=(.6, 1.7), dealias=2), lambda g: g.basis.radial_basis, lambda g: g.bases, (), 1, 7))
    out.append(('disk', lambda d3: geo.polar(d3, 'disk', (4, 8), C, radius=1.3, dealias=2), lambda g: g.basis.radial_basis, lambda g: g.bases, (), 1, 5))
    out.append(('shell', lambda d3: geo.spherical(d3, 'shell', (4, 2, 9), R, radii=(.6, 1.7), dealias=2), lambda g: g.basis.radial_basis, lambda g: g.bases, ('grad a . b', 'lap a b'), 1, 7))
    out.append(('ball', lambda d3: geo.spherical(d3, 'ball', (4, 2, 8), R, radius=1.4, dealias=2), lambda g: g.basis.radial_basis, lambda g: g.bases, ('grad a . b', 'lap a b'), 1, 5))
    return out


def harnesses(tier):
    out = [('cart-' + s[0], cart_harness(*s, tier)) for s in cart_list(tier)]
    out += [('nested-' + c[0], nested_harness(*c[:4], tier, *c[4:])) for c in nested_list(tier)]
    out += [('curv-' + c[0], curv_harness(*c, tier)) for c in curv_list(tier)]
    return out
