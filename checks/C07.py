"""Jacobi-family transforms evaluate / interpolate the orthonormal polynomial series, for all data."""
import numpy as np
from vt import scen, lin

ASSUMPTIONS = ["data magnitudes <= 1, agreement to 1e-9 (reals instead of floats)",
               "scipy.fft / FFTW cosine transforms by their mathematical definition (FFTW may destroy its input); compiled sparse kernels by contract",
               "reference: orthonormal Jacobi values from scipy.special, Gauss nodes from scipy; sizes and parameters as listed in bounds"]

H = -0.5
PARAMS = [  # a, b, a0, b0
    (H, H, H, H), (0.5, 0.5, H, H), (1.5, 1.5, H, H), (2.5, 2.5, H, H), (0.5, -0.5, H, H), (H, 1.5, H, H),
    (0, 0, 0, 0), (1, 1, 0, 0), (2, 0, 0, 0), (0, 3, 0, 0), (0.5, 0.5, 0.5, 0.5), (1, 2, 1, 2), (2, 2.5, 1, 0.5), (-0.25, 0.75, -0.25, 0.75)]


def interp_coeffs(N, a0, b0, x, w):
    """Rows k<N: coefficient functional of the degree < N interpolant in the orthonormal (a0, b0) polynomials."""
    P = scen.jacobi_norm_values(N, a0, b0, x)
    return np.linalg.inv(P)


def convert(n, a0, b0, a, b):
    """Coefficients of degree < n polynomials from the (a0,b0) to the (a,b) orthonormal basis."""
    x, w = scen.gauss_jacobi(n, a, b)
    return (scen.jacobi_norm_values(n, a, b, x)*w[:, None]).T @ scen.jacobi_norm_values(n, a0, b0, x)


def ref(N, M, p, pre):
    """N: grid size, M: coefficients; returns points, backward and forward matrices."""
    a, b, a0, b0 = p
    x, w = scen.gauss_jacobi(N, a0, b0)
    K = min(N, M)
    V = np.zeros((N, M))
    V[:, :K] = scen.jacobi_norm_values(K, a, b, x)
    I = interp_coeffs(N, a0, b0, x, w)
    F = np.zeros((M, N))
    n = K if pre else N
    F[:K] = (convert(n, a0, b0, a, b) @ I[:n])[:K]
    return x, V, F


def case(lib, M, scale, p, setup, bounds=(-1, 1), dtype=np.float64, pre=None):
    def body(env):
        d3 = scen.start(env)
        from dedalus.tools.config import config
        if pre is not None:
            old = config['transforms']['DEALIAS_BEFORE_CONVERTING']
            env.stub(config['transforms'], 'DEALIAS_BEFORE_CONVERTING', str(pre))
        flag = config['transforms'].getboolean('DEALIAS_BEFORE_CONVERTING')
        a, b, a0, b0 = p
        ndim, axis, rank, other = setup
        cs = d3.CartesianCoordinates(*'xyz'[:ndim]) if ndim > 1 else d3.Coordinate('x')
        coords = [cs[n] for n in 'xyz'[:ndim]] if ndim > 1 else [cs]
        dist = d3.Distributor(cs, dtype=dtype)
        bases, mine = [], None
        for i in range(ndim):
            if i == axis:
                mine = d3.Jacobi(coords[i], size=M, bounds=bounds, a=a, b=b, a0=a0, b0=b0, library=lib, dealias=(1 if pre is None else 1+1e-9*pre))
                bases.append(mine)
            elif other[i] == 'J':
                bases.append(d3.Legendre(coords[i], size=3, bounds=(0, 2), library='matrix'))
            elif other[i] == 'F':
                bases.append((d3.RealFourier if dtype == np.float64 else d3.ComplexFourier)(coords[i], size=4, bounds=(0, 1), library='matrix'))
        f = dist.Field(bases=tuple(bases), tensorsig=(cs,)*rank, name='f')
        scales = [1]*ndim
        scales[axis] = scale
        scales = tuple(scales)
        ax = rank + axis
        N = scen.grid_size(M, scale)
        x0, V, F = ref(N, M, p, flag)
        xg = np.asarray(mine.local_grid(dist, scale) if hasattr(mine, 'local_grid') else dist.local_grid(mine, scale=scale)).ravel()
        env.check(xg.shape == (N,), 'grid size')
        env.check(bool(np.allclose(xg, bounds[0] + (bounds[1]-bounds[0])*(x0+1)/2, rtol=0, atol=1e-11*max(1, np.max(np.abs(bounds))))), 'grid points are the Gauss nodes')
        x = env.array('c', f['c'].shape, complex=np.dtype(dtype).kind == 'c')
        f.preset_scales(scales)
        f['c'] = x
        f.require_grid_space(axis)
        exp = x
        for j in range(axis+1, ndim):
            exp = scen.along(other_matrix(other[j], dtype), exp, rank+j) if other[j] else exp
        env.equal(f.data, scen.along(V, exp, ax), 'backward transform evaluates the polynomial series at the Gauss nodes')
        g = env.array('g', f.data.shape, complex=np.dtype(dtype).kind == 'c')
        f.data[...] = g
        f.require_coeff_space(axis)
        env.equal(f.data, scen.along(F, g, ax), 'forward transform gives the coefficients of the interpolating polynomial')
        f.preset_scales(scales)
        f['c'] = x
        f['g']
        back = f['c']
        P = np.diag((np.arange(M) < N).astype(float))
        if other.count('F') == 0:
            env.equal(back, scen.along(P, x, ax), 'resolved coefficients survive a grid round trip')
        env.nonzero(back, 'round trip')
        # changing scales is evaluation of the same polynomial elsewhere
        if ndim == 1:
            f.preset_scales(1)
            f['c'] = x
            f['g']
            f.change_scales(scale)
            env.equal(f['g'], scen.along(V, x, ax), 'rescaled grid data samples the same polynomial')
    return body


def other_matrix(o, dtype):
    if o == 'J':
        x, w = scen.gauss_jacobi(3, 0, 0)
        return scen.jacobi_norm_values(3, 0, 0, x)
    th = 2*np.pi*np.arange(4)/4
    return (scen.fourier_real if dtype == np.float64 else scen.fourier_complex)(4, 4, th)


def harness(lib, p, tier):
    def h(ctx):
        ctx.encodes(f'transforms (Jacobi, library {lib})', 'tools.jacobi.build_grid/build_weights/build_polynomials/conversion_matrix', 'basis.Jacobi._native_grid/transform_plan',
                    'libraries.dedalus_sphere.jacobi', 'field.Field.require_grid_space/require_coeff_space/change_scales')
        thorough = tier == 'thorough'
        sizes = [1, 2, 3, 4, 5, 8, 12] + ([6, 7, 10, 16, 24, 32] if thorough else [])
        scales = [1, 1.5, 2, 0.5, 0.75, 0.25] + ([1/3, 0.9, 1.2, 3, 4] if thorough else [])
        ctx.bound(f'(a,b,a0,b0)={p}: sizes {sizes}, scales {scales}; 2D/3D embeddings with size 5, both conversion-truncation settings')
        one = (1, 0, 0, (None,))
        for i, M in enumerate(sizes):
            for s in scales:
                ctx.run(f'{lib} {p} M={M} s={s}', case(lib, M, s, p, one, bounds=((-1, 1), (0, 3), (-2.5, -2))[i % 3]))
        for M, s in ((4, 1), (5, 1.5), (6, 2), (6, .5), (3, .4)):
            ctx.run(f'{lib} {p} M={M} s={s} convert first', case(lib, M, s, p, one, pre=False))
            ctx.run(f'{lib} {p} M={M} s={s} truncate first', case(lib, M, s, p, one, pre=True))
        ctx.run(f'{lib} {p} complex', case(lib, 5, 1.5, p, one, dtype=np.complex128))
        setups = [(2, 0, 0, (None, 'J')), (2, 1, 0, ('F', None)), (2, 0, 1, (None, 'F')), (2, 1, 2, ('J', None)), (3, 1, 0, ('F', None, 'J'))]
        if thorough:
            setups += [(3, 0, 1, (None, 'F', 'J')), (3, 2, 0, ('F', 'J', None)), (3, 1, 1, ('F', None, 'F'))]
        for i, st in enumerate(setups):
            for s in (1, 1.5, .5):
                ctx.run(f'{lib} {p} setup={st} s={s}', case(lib, 4 if s != .5 else 6, s, p, st, dtype=np.complex128 if i == 1 else np.float64))
    return h


def harnesses(tier):
    out = []
    for p in PARAMS:
        for lib in ['matrix'] + (['scipy_dct', 'fftw_dct'] if p[2] == p[3] == H else []):
            out.append((f'{lib}-{p[0]}_{p[1]}_{p[2]}_{p[3]}', harness(lib, p, tier)))
    return out
