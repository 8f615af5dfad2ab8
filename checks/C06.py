"""Fourier transforms evaluate / project onto the documented truncated series, for all data."""
import numpy as np
from vt import scen

ASSUMPTIONS = ["data magnitudes <= 1, agreement to 1e-9 (reals instead of floats)",
               "FFTW / scipy.fft routines replaced by their mathematical definition (FFTW may destroy its input)",
               "sizes and scales as listed in bounds"]
LIBS = {'R': ['matrix', 'scipy', 'fftpack', 'fftw', 'fftw_hc'], 'C': ['matrix', 'scipy', 'fftw']}


def case(kind, lib, N, scale, setup, bounds=(0, 2*np.pi)):
    def body(env):
        d3 = scen.start(env)
        dtype = np.float64 if kind == 'R' else np.complex128
        Basis = d3.RealFourier if kind == 'R' else d3.ComplexFourier
        names = ('x', 'y', 'z')
        ndim, axis, rank, other = setup
        c = d3.CartesianCoordinates(*names[:ndim]) if ndim > 1 else None
        if ndim == 1:
            c = d3.Coordinate('x')
            dist = d3.Distributor(c, dtype=dtype)
            coords = [c]
        else:
            dist = d3.Distributor(c, dtype=dtype)
            coords = [c[n] for n in names[:ndim]]
        bases = []
        for i in range(ndim):
            if i == axis:
                bases.append(Basis(coords[i], size=N, bounds=bounds, library=lib))
            elif other[i] is None:
                pass
            elif other[i] == 'J':
                bases.append(d3.ChebyshevT(coords[i], size=3, bounds=(-1, 1), library='matrix'))
            else:
                bases.append(Basis(coords[i], size=4, bounds=(0, 1), library='matrix'))
        ts = (c,)*rank if rank else ()
        f = dist.Field(bases=tuple(bases), tensorsig=ts, name='f')
        scales = [1]*ndim
        scales[axis] = scale
        ax = rank + axis
        # values along the axis of interest only: leave the others in coefficient space where the path allows
        shape_c = f['c'].shape
        x = env.array('c', shape_c, complex=(kind == 'C'))
        Ng = scen.grid_size(N, scale)
        grid = dist.local_grids(*bases, scales=tuple(scales))
        xg = np.asarray(grid[[b.coord for b in bases].index(coords[axis])]).ravel() if ndim == 1 or True else None
        L = bounds[1] - bounds[0]
        theta = 2*np.pi*np.arange(Ng)/Ng
        env.check(xg.shape == (Ng,), 'grid size')
        env.check(bool(np.allclose(xg, bounds[0] + L*np.arange(Ng)/Ng, atol=1e-12*max(1, abs(L), abs(bounds[0])))), 'grid points are equispaced from the left bound')
        # move the array to the layout just coefficient->grid along `axis`
        f.preset_scales(tuple(scales))
        f['c'] = x
        f.require_grid_space(axis)
        got = f.data.copy()
        V = (scen.fourier_real if kind == 'R' else scen.fourier_complex)(N, Ng, theta)
        exp = x
        # other axes after this one are already in grid space there
        for j in range(axis+1, ndim):
            if f.layout.grid_space[j] and other[j] is not None:
                exp = scen.along(other_matrix(d3, other[j], kind), exp, rank+j)
        exp = scen.along(V, exp, ax)
        env.equal(got, exp, 'backward transform evaluates the truncated series')
        # forward of arbitrary data
        g = env.array('g', f.data.shape, complex=(kind == 'C'))
        f.data[...] = g
        f.require_coeff_space(axis)
        F = (scen.fourier_real_fwd if kind == 'R' else scen.fourier_complex_fwd)(N, Ng)
        exp = scen.along(F, g, ax)
        lay = f.layout
        for j in range(axis+1, ndim):
            if not lay.grid_space[j] and other[j] is not None:
                raise RuntimeError('layout order')
        env.equal(f.data, exp, 'forward transform is the truncated discrete projection')
        # whole round trip on coefficients (resolvable modes survive unchanged)
        f.preset_scales(tuple(scales))
        f['c'] = x
        again = f['g'].copy()
        exp = scen.along(V, x, ax)
        for j in range(ndim):
            if j != axis and other[j] is not None:
                exp = scen.along(other_matrix(d3, other[j], kind), exp, rank+j)
        env.equal(again, exp, 'backward transform does not depend on earlier transforms')
        back = f['c']
        P = F @ V
        exp = scen.along(P, x, ax)
        for j in range(ndim):
            if j != axis and other[j] == 'F':
                exp = scen.along(other_proj(kind), exp, rank+j)
        env.equal(back, exp, 'coefficients survive a grid round trip')
        if N > 1:
            env.nonzero(back, 'round trip')
    return body


def other_matrix(d3, o, kind):
    if o == 'J':
        x, w = scen.gauss_jacobi(3, -.5, -.5)
        return scen.jacobi_norm_values(3, -.5, -.5, x)
    th = 2*np.pi*np.arange(4)/4
    return (scen.fourier_real if kind == 'R' else scen.fourier_complex)(4, 4, th)


def other_proj(kind):
    th = 2*np.pi*np.arange(4)/4
    V = (scen.fourier_real if kind == 'R' else scen.fourier_complex)(4, 4, th)
    F = (scen.fourier_real_fwd if kind == 'R' else scen.fourier_complex_fwd)(4, 4)
    return F @ V


def harness(kind, lib, tier):
    def h(ctx):
        ctx.encodes('transforms (Fourier, library %s)' % lib, 'basis.FourierBase.forward_transform/backward_transform',
                    'distributor.Transform.increment/decrement', 'field.Field.require_grid_space/require_coeff_space/preset_scales')
        sizes = [1, 2, 4, 6, 8, 12] if kind == 'R' else [1, 2, 3, 4, 5, 6, 8]
        scales = [0.5, 1, 1.5, 2, 0.75, 1.25]
        if tier == 'thorough':
            sizes = ([2, 4, 6, 8, 10, 12, 14, 16, 20] if kind == 'R' else list(range(1, 14)) + [16])
            scales += [1/3, 2/3, 0.9, 1.1, 7/4, 3]
        ctx.bound(f'1D sizes {sizes}, scales {scales}; 2D/3D embeddings (Fourier/Chebyshev neighbours, vector/tensor fields) with size 4-6')
        one = (1, 0, 0, (None,))
        for N in sizes:
            for s in scales:
                ctx.run(f'{kind} {lib} N={N} s={s}', case(kind, lib, N, s, one, bounds=(0, 2*np.pi) if N % 4 else (-1.5, 2.0)))
        setups = [(2, 0, 0, (None, 'J')), (2, 1, 0, ('F', None)), (2, 0, 1, (None, 'F')), (2, 1, 2, ('F', None)), (2, 0, 0, (None, None))]
        if tier == 'thorough':
            setups += [(3, 1, 0, ('F', None, 'J')), (3, 1, 1, ('F', None, None)), (3, 2, 0, ('F', 'F', None)), (3, 0, 1, (None, 'F', 'F'))]
        else:
            setups += [(3, 1, 0, ('F', None, 'J'))]
        for st in setups:
            for s in (1, 1.5, .5):
                ctx.run(f'{kind} {lib} setup={st} s={s}', case(kind, lib, 6 if s != .5 else 8, s, st))
    return h


def harnesses(tier):
    return [(f'{k}-{l}', harness(k, l, tier)) for k in LIBS for l in LIBS[k]]
