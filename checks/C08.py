"""Curvilinear transforms evaluate / project onto the documented spin-weighted series (disk, annulus, sphere, ball, shell)."""
import itertools
import numpy as np
from vt import scen, geo
from checks import C11

ASSUMPTIONS = ["data magnitudes <= 1, agreement to 1e-8 (reals instead of floats)",
               "compiled kernels (spin recombination, matrix application) by their contract (checked in C18); azimuthal FFTs by definition (C06)",
               "shapes, ranks, derivative levels k, weights alpha, scales as listed in bounds; the mode table is computed here from scipy's classical Jacobi polynomials"]
R, C = np.float64, np.complex128
S2 = np.sqrt(.5)


# ---- reference functions
def norm_jacobi(n, a, b, x):
    return scen.jacobi_norm_values(n, a, b, x)


def zernike(dim, n, k, l, r):
    """Q_j(r) = r^l P_j^(k, l+dim/2-1)(2r^2-1), unit norm in (1-r^2)^k r^(dim-1) dr on (0,1)"""
    b = l + dim/2 - 1
    # dz = 4 r dr: integral (1-z)^k (1+z)^b dz = 2^(k+b+2) integral (1-r^2)^k r^(2b+1) dr
    return norm_jacobi(n, k, b, 2*r**2 - 1)*(r**l)[:, None]*2**((k+b+2)/2)


def swsh(lmax, m, s, x):
    """unit norm in dx: values (len(x), lmax+1), zero below the minimal degree"""
    a, b = abs(m+s), abs(m-s)
    l0 = max(abs(m), abs(s))
    out = np.zeros((len(x), lmax+1))
    if l0 <= lmax:
        out[:, l0:] = norm_jacobi(lmax+1-l0, a, b, x)*((1-x)**(a/2)*(1+x)**(b/2))[:, None]*(-1.)**max(m, -s)
    return out


SPIN = {'polar': np.array([[1j, -1j], [1, 1]])*S2,                                  # rows phi, r ; columns -, +
        'sphere': np.array([[1j, -1j], [1, 1]])*S2,                                 # rows phi, theta
        'spherical': np.array([[1j*S2, -1j*S2, 0], [S2, S2, 0], [0, 0, 1]])}        # rows phi, theta, r ; columns -, +, 0
SVAL = {'polar': (-1, 1), 'sphere': (-1, 1), 'spherical': (-1, 1, 0)}


def regQ(l):
    """rows: spins (-,+,0); columns: regularities (-,+,0) of vectors"""
    if l == 0:
        return np.array([[0, 0, 0], [0, 0, 0], [0, 1., 0]])
    x, y = np.sqrt(l/(2*l+1)), np.sqrt((l+1)/(2*l+1))
    return np.array([[y*S2, -x*S2, S2], [-y*S2, x*S2, S2], [x, y, 0]])


def kron_all(U, rank):
    out = np.ones((1, 1))
    for _ in range(rank):
        out = np.kron(out, U)
    return out


class Family:
    """Mode functions of a geometry on product grids: columns(grids, k, sizes, ngrid) -> list of (key, frame values)"""

    def __init__(self, kind, dtype, shape, rank, k=0, alpha=None, radius=1., radii=None, ngrid=None, const=False):
        self.scale = np.sqrt(2) if const else 1      # radial fields carry no angular normalization
        self.kind, self.dtype, self.shape, self.rank, self.k = kind, dtype, shape, rank, k
        self.alpha = alpha if alpha is not None else (0 if kind in ('disk', 'ball') else (-.5, -.5))
        self.radius, self.radii = radius, radii
        self.ngrid = ngrid
        self.g = 'polar' if kind in ('disk', 'annulus') else 'sphere' if kind == 'sphere' else 'spherical'
        self.flat = kind in ('sphere', 'surface')

    def comps(self):
        return list(itertools.product(range(len(SVAL[self.g])), repeat=self.rank))

    def spin(self, c):
        return sum(SVAL[self.g][i] for i in c)

    def radial(self, n, l, r, k, alpha=None):
        """value columns (len(r), n)"""
        if self.kind in ('disk', 'ball'):
            return zernike(2 if self.kind == 'disk' else 3, n, self.alpha + k, l, r/self.radius)
        r0, r1 = self.radii
        z = (2*r - r1 - r0)/(r1 - r0)
        return norm_jacobi(n, self.alpha[0] + k, self.alpha[1] + k, z)*(((r1-r0)/r)**self.k)[:, None]

    def lmax(self):
        # one degree less for real fields (documented load balancing of the folded triangle)
        return max(0, self.shape[1] - 2) if self.dtype is R else self.shape[1] - 1

    def ms(self):
        N = self.shape[0]
        K = (N-1)//2
        return list(range(0, K+1)) if self.dtype is R else list(range(-K, K+1))

    def kept_m(self, m):
        """resolved by the azimuthal grid and by the triangular truncation"""
        if self.ngrid is not None and abs(m) > (min(self.shape[0], self.ngrid[0]) - 1)//2:
            return False
        if self.kind == 'disk' and abs(m) > 2*(self.shape[1]-1):
            return False
        if self.g != 'polar' and abs(m) > self.lmax():
            return False
        return True

    def modes(self, grids, level):
        """list of (key=(comp, m, [ell,] n), complex frame values (ncomp, *grid) without e^{im phi})
        level: k of the radial polynomials; ngrid (if set) restricts to the modes an n-point quadrature resolves"""
        U = kron_all(SPIN[self.g], self.rank)
        out = []
        for m in self.ms():
            if not self.kept_m(m):
                continue
            for ci, c in enumerate(self.comps()):
                if self.g == 'polar':
                    s = self.spin(c)
                    nmin = abs(m)//2 if self.kind == 'disk' else 0
                    nn = self.shape[1] - nmin
                    if self.ngrid is not None:
                        nn = min(nn, self.ngrid[1] - abs(m+s)//2 if self.kind == 'disk' else self.ngrid[1])
                    if nn <= 0:
                        continue
                    Q = self.radial(nn, abs(m+s), grids[1], level)
                    for j in range(nn):
                        out.append(((c, m, j + nmin), U[:, ci][:, None]*Q[:, j]))
                elif self.flat:
                    L = self.lmax()
                    if self.ngrid is not None:
                        L = min(L, self.ngrid[1] - 1)
                    s = self.spin(c)
                    Y = swsh(L, m, s, np.cos(grids[1]))
                    for l in range(max(abs(m), abs(s)), L+1):
                        out.append(((c, m, l), U[:, ci][:, None]*Y[:, l]))
                else:
                    # regularity components
                    L = self.lmax()
                    if self.ngrid is not None:
                        L = min(L, self.ngrid[1] - 1)
                    for l in range(abs(m), L+1):
                        ncomp = 3**self.rank
                        Q = np.ones((1, 1)) if self.rank == 0 else regQ(l)
                        if self.rank and not np.any(Q[:, ci]):
                            continue
                        reg = self.spin(c)
                        nmin = l//2 if self.kind == 'ball' else 0
                        nn = self.shape[2] - nmin
                        if self.ngrid is not None:
                            nn = min(nn, self.ngrid[2] - (l+reg)//2 if self.kind == 'ball' else self.ngrid[2])
                        if nn <= 0:
                            continue
                        P = self.radial(nn, l+reg, grids[2], level)*self.scale
                        ang = np.zeros((ncomp, len(grids[1])), dtype=complex)
                        for d, cd in enumerate(self.comps()):
                            if Q[d, ci]:
                                sd = self.spin(cd)
                                ang += U[:, d][:, None]*(Q[d, ci]*swsh(L, m, sd, np.cos(grids[1]))[:, l])
                        for j in range(nn):
                            out.append(((c, m, l, j + nmin), ang[:, :, None]*P[:, j]))
        return out

    def matrix(self, phi, grids, level):
        """(keys, B): real dtype: two columns (cos, -sin parts) per key.  rows: frame comps x phi x rest"""
        keys, cols = [], []
        for key, v in self.modes([None] + list(grids), level):
            e = np.exp(1j*key[1]*phi)
            full = v.reshape(v.shape[0], -1)[:, None, :]*e[:, None]
            if self.dtype is R:
                keys += [(key, 0), (key, 1)]
                cols += [full.real.ravel(), (1j*full).real.ravel()]
            else:
                keys.append((key, 0))
                cols.append(full.ravel())
        B = np.array(cols).T if cols else np.zeros((1, 0))
        return keys, B


def positions(f, fam):
    """coefficient index of every mode key, from the field's own group table (what users rely on to find modes)"""
    dist = f.dist
    groups = dist.coeff_layout.local_group_arrays(f.domain, scales=1)
    data = np.ma.getdata(groups)
    mask = np.ma.getmaskarray(groups).any(axis=0)
    pos = {}
    for idx in np.ndindex(*groups.shape[1:]):
        if mask[idx]:
            continue
        g = tuple(int(x) for x in data[(slice(None),) + idx])
        part = idx[0] % 2 if fam.dtype is R else 0
        pos.setdefault((g[:2] if fam.flat else g, part), []).append(idx)
    return pos


def local(name, kind, dtype, shape, rank, opts, scales, late=False):
    """(b) coefficients -> grid and (f) grid -> coefficients against the mode table"""
    def build(d3):
        kw = dict(opts)
        if kind in ('disk', 'annulus'):
            g = geo.polar(d3, kind, shape, dtype, **kw)
        elif kind == 'sphere':
            g = geo.sphere(d3, shape, dtype, **kw)
        elif kind == 'surface':
            g = geo.sphere(d3, shape, dtype, coords='3D', **kw)
        else:
            sub = kw.pop('sub', None)
            g = geo.spherical(d3, kind, (8, 4, shape[2]) if sub == 'radial' else (8,) + shape[1:] if sub else shape, dtype, **kw)
            if sub == 'radial':
                g.bases = (g.basis.radial_basis,)
            elif sub:
                g.bases = (g.basis.meridional_basis,)
        return g, g.dist.Field(name='f', bases=g.bases, tensorsig=(g.cs,)*rank)

    fkw = {k: v for k, v in opts.items() if k in ('k', 'alpha', 'radius', 'radii')}
    fkw['const'] = opts.get('sub') == 'radial'

    def grids_of(g, scale):
        if opts.get('sub') == 'radial':
            r = g.dist.local_grids(g.basis, scales=scale)[2]
            return [np.zeros(1), np.array([1.]), np.ravel(r)]
        gr = [np.ravel(x) for x in g.dist.local_grids(*g.bases, scales=scale)]
        return gr

    def tosc(scale):
        return (scale,)*len(shape) if np.isscalar(scale) else scale

    def backward(env):
        d3 = scen.start(env)
        g, f = build(d3)
        f.preset_scales(1)
        fam0 = Family(kind, dtype, shape, rank, **fkw)
        pos = positions(f, fam0)
        cshape = f['c'].shape
        x = env.array('c', cshape, complex=dtype is C)
        for scale in scales:
            ng = tuple(scen.grid_size(n, s) for n, s in zip(shape, tosc(scale)))
            fam = Family(kind, dtype, shape, rank, ngrid=ng, **fkw)
            f.preset_scales(scale)
            f['c'] = x
            got = f['g']
            gr = grids_of(g, scale)
            env.check(tuple(len(a) for a in gr) == ng, 'grid sizes')
            keys, B = fam.matrix(gr[0], gr[1:], fam.k)
            M = np.zeros((B.shape[0], int(np.prod(cshape))), dtype=B.dtype)
            for (key, part), col in zip(keys, B.T):
                at = pos.get((tuple(key[1:]), part), [])
                env.check(len(at) == 1, 'each mode has one coefficient', f'{key} {part}: {at}')
                M[:, np.ravel_multi_index(key[0] + at[0], cshape)] = col
            ref = scen.along(M, x.reshape(-1), 0).reshape(got.shape)
            env.equal(got, ref, f'coefficients are evaluated as the documented series', tol=1e-8)

    def forward(env):
        d3 = scen.start(env)
        if late:
            from dedalus.tools.config import config
            env.stub(config['transforms'], 'DEALIAS_BEFORE_CONVERTING', 'False')
        g, f = build(d3)
        fam0 = Family(kind, dtype, shape, rank, **fkw)
        pos = positions(f, fam0)
        big = tuple(n + (4 if i == 0 and n > 1 else 0 if n == 1 else 2) for i, n in enumerate(shape))
        famb = Family(kind, dtype, big, rank, **fkw)
        x = None
        for scale in scales:
            ng = tuple(scen.grid_size(n, s) for n, s in zip(shape, tosc(scale)))
            fam = Family(kind, dtype, shape, rank, ngrid=ng, **fkw)
            # modes beyond the truncation are only projected out exactly if the quadrature resolves them
            fine = min(np.atleast_1d(scale)) >= 1.5
            gr = grids_of(g, scale)
            src = famb if fine else fam
            bkeys, Bg = src.matrix(gr[0], gr[1:], 0)
            x = env.array(f'a', (len(bkeys),))
            if dtype is C:
                x = x + 1j*env.array('b', (len(bkeys),))
            data = scen.along(Bg, x, 0)
            f.preset_scales(scale)
            # leftover contents, also in entries that represent nothing
            f['c'] = 1 + np.arange(f['c'].size).reshape(f['c'].shape)
            f['g']
            f['g'] = data.reshape(f['g'].shape)
            got = f['c'].copy()
            # exact: keep what the basis resolves, then re-expand in the level-k polynomials
            rng = np.random.default_rng(0)
            xs = np.cos(np.pi*(np.arange(2*max(big)+6) + .5)/(2*max(big)+6))
            ph = 2*np.pi*np.arange(2*big[0]+5)/(2*big[0]+5)
            fg = []
            for i, a in enumerate(gr[1:]):
                lo, hi = (0, np.pi) if kind in ('sphere', 'surface') or (i == 0 and len(shape) == 3) else (0, opts.get('radius', 1)) if kind in ('disk', 'ball') else opts['radii']
                n = (len(xs) if len(shape) == 2 else 2*big[i+1] + 2)
                q = np.cos(np.pi*(np.arange(n) + .5)/n)
                fg.append(lo + (hi-lo)*(q+1)/2)
            # DEALIAS_BEFORE_CONVERTING off: truncation happens after the conversion of all resolved modes
            wide = Family(kind, dtype, big, rank, ngrid=ng, **fkw) if late else fam
            kk, Bk = wide.matrix(ph, fg, fam.k)
            k0, B0 = wide.matrix(ph, fg, 0)
            P = np.linalg.lstsq(Bk, B0, rcond=1e-12)[0]
            assert np.abs(Bk @ P - B0).max() < 1e-8, 'reference: families do not span the same space'
            sel = [bkeys.index(q) for q in k0]
            keep = {q for q, _ in fam.modes([None] + fg, fam.k)}
            T = np.zeros((int(np.prod(got.shape)), len(bkeys)), dtype=P.dtype)
            for (key, part), row in zip(kk, P):
                if key not in keep:
                    continue
                at = pos.get((tuple(key[1:]), part), [])
                env.check(len(at) == 1, 'each mode has one coefficient', f'{key} {part}: {at}')
                T[np.ravel_multi_index(key[0] + at[0], got.shape), sel] = row
            ref = scen.along(T, x, 0).reshape(got.shape)
            env.equal(got, ref, f'grid data are projected onto the documented series', tol=1e-8)

    def arbitrary(env):
        # any grid data whatsoever: only modes that the grid resolves, evaluated back they are reproduced
        d3 = scen.start(env)
        g, f = build(d3)
        for scale in scales:
            ng = tuple(scen.grid_size(n, s) for n, s in zip(shape, tosc(scale)))
            fam = Family(kind, dtype, shape, rank, ngrid=ng, **fkw)
            pos = positions(f, fam)
            f.preset_scales(scale)
            x = env.array('g', f['g'].shape, complex=dtype is C)
            f['g'] = x
            c = f['c'].copy()
            mask = np.ones(c.shape, dtype=bool)
            for key, _ in fam.modes([None] + [np.ravel(a) for a in grids_of(g, scale)[1:]], fam.k):
                for part in (0, 1) if dtype is R else (0,):
                    for at in pos.get((tuple(key[1:]), part), []):
                        mask[key[0] + at] = False
            env.equal(c*mask, 0*c, 'no coefficients outside the modes resolved by grid and basis')
            f['g']
            env.equal(f['c'], c, 'projected data are reproduced', tol=1e-8)

    return backward, forward, arbitrary


def cases(tier):
    th = tier == 'thorough'
    o = []
    sc2 = (1, 1.5, 2) if not th else (.5, 1, 1.25, 1.5, 2)
    for dt in (R, C):
        e = 0 if dt is R else 2
        for rank in (0, 1, 2):
            o.append(('disk', dt, (8-e, 4), rank, dict(radius=1.5), sc2 if rank < 2 else (1, 1.5)))
            o.append(('annulus', dt, (4+e, 4), rank, dict(radii=(.5, 2)), sc2 if rank < 2 else (1, 1.5)))
            o.append(('sphere', dt, (8-e, 5), rank, dict(radius=2), sc2 if rank < 2 else (1, 1.5)))
        o.append(('disk', dt, (8-e, 4), 1, dict(radius=.7, alpha=1, k=1), (1, 2)))
        o.append(('disk', dt, (8-e, 5), 0, dict(radius=1, k=2), (1, 1.5)))
        o.append(('disk', dt, (12-e, 3), 0, dict(radius=1), (1, 1.5)))
        o.append(('annulus', dt, (4, 5), 1, dict(radii=(1, 1.7), alpha=(0, 0), k=1), (1, 2)))
        o.append(('annulus', dt, (4, 5), 0, dict(radii=(1, 1.7), alpha=(0, .5), k=2), (1, 1.5)))
        o.append(('sphere', dt, (12-2*e, 4), 1, dict(radius=1), (1, 1.5)))
        o.append(('sphere', dt, (4, 6), 1, dict(radius=1), (1, 1.5)))
        for rank in (0, 1):
            o.append(('ball', dt, (4, 3, 4), rank, dict(radius=1.5), (1, 1.5)))
            o.append(('shell', dt, (4, 3, 3), rank, dict(radii=(.5, 2)), (1, 1.5)))
        o.append(('ball', dt, (4, 4, 4), 0, dict(radius=.7, alpha=1, k=1), (1, 2)))
        o.append(('ball', dt, (4, 2, 4), 1, dict(radius=.7, k=2), (1, 1.5)))
        o.append(('shell', dt, (4, 3, 3), 1, dict(radii=(1, 1.7), alpha=(0, 0), k=1), (1, 2)))
        o.append(('shell', dt, (4, 4, 4), 0, dict(radii=(1, 1.7), k=2), (1, 1.5)))
        # spherical tensors on a sphere (boundary data), radial and meridional fields (coefficients)
        o.append(('surface', dt, (8-e, 4), 1, dict(radius=1.5), (1, 1.5)))
        o.append(('surface', dt, (4, 4), 2, dict(radius=1.5), (1, 1.5)))
        for k in ('ball', 'shell'):
            kw = dict(radius=1.5) if k == 'ball' else dict(radii=(.5, 2), k=1)
            for rank in (0, 1):
                o.append((k, dt, (1, 1, 4), rank, dict(sub='radial', **kw), (1, 1.5)))
        o.append(('shell', dt, (1, 3, 3), 1, dict(sub='meridional', **kw), (1, 1.5)))
        # fewer grid points than modes
        o.append(('disk', dt, (8-e, 5), 1, dict(radius=1.5), (.5, (.5, 1), (1, .6))))
        o.append(('annulus', dt, (8-e, 5), 1, dict(radii=(.5, 2), k=1), (.5, (.5, 1), (1, .6))))
        o.append(('sphere', dt, (8-e, 6), 1, dict(radius=1.5), (.5, (.5, 1), (1, .7))))
        o.append(('ball', dt, (4, 4, 4), 1, dict(radius=1.5), (.5, (1, .5, 1), (1, 1, .5))))
        o.append(('shell', dt, (4, 4, 4), 1, dict(radii=(.5, 2), k=1), (.5, (1, .5, 1), (1, 1, .5))))
        # truncation after the conversion
        o.append(('disk', dt, (8-e, 4), 1, dict(radius=1.5, k=1), (1.5, 2), 'late'))
        o.append(('annulus', dt, (4, 4), 0, dict(radii=(.5, 2), k=2), (1.5, 2), 'late'))
        o.append(('ball', dt, (4, 3, 3), 0, dict(radius=1.5, k=2), (1.5, 2), 'late'))
        o.append(('shell', dt, (4, 3, 3), 0, dict(radii=(.5, 2), k=1), (1.5, 2), 'late'))
        # different scales per axis
        o.append(('disk', dt, (8-e, 4), 1, dict(radius=1.5), ((1, 1.5), (1.5, 1))))
        o.append(('sphere', dt, (8-e, 4), 1, dict(radius=1.5), ((1, 1.5), (1.5, 1))))
        o.append(('annulus', dt, (8-e, 4), 1, dict(radii=(.5, 2), k=1), ((1, 1.5), (1.5, 1))))
        for k in ('ball', 'shell'):
            o.append((k, dt, (4, 3, 3), 0, dict(k=1, **(dict(radius=1.5) if k == 'ball' else dict(radii=(.5, 2)))), ((1.5, 1, 2), (1, 1.5, 1))))
        # axisymmetric and radial bases
        o.append(('disk', dt, (1, 4), 1, dict(radius=1.5), (1, 1.5)))
        o.append(('annulus', dt, (1, 4), 1, dict(radii=(.5, 2), k=1), (1, 1.5)))
        o.append(('sphere', dt, (1, 4), 1, dict(radius=1.5), (1, 1.5)))
        o.append(('ball', dt, (1, 3, 3), 1, dict(radius=1.5), (1, 1.5)))
        o.append(('shell', dt, (1, 3, 3), 1, dict(radii=(.5, 2), k=1), (1, 1.5)))
        if th:
            for rank in (0, 1, 2):
                o.append(('disk', dt, (16-e, 8), rank, dict(radius=1.5, k=rank), (1, 1.25, 1.5)))
                o.append(('annulus', dt, (8-e, 7), rank, dict(radii=(.3, 2), k=rank, alpha=(0, 0)), (1, 1.25, 1.5)))
                o.append(('sphere', dt, (16-e, 9), rank, dict(radius=2), (1, 1.25, 1.5)))
                if rank < 2:
                    o.append(('ball', dt, (8-e, 5, 6), rank, dict(radius=1.5, k=rank), (1, 1.5)))
                    o.append(('shell', dt, (8-e, 5, 5), rank, dict(radii=(.5, 2), k=rank), (1, 1.5)))
            o.append(('disk', dt, (8-e, 5), 3, dict(radius=1.5), (1, 1.5)))
            o.append(('sphere', dt, (8-e, 5), 3, dict(radius=1.5), (1, 1.5)))
    return o


def mode_harness(kind, dtype, tier):
    def h(ctx):
        ctx.encodes('transforms.SWSHColatitudeTransform/DiskRadialTransform/BallRadialTransform/Jacobi*', 'basis.PolarBasis/SphereBasis/RegularityBasis/Spherical3DBasis transforms and recombinations', 'field/distributor layouts and group arrays')
        for c in cases(tier):
            if c[0].replace('surface', 'sphere') != kind or c[1] is not dtype:
                continue
            kd, dt, shape, rank, opts, scales = c[:6]
            late = len(c) > 6
            nm = f'{kd} {np.dtype(dt).name} {shape} {opts} rank {rank}' + (' late truncation' if late else '')
            ctx.bound(f'{nm} scales {scales}')
            b, f, a = local(nm, kd, dt, shape, rank, opts, scales, late)
            if not late:
                ctx.run(f'{nm} backward', b)
                if opts.get('k', 0) == 0:
                    ctx.run(f'{nm} arbitrary', a)
            ctx.run(f'{nm} forward', f)
    return h


# ---- round trips of smooth fields between grids of different scales
def roundtrip(build, setup, rank, scales):
    def body(env):
        d3 = scen.start(env)
        g = build(d3)
        pts, frames, gen = setup(g)
        T = gen(rank)
        sym = env.array('s', (T.nsym,), complex=np.dtype(g.dtype).kind == 'c')
        coef = None
        for a in scales:
            u = g.dist.Field(name='u', bases=g.bases, tensorsig=(g.cs,)*rank, dtype=g.dtype)
            C11.fill(env, u, T, sym, pts, frames, a)
            c = u['c'].copy()
            if coef is None:
                coef = c
            else:
                env.equal(c, coef, 'coefficients do not depend on the grid the field was set on', tol=1e-8)
            for b in scales:
                u.change_scales(b)
                gr = C11.grids(u, b)
                v = C11.values(T, pts(gr), frames(gr), T.rank, u.dtype)
                env.equal(u['g'], C11.as_data(v, sym, u['g'].shape), 'a smooth field is the same function on every grid', tol=1e-8)
    return body


def rt_harness(kind, dtype, tier):
    def h(ctx):
        ctx.encodes('same, through set/get of data at changing scales')
        th = tier == 'thorough'
        e = 0 if dtype is R else 2
        deg = 4 if th else 3
        if kind == 'disk':
            conf = [dict(radius=1.5), dict(radius=.6, alpha=1, k=2)]
        elif kind == 'annulus':
            conf = [dict(radii=(.5, 2)), dict(radii=(1, 1.7), alpha=(0, 0), k=2)]
        elif kind == 'sphere':
            conf = [dict(radius=1.7)]
        elif kind == 'ball':
            conf = [dict(radius=1.5), dict(radius=.6, alpha=1, k=2)]
        else:
            conf = [dict(radii=(.5, 2)), dict(radii=(1, 1.7), alpha=(0, 0), k=2)]
        for o in conf:
            if kind in ('disk', 'annulus'):
                shape = (12-e, 7)
                build = lambda d3, o=o: geo.polar(d3, kind, shape, dtype, **o)
            elif kind == 'sphere':
                shape = (12-e, 6)
                build = lambda d3, o=o: geo.sphere(d3, shape, dtype, **o)
            else:
                shape = (8, 5, 7)
                build = lambda d3, o=o: geo.spherical(d3, kind, shape, dtype, **o)
            d = deg if len(shape) == 2 else 2
            setup = C11.curv_setup(kind, d, dtype=dtype, rad=o.get('radius'))
            if kind == 'shell' or kind == 'ball':
                setup = C11.shell_fix(setup)
            for rank in (0, 1, 2) + ((3,) if th and len(shape) == 2 else ()):
                sc = (1, 1.5, 2) if len(shape) == 2 else (1, 1.5)
                ctx.bound(f'{kind} {np.dtype(dtype).name} {shape} {o}: fields of degree {d}, rank {rank}, scales {sc}')
                ctx.run(f'{kind} {np.dtype(dtype).name} {o} round trip rank {rank}', roundtrip(build, setup, rank, sc))
    return h


def harnesses(tier):
    out = []
    for dt, dn in ((R, 'real'), (C, 'complex')):
        for k in ('ball', 'shell', 'disk', 'sphere', 'annulus'):
            out.append((f'modes-{k}-{dn}', mode_harness(k, dt, tier)))
        for k in ('ball', 'shell', 'disk', 'sphere', 'annulus'):
            out.append((f'trip-{k}-{dn}', rt_harness(k, dt, tier)))
    return out
