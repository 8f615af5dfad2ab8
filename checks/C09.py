"""A field is the function it represents: layouts, scales, copies, filters, locks, loads, norms."""
import itertools
import numpy as np
from vt import scen, geo, lin

ASSUMPTIONS = ["transform kernels: properties C06-C08", "serial execution (distributed layouts: property C21)"]
R, C = np.float64, np.complex128

KINDS = {
    'R': (lambda d3: geo.cart(d3, [('x', 'R', 6, (0, 3))], R, dealias=1.5), [1, 2, .5, 4/3]),
    'C': (lambda d3: geo.cart(d3, [('x', 'C', 5, (0, 3))], C, dealias=1.5), [1, 2, .6, 1.5]),
    'T': (lambda d3: geo.cart(d3, [('x', 'T', 4, (0, 3))], C, dealias=1), [1, 2, .5, 1.25]),
    'RT': (lambda d3: geo.cart(d3, [('x', 'R', 4, (0, 3)), ('z', 'T', 3, (0, 2), dict(dealias=2))], R, dealias=1.5), [1, (1.5, 2), (1, 4/3), (2, 1), (.5, 2/3), (1, .34), (3, 3)]),
    'CT': (lambda d3: geo.cart(d3, [('x', 'C', 5, (0, 3)), ('z', 'L', 3, (0, 2))], C, dealias=1), [1, (2, 4/3), (.6, 1), (1, 2)]),
    'TR': (lambda d3: geo.cart(d3, [('z', 'T', 3, (0, 2)), ('x', 'R', 4, (0, 3))], R, dealias=1.5), [1, 1.5, (1, 2), (2/3, 1), (2, .5)]),
    'RRT': (lambda d3: geo.cart(d3, [('x', 'R', 2, (0, 3)), ('y', 'R', 4, (0, 1)), ('z', 'T', 2, (0, 2))], R, dealias=1.5), [1, 1.5, (1, 2, 1.5), (2, 1, 1), (1, .5, 2), (1, 1, .5)]),
    'disk': (lambda d3: geo.polar(d3, 'disk', (4, 3), R, radius=1.5, dealias=(1.5, 1.5)), [1, 1.5, (2, 4/3), (1, 2), (2, 1)]),
    'annulus': (lambda d3: geo.polar(d3, 'annulus', (4, 3), R, radii=(1, 2), dealias=1.5), [1, 1.5, (2, 4/3), (1, 2), (1, 2/3)]),
    'sphere': (lambda d3: geo.sphere(d3, (4, 4), R, dealias=1.5), [1, 1.5, (2, 1), (1, 2)]),
    'ball': (lambda d3: geo.spherical(d3, 'ball', (4, 4, 3), R, radius=1.5, dealias=1.5), [1, 1.5, (2, 1, 4/3), (1, 1, 2)]),
    'shell': (lambda d3: geo.spherical(d3, 'shell', (4, 4, 3), R, radii=(1, 2), dealias=1.5), [1, 1.5, (2, 1, 4/3), (1, 1, 2)]),
    'cyl': (lambda d3: geo.cylinder(d3, 'disk', 3, (4, 3), R, zkind='T'), [1, 1.5, (2, 1, 1), (1, 2, 4/3)]),
}


def fields(g, kind):
    """(name, maker): tensor ranks and constant directions"""
    F = [('u', lambda: g.dist.Field(name='u', bases=g.bases))]
    if g.dist.dim > 1:
        F.append(('v', lambda: g.dist.VectorField(g.cs, name='v', bases=g.bases)))
    if kind in ('RRT', 'cyl'):
        F.append(('t', lambda: g.dist.TensorField((g.cs, g.cs), name='t', bases=g.bases)))
    if kind in ('RT', 'CT', 'TR', 'RRT'):
        F += [('w', lambda: g.dist.Field(name='w', bases=g.bases[-1])), ('h', lambda: g.dist.Field(name='h', bases=g.bases[0]))]
    if kind in ('disk', 'annulus'):
        F.append(('e', lambda: g.dist.Field(name='e', bases=g.basis.edge if kind == 'disk' else g.basis.outer_edge)))
    if kind in ('ball', 'shell'):
        F.append(('e', lambda: g.dist.VectorField(g.cs, name='e', bases=g.basis.surface if kind == 'ball' else g.basis.outer_surface)))
    F.append(('s', lambda: g.dist.Field(name='s')))
    return F


class Cart:
    """independent views of separable Cartesian data"""
    def __init__(self, g, f):
        self.rank, self.B = len(f.tensorsig), f.domain.full_bases
        self.g = g

    def kind(self, ax):
        b = self.B[ax]
        return None if b is None else type(b).__name__

    def matrices(self, ax, s):
        k = self.kind(ax)
        if k is None:
            return np.eye(1), np.eye(1)
        N = self.B[ax].size
        n = scen.grid_size(N, s)
        th = 2*np.pi*np.arange(n)/n
        if k == 'RealFourier':
            return scen.fourier_real(N, n, th), scen.fourier_real_fwd(N, n)
        if k == 'ComplexFourier':
            return scen.fourier_complex(N, n, th), scen.fourier_complex_fwd(N, n)
        a = -.5 if self.B[ax].a == -.5 else 0
        x, w = scen.gauss_jacobi(n, a, a)
        P = scen.jacobi_norm_values(n, a, a, x)
        V, F = np.zeros((n, N)), np.zeros((N, n))
        m = min(n, N)
        V[:, :m] = P[:, :m]
        F[:m] = np.linalg.inv(P)[:m]
        return V, F

    def view(self, c, layout, scales):
        for ax in range(len(self.B)):
            if layout.grid_space[ax]:
                c = scen.along(self.matrices(ax, scales[ax])[0], c, self.rank + ax)
        return c

    def coeffs(self, data, layout, scales):
        for ax in range(len(self.B)):
            if layout.grid_space[ax]:
                data = scen.along(self.matrices(ax, scales[ax])[1], data, self.rank + ax)
        return data


class Fresh:
    """views through a fresh field, transformed directly"""
    def __init__(self, g, f):
        self.f = f

    def new(self, layout, scales, data):
        f = type(self.f)(self.f.dist, bases=self.f.domain.bases, tensorsig=self.f.tensorsig, dtype=self.f.dtype)
        f.preset_scales(scales)
        f.preset_layout(layout)
        f.data[...] = data
        return f

    def view(self, c, layout, scales):
        f = self.new('c', scales, c)
        f.change_layout(layout)
        return f.data.copy()

    def coeffs(self, data, layout, scales):
        f = self.new(layout, scales, data)
        f.change_layout('c')
        return f.data.copy()


def ops_for(f, S, tier):
    dist = f.dist
    L = list(range(len(dist.layouts)))
    ops = [('layout', l) for l in L] + [('scales', s) for s in S]
    ops += [('get', 'g', S[1]), ('get', 'c', S[-1]), ('set', L[-1], S[1]), ('set', 0, S[0]), ('copy',), ('req', 'g', 0), ('req', 'c', dist.dim - 1), ('req', 'g', None), ('req', 'c', None), ('local', 0), ('gather',), ('low', S[1]), ('glob',)]
    if len(L) > 2:
        ops += [('set', 1, S[-1])]
    if len(S) > 2:
        ops += [('high', S[2]), ('low', S[2])]
    return ops


def run_ops(env, g, f, make, model, ops, tag, valid):
    """apply operations to a live field and to the function it represents"""
    dist = f.dist
    sc = lambda s: tuple(dist.remedy_scales(s))
    c = env.array(f'{tag}0', f['c'].shape, complex=np.dtype(f.dtype).kind == 'c')*valid
    f['c'] = c
    got, exp = [], []
    trunc = lambda c, layout, scales: model.coeffs(model.view(c, layout, scales), layout, scales) if any(layout.grid_space) else c
    others = []

    def cmp(a, b, what):
        if np.shape(a) != np.shape(b):
            env.check(False, 'data have the shape of the layout', info=f'{what} {np.shape(a)} {np.shape(b)}')
            return
        got.append(a.copy()), exp.append(b)

    for i, op in enumerate(ops):
        what = f'{ops[:i + 1]}'
        scales0 = f.scales
        if op[0] == 'layout':
            f.change_layout(dist.layouts[op[1]])
            env.check(f.layout is dist.layouts[op[1]] and f.scales == scales0, 'layout changes reach the layout', info=what)
        elif op[0] == 'scales':
            f.change_scales(op[1])
            env.check(f.scales == sc(op[1]), 'scale changes reach the scales', info=what)
        elif op[0] == 'get':
            d = f[op[1], op[2]]
            env.check(f.scales == sc(op[2]) and f.layout is dist.get_layout_object(op[1]) and d is f.data, 'viewing data at scales', info=what)
        elif op[0] == 'set':
            lay = dist.layouts[op[1]]
            shape = tuple(cs.dim for cs in f.tensorsig) + tuple(lay.global_shape(f.domain, sc(op[2])))
            x = env.array(f'{tag}{i + 1}_{len(shape)}_{int(np.prod(shape))}', shape, complex=np.dtype(f.dtype).kind == 'c')
            if not any(lay.grid_space):
                x = x*valid
            else:
                # representable on the other axes
                x = model.view(model.coeffs(x, lay, sc(op[2]))*valid, lay, sc(op[2])) if not all(lay.grid_space) else x
            f[lay, op[2]] = x
            cmp(f.data, x, what)
            c = model.coeffs(x, lay, sc(op[2]))
            if not all(lay.grid_space):
                c = c*valid
            env.check(f.scales == sc(op[2]) and f.layout is lay, 'setting data at scales', info=what)
            if any(lay.grid_space):
                f.change_layout('c')
                cmp(f.data, c, what)
        elif op[0] == 'copy':
            h = f.copy()
            env.check(h.scales == f.scales and h.layout is f.layout and h.dtype == f.dtype and h.domain is f.domain and h.tensorsig == f.tensorsig, 'copies match', info=what)
            others.append((f, trunc(c, f.layout, f.scales)))
            f = h
        elif op[0] == 'req':
            if op[1] == 'g':
                f.require_grid_space(op[2])
                env.check(bool(np.all(np.asarray(f.layout.grid_space)[... if op[2] is None else op[2]])) and f.scales == scales0, 'required spaces are reached', info=what)
            else:
                f.require_coeff_space(op[2])
                env.check(not np.any(np.asarray(f.layout.grid_space)[... if op[2] is None else op[2]]) and f.scales == scales0, 'required spaces are reached', info=what)
        elif op[0] == 'local':
            f.require_local(op[1])
            env.check(bool(f.layout.local[op[1]]), 'required axes are local', info=what)
        elif op[0] == 'gather':
            cg = trunc(c, dist.layouts[-1], f.scales)
            lay0 = f.layout
            cmp(f.gather_data(), model.view(trunc(c, lay0, f.scales), lay0, f.scales), what)
            cmp(f.allgather_data(layout='g'), model.view(cg, dist.layouts[-1], f.scales), what)
            c = cg
        elif op[0] == 'glob':
            shape = tuple(cs.dim for cs in f.tensorsig) + tuple(f.global_shape)
            x = env.array(f'{tag}{i + 1}_{len(shape)}_{int(np.prod(shape))}', shape, complex=np.dtype(f.dtype).kind == 'c')
            if not all(f.layout.grid_space):
                x = model.view(model.coeffs(x, f.layout, f.scales)*valid, f.layout, f.scales)
            f.set_global_data(x)
            cmp(f.data, x, what)
            c = model.coeffs(x, f.layout, f.scales)
            if not all(f.layout.grid_space):
                c = c*valid
            f.change_layout('c')
        elif op[0] in ('low', 'high'):
            s = sc(op[1])
            base = trunc(c, f.layout, f.scales)
            low = trunc(base, dist.layouts[-1], s)
            if op[0] == 'low':
                f.low_pass_filter(scales=op[1])
                c = low
            else:
                f.high_pass_filter(scales=op[1])
                c = base - low
        c = trunc(c, f.layout, f.scales)
        cmp(f.data, model.view(c, f.layout, f.scales), what)
    f.change_layout('g')
    c = trunc(c, f.layout, f.scales)
    cmp(f.data, model.view(c, f.layout, f.scales), f'{ops} end')
    for h, hc in others:
        h.change_layout('c')
        cmp(h.data, hc, 'source of a copy')
    flat = lambda xs: np.concatenate([np.ravel(x) for x in xs])
    env.equal(flat(got), flat(exp), 'the data are those of the represented function', tol=1e-9, info=str(ops))


def h_history(kind, depth):
    make, S = KINDS[kind]

    def h(ctx):
        ctx.encodes('field.Field.change_scales/change_layout/preset_scales/preset_layout/__getitem__/__setitem__/copy/require_*/low_pass_filter/high_pass_filter/set_global_data/gather_data/allgather_data', 'distributor.Transform.increment/decrement')
        ctx.bound(f'every sequence of {depth[ctx.tier == "thorough"]} operations from the table, scalar, vector and partly constant fields, every starting coefficient')
        d = depth[ctx.tier == 'thorough']

        def body_for(name):
            def body(env):
                d3 = scen.start(env)
                g = make(d3)
                mk = dict(fields(g, kind))[name]
                f = mk()
                model = (Cart if g.kind == 'cart' else Fresh)(g, f)
                valid = f.valid_modes.astype(float)
                ops = ops_for(f, S, ctx.tier)
                op0 = env.choose('op0', ops)
                # single operations on the larger fields
                for rest in itertools.product(ops, repeat=(0 if name == 't' or (kind in ('ball', 'shell', 'cyl') and name != 'u' and ctx.tier != 'thorough') else d - 1)):
                    run_ops(env, g, mk(), mk, model, (op0,) + rest, 'x', valid)
            return body
        for nm in NAMES[kind]:
            ctx.run(f'history {kind} {nm}', body_for(nm), expect=['the data are those of the represented function', 'scale changes reach the scales', 'layout changes reach the layout'])
    return h


# ------------------------------------------------------------------ filters by shape
def h_filter(ctx):
    ctx.encodes('field.Field.low_pass_filter/high_pass_filter/_scales_from_shape')
    ctx.bound('every grid shape up to the basis size (and beyond) per axis, every starting layout and scale, every field')

    def body(kind):
        def b(env):
            d3 = scen.start(env)
            g = KINDS[kind][0](d3)
            f = g.dist.Field(bases=g.bases)
            model = Cart(g, f)
            sizes = [b.size for b in g.bases]
            names = [type(b).__name__ for b in g.bases]
            valid = f.valid_modes.astype(float)
            shapes = itertools.product(*[range(1, n + 3) for n in sizes])
            for shape in shapes:
                for start, s0 in [('c', 1), ('g', 1), ('g', 2), ('g', 1.5)] + ([(1, 1.5)] if len(sizes) > 1 else []):
                    for how in ('low', 'high'):
                        f = g.dist.Field(bases=g.bases)
                        c = env.array('x', f['c'].shape, complex=np.dtype(f.dtype).kind == 'c')*valid
                        f['c'] = c
                        f.change_scales(s0)
                        f.change_layout(g.dist.get_layout_object(start) if isinstance(start, str) else g.dist.layouts[start])
                        getattr(f, how + '_pass_filter')(shape=shape)
                        env.check(f.scales == tuple(g.dist.remedy_scales(s0)), 'filters keep the scales')
                        mask = np.ones(c.shape)
                        for ax, (n, N, k) in enumerate(zip(shape, sizes, names)):
                            n = min(n, N)
                            m = np.zeros(c.shape[ax])
                            if k == 'RealFourier':
                                m[:2*((n - 1)//2 + 1)] = 1
                            elif k == 'ComplexFourier':
                                K = np.array([j if j <= (N - 1)//2 else j - N for j in range(N)])
                                m[np.abs(K) <= (n - 1)//2] = 1
                            else:
                                m[:n] = 1
                            mask = mask*m.reshape([-1 if i == ax else 1 for i in range(len(sizes))])
                        env.equal(f['c'], c*(mask if how == 'low' else 1 - mask), 'filters keep the modes resolved by the shape', tol=1e-9, info=f'{kind} {shape} {start} {s0} {how}')
        return b
    for k in ('R', 'C', 'T', 'RT', 'CT'):
        ctx.run(f'filter {k}', body(k), expect=['filters keep the scales', 'filters keep the modes resolved by the shape'])


# ------------------------------------------------------------------ locks
def h_locked(ctx):
    ctx.encodes('field.LockedField', 'operators.Grid/Coeff')
    ctx.bound('every subset of allowed layouts, every target layout, starting layouts and scales; every field')

    def body(kind):
        def b(env):
            from dedalus.core.field import LockedField
            d3 = scen.start(env)
            make, S = KINDS[kind]
            g = make(d3)
            L = g.dist.layouts
            mk = dict(fields(g, kind))['u']
            ref = mk()
            valid = ref.valid_modes.astype(float)
            model = (Cart if g.kind == 'cart' else Fresh)(g, ref)
            c = env.array('x', ref['c'].shape, complex=np.dtype(ref.dtype).kind == 'c')*valid
            s = tuple(g.dist.remedy_scales(S[1]))
            c = model.coeffs(model.view(c, L[-1], s), L[-1], s)
            for r in range(1, len(L) + 1):
                for allowed in itertools.combinations(range(len(L)), r):
                    for a in allowed:
                        for t in range(len(L)):
                            f = LockedField(g.dist, bases=ref.domain.bases, name='l', tensorsig=ref.tensorsig, dtype=ref.dtype)
                            f.preset_scales(s)
                            f.preset_layout(L[a])
                            f.data[...] = model.view(c, L[a], s)
                            f.lock_to_layouts(*[L[j] for j in allowed])
                            path = range(a, t + 1) if t >= a else range(a, t - 1, -1)
                            ok = all(j in allowed for j in path)
                            try:
                                f.change_layout(L[t])
                                env.check(ok and f.layout is L[t], 'locked fields move within their layouts only', info=f'{allowed} {a} {t}')
                            except ValueError:
                                env.check(not ok, 'locked fields move within their layouts only', info=f'{allowed} {a} {t}')
                            env.check(f.layout in f.allowed_layouts, 'locked fields stay in allowed layouts', info=f'{allowed} {a} {t}')
                            try:
                                f.change_scales(1)
                                env.check(s == tuple(g.dist.remedy_scales(1)), 'locked scales do not change')
                            except ValueError:
                                env.check(f.scales == s, 'locked scales do not change')
                            f.change_scales(s)
                            env.equal(f.data, model.view(c, f.layout, s), 'locked fields keep their function', tol=1e-9)
                            h = f.unlock()
                            env.check(type(h).__name__ == 'Field' and h.scales == s and h.layout is f.layout and h.name == 'l' and h.domain is f.domain, 'unlocking returns a regular field')
                            h['c']
                            env.equal(h['c'], c, 'unlocked fields keep their function', tol=1e-9)
            # locks from operators
            u = mk()
            u['c'] = c
            for l, i in (('g', len(L) - 1), ('c', 0)):
                out = (d3.Grid if l == 'g' else d3.Coeff)(u).evaluate()
                env.check(out.layout is L[i], 'Grid and Coeff lock the layout')
                env.equal(out.data, model.view(c, L[i], out.scales), 'Grid and Coeff lock the function', tol=1e-9)
                if len(L) > 1:
                    try:
                        out.change_layout(L[0] if i else L[-1])
                        env.check(False, 'Grid and Coeff lock the layout')
                    except ValueError:
                        env.check(out.layout is L[i], 'Grid and Coeff lock the layout')
            for ax in range(g.dist.dim):
                f = LockedField(g.dist, bases=ref.domain.bases, tensorsig=ref.tensorsig, dtype=ref.dtype)
                f.lock_axis_to_grid(ax)
                env.check(list(f.allowed_layouts) == [l for l in L if l.grid_space[ax]], 'locking an axis to the grid')
        return b
    for k in ('R', 'RT', 'RRT', 'disk', 'ball'):
        ctx.run(f'locked {k}', body(k), expect=['locked fields move within their layouts only', 'unlocked fields keep their function'])


# ------------------------------------------------------------------ norms
def nonneg(env):
    """the amplitude symbol is nonnegative"""
    if env.sym:
        env.space.nonneg = True


def h_norm(ctx):
    ctx.encodes('field.Field.allreduce_data_norm/allreduce_data_max/allreduce_L2_norm/normalize')
    ctx.bound('one field direction per case with arbitrary positive amplitude, ranks 0-2, every layout; analytic norms')
    rng = np.random.default_rng(5)

    def data(kind, rank):
        def b(env):
            d3 = scen.start(env)
            g = KINDS[kind][0](d3)
            ts = (g.cs,)*rank if g.dist.dim > 1 else ()
            f = g.dist.Field(bases=g.bases, tensorsig=ts)
            nonneg(env)
            z = env.array('s', ())
            for lay in [l for l in g.dist.layouts]:
                f.preset_layout(lay)
                x = rng.normal(size=f.data.shape) + (1j*rng.normal(size=f.data.shape) if np.dtype(f.dtype).kind == 'c' else 0)
                f.data[...] = z*x
                for p in (1, 2, 3, np.inf):
                    want = np.max(np.abs(x)) if p == np.inf else np.sum(np.abs(x)**p)**(1/p)
                    if p in (1, 2) or not env.sym:
                        env.equal(f.allreduce_data_norm(order=p), z*want, 'data norms', tol=1e-9)
        return b
    BIG = {'disk': lambda d3: geo.polar(d3, 'disk', (12, 8), R, radius=1.5, dealias=1.5), 'annulus': lambda d3: geo.polar(d3, 'annulus', (12, 8), R, radii=(1, 2), dealias=1.5),
           'sphere': lambda d3: geo.sphere(d3, (8, 8), R, dealias=1.5), 'ball': lambda d3: geo.spherical(d3, 'ball', (12, 8, 6), R, radius=1.5, dealias=1.5), 'shell': lambda d3: geo.spherical(d3, 'shell', (12, 8, 6), R, radii=(1, 2), dealias=1.5),
           'RT': lambda d3: geo.cart(d3, [('x', 'R', 4, (0, 3)), ('z', 'T', 6, (0, 2))], R, dealias=1.5), 'CT': lambda d3: geo.cart(d3, [('x', 'C', 4, (0, 3)), ('z', 'T', 6, (0, 2))], C), 'T': lambda d3: geo.cart(d3, [('x', 'T', 6, (0, 3))], R)}

    def l2(kind, rank):
        def b(env):
            d3 = scen.start(env)
            nonneg(env)
            g = BIG[kind](d3) if kind in BIG else KINDS[kind][0](d3)
            _l2(env, d3, g, kind, rank)
        return b
    for k, r in [(k, r) for k in ('R', 'T', 'RT', 'CT', 'disk', 'annulus', 'sphere', 'ball', 'shell') for r in (0, 1, 2) if (k not in ('R', 'T') or r == 0) and (k, r) != ('sphere', 2)]:
        ctx.run(f'norm {k} {r}', l2(k, r))
    for k in ('R', 'CT', 'disk'):
        for r in (0, 1):
            ctx.run(f'data norm {k} {r}', data(k, r))


def _l2(env, d3, g, kind, rank):
    """u = s q with a known quadratic integral"""
    n = {'R': 1, 'T': 1, 'C': 1, 'RT': 2, 'CT': 2, 'disk': 2, 'annulus': 2, 'sphere': 2, 'ball': 3, 'shell': 3}[kind]
    rng = np.random.default_rng(7)
    ts = (g.cs,)*rank
    f = g.dist.Field(bases=g.bases, tensorsig=ts)
    f.preset_scales(2)
    f.preset_layout('g')
    cplx = np.dtype(f.dtype).kind == 'c'
    s = env.array('s', ())
    if g.kind == 'cart':
        # components a + b*phi(x) with mean-zero unit-mean-square phi on the first non-periodic axis or cos
        comp = tuple(cs.dim for cs in ts)
        a = rng.normal(size=comp) + (1j*rng.normal(size=comp) if cplx else 0)
        b = rng.normal(size=comp) + (1j*rng.normal(size=comp) if cplx else 0)
        ax = len(g.bases) - 1
        x = g.dist.local_grids(*g.bases, scales=f.scales)[ax]
        B = g.bases[ax]
        lo, hi = B.bounds
        if 'Fourier' in type(B).__name__:
            phi, msq = np.cos(2*np.pi*(x - lo)/(hi - lo)), .5
        else:
            phi, msq = (x - (lo + hi)/2), (hi - lo)**2/12
        ex = comp + (1,)*g.dist.dim
        q = np.reshape(a, ex) + np.reshape(b, ex)*phi
        q = np.broadcast_to(q, f.data.shape)
        mean = np.sum(np.abs(a)**2) + msq*np.sum(np.abs(b)**2)
        V = np.prod([b.bounds[1] - b.bounds[0] for b in g.bases])
    else:
        Ro, Ri = {'disk': (1.5, 0), 'ball': (1.5, 0), 'annulus': (2, 1), 'shell': (2, 1), 'sphere': (1, 0)}[kind]
        grids = g.dist.local_grids(g.basis, scales=f.scales)
        if kind in ('disk', 'annulus'):
            phi, r = grids
            x, y = r*np.cos(phi), r*np.sin(phi)
            V = np.pi*(Ro**2 - Ri**2)
            m2 = np.pi/4*(Ro**4 - Ri**4)/V            # mean of x^2
            er, ep = [np.cos(phi)+0*r, np.sin(phi)+0*r], [-np.sin(phi)+0*r, np.cos(phi)+0*r]
            frame = [ep, er]
            X = x
        elif kind == 'sphere':
            phi, th = grids
            V, m2 = 4*np.pi, 1/3
            X = np.cos(th) + 0*phi
            frame = None
        else:
            phi, th, r = grids
            V = 4*np.pi/3*(Ro**3 - Ri**3)
            m2 = 4*np.pi/3*(Ro**5 - Ri**5)/5/V
            X = r*np.cos(th) + 0*phi
            st, ct, sp, cp = np.sin(th) + 0*phi + 0*r, np.cos(th) + 0*phi + 0*r, np.sin(phi) + 0*th + 0*r, np.cos(phi) + 0*th + 0*r
            frame = [[-sp, cp, 0*sp], [ct*cp, ct*sp, -st], [st*cp, st*sp, ct]]
        a, b = rng.normal(), rng.normal()
        if rank == 0:
            q, mean = a + b*X, a*a + b*b*m2
        elif kind == 'sphere':
            # gradient of cos(theta): -sin(theta) e_theta
            th_hat = -np.sin(th) + 0*phi
            if rank == 1:
                q, mean = np.stack([0*th_hat, a*th_hat]), a*a*2/3
            else:
                # a*(metric) + b*cos(theta)*metric
                q = np.stack([np.stack([a + b*X, 0*X]), np.stack([0*X, a + b*X])])
                mean = 2*(a*a + b*b/3)
        else:
            d = len(frame)
            A, Bm = rng.normal(size=(d,)*rank), rng.normal(size=(d,)*rank)
            T = lambda M: np.einsum('ia...,a->i...', np.array(frame), M) if rank == 1 else np.einsum('ia...,jb...,ab->ij...', np.array(frame), np.array(frame), M)
            q, mean = T(A) + T(Bm)*X, np.sum(A**2) + m2*np.sum(Bm**2)
    # averages over spherical volumes and integrals over spheres are not implemented (loud)
    for norm in {'ball': (False,), 'shell': (False,), 'sphere': (True,)}.get(kind, (True, False)):
        for lay in g.dist.layouts:
            f.preset_scales(2)
            f.preset_layout('g')
            f.data[...] = s*q
            f.change_layout(lay)
            got = f.allreduce_L2_norm(normalize_volume=norm)
            want = (mean*(1 if norm else V))**.5
            env.equal(got*got, s*s*want**2, 'L2 norms are the root mean square or integral', tol=1e-8, info=f'{kind} {rank} {norm}')
            f.preset_scales(2)
            f.preset_layout('g')
            f.data[...] = q
            f.change_layout(lay)
            f.normalize(normalize_volume=norm)
            f.change_scales(2)
            env.equal(f['g'], q/want, 'normalized fields have unit norm', tol=1e-8, info=f'{kind} {rank} {norm}')


NAMES = {'R': 'us', 'C': 'us', 'T': 'us', 'RT': 'uvwhs', 'CT': 'uvwh', 'TR': 'uvwh', 'RRT': 'uvwht', 'disk': 'uve', 'annulus': 'uve', 'sphere': 'uv', 'ball': 'uve', 'shell': 'uve', 'cyl': 'uv'}


def harnesses(tier):
    return [(f'history-{k}', h_history(k, (2, 2 if k in ('ball', 'shell', 'cyl') else 3))) for k in KINDS] + [('filter', h_filter), ('locked', h_locked), ('norm', h_norm)]
