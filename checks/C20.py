"""Results do not depend on the process mesh."""
import numpy as np
from vt import scen, geo, lin, mpisim

ASSUMPTIONS = ["simulated ranks: the real code runs once per rank, collectives exchange (symbolic) data and must match across ranks",
               "transposes.pyx as translated from its source (also in replays), FFTW's distributed transpose by its documented contract",
               "other kernels as in the serial checks; agreement with the serial run to 1e-9"]
R, C = np.float64, np.complex128
SAME = 'every rank holds its part of the serial result'


class Rank:
    """One rank of a program: global inputs are cut by the layout's slices, outputs are compared with the serial run."""
    def __init__(self, env, d3, rank, comm, mesh, store, rec):
        self.env, self.d3, self.rank, self.comm, self.mesh, self.store, self.rec = env, d3, rank, comm, mesh, store, rec

    def sym(self, name, shape, complex=False):
        key = name, tuple(int(s) for s in shape), complex
        if key not in self.store:
            self.store[key] = self.env.array(name, key[1], complex=complex)
        return self.store[key]

    def fill(self, f, name, layout='g', scales=1):
        """arbitrary global data"""
        lay = f.dist.get_layout_object(layout)
        f.preset_scales(scales)
        t = tuple(cs.dim for cs in f.tensorsig)
        X = self.sym(name, t + tuple(lay.global_shape(f.domain, f.scales)), np.dtype(f.dtype).kind == 'c')
        f[lay] = X[(slice(None),)*len(t) + lay.slices(f.domain, f.scales)]
        return f

    def const(self, f, fn, scales=1):
        """known data: fn of the global shape"""
        lay = f.dist.grid_layout
        f.preset_scales(scales)
        t = tuple(cs.dim for cs in f.tensorsig)
        X = fn(t + tuple(lay.global_shape(f.domain, f.scales)))
        f[lay] = X[(slice(None),)*len(t) + lay.slices(f.domain, f.scales)]
        return f

    def out(self, label, f, layouts=('g',), scales=None):
        """record the local data of a field"""
        if hasattr(f, 'evaluate'):
            f = f.evaluate()
        f = f.copy()
        if scales is not None:
            f.change_scales(scales)
        for l in layouts:
            lay = f.dist.get_layout_object(l)
            f.change_layout(lay)
            t = tuple(cs.dim for cs in f.tensorsig)
            self.rec.append((f'{label} {l if isinstance(l, str) else [bool(x) for x in lay.grid_space]}', (slice(None),)*len(t) + lay.slices(f.domain, f.scales),
                             t + tuple(lay.global_shape(f.domain, f.scales)), f.data.copy()))

    def value(self, label, x):
        """a quantity every rank must agree on"""
        self.rec.append((label, None, None, x))


def on_mesh(env, d3, prog, mesh, store, wrap=lambda x: x):
    n = int(np.prod(mesh))

    def fn(rank, comm):
        geo.LOCAL.kw = dict(comm=wrap(comm), mesh=mesh)
        rec = []
        try:
            prog(Rank(env, d3, rank, comm, mesh, store, rec))
        finally:
            geo.LOCAL.kw = {}
        return rec
    return mpisim.World(n).run(fn)


def body(prog, meshes, tol=1e-9, planner='FFTWTranspose', group=True, sync=False):
    def f(env):
        d3 = scen.start(env)
        from dedalus.core import distributor
        tr = mpisim.load_transposes(env)
        env.stub(distributor, 'TransposePlanner', getattr(tr, planner))
        env.stub(distributor, 'GROUP_TRANSPOSES', group)
        env.stub(distributor, 'SYNC_TRANSPOSES', sync)
        store = {}
        ref = on_mesh(env, d3, prog, (1,), store)[0]
        some = [np.ravel(r[3]) for r in ref if r[1] is not None and np.prod(r[2])]
        if some:
            env.nonzero(np.concatenate(some[:20]), 'serial results')
        for mesh in meshes:
            res = on_mesh(env, d3, prog, mesh, store)
            compare(env, ref, res, mesh, tol)
    return f


def compare(env, ref, res, mesh, tol):
    for r, rec in enumerate(res):
        env.check(len(rec) == len(ref), 'every rank runs the same program', f'{mesh} rank {r}: {len(rec)} results of {len(ref)}')
    for i, (lab, sl0, shape0, g0) in enumerate(ref):
        seen = None if shape0 is None else np.zeros(shape0, int)
        for r, rec in enumerate(res):
            lab1, sl, shape, g = rec[i]
            info = f'{lab}, mesh {mesh}, rank {r}'
            env.check(lab1 == lab and shape == shape0, 'global shapes are those of the serial run', f'{info}: {lab1} {shape} vs {shape0}')
            if sl is None:
                env.equal(g, g0, SAME, tol=tol, info=info)
                continue
            want = g0[sl]
            env.check(tuple(want.shape) == tuple(g.shape), 'local shapes match the local elements', f'{info}: {g.shape} vs {want.shape}')
            if want.size:
                env.equal(g, want, SAME, tol=tol, info=info)
            seen[sl] += 1
        if seen is not None:
            env.check(bool((seen == 1).all()), 'every element is held by exactly one rank', f'{lab}, mesh {mesh}')


# ------------------------------------------------------------------ geometries
GEO = {
    'RT': (lambda d3: geo.cart(d3, [('x', 'R', 6, (0, 3)), ('z', 'T', 4, (0, 2))], R, dealias=1.5), [(2,), (3,), (5,)]),
    'CT': (lambda d3: geo.cart(d3, [('x', 'C', 5, (0, 3)), ('z', 'T', 3, (0, 2))], C, dealias=1.5), [(2,), (3,), (4,)]),
    'TR': (lambda d3: geo.cart(d3, [('z', 'T', 5, (0, 2)), ('x', 'R', 6, (0, 3))], R, dealias=1.5), [(2,), (4,)]),
    'RRT': (lambda d3: geo.cart(d3, [('x', 'R', 4, (0, 3)), ('y', 'R', 6, (0, 2)), ('z', 'T', 3, (0, 2))], R, dealias=1.5), [(2,), (2, 2), (1, 3), (3, 2), (4,)]),
    'CTL': (lambda d3: geo.cart(d3, [('x', 'C', 3, (0, 3)), ('y', 'T', 3, (0, 2)), ('z', 'L', 2, (0, 2))], C, dealias=1.5), [(2,), (2, 2), (1, 2), (2, 3)]),
    'RRRT': (lambda d3: geo.cart(d3, [('w', 'R', 2, (0, 3)), ('x', 'R', 4, (0, 3)), ('y', 'R', 4, (0, 2)), ('z', 'T', 2, (0, 2))], R), [(2, 1, 2), (1, 2), (2, 2, 2), (1, 1, 2), (1, 2, 2)]),
    'disk': (lambda d3: geo.polar(d3, 'disk', (8, 5), R, radius=1.5, dealias=(1.5, 1.5)), [(2,), (3,), (4,)]),
    'diskC': (lambda d3: geo.polar(d3, 'disk', (6, 4), C, radius=1.5, dealias=(1.5, 1.5)), [(2,), (4,)]),
    'annulus': (lambda d3: geo.polar(d3, 'annulus', (8, 3), R, radii=(1, 2), dealias=1.5), [(2,), (3,)]),
    'sphere': (lambda d3: geo.sphere(d3, (8, 5), R, radius=1.5, dealias=1.5), [(2,), (3,), (4,)]),
    'sphereC': (lambda d3: geo.sphere(d3, (6, 4), C, radius=1.5), [(2,), (4,)]),
    'ball': (lambda d3: geo.spherical(d3, 'ball', (8, 4, 4), R, radius=1.5, dealias=1.5), [(2,), (2, 2), (1, 3), (3, 2)]),
    'ballC': (lambda d3: geo.spherical(d3, 'ball', (6, 4, 4), C, radius=1.5), [(2,), (3, 2)]),
    'shell': (lambda d3: geo.spherical(d3, 'shell', (8, 4, 3), R, radii=(1, 2), dealias=1.5), [(2,), (2, 2), (1, 3), (3, 2)]),
    'cyl': (lambda d3: geo.cylinder(d3, 'disk', 4, (8, 4), R), [(2,), (2, 2), (1, 3)]),
    'cylT': (lambda d3: geo.cylinder(d3, 'annulus', 3, (4, 5), R, zkind='T'), [(2,), (2, 2), (1, 2)]),
}


def subdomains(g, kind):
    """names and bases of fields, including those constant along some axes"""
    out = [('full', g.bases)]
    if g.kind == 'cart':
        out += [(f'ax{i}', b) for i, b in enumerate(g.bases)]
        if len(g.bases) > 2:
            out += [(f'no{i}', tuple(b for j, b in enumerate(g.bases) if j != i)) for i in range(len(g.bases))]
    elif g.kind in ('disk', 'annulus'):
        out += [('edge', g.basis.edge if g.kind == 'disk' else g.basis.outer_edge)]
        out += [('rad', g.basis.radial_basis)]
    elif g.kind in ('ball', 'shell'):
        out += [('surf', g.basis.surface if g.kind == 'ball' else g.basis.outer_surface), ('rad', g.basis.radial_basis)]
    elif g.kind == 'sphere':
        out += [('zonal', g.basis.latitude_basis)] if hasattr(g.basis, 'latitude_basis') else []
    elif g.kind.startswith('cyl'):
        out += [('polar', g.basis), ('ax', g.bz), ('edge', g.basis.edge if g.kind == 'cyldisk' else g.basis.outer_edge), ('side', (g.bz, g.basis.edge if g.kind == 'cyldisk' else g.basis.outer_edge))]
    out.append(('const', ()))
    return out


def field(g, bases, rank, name=None):
    return g.dist.TensorField((g.cs,)*rank, name=name, bases=bases) if rank > 1 else g.dist.VectorField(g.cs, name=name, bases=bases) if rank else g.dist.Field(name=name, bases=bases)


def layouts_prog(build, kind, rank):
    def prog(p):
        g = build(p.d3)
        subs = subdomains(g, kind)
        fs = []
        for nm, bases in subs:
            if rank and nm in ('rad', 'zonal'):
                continue
            f = p.fill(field(g, bases, rank), nm)
            fs.append(f)
            n = g.dist.dim
            spaces = []
            for l in g.dist.layouts:
                gs = tuple(bool(x) for x in l.grid_space)
                if gs not in spaces:
                    spaces.append(gs)
            # one record per transform state, whatever the number of layouts
            for gs in spaces:
                lay = [l for l in g.dist.layouts if tuple(bool(x) for x in l.grid_space) == gs]
                p.out(f'{nm} layout', f, [lay[0]])
            for gs in reversed(spaces):
                lay = [l for l in g.dist.layouts if tuple(bool(x) for x in l.grid_space) == gs]
                f.change_layout(lay[-1])
                p.out(f'{nm} back', f, [lay[-1]])
            for s in (2, 1.5):
                p.out(f'{nm} scale {s}', f, ['g'], scales=s)
            # from coefficients
            h = field(g, bases, rank)
            h.preset_layout('c')
            f.change_scales(1)
            h['c'] = f['c']
            h.change_scales(2)
            h['g']
            h.change_scales(1)
            p.out(f'{nm} again', h, ['g', 'c'])
        # many fields moved together
        from dedalus.core.evaluator import Evaluator
        E = Evaluator(g.dist, {})
        for k, f in enumerate(fs):
            f.change_scales([1, 2][k % 2])
            f.change_layout('g' if k % 3 else 'c')
        E.require_coeff_space(fs)
        for f in fs:
            p.value('moved to coefficients', 1.0*(f.layout is g.dist.coeff_layout))
            p.out('together', f, ['c'])
        E.require_grid_space(fs)
        for f in fs:
            p.value('moved to grid', 1.0*(f.layout is g.dist.grid_layout))
            p.out('together', f, ['g'])
        E.require_coeff_space(fs[::-1])
        for f in fs:
            p.out('together again', f, ['c'])
    return prog


def h_layouts(kind, ranks):
    def h(ctx):
        ctx.encodes('distributor.Distributor', 'distributor.Layout', 'distributor.Transform', 'distributor.Transpose', 'transposes.FFTWTranspose', 'field.Field.change_layout/change_scales', 'evaluator.Evaluator.require_coeff_space')
        build, meshes = GEO[kind]
        ctx.bound(f'layouts {kind}: meshes {meshes}, ranks {ranks}, every transform state')
        for rk in ranks:
            ctx.run(f'layouts {kind} rank {rk}', body(layouts_prog(build, kind, rk), meshes), expect=[SAME])
    return h


def h_options(kind):
    def h(ctx):
        ctx.encodes('transposes.AlltoallvTranspose', 'distributor.Transpose.increment_single/decrement_single')
        build, meshes = GEO[kind]
        ctx.bound('TRANSPOSE_LIBRARY=mpi (real data only), GROUP_TRANSPOSES and SYNC_TRANSPOSES each on and off')
        for kw in (dict(group=False, sync=True),) if kind in ('CTL', 'ballC') else (dict(planner='AlltoallvTranspose'), dict(group=False, sync=True), dict(planner='AlltoallvTranspose', group=False)):
            ctx.run(f'options {kind} {kw}', body(layouts_prog(build, kind, 1), meshes[:2], **kw), expect=[SAME])
    return h


# ------------------------------------------------------------------ expressions
def noise(seed):
    return lambda shape: np.random.default_rng(seed).standard_normal(shape)


class Ops:
    """operands: symbolic u, v, T; fixed fields over every subdomain"""
    def __init__(self, p, g, kind):
        self.p, self.g, self.d3, self.kind = p, g, p.d3, kind
        self.subs = subdomains(g, kind)
        self.u = p.fill(field(g, g.bases, 0, 'u'), 'u')
        self.v = p.fill(field(g, g.bases, 1, 'v'), 'v')
        self.T = p.fill(field(g, g.bases, 2, 'T'), 'T') if kind not in ('RRRT',) else None
        self.n = {}
        self.s = {}
        for j, (nm, b) in enumerate(self.subs):
            self.n[nm] = p.const(field(g, b, 0, 'n' + nm), noise(j))
            self.s[nm] = p.fill(field(g, b, 0, 's' + nm), 's' + nm)
            if nm not in ('rad', 'zonal'):
                self.n['v' + nm] = p.const(field(g, b, 1, 'nv' + nm), noise(50 + j))
                self.s['v' + nm] = p.fill(field(g, b, 1, 'sv' + nm), 'sv' + nm)

        # representable data: changing scales anywhere is then lossless
        for f in [self.u, self.v, self.T] + list(self.n.values()) + list(self.s.values()):
            if f is not None:
                f['c']
                if self.kind == 'cylT' and f.data.ndim and f.domain.bases:
                    # low radial modes only: raising k truncates, in coefficient layouts alone
                    f.data[..., 2:] = 0

    def fresh(self):
        """operands back in changing layouts"""
        k = 0
        for f in [self.u, self.v, self.T] + list(self.n.values()) + list(self.s.values()):
            if f is not None:
                f.change_scales([1, 1.5, 2][k % 3])
                f.change_layout(f.dist.layouts[(k*5) % len(f.dist.layouts)] if k % 2 else 'c')
                k += 1


def expressions(o):
    d3, g, u, v, T, n, s, kind = o.d3, o.g, o.u, o.v, o.T, o.n, o.s, g_kind(o.kind)
    E = []
    add = lambda nm, fn: E.append((nm, fn))
    skip_edge = ('edge', 'side') if kind != 'cart' else ()
    for nm in s:
        if not nm.startswith('v'):
            # products broadcasting over constant axes, both ways
            for m in n:
                if m.startswith('v') and nm == 'const' or nm.endswith(skip_edge) and m.endswith(('const',)) or m.endswith(skip_edge) and nm.endswith('const'):
                    continue
                add(f's{nm}*n{m}', lambda nm=nm, m=m: s[nm]*n[m])
                if not m.startswith('v'):
                    add(f's{nm}+n{m}', lambda nm=nm, m=m: s[nm] + n[m])
        elif nm != 'vconst' or kind == 'cart':
            add(f'{nm}.v', lambda nm=nm: s[nm]@n['vfull'])
            add(f'v.{nm}', lambda nm=nm: n['vfull']@s[nm])
            add(f'{nm}+v', lambda nm=nm: s[nm] + n['vfull'])
    # several terms whose operands need broadcasting
    if kind == 'cart':
        add('sum', lambda: s['const']*n['full'] + u*n['const'] + s['ax0']*n['ax1'] + u*s['const']*0 + s['ax1']*n['ax0'])
        for i, c in enumerate(g.names):
            x = g.coords[c]
            b = g.bases[i]
            lo, hi = (0, 2)
            add(f'd{c}', lambda x=x: d3.Differentiate(u, x))
            add(f'd{c}v', lambda x=x: d3.Differentiate(v, x))
            add(f'int{c}', lambda x=x: d3.integ(u, x))
            add(f'ave{c}', lambda x=x: d3.ave(v, x))
            add(f'at {c}', lambda x=x: d3.Interpolate(u, x, 0.7))
            add(f'vat {c}', lambda x=x: d3.Interpolate(v, x, 0.7)*n['full'])
            add(f'comp{c}', lambda x=x: d3.comp(v, index=0, comp=x))
            if not hasattr(b, 'group_shape') or b.group_shape == (1,) and 'Fourier' not in type(b).__name__:
                lb = b.derivative_basis(1)
                for nm, bb in o.subs:
                    bb = bb if isinstance(bb, tuple) else (bb,)
                    if b not in bb and len(g.bases) - 1 == len(bb):
                        add(f'lift{c} {nm}', lambda nm=nm, lb=lb: d3.Lift(s[nm], lb, -1) + n['full'])
            if 'Fourier' in type(b).__name__:
                add(f'hilbert{c}', lambda x=x: d3.HilbertTransform(u, x))
        add('lap', lambda: d3.lap(u)); add('grad', lambda: d3.grad(u)); add('div', lambda: d3.div(v)); add('gradv', lambda: d3.grad(v))
        add('adv', lambda: n['vfull']@d3.grad(u) + n['full']*d3.div(v))
        if T is not None:
            add('trace', lambda: d3.trace(T)); add('trans', lambda: d3.transpose(T) + T); add('divT', lambda: d3.div(T)@n['vfull'])
        if g.dist.dim == 3:
            add('curl', lambda: d3.curl(v)); add('cross', lambda: d3.cross(v, n['vfull']))
        add('integ', lambda: d3.integ(u)); add('ave*u', lambda: d3.ave(u)*n['full']); add('nest', lambda: d3.grad(n['full']*d3.integ(u)*n['ax0']))
        add('integ const', lambda: d3.integ(s['ax1']*n['ax0']))
    else:
        b = g.basis
        pol = kind in ('disk', 'annulus', 'cyl')
        add('lap', lambda: d3.lap(u)); add('grad', lambda: d3.grad(u)); add('div', lambda: d3.div(v)); add('lapv', lambda: d3.lap(v)); add('gradv', lambda: d3.grad(v))
        add('adv', lambda: n['vfull']@d3.grad(u) + n['full']*d3.div(v))
        add('advv', lambda: n['vfull']@d3.grad(v))
        if kind != 'sphere':
            add('trace', lambda: d3.trace(T))
        add('trans', lambda: d3.transpose(T)); add('divT', lambda: d3.div(T))
        if kind in ('ball', 'shell'):
            add('curl', lambda: d3.curl(v)); add('cross', lambda: d3.cross(n['vfull'], v))
            from dedalus.core import operators as O
            add('ell', lambda: O.SphericalEllProduct(u, g.cs, lambda l: l + 2))
            add('radial', lambda: d3.radial(v(r=1.2))); add('angular', lambda: d3.angular(v(r=1.5)))
            add('azav', lambda: d3.Average(u, g.cs.coords[0])); add('sphav', lambda: d3.Average(u, g.cs.S2coordsys))
        if kind == 'sphere':
            add('skew', lambda: d3.skew(v)); add('mulcos', lambda: d3.MulCosine(u)); add('mulcosv', lambda: d3.MulCosine(v)*n['full'])
            add('ave', lambda: d3.ave(u)*n['full'])
            add('theta', lambda: u(theta=1.)*n['full'])
        else:
            add('interp', lambda: u(r=1.2)); add('interpv', lambda: v(r=1.2)); add('interp*', lambda: u(r=1.2)*n['full']) if kind in ('ball', 'shell') else None
            add('edge', lambda: v(r=1.5)@v(r=1.5) if False else 2*v(r=1.5))
            add('integ', lambda: d3.integ(u)); add('integ*', lambda: d3.integ(u*n['full'])*n['full'])
        if kind in ('disk', 'annulus'):
            add('ave', lambda: d3.ave(u)*n['full']); add('azav', lambda: d3.Average(u, g.cs.coords[0])*n['full']); add('skew', lambda: d3.skew(v))
        lifts = {'disk': 'edge', 'annulus': 'edge', 'ball': 'surf', 'shell': 'surf', 'cyl': 'side'}
        if kind in lifts:
            e = lifts[kind]
            add('lift', lambda: d3.Lift(s[e], b if kind in ('disk', 'ball') or o.kind == 'cyl' else b.derivative_basis(1), -1))
            add('liftv', lambda: d3.Lift(s['v' + e], b if kind in ('disk', 'ball') or o.kind == 'cyl' else b.derivative_basis(1), -1) + n['vfull'])
        if kind == 'cyl':
            add('dz', lambda: d3.Differentiate(v, g.cz)); add('intz', lambda: d3.integ(u, g.cz)*n['full']); add('intp', lambda: d3.integ(u, g.cp)*n['full']); add('atz', lambda: u(z=0.7)*n['full'])
            add('ax', lambda: u*n['ax'] + s['polar']*n['ax'])
    return [e for e in E if e]


def g_kind(kind):
    return 'cart' if kind[0] in 'RCTL' and kind != 'cyl' else {'diskC': 'disk', 'sphereC': 'sphere', 'ballC': 'ball', 'cylT': 'cyl'}.get(kind, kind)


def expr_prog(build, kind, part, parts):
    def prog(p):
        o = Ops(p, build(p.d3), kind)
        L = expressions(o)
        # combinations the library refuses are learnt from the serial run
        bad = p.store.setdefault('refused', set())
        for nm, fn in L[part::parts]:
            o.fresh()
            if nm in bad:
                continue
            try:
                f = fn().evaluate()
            except Exception as ex:
                if p.comm.size > 1:
                    raise RuntimeError(f'{nm} fails on mesh {p.mesh}, rank {p.rank}: {type(ex).__name__}: {ex}') from ex
                bad.add(nm)
                continue
            p.out(nm, f, ['g', 'c'])
        # operands unchanged
        for f in (o.u, o.v, o.s['full']):
            p.out('operands', f, ['c'])
        # together, as scheduled tasks
        from dedalus.core.evaluator import Evaluator
        o.fresh()
        ev = Evaluator(p_dist(o), {})
        D = ev.add_dictionary_handler(iter=1)
        names = []
        for nm, fn in L[part::3*parts]:
            if nm in bad:
                continue
            D.add_task(fn(), name=nm, layout='g')
            names.append(nm)
        ev.evaluate_handlers([D])
        for nm in names:
            p.out(f'task {nm}', D.fields[nm], ['g'], scales=1)
    return prog


def p_dist(o):
    return o.g.dist


QUICK = {'RRT': [(2, 2)], 'CTL': [(2, 2)], 'ball': [(2, 2)], 'ballC': [(3, 2)], 'shell': [(3, 2)], 'cyl': [(2, 2)], 'cylT': [(2, 2)], 'RT': [(2,), (5,)], 'CT': [(3,)], 'TR': [(2,)], 'disk': [(3,)], 'diskC': [(2,)],
         'annulus': [(2,)], 'sphere': [(3,)], 'sphereC': [(2,)]}
PARTS = {'RRT': 6, 'CTL': 4, 'shell': 3, 'ball': 2, 'cyl': 3, 'cylT': 3, 'ballC': 2}


def h_expr(kind, part=0):
    def h(ctx):
        ctx.encodes('arithmetic.GhostBroadcaster', 'arithmetic.Multiply*', 'operators.* (evaluation)', 'evaluator.Evaluator.evaluate_handlers', 'distributor')
        build, meshes = GEO[kind]
        meshes = meshes if ctx.thorough else QUICK[kind]
        ctx.run(f'expressions {kind} {part}', body(expr_prog(build, kind, part, PARTS.get(kind, 1)), meshes), expect=[SAME])
        ctx.bound(f'expressions {kind}: meshes {meshes}')
    return h




# ------------------------------------------------------------------ field tools
def tools_prog(kind):
    """gathering, loading, filtering and filling of global data"""
    def prog(p):
        g = GEO[kind][0](p.d3)
        cplx = np.dtype(g.dist.dtype).kind == 'c'
        for nm, bases in subdomains(g, kind):
            for rank in (0, 1):
                if rank and nm in ('rad', 'zonal'):
                    continue
                f = p.fill(field(g, bases, rank), f'{nm}{rank}')
                f['c']
                for lay in ('g', 'c'):
                    X = f.allgather_data(lay)
                    p.value(f'allgather {nm}{rank} {lay}', X)
                    for root in (0, p.comm.size - 1):
                        Y = f.gather_data(root=root, layout=lay)
                        p.env.check(p.comm.size == 1 or (Y is None) == (p.comm.rank != root), 'gathered data on the root only', f'{nm}{rank} {lay} {p.mesh}')
                        p.value(f'gather {nm}{rank} {lay}', X if Y is None else Y)
                    h = field(g, bases, rank)
                    if lay == 'g':
                        h.load_from_global_grid_data(X)
                        h.change_scales(1)
                    else:
                        h.load_from_global_coeff_data(X)
                    p.out(f'load {nm}{rank} {lay}', h, ['c'])
                    h = field(g, bases, rank)
                    h.preset_layout(lay)
                    h.set_global_data(X)
                    p.out(f'set {nm}{rank} {lay}', h, ['c'])
                h = f.copy()
                h.change_scales(2)
                if h.domain.bases:
                    h.low_pass_filter(scales=0.5)
                    p.out(f'low {nm}{rank}', h, ['c'])
                    h = f.copy()
                    h.high_pass_filter(scales=0.5)
                    p.out(f'high {nm}{rank}', h, ['c'])
                # known data: norms
                h = p.const(field(g, bases, rank), noise(rank + 7))
                h['c']
                for lay in ('g', 'c'):
                    for order in (1, 2, np.inf):
                        p.value(f'norm {nm}{rank} {lay} {order}', h.allreduce_data_norm(lay, order))
                    p.value(f'max {nm}{rank} {lay}', h.allreduce_data_max(lay))
    return prog


class Stream:
    """A random generator whose draws are arbitrary numbers; every generator of a seed gives the same stream."""
    def __init__(self, p, seed):
        self.p, self.seed, self.n = p, seed, 0

    def standard_normal(self, size=None):
        X = self.p.sym(f'stream{self.seed}', (400,))
        self.n, a = self.n + size, self.n
        if self.n > 400:
            raise RuntimeError('stream exhausted')
        return X[a:self.n]

    uniform = standard_normal


def fill_prog(kind):
    def prog(p):
        from dedalus.tools import random_arrays
        g = GEO[kind][0](p.d3)
        p.env.stub(random_arrays, 'default_rng', lambda seed: Stream(p, seed))
        for nm, bases in subdomains(g, kind):
            for rank in (0, 1):
                if rank and nm in ('rad', 'zonal'):
                    continue
                for lay, scales, chunks in (('g', 1, (5, 1)), ('c', 1, (2,)), ('g', 0.5, (3,)), (None, 1, (7,))):
                    f = field(g, bases, rank)
                    f.fill_random(layout=lay, scales=scales, seed=11)
                    p.out(f'fill {nm}{rank} {lay} {scales}', f, [lay or 'c'])
                    for chunk in chunks:
                        h = field(g, bases, rank)
                        h['c']
                        h.fill_random(layout=lay, scales=scales, seed=11, chunk_size=chunk, distribution='uniform')
                        p.env.check(h.layout is f.layout and h.data.shape == f.data.shape, 'fills are made in the layout requested', nm)
                        if f.data.size:
                            p.env.equal(h.data, f.data, 'random fills do not depend on the chunk size', tol=1e-12, info=f'{nm}{rank} {lay} {scales} chunk {chunk}, mesh {p.mesh}')
    return prog


TOOLS = ('RT', 'CT', 'RRT', 'CTL', 'disk', 'sphere', 'shell', 'cyl')


def h_tools(kind):
    def h(ctx):
        ctx.encodes('field.Field.gather_data/allgather_data/load_from_global_*/set_global_data/low_pass_filter/high_pass_filter/allreduce_data_norm/fill_random', 'tools.random_arrays')
        meshes = GEO[kind][1]
        ctx.run(f'tools {kind}', body(tools_prog(kind), meshes if ctx.thorough else meshes[:2]), expect=[SAME])
        ctx.run(f'fills {kind}', body(fill_prog(kind), meshes), expect=[SAME, 'random fills do not depend on the chunk size'])
        ctx.bound(f'gathering, loading, filtering, norms and random fills (arbitrary random streams): {TOOLS}')
    return h


# ------------------------------------------------------------------ solvers
def steady_prog(build, kw):
    """linear boundary value problems of property C05"""
    def prog(p):
        from checks import C05
        P = build(p.d3)
        problem = p.d3.LBVP(P.vars)
        for e in P.eqs:
            problem.add_equation(e[:2], **(dict(condition=e[2]) if len(e) > 2 else {}))
        for i, f in enumerate(P.knowns):
            p.fill(f, f'k{i}')
            f['c']
        solver = problem.build_solver(matsolver=C05.Dense, **kw)
        for rd in range(2):
            if rd:
                for i, f in enumerate(P.knowns):
                    p.fill(f, f'r{i}')
            solver.solve(**(dict(rebuild_matrices=True) if rd and P.ncc else {}))
            for i, v in enumerate(P.vars):
                p.out(f'solution {i} of solve {rd}', v, ['c'])
        for j, eq in enumerate(problem.equations):
            p.out(f'rhs {j}', solver.F[j], ['c'])
    return prog


SOLVE = dict(stokes=[(2,), (3,)], conditions=[(2,), (2, 2), (1, 3)], disk=[(2,)], annulus=[(2,)], sphere=[(2,), (3,)], sphereC=[(2,)], ball=[(2,), (2, 2)], shell=[(2,), (1, 2)], ballvec=[(2, 1)], shellvec=[(2, 2)])


def h_steady(name):
    def h(ctx):
        from checks import C05
        ctx.encodes('solvers.LinearBoundaryValueSolver', 'subsystems.build_subproblems/Subsystem.gather/scatter', 'problems', 'distributor')
        ctx.bound(f'boundary value problems {sorted(SOLVE)} on meshes; two solves each')
        ctx.run(f'steady {name}', body(steady_prog(C05.LINEAR[name], {}), SOLVE[name], 1e-8), expect=[SAME])
    return h


def i_cart(p, g):
    """2-D and 3-D: advection-diffusion with forcing, tau terms on the last axis"""
    d3, n = p.d3, g.dist.dim
    u, w, f = field(g, g.bases, 0, 'u'), field(g, g.bases, 1, 'w'), field(g, g.bases, 0, 'f')
    a = p.const(field(g, g.bases, 1, 'a'), noise(3))
    c = p.const(field(g, g.bases[-1], 0, 'c'), noise(4))
    t1, t2 = field(g, g.bases[:-1], 0, 't1'), field(g, g.bases[:-1], 0, 't2')
    lb = g.bases[-1].derivative_basis(2)
    lift = lambda A, k: d3.Lift(A, lb, k)
    z = g.names[-1]
    t = g.dist.Field(name='t')
    P = d3.IVP([u, w, t1, t2], time=t)
    P.add_equation((d3.dt(u) - d3.lap(u) + c*u + lift(t1, -1) + lift(t2, -2), -a@d3.grad(u) + f + t))
    P.add_equation((d3.dt(w) - 0.2*w + (d3.grad(u)), t*a*d3.integ(u) + w))
    P.add_equation((u(**{z: 0}), 0))
    P.add_equation((d3.Differentiate(u, g.coords[z])(**{z: 2}), t))
    return P, [u, w], [f]


def i_polar(p, g):
    d3, b = p.d3, g.basis
    u, f = field(g, b, 1, 'u'), field(g, b, 1, 'f')
    a = p.const(field(g, b, 1, 'a'), noise(3))
    t = g.dist.Field(name='t')
    if g.kind == 'disk':
        t1 = field(g, b.edge, 1, 't1')
        P = d3.IVP([u, t1], time=t)
        P.add_equation((d3.dt(u) - d3.lap(u) + d3.Lift(t1, b, -1), -a@d3.grad(u) + t*f))
        P.add_equation((u(r=1.5), 0))
        return P, [u, t1], [f]
    t1, t2 = field(g, b.outer_edge, 1, 't1'), field(g, b.outer_edge, 1, 't2')
    lb = b.derivative_basis(2)
    P = d3.IVP([u, t1, t2], time=t)
    P.add_equation((d3.dt(u) - d3.lap(u) + d3.Lift(t1, lb, -1) + d3.Lift(t2, lb, -2), -a@d3.grad(u) + t*f))
    P.add_equation((u(r=1), 0))
    P.add_equation((u(r=2), f(r=2)))
    return P, [u, t1, t2], [f]


def i_sphere(p, g):
    d3, b = p.d3, g.basis
    u, h = field(g, b, 1, 'u'), field(g, b, 0, 'h')
    a = p.const(field(g, b, 1, 'a'), noise(3))
    t = g.dist.Field(name='t')
    P = d3.IVP([u, h], time=t)
    P.add_equation((d3.dt(u) + d3.grad(h) - 0.1*d3.lap(u) + d3.MulCosine(d3.skew(u)), -a@d3.grad(u)))
    c = p.const(field(g, b, 0, 'c'), noise(5))
    P.add_equation((d3.dt(h) + 2*d3.div(u), -d3.div(h*a) + t*d3.ave(h)*c))
    return P, [u, h], []


def i_spherical(p, g):
    d3, b = p.d3, g.basis
    u, f = field(g, b, 0, 'u'), field(g, b, 0, 'f')
    a = p.const(field(g, b, 1, 'a'), noise(3))
    t = g.dist.Field(name='t')
    if g.kind == 'ball':
        t1 = field(g, b.surface, 0, 't1')
        P = d3.IVP([u, t1], time=t)
        P.add_equation((d3.dt(u) - d3.lap(u) + d3.Lift(t1, b, -1), -a@d3.grad(u) + t*f))
        P.add_equation((u(r=1.5), 0))
        return P, [u, t1], [f]
    t1, t2 = field(g, b.outer_surface, 0, 't1'), field(g, b.outer_surface, 0, 't2')
    lb = b.derivative_basis(2)
    P = d3.IVP([u, t1, t2], time=t)
    P.add_equation((d3.dt(u) - d3.lap(u) + d3.Lift(t1, lb, -1) + d3.Lift(t2, lb, -2), -a@d3.grad(u) + t*f))
    P.add_equation((u(r=1), 0))
    P.add_equation((u(r=2), f(r=2)))
    return P, [u, t1, t2], [f]


IVPS = {'RT': i_cart, 'CT': i_cart, 'RRT': i_cart, 'disk': i_polar, 'annulus': i_polar, 'sphere': i_sphere, 'ball': i_spherical, 'shell': i_spherical}


def ivp_prog(kind, scheme, steps):
    def prog(p):
        from checks import C02
        g = GEO[kind][0](p.d3)
        P, vars, knowns = IVPS[kind](p, g)
        for i, f in enumerate(vars + knowns):
            p.fill(f, f'x{i}')
            f['c']
        solver = P.build_solver(scheme, matsolver=C02.Dense, enforce_real_cadence=2)
        for i, dt in enumerate(steps):
            solver.step(dt)
            for v in vars:
                p.out(f'{v.name} after step {i}', v, ['c'])
        p.value('time', solver.sim_time)
        p.value('modes', float(solver.total_modes))
    return prog


def h_ivp(kind, schemes):
    def h(ctx):
        ctx.encodes('solvers.InitialValueSolver.step', 'timesteppers', 'subsystems', 'evaluator', 'distributor')
        meshes = GEO[kind][1][:2]
        for sch, steps in schemes:
            ctx.run(f'steps {kind} {sch}', body(ivp_prog(kind, sch, steps), meshes, 1e-8), expect=[SAME])
        ctx.bound(f'initial value problems {sorted(IVPS)}: 2-3 steps with a multistep and a Runge-Kutta scheme, realness enforced at cadence 2')
    return h


def harnesses(tier):
    out = []
    for k in GEO:
        ranks = (0,) if k in ('RRRT',) else (0, 1) if k not in ('RRT', 'cyl') else (0, 1, 2)
        out.append((f'layouts-{k}', h_layouts(k, ranks)))
        if k != 'RRRT':
            for i in range(PARTS.get(k, 1)):
                out.append((f'expr-{k}-{i}', h_expr(k, i)))
    for k in ('RT', 'CTL', 'disk', 'RRT'):
        out.append((f'options-{k}', h_options(k)))
    for k in TOOLS:
        out.append((f'tools-{k}', h_tools(k)))
    for k in SOLVE:
        out.append((f'steady-{k}', h_steady(k)))
    for k in IVPS:
        out.append((f'ivp-{k}', h_ivp(k, [('SBDF2', [.1, .2, .1]), ('RK222', [.1, .1])] if k in ('RT', 'sphere') else [('RK222' if len(k) % 2 else 'SBDF2', [.1, .2])])))
    return sorted(out, key=lambda h: not ('RRT' in h[0] or 'shell' in h[0] or 'cyl' in h[0]))
