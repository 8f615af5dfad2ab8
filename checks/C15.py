"""Output files hold exactly what was asked for, and restarts recover the state."""
import hashlib, os, pathlib, shutil, tempfile, types
import numpy as np
from vt import scen, geo, lin, fakeh5

ASSUMPTIONS = ["HDF5 itself by contract (vt/fakeh5.py in the symbolic run; the replay uses the real h5py)", "transforms and operators: properties C06-C11", "serial execution"]
R, C = np.float64, np.complex128


class Scratch:
    def __enter__(self):
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix='verif_c15_')).resolve()
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def start(env):
    d3 = scen.start(env)
    from dedalus.core import evaluator, solvers
    fakeh5.reset()
    fake = fakeh5.module()
    env.patch(evaluator, 'h5py', fake)
    concrete = lambda d: np.ascontiguousarray(np.asarray(d)) if isinstance(d, lin.LinArray) else d
    env.patch(evaluator, 'hashlib', types.SimpleNamespace(**{n: (lambda d=b'', _f=getattr(hashlib, n), **kw: _f(concrete(d), **kw)) for n in ('sha1', 'md5', 'sha256', 'sha512', 'blake2b')}))
    env.patch(solvers, 'h5py', fake)
    return d3, evaluator.h5py


def setting(d3, kind, shape=None, dtype=None):
    """distributor, coordinate system, state fields and named bases"""
    dt = dtype or R
    if kind == 'R':
        g = geo.cart(d3, [('x', 'R', (shape or (6,))[0], (0, 3))], dt, dealias=1.5)
    elif kind == 'RT':
        a, b = shape or (4, 5)
        g = geo.cart(d3, [('x', 'R', a, (0, 3)), ('z', 'T', b, (0, 2), dict(dealias=2))], dt, dealias=1.5)
    elif kind == 'CT':
        a, b = shape or (4, 3)
        g = geo.cart(d3, [('x', 'C', a, (0, 3)), ('z', 'T', b, (0, 2))], C, dealias=1.5)
    elif kind == 'RRT':
        a, b, c = shape or (2, 4, 3)
        g = geo.cart(d3, [('x', 'R', a, (0, 3)), ('y', 'R', b, (0, 1)), ('z', 'L', c, (-1, 2))], dt)
    elif kind == 'disk':
        g = geo.polar(d3, 'disk', shape or (4, 3), dt, radius=1.5, dealias=(1, 2))
    elif kind == 'annulus':
        g = geo.polar(d3, 'annulus', shape or (4, 3), dt, radii=(1, 2))
    elif kind == 'sphere':
        g = geo.sphere(d3, shape or (4, 4), dt)
    elif kind == 'cyl':
        g = geo.cylinder(d3, 'disk', 3, shape or (4, 3), dt, zkind='T')
    else:
        g = geo.spherical(d3, kind, shape or (4, 3, 3), dt, **(dict(radius=1.5) if kind == 'ball' else dict(radii=(1, 2))))
    F = [g.dist.Field(name='u', bases=g.bases), g.dist.VectorField(g.cs, name='v', bases=g.bases) if g.dist.dim > 1 else g.dist.Field(name='v', bases=g.bases), g.dist.Field(name='s')]
    if kind in ('RT', 'CT', 'RRT'):
        F.append(g.dist.Field(name='w', bases=g.bases[-1]))
    elif kind in ('disk', 'annulus', 'ball', 'shell'):
        F.append(g.dist.Field(name='w', bases=g.basis.radial_basis))
        F.append(g.dist.Field(name='e', bases={'disk': lambda: g.basis.edge, 'annulus': lambda: g.basis.outer_edge, 'ball': lambda: g.basis.surface, 'shell': lambda: g.basis.outer_surface}[kind]()))
    g.F = F
    # radial fields of balls and shells cannot be unknowns
    g.V = [f for f in F if not (kind in ('ball', 'shell') and f.name == 'w')]
    return g


def solver(d3, g, time=True):
    ns = {f.name: f for f in g.F}
    if time:
        ns['t'] = g.t = g.dist.Field(name='t')
    p = d3.IVP(g.V, namespace=ns, **(dict(time='t') if time else {}))
    for f in g.V:
        p.add_equation(f'dt({f.name}) = 0')
    return p.build_solver('RK111')


def fill(env, f, tag, layout=0):
    """arbitrary representable data"""
    f.change_scales(1)
    radial = f.domain.bases and type(f.domain.bases[-1]).__name__ in ('BallRadialBasis', 'ShellRadialBasis')
    l = 'g' if radial else 'c'
    f.preset_layout(l)
    f[l] = env.array(f'{tag}_{f.name}', f.data.shape, complex=np.dtype(f.dtype).kind == 'c')*(1.0 if radial else f.valid_modes.astype(float))
    f['g']
    f['c']
    ref = f['c'].copy()
    if layout == 1:
        f['g']
    elif layout == 2:
        f.change_scales(2)
        f['g']
    return ref


def tasks(d3, g, kind):
    """(name, expression, options)"""
    u, v, s = g.F[:3]
    dim = g.dist.dim
    aniso = tuple([1.5, 2, 1][:dim]) if kind != 'cyl' else (2, 1.5, 1)
    if kind == 'sphere':
        aniso = (1.5, 2)
    lay = g.dist.layouts
    T = [('u', u, {}), ('uc', u, dict(layout='c')), ('us', u, dict(scales=aniso if len(aniso) == dim else None)), ('v', v, dict(layout='g', scales=2)), ('vc', v, dict(layout='c', scales=1.5)), ('s', s, {}),
         ('uu', u*u, dict(layout='g')), ('lock', d3.Grid(u*s), {}), ('sum', 2*u + u, dict(layout='c')), ('iu', None, {})]
    if len(lay) > 2:
        T.append(('umix', u, dict(layout=lay[1], scales=2)))
    for f in g.F[3:]:
        T += [(f.name, f, {}), (f.name + 'c', f, dict(layout='c')), (f.name + 's', f, dict(scales=2))]
    if kind == 'R':
        T[9] = ('iu', d3.integ(u), {})
    elif kind in ('RT', 'CT', 'RRT'):
        T[9] = ('iu', d3.ave(u, g.coords['x']), dict(scales=2))
        T.append(('uz', u(z='left'), {}))
    elif kind in ('disk', 'annulus', 'cyl'):
        T[9] = ('iu', d3.integ(u, g.cs if kind != 'cyl' else g.cp), {})
    elif kind in ('ball', 'shell'):
        T[9] = ('iu', u(r=1.5), dict(scales=1.5))
    else:
        T[9] = ('iu', d3.ave(u), {})
    return T


def expected(f, d3, expr, opts, g):
    """the task's data, by evaluating it on its own"""
    from dedalus.core.field import Field, LockedField
    out = expr.copy() if isinstance(expr, Field) else expr.evaluate()
    sc = opts.get('scales') or 1
    if isinstance(out, LockedField):
        return out.data.copy()
    out = out.copy()
    out.require_coeff_space()
    out.change_scales(sc)
    out.change_layout(opts.get('layout', 'g'))
    return out.data.copy()


def grids(g, kind, axis, scales, f):
    """grid of an axis by coordinate formula of the public API"""
    for b in f.domain.bases:
        a0 = g.dist.get_basis_axis(b)
        if a0 <= axis < a0 + b.dim:
            if len(f.domain.bases) and hasattr(b, 'constant') and np.ravel([b.constant])[0] and b.dim > 1 and b.shape[axis - a0] == 1:
                return None
            if type(b).__name__ in ('BallRadialBasis', 'ShellRadialBasis'):
                return None if axis - a0 < 2 else np.ravel(b.global_grid(g.dist, scales[axis]))
            gs = g.dist.local_grids(b, scales=scales)
            return np.ravel(gs[axis - a0])
    return None


def check_file(env, h5, d3, g, kind, path, handler_name, set_num, writes, T):
    """compare one file with its expected writes: [(write_number, event)]"""
    with h5.File(str(path), 'r') as f:
        env.check(int(f.attrs['set_number']) == set_num and int(f.attrs['writes']) == len(writes) and f.attrs['handler_name'] == handler_name, 'set metadata', info=f"{path.name} {dict(f.attrs)}")
        sc = f['scales']
        for nm in ('sim_time', 'wall_time', 'timestep', 'iteration', 'write_number'):
            env.check(sc[nm].shape == (len(writes),), 'time scales cover the writes', info=f'{path.name} {nm} {sc[nm].shape}')
        for i, (num, ev) in enumerate(writes):
            env.check(int(sc['write_number'][i]) == num and int(sc['iteration'][i]) == ev['iteration'], 'writes are numbered', info=f'{path.name} {i}')
            env.equal(np.stack([1.0*sc[n][i] for n in ('sim_time', 'timestep', 'wall_time')]), np.stack([1.0*ev[n] for n in ('sim_time', 'timestep', 'wall_time')]), 'time scales hold the times of the writes')
        env.check(sorted(f['tasks'].keys()) == sorted(t[0] for t in T), 'tasks in file')
        for nm, expr, opts in T:
            ds = f['tasks'][nm]
            env.check(ds.shape[0] == len(writes), 'tasks cover the writes', info=f'{path.name} {nm} {ds.shape}')
            for i, (num, ev) in enumerate(writes):
                got, exp = ds[i], ev['data'][nm]
                env.check(np.shape(got) == np.shape(exp), 'stored shape', info=f'{nm} {np.shape(got)} {np.shape(exp)}')
                env.equal(got, exp, 'stored data are the task evaluated at the write', tol=1e-9, info=nm)
            # labels and coordinates
            from dedalus.core.field import LockedField
            rank = len(expr.tensorsig)
            lay = g.dist.get_layout_object(opts.get('layout', 'g'))
            scales = g.dist.remedy_scales(opts.get('scales'))
            if nm == 'lock':
                scales = expr.domain.dealias
            env.check(ds.dims[0].label == 't' and set(ds.dims[0].keys()) == {'sim_time', 'wall_time', 'timestep', 'iteration', 'write_number'}, 'time axis labels')
            for axis in range(g.dist.dim):
                dim = ds.dims[1 + rank + axis]
                b = expr.domain.full_bases[axis]
                data = dim[0][:]
                if b is None:
                    env.check(dim.label == 'constant', 'axis labels', info=f'{nm} {axis} {dim.label}')
                    continue
                cname = g.dist.coords[axis].name
                if lay.grid_space[axis]:
                    env.check(dim.label == cname, 'axis labels', info=f'{nm} {axis} {dim.label}')
                    a0 = g.dist.get_basis_axis(b)
                    env.check(np.shape(data) == (ds.shape[1 + rank + axis],), 'coordinates have the size of the axis', info=f'{nm} axis {axis} {np.shape(data)} {ds.shape}')
                    ref = grids(g, kind, axis, scales, expr)
                    if ref is not None and np.shape(ref) == np.shape(data):
                        env.check(bool(np.allclose(data, ref, atol=1e-12)), 'coordinates are the grid points', info=f'{nm} axis {axis}')
                else:
                    env.check(dim.label == 'k' + cname, 'axis labels', info=f'{nm} {axis} {dim.label}')
                    if b.dim == 1:
                        env.check(np.shape(data) == (ds.shape[1 + rank + axis],), 'coordinates have the size of the axis', info=f'{nm} axis {axis} {np.shape(data)} {ds.shape}')
                        n = ds.shape[1 + rank + axis]
                        ref = np.arange(n)//2 if type(b).__name__ in ('RealFourier',) else np.arange(n)
                        if type(b).__name__ == 'ComplexFourier':
                            ref = np.array([k if k < (n + 1)//2 else k - n for k in range(n)])
                        ok = np.array_equal(np.asarray(data), ref) or (type(b).__name__ == 'ComplexFourier' and np.array_equal(np.abs(np.asarray(data)), np.abs(ref)))
                        env.check(bool(ok), 'mode numbers label coefficients', info=f'{nm} axis {axis}: {np.asarray(data)} {ref}')
                    else:
                        # groups of the basis along this axis for every element
                        el = np.array(np.meshgrid(*[np.arange(k) for k in ds.shape[1 + rank:]], indexing='ij'))
                        a0 = g.dist.get_basis_axis(b)
                        grp = b.elements_to_groups(tuple(lay.grid_space[a0:a0 + b.dim]), el[a0:a0 + b.dim])[axis - a0]
                        env.check(np.shape(data) == np.shape(grp) and bool(np.all(np.ma.getdata(np.asarray(data))[~np.ma.getmaskarray(grp)] == np.ma.getdata(grp)[~np.ma.getmaskarray(grp)])), 'mode numbers label coefficients', info=f'{nm} axis {axis}')


def write_body(kind, parallel, max_writes, n_events, dtype=None, name='out'):
    def body(env):
        d3, h5 = start(env)
        with Scratch() as tmp:
            g = setting(d3, kind, dtype=dtype)
            sol = solver(d3, g)
            T = tasks(d3, g, kind)
            h = sol.evaluator.add_file_handler(tmp/name, parallel=parallel, max_writes=max_writes, iter=2)
            for nm, expr, opts in T:
                h.add_task(expr, name=nm, **opts)
            events, states = [], []
            for k in range(n_events):
                ref = [fill(env, f, f'e{k}', (k + i) % 3) for i, f in enumerate(g.F)]
                ev = dict(iteration=2*k, sim_time=env.array(f't{k}', ()), timestep=env.array(f'dt{k}', ()), wall_time=env.array(f'w{k}', ()))
                sol.evaluator.evaluate_scheduled(**{**ev, 'iteration': 2*k})
                sol.evaluator.evaluate_scheduled(**{**ev, 'iteration': 2*k + 1})
                for f, r in zip(g.F, ref):
                    f.change_scales(1)
                    env.equal(f['c'], r, 'writing leaves the state unchanged')
                ev['data'] = {nm: expected(None, d3, expr, opts, g) for nm, expr, opts in T}
                ev['state'] = ref
                events.append(ev)
                for f in g.F:
                    f.change_scales(1)
                    f['c']
            per = max_writes or n_events
            sets = [list(enumerate(events, 1))[i:i + per] for i in range(0, n_events, per)]
            want = sorted(f'{name}_s{i + 1}.h5' for i in range(len(sets)))
            got = sorted(p.name for p in (tmp/name).iterdir() if p.suffix == '.h5')
            env.check(got == want, 'one file per set', info=str(got))
            for i, writes in enumerate(sets):
                check_file(env, h5, d3, g, kind, tmp/name/f'{name}_s{i + 1}.h5', name, i + 1, writes, T)
            load(env, d3, h5, kind, tmp/name, name, sets, dtype)
    return body


def load(env, d3, h5, kind, folder, name, sets, dtype):
    """restart from any write of any set"""
    for i, writes in enumerate(sets):
        for j in {0, len(writes) - 1}:
            for idx in {j, j - len(writes)}:
                g = setting(d3, kind, dtype=dtype)
                s2 = solver(d3, g)
                for k, f in enumerate(g.F):
                    fill(env, f, 'junk', (k + idx) % 3)
                num, ev = writes[j]
                # all state variables are tasks under their own names, in grid space
                write, dt = s2.load_state(folder/f'{name}_s{i + 1}.h5', index=idx)
                env.check(int(write) == num and int(s2.iteration) == ev['iteration'] and int(s2.initial_iteration) == ev['iteration'], 'restarts recover the counters', info=f'{write} {s2.iteration}')
                env.equal(np.stack([1.0*dt, 1.0*s2.sim_time]), np.stack([1.0*ev['timestep'], 1.0*ev['sim_time']]), 'restarts recover the times')
                for f, r in zip(g.F, ev['state']):
                    if f not in g.V:
                        continue
                    f.change_scales(1)
                    env.equal(f['c'], r, 'restarts recover the state', tol=1e-8, info=f.name)


def h_write(kind, parallel):
    def h(ctx):
        ctx.encodes('evaluator.H5FileHandlerBase.setup_file/process/write_file_metadata', 'evaluator.H5GatherFileHandler', 'evaluator.H5VirtualFileHandler', 'solvers.InitialValueSolver.load_state', 'field.Field.load_from_hdf5/load_from_global_grid_data')
        ctx.bound('small bases, 3 writes of every task kind (layouts, scales, ranks, operators, locked), sets of 1, 2 or all writes, every state and time')
        for mw in ((2,) if kind not in ('R', 'RT') else (None, 1, 2)):
            ctx.run(f'write {kind} {parallel} {mw}', write_body(kind, parallel, mw, 3))
    return h


# ------------------------------------------------------------------ loading
def load_body(src, dst, layout):
    """restart at another resolution, scale or layout: padded or truncated spectrally"""
    kind, a, scales = src

    def body(env):
        d3, h5 = start(env)
        with Scratch() as tmp:
            g = setting(d3, kind, shape=a)
            sol = solver(d3, g)
            h = sol.evaluator.add_file_handler(tmp/'r', iter=1)
            for f in g.F:
                h.add_task(f, name=f.name, layout=layout, scales=scales)
            refs = [fill(env, f, 'x', 1) for f in g.F]
            sol.evaluator.evaluate_scheduled(iteration=7, wall_time=0., sim_time=1.5, timestep=.5)
            g2 = setting(d3, kind, shape=dst)
            s2 = solver(d3, g2)
            for k, f in enumerate(g2.F):
                fill(env, f, 'junk', k % 3)
            s2.load_state(tmp/'r'/'r_s1.h5')
            for f, r, f0 in zip(g2.F, refs, g.F):
                # embed both in the larger coefficient space (cartesian bases only: modes are leading entries)
                f.change_scales(1)
                got = f['c']
                want = np.zeros(got.shape, dtype=f.dtype) + 0*env.array('zero', ()) if env.sym else np.zeros(got.shape, dtype=f.dtype)
                sl = tuple(slice(0, min(p, q)) for p, q in zip(got.shape, r.shape))
                want = want + 0
                want[sl] = r[sl]
                # unresolvable on the loading grid: modes of the coarser of file grid and new basis
                for ax in range(g.dist.dim):
                    b0, b1 = f0.domain.full_bases[ax], f.domain.full_bases[ax]
                    if b0 is None:
                        continue
                    n0 = int(np.ceil(b0.size*(1 if scales is None else scales if np.isscalar(scales) else scales[ax]))) if layout == 'g' else b0.size
                    n = min(n0, b0.size, b1.size)
                    axis = got.ndim - g.dist.dim + ax
                    kmax = 2*((n - 1)//2 + 1) if type(b1).__name__ == 'RealFourier' else n
                    cut = [slice(None)]*got.ndim
                    cut[axis] = slice(kmax, None)
                    want[tuple(cut)] = 0
                env.equal(got, want, 'restarts at another resolution pad or truncate the spectrum', tol=1e-8, info=f.name)
    return body


def h_load(ctx):
    ctx.encodes('solvers.InitialValueSolver.load_state', 'field.Field.load_from_hdf5/load_from_global_grid_data/load_from_global_coeff_data/_scales_from_shape')
    ctx.bound('file and solver resolutions from a table (ratios that round up included), layouts, scales, every state')
    for src, dst, layout in [(('R', (6,), None), (10,), 'g'), (('R', (10,), None), (6,), 'g'), (('R', (14,), None), (50,), 'g'), (('R', (28,), None), (58,), 'g'), (('R', (6,), 1.5), (6,), 'g'), (('R', (6,), 2), (4,), 'g'), (('R', (6,), 1), (6,), 'c'),
                              (('RT', (4, 7), None), (4, 25), 'g'), (('RT', (4, 14), None), (2, 25), 'g'), (('RT', (4, 5), (1, 2)), (8, 3), 'g'), (('RT', (4, 5), (1.5, 2)), (4, 5), 'c'), (('RT', (8, 3), None), (4, 5), 'g'),
                              (('RRT', (2, 4, 3), None), (4, 2, 5), 'g'), (('CT', (4, 3), (1, 2)), (4, 5), 'g')]:
        ctx.run(f'load {src} {dst} {layout}', load_body(src, dst, layout))

    def missing(env):
        d3, h5 = start(env)
        with Scratch() as tmp:
            g = setting(d3, 'R')
            sol = solver(d3, g)
            h = sol.evaluator.add_file_handler(tmp/'m', iter=1)
            h.add_task(g.F[0], name='u')
            h.add_task(2*g.F[1], name='w2')
            refs = [fill(env, f, 'x', 1) for f in g.F]
            sol.evaluator.evaluate_scheduled(iteration=3, wall_time=0., sim_time=1.5, timestep=.5)
            g2 = setting(d3, 'R')
            s2 = solver(d3, g2)
            keep = [fill(env, f, 'keep', 2) for f in g2.F]
            try:
                s2.load_state(tmp/'m'/'m_s1.h5')
                env.fail('missing variables are reported', info='no error')
            except IOError:
                env.check(True, 'missing variables are reported')
            s2.load_state(tmp/'m'/'m_s1.h5', allow_missing=True)
            for i, (f, k, r) in enumerate(zip(g2.F, keep, refs)):
                f.change_scales(1)
                env.equal(f['c'], r if i == 0 else k, 'allowed missing variables are left alone', info=f.name)
            with h5.File(str(tmp/'m'/'m_s1.h5'), 'r') as file:
                g2.F[1].load_from_hdf5(file, 0, task='w2', func=lambda x: x/2)
            g2.F[1].change_scales(1)
            env.equal(g2.F[1]['c'], refs[1], 'tasks load under other names and through functions')
    ctx.run('missing', missing, expect=['missing variables are reported', 'allowed missing variables are left alone', 'tasks load under other names and through functions'])


# ------------------------------------------------------------------ histories of runs writing to one place
NAMES = ['out', 'a.b', 'Ra1.0_Pr0.7', 'run[1]', 'a+b(2)', 's', 'x_s1', '.h']


def runs_body(name, parallel, history):
    """history: sequence of (mode, max_writes, number of writes); several handlers with related names in one folder of folders"""
    def body(env):
        d3, h5 = start(env)
        with Scratch() as tmp:
            g = setting(d3, 'R')
            u = g.F[0]
            base = tmp/name
            stem = base.stem
            book = {}                   # set number -> list of (write number, event)
            total, cur = 0, 0
            other = tmp/(name + '_stats')
            for run, (mode, mw, n) in enumerate(history):
                sol = solver(d3, g)
                h = sol.evaluator.add_file_handler(base, parallel=parallel, max_writes=mw, mode=mode, iter=1)
                T = [('u', u, {}), ('i', d3.integ(u), {})]
                for nm, e, o in T:
                    h.add_task(e, name=nm)
                o2 = sol.evaluator.add_file_handler(other, iter=2, mode='append')
                o2.add_task(u, name='u')
                if mode == 'overwrite':
                    book, total, cur = {}, 0, 0
                else:
                    total = max([w for ws in book.values() for w, _ in ws], default=0)
                cur = max(book, default=0) + 1
                for k in range(n):
                    fill(env, u, f'r{run}k{k}', k % 3)
                    ev = dict(iteration=k, sim_time=env.array(f'rt{run}_{k}', ()), timestep=env.array(f'rd{run}_{k}', ()), wall_time=env.array(f'rw{run}_{k}', ()))
                    sol.evaluator.evaluate_scheduled(**ev)
                    ev['data'] = {nm: expected(None, d3, e, o, g) for nm, e, o in T}
                    total += 1
                    if mw is not None and len(book.get(cur, [])) == mw:
                        cur += 1
                    book.setdefault(cur, []).append((total, ev))
                got = sorted(p.name for p in base.iterdir() if p.is_file())
                want = sorted(f'{stem}_s{i}.h5' for i in book)
                env.check(got == want, 'earlier sets are kept or removed as the mode says', info=f'{name} {got} {want}')
                for i, writes in book.items():
                    if (base/f'{stem}_s{i}.h5').exists():
                        check_file(env, h5, d3, g, 'R', base/f'{stem}_s{i}.h5', stem, i, writes, T)
            ns = sorted(p.name for p in other.iterdir())
            env.check(len(ns) == sum(1 for m, w, n in history if n > 0), 'handlers do not disturb each other', info=str(ns))
    return body


def h_runs(parallel):
    def h(ctx):
        ctx.encodes('evaluator.H5FileHandlerBase.__init__/current_path/current_file/get_file/process')
        ctx.bound('up to three consecutive runs (overwrite/append), set sizes 1, 2 and unlimited, up to 4 writes, plain and special folder names, every state')
        H = [[('overwrite', 2, 3), ('append', 2, 2), ('append', None, 2)], [('append', 1, 2), ('overwrite', None, 1), ('append', 1, 3)], [('overwrite', None, 2), ('overwrite', 2, 1)], [('append', 3, 4), ('append', 1, 1), ('overwrite', 1, 2)]]
        for i, hist in enumerate(H):
            for nm in NAMES if i < 2 or ctx.tier == 'thorough' else NAMES[:3]:
                ctx.run(f'runs {parallel} {nm} {i}', runs_body(nm, parallel, hist), expect=['earlier sets are kept or removed as the mode says', 'handlers do not disturb each other'])
    return h


def harnesses(tier):
    out = [(f'write-{k}-{p}', h_write(k, p)) for k in ('ball', 'shell', 'cyl', 'disk', 'annulus', 'sphere', 'RRT', 'RT', 'CT', 'R') for p in ('gather', 'virtual')]
    return out + [('runs-gather', h_runs('gather')), ('runs-virtual', h_runs('virtual')), ('load', h_load)]
