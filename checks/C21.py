"""Output files are those of the serial run, whatever wrote or merged them."""
import types
import numpy as np
from vt import scen, geo, lin, mpisim, fakeh5
from checks import C15, C20

ASSUMPTIONS = ["simulated ranks as in C20; HDF5 by contract (vt/fakeh5.py; the replay uses the real h5py except for MPI-IO, which the installed h5py is not built for)",
               "the serial files: property C15"]
R, C = np.float64, np.complex128
SAME = 'files hold the serial data'
NAMES = ('sim_time', 'wall_time', 'timestep', 'iteration', 'write_number')
MESHES = {'RT': [(2,), (3,), (5,)], 'CT': [(2,), (3,)], 'RRT': [(2,), (2, 2), (1, 3), (3, 2)], 'disk': [(2,), (3,)], 'annulus': [(2,)], 'sphere': [(2,), (3,)],
          'cyl': [(2,), (2, 2)], 'ball': [(2,), (2, 2)], 'shell': [(2,), (1, 3)]}


def program(kind, mode, per, n, tmp):
    """write n events of every kind of task and restart from the last write"""
    def prog(p):
        d3 = p.d3
        g = C15.setting(d3, kind)
        sol = C15.solver(d3, g)
        h = sol.evaluator.add_file_handler(tmp/'out', parallel=mode, max_writes=per, iter=1)
        T = C15.tasks(d3, g, kind)
        for nm, expr, opts in T:
            h.add_task(expr, name=nm, **opts)
        num = lambda nm: p.sym(nm, ())
        refs = None
        for k in range(n):
            refs = []
            for i, f in enumerate(g.F):
                state(p, f, f'e{k}_{f.name}')
                refs.append(f['c'].copy())
                if (k + i) % 3:
                    f['g']
                if (k + i) % 3 == 2:
                    f.change_scales(2)
                    f['g']
            sol.evaluator.evaluate_scheduled(iteration=2*k, sim_time=num(f't{k}'), timestep=num(f'dt{k}'), wall_time=num(f'w{k}'))
            for f, r in zip(g.F, refs):
                f.change_scales(1)
                got = f['c']
                if r.size:
                    p.env.equal(got, r, 'writing leaves the state unchanged')
        p.comm.Barrier()
        # restart
        sets = -(-n//(per or n))
        g2 = C15.setting(d3, kind)
        s2 = C15.solver(d3, g2)
        write, dt = s2.load_state(tmp/'out'/f'out_s{sets}.h5', index=-1)
        p.env.check(int(write) == n and int(s2.iteration) == 2*(n - 1), 'restarts recover the counters', f'{write} {s2.iteration}')
        for f, f0, r in zip(g2.F, g.F, refs):
            if f0 in g.V:
                f.change_scales(1)
                got = f['c']
                p.env.check(got.shape == r.shape, 'restarts recover the local state', f.name)
                if r.size:
                    p.env.equal(got, r, 'restarts recover the local state', tol=1e-8, info=f'{f.name} {p.mesh} rank {p.comm.rank}')
        p.comm.Barrier()
    return prog


def state(p, f, name):
    """arbitrary representable data, the same on every mesh"""
    f.change_scales(1)
    radial = f.domain.bases and type(f.domain.bases[-1]).__name__ in ('BallRadialBasis', 'ShellRadialBasis')
    if radial:
        p.fill(f, name, 'g')
    else:
        lay = f.dist.coeff_layout
        f.preset_layout(lay)
        t = tuple(cs.dim for cs in f.tensorsig)
        X = p.sym(name, t + tuple(lay.global_shape(f.domain, f.scales)), np.dtype(f.dtype).kind == 'c')
        f['c'] = X[(slice(None),)*len(t) + lay.slices(f.domain, f.scales)]*f.valid_modes.astype(float)
    f['g']
    f['c']


def snapshot(h5, folder):
    """everything in the joint files"""
    out = {}
    for path in sorted(folder.iterdir()):
        if path.suffix != '.h5':
            continue
        with h5.File(str(path), 'r') as f:
            c = types.SimpleNamespace(attrs={k: f.attrs[k] for k in ('set_number', 'writes', 'handler_name')}, scales={n: [f['scales'][n][i] for i in range(f['scales'][n].shape[0])] for n in NAMES}, tasks={})
            for nm in f['tasks'].keys():
                ds = f['tasks'][nm]
                dims = []
                for i in range(len(ds.shape)):
                    d = ds.dims[i]
                    dims.append((d.label, sorted(d.keys()), [np.array(s[:]) for s in d.values()] if i else None))
                c.tasks[nm] = types.SimpleNamespace(shape=tuple(ds.shape), rows=[ds[i] for i in range(ds.shape[0])], dims=dims, dtype=np.dtype(ds.dtype),
                                                    attrs={k: np.array(ds.attrs[k]).tolist() for k in ('constant', 'grid_space', 'scales')}, virtual=ds.is_virtual)
            out[path.name] = c
    return out


def same(env, got, ref, what):
    env.check(sorted(got) == sorted(ref), 'the sets are those of the serial run', f'{what}: {sorted(got)} {sorted(ref)}')
    for fn in ref:
        a, b = got[fn], ref[fn]
        env.check(all(str(a.attrs[k]) == str(b.attrs[k]) for k in b.attrs), 'set metadata are those of the serial run', f'{what} {fn}: {a.attrs} {b.attrs}')
        for n in NAMES:
            env.check(len(a.scales[n]) == len(b.scales[n]), 'time scales cover the writes', f'{what} {fn} {n}')
            if n in ('iteration', 'write_number'):
                env.check([int(x) for x in a.scales[n]] == [int(x) for x in b.scales[n]], 'writes are numbered as in the serial run', f'{what} {fn} {n}')
            else:
                env.equal(np.stack([1.0*x for x in a.scales[n]]), np.stack([1.0*x for x in b.scales[n]]), 'times are those of the serial run', info=f'{what} {fn} {n}')
        env.check(sorted(a.tasks) == sorted(b.tasks), 'tasks are those of the serial run', f'{what} {fn}: {sorted(a.tasks)}')
        for nm in b.tasks:
            s, t = a.tasks[nm], b.tasks[nm]
            env.check(s.shape == t.shape and s.dtype == t.dtype, 'stored shapes are those of the serial run', f'{what} {nm} {s.shape} {t.shape} {s.dtype}')
            env.check(s.attrs == t.attrs and [d[:2] for d in s.dims] == [d[:2] for d in t.dims], 'labels are those of the serial run', f'{what} {nm} {s.dims} {t.dims} {s.attrs} {t.attrs}')
            for (l, _, x), (_, _, y) in zip(s.dims[1:], t.dims[1:]):
                env.check(len(x) == len(y) and all(u.shape == v.shape and np.allclose(u, v) for u, v in zip(x, y)), 'coordinates are those of the serial run', f'{what} {nm} {l}')
            for i, (x, y) in enumerate(zip(s.rows, t.rows)):
                env.equal(x, y, SAME, tol=1e-9, info=f'{what} {fn} {nm} write {i}')


def start(env, mode):
    d3, h5 = C15.start(env)
    from dedalus.core import evaluator, solvers
    if mode == 'mpio':
        h5 = fakeh5.parallel_module()
        env.stub(evaluator, 'h5py', h5)
        env.stub(solvers, 'h5py', h5)
    from dedalus.core import distributor
    tr = mpisim.load_transposes(env)
    env.stub(distributor, 'TransposePlanner', tr.FFTWTranspose)
    return d3, h5


def body(kind, mode, meshes, per, n=3):
    def f(env):
        d3, h5 = start(env, mode)
        store = {}

        def run(md, mesh, then=None):
            with C15.Scratch() as tmp:
                fakeh5.reset()
                C20.on_mesh(env, d3, program(kind, md, per, n, tmp), mesh, store)
                s = snapshot(h5, tmp/'out')
                if then:
                    then(tmp)
                return s
        ref = run('gather', (1,))
        some = [np.ravel(r) for c in ref.values() for t in c.tasks.values() for r in t.rows[:1]]
        env.nonzero(np.concatenate(some[:20]), 'files')
        for mesh in meshes:
            def merge(tmp):
                """merging leaves ordinary datasets with the same content"""
                from dedalus.core import evaluator
                for path in sorted((tmp/'out').iterdir()):
                    if path.suffix == '.h5':
                        with h5.File(str(path), 'r+') as f:
                            for i, nm in enumerate(list(f['tasks'].keys())):
                                evaluator.H5VirtualFileHandler.merge_task(f, nm, overwrite=True)
                s = snapshot(h5, tmp/'out')
                same(env, s, ref, f'merged {mesh}')
                env.check(not any(t.virtual for c in s.values() for t in c.tasks.values()), 'merged tasks are ordinary datasets')

            def merge_files(cleanup):
                def go(tmp):
                    """the post-processing tool, its files shared between two processes"""
                    from dedalus.tools import post
                    env.patch(post, 'h5py', h5)
                    for r in range(2):
                        env.stub(post, 'MPI_RANK', r)
                        env.stub(post, 'MPI_SIZE', 2)
                        post.merge_virtual_analysis(tmp/'out', cleanup=cleanup)
                    s = snapshot(h5, tmp/'out')
                    same(env, s, ref, f'merged files {mesh}')
                    env.check(not any(t.virtual for c in s.values() for t in c.tasks.values()), 'merged tasks are ordinary datasets')
                    left = sorted(p.name for p in (tmp/'out').iterdir() if p.is_dir())
                    env.check(left == ([] if cleanup else sorted(k[:-3] for k in ref)), 'process files are removed on request only', str(left))
                return go
            same(env, run(mode, mesh, merge if mode == 'virtual' else None), ref, f'{mode} {mesh}')
            if mode == 'virtual' and mesh == meshes[0]:
                for cleanup in (False, True):
                    run(mode, mesh, merge_files(cleanup))
    return f


def h_files(kind, mode):
    def h(ctx):
        ctx.encodes('evaluator.H5FileHandlerBase', 'evaluator.H5GatherFileHandler', 'evaluator.H5VirtualFileHandler (and merge_task)', 'evaluator.H5ParallelFileHandler', 'distributor.Layout.local/global elements', 'solvers.InitialValueSolver.load_state')
        ctx.bound(f'every task kind of C15, 3 writes in sets of 2, meshes {MESHES}; every state and time')
        m = MESHES[kind]
        ctx.run(f'files {kind} {mode}', body(kind, mode, m if ctx.thorough else m[:3], 2), expect=[SAME])
        if ctx.thorough:
            ctx.run(f'files {kind} {mode} one set', body(kind, mode, m[:1], None), expect=[SAME])
    return h


# ------------------------------------------------------------------ sharing writes between processes
def assign_body(nsets, top, size):
    def body(env):
        scen.start(env)
        from dedalus.tools import post
        from vt.shims import symbolic_module
        symbolic_module(env, post)
        n = [env.int(f'writes{i}', 0, top) for i in range(nsets)]
        env.assume(sum(n) >= 1)
        paths = [f'out_s{i + 1}.h5' for i in range(nsets)]
        env.stub(post, 'get_all_writes', lambda sp: [n[int(str(s).split('_s')[1][:-3]) - 1] for s in sp])
        env.stub(post, 'MPI_SIZE', size)
        seen = []
        for rank in range(size):
            env.stub(post, 'MPI_RANK', rank)
            post.visit_writes(paths[::-1], lambda path, start, count: seen.append((int(str(path).split('_s')[1][:-3]) - 1, start, count)))
        both = lambda a, b: (a & b) if env.sym else (a and b)
        for i in range(nsets):
            mine = [(s, c) for k, s, c in seen if k == i]
            for s, c in mine:
                env.check(both(both(s >= 0, c >= 1), s + c <= n[i]), 'processes visit writes of the set', f'set {i} of {nsets}, {size} processes')
            env.check(sum([c for _, c in mine]) == n[i], 'every write is visited', f'set {i} of {nsets}, {size} processes')
            for a in range(len(mine)):
                for b in range(a):
                    (s, c), (u, d) = mine[a], mine[b]
                    x, y = s + c <= u, u + d <= s
                    env.check((x | y) if env.sym else (x or y), 'no write is visited twice', f'set {i} of {nsets}, {size} processes')
    return body


def h_assign(ctx):
    ctx.encodes('tools.post.visit_writes', 'tools.post.get_assigned_writes')
    top = 6 if ctx.thorough else 3
    ctx.bound(f'up to 3 sets of up to {top} writes (all sizes, empty sets included) shared by up to 4 processes')
    for nsets, size in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 4)):
        ctx.run(f'assign {nsets} {size}', assign_body(nsets, top, size), expect=['every write is visited'])


def harnesses(tier):
    return [('assign', h_assign)] + [(f'files-{k}-{m}', h_files(k, m)) for k in MESHES for m in ('gather', 'virtual', 'mpio')]
