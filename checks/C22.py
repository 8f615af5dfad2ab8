"""Global flow properties are the reductions of the scheduled expression over the whole grid."""
import numpy as np
from vt import scen, geo, lin, mpisim
from checks import C15, C20, C21

ASSUMPTIONS = ["simulated ranks as in C20", "grid integrals and operators: property C11"]
R = np.float64
KINDS = {'R': [()], 'RT': [(2,), (5,)], 'RRT': [(2, 2), (1, 3), (3, 2)], 'disk': [(2,), (3,)], 'ball': [(2, 2)], 'shell': [(2,)], 'cyl': [(2,)]}


# ------------------------------------------------------------------ reductions
def reduce_body(sizes, cplx=False):
    """values scattered over ranks in any way, some of them empty"""
    def body(env):
        d3 = scen.start(env)
        from dedalus.extras import flow_tools as F
        n = sum(sizes)
        vals = [env.real(f'x{i}') for i in range(n)]
        dt = object if env.sym else float
        if env.sym:
            # the buffer of the reducer holds exact numbers
            env.patch(F, 'np', Exact(F.np))

        def prog(rank, comm):
            a = sum(sizes[:rank])
            X = np.array(vals[a:a + sizes[rank]] + [0], dtype=dt)[:-1]
            red = F.GlobalArrayReducer(comm)
            got = [red.global_min(X), red.global_max(X), red.global_mean(X)]
            Y = X.reshape((1, len(X)))
            return got + [red.global_max(Y, empty=0), red.global_min(Y, empty=0)]
        res = mpisim.World(len(sizes)).run(prog)
        for r, (lo, hi, mean, hi0, lo0) in enumerate(res):
            info = f'rank {r} of {sizes}'
            for v in vals:
                env.check(hi >= v, 'the maximum bounds every value', info)
                env.check(lo <= v, 'the minimum bounds every value', info)
            any_ = lambda bs: bs[0] if len(bs) == 1 else bs[0] | any_(bs[1:])
            env.check(any_([v == hi for v in vals]), 'the maximum is one of the values', info)
            env.check(any_([v == lo for v in vals]), 'the minimum is one of the values', info)
            env.same(mean*n, sum(vals), 'the mean is the sum over all ranks by the number of points', tol=1e-9)
            if 0 not in sizes:
                env.same(hi0, hi, 'values for empty ranks are only used there')
                env.same(lo0, lo, 'values for empty ranks are only used there')
            else:
                for v in vals:
                    env.check((hi0 >= v) & (hi0 >= 0) if env.sym else (hi0 >= v and hi0 >= 0), 'values for empty ranks take part', info)
                    env.check((lo0 <= v) & (lo0 <= 0) if env.sym else (lo0 <= v and lo0 <= 0), 'values for empty ranks take part', info)
    return body


class Exact:
    """numpy with buffers of exact numbers"""
    def __init__(self, base):
        self._base = base

    def __getattr__(self, n):
        f = getattr(self._base, n)
        if n in ('zeros', 'empty', 'ones', 'array', 'full', 'asarray'):
            def g(*a, **k):
                if k.get('dtype') in (float, np.float64):
                    k['dtype'] = object
                x = f(*a, **k)
                return x.astype(object) if x.dtype == np.float64 else x
            return g
        return f


SIZES = [(2,), (2, 1), (1, 0, 2), (0, 2), (3, 0), (0, 0, 1), (1, 1, 1), (0, 1, 0, 2)]


def h_reduce(ctx):
    ctx.encodes('extras.flow_tools.GlobalArrayReducer')
    ctx.bound(f'up to {"4" if ctx.thorough else "3"} symbolic values over up to 4 ranks, empty ones included: {SIZES}')
    for s in SIZES + ([(2, 2), (1, 3), (0, 4), (2, 0, 1, 1)] if ctx.thorough else []):
        ctx.run(f'reduce {s}', reduce_body(s), expect=['the maximum is one of the values', 'the mean is the sum over all ranks by the number of points'])


# ------------------------------------------------------------------ properties
class Known:
    """fixed numbers in place of symbols"""
    def __init__(self, p, seed):
        self.p, self.seed = p, seed

    def sym(self, name, shape, complex=False):
        return np.random.default_rng(self.seed).standard_normal(shape)


def prog(kind, cadence, seen):
    def run(p):
        d3, env = p.d3, p.env
        from dedalus.extras import flow_tools as F
        g = C15.setting(d3, kind)
        sol = C15.solver(d3, g)
        u, v, s = g.F[:3]
        flow = F.GlobalFlowProperty(sol, cadence=cadence)
        # operators keep their outputs, so the reference is evaluated from operators of its own
        make = lambda: [('u', u, False), ('q', 3*u + s, True), ('p', u*u, True), ('w', u*u + 1, False), ('s', 2*s, False)]
        props = make()
        for nm, e, pre in props:
            flow.add_property(e, name=nm, precompute_integral=pre)
        for k in range(4):
            # even events with arbitrary data, odd ones with numbers whose extrema are known
            for f in (u, s):
                C21.state(p if k % 2 == 0 else Known(p, k), f, f'e{k}_{f.name}')
            evaluated = (k if cadence == 1 else 0 if k < 2 else 2)
            sol.evaluator.evaluate_scheduled(iteration=k, sim_time=0., wall_time=0., timestep=0.)
            if evaluated == k:
                want = {}
                for nm, e, pre in make():
                    x = e.copy() if hasattr(e, 'data') else e.evaluate().copy()
                    x.change_layout('c')
                    x.change_scales(1)
                    data = x.allgather_data('g')
                    tot = d3.integ(x).evaluate().allgather_data('g') if nm != 's' else None
                    want[nm] = data, tot
            for rd in range(2):
                for nm, e, pre in (props if rd == 0 else props[::-1]):
                    data, tot = want[nm]
                    n = int(np.prod(data.shape))
                    info = f'{nm} event {k} {p.mesh} rank {p.comm.rank}'
                    p_ = flow.grid_average(nm)
                    env.equal(p_, np.sum(data)/n, 'averages are means over the whole grid', tol=1e-9, info=info)
                    seen['avg'] = True
                    if nm != 's':
                        env.equal(flow.volume_integral(nm), np.ravel(tot)[0], 'integrals are those of the property', tol=1e-8, info=info)
                    if evaluated % 2 == 1 or nm == 's':
                        d = concrete(data)
                        if d is not None:
                            env.check(bool(abs(number(flow.max(nm)) - d.max()) < 1e-9 and abs(number(flow.min(nm)) - d.min()) < 1e-9), 'extrema are those of the whole grid', f'{info} rd {rd} {number(flow.max(nm))} {d.max()} {number(flow.min(nm))} {d.min()} {flow.properties[nm].scales}')
                    p.value(f'{nm} {k} {rd}', p_)
    return run


def concrete(x):
    c = x._const() if isinstance(x, lin.LinArray) else np.asarray(x)
    return c


def number(x):
    c = concrete(x)
    return float(np.ravel(c)[0])


def flow_body(kind, cadence, meshes):
    def body(env):
        d3 = scen.start(env)
        from dedalus.core import distributor
        tr = mpisim.load_transposes(env)
        env.stub(distributor, 'TransposePlanner', tr.FFTWTranspose)
        store, seen = {}, {}
        ref = C20.on_mesh(env, d3, prog(kind, cadence, seen), (1,), store)[0]
        for mesh in meshes:
            if mesh:
                res = C20.on_mesh(env, d3, prog(kind, cadence, seen), mesh, store)
                C20.compare(env, ref, res, mesh, 1e-9)
        env.check(seen.get('avg', False), 'properties evaluated')
    return body


def h_flow(kind):
    def h(ctx):
        ctx.encodes('extras.flow_tools.GlobalFlowProperty', 'extras.flow_tools.GlobalArrayReducer', 'evaluator.DictionaryHandler')
        ctx.bound('five properties (plain field, sums, products, constants), integrals precomputed or not, queried repeatedly and in both orders, cadences 1 and 2; ' + str(KINDS))
        for cad in (1, 2):
            ctx.run(f'flow {kind} {cad}', flow_body(kind, cad, KINDS[kind]), expect=['averages are means over the whole grid', 'integrals are those of the property'])
    return h


def harnesses(tier):
    return [('reduce', h_reduce)] + [(f'flow-{k}', h_flow(k)) for k in KINDS]
