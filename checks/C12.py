"""Evaluating outputs together, repeatedly or in any order gives each output's own value."""
import itertools, random
import numpy as np
from vt import scen, geo, lin
from checks import C20

ASSUMPTIONS = ["operators and transforms themselves: properties C06-C11; here each output evaluated alone is the reference",
               "operand data: arbitrary combinations of two generic fields each, representable on all grids; agreement to 1e-9"]
R, C = np.float64, np.complex128
EACH = 'outputs evaluated together equal each output evaluated alone'
KEEP = 'operands keep their data through evaluations'

KINDS = ('RT', 'CT', 'TR', 'RRT', 'CTL', 'disk', 'diskC', 'annulus', 'sphere', 'sphereC', 'ball', 'ballC', 'shell', 'cyl', 'cylT')
PARTS = {'RRT': 3, 'CTL': 3, 'shell': 3, 'ball': 2, 'cyl': 3, 'cylT': 3, 'ballC': 3, 'annulus': 1, 'disk': 1}


class Data(C20.Rank):
    """Arbitrary combinations of two generic fields per operand: outputs are linear in them, so that an output that is right for
    these is right for all (up to a measure-zero set of the generic fields)."""
    def sym(self, name, shape, complex=False):
        key = name, tuple(int(n) for n in shape), complex
        if key not in self.store:
            rng = np.random.default_rng([ord(c) for c in name])
            a = self.env.array(name, (2,), complex=complex)
            X = rng.standard_normal(key[1] + (2,))
            if complex:
                X = X + 1j*rng.standard_normal(key[1] + (2,))
            self.store[key] = X@a if not key[1] else scen.along(X.reshape(-1, 2), a, 0).reshape(key[1])
        return self.store[key]


class World:
    def __init__(self, env, kind):
        self.env = env
        self.d3 = scen.start(env)
        self.g = C20.GEO[kind][0](self.d3)
        self.store = {}
        self.rank = Data(env, self.d3, 0, None, (1,), self.store, [])
        self.o = C20.Ops(self.rank, self.g, kind)
        self.fields = [f for f in [self.o.u, self.o.v, self.o.T] + list(self.o.n.values()) + list(self.o.s.values()) if f is not None]
        for f in self.fields:
            self.band(f)

    def band(self, f):
        """low radial modes only: raising k truncates, in coefficient space alone"""
        if self.o.kind in ('cylT', 'annulus', 'shell') and f.domain.bases:
            f['c']
            f.data[..., 2:] = 0

    def list(self, part, parts):
        L = C20.expressions(self.o)
        out = []
        for nm, fn in L[part::parts]:
            if 'lift' in nm and self.o.kind in ('cyl', 'cylT', 'ballC'):
                continue          # the highest modes are not representable without dealiasing
            if nm == 'theta':
                continue          # fields locked to several layouts cannot be factors of outputs (loud)
            self.o.fresh()
            try:
                fn().evaluate()
            except Exception:
                continue      # refused combinations
            out.append((nm, fn))
        return out

    def alone(self, fn):
        """an output evaluated on its own, from scratch"""
        self.o.fresh()
        return self.take(fn().evaluate())

    def take(self, f):
        """its own copy of the field, in coefficient space"""
        f = self.unlocked(f)
        f.change_layout('c')
        return f

    def unlocked(self, f):
        if type(f).__name__ != 'LockedField':
            return f.copy()
        h = type(self.o.u)(self.g.dist, bases=f.domain.bases, tensorsig=f.tensorsig, dtype=f.dtype)
        h.preset_scales(f.scales)
        h.preset_layout(f.layout)
        h.data[...] = f.data
        return h

    def same(self, f, want, what=EACH, info='', delivered=False):
        """the same function on the grid (coefficients that no grid represents do not matter)"""
        f, w = self.unlocked(f), want.copy()
        if not delivered:
            f.change_layout('c')     # products are truncated
        if f.layout is f.dist.coeff_layout:
            f.change_scales(f.domain.dealias)
        scales = f.scales
        w.change_scales(scales)
        f.change_layout('g')
        w.change_layout('g')
        self.env.check(tuple(f.data.shape) == tuple(w.data.shape), what, f'{info}: shape {f.data.shape} vs {w.data.shape}')
        if w.data.size:
            self.env.equal(f.data, w.data, what, tol=1e-9, info=info)

    def keep(self):
        out = []
        for f in self.fields:
            out.append(self.take(f))
        return out

    def kept(self, data, info):
        for f, x in zip(self.fields, data):
            self.same(f, x, KEEP, f'{info}: {f.name}')

    def change(self, tag):
        """new arbitrary data"""
        for f in (self.o.u, self.o.v, self.o.T):
            if f is not None:
                self.rank.fill(f, f'{tag}{f.name}')
                f['c']
                self.band(f)


def derived(d3, w, e, f, rng):
    """outputs sharing the operator object e"""
    n = w.o.n
    D = [('2e', lambda: 2*e, lambda: 2*f()), ('e+e', lambda: e + e, lambda: f() + f()), ('-e', lambda: -e, lambda: -f()),
         ('coeff', lambda: d3.Coeff(e), lambda: d3.Coeff(f())), ('e-3e', lambda: e - 3*e, lambda: f() - 3*f()),
         ('e*const', lambda: e*n['const'], lambda: f()*n['const']),
         ('grid', lambda: d3.Grid(e), lambda: d3.Grid(f())), ('lap', lambda: d3.lap(e), lambda: d3.lap(f())), ('grad', lambda: d3.grad(e), lambda: d3.grad(f())),
         ('lap+', lambda: d3.lap(e) + n['const']*e, lambda: d3.lap(f()) + n['const']*f())]
    rng.shuffle(D)
    return D


def shared_body(kind, part, parts, thorough):
    def body(env):
        w = World(env, kind)
        d3, o = w.d3, w.o
        from dedalus.core.evaluator import Evaluator
        from dedalus.core import field as F
        L = w.list(part, parts)
        rng = random.Random(f'{kind}{part}')
        ref = {nm: w.alone(fn) for nm, fn in L}
        nz = [np.ravel(x.data) for x in ref.values() if x.data.size][:10]
        env.nonzero(np.concatenate(nz), 'outputs')
        keep = w.keep()
        lay = w.g.dist.layouts
        # --- groups of expressions, each appearing in several outputs
        size = 5
        rng.shuffle(L)
        for c in range(0, len(L), size):
            chunk = L[c:c+size]
            T = []       # name, operator, reference
            for nm, fn in chunk:
                e = fn()
                T.append((nm, e, ref[nm]))
                if rng.random() < .5:
                    T.append((nm + ' again', e, ref[nm]))
                k = 0
                for dn, mk, mkf in derived(d3, w, e, fn, rng):
                    if k >= 2:
                        break
                    try:
                        x = w.alone(mkf)
                        op = mk()
                    except Exception:
                        continue
                    k += 1
                    T.append((f'{nm} {dn}', op, x))
            for f in (o.u, o.s['const'], o.n['full']):
                if rng.random() < .5:
                    f.change_layout('c')
                    T.append((f'field {f.name}', f, w.take(f)))
            rng.shuffle(T)
            ev = Evaluator(w.g.dist, {})
            H = [ev.add_dictionary_handler(iter=1, group='a'), ev.add_system_handler(iter=1), ev.add_dictionary_handler(iter=2)]
            where = []
            for i, (nm, op, x) in enumerate(T):
                h = H[rng.randrange(3)]
                locked = op.layouts[0] if type(op).__name__ == 'Lock' else None
                h.add_task(op, name=f'{i}', **(dict(layout=locked) if locked else dict(layout=rng.choice(['c', 'g', lay[len(lay)//2]]), scales=rng.choice([None, 1, 2, 1.5, .5]))))
                where.append((h, len(h.tasks) - 1))
            H[1].build_system()
            def check(which, when, refs):
                for (nm, op, x), (h, j) in zip(T, where):
                    if h in which:
                        out = h.fields[j] if h is H[1] else h[h.tasks[j]['name']]
                        if h is not H[1] and type(out).__name__ != 'LockedField':
                            env.check(out.layout is h.tasks[j]['layout'] and tuple(out.scales) == tuple(h.tasks[j]['scales']), 'outputs are delivered in the requested layout and scales', f'{nm}: {out.layout.index} {out.scales}')
                        w.same(out, x if refs is None else refs[nm], info=f'{nm} {when}', delivered=type(out).__name__ != 'LockedField')
            o.fresh()
            ev.evaluate_scheduled(iteration=0)
            check(H, 'first time', None)
            w.kept(keep, 'first evaluation')
            # the same again, in different initial layouts, and parts only
            for f in w.fields:
                f.change_scales(rng.choice([1, 2, 1.5]))
                f.change_layout(rng.choice(lay))
            ev.evaluate_scheduled(iteration=1)
            check(H[:2], 'second time', None)
            ev.evaluate_handlers([H[2], H[0]], iteration=2)
            check([H[2], H[0]], 'reordered handlers', None)
            ev.evaluate_group('a')
            check(H[:1], 'one group', None)
            w.kept(keep, 'repeated evaluation')
        # --- new data: nothing is remembered
        E = [(nm, fn, fn()) for nm, fn in L]
        ev = Evaluator(w.g.dist, {})
        D = ev.add_dictionary_handler(iter=1)
        for nm, fn, e in E:
            D.add_task(e, name=nm, layout='c')
        for i, x in enumerate([o.u, o.v]):
            D.add_task(x, name=f'field {i}', layout='c')
        o.fresh()
        before = [w.take(o.u), w.take(o.v)]
        o.fresh()
        ev.evaluate_scheduled(iteration=0)
        w.change('new')
        for i, x in enumerate(before):
            w.same(D[f'field {i}'], x, 'outputs of fields are not the fields themselves', info=f'field {i}')
        for nm, fn, e in E:
            w.same(D[nm], ref[nm], info=f'{nm} kept when the data change')
        ref2 = {nm: w.alone(fn) for nm, fn in L}
        o.fresh()
        ev.evaluate_scheduled(iteration=1)
        for nm, fn, e in E:
            w.same(D[nm], ref2[nm], info=f'{nm} after a change of data')
        for nm, fn, e in E:
            w.same(e.evaluate(), ref2[nm], info=f'{nm} evaluated alone after evaluations together')
        # within one evaluation, identified by the caller, results are shared
        for nm, fn, e in E[:3]:
            a = e.evaluate(id='x')
            b = e.evaluate(id='x')
            w.same(a, ref2[nm], info=f'{nm} with an id')
            w.same(b, ref2[nm], info=f'{nm} with the same id')
        w.change('newer')
        for nm, fn, e in E[:3]:
            x = w.alone(fn)
            w.same(e.evaluate(id='y'), x, info=f'{nm} with another id')
            w.same(e.evaluate(), x, info=f'{nm} without id')
    return body


def storage_body(kind, outputs, last):
    """the memory options change nothing"""
    inner = shared_body(kind, 0, 3, False)
    def body(env):
        scen.start(env)
        from dedalus.core import future
        env.stub(future, 'STORE_OUTPUTS', outputs)
        env.stub(future.Future, 'store_last', last)
        inner(env)
    return body


def h_shared(kind, part):
    def h(ctx):
        ctx.encodes('evaluator.Evaluator', 'evaluator.Handler.add_task', 'evaluator.DictionaryHandler', 'evaluator.SystemHandler', 'future.Future.evaluate/attempt/get_out', 'distributor.Transform/Transpose.increment/decrement (groups)', 'operators.*, arithmetic.*: check_conditions/enforce_conditions/operate')
        parts = PARTS.get(kind, 1)
        ctx.run(f'shared {kind} {part}', shared_body(kind, part, parts, ctx.thorough), expect=[EACH, KEEP])
        ctx.bound(f'{kind}: every expression of the table with two outputs derived from it, groups of five, three handlers, five evaluations, two changes of data')
    return h


def h_storage(kind):
    def h(ctx):
        for outputs, last in itertools.product((True, False), (True, False)):
            if not (outputs and last):
                ctx.run(f'storage {kind} {outputs} {last}', storage_body(kind, outputs, last), expect=[EACH, KEEP])
    return h


# ------------------------------------------------------------------ right-hand sides
RHS = 'right-hand sides equal the expressions given, however many equations share them'


def rhs_body(kind, problem):
    """right-hand sides sharing operators between equations, with outputs and with other solvers"""
    def body(env):
        w = World(env, kind)
        d3, o, g = w.d3, w.o, w.g
        n = o.n
        X = [C20.field(g, g.bases, 0, f'x{i}') for i in range(4)]
        Y = [C20.field(g, g.bases, 1, f'y{i}') for i in range(3)]
        f = n['full']*o.u
        q = n['vfull']@d3.grad(o.u)
        G = n['full']*o.v
        # equations: shared objects, sums of shared objects, nested use
        R0 = [f, f, q + f, f + q]
        R1 = [G, G, d3.grad(f)]
        fresh = [lambda: n['full']*o.u, lambda: n['full']*o.u, lambda: n['vfull']@d3.grad(o.u) + n['full']*o.u, lambda: n['full']*o.u + n['vfull']@d3.grad(o.u)]
        fresh += [lambda: n['full']*o.v, lambda: n['full']*o.v, lambda: d3.grad(n['full']*o.u)]
        def make():
            if problem == 'IVP':
                P = d3.IVP(X + Y)
                lhs = lambda x: d3.dt(x)
            else:
                P = d3.LBVP(X + Y)
                lhs = lambda x: 2*x
            for x, r in zip(X + Y, R0 + R1):
                P.add_equation((lhs(x), r))
            return P
        P = make()
        S = P.build_solver('RK111') if problem == 'IVP' else P.build_solver()
        D = S.evaluator.add_dictionary_handler(iter=1)
        D.add_task(f, name='f', layout='g', scales=1)
        D.add_task(q, name='q', layout='c')
        its = itertools.count()
        def evaluate(s):
            o.fresh()
            s.evaluator.evaluate_scheduled(iteration=next(its), wall_time=0, sim_time=0, timestep=1)
        def check(s, when):
            refs = [w.alone(x) for x in fresh]
            out = s.F
            for i, x in enumerate(refs):
                w.same(out[i], x, RHS, f'equation {i} {when}')
        evaluate(S)
        check(S, 'first time')
        if D.fields:
            w.same(D['f'], w.alone(fresh[0]), info='output of a shared right-hand side')
        w.change('b')
        evaluate(S)
        check(S, 'after a change')
        # a second solver of the same problem leaves the first one working
        S2 = P.build_solver('SBDF2') if problem == 'IVP' else P.build_solver()
        w.change('c')
        evaluate(S2)
        check(S2, 'in a second solver')
        w.change('d')
        evaluate(S)
        check(S, 'in the first solver, after building a second')
        # evaluating outputs in between does not disturb the next evaluation
        S.evaluator.evaluate_handlers([D], iteration=0, wall_time=0, sim_time=0, timestep=1)
        w.change('e')
        evaluate(S)
        check(S, 'after evaluating outputs alone')
    return body


def h_rhs(kind, problem):
    def h(ctx):
        ctx.encodes('evaluator.SystemHandler', 'solvers.*Solver.__init__ (right-hand side handlers)', 'problems.*.add_equation')
        ctx.run(f'rhs {problem} {kind}', rhs_body(kind, problem), expect=[RHS])
        ctx.bound('right-hand sides: seven equations sharing operators, two solvers of one problem, outputs of the same operators')
    return h


def harnesses(tier):
    out = []
    for k in KINDS:
        for i in range(PARTS.get(k, 1)):
            out.append((f'shared-{k}-{i}', h_shared(k, i)))
    for k in ('RT', 'disk', 'shell') if tier == 'quick' else KINDS:
        out.append((f'storage-{k}', h_storage(k)))
    for k in ('RT', 'sphere', 'ball', 'cyl'):
        for p in ('IVP', 'LBVP'):
            out.append((f'rhs-{p}-{k}', h_rhs(k, p)))
    return out
