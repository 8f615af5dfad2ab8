"""Initial value runs start, step, and stop exactly as configured."""
import numpy as np

ASSUMPTIONS = ["wall-clock readings are real and nondecreasing", "times are reals (float rounding outside the claim)"]
R, C = np.float64, np.complex128


def make(env, dtype=R, steps=1, t0=None, cadence=None, warmup=10, nvar=1):
    """A real solver, with the clock, the time field and the timestepper's step replaced by recorders."""
    import dedalus.public as d3, logging
    from dedalus.core import solvers
    logging.disable(logging.CRITICAL)
    c = d3.Coordinate('x')
    dist = d3.Distributor(c, dtype=dtype)
    b = (d3.RealFourier if dtype is R else d3.ComplexFourier)(c, 4, bounds=(0, 1))
    us = [dist.Field(name=f'u{i}', bases=b) for i in range(nvar)]
    t = dist.Field(name='t')
    if t0 is not None:
        t['g'] = t0
    ns = {u.name: u for u in us}
    p = d3.IVP(us, time=t, namespace=ns)
    for u in us:
        p.add_equation(f"dt({u.name}) = 0")
    kw = dict(warmup_iterations=warmup)
    if cadence is not None:
        kw['enforce_real_cadence'] = cadence
    s = p.build_solver({1: 'SBDF1', 2: 'SBDF2', 3: 'SBDF3'}[steps], **kw)
    log = []

    class Clock:
        n = 0
        now = None
    clk = Clock()

    class Solver(type(s)):
        # symbolic times cannot be stored in the real time field
        sim_time = property(lambda self: self._sim_time, lambda self, v: setattr(self, '_sim_time', v))
    if env is not None and env.sym:
        s.__class__ = Solver
    s.world_clock = clk

    import types
    from vt.shims import symbolic_module
    if env.sym:
        symbolic_module(env, solvers)
    env.stub(solvers, 'time', types.SimpleNamespace(time=lambda: clk.now))
    return s, clk, log


def h_proceed(ctx):
    ctx.encodes('solvers.InitialValueSolver.proceed', 'solvers.InitialValueSolver.wall_time')
    ctx.bound('all simulation times, iterations, clock readings and stop values, each criterion set or left at infinity')

    def body(env, stops):
        s, clk, log = make(env)
        inf = float('inf')
        t = env.real('t')
        it = env.int('it', 0)
        clk.now = env.real('now')
        s.init_time = env.real('init')
        s.sim_time, s.iteration = t, it
        ts = env.real('ts') if 't' in stops else inf
        ws = env.real('ws') if 'w' in stops else inf
        ns = env.int('ns') if 'n' in stops else inf
        if 't' in stops: s.stop_sim_time = ts
        if 'w' in stops: s.stop_wall_time = ws
        if 'n' in stops: s.stop_iteration = ns
        env.check(bool(s.wall_time == clk.now - s.init_time), 'wall time is measured from instantiation')
        done = False
        if 't' in stops: done = done or bool(t >= ts)
        if 'w' in stops: done = done or bool(clk.now - s.init_time >= ws)
        if 'n' in stops: done = done or bool(it >= ns)
        env.check(bool(s.proceed) == (not done), 'a run proceeds exactly until one of the stop conditions is met')
    for stops in ('', 't', 'w', 'n', 'tw', 'tn', 'wn', 'twn'):
        ctx.run(f'proceed {stops}', lambda env, stops=stops: body(env, stops), expect=['a run proceeds exactly until one of the stop conditions is met'])


def h_step(ctx):
    ctx.encodes('solvers.InitialValueSolver.step', 'solvers.InitialValueSolver.enforce_hermitian_symmetry')
    ctx.bound('all timesteps, clocks and iterations (cadences 1-5 and 100, multistep orders 1-3, fresh and restarted runs); two consecutive steps; real and complex problems')

    def body(env, dtype, steps, cadence, warmup):
        s, clk, log = make(env, dtype, steps, cadence=cadence, warmup=warmup)
        calls, sym = [], []

        def tstep(dt, wall_time):
            calls.append((dt, wall_time, s.iteration))
            s.sim_time = s.sim_time + dt
        env.stub(s.timestepper, 'step', tstep)
        env.stub(s.evaluator, 'require_grid_space', lambda f: sym.append('g%d' % len(f)))
        env.stub(s.evaluator, 'require_coeff_space', lambda f: sym.append('c%d' % len(f)))
        per = cadence or 1
        it0 = per*env.int('q', 0) + env.choose('r', sorted({0, 1, 2, 3, 4, per-1} & set(range(per))))
        off = env.choose('off', [0, 1, warmup]) # iterations since the start of this run
        env.assume(it0 >= off)
        s.initial_iteration = it0 - off
        s.iteration = it0
        s.sim_time = t = env.real('t')
        s.init_time = env.real('init')
        clk.now = now = env.real('now')
        s.warmup_time_start = s.warmup_time_end = s.run_time_start = 0
        for k in range(2):
            dt = env.real(f'dt{k}')
            sym.clear()
            s.step(dt)
            env.check(len(calls) == k+1, 'one timestep taken per step')
            env.check(bool(calls[-1][0] == dt), 'the given timestep is used')
            env.check(bool(calls[-1][1] == now - s.init_time), 'the timestepper gets the current wall time')
            env.check(bool(calls[-1][2] == it0 + k), 'the timestepper sees the iteration before the step')
            env.check(bool(s.iteration == it0 + k + 1), 'the iteration advances by one')
            env.check(bool(s.dt == dt), 'the last timestep is recorded')
            t = t + dt
            env.check(bool(s.sim_time == t), 'simulation time advanced by the timestepper')
            if dtype is R and cadence:
                # enough consecutive enforcements to cover the stored history of the scheme
                due = bool((it0 + k) % cadence < steps)
                env.check((sym == ['g1', 'c1']) == due, 'real fields are symmetrized for as many steps as the scheme keeps, every cadence')
                env.check(due or not sym, 'no other symmetrization')
            else:
                env.check(not sym, 'nothing is symmetrized in complex problems or without a cadence')
    for dtype, steps, cadence, warmup in ((R, 1, 1, 2), (R, 1, 3, 10), (R, 2, 5, 2), (R, 3, 5, 10), (R, 3, 2, 10), (R, 2, 100, 10), (R, 1, 0, 10), (C, 2, 3, 10)):
        a_ = (dtype, steps, cadence, warmup)
        ctx.run(f'step {np.dtype(dtype)} steps={steps} cadence={cadence} warmup={warmup}',
                lambda env, a=(dtype, steps, cadence, warmup): body(env, *a), expect=['the iteration advances by one', 'no other symmetrization' if a_[0] is R and a_[2] else 'nothing is symmetrized in complex problems or without a cadence'])

    def bad(env):
        s, clk, log = make(env)
        clk.now = 1.
        calls = []
        env.stub(s.timestepper, 'step', lambda *a: calls.append(a))
        dt = env.choose('dt', [float('nan'), float('inf'), -float('inf')])
        it = s.iteration
        try:
            s.step(dt)
        except Exception:
            env.check(not calls and s.iteration == it, 'a non-finite timestep is rejected before anything changes')
        else:
            env.fail('a non-finite timestep is rejected before anything changes')
    ctx.run('non-finite timestep', bad)


def h_symm(ctx):
    """Symmetrization really projects the state onto real fields."""
    ctx.encodes('solvers.InitialValueSolver.enforce_hermitian_symmetry', 'evaluator.Evaluator.require_grid_space/require_coeff_space')
    ctx.bound('one 1D and one 2D Fourier problem, all coefficient data, one and two variables')

    def body(env, two):
        from vt import scen
        d3 = scen.start(env)
        cs = d3.CartesianCoordinates('x', 'y')
        dist = d3.Distributor(cs, dtype=R)
        bx, by = d3.RealFourier(cs['x'], 4, bounds=(0, 1), dealias=1.5), d3.RealFourier(cs['y'], 6, bounds=(0, 1))
        u = dist.Field(name='u', bases=(bx, by))
        v = dist.VectorField(cs, name='v', bases=by)
        vs = [u, v] if two else [u]
        p = d3.IVP(vs, namespace=dict(u=u, v=v))
        for w in vs:
            p.add_equation(f"dt({w.name}) = 0")
        s = p.build_solver('RK111')
        datas = []
        for w in vs:
            w.preset_layout('c')
            x = env.array(w.name, w.data.shape)
            w['c'] = x
            datas.append(x)
        s.enforce_hermitian_symmetry(s.state)
        for w, x in zip(vs, datas):
            got = w['c']
            # the sine slot of each constant mode is not a representable function; everything else is kept
            ref = 1*x
            for ax, b in ((-2, bx), (-1, by)):
                if b in w.domain.bases:
                    ix = [slice(None)]*ref.ndim
                    ix[ax] = slice(1, 2)
                    ref[tuple(ix)] = 0*ref[tuple(ix)]
            env.equal(got, ref, 'symmetrization keeps exactly the real part of the state')
    for two in (False, True):
        ctx.run(f'symmetrize {two}', lambda env, two=two: body(env, two), expect=['symmetrization keeps exactly the real part of the state'])


def h_evolve(ctx):
    ctx.encodes('solvers.InitialValueSolver.evolve', 'solvers.InitialValueSolver.log_stats')
    ctx.bound('up to 4 steps; all start and stop values, clocks and timesteps; warmup 0-3; log cadence 1-3')

    def body(env, stops, N, warmup, logc):
        s, clk, log = make(env, warmup=warmup)
        import logging
        calls, asked = [], []
        t = t0 = env.real('t0')
        it0 = env.int('it0', 0)
        s.sim_time = s.initial_sim_time = t0
        s.iteration = s.initial_iteration = it0
        s.init_time = 0
        w = [env.real('w0')]
        env.assume(w[0] > 0)
        clk.now = w[0]
        dts = []

        def fn():
            k = len(dts)
            d = env.real(f'dt{k}', pos=True)
            dts.append(d)
            asked.append(s.iteration)
            return d

        def tstep(dt, wall_time):
            calls.append((dt, wall_time))
            s.sim_time = s.sim_time + dt
            d = env.real(f'dw{len(w)}', pos=True)
            w.append(w[-1] + d)
            clk.now = w[-1]
        env.stub(s.timestepper, 'step', tstep)
        env.stub(s, 'enforce_real_cadence', None)
        inf = float('inf')
        ts = ws = ns = None
        if 't' in stops: ts = s.stop_sim_time = env.real('ts')
        if 'w' in stops: ws = s.stop_wall_time = env.real('ws')
        if 'n' in stops: ns = s.stop_iteration = env.int('ns')
        # reference run
        class TooLong(Exception): pass
        orig = s.timestepper.step
        def guard(dt, wall_time):
            if len(calls) >= N:
                raise TooLong
            orig(dt, wall_time)
        env.stub(s.timestepper, 'step', guard)
        import contextlib
        try:
            s.evolve(fn, log_cadence=logc)
            ended = True
        except TooLong:
            ended = False
        except ValueError as e:
            env.check(not stops, 'a run without stopping criterion is refused, and only then')
            env.check(not calls, 'no step is taken by a refused run')
            return
        env.check(bool(stops), 'a run without stopping criterion is refused')
        def done(k):
            tk = t0
            for d in dts[:k]:
                tk = tk + d
            return ((ts is not None and bool(tk >= ts)) or (ws is not None and bool(w[k] >= ws)) or (ns is not None and bool(it0 + k >= ns)))
        n = len(calls)
        for k in range(n):
            env.check(not done(k), 'no step is taken once a stop condition holds')
        if ended:
            env.check(done(n), 'the run continues until a stop condition holds')
            env.check(bool(s.iteration == it0 + n), 'iterations are counted')
            env.check(len(dts) == n, 'one timestep is requested per iteration')
        for k in range(n):
            env.check(bool(calls[k][0] == dts[k]), 'requested timesteps are used in order')
            env.check(bool(asked[k] == it0 + k), 'timesteps are requested at the current iteration')
            env.check(bool(calls[k][1] == w[k]), 'wall time of the step is current')
    for stops, N, wu, lc in (('', 1, 10, 1), ('t', 3, 10, 1), ('w', 3, 0, 2), ('n', 3, 1, 3), ('tn', 3, 2, 2), ('twn', 2, 1, 1), ('n', 4, 3, 2)):
        ctx.run(f'evolve stop={stops} N={N} warmup={wu} log={lc}', lambda env, a=(stops, N, wu, lc): body(env, *a),
                expect=['a run without stopping criterion is refused, and only then'] if not stops else ['the run continues until a stop condition holds'])


def h_init(ctx):
    """Initial attributes, time field, statistics."""
    ctx.encodes('solvers.InitialValueSolver.__init__', 'solvers.InitialValueSolver.sim_time', 'solvers.InitialValueSolver.log_stats')
    ctx.bound('symbolic initial times (via the time field data); concrete problem')

    def body(env, dtype):
        from dedalus.core import solvers
        from vt import scen
        d3 = scen.start(env)
        t0 = env.array('t0', (1,))
        c = d3.Coordinate('x')
        dist = d3.Distributor(c, dtype=dtype)
        b = (d3.RealFourier if dtype is R else d3.ComplexFourier)(c, 4, bounds=(0, 1))
        u = dist.Field(name='u', bases=b)
        t = dist.Field(name='t')
        t['g'] = t0[0]
        if env.sym:
            class Comm:
                def __getattr__(self, n):
                    return getattr(comm, n)
                def allreduce(self, x, op=None):
                    return x
            comm = dist.comm_cart
            env.patch(dist, 'comm_cart', Comm())
        if env.sym:
            # the maximum over the (spatially constant) local time data
            from vt.shims import SymNp
            class N_(SymNp):
                def max(self, x, *a, initial=None, **k):
                    from vt.lin import LinArray
                    if isinstance(x, LinArray):
                        return x.reshape(-1)[0]
                    return np.max(x, *a, initial=initial, **k) if initial is not None else np.max(x, *a, **k)
                amax = max
            env.patch(solvers, 'np', N_(np))
        p = d3.IVP([u], time=t, namespace=dict(u=u, t=t))
        p.add_equation("dt(u) = t*u")
        s = p.build_solver('RK111')
        env.equal(np.asarray(s.sim_time, dtype=object) if not hasattr(s.sim_time, 'shape') else s.sim_time, t0[0], 'the run starts at the time of the time field')
        env.equal(s.initial_sim_time, t0[0], 'initial time recorded')
        env.equal(np.ravel(t['g'])[0] if not env.sym else t['g'].reshape(-1)[0], t0[0], 'the time field keeps the initial time')
        t1 = env.array('t1', (1,))
        s.sim_time = t1[0]
        env.equal(t['g'].reshape(-1)[0], t1[0], 'setting the simulation time updates the time field')
        env.check(s.iteration == 0 and s.initial_iteration == 0, 'iterations start at zero')
        env.check(s.proceed_ok if hasattr(s, 'proceed_ok') else np.isinf(s.stop_sim_time) and np.isinf(s.stop_wall_time) and np.isinf(s.stop_iteration), 'no stop condition by default')
    def sign(env):
        from dedalus.core import solvers
        import dedalus.public as d3, logging
        from vt.shims import symbolic_module
        logging.disable(logging.CRITICAL)
        c = d3.Coordinate('x')
        dist = d3.Distributor(c, dtype=R)
        u = dist.Field(name='u', bases=d3.RealFourier(c, 4, bounds=(0, 1)))
        p = d3.IVP([u], namespace=dict(u=u))
        p.add_equation("dt(u) = 0")
        t0 = env.real('t0')

        class Store(dict):
            pass
        if env.sym:
            symbolic_module(env, solvers)
            p.time = Store(g=np.array([t0], dtype=object))

            class Comm:
                def __getattr__(self, n):
                    return getattr(comm, n)
                def allreduce(self, x, op=None):
                    return x
            comm = dist.comm_cart
            env.patch(dist, 'comm_cart', Comm())
        else:
            p.time['g'] = t0
        s = p.build_solver('RK111')
        env.check(bool(s.sim_time == t0) and bool(s.initial_sim_time == t0), 'the run starts at the time of the time field, whatever its sign')
    ctx.run('initial time', sign)
    for dtype in (R,):
        ctx.run(f'init {np.dtype(dtype)}', lambda env, dtype=dtype: body(env, dtype))


def harnesses(tier):
    return [('proceed', h_proceed), ('step', h_step), ('symm', h_symm), ('evolve', h_evolve), ('init', h_init)]
