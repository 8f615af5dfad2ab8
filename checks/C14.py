"""Outputs fire exactly on schedule: iteration, wall-time and simulation-time cadences and custom schedules."""
import numpy as np

ASSUMPTIONS = ["time values are reals (float rounding of divisions outside the claim)",
               "simulation times strictly increase; exact half-way ties between two output targets excluded",
               "cadence values from a table; start, timesteps and wall-clock increments symbolic"]


def setup(env):
    from dedalus.core import evaluator as E
    from vt.shims import symbolic_module
    import dedalus.public as d3, logging
    logging.disable(logging.CRITICAL)
    symbolic_module(env, E)
    c = d3.CartesianCoordinates('x')
    dist = d3.Distributor(c, dtype=np.float64)
    return E, E.Evaluator(dist, {})


def recorder(E, ev, **kw):
    class Rec(E.Handler):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.log = []

        def process(self, **kw):
            self.log.append(kw)
    return ev.add_handler(Rec(ev.dist, {}, **kw))


class Clock:
    def __init__(self, env, n, iters=1, sim=True, wall=True, t0neg=False):
        # start iteration: iters*q + r covers every nonnegative integer
        self.it0 = iters*env.int('q', 0) + env.choose('r', range(iters)) if iters else 0
        self.t, self.dt, self.w = [], [], []
        t = env.real('t0') if sim else 0.
        if sim and not t0neg:
            env.assume(t >= 0)
        w = env.real('w0') if wall else 0.
        if wall:
            env.assume(w >= 0)
        for j in range(n):
            self.t.append(t)
            self.w.append(w)
            d = env.real(f'dt{j}', pos=True) if sim else 1.
            self.dt.append(d)
            t = t + d
            if wall:
                dw = env.real(f'dw{j}')
                env.assume(dw >= 0)
                w = w + dw
        self.t.append(t)
        self.w.append(w)

    def kw(self, j):
        return dict(iteration=self.it0 + j, wall_time=self.w[j], sim_time=self.t[j], timestep=self.dt[j])


def drive(env, ev, clk, n, hs):
    """run the schedule; returns per handler the list of evaluated steps at which it fired"""
    fired = [[] for h in hs]
    for j in range(n):
        before = [len(h.log) for h in hs]
        ev.evaluate_scheduled(**clk.kw(j))
        for i, h in enumerate(hs):
            k = len(h.log) - before[i]
            env.check(k <= 1, 'a handler is processed at most once per evaluation')
            fired[i].append(k > 0)
            if k:
                got = h.log[-1]
                want = clk.kw(j)
                env.check(set(got) == set(want), 'handlers receive the full schedule information')
                for q in want:
                    env.check(got[q] == want[q], f'handlers receive the current {q}')
    return fired


def floor_(env, x):
    import math
    return math.floor(x)


def want_iter(env, clk, j, n):
    if j == 0:
        return True
    return (clk.it0 + j) % n == 0


def want_wall(env, clk, j, d):
    if j == 0:
        return True
    return floor_(env, clk.w[j]/d) > floor_(env, clk.w[j-1]/d)


def agree(env, got, want, label):
    env.check(want if got else ~want if env.sym and not isinstance(want, (bool, np.bool_)) else (bool(want) if got else not bool(want)), label)


def iter_body(cad, N):
    def body(env):
        E, ev = setup(env)
        clk = Clock(env, N, int(np.lcm.reduce(cad)), sim=False, wall=False)
        hs = [recorder(E, ev, iter=c) for c in cad] + [recorder(E, ev, group='G')]
        fired = drive(env, ev, clk, N, hs)
        for i, c in enumerate(cad):
            for j in range(N):
                agree(env, fired[i][j], want_iter(env, clk, j, c), f'iter={c}: fires on the first iteration and on every multiple, nowhere else')
        env.check(not any(fired[-1]), 'handlers without a schedule never fire on their own')
        ev.evaluate_group('G', **clk.kw(N-1))
        env.check(len(hs[-1].log) == 1 and all(len(h.log) == sum(f) for h, f in zip(hs[:-1], fired)), 'evaluating a group runs exactly its handlers')
    return body


def wall_body(d, N):
    def body(env):
        E, ev = setup(env)
        clk = Clock(env, N, 0, sim=False)
        h = recorder(E, ev, wall_dt=d)
        fired = drive(env, ev, clk, N, [h])[0]
        for j in range(N):
            agree(env, fired[j], want_wall(env, clk, j, d), 'wall_dt: fires first, then whenever a wall-time multiple was passed')
    return body


def cells(env, clk, N, s, neg=False):
    """nearest output target of every time (concrete on each path)"""
    K, last = [], -2 if neg else 0
    for j in range(N):
        k = last + env.choose(f'k{j}', range(4 if j == 0 and neg else 3))
        env.assume((k - 0.5)*s < clk.t[j])
        env.assume(clk.t[j] < (k + 0.5)*s)
        K.append(k)
        last = k
    return K


def sim_body(s, N, neg=False):
    def body(env):
        E, ev = setup(env)
        clk = Clock(env, N, 0, wall=False, t0neg=neg)
        h = recorder(E, ev, sim_dt=s)
        K = cells(env, clk, N, s, neg)
        fired = drive(env, ev, clk, N, [h])[0]
        for j in range(N):
            target = K[j]*s
            here, nxt = abs(clk.t[j] - target), abs(clk.t[j+1] - target)
            done = any(fired[i] and K[i] == K[j] for i in range(j))
            if fired[j]:
                env.check(here < nxt, 'sim_dt: fires only when the next step does not come closer to the target')
                env.check(not done, 'sim_dt: each target fires at most once')
            else:
                env.check(done or here >= nxt, 'sim_dt: the closest approach to every target fires')
    return body


def mixed_body(N):
    def body(env):
        E, ev = setup(env)
        clk = Clock(env, N, 3)
        cells(env, clk, N, 1.5)
        flags = [env.bool(f'c{j}') for j in range(N)]
        calls = [[], []]

        def custom(i):
            def f(**kw):
                calls[i].append(kw)
                return flags[len(calls[i])-1]
            return f
        hs = [recorder(E, ev, iter=3), recorder(E, ev, wall_dt=0.5), recorder(E, ev, sim_dt=1.5), recorder(E, ev, custom_schedule=custom(0)),
              recorder(E, ev, iter=3, wall_dt=0.5, sim_dt=1.5, custom_schedule=custom(1))]
        fired = drive(env, ev, clk, N, hs)
        for c in calls:
            env.check(len(c) == N, 'custom schedules are consulted at every evaluation')
            for j in range(N):
                for q, v in clk.kw(j).items():
                    env.check(c[j][q] == v, f'custom schedules receive the current {q}')
        for j in range(N):
            agree(env, fired[3][j], flags[j], 'custom schedule decides')
            env.check(fired[4][j] == any(f[j] for f in fired[:4]), 'several criteria: fires exactly when any of them does')
    return body


def h_iter(ctx):
    ctx.encodes('evaluator.Handler.check_schedule', 'evaluator.Evaluator.evaluate_scheduled/evaluate_group/evaluate_handlers')
    N = 9 if ctx.thorough else 6
    ctx.bound(f'{N} consecutive iterations from any start; cadences 1,2,3,5,10')
    for cad in ((1, 2), (3, 5), (10, 4)):
        ctx.run(f'iter {cad}', iter_body(cad, N))


def h_wall(ctx):
    ctx.encodes('evaluator.Handler.check_schedule')
    N = 6 if ctx.thorough else 4
    ctx.bound(f'{N} evaluations, any wall-clock increments; cadences 0.25, 60')
    for d in (0.25, 60):
        ctx.run(f'wall {d}', wall_body(d, N))


def h_sim(ctx):
    ctx.encodes('evaluator.Handler.check_schedule')
    N = 5 if ctx.thorough else 4
    ctx.bound(f'{N} evaluations, any start time and timesteps; cadences 0.5, 3')
    for s in (0.5, 3):
        ctx.run(f'sim {s}', sim_body(s, N))
    ctx.run('sim negative start', sim_body(1, 3, True))


def h_mixed(ctx):
    ctx.encodes('evaluator.Handler.check_schedule')
    N = 3 if ctx.thorough else 2
    ctx.bound(f'{N} evaluations with all four criteria')
    ctx.run('mixed', mixed_body(N))


def harnesses(tier):
    return [('sim', h_sim), ('mixed', h_mixed), ('iter', h_iter), ('wall', h_wall)]
