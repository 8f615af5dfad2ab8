"""Multistep IMEX coefficients: consistency of the documented order for every step-size history, incl. start-up."""
import numpy as np
from fractions import Fraction

ASSUMPTIONS = ["reals instead of floats for step sizes; identities hold exactly or to 1e-9 relative",
               "all step sizes strictly positive",
               "numpy array constructors inside the coefficient functions are replaced by object arrays"]

# documented order (name / docstring), published constant-step values [Wang & Ruuth 2008], implicit-part weights
SPEC = {
    'CNAB1': (1, ([1, -1], [.5, .5], [0, 1])),
    'SBDF1': (1, ([1, -1], [1, 0], [0, 1])),
    'CNAB2': (2, ([1, -1, 0], [.5, .5, 0], [0, 1.5, -.5])),
    'MCNAB2': (2, ([1, -1, 0], [9/16, 3/8, 1/16], [0, 1.5, -.5])),
    'SBDF2': (2, ([1.5, -2, .5], [1, 0, 0], [0, 2, -1])),
    'CNLF2': (2, ([.5, 0, -.5], [.5, 0, .5], [0, 1, 0])),
    'SBDF3': (3, ([Fraction(11, 6), -3, 1.5, Fraction(-1, 3)], [1, 0, 0, 0], [0, 3, -3, 1])),
    'SBDF4': (4, ([Fraction(25, 12), -4, 3, Fraction(-4, 3), Fraction(1, 4)], [1, 0, 0, 0, 0], [0, 4, -6, 4, -1])),
}
RK = {'RK111': (1, 1), 'RK222': (2, 2), 'RK443': (3, 4), 'RKSMR': (2, 3), 'RKGFY': (2, 2)}


def _steppers():
    from dedalus.core import timesteppers as T
    return T


def coeffs(env, T, cls, ts, it):
    from vt.shims import ObjNumpy
    env.patch(T, 'np', ObjNumpy(np))
    a, b, c = cls.compute_coefficients(ts, it)
    return [list(x) for x in (a, b, c)]


def steps(env, n):
    names = [f'k{j}' for j in range(n)]
    if env.sym:
        from vt import ratfun
        sp = ratfun.RatSpace(env, names)
        return sp.gens, lambda g, e, label: ratfun.same(env, g, e, label)
    return [min(max(env.real(k, pos=True), 1e-3), 1e3) for k in names], env.same


def body_general(name, nstep):
    order, const = SPEC[name]

    def body(env):
        from collections import deque
        T = _steppers()
        cls = getattr(T, name)
        env.check(name in T.schemes and T.schemes[name] is cls, 'scheme is registered under its name')
        # iteration number: `it` completed steps before this one
        it = env.int('iteration', nstep, nstep + 3) if nstep >= cls.steps - 1 else nstep
        valid = min(nstep + 1, cls.steps)
        ks, same = steps(env, valid)
        # entries the run has not produced yet: the deque starts with zeros; their value must not matter
        junk = [0.0] * (cls.steps - valid)
        a, b, c = coeffs(env, T, cls, deque(ks + junk), it)
        env.check(len(a) <= cls.amax + 1 and len(b) <= cls.bmax + 1 and len(c) <= cls.cmax + 1,
                  'coefficients refer only to stored levels')
        # only levels that exist at this step may carry weight
        for v, w in (('a', a), ('b', b), ('c', c)):
            for j in range(nstep + 2, len(w)):
                same(w[j], 0, f'{v}[{j}] must not weight a level that does not exist yet')
        same(c[0], 0, 'explicit part has no weight at the new level')
        # times relative to the new level: s_0 = 0, s_j = -(k_0+...+k_{j-1})
        s = [0]
        for k in ks:
            s.append(s[-1] - k)
        n = len(s)
        p = min(order, nstep + 1)
        pad = lambda w: (w + [0] * n)[:n]
        a, b, c = pad(a), pad(b), pad(c)

        def mom(w, q):
            out = 0
            for wj, sj in zip(w, s):
                t = wj
                for _ in range(q):
                    t = t * sj
                out = out + t
            return out
        same(mom(a, 0), 0, 'sum of a is zero')
        same(mom(b, 0), 1, 'sum of b is one')
        same(mom(c, 0), 1, 'sum of c is one')
        same(mom(a, 1), 1, 'a reproduces d/dt t')
        scale = ks[0]
        for q in range(2, p + 1):
            # scaled to be dimensionless: divide by k_0**(q-1)
            sc = 1
            for _ in range(q - 1):
                sc = sc * scale
            same(mom(a, q) / sc, q * mom(b, q - 1) / sc, f'implicit order condition {q}')
            same(mom(a, q) / sc, q * mom(c, q - 1) / sc, f'explicit order condition {q}')
        if name.startswith('SBDF'):
            for j in range(1, n):
                same(b[j], 0, 'BDF: implicit term only at the new level')
        if name.startswith('CNAB'):
            same(b[0], .5, 'Crank-Nicolson weight 1/2')
            same(b[1], .5, 'Crank-Nicolson weight 1/2')
        env.check(b[0] > 0, 'implicit weight at the new level is positive')
        env.check(a[0] > 0, 'mass weight at the new level is positive')
    return body


def body_const(name):
    order, const = SPEC[name]

    def body(env):
        from collections import deque
        T = _steppers()
        cls = getattr(T, name)
        (k,), same = steps(env, 1)
        it = env.int('iteration', cls.steps - 1, cls.steps + 3)
        a, b, c = coeffs(env, T, cls, deque([k] * cls.steps), it)
        for v, got, exp, f in (('a', a, const[0], k), ('b', b, const[1], 1), ('c', c, const[2], 1)):
            got = (got + [0] * len(exp))[:max(len(exp), len(got))]
            exp = exp + [0] * (len(got) - len(exp))
            for j, (g, e) in enumerate(zip(got, exp)):
                same(g * f, e, f'published constant-step value {v}[{j}]')
    return body


def multistep(name):
    def h(ctx):
        T = _steppers()
        cls = getattr(T, name)
        ctx.encodes(f'timesteppers.{name}.compute_coefficients')
        ctx.bound('all positive real step sizes; every start-up step and the established regime (iteration offset <= 3 beyond start-up; '
                  'the functions branch on the iteration only through start-up)')
        for nstep in range(cls.steps + 1):
            ctx.run(f'{name} step {nstep}', body_general(name, nstep), expect=['sum of a is zero'], timeout_ms=60000)
        ctx.run(f'{name} constant', body_const(name), timeout_ms=60000)
    return h


def rk(name):
    def h(ctx):
        ctx.encodes(f'timesteppers.{name} (tableau)')
        ctx.bound('IMEX Runge-Kutta order conditions up to the documented order, incl. coupling conditions; coefficients to 1e-9')

        def body(env):
            T = _steppers()
            cls = getattr(T, name)
            order, stages = RK[name]
            A, H, c = np.asarray(cls.A, float), np.asarray(cls.H, float), np.asarray(cls.c, float)
            s = cls.stages
            if name != 'RKGFY':
                env.check(T.schemes.get(name) is cls, 'scheme is registered under its name')
            env.check(s == stages and A.shape == (s+1, s+1) and H.shape == (s+1, s+1) and c.shape == (s+1,), 'tableau shapes')
            # symbolic step: exact solution of dt(x) = lam x split arbitrarily; stage values enter linearly
            for i in range(s + 1):
                for j in range(i, s + 1):
                    env.same(float(A[i, j]), 0, 'explicit tableau strictly lower triangular')
                    if j > i:
                        env.same(float(H[i, j]), 0, 'implicit tableau lower triangular')
                env.same(float(A[i].sum()), float(c[i]), 'explicit row sums are the stage times')
                env.same(float(H[i].sum()), float(c[i]), 'implicit row sums are the stage times')
                if i:
                    env.check(bool(H[i, i] > 0), 'stage solves are implicit')
            env.same(float(c[s]), 1, 'last stage ends at the new time')
            env.same(float(c[0]), 0, 'first stage starts at the old time')
            # weights: any mixture of the two tableaux must satisfy the order conditions (theta symbolic)
            th = env.real('theta', 0, 1)
            ph = env.real('phi', 0, 1)
            mix = lambda t, i, j: t * float(A[i, j]) + (1 - t) * float(H[i, j])
            R = range(s + 1)
            if order >= 2:
                env.same(sum((mix(th, s, j) * float(c[j]) for j in R), 0), .5, 'order 2', tol=2e-9)
            if order >= 3:
                env.same(sum((mix(th, s, j) * float(c[j]**2) for j in R), 0), Fraction(1, 3) if env.sym else 1/3, 'order 3 (quadrature)', tol=2e-9)
                env.same(sum((mix(th, s, i) * mix(ph, i, j) * float(c[j]) for i in R for j in R), 0),
                         Fraction(1, 6) if env.sym else 1/6, 'order 3 (coupling)', tol=2e-9)
        ctx.run(name, body)
    return h


def harnesses(tier):
    return [(n, multistep(n)) for n in SPEC] + [(n, rk(n)) for n in RK]
