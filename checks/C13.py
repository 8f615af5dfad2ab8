"""Equations: what is accepted, how strings are read, how sides are split, and where conditions apply."""
import numpy as np
from vt import scen, geo, lin

ASSUMPTIONS = ["Cartesian and disk problems of the stated sizes; coefficients real in |x|<=1, agreement to 1e-9",
               "equation strings: every string of the stated length over '(', ')', '=' and other characters",
               "time derivatives are applied to expressions linear in the variables (dt of a known field is excluded)"]
R, C = np.float64, np.complex128


# ------------------------------------------------------------------ reading of the sides of an equation string
class Text:
    """String of symbolic characters; anything but comparison, iteration, slicing and stripping fixes the characters."""

    def __init__(self, env, chars):
        self.env, self.chars = env, list(chars)

    def __len__(self):
        return len(self.chars)

    def __iter__(self):
        return iter(self.chars)

    def __getitem__(self, k):
        return Text(self.env, self.chars[k]) if isinstance(k, slice) else self.chars[k]

    def strip(self, *a):
        return self if not a else self.fix().strip(*a)

    def fix(self):
        return ''.join(c.fix() for c in self.chars)

    def __getattr__(self, name):
        return getattr(self.fix(), name)


ALPHABET = '()=x'


class Char:
    def __init__(self, env, code, tag=None):
        self.env, self.code, self.tag = env, code, tag

    def __eq__(self, o):
        if isinstance(o, Char):
            return self.code == o.code
        if o not in ALPHABET:
            return False
        return self.code == ALPHABET.index(o)

    def __ne__(self, o):
        e = self == o
        return not e

    def __hash__(self):
        return hash(self.fix())

    def fix(self):
        for i, c in enumerate(ALPHABET):
            if self.code == i:
                return c
        return ALPHABET[-1]

    def __contains__(self, o):
        return self.fix() == o

    def __getattr__(self, name):
        return getattr(self.fix(), name)

    def __str__(self):
        return self.fix()


def split_body(n):
    def body(env):
        from dedalus.tools import parsing, exceptions
        codes = [env.int(f'c{i}', 0, 3) for i in range(n)]
        text = Text(env, [Char(env, c, i) for i, c in enumerate(codes)]) if env.sym else ''.join(ALPHABET[c] for c in codes)
        try:
            got = parsing.split_equation(text)
        except exceptions.SymbolicParsingError:
            got = None
        except TypeError:
            if not env.sym:
                raise
            text = text.fix()
            try:
                got = parsing.split_equation(text)
            except exceptions.SymbolicParsingError:
                got = None
        # oracle: arithmetic over the same symbols
        depth, tops = 0, []
        one = lambda b: _ite(env, b)
        for c in codes:
            here = one(c == 2)*one(depth == 0)
            tops.append(here)
            depth = depth + one(c == 0) - one(c == 1)
        count = sum(tops)
        if got is None:
            env.check(count != 1, 'an equation with exactly one top-level equals sign is accepted')
        else:
            env.check(count == 1, 'an equation without exactly one top-level equals sign is refused')
            L, Rr = got
            env.check(len(L) + len(Rr) == n - 1, 'the sides are everything but the equals sign')
            env.check(tops[len(L)] == 1, 'the split is at the top-level equals sign')
            if isinstance(L, str):
                full = ''.join(Char(env, c).fix() for c in codes) if env.sym else text
                env.check(L + '=' + Rr == full, 'the sides are unchanged')
            else:
                env.check([c.tag for c in L] == list(range(len(L))) and [c.tag for c in Rr] == list(range(len(L) + 1, n)), 'the sides are unchanged')
    return body


def _ite(env, b):
    if not env.sym:
        return int(bool(b))
    from vt.engine import SymInt, SymBool
    import z3
    if isinstance(b, SymBool):
        return SymInt(z3.If(b.e, z3.IntVal(1), z3.IntVal(0)))
    return int(bool(b))


# ------------------------------------------------------------------ strings, sides and matrices
def representable(env, f, name):
    f.preset_scales(1)
    f.preset_layout('c')
    f['c'] = env.array(name, f.data.shape, complex=np.dtype(f.dtype).kind == 'c')*f.valid_modes.astype(float)
    return f


def explicit(d3, e, eq, dist):
    from dedalus.core import operators
    if np.isscalar(e) and e == 0:
        f = dist.Field(bases=eq['domain'].bases, tensorsig=eq['tensorsig'], dtype=eq['dtype'])
        f['c'] = 0
        return f
    e = operators.convert(e, eq['domain'].bases) if hasattr(e, 'domain') else e
    f = e.evaluate().copy()
    f.change_scales(1)
    f.change_layout('c')
    return f


def matrices(d3, problem, names):
    from dedalus.core import subsystems
    solver = problem.build_solver(*([d3.SBDF1] if isinstance(problem, d3.IVP) else []))
    subsystems.build_subproblem_matrices(solver, solver.subproblems, names)
    return solver


def symbolic_vector(env, vars, tag):
    """Independent values of the same shape as the variables."""
    out = []
    for i, v in enumerate(vars):
        w = v.copy()
        w.name = None
        w.valid_modes[:] = v.valid_modes
        out.append(representable(env, w, f'{tag}{i}'))
    return out


def gathered(sp, fields, which):
    """pre_left / pre_right_pinv of the raw subsystem data of `fields`."""
    P = (sp.pre_left if which == 'out' else sp.pre_right_pinv).toarray()
    for f in fields:
        f.change_scales(1)
        f.change_layout('c')
    return scen.along(P, sp.subsystems[0].gather(fields).copy(), 0)


def compare(env, d3, solver, problem, vars, actions, label):
    """actions: name -> (vector fields, explicit left-hand sides): sum of name_min @ vector equals the explicit value."""
    total = 0
    for sp in solver.subproblems:
        if not sp.pre_left.shape[0]:
            continue
        got = 0
        for name, (X, _) in actions.items():
            A = getattr(sp, name + '_min').toarray()
            total += np.count_nonzero(A)
            got = got + scen.along(A, gathered(sp, X, 'in'), 0)
        env.equal(got, gathered(sp, actions[next(iter(actions))][1], 'out'), label, info=f'group {sp.group}')
    env.check(total > 0, 'some matrix is nonzero')


def setup(d3, spec, dtype, dealias=2):
    g = geo.cart(d3, spec, dtype, dealias=dealias)
    return g


class Ns(dict):
    __getattr__ = dict.__getitem__


def ns_1d(d3, dtype=R, size=5):
    g = setup(d3, [('x', 'T', size, (0, 2))], dtype)
    b, = g.bases
    x = g.dist.local_grid(b)
    N = Ns(g=g, u=g.dist.Field(name='u', bases=b), v=g.dist.Field(name='v', bases=b), t1=g.dist.Field(name='t1'), t2=g.dist.Field(name='t2'),
           n=g.dist.Field(name='n', bases=b), f=g.dist.Field(name='f', bases=b), G=g.dist.Field(name='G'), s=g.dist.Field(name='s'))
    N['n']['g'] = 1 + .5*x
    N.update(dx=lambda A: d3.Differentiate(A, g.coords['x']), lift=lambda A, k: d3.Lift(A, b.derivative_basis(2), k), d3=d3)
    return N


def ns_2d(d3, dtype=C):
    g = setup(d3, [('x', 'R' if dtype is R else 'C', 4, (0, 3)), ('z', 'L', 4, (0, 1))], dtype)
    bx, bz = g.bases
    N = Ns(g=g, p=g.dist.Field(name='p', bases=g.bases), u=g.dist.VectorField(g.cs, name='u', bases=g.bases),
           tp=g.dist.Field(name='tp'), t1=g.dist.VectorField(g.cs, name='t1', bases=bx), t2=g.dist.VectorField(g.cs, name='t2', bases=bx),
           f=g.dist.VectorField(g.cs, name='f', bases=g.bases), w=g.dist.VectorField(g.cs, name='w', bases=bx), s=g.dist.Field(name='s'))
    ex, ez = g.cs.unit_vector_fields(g.dist)
    N.update(ez=ez, lift=lambda A: d3.Lift(A, bz.derivative_basis(1), -1), nu=.7, d3=d3)
    return N


# kind, namespace builder, variables, equations: (string, LHS(N, X, V) with V for time derivatives / eigenvalue factors, RHS(N, X))
def at(f, **k):
    return f(**k)


CASES = {
    'IVP 1d nested': ('IVP', ns_1d, 'u t1 t2', [
        ("dt(u - dx(u)) + n*(dt(u) + 2*u) - dx(dx(u)) + lift(t1,-1) + lift(t2, -2)   =  f*n + dx(f)",
         lambda N, X, V: V.u - N.dx(V.u) + N.n*V.u + 2*N.n*X.u - N.dx(N.dx(X.u)) + N.lift(X.t1, -1) + N.lift(X.t2, -2), lambda N, X: N.f*N.n + N.dx(N.f)),
        ("u(x=0) - u(x=2) = G", lambda N, X, V: X.u(x=0) - X.u(x=2), lambda N, X: N.G),
        ("dx(u)(x = 0)= 0", lambda N, X, V: N.dx(X.u)(x=0), None)]),
    'IVP 1d rhs in variables': ('IVP', ns_1d, 'u t1 t2', [
        ("3*dt(u) + (lift(t1,-1) + lift(t2,-2)) = dx(dx(u)) - n*u + 2*(f - u)",
         lambda N, X, V: 3*V.u + N.lift(X.t1, -1) + N.lift(X.t2, -2), lambda N, X: N.dx(N.dx(X.u)) - N.n*X.u + 2*(N.f - X.u)),
        ("integ(u) = G", lambda N, X, V: N.d3.integ(X.u), lambda N, X: N.G),
        ("ave(dt(u) - u) + (u(x='right')) = -G", lambda N, X, V: N.d3.ave(V.u) - N.d3.ave(X.u) + X.u(x='right'), lambda N, X: -1*N.G)]),
    'LBVP 1d': ('LBVP', ns_1d, 'u t1 t2', [
        ("dx(n*dx(u)) - (2)*(u) + lift(t1,-1) + lift(t2,-2) = -(f)*n", lambda N, X, V: N.dx(N.n*N.dx(X.u)) - 2*X.u + N.lift(X.t1, -1) + N.lift(X.t2, -2), lambda N, X: -1*(N.f*N.n)),
        ("u(x=0) = 0", lambda N, X, V: X.u(x=0), None),
        ("u(x='center') = G + (G)*2", lambda N, X, V: X.u(x='center'), lambda N, X: 3*N.G)]),
    'EVP 1d': ('EVP', ns_1d, 'u t1 t2', [
        ("s*(u + n*dx(u)) + dx(dx(u) - s*u)*3 + lift(t1,-1) + lift(t2,-2) = 0",
         lambda N, X, V: V.u + N.n*N.dx(V.u) - 3*N.dx(V.u) + 3*N.dx(N.dx(X.u)) + N.lift(X.t1, -1) + N.lift(X.t2, -2), None),
        ("u(x=0) = 0", lambda N, X, V: X.u(x=0), None), ("u(x=2) - s*dx(u)(x=2) = 0", lambda N, X, V: X.u(x=2) - N.dx(V.u)(x=2), None)]),
    'IVP 2d vector': ('IVP', ns_2d, 'p u tp t1 t2', [
        ("trace(grad(u) + ez*lift(t1)) + tp = 0", lambda N, X, V: N.d3.div(X.u) + N.ez@N.lift(X.t1) + X.tp, None),
        ("dt(u) - nu*div(grad(u) + ez*lift(t1)) + grad(p) + lift(t2) - dt(skew(u)) = f - u@grad(f)" if False else
         "dt(u) - nu*div(grad(u) + ez*lift(t1)) + grad(p) + lift(t2) - dt(skew(u)) = f + ez*div(f) - transpose(grad(u))@ez",
         lambda N, X, V: V.u - .7*N.d3.lap(X.u) - .7*N.d3.div(N.ez*N.lift(X.t1)) + N.d3.grad(X.p) + N.lift(X.t2) - N.d3.skew(V.u),
         lambda N, X: N.f + N.ez*N.d3.div(N.f) - N.d3.transpose(N.d3.grad(X.u))@N.ez),
        ("u(z=0) = w", lambda N, X, V: X.u(z=0), lambda N, X: N.w), ("(u)(z=1) - w*0 = 0*w", lambda N, X, V: X.u(z=1), None),
        ("integ(p) = 0", lambda N, X, V: N.d3.integ(X.p), None)]),
    'EVP 2d vector': ('EVP', ns_2d, 'p u tp t1 t2', [
        ("trace(grad(u) + ez*lift(t1)) + tp = 0", lambda N, X, V: N.d3.div(X.u) + N.ez@N.lift(X.t1) + X.tp, None),
        ("1j*s*u + s*(2*skew(u)) - div(grad(u)) + grad(p) + lift(t2) = 0", lambda N, X, V: 1j*V.u + 2*N.d3.skew(V.u) - N.d3.lap(X.u) + N.d3.grad(X.p) + N.lift(X.t2), None),
        ("u(z=0) = 0", lambda N, X, V: X.u(z=0), None), ("u(z=1) = 0", lambda N, X, V: X.u(z=1), None),
        ("integ(p) = 0", lambda N, X, V: N.d3.integ(X.p), None)]),
}


def make(d3, kind, vars, N, **kw):
    if kind == 'EVP':
        return d3.EVP(vars, eigenvalue=N.s, **kw)
    return dict(IVP=d3.IVP, LBVP=d3.LBVP, NLBVP=d3.NLBVP)[kind](vars, **kw)


def string_body(name):
    kind, builder, vnames, eqs = CASES[name]

    def body(env):
        d3 = scen.start(env)
        N = builder(d3)
        vars = [N[v] for v in vnames.split()]
        namespace = {k: v for k, v in N.items() if k not in ('g', 'd3', 'f')}
        P = make(d3, kind, vars, N, namespace=namespace)
        namespace['f'] = N.f        # added to the namespace after building the problem
        for s, _, _ in eqs:
            P.add_equation(s)
        names = dict(IVP=['M', 'L'], LBVP=['L'], EVP=['M', 'L'])[kind]
        solver = matrices(d3, P, names)
        X = symbolic_vector(env, vars, 'X')
        V = symbolic_vector(env, vars, 'V')
        nX, nV = (Ns(zip(vnames.split(), F)) for F in (X, V))
        lhs = [explicit(d3, l(N, nX, nV), eq, N.g.dist) for (_, l, _), eq in zip(eqs, P.equations)]
        acts = {'L': (X, lhs)}
        if 'M' in names:
            acts['M'] = (V, lhs)
        compare(env, d3, solver, P, vars, acts, 'the matrices act as the left-hand sides of the strings')
        if kind == 'EVP':
            return
        # right-hand sides, at every value of the variables and known fields
        for k in ('f', 'G', 'w'):
            if k in N:
                representable(env, N[k], 'k' + k)
        for v, x in zip(vars, X):
            v.preset_scales(1)
            v['c'] = x['c'].copy()
        for (s, _, r), eq in zip(eqs, P.equations):
            got = eq['F'].evaluate().copy()
            got.change_scales(1)
            exp = explicit(d3, r(N, N) if r else 0, eq, N.g.dist)
            env.equal(got['c'], exp['c'], 'the right-hand side is that of the string', info=s)
    return body


# ------------------------------------------------------------------ names
def names_body(env):
    """Variables take precedence over the user's namespace, which takes precedence over operators; the namespace is read when adding."""
    d3 = scen.start(env)
    g = setup(d3, [('x', 'R', 4, (0, 3))], R)
    b, = g.bases
    c = g.coords['x']
    for order in range(2):
        u = g.dist.Field(name='u', bases=b)
        v = g.dist.Field(name='lap' if order else 'v', bases=b)
        other = g.dist.Field(name='u', bases=b)
        f = g.dist.Field(name='first', bases=b)
        h = g.dist.Field(name='second', bases=b)
        ns = {'u': other, 'div': (lambda A: 5*A), 'f': f, 'dx': lambda A: d3.Differentiate(A, c)}
        p = d3.LBVP([u, v], namespace=ns)
        p.add_equation("div(u) - dx(lap) = f" if order else "div(u) - dx(v) = f")
        ns['f'] = h
        ns['dx'] = lambda A: 7*A
        p.add_equation("lap - dx(u) = f" if order else "lap(v) + dx(u) - v = f")
        solver = matrices(d3, p, ['L'])
        X = symbolic_vector(env, [u, v], f'X{order}')
        D = lambda A: d3.Differentiate(A, c)
        lhs = [5*X[0] - D(X[1]), X[1] - 7*X[0] if order else d3.lap(X[1]) + 7*X[0] - X[1]]
        lhs = [explicit(d3, l, e, g.dist) for l, e in zip(lhs, p.equations)]
        compare(env, d3, solver, p, [u, v], {'L': (X, lhs)}, 'names in strings mean the variables, then the namespace, then the operators')
        for k, e in ((f, 0), (h, 1)):
            representable(env, k, f'k{order}{e}')
            env.equal(p.equations[e]['F'].evaluate()['c'], k['c'], 'names on the right-hand side are those at the time of adding')
        # without a namespace: variables and operators only
        q = d3.LBVP([u, v])
        q.add_equation((u - 2*v, 0))
        q.add_equation("u + lap = 0" if order else "lap(u) - u + v = 0")
        try:
            q.add_equation("u + missing = 0")
            env.fail('unknown names are refused')
        except NameError:
            pass
        env.check(len(q.equations) == 2, 'a refused equation is not added')
        solver = matrices(d3, q, ['L'])
        lhs = [X[0] - 2*X[1], X[0] + X[1] if order else d3.lap(X[0]) - X[0] + X[1]]
        lhs = [explicit(d3, l, e, g.dist) for l, e in zip(lhs, q.equations)]
        compare(env, d3, solver, q, [u, v], {'L': (X, lhs)}, 'strings and operator tuples can be mixed')


# ------------------------------------------------------------------ which equations are accepted
class E:
    """Expression with its terms: (degree in the variables, degree in the special symbol, time derivatives); 99 = nonlinear function."""
    def __init__(self, terms, val):
        self.terms, self.val = frozenset(terms), val


def atoms(d3, N):
    """name -> (terms, value(X, V, S)): X variables, V their time derivatives, S the special symbol (t or s)"""
    d = N.dx
    A = {
        'u': ({(1, 0, 0)}, lambda X, V, S: X['u']),
        'v': ({(1, 0, 0)}, lambda X, V, S: X['v']),
        'n': ({(0, 0, 0)}, lambda X, V, S: N.n),
        '3': ({(0, 0, 0)}, lambda X, V, S: 3),
        'd(u)': ({(1, 0, 0)}, lambda X, V, S: d(X['u'])),
        'n*v': ({(1, 0, 0)}, lambda X, V, S: N.n*X['v']),
        'sin(u)': ({(99, 0, 0)}, lambda X, V, S: np.sin(X['u'])),
        'u**2': ({(2, 0, 0)}, lambda X, V, S: X['u']**2),
        'S': ({(0, 1, 0)}, lambda X, V, S: S),
        'exp(S)': ({(0, 99, 0)}, lambda X, V, S: np.exp(S)),
        'u+n*n': ({(1, 0, 0), (0, 0, 0)}, lambda X, V, S: X['u'] + N.n*N.n),
        'S*v': ({(1, 1, 0)}, lambda X, V, S: S*X['v']),
        'dt(u)': ({(1, 0, 1)}, lambda X, V, S: V['dt'](X['u'])),
        'u-dt(v)': ({(1, 0, 0), (1, 0, 1)}, lambda X, V, S: X['u'] - V['dt'](X['v'])),
        'n(x=0)': ({(0, 0, 0)}, lambda X, V, S: N.n(x=0)),
        'u(x=2)': ({(1, 0, 0)}, lambda X, V, S: X['u'](x=2)),
    }
    return A


def tree_body(kind, op1, bin_, quick):
    def body(env):
        d3 = scen.start(env)
        from dedalus.tools.exceptions import UnsupportedEquationError, NonlinearOperatorError, DependentOperatorError
        N = ns_1d(d3, size=8)
        A = atoms(d3, N)
        if kind == 'LBVP':
            A = {k: a for k, a in A.items() if 'dt' not in k and 'S' not in k}
        elif kind == 'EVP':
            A = {k: a for k, a in A.items() if 'dt' not in k}
        names = sorted(A)
        seconds = names if bin_ else [None]
        vars = [N.u, N.v]
        X = symbolic_vector(env, vars, 'X')
        Vt = symbolic_vector(env, vars, 'V')
        for x in X + Vt:        # products with up to three linear coefficients stay representable
            x['c'] = x['c']*(np.arange(8) < 4)
        accepted = refused = 0
        for a in names:
            for b in seconds:
                ta, tb = A[a][0], A[b][0] if b else None
                terms = ta | tb if bin_ == '+' else {tuple(p + q for p, q in zip(s, r)) for s in ta for r in tb} if bin_ == '*' else ta
                if op1 == 'dt':
                    if any(t[0] == 0 for t in terms):
                        continue            # time derivatives of known fields are excluded
                    terms = {(t[0], t[1], t[2] + 1) for t in terms}
                if bin_ == '*' and any(t[2] and not t[0] for s in (ta, tb) for t in s):
                    continue
                wrap = {'id': lambda e, V: e, '-': lambda e, V: -1*e if np.isscalar(e) else -e, 'dx': lambda e, V: N.dx(e), 'dt': lambda e, V: V['dt'](e), 'n*': lambda e, V: N.n*e}[op1]

                def build(X, V, S):
                    l = A[a][1](X, V, S)
                    r = A[b][1](X, V, S) if b else None
                    return wrap(l + r if bin_ == '+' else l*r if bin_ == '*' else l, V)
                text = f'{op1}({a} {bin_ or ""} {b or ""})'
                P = make(d3, kind, vars, N)
                S = P.time if kind == 'IVP' else N.s
                Xs = dict(u=N.u, v=N.v)
                try:
                    e = build(Xs, dict(dt=d3.dt), S)
                except Exception:
                    continue
                if np.isscalar(e):
                    continue
                lin_ok = all(t[0] == 1 for t in terms)
                sp_ok = all(t[1] <= (1 if kind == 'EVP' else 0) for t in terms)
                dt_ok = all(t[2] <= 1 for t in terms)
                ok = lin_ok and sp_ok and dt_ok
                try:
                    eq = P.add_equation((e, 0))
                    took = True
                except (UnsupportedEquationError, NonlinearOperatorError, DependentOperatorError):
                    took = False
                except Exception as exc:
                    took = None
                    if ok:
                        env.fail('equations linear in the variables are accepted', info=f'{kind} {text}: {type(exc).__name__} {exc}')
                if took is None:
                    continue
                env.check(took == ok or (ok is False and took is False), 'an equation is accepted if and only if its left-hand side has the documented form', info=f'{kind} {text}')
                refused += not took
                if not (took and ok):
                    env.check(took or not P.equations, 'a refused equation is not added')
                    continue
                accepted += 1
                if kind == 'EVP' and any(t[1] for t in terms) and any(not t[1] for t in terms) and op1 == 'n*':
                    pass
                # the matrices represent it
                P.add_equation((N.v if eq['domain'].bases else N.v, 0)) if eq['domain'].bases else None
                if not eq['domain'].bases:
                    continue
                nm = ['L'] if kind == 'LBVP' else ['M', 'L']
                solver = matrices(d3, P, nm)
                xs, vs = dict(u=X[0], v=X[1]), dict(u=Vt[0], v=Vt[1])
                # explicit evaluation: time derivatives / eigenvalue factors act on the second set of values
                swap = lambda e: e
                if kind == 'EVP':
                    zero = dict(u=None, v=None)
                    e0 = build(Xs, dict(dt=None), 0) if False else None
                pairs = {}
                if kind == 'IVP':
                    def dtrep(z):
                        for k in ('u', 'v'):
                            z = z.replace(xs[k], vs[k])
                        return z
                    val = build(xs, dict(dt=dtrep), None)
                    acts = {'L': (X, [val]), 'M': (Vt, None)}
                elif kind == 'LBVP':
                    val = build(xs, {}, None)
                    acts = {'L': (X, [val])}
                else:
                    # affine in the eigenvalue: values at s=0 and s=1 with M acting on the same values scaled by s=.5
                    S0 = N.g.dist.Field()
                    S0['g'] = .5
                    val = build(xs, {}, S0)
                    half = [x.copy() for x in X]
                    for h, x in zip(half, X):
                        h['c'] = .5*x['c']
                    acts = {'L': (X, [val]), 'M': (half, None)}
                lhs = [explicit(d3, val, P.equations[0], N.g.dist), explicit(d3, xs['v'], P.equations[1], N.g.dist)]
                acts['L'] = (X, lhs)
                total = 0
                for sp in solver.subproblems:
                    got = 0
                    for name, (Y, _) in acts.items():
                        got = got + scen.along(getattr(sp, name + '_min').toarray(), gathered(sp, Y, 'in'), 0)
                    env.equal(got, gathered(sp, lhs, 'out'), 'matrices of accepted equations act as the left-hand side', info=f'{kind} {text}')
        env.check(accepted > 0 and refused > 0, 'some equations are accepted and some refused')
    return body


def rhs_body(env):
    """Right-hand sides: independent of the variables (LBVP) / of time derivatives (IVP), zero (EVP), domain within that of the left-hand side."""
    d3 = scen.start(env)
    from dedalus.tools.exceptions import UnsupportedEquationError
    N = ns_1d(d3)
    t = {'u': N.u, 'v(x=0)': N.v(x=0), 'n*dx(u)': N.n*N.dx(N.u), 'f': N.f, 'n*f': N.n*N.f, '3': 3, 'G': N.G, 'dt(u)': d3.dt(N.u), 'u*dt(v)': N.u*d3.dt(N.v), 'sin(u)': np.sin(N.u), '0': 0,
         'f+u': N.f + N.u, 'f*u': N.f*N.u}
    var = {'u', 'v(x=0)', 'n*dx(u)', 'dt(u)', 'u*dt(v)', 'sin(u)', 'f+u', 'f*u'}
    full = {'u', 'n*dx(u)', 'f', 'n*f', 'dt(u)', 'u*dt(v)', 'sin(u)', 'f+u', 'f*u'}
    for kind in ('LBVP', 'IVP', 'EVP'):
        for lhs in ('u', 'u(x=0)'):
            for name, r in t.items():
                if kind == 'EVP':
                    ok = name == '0'
                elif kind == 'LBVP':
                    ok = name not in var
                else:
                    ok = 'dt' not in name
                if lhs == 'u(x=0)' and name in full:
                    ok = False
                P = make(d3, kind, [N.u, N.v], N)
                try:
                    P.add_equation((N.u if lhs == 'u' else N.u(x=0), r))
                    took = True
                except UnsupportedEquationError:
                    took = False
                env.check(took == ok, 'an equation is accepted if and only if its right-hand side has the documented form', info=f'{kind} {lhs} = {name}')
                env.check(len(P.equations) == took, 'a refused equation is not added')


# ------------------------------------------------------------------ conditions
CONDS = [("True", lambda n: True), ("nx != 0", lambda n: n['x'] != 0), ("nx == 0 and ny != 0", lambda n: n['x'] == 0 and n['y'] != 0),
         ("(nx == 1) or (ny % 2 == 0)", lambda n: n['x'] == 1 or n['y'] % 2 == 0), ("nx + ny > 1", lambda n: n['x'] + n['y'] > 1), ("nx in (0, 1)", lambda n: n['x'] in (0, 1)),
         ("not (nx == ny)", lambda n: n['x'] != n['y']), ("False", lambda n: False)]


def apply_to(env, d3, g, p, valid=False):
    """Values Y of every equation, and what the systems keep of them."""
    solver = matrices(d3, p, ['L'])
    Y, out = [], []
    for i, eq in enumerate(p.equations):
        f = g.dist.Field(bases=eq['domain'].bases, dtype=g.dtype)
        f.preset_scales(1)
        f.preset_layout('c')
        y = env.array(f'Y{i}', f.data.shape, complex=g.dtype is C)
        f['c'] = y*eq['valid_modes'].astype(float) if valid else y
        Y.append(f)
        o = g.dist.Field(bases=eq['domain'].bases, dtype=g.dtype)
        o['c'] = 0
        out.append(o)
    for sp in solver.subproblems:
        if sp.pre_left.shape[0]:
            sp.scatter_outputs(sp.gather_outputs(Y).copy(), out)
    return [y['c'] for y in Y], [o['c'] for o in out]


def cond_body(dtype, which, form, zfirst=False):
    """Rows of an equation exist exactly in the groups its condition selects; groups are (signed) wavenumbers."""
    def body(env):
        d3 = scen.start(env)
        kx = 'R' if dtype is R else 'C'
        spec = [('x', kx, 6 if dtype is R else 4, (0, 3)), ('y', kx, 4 if dtype is R else 5, (0, 2))]
        spec = [('z', 'T', 3, (0, 1))] + spec if zfirst else spec + [('z', 'T', 3, (0, 1))]
        g = setup(d3, spec, dtype)
        byname = dict(zip(g.names, g.bases))
        hb = tuple(byname[k] for k in g.names if k != 'z')
        text, pred = CONDS[which]
        neg = f"not ({text})"
        u, tau = g.dist.Field(name='u', bases=g.bases), g.dist.Field(name='tau', bases=hb)
        dz = lambda A: d3.Differentiate(A, g.coords['z'])
        p = d3.LBVP([u] if form == 'plain' else [u, tau])
        if form == 'plain':
            # nothing but the condition distinguishes the groups
            p.add_equation((dz(u) + u, 0), condition=text)
            p.add_equation((dz(dz(u)) - 2*u, 0), condition=neg)
            preds = [pred, lambda n: not pred(n), lambda n: False]
        else:
            p.add_equation((dz(u) + d3.Lift(tau, byname['z'].derivative_basis(1), -1), 0))
            p.add_equation((u(z=0), 0), condition=text)
            p.add_equation((u(z=1), 0), condition=neg)
            preds = [lambda n: True, pred, lambda n: not pred(n), lambda n: False]
        p.add_equation((dz(u), 0), condition="nx > 100")
        Y, out = apply_to(env, d3, g, p)
        ax = {k: i for i, k in enumerate(g.names)}

        def wave(k, i):
            N = byname[k].size
            return i//2 if dtype is R else i if i <= N//2 else i - N
        for i, (f, o) in enumerate(zip(Y, out)):
            mask = np.zeros(f.shape)
            for idx in np.ndindex(*mask.shape):
                # minus-sine parts of constant modes do not exist
                exists = not (dtype is R and any(idx[ax[k]] == 1 for k in 'xy') and any(idx[ax[k]]//2 == 0 and idx[ax[k]] % 2 for k in 'xy'))
                mask[idx] = exists and preds[i]({k: wave(k, idx[ax[k]]) for k in 'xy'})
            env.equal(o, mask*f, 'an equation applies exactly to the modes of the groups selected by its condition', info=f'{text}, equation {i}')
            if mask.any():
                env.nonzero(o, 'selected rows')
    return body


def disk_cond_body(dtype, kind):
    def body(env):
        d3 = scen.start(env)
        g = geo.polar(d3, kind, (8, 4), dtype, **(dict(radius=1.5) if kind == 'disk' else dict(radii=(.5, 1.5))))
        edge = g.basis.edge if kind == 'disk' else g.basis.outer_edge
        u, tau = g.dist.Field(name='u', bases=g.basis), g.dist.Field(name='tau', bases=edge)
        # wavenumber of each azimuthal coefficient, from the values of the mode on the grid
        waves = []
        for i in range(tau['c'].shape[0]):
            w = np.zeros((tau['c'].shape[0], 1), dtype)
            w[i] = 1
            tau['c'] = w
            v = tau['g'].dense() if hasattr(tau['g'], 'dense') else np.asarray(tau['g'])
            F = np.fft.fft(v.ravel())
            k = np.argmax(np.abs(F)) if np.abs(F).max() > 1e-8 else None
            waves.append(None if k is None else int(k if k <= 4 or dtype is R else k - 8))
        p = d3.LBVP([u, tau])
        p.add_equation((d3.lap(u) + d3.Lift(tau, g.basis, -1), 0))
        p.add_equation((u(r=1.5), 0), condition="nphi > 1")
        p.add_equation((u(r=1.5)*3, 0), condition="nphi <= 1")
        Y, out = apply_to(env, d3, g, p, valid=True)
        preds = [lambda n: True, lambda n: n > 1, lambda n: n <= 1]
        for f, o, pr in zip(Y, out, preds):
            rows = [i for i, w in enumerate(waves) if w is not None and not (dtype is R and w > 4)]
            mask = np.array([bool(pr(min(w, 8 - w) if dtype is R else w)) if w is not None else 0 for w in waves], float)[:, None]
            env.equal(o[rows], (mask*f)[rows], 'an equation applies exactly to the modes of the groups selected by its condition')
    return body


def evp_cond_body(env):
    """Conditions carry over to the eigenvalue problem of an initial value problem."""
    d3 = scen.start(env)
    N = ns_2d(d3)
    bx, bz = N.g.bases
    u, tau = N.p, N.g.dist.Field(name='tau', bases=bx)
    dz = lambda A: d3.Differentiate(A, N.g.coords['z'])
    h = N.g.dist.Field(name='h', bases=bz)
    h['g'] = 1 + .3*N.g.dist.local_grid(bz)
    P = d3.IVP([u, tau])
    P.add_equation((d3.dt(u) - dz(u) + d3.Lift(tau, bz.derivative_basis(1), -1), h*u))
    P.add_equation((u(z=0), 0), condition='nx != 0')
    P.add_equation((u(z=1), u(z=0)), condition='nx == 0')
    perts = [x.copy() for x in (u, tau)]
    Q = P.build_EVP(perturbations=perts)
    solver = matrices(d3, Q, ['M', 'L'])
    X, V = symbolic_vector(env, perts, 'X'), symbolic_vector(env, perts, 'V')
    lhs = [V[0] - dz(X[0]) + d3.Lift(X[1], bz.derivative_basis(1), -1) - h*X[0], X[0](z=0), X[0](z=1) - X[0](z=0)]
    lhs = [explicit(d3, l, e, N.g.dist) for l, e in zip(lhs, Q.equations)]
    solver.subproblems = [sp for sp in solver.subproblems if sp.group[0] != 2]       # Nyquist mode: not on the grid
    compare(env, d3, solver, Q, perts, {'L': (X, lhs), 'M': (V, lhs)}, 'the matrices of the derived eigenvalue problem are the linearised equations')
    # which rows exist
    for sp in solver.subproblems:
        n = sp.group[0]
        rows = [sp.field_size(e['eqn']) for e in Q.equations]
        env.check(sp.pre_left.shape[0] in (0, rows[0] + 1), 'exactly one boundary row per group', info=str(sp.group))


def square_body(env):
    """Systems with too many or too few equations in some group are refused."""
    d3 = scen.start(env)
    N = ns_2d(d3)
    bx, bz = N.g.bases
    u, tau = N.p, N.g.dist.Field(name='tau', bases=bx)
    dz = lambda A: d3.Differentiate(A, N.g.coords['z'])
    a = env.choose('first', ["nx != 0", "True", "nx == 1", "nx > 5"])
    b = env.choose('second', ["nx == 0", "False", "nx != 1", "nx == 2"])
    P = d3.LBVP([u, tau])
    P.add_equation((dz(u) + d3.Lift(tau, bz.derivative_basis(1), -1), 0))
    P.add_equation((u(z=0), 0), condition=a)
    P.add_equation((u(z=1), 0), condition=b)
    solver = P.build_solver()
    from dedalus.core import subsystems
    sq = lambda n: eval(a, dict(nx=n)) + eval(b, dict(nx=n)) == 1
    for sp in solver.subproblems:
        n = sp.group[0]
        try:
            subsystems.build_subproblem_matrices(solver, [sp], ['L'])
            took = True
        except ValueError:
            took = False
        env.check(took == sq(n), 'matrices are built if and only if the group has as many equations as unknowns', info=f'{a} / {b}: group {n}')


def harnesses(tier):
    thorough = tier == 'thorough'

    def split(ctx):
        ctx.encodes('tools.parsing.split_equation')
        nmax = 7 if thorough else 5
        ctx.bound(f'every string of 0..{nmax} characters, each symbolic over "(", ")", "=" and any other character')
        for n in range(nmax + 1):
            ctx.run(f'split n={n}', split_body(n), expect=['an equation with exactly one top-level equals sign is accepted'])

    def strings(ctx):
        ctx.encodes('problems.ProblemBase.add_equation', 'problems.*._build_matrix_expressions', 'tools.parsing', 'field.Operand.split', 'subsystems.Subproblem.build_matrices')
        ctx.bound('string equations of six problems (IVP, LBVP, EVP; 1-D Chebyshev 5, Fourier 4 x Legendre 4); every representable value of variables, their time derivatives and known fields')
        for name, (kind, *_) in CASES.items():
            ctx.run(name, string_body(name), expect=['the matrices act as the left-hand sides of the strings'] + (['the right-hand side is that of the string'] if kind != 'EVP' else []))
        ctx.run('names', names_body, expect=['strings and operator tuples can be mixed'])

    def forms(ctx):
        ctx.encodes('problems.*._check_equation_conditions', 'field.Operand.require_linearity/require_independent/require_first_order', 'arithmetic/operators require_linearity', 'problems.*._build_matrix_expressions')
        ctx.bound('left-hand sides: op(a), op(a+b), op(a*b) with op in identity, negation, derivative, time derivative, NCC product and a, b in 16 atoms; right-hand sides: 13 forms; accepted left-hand sides for every value of the variables')
        for kind in ('LBVP', 'IVP', 'EVP'):
            for op1 in ('id', '-', 'dx', 'n*') + (('dt',) if kind == 'IVP' else ()):
                for b in (None, '+', '*'):
                    if not thorough and op1 in ('-', 'n*') and b:
                        continue
                    ctx.run(f'{kind} {op1}(a {b or ""} b)', tree_body(kind, op1, b, not thorough), expect=['matrices of accepted equations act as the left-hand side'])
        ctx.run('right-hand sides', rhs_body, expect=['an equation is accepted if and only if its right-hand side has the documented form'])

    def conditions(ctx):
        ctx.encodes('subsystems.Subproblem.check_condition/build_matrices/gather_outputs/scatter_outputs', 'problems.InitialValueProblem.build_EVP', 'distributor.Layout group arrays')
        ctx.bound('8 conditions and their negations on 2 separable + 1 coupled axes (6/4 x 4 x 3), real and complex; disk 8x4; square and non-square systems (16 combinations)')
        for dt, nm in ((R, 'real'), (C, 'complex')):
            for i in range(len(CONDS)):
              for form in ('plain', 'walls'):
                ctx.run(f'{nm} {form} {CONDS[i][0]}', cond_body(dt, i, form, zfirst=i % 2 == 1), expect=['an equation applies exactly to the modes of the groups selected by its condition'])
            for kind in ('disk', 'annulus'):
              ctx.run(f'{nm} {kind}', disk_cond_body(dt, kind), expect=['an equation applies exactly to the modes of the groups selected by its condition'])
        ctx.run('evp', evp_cond_body, expect=['exactly one boundary row per group'])
        ctx.run('square', square_body, expect=['matrices are built if and only if the group has as many equations as unknowns'])
    return [('split', split), ('strings', strings), ('forms', forms), ('conditions', conditions)]
