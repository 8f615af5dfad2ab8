"""Symbolic manipulation of expressions preserves meaning."""
import itertools, math
import numpy as np
from vt import scen, geo, lin

ASSUMPTIONS = ["scalar and vector data arbitrary reals (|x|<=1), polynomial expressions; agreement to 1e-9",
               "operators on resolved data: their evaluation itself is property C11"]
R, C = np.float64, np.complex128

# ------------------------------------------------------------------ expression programs over basis-free fields
# a tree is a leaf name, ('num', x), or (op, *trees); every tree has a rank
SCAL, VEC = ['u', 'v', 'n'], ['p', 'q', 'm']
UN = {'neg': lambda a: -a, 'sq': lambda a: a**2, 'cube': lambda a: a**3, 'two': lambda a: 2*a, 'half': lambda a: a/2, 'one': lambda a: 1*a, 'zero': lambda a: a*0,
      'pow1': lambda a: a**1, 'np2': lambda a: np.float64(2.0)*a, 'np-': lambda a: np.float64(1.5) - a, 'inc': lambda a: a + 1, 'dec': lambda a: 3 - a, 'plus0': lambda a: 0 + a}


def rank(t):
    if isinstance(t, str):
        return 0 if t in SCAL + ['w', 'eps'] else 1
    op, *a = t
    if op == 'num':
        return 0
    if op in ('dot',):
        return 0
    if op == 'mul':
        return rank(a[0]) + rank(a[1])
    return rank(a[0])


def build(t, L, d3):
    """the expression"""
    if isinstance(t, str):
        return L[t]
    op, *a = t
    if op == 'num':
        return a[0]
    a = [build(x, L, d3) for x in a]
    if op == 'add': return a[0] + a[1]
    if op == 'sub': return a[0] - a[1]
    if op == 'mul': return a[0]*a[1]
    if op == 'dot': return a[0]@a[1]
    if op == 'cross': return d3.cross(a[0], a[1])
    if op == 'square': return np.square(a[0])
    if op == 'userf':
        from dedalus.core.operators import UnaryGridFunction
        def f(x, out):
            out[:] = x**3 - x
        return UnaryGridFunction(f, a[0], deriv=lambda y: 3*y**2 - 1)
    if op in ('grid', 'coeff'): return (d3.Grid if op == 'grid' else d3.Coeff)(a[0])
    return UN[op](a[0])


def value(t, D):
    """its value from data: scalars are 0-d (or arrays), vectors lists of components"""
    if isinstance(t, str):
        return D[t]
    op, *a = t
    if op == 'num':
        return a[0]
    a = [value(x, D) for x in a]
    m1 = lambda f, x: [f(y) for y in x] if isinstance(x, list) else f(x)
    m2 = lambda f, x, y: [f(s, t) for s, t in zip(x, y)] if isinstance(x, list) else f(x, y)
    if op == 'add': return m2(lambda x, y: x + y, *a)
    if op == 'sub': return m2(lambda x, y: x - y, *a)
    if op == 'mul':
        x, y = a
        if isinstance(x, list): return [s*y for s in x]
        if isinstance(y, list): return [x*s for s in y]
        return x*y
    if op == 'dot': return sum(x*y for x, y in zip(*a))
    if op == 'cross':
        x, y = a
        return [x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2], x[0]*y[1] - x[1]*y[0]]
    if op == 'square': return a[0]*a[0]
    if op == 'userf': return a[0]*a[0]*a[0] - a[0]
    if op == 'cube': return a[0]*a[0]*a[0]
    if op == 'sq': return a[0]*a[0]
    if op == 'pow1': return a[0]
    if op in ('grid', 'coeff'): return a[0]
    return m1(UN[op], a[0])


def leaves(t):
    if isinstance(t, str):
        return {t}
    if t[0] == 'num':
        return set()
    return set().union(*(leaves(x) for x in t[1:]))


def degree(t, D=1):
    if isinstance(t, str):
        return 1
    op, *a = t
    if op == 'num':
        return 0
    d = [degree(x) for x in a]
    if op in ('mul', 'dot', 'cross'): return sum(d)
    if op in ('sq', 'square'): return 2*d[0]
    if op in ('cube', 'userf'): return 3*d[0]
    return max(d)


def number(t):
    """does the expression fold to a number"""
    if isinstance(t, str):
        return False
    op, *a = t
    n = [number(x) for x in a]
    return op in ('num', 'zero') or (op in ('mul', 'dot', 'cross') and any(n)) or all(n)


def folds(t):
    """functions of numbers are not expressions"""
    if isinstance(t, str) or t[0] == 'num':
        return False
    return any(number(x) for x in t[1:] if t[0] in ('square', 'userf', 'grid', 'dot', 'cross')) or any(folds(x) for x in t[1:])


def programs(depth):
    """trees by depth: all of depth <= 2, combinations of those for depth 3"""
    lev = {0: (SCAL[:], VEC[:])}
    s, v = lev[0]
    def grow(s, v, s0, v0):
        S, V = [], []
        for o in list(UN) + ['square', 'userf', 'grid']:
            S += [(o, x) for x in s]
        for o in ('neg', 'two', 'half', 'one', 'np2', 'grid', 'plus0'):
            V += [(o, x) for x in v]
        for x, y in itertools.product(s, s0):
            S += [(o, x, y) for o in ('add', 'sub', 'mul')]
        for x, y in itertools.product(v, v0):
            V += [(o, x, y) for o in ('add', 'sub', 'cross')]
            S += [('dot', x, y)]
        for x, y in itertools.product(s, v0):
            V += [('mul', x, y), ('mul', y, x)]
        return S, V
    s1, v1 = grow(s, v, s, v)
    s2, v2 = grow(s1, v1, s, v)
    s3 = [(o, x, y) for i, x in enumerate(s1) for j, y in enumerate(s1) for k, o in enumerate(('add', 'mul', 'sub')) if (7*i + 11*j + k) % 23 == 0]
    v3 = [(o, x, y) for i, x in enumerate(v1) for j, y in enumerate(v1) for k, o in enumerate(('add', 'cross', 'sub')) if (7*i + 11*j + k) % 23 == 0]
    s3 += [('dot', x, y) for i, x in enumerate(v1) for j, y in enumerate(v1) if (5*i + 3*j) % 19 == 0]
    out = s1 + v1 + [t for i, t in enumerate(s2) if i % (1 if depth else 3) == 0] + [t for i, t in enumerate(v2) if i % (1 if depth else 4) == 1] + s3[::1 if depth else 2] + v3[::1 if depth else 3]
    return [t for t in out if degree(t) <= 4 and not folds(t)]


def scalar_value(x):
    return x


def run_programs(env, trees, what, dtype=R):
    d3 = scen.start(env)
    from dedalus.core.field import Operand
    cs = d3.CartesianCoordinates('x', 'y', 'z')
    dist = d3.Distributor(cs, dtype=dtype)
    cx = dtype is C
    names = SCAL + VEC + ['w', 'r', 'u1', 'v1', 'p1', 'q1', 'eps']
    vecs = set(VEC + ['r', 'p1', 'q1'])
    F, D = {}, {}
    for nm in names:
        f = dist.VectorField(cs, name=nm) if nm in vecs else dist.Field(name=nm)
        f.preset_layout('g')
        a = env.array(nm, f.data.shape, complex=cx)
        f['g'] = a
        F[nm] = f
        g = f['g'].copy()
        D[nm] = [g[i].reshape(()) for i in range(3)] if nm in vecs else g.reshape(())

    def ev(e, rk):
        if not isinstance(e, Operand):
            return [e]*3 if rk and e == 0 else e
        out = e.evaluate() if not hasattr(e, 'data') else e
        out = out.copy()
        out.require_grid_space() if hasattr(out, 'require_grid_space') else None
        g = out['g']
        return [g[i].reshape(()) for i in range(g.shape[0])] if len(out.tensorsig) else g.reshape(())

    def same(got, exp, label, info):
        if isinstance(exp, list):
            if not isinstance(got, list):
                env.fail(label, info=f'{info}: rank differs')
                return
            got, exp = np.stack([1.0*x + 0*D['eps'] for x in got]), np.stack([1.0*x + 0*D['eps'] for x in exp])
        else:
            got, exp = np.reshape(1.0*got + 0*D['eps'], (1,)), np.reshape(1.0*exp + 0*D['eps'], (1,))
        env.equal(got, exp, label, info=info)

    def expr(t, sub={}):
        return build(t, {**F, **{k: F[x] for k, x in sub.items()}}, d3)

    def val(t, sub={}):
        return value(t, {**D, **sub})
    for t in trees:
        rk = rank(t)
        info = str(t)
        e = expr(t)
        if not isinstance(e, Operand):
            same(e if not rk else [e]*3, val(t), 'expressions that fold to numbers keep their value', info)
            continue
        if 'value' in what:
            same(ev(e, rk), val(t), 'an expression evaluates to its value', info)
            same(ev(e, rk), val(t), 'an expression evaluates to its value again', info)
        if 'split' in what:
            for vs in (('u',), ('p',), ('u', 'p', 'v'), ('n',)):
                A, B = e.split(*(F[x] for x in vs))
                tot = A + B if not (np.isscalar(A) and np.isscalar(B)) else A + B
                same(ev(tot, rk), val(t), 'the parts of a split expression add up to it', f'{info} split {vs}')
                if isinstance(B, Operand):
                    env.check(not B.has(*(F[x] for x in vs)), 'the remainder of a split is independent of the split variables', info=f'{info} split {vs}')
                    same(ev(B, rk), ev(B.replace(F['eps'], F['w']), rk), 'replacing an absent operand changes nothing', info)
                # the dependent part contains only terms with the variables
                if isinstance(A, Operand):
                    from dedalus.core.arithmetic import Add
                    def terms(x):
                        return sum([terms(y) for y in x.args], []) if isinstance(x, Add) else [x]
                    env.check(all(x.has(*(F[y] for y in vs)) for x in terms(A)), 'every split term contains a split variable', info=f'{info} split {vs}')
        if 'replace' in what:
            for old, new in (('u', 'w'), ('n', 'u'), ('p', 'r'), ('q', 'p')):
                x = e.replace(F[old], F[new])
                same(ev(x, rk), val(t, {old: D[new]}), 'replacing an operand substitutes its value', f'{info} {old}->{new}')
            # by an expression
            x = e.replace(F['u'], F['u'] + F['w']*F['w'])
            same(ev(x, rk), val(t, {'u': D['u'] + D['w']*D['w']}), 'replacing an operand substitutes its value', f'{info} u->u+w*w')
            same(ev(e, rk), val(t), 'replacement leaves the original expression alone', info)
            has = leaves(t)
            for x in SCAL + VEC:
                if x in has and not any(z in info for z in ("'zero'",)):
                    env.check(e.has(F[x]) and (x in {y.name for y in e.atoms(type(F[x]))}), 'atoms and membership', info=f'{info} {x}')
                if x not in has:
                    env.check(not e.has(F[x]) and F[x] not in list(e.atoms()), 'atoms and membership', info=f'{info} {x}')
        if 'diff' in what:
            ut = {'u': F['u'] + F['eps']*F['u1'], 'v': F['v'] + F['eps']*F['v1'], 'p': F['p'] + F['eps']*F['p1'], 'q': F['q'] + F['eps']*F['q1']}
            at = lambda x, back: val(t, {k: ([a + x*b for a, b in zip(D[back[k]], D[k + '1'])] if k in 'pq' else D[back[k]] + x*D[k + '1']) for k in 'uvpq'})
            def deriv(back):
                # exact for polynomials of degree <= 4
                f = [at(x, back) for x in (-2., -1., 1., 2.)]
                comb = lambda a, b, c, d: (a - 8.0*b + 8.0*c - d)/12.0
                return [comb(*z) for z in zip(*f)] if isinstance(f[0], list) else comb(*f)
            same_back = {k: k for k in 'uvpq'}
            variables, perts = [F[x] for x in 'uvpq'], [F[x + '1'] for x in 'uvpq']
            for nm, back, bg in (('', same_back, None), ('backgrounds', dict(u='w', v='n', p='m', q='r'), None), ('swapped', dict(u='v', v='u', p='q', q='p'), None)):
                bgs = None if nm == '' else [F[back[x]] for x in 'uvpq']
                dF = e.frechet_differential(variables, perts, backgrounds=bgs)
                exp = deriv(back)
                if not isinstance(dF, Operand):
                    dF = [dF]*3 if rk else dF
                    same(dF, exp, 'Frechet differential', f'{info} {nm}')
                else:
                    same(ev(dF, rk), exp, 'Frechet differential', f'{info} {nm}')
            # a single perturbed variable
            dF = e.frechet_differential([F['u']], [F['u1']])
            f1 = [val(t, {'u': D['u'] + x*D['u1']}) for x in (-2., -1., 1., 2.)]
            comb = lambda a, b, c, d: (a - 8.0*b + 8.0*c - d)/12.0
            exp = [comb(*z) for z in zip(*f1)] if rk else comb(*f1)
            same(ev(dF, rk) if isinstance(dF, Operand) else ([dF]*3 if rk else dF), exp, 'Frechet differential', f'{info} single')


def chunks(n):
    def h_chunk(k, what, dtype=R):
        def h(ctx):
            ctx.encodes('arithmetic.Add/Multiply/DotProduct/CrossProduct', 'operators.Power/UnaryGridFunction/Lock', 'field.Operand.frechet_differential', 'future.Future.replace/evaluate')
            ctx.bound('typed expression trees of depth <= 3 over 3 scalars and 3 vectors (degree <= 4), every data value')
            trees = programs(ctx.tier == 'thorough')
            mine = trees[k::n]
            for i in range(0, len(mine), 60):
                ctx.run(f'programs {k} {i} {"+".join(what)}', lambda env, m=mine[i:i + 60]: run_programs(env, m, what, dtype))
        return h
    return h_chunk


# ------------------------------------------------------------------ linear operators
def op_table(d3, kind):
    """(operand-rank-keyed) linear operator constructors on a small geometry"""
    from dedalus.core import operators as O
    if kind == 'cart':
        g = geo.cart(d3, [('x', 'C', 4, (0, 3)), ('z', 'T', 5, (0, 2))], C)
        bx, bz = g.bases
        bases, cst = g.bases, (g.cs, g.cs)
        x, z = g.coords['x'], g.coords['z']
        kv = g.dist.VectorField(g.cs, name='kv')
        kv['g'] = np.array([1.3, -0.4]).reshape(kv['g'].shape)
        sc = dict(dx=lambda a: d3.Differentiate(a, x), dz=lambda a: d3.Differentiate(a, z), lap=d3.lap, grad=d3.grad, interp=lambda a: a(z=0.5), interpx=lambda a: a(x=1.3), integ=lambda a: d3.integ(a), integx=lambda a: d3.integ(a, x), ave=lambda a: d3.ave(a, z), avex=lambda a: d3.ave(a, 'x'), conv=lambda a: d3.Convert(a, bz.derivative_basis(1)), grid=d3.Grid, coeff=d3.Coeff,
                  mix=lambda a: d3.Differentiate(d3.integ(d3.Differentiate(a, z)*2, z), x), hil=lambda a: d3.HilbertTransform(a, x) if hasattr(d3, 'HilbertTransform') else 1*a)
        ve = dict(div=d3.div, grad=d3.grad, skew=d3.skew, comp=lambda a: d3.comp(a, index=0, comp=x), lap=d3.lap, interp=lambda a: a(z='left'), ave=lambda a: d3.ave(a, z), outer=lambda a: kv*a, dot=lambda a: a@kv)
        te = dict(trace=d3.trace, trans=d3.transpose, div=d3.div, comp=lambda a: d3.comp(a, index=1, comp=z), skew=lambda a: d3.skew(a, index=1), dot=lambda a: d3.DotProduct(kv, a, indices=(0, 1)), dotr=lambda a: d3.DotProduct(a, kv, indices=(0, 0)))
        t0 = dict(lift=lambda a: d3.Lift(a, bz, -1), dx=lambda a: d3.Differentiate(a, x))
        return g, bases, sc, ve, te, t0, bx
    if kind == 'disk':
        g = geo.polar(d3, 'disk', (4, 4), C, radius=1.5)
        b = g.basis
        r = b.coordsys.radius
        sc = dict(lap=d3.lap, grad=d3.grad, integ=d3.integ, ave=d3.ave, interp=lambda a: a(r=1.), mulcos=None)
        ve = dict(div=d3.div, grad=d3.grad, lap=d3.lap, skew=d3.skew, radial=lambda a: d3.radial(a(r=1.5)), angular=lambda a: d3.angular(a(r=1.5)))
        te = dict(trace=d3.trace, trans=d3.transpose, div=d3.div)
        t0 = dict(lift=lambda a: d3.Lift(a, b, -1))
        sc = {k: f for k, f in sc.items() if f}
        return g, (b,), sc, ve, te, t0, b.edge
    if kind == 'sphere':
        g = geo.sphere(d3, (4, 4), C)
        b = g.basis
        sc = dict(lap=d3.lap, grad=d3.grad, ave=d3.ave, mulcos=d3.MulCosine, interp=lambda a: a(theta=1.))
        ve = dict(div=d3.div, grad=d3.grad, lap=d3.lap, skew=d3.skew, mulcos=d3.MulCosine)
        te = dict(div=d3.div)
        return g, (b,), sc, ve, te, {}, None
    g = geo.spherical(d3, kind, (4, 3, 3), C, **(dict(radius=1.5) if kind == 'ball' else dict(radii=(.5, 1.5))))
    b = g.basis
    edge = b.surface if kind == 'ball' else b.outer_surface
    ell = lambda a: O.SphericalEllProduct(a, g.cs, lambda l: l + 2)
    sc = dict(lap=d3.lap, grad=d3.grad, integ=d3.integ, interp=lambda a: a(r=1.), ell=ell)
    ve = dict(div=d3.div, curl=d3.curl, grad=d3.grad, lap=d3.lap, radial=lambda a: d3.radial(a(r=1.5)), angular=lambda a: d3.angular(a(r=1.5)))
    te = dict(trace=d3.trace, trans=d3.transpose, div=d3.div)
    t0 = dict(lift=lambda a: d3.Lift(a, b, -1))
    return g, (b,), sc, ve, te, t0, edge


def op_body(kind, rk, name, what):
    def body(env):
        d3 = scen.start(env)
        from dedalus.core.field import Operand
        from dedalus.core import operators as O
        g, bases, sc, ve, te, t0, edge = op_table(d3, kind)
        op = (t0 if rk == 'edge' else (sc, ve, te)[rk])[name]
        rnk = 0 if rk == 'edge' else rk
        bb = (edge,) if rk == 'edge' else bases
        mk = lambda nm: g.dist.TensorField((g.cs,)*rnk, name=nm, bases=bb) if rnk > 1 else g.dist.VectorField(g.cs, name=nm, bases=bb) if rnk else g.dist.Field(name=nm, bases=bb)
        F = {nm: mk(nm) for nm in ('u', 'v', 'w', 'd', 'b', 'k')}
        const = g.dist.Field(name='const')
        const['g'] = 0.7
        for i, (nm, f) in enumerate(F.items()):
            f['c'] = env.array(nm, f['c'].shape, complex=True)*f.valid_modes.astype(float)
            f['g']
            f['c']

        def ev(e):
            if not isinstance(e, Operand):
                return e
            f = (e.evaluate() if not hasattr(e, 'data') else e).copy()
            f.change_scales(1)
            return f['g'].copy() if name == 'conv' else f['c'].copy()

        def eq(a, b, label, info=''):
            a, b = ev(a), ev(b)
            if np.isscalar(a): a = a + 0*b
            if np.isscalar(b): b = b + 0*a
            env.equal(a, b, label, tol=1e-8, info=info)
        u, v, w, d, bk, k = (F[x] for x in 'uvwdbk')
        # every way the operator occurs in equations
        forms = dict(plain=lambda u, v: op(u), scaled=lambda u, v: 3*op(u) - op(2*v), sum=lambda u, v: op(u + 2*v), const=lambda u, v: op(const*u + v*const)*const + op(v))
        big = kind in ('ball', 'shell')
        if name == 'coeff' or (kind == 'disk' and (rk == 'edge' or name in ('interp', 'radial', 'angular'))):
            del forms['const']              # products of constants and edge fields are not supported on polar domains; of coefficient-locked fields nowhere
        if big:
            del forms['plain'], forms['sum']
        for fn, form in forms.items():
            e = form(u, v)
            if 'split' in what:
                for vs in ((u,), (v,), (u, v), (d,))[1 if big else 0:3 if big else 4]:
                    A, B = e.split(*vs)
                    eq(A + B, e, 'the parts of a split expression add up to it', fn)
                    env.check(not (isinstance(B, Operand) and B.has(*vs)), 'the remainder of a split is independent of the split variables', info=fn)
                    exp = form(u if u in vs else 0*u, v if v in vs else 0*v) if False else None
                    want_u, want_v = u if u in vs else None, v if v in vs else None
                    zero = k.copy()
                    zero['c'] = 0
                    eq(A, form(want_u if want_u is not None else zero, want_v if want_v is not None else zero), 'a split linear expression keeps exactly the terms of its variables', fn)
                # splitting and removing time derivatives
                e2 = form(d3.dt(u), v)
                A, B = e2.split(O.TimeDerivative)
                if A:
                    A = A.replace(O.TimeDerivative, lambda x: x)
                zero = k.copy()
                zero['c'] = 0
                eq(A, form(u, zero), 'time derivatives are separated and removed', fn)
                eq(B, form(zero, v), 'time derivatives are separated and removed', fn)
            if 'replace' in what:
                eq(e.replace(u, w), form(w, v), 'replacing an operand substitutes its value', fn)
                eq(e.replace(u, w + d).replace(v, u), form(w + d, u), 'replacing an operand substitutes its value', fn)
                eq(e.replace(u, v), form(v, v), 'replacing an operand substitutes its value', fn)
                eq(e.reinitialize(ncc=True, ncc_vars=[u, v]), e, 'reinitialization preserves the value', fn)
                dF = e.frechet_differential([u, v], [w, d])
                eq(dF, form(w, d), 'Frechet differential', fn)
                dF = e.frechet_differential([v], [d], backgrounds=[bk])
                zero = k.copy()
                zero['c'] = 0
                eq(dF, form(zero, d), 'Frechet differential', fn)
                # locks around and inside
                L = d3.Grid(const)*form(u, v) if 'const' in forms else 3*form(u, v)
                dF = L.frechet_differential([u], [w])
                eq(dF, (const if 'const' in forms else 3)*form(w, zero), 'Frechet differential', fn + ' locked')
                X = d3.Grid(form(d3.Grid(u), v)).replace(O.Lock, lambda x: x)
                env.check(not X.has(O.Lock) or name in ('grid', 'coeff') and False, 'replacing an operator replaces it at every level', info=fn)
                eq(X, form(u, v), 'replacing an operand substitutes its value', fn)
        env.nonzero(ev(op(u)), 'operator')
    return body


def h_ops(kind, ranks=None):
    def h(ctx):
        ctx.encodes('LinearOperator.split/replace/sym_diff/new_operand of every operator', 'field.Operand.frechet_differential')
        ctx.bound('every operator x operand rank on a small geometry, linear combinations with constants, locks and time derivatives, every data value')
        from vt import scen as _s
        names = OPS[kind]
        for rk, ns in names.items():
            for nm in ns if ranks is None or rk in ranks else ():
                ctx.run(f'{kind} rank {rk} {nm}', op_body(kind, rk, nm, ('split', 'replace')))
    return h


OPS = dict(cart={0: ['dx', 'dz', 'lap', 'grad', 'interp', 'interpx', 'integ', 'integx', 'ave', 'avex', 'conv', 'grid', 'coeff', 'mix'], 1: ['div', 'grad', 'skew', 'comp', 'lap', 'interp', 'ave', 'outer', 'dot'], 2: ['trace', 'trans', 'div', 'comp', 'skew', 'dot', 'dotr'], 'edge': ['lift', 'dx']},
           disk={0: ['lap', 'grad', 'integ', 'ave', 'interp'], 1: ['div', 'grad', 'lap', 'skew', 'radial', 'angular'], 2: ['trace', 'trans', 'div'], 'edge': ['lift']},
           sphere={0: ['lap', 'grad', 'ave', 'mulcos'], 1: ['div', 'grad', 'lap', 'skew', 'mulcos'], 2: ['div']},
           ball={0: ['lap', 'grad', 'integ', 'interp', 'ell'], 1: ['div', 'curl', 'grad', 'lap', 'radial', 'angular'], 2: ['trace', 'trans', 'div'], 'edge': ['lift']},
           shell={0: ['lap', 'grad', 'integ', 'interp', 'ell'], 1: ['div', 'curl', 'grad', 'lap', 'radial', 'angular'], 2: ['trace', 'trans', 'div'], 'edge': ['lift']})


# ------------------------------------------------------------------ derivatives of elementary functions
def h_elementary(ctx):
    """the registered derivative of every ufunc, as an algebraic identity over its defining relations"""
    ctx.encodes('operators.UnaryGridFunction.ufunc_derivatives, sym_diff', 'operators.Power.sym_diff')
    ctx.bound('every registered function, every real argument in its domain; also inside products, powers and compositions')
    from dedalus.core.operators import UnaryGridFunction
    names = [f.__name__ for f in UnaryGridFunction.ufunc_derivatives]
    for nm in names:
        if nm in ('sign',):
            continue
        ctx.run(f'derivative of {nm}', elementary_body(nm))
        ctx.run(f'derivative of {nm} composed', elementary_body(nm, True))
    for p in (2, 3, 0.5, 1.5, -1, -2, -0.5, 1):
        ctx.run(f'derivative of power {p}', elementary_body(p))
        ctx.run(f'derivative of power {p} composed', elementary_body(p, True))


def interpret(e, x, A, d3):
    """evaluate an expression tree in the engine domain; A maps (ufunc name) -> value at the leaf"""
    from dedalus.core import operators as O, arithmetic as Ar
    from dedalus.core.field import Field
    if isinstance(e, (int, float, np.number)):
        return e
    if isinstance(e, Field):
        return x[e.name] if e.name in x else float(e.name)
    a = lambda i: interpret(e.args[i], x, A, d3)
    if isinstance(e, Ar.Add):
        return a(0) + a(1)
    if isinstance(e, Ar.Multiply):
        return a(0)*a(1)
    if isinstance(e, O.Convert):
        return interpret(e.operand, x, A, d3)
    if isinstance(e, O.Power):
        return A.power(a(0), e.args[1])
    if isinstance(e, O.UnaryGridFunction):
        return A.apply(e.func.__name__, a(0))
    raise TypeError(type(e))


class Atoms:
    """elementary functions as algebraic symbols with their defining relations (one argument value)"""
    def __init__(self, env, x):
        self.env, self.x, self.tab, self.pw = env, x, {}, {}

    def sym(self, nm, rel=None):
        if nm not in self.tab:
            self.tab[nm] = self.env.real('f_' + nm)
        return self.tab[nm]

    def power(self, b, n):
        env = self.env
        if float(n) == int(n):
            n = int(n)
            if n >= 0:
                r = 1
                for _ in range(n): r = r*b
                return r
            return 1/self.power(b, -n)
        h = 2*n
        assert float(h) == int(h), n
        key = str(b)
        if key not in self.pw:
            r = env.real(f'root{len(self.pw)}')
            env.assume(r > 0)
            env.assume(r*r == b)
            self.pw[key] = r
        return self.power(self.pw[key], int(h))

    def apply(self, nm, x):
        env = self.env
        trig = {'sin': 's', 'cos': 'c', 'exp': 'e', 'sinh': 'sh', 'cosh': 'ch', 'tan': 't', 'tanh': 'th', 'exp2': 'e2', 'log': 'l'}
        if nm == 'sign':
            return 1 if bool(x > 0) else -1
        key = (nm, str(x))
        S = lambda n: self.sym(f'{n}({key[1]})' if False else f'{n}')
        if not hasattr(self, 'rel'):
            self.rel = True
            s, c, sh, ch = S('sin'), S('cos'), S('sinh'), S('cosh')
            env.assume(s*s + c*c == 1)
            env.assume(ch*ch - sh*sh == 1)
            env.assume(ch > 0)
            env.assume(c*c > 0)
        if nm == 'tan':
            if 'tan' not in self.tab:
                t, c = S('tan'), S('cos')
                env.assume(c*c*(1 + t*t) == 1)
                env.assume(S('sin') == t*c)
            return S('tan')
        if nm == 'tanh':
            if 'tanh' not in self.tab:
                t, c = S('tanh'), S('cosh')
                env.assume(c*c*(1 - t*t) == 1)
                env.assume(S('sinh') == t*c)
            return S('tanh')
        return S(nm)


def reference(nm, x, A, env):
    """derivative of the function at x, from calculus"""
    S = lambda n: A.apply(n, x)
    ln2, ln10 = math.log(2), math.log(10)
    def root(b):
        return A.power(b, 0.5)
    return {'absolute': lambda: 1 if bool(x > 0) else -1, 'exp': lambda: S('exp'), 'exp2': lambda: S('exp2')*ln2, 'log': lambda: 1/x, 'log2': lambda: 1/(x*ln2), 'log10': lambda: 1/(x*ln10),
            'sqrt': lambda: 1/(2*root(x)), 'square': lambda: 2*x, 'sin': lambda: S('cos'), 'cos': lambda: -S('sin'), 'tan': lambda: 1 + S('tan')*S('tan'), 'arcsin': lambda: 1/root(1 - x*x),
            'arccos': lambda: -1/root(1 - x*x), 'arctan': lambda: 1/(1 + x*x), 'sinh': lambda: S('cosh'), 'cosh': lambda: S('sinh'), 'tanh': lambda: 1 - S('tanh')*S('tanh'),
            'arcsinh': lambda: 1/root(x*x + 1), 'arccosh': lambda: 1/root(x*x - 1), 'arctanh': lambda: 1/(1 - x*x), 'erf': lambda: 2/math.sqrt(math.pi)*A.gauss()}[nm]()


DOMAIN = {'log': (0.1, 9), 'log2': (.1, 9), 'log10': (.1, 9), 'sqrt': (.1, 9), 'arcsin': (-.9, .9), 'arccos': (-.9, .9), 'arccosh': (1.1, 9), 'arctanh': (-.9, .9)}


def elementary_body(nm, composed=False):
    power = not isinstance(nm, str)

    def body(env):
        import dedalus.public as d3, logging
        from dedalus.core.operators import UnaryGridFunction
        logging.disable(logging.CRITICAL)
        func = (lambda z: z**nm) if power else [f for f in UnaryGridFunction.ufunc_derivatives if f.__name__ == nm][0]
        c = d3.Coordinate('x')
        dist = d3.Distributor(c, dtype=np.float64)
        u, v, eps = dist.Field(name='u'), dist.Field(name='v'), dist.Field(name='eps')
        E = (v*func(u)**2 + 3*func(u))*v if composed else func(u)
        dE = E.frechet_differential([u], [v])
        x = env.real('x')
        y = env.real('y')
        lo, hi = DOMAIN.get(nm, (0.2, 3) if power else (-3, 3))
        env.assume(x > lo)
        env.assume(x < hi)
        env.assume(abs(y) < 2)
        if nm in ('absolute', 'sign', 'tan'):
            env.assume(abs(x) > 0.01)
        if env.sym:
            A = Atoms(env, x)
            if nm == 'erf':
                # exp(-x^2) is the only transcendental value involved
                g = env.real('gauss')
                A.gauss = lambda: g
                A.apply0 = A.apply
                A.apply = lambda n, a: g if n == 'exp' else A.apply0(n, a)
                # the argument handed to exp must be -x^2
            f = lambda n, a: A.apply(n, a)
            got = interpret(dE, {'u': x, 'v': y}, A, d3)
            fx = A.power(x, nm) if power else A.apply(nm, x) if nm not in ('square', 'sqrt') else (x*x if nm == 'square' else A.power(x, 0.5))
            if nm in ('square', 'sqrt'):
                A2 = A.apply
                A.apply = lambda n, a: (a*a if n == 'square' else A.power(a, 0.5)) if n in ('square', 'sqrt') else A2(n, a)
                got = interpret(dE, {'u': x, 'v': y}, A, d3)
            if nm == 'absolute':
                A2 = A.apply
                A.apply = lambda n, a: abs(a) if n == 'absolute' else A2(n, a)
                got = interpret(dE, {'u': x, 'v': y}, A, d3)
                fx = abs(x)
            ref = (nm*A.power(x, nm - 1) if power else reference(nm, x, A, env))*y
            exp = (2*y*fx + 3)*y*ref if composed else ref
            env.same(got, exp, 'derivatives of elementary functions')
            if nm == 'erf':
                from dedalus.core.operators import UnaryGridFunction as U
                inner = [e for e in walk(dE) if isinstance(e, U) and e.func.__name__ == 'exp']
                for e in inner:
                    env.same(interpret(e.args[0], {'u': x, 'v': y}, A, d3), -x*x, 'derivatives of elementary functions')
        else:
            import mpmath
            fn = {'absolute': mpmath.fabs, 'exp2': lambda z: mpmath.mpf(2)**z, 'log2': lambda z: mpmath.log(z, 2), 'log10': mpmath.log10, 'square': lambda z: z*z, 'arcsin': mpmath.asin, 'arccos': mpmath.acos, 'arctan': mpmath.atan, 'arcsinh': mpmath.asinh, 'arccosh': mpmath.acosh, 'arctanh': mpmath.atanh}.get(nm) or (lambda z: z**nm if power else getattr(mpmath, nm)(z))
            X, Y = float(x), float(y)
            F = lambda z: (Y*fn(z)**2 + 3*fn(z))*Y if composed else fn(z)
            exp = float(mpmath.diff(F, X))*Y
            u['g'], v['g'] = X, Y
            got = float(np.ravel(dE.evaluate()['g'])[0]) if not np.isscalar(dE) else dE
            env.check(abs(got - exp) <= 1e-6*(1 + abs(exp)), 'derivatives of elementary functions', info=f'{nm} at {X}: {got} vs {exp}')
    return body


def walk(e):
    yield e
    for a in getattr(e, 'args', []):
        yield from walk(a)


def harnesses(tier):
    n = 6
    ch = chunks(n)
    out = [(f'ops-{k}-{i}', h_ops(k, r)) for k in ('shell', 'ball') for i, r in enumerate(((1,), (2,), (0, 'edge')))]
    out += [('elementary', h_elementary)] + [('ops-' + k, h_ops(k)) for k in ('cart', 'disk', 'sphere')]
    return out + [(f'tree-{k}', ch(k, ('value', 'split', 'replace', 'diff'))) for k in range(n)]
