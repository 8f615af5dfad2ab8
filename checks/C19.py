"""Subproblem vectors: every valid mode in exactly one place, in the documented order, under every ordering option."""
import numpy as np
from vt import scen, geo, lin
from checks.C05 import LINEAR, Prob, fld

ASSUMPTIONS = ["field data and vectors: every value (|x|<=1), including coefficients that are not valid modes; agreement to 1e-9",
               "problems of the listed geometries and sizes; serial (process meshes: C20)"]
R, C = np.float64, np.complex128


def p_merged(d3, dtype=R):
    """Matrices independent of the separable groups: several groups share one subproblem."""
    g = geo.cart(d3, [('x', 'R' if dtype is R else 'C', 6, (0, 3)), ('z', 'T', 4, (0, 1))], dtype)
    u, v = fld(g, 'u', g.bases, 1), fld(g, 'v', g.bases)
    f, h = fld(g, 'f', g.bases, 1), fld(g, 'h', g.bases)
    return Prob([u, v], [f, h], [(u + 2*d3.skew(u), f), (3*v, h)])


def p_mixed(d3, dtype=R):
    """Fields and equations of every dimension and rank, a tensor equation included."""
    g = geo.cart(d3, [('x', 'R' if dtype is R else 'C', 4, (0, 3)), ('z', 'L', 3, (0, 1))], dtype)
    bx, bz = g.bases
    T, u, a, s, w = fld(g, 'T', g.bases, 2), fld(g, 'u', bx, 1), fld(g, 'a', bz), fld(g, 's'), fld(g, 'w', g.bases)
    F, G = fld(g, 'F', g.bases, 2), fld(g, 'G', bx, 1)
    return Prob([a, T, w, u, s], [F, G], [(2*a + s, 0), (u + T(z=0)@g.cs.unit_vector_fields(g.dist)[0], G), (w - a*2 + d3.trace(T), 0), (T + d3.transpose(T)*.3 , F), (3*s, 0)])


def p_merged3(d3, dtype=R):
    """Two separable axes, one of which the matrices depend on."""
    k = 'R' if dtype is R else 'C'
    g = geo.cart(d3, [('x', k, 4, (0, 3)), ('y', k, 6, (0, 2)), ('z', 'L', 3, (0, 1))], dtype)
    bx, by, bz = g.bases
    u, w, f, h = fld(g, 'u', g.bases, 1), fld(g, 'w', (bx, by)), fld(g, 'f', g.bases, 1), fld(g, 'h', (bx, by))
    dx = lambda A: d3.Differentiate(A, g.coords['x'])
    return Prob([w, u], [f, h], [(2*u - dx(u), f), (3*w, h)])


def p_sphere_merged(d3, dtype=R):
    g = geo.sphere(d3, (8, 4), dtype, radius=1.3)
    u, f = fld(g, 'u', g.basis, 1), fld(g, 'f', g.basis, 1)
    return Prob([u], [f], [(u + 2*d3.skew(u), f)])


def p_radial_merged(kind, rank):
    """Coupled in radius by default, although no operator depends on ell."""
    def f(d3, dtype=R):
        g = geo.spherical(d3, kind, (4, 3, 3), dtype, **(dict(radius=1.5) if kind == 'ball' else dict(radii=(.5, 2))))
        u, f = fld(g, 'u', g.basis, rank), fld(g, 'f', g.basis, rank)
        return Prob([u], [f], [(1.3*u, f)])
    return f


PROBLEMS = dict(LINEAR, merged=p_merged, mergedC=lambda d3: p_merged(d3, C), mixed=p_mixed, mixedC=lambda d3: p_mixed(d3, C), merged3=p_merged3, merged3C=lambda d3: p_merged3(d3, C), spheremerged=p_sphere_merged, spheremergedC=lambda d3: p_sphere_merged(d3, C),
                shellmerged=p_radial_merged('shell', 0), shellvecmerged=p_radial_merged('shell', 1), ballscalmerged=p_radial_merged('ball', 0), ballmerged=p_radial_merged('ball', 1))
OPTIONS = [dict(bc_top=a, tau_left=b, interleave_components=c) for a in (False, True) for b in (False, True) for c in (False, True)]


def build(d3, name, options, ivp=False):
    from dedalus.core import subsystems
    p = PROBLEMS[name](d3)
    P = d3.IVP(p.vars) if ivp else d3.LBVP(p.vars)
    for i, e in enumerate(p.eqs):
        L = e[0]
        if ivp and i == len(p.eqs) - 1:
            L = 0
        P.add_equation(e[:2], **(dict(condition=e[2]) if len(e) > 2 else {}))
    solver = P.build_solver(**options)
    subsystems.build_subproblem_matrices(solver, solver.subproblems, ['L'])
    return p, P, solver


def symbols(env, like, name, dtype, bases=None):
    """Independent value of every stored coefficient, valid or not."""
    f = like.dist.Field(bases=like.domain.bases if bases is None else bases, tensorsig=like.tensorsig, dtype=dtype)
    f.preset_scales(1)
    f.preset_layout('c')
    f['c'] = env.array(name, f.data.shape, complex=np.dtype(dtype).kind == 'c')
    return f


def zeros(fields):
    out = []
    for f in fields:
        o = f.dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, dtype=f.dtype)
        o.preset_scales(1)
        o['c'] = 0
        out.append(o)
    return out


def live(solver):
    return [sp for sp in solver.subproblems if sp.pre_left.shape[0]]


def vectors_body(name, options):
    def body(env):
        d3 = scen.start(env)
        p, P, solver = build(d3, name, options)
        dt = solver.dtype
        X = [symbols(env, v, f'X{i}', dt) for i, v in enumerate(p.vars)]
        # fields -> vectors -> fields
        back = zeros(X)
        junk = [symbols(env, v, f'J{i}', dt) for i, v in enumerate(p.vars)]
        vec = {sp: sp.gather_inputs(X).copy() for sp in live(solver)}
        for sp in live(solver):
            sp.scatter_inputs(vec[sp], back)
            sp.scatter_inputs(vec[sp], junk)
        for v, x, b, j in zip(p.vars, X, back, junk):
            valid = np.asarray(v.valid_modes)
            env.equal(b['c'], x['c']*valid.astype(float), 'fields to vectors and back: exactly the valid modes')
            env.equal(j['c'][valid], x['c'][valid], 'vectors determine every valid mode, whatever the fields held')
        # vectors -> fields -> vectors, all subproblems sharing the fields
        cplx = np.dtype(dt).kind == 'c'
        y = {sp: env.array(f'y{i}', (sp.pre_right.shape[1], len(sp.subsystems)), complex=cplx) for i, sp in enumerate(live(solver))}
        fs = zeros(X)
        for sp in live(solver):
            sp.scatter_inputs(y[sp], fs)
        for sp in live(solver):
            env.equal(sp.gather_inputs(fs).copy(), y[sp], 'vectors to fields and back: independent entries', info=f'group {sp.group}')
        env.check(sum(v.size for v in y.values()) == sum(int(np.sum(v.valid_modes)) for v in p.vars), 'as many entries as valid modes')
        # buffers replaced by changes of scale are followed
        for f in X:
            f.change_scales(3)
            f.require_grid_space() if False else f.change_layout('g')
            f.change_layout('c')
            f.change_scales(1)
            f.preset_layout('c')
            f['c'] = symbols_again(env, f)
        for sp in live(solver):
            got = sp.gather_inputs(X).copy()
            exp = [scen.along(sp.pre_right_pinv.toarray(), ss.gather(X).copy(), 0) for ss in sp.subsystems]
            for k, e in enumerate(exp):
                env.equal(got[:, k], e, 'gathers use the current data of the fields', info=f'group {sp.group}')
        # equations
        Y = [symbols(env, P.equations[i]['eqn'], f'E{i}', dt, bases=e['domain'].bases) for i, e in enumerate(P.equations)]
        out = zeros(Y)
        w = {sp: env.array(f'w{i}', (sp.pre_left.shape[0], len(sp.subsystems)), complex=cplx) for i, sp in enumerate(live(solver))}
        for sp in live(solver):
            sp.scatter_outputs(w[sp], out)
        for sp in live(solver):
            env.equal(sp.gather_outputs(out).copy(), w[sp], 'equation vectors to fields and back: independent entries', info=f'group {sp.group}')
        # documented orders
        for sp in live(solver):
            for j, ss in enumerate(sp.subsystems):
                got = sp.gather_outputs(Y)[:, j].copy()
                conds = [eval(e['condition'], {'n' + c.name: n for c, n in zip(solver.dist.coords, sp.group) if n is not None}) for e in P.equations]
                exp = ordered(env, ss, Y, [e['valid_modes']*c for e, c in zip(P.equations, conds)], options['bc_top'], options['interleave_components'])
                env.equal(got, exp, 'equation vectors are in the documented order', info=f'group {sp.group}')
                got = sp.gather_inputs(X)[:, j].copy()
                exp = ordered(env, ss, X, [v.valid_modes for v in p.vars], options['tau_left'], options['interleave_components'])
                env.equal(got, exp, 'variable vectors are in the documented order', info=f'group {sp.group}')
    return body


def symbols_again(env, f):
    env._again = getattr(env, '_again', 0) + 1
    return env.array(f'again{env._again}', f.data.shape, complex=np.dtype(f.dtype).kind == 'c')


def ordered(env, ss, fields, valids, low_first, interleave):
    """Sort by: dimension of the field, mode, then component and field (or field and component)."""
    items, refs = [], []
    for n, (f, ok) in enumerate(zip(fields, valids)):
        sl = tuple(ss.coeff_slices(f.domain))
        rank = len(f.tensorsig)
        data = f['c'][(slice(None),)*rank + sl]
        okay = np.asarray(ok)[(slice(None),)*rank + sl]
        ncomp = int(np.prod(data.shape[:rank], dtype=int))
        nmode = int(np.prod(data.shape[rank:], dtype=int))
        data = data.reshape((ncomp*nmode,))
        okay = okay.reshape(ncomp, nmode)
        for c in range(ncomp):
            for m in range(nmode):
                if okay[c, m]:
                    dim = f.domain.dim if low_first else -f.domain.dim
                    items.append(((dim, m, c, n) if interleave else (dim, m, n, c), len(refs)))
                    refs.append(data[c*nmode + m])
    items.sort()
    if env.sym:
        return lin.stack([refs[i] for _, i in items])
    return np.array([refs[i] for _, i in items])


def options_body(name, others):
    """The expanded action of the matrices does not depend on the ordering options (or on coupling more axes)."""
    def body(env):
        d3 = scen.start(env)
        results = []
        data = None
        for opt in others:
            p, P, solver = build(d3, name, opt)
            dt = solver.dtype
            X = [v.copy() for v in p.vars]
            if data is None:
                data = [symbols(env, v, f'X{i}', dt)['c'].copy() for i, v in enumerate(p.vars)]
            for x, d in zip(X, data):
                x.preset_scales(1)
                x['c'] = d
            out = zeros([P.equations[i]['F'] for i in range(len(P.equations))])
            for sp in live(solver):
                vec = sp.gather_inputs(X).copy()
                sp.scatter_outputs(scen.along(sp.L_min.toarray(), vec, 0), out)
            results.append([o['c'].copy() for o in out])
        for opt, r in zip(others[1:], results[1:]):
            for a, b in zip(results[0], r):
                env.equal(b, a, 'equations act the same under every ordering and coupling option', info=str(opt))
        env.check(any(np.any(lin.depends(a)) if env.sym else np.any(a) for a in results[0]), 'some equation depends on the data')
    return body


def expand_body(name):
    """Stored matrices combine in the expanded pattern as the minimal ones."""
    def body(env):
        d3 = scen.start(env)
        from dedalus.core import subsystems
        p = PROBLEMS[name](d3)
        P = d3.IVP(p.vars)
        for i, e in enumerate(p.eqs):
            L = e[0]
            if p.vars[0] is not None and i == len(p.eqs)//2 and e[0].domain == p.vars[0].domain and e[0].tensorsig == p.vars[0].tensorsig:
                L = L + d3.dt(p.vars[0])
            P.add_equation((L, e[1]), **(dict(condition=e[2]) if len(e) > 2 else {}))
        a, b = env.array('ab', (2,)), None
        n = 0
        for store in (True, False):
            solver = P.build_solver(d3.SBDF1, store_expanded_matrices=store)
            for sp in live(solver):
                if store:
                    for mats in (('M', 'L'),):
                        if store == 'late':
                            sp.expand_matrices(mats)
                        for k, c in (('M', a[0]), ('L', a[1])):
                            full = sp.LHS.copy()
                            full.data = np.ones_like(full.data)
                            E, m = getattr(sp, k + '_exp'), getattr(sp, k + '_min')
                            env.check(E.nnz == sp.LHS.nnz and np.array_equal(E.indices, sp.LHS.indices) and np.array_equal(E.indptr, sp.LHS.indptr), 'expanded matrices share the combined pattern')
                            env.equal(c*E.toarray().ravel(), c*m.toarray().ravel(), 'expanded matrices equal the minimal ones')
                            n += m.nnz
                env.check(sp.LHS.shape == sp.L_min.shape, 'the combined matrix has the shape of the system')
        env.check(n > 0, 'some matrix is nonzero')
    return body


def h_problem(name):
    def h(ctx):
        ctx.encodes('subsystems.Subproblem.gather_inputs/scatter_inputs/gather_outputs/scatter_outputs/_build_buffer_views/build_matrices', 'subsystems.left_permutation/right_permutation',
                    'subsystems.Subsystem.gather/coeff_slices/field_slices', 'subsystems.build_subsystems/build_subproblems', 'field.valid_modes', 'basis.valid_elements/elements_to_groups')
        ctx.bound('one problem per geometry (sizes 3-6 per axis); all 8 ordering options (quick: 4 on curvilinear geometries); every stored coefficient symbolic, valid or not')
        opts = OPTIONS if ctx.thorough or name in ('cheb', 'stokes', 'conditions', 'merged', 'mixed') else [OPTIONS[i] for i in (0, 3, 5, 6)]
        if name in ('ballvec', 'shellvec') and not ctx.thorough:
            opts = [OPTIONS[0], OPTIONS[7]]
        for o in opts:
            ctx.run(f'{name} {"".join(str(int(v)) for v in o.values())}', vectors_body(name, o), expect=['variable vectors are in the documented order', 'equation vectors are in the documented order'])
        extra = {'stokes': [[True, True]], 'stokesC': [[True, True]], 'merged': [[True, True]], 'mixed': [[True, True]], 'disk': [[True, True]] if False else [], 'conditions': []}.get(name, [])
        ctx.run(f'{name} options', options_body(name, opts + [dict(OPTIONS[0], matrix_coupling=c) for c in extra]), expect=['equations act the same under every ordering and coupling option'])
        if name in ('cheb', 'stokes', 'annulus', 'sphere', 'mixed', 'merged', 'shell'):
            ctx.run(f'{name} stored', expand_body(name))
    return h


def valid_geos(d3):
    for dt in (R, C):
        k = 'R' if dt is R else 'C'
        yield f'cart {k}', lambda: geo.cart(d3, [('x', k, 6, (0, 3)), ('y', k, 5 if dt is C else 4, (0, 2)), ('z', 'T', 3, (0, 1))], dt), lambda g: [g.bases, g.bases[:1], g.bases[1:], ()]
        for kind, o in (('disk', dict(radius=1.5)), ('annulus', dict(radii=(.5, 2)))):
            yield f'{kind} {k}', lambda: geo.polar(d3, kind, (8, 5), dt, **o), lambda g: [g.basis, g.basis.outer_edge if g.kind == 'annulus' else g.basis.edge, g.basis.radial_basis]
        yield f'sphere {k}', lambda: geo.sphere(d3, (8, 6), dt, radius=1.3), lambda g: [g.basis]
        for kind, o in (('ball', dict(radius=1.5)), ('shell', dict(radii=(.5, 2)))):
            yield f'{kind} {k}', lambda: geo.spherical(d3, kind, (8, 4, 4), dt, **o), lambda g: [g.basis, g.basis.surface if g.kind == 'ball' else g.basis.outer_surface]


def valid_body(which, rank):
    def body(env):
        d3 = scen.start(env)
        for name, make, bases in valid_geos(d3):
            if name != which:
                continue
            g = make()
            for i, b in enumerate(bases(g)):
                f = fld(g, 'f', b, rank)
                f.change_scales(1)
                f['g'] = env.array(f'g{i}', f['g'].shape, complex=np.dtype(f.dtype).kind == 'c')
                c = f['c']
                bad = ~np.asarray(f.valid_modes)
                if bad.any():
                    env.equal(c[bad], 0*c[bad], 'coefficients of grid data are valid modes', info=f'{which} {i}')
                else:
                    env.check(True, 'coefficients of grid data are valid modes')
                # the reverse, where no mode above the resolvable wavenumber or of unrepresentable parity is stored
                if not (which == 'cart R' or rank == 0 and which in ('disk R', 'annulus R')):
                    continue
                f.preset_scales(1)
                f.preset_layout('c')
                x = env.array(f'c{i}', f.data.shape, complex=np.dtype(f.dtype).kind == 'c')*np.asarray(f.valid_modes).astype(float)
                f['c'] = x
                f.change_scales(2)
                f['g'][...] = 1*f['g']
                env.equal(f['c'], x, 'valid modes are independent functions on fine grids', info=f'{which} {i}')
    return body


def h_valid(ctx):
    ctx.encodes('field.Field.valid_modes', 'basis.valid_elements', 'distributor.Layout.valid_elements')
    ctx.bound('fields of rank 0-2 on every geometry (8 azimuthal modes); every grid value')
    names = [f'{g} {k}' for g in ('cart', 'disk', 'annulus', 'sphere', 'ball', 'shell') for k in 'RC']
    for n in names:
        for rank in (0, 1, 2):
            ctx.run(f'{n} rank {rank}', valid_body(n, rank), expect=['coefficients of grid data are valid modes'])


def harnesses(tier):
    return [('valid', h_valid)] + [(n, h_problem(n)) for n in PROBLEMS]
