"""Compiled kernels apply exactly the matrices they are given (translated from the .pyx sources, executed symbolically)."""
import os
import numpy as np
from scipy import sparse

ASSUMPTIONS = ["entries and data are reals (rounding outside the claim); complex and single precision kernels share the same fused source",
               "C integers do not overflow at the sizes covered",
               "outputs are C-contiguous as at every call site"]


def kernels(env, name):
    """Translated module in the symbolic run, the compiled module in a replay."""
    import dedalus
    import importlib
    mod = {'linalg': 'dedalus.tools.linalg', 'spin': 'dedalus.libraries.spin_recombination'}[name]
    if not env.sym:
        return importlib.import_module(mod)
    from vt import pyx
    path = os.path.join(os.path.dirname(dedalus.__file__), *mod.split('.')[1:]) + '.pyx'
    return pyx.load(path, mod, mod.rpartition('.')[0])


def arr(env, name, shape):
    n = int(np.prod(shape))
    if env.sym:
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = env.real(f'{name}{i}', -1, 1)
        return a.reshape(shape)
    return np.array([env.real(f'{name}{i}', -1, 1) for i in range(n)], dtype=float).reshape(shape)


def csr(env, data, indices, indptr, shape):
    """A csr_matrix whose entries may be symbolic; sum_duplicates by its contract."""
    class CSR(sparse.csr_matrix):
        @property
        def _has_canonical_format(self):
            ip, ix = self.indptr, self.indices
            return all(ix[k] < ix[k+1] for i in range(len(ip)-1) for k in range(ip[i], ip[i+1]-1))

        def sum_duplicates(self):
            dat, ix, ip = [], [], [0]
            for i in range(self.shape[0]):
                row = {}
                for k in range(self.indptr[i], self.indptr[i+1]):
                    j = int(self.indices[k])
                    row[j] = row[j] + self.data[k] if j in row else self.data[k]
                for j in sorted(row):
                    ix.append(j); dat.append(row[j])
                ip.append(len(ix))
            d = np.empty(len(dat), dtype=object); d[:] = dat
            self.data, self.indices, self.indptr = d, np.array(ix, dtype=np.int32), np.array(ip, dtype=np.int32)
    if not env.sym:
        return sparse.csr_matrix((np.asarray(data, dtype=float), np.array(indices, dtype=np.int32), np.array(indptr, dtype=np.int32)), shape=shape)
    m = CSR(shape)
    m.indices, m.indptr = np.array(indices, dtype=np.int32), np.array(indptr, dtype=np.int32)
    d = np.empty(len(data), dtype=object); d[:] = list(data)
    m.data = d
    return m


def pattern(env, n_row, n_col, nnz):
    """Any CSR structure with at most nnz entries: unsorted and repeated columns included."""
    indptr, indices = [0], []
    for i in range(n_row):
        k = env.int(f'row{i}', 0, nnz)
        k = int(k)
        env.assume(len(indices) + k <= nnz)
        for _ in range(k):
            indices.append(int(env.int(f'col{len(indices)}', 0, n_col-1)))
        indptr.append(len(indices))
    return indptr, indices


def entry(a, i, j, k):
    return a[i, j, k]


def h_apply(ctx, dims=(1, 2)):
    ctx.encodes('tools/linalg.pyx apply_csr, apply_csr_vec/first/last/mid (translated)', 'tools.array.apply_sparse')
    ctx.bound('every CSR structure (also unsorted or repeated columns, empty rows) with <= 2 entries (3 thorough), up to 2x3 (2x2 for 3 or 4 dimensions; 3x3 thorough), along every axis of 1-4 dimensional arrays with other sizes 0, 1 or 2; all entries and data; all schedules of parallel loops')
    nnz, nr, nc = (3, 3, 3) if ctx.thorough else (2, 2, 3)
    for ndim in dims:
        for axis in range(ndim):
            def body(env, ndim=ndim, axis=axis):
                from dedalus.tools import array as ta
                lib = kernels(env, 'linalg')
                env.patch(ta, 'cython_linalg', lib)
                big = ctx.thorough or ndim < 3
                n_row = int(env.int('rows', 1 if ndim < 4 else 2, nr))
                n_col = int(env.int('cols', 1 if ndim < 4 else 2, nc if big else 2))
                shape = [int(env.int(f'n{i}', 1 if ndim > 2 else 0, 2)) if i != axis else n_col for i in range(ndim)]
                indptr, indices = pattern(env, n_row, n_col, nnz if ndim < 4 else 2)
                env.assume(ndim < 4 or len(indices) == 2)
                a = arr(env, 'a', (len(indices),))
                x = arr(env, 'x', shape)
                strided = env.choose('strided', [False, True]) if ndim == 2 and n_row > 1 else False
                xin = np.array(x.T, order='C').T if strided else x
                oshape = list(shape); oshape[axis] = n_row
                m = csr(env, a, indices, indptr, (n_row, n_col))
                given = env.choose('out', ['none', 'given']) if ndim < 3 else 'given' if n_row == 1 else 'none'
                if given == 'given':
                    out = arr(env, 'old', oshape)
                    ret = ta.apply_sparse(m, xin, axis, out=out, check_shapes=env.choose('check', [False, True]))
                    env.check(ret is out, 'the given output is filled')
                else:
                    out = ta.apply_sparse(m, xin, axis)
                env.check(tuple(out.shape) == tuple(oshape), 'shape')
                o = np.moveaxis(out, axis, 0).reshape(n_row, -1)
                xi = np.moveaxis(x, axis, 0).reshape(n_col, -1)
                for i in range(n_row):
                    for c in range(o.shape[1]):
                        e = 0
                        for k in range(indptr[i], indptr[i+1]):
                            e = e + a[k]*xi[indices[k], c]
                        env.same(o[i, c], e, 'product with the matrix')
            ctx.run(f'{ndim}d-axis{axis}', body, expect=['product with the matrix', 'shape'])


def h_solve(ctx, dims=(1, 2)):
    ctx.encodes('tools/linalg.pyx solve_upper_csr, solve_upper_csr_vec/first/last/mid (translated)', 'tools.array.solve_upper_sparse')
    n_max = 3
    ctx.bound('every upper triangular pattern with full diagonal up to 3x3, columns in any order (out-of-order or split entries are canonicalized by scipy, modelled), along every axis of 1-4 dimensional arrays; all nonzero diagonals, entries, and data')
    for ndim in dims:
        for axis in range(ndim):
            def body(env, ndim=ndim, axis=axis):
                from dedalus.tools import array as ta
                env.patch(ta, 'cython_linalg', kernels(env, 'linalg'))
                n = int(env.int('n', 1, n_max if ndim < 4 else 2))
                shape = [int(env.int(f'n{i}', 1, 2)) if i != axis else n for i in range(ndim)]
                order = env.choose('order', ['sorted', 'reversed', 'repeated'])
                env.assume(order != 'repeated' or ndim < 3)
                indptr, indices, ent, vals = [0], [], {}, []
                for i in range(n):
                    cols = [i] + [j for j in range(i+1, n) if bool(env.bool(f'has{i}{j}'))]
                    for j in (cols[::-1] if order == 'reversed' else cols):
                        if j == i:
                            v = env.real(f'd{i}', 0.5, 2)
                        else:
                            v = env.real(f'u{i}{j}', -1, 1)
                        ent[i, j] = v
                        indices.append(j); vals.append(v)
                        if order == 'repeated' and j == i:
                            w = env.real(f'e{i}', 0.5, 2)
                            ent[i, j] = v + w
                            indices.append(j); vals.append(w)
                    indptr.append(len(indices))
                b = arr(env, 'b', shape)
                m = csr(env, vals, indices, indptr, (n, n))
                how = env.choose('out', ['none', 'inplace', 'given'])
                rhs = b.copy()
                if how == 'inplace':
                    ta.solve_upper_sparse(m, rhs, axis, out=rhs)
                    x = rhs
                elif how == 'given':
                    x = arr(env, 'old', shape)
                    ta.solve_upper_sparse(m, rhs, axis, out=x)
                else:
                    x = rhs.copy()
                    ta.solve_upper_sparse(m, rhs, axis, out=x, check_shapes=True)
                xi = np.moveaxis(x, axis, 0).reshape(n, -1)
                bi = np.moveaxis(b, axis, 0).reshape(n, -1)
                for c in range(xi.shape[1]):
                    # back substitution is unique: compare with the exact solution
                    sol = [None]*n
                    for i in range(n-1, -1, -1):
                        s = bi[i, c]
                        for j in range(i+1, n):
                            if (i, j) in ent:
                                s = s - ent[i, j]*sol[j]
                        sol[i] = s/ent[i, i]
                    for i in range(n):
                        env.same(xi[i, c], sol[i], 'solution of the triangular system')
                if how != 'inplace':
                    for p, r in zip(rhs.ravel(), b.ravel()):
                        env.same(p, r, 'right hand side kept')
            ctx.run(f'{ndim}d-axis{axis}', body, expect=['solution of the triangular system'])


def h_dense(ctx, dims=(1, 2, 3)):
    ctx.encodes('tools.array.apply_dense', 'tools.array.apply_matrix', 'tools.array.move_single_axis', 'tools.array.apply_dense_einsum', 'tools.array.permute_axis', 'tools.array.perm_matrix', 'tools.array.kron')
    ctx.bound('dense matrices up to 3x2 along every (also negative) axis of 1-4 dimensional arrays with sizes 1-3; all entries and data; all permutations of 3')
    import itertools
    for ndim in dims:
        for axis in range(-ndim, ndim):
            def body(env, ndim=ndim, axis=axis):
                from dedalus.tools import array as ta
                n_row, n_col = int(env.int('rows', 1, 3)), int(env.int('cols', 1, 2))
                ax = axis % ndim
                shape = [env.choose(f'n{i}', [1, 2] if i % 2 else [3, 1]) if i != ax else n_col for i in range(ndim)]
                M, x = arr(env, 'm', (n_row, n_col)), arr(env, 'x', shape)
                xin = np.array(x.T, order='C').T if env.choose('strided', [False, True]) else x
                oshape = list(shape); oshape[ax] = n_row
                if env.choose('out', ['none', 'given']) == 'given':
                    out = arr(env, 'old', oshape)
                    ta.apply_matrix(M, xin, axis, out=out)
                else:
                    out = ta.apply_matrix(M, xin, axis)
                env.check(tuple(out.shape) == tuple(oshape), 'shape')
                o, xi = np.moveaxis(out, ax, 0).reshape(n_row, -1), np.moveaxis(x, ax, 0).reshape(n_col, -1)
                for i in range(n_row):
                    for c in range(o.shape[1]):
                        e = 0
                        for j in range(n_col):
                            e = e + M[i, j]*xi[j, c]
                        env.same(o[i, c], e, 'product with the matrix')
            ctx.run(f'{ndim}d-axis{axis}', body, expect=['product with the matrix', 'shape'])

    if dims == (4,):
        return

    def inplace(env):
        """square matrices applied in place (out is the input)"""
        from dedalus.tools import array as ta
        ndim = int(env.int('ndim', 1, 4))
        axis = int(env.int('axis', 0, ndim-1))
        shape = [2]*ndim
        M, x = arr(env, 'm', (2, 2)), arr(env, 'x', shape)
        y = x.copy()
        ta.apply_matrix(M, y, axis, out=y)
        o, xi = np.moveaxis(y, axis, 0).reshape(2, -1), np.moveaxis(x, axis, 0).reshape(2, -1)
        for i in range(2):
            for c in range(o.shape[1]):
                env.same(o[i, c], M[i, 0]*xi[0, c] + M[i, 1]*xi[1, c], 'product with the matrix')
    ctx.run('inplace', inplace, expect=['product with the matrix'])

    def perm(env):
        from dedalus.tools import array as ta
        n = int(env.int('n', 1, 3))
        p = [int(env.int(f'p{i}', 0, n-1)) for i in range(n)]
        env.assume(sorted(p) == list(range(n)))
        x = arr(env, 'x', (n, 2))
        for src in (False, True):
            P = ta.perm_matrix(np.array(p), source_index=src, sparse=False)
            S = ta.perm_matrix(np.array(p), source_index=src, sparse=True).toarray()
            env.check(bool((P == S).all()), 'sparse and dense permutations agree')
            y = np.dot(P.astype(object) if env.sym else P, x)
            for i in range(n):
                for c in range(2):
                    env.same(y[i, c] if src else y[p[i], c], x[p[i], c] if src else x[i, c], 'permutation')
        for axis in (0, 1):
            z = ta.permute_axis(x if axis == 0 else x.T, axis, p)
            w = z if axis == 0 else z.T
            for i in range(n):
                for c in range(2):
                    env.same(w[i, c], x[p[i], c], 'permutation along an axis')
    ctx.run('permutations', perm, expect=['permutation', 'permutation along an axis', 'sparse and dense permutations agree'])

    def kron(env):
        from dedalus.tools import array as ta
        A, B, C = arr(env, 'a', (2, 1)), arr(env, 'b', (1, 2)), arr(env, 'c', (2, 2))
        K = ta.kron(A, B, C)
        for i in range(2):
            for b in range(2):
                for k in range(2):
                    for l in range(2):
                        env.same(K[2*i+k, 2*b+l], A[i, 0]*B[0, b]*C[k, l], 'kronecker product')
    ctx.run('kron', kron, expect=['kronecker product'])


def h_spin(ctx):
    ctx.encodes('libraries/spin_recombination.pyx recombine_forward, recombine_backward (translated)')
    ctx.bound('leading, middle and trailing sizes 0-2, 2-4 components with the spin pair at every position, 0-2 azimuthal pairs; all data')

    def body(env):
        lib = kernels(env, 'spin')
        nc = int(env.int('components', 2, 4))
        s = int(env.int('s', 0, nc-2))
        npair = int(env.int('pairs', 0, 2))
        shape = (int(env.int('n0', 0, 2)), nc, int(env.int('n2', 1, 2)), 2*npair, int(env.int('n4', 1, 2)))
        env.assume(not (shape[0] == 2 and shape[2] == 2 and shape[4] == 2))
        x = arr(env, 'x', shape)
        f, b, r = arr(env, 'o', shape), arr(env, 'p', shape), arr(env, 'q', shape)
        keep = x.copy()
        lib.recombine_forward(s, x, f)
        lib.recombine_backward(s, x, b)
        h = float(np.sqrt(0.5))
        # pairs along axis 3 are complex numbers; (phi, theta) = (0, 1) at s:  u- = (theta - i phi)/sqrt 2,  u+ = (theta + i phi)/sqrt 2
        for i in range(shape[0]):
            for k in range(shape[2]):
                for l in range(npair):
                    for m in range(shape[4]):
                        re, im = 2*l, 2*l+1
                        at = lambda a, c, p: a[i, c, k, p, m]
                        P, T = (at(x, s, re), at(x, s, im)), (at(x, s+1, re), at(x, s+1, im))
                        for sg, c in ((-1, s), (1, s+1)):
                            env.same(at(f, c, re), h*(T[0] - sg*P[1]), 'spin components of vector components')
                            env.same(at(f, c, im), h*(T[1] + sg*P[0]), 'spin components of vector components')
                        A, B = (at(x, s, re), at(x, s, im)), (at(x, s+1, re), at(x, s+1, im))
                        # phi = i (u- - u+)/sqrt 2, theta = (u- + u+)/sqrt 2
                        env.same(at(b, s, re), h*(B[1] - A[1]), 'vector components of spin components')
                        env.same(at(b, s, im), h*(A[0] - B[0]), 'vector components of spin components')
                        env.same(at(b, s+1, re), h*(A[0] + B[0]), 'vector components of spin components')
                        env.same(at(b, s+1, im), h*(A[1] + B[1]), 'vector components of spin components')
                        for c in range(nc):
                            if c not in (s, s+1):
                                for p in (re, im):
                                    env.same(at(f, c, p), at(x, c, p), 'other components kept')
                                    env.same(at(b, c, p), at(x, c, p), 'other components kept')
        env.check(all(p is q or p == q for p, q in zip(x.ravel(), keep.ravel())) if not env.sym else all(p is q for p, q in zip(x.ravel(), keep.ravel())), 'input kept')
    ctx.run('recombine', body, expect=['spin components of vector components', 'vector components of spin components', 'other components kept'], max_paths=5000)


def harnesses(tier):
    from functools import partial
    out = []
    for d in ((1, 2), (3,), (4,)):
        out += [(f'apply-{d[-1]}d', partial(h_apply, dims=d)), (f'solve-{d[-1]}d', partial(h_solve, dims=d))]
    return out + [('dense', h_dense), ('dense-4d', partial(h_dense, dims=(4,))), ('spin', h_spin)]
