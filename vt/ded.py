"""
Running the real Dedalus pipeline on symbolic arrays.

`symbolize(env)` injects into the Dedalus modules (symbolic run only): a numpy shim whose
array constructors give symbolic-capable arrays; FFTW / scipy.fft by their mathematical
definition; compiled kernels by their contract (the kernels themselves are checked
against these contracts elsewhere, from their .pyx source).
"""
import sys, importlib
import numpy as np
import scipy.fft, scipy.fftpack
from scipy import sparse
from . import lin
from .lin import LinArray, NonLinear, apply_matrix

MODULES = ['core.field', 'core.transforms', 'core.distributor', 'core.arithmetic', 'core.operators', 'core.basis',
           'core.subsystems', 'core.system', 'core.solvers', 'core.evaluator', 'core.timesteppers', 'core.domain',
           'core.future', 'core.coords', 'core.problems', 'tools.array', 'tools.random_arrays', 'tools.general',
           'tools.clenshaw', 'extras.flow_tools']


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, LinArray))

    def __subclasscheck__(cls, c):
        return issubclass(c, (np.ndarray, LinArray))


def is_num(dtype):
    return np.dtype(float if dtype is None else dtype).kind in 'fc'


class ObjArray(np.ndarray):
    """Object array keeping symbolic arrays as elements."""
    def __setitem__(self, key, value):
        if isinstance(value, list) and any(isinstance(v, LinArray) for v in value):
            if key != slice(None) or len(value) != len(self) or self.ndim != 1:
                raise NonLinear('assignment of symbolic arrays to part of an object array')
            for i, v in enumerate(value):
                np.ndarray.__setitem__(self, i, v)
        else:
            np.ndarray.__setitem__(self, key, value)


class SymNumpy:
    """numpy, with constructors of float/complex arrays returning (constant) LinArrays."""

    def __init__(self, space):
        self._space = space
        sp = space

        class ndarray(metaclass=_NdMeta):
            def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
                if buffer is None:
                    return self.empty(shape, dtype)
                if isinstance(buffer, LinArray) and offset == 0 and strides is None:
                    return view_buffer(buffer, shape, dtype)
                return np.ndarray(shape, dtype, buffer, offset, strides, order)
        self.ndarray = ndarray

    def __getattr__(self, n):
        return getattr(np, n)

    def zeros(self, shape, dtype=None, order='C', **k):
        if dtype is object:
            return np.zeros(shape, object).view(ObjArray)
        return lin.empty(self._space, shape, dtype or float) if is_num(dtype) else np.zeros(shape, dtype)

    def block(self, x):
        def depth(a):
            return 1 + depth(a[0]) if isinstance(a, list) else 0

        def cat(a, n):
            return np.concatenate([cat(v, n-1) for v in a], axis=-n) if isinstance(a, list) else a
        return cat(x, depth(x))

    def empty(self, shape, dtype=None, order='C', **k):
        return lin.garbage(self._space, shape, dtype or float) if is_num(dtype) else np.empty(shape, dtype)

    def zeros_like(self, a, dtype=None, **k):
        if isinstance(a, LinArray) or is_num(dtype or np.asarray(a).dtype):
            return self.zeros(k.get('shape', np.shape(a)), dtype or a.dtype)
        return np.zeros_like(a, dtype=dtype, **k)

    def empty_like(self, a, dtype=None, **k):
        if isinstance(a, LinArray) or is_num(dtype or np.asarray(a).dtype):
            return self.empty(k.get('shape', np.shape(a)), dtype or a.dtype)
        return np.empty_like(a, dtype=dtype, **k)

    def array(self, a, dtype=None, copy=True, **k):
        if isinstance(a, LinArray):
            r = a.astype(dtype) if dtype is not None else a
            return r.copy() if copy else r
        if isinstance(a, (list, tuple)) and a and all(isinstance(x, LinArray) for x in a):
            return lin.stack(list(a))
        if isinstance(a, (list, tuple)) and any(isinstance(x, LinArray) for x in a):
            return lin.stack([lin.lift(self._space, x) for x in a])
        if isinstance(a, (list, tuple)) and any(_has_lin(x) for x in a):
            r = lin.stack([lin.lift(self._space, self.array(x, copy=None)) for x in a])
            return r if dtype is None else r.astype(dtype)
        return np.array(a, dtype=dtype, copy=copy, **k)

    def asarray(self, a, dtype=None, **k):
        if isinstance(a, LinArray):
            return a if dtype is None else a.astype(dtype, copy=False)
        return self.array(a, dtype, copy=None) if isinstance(a, (list, tuple)) else np.asarray(a, dtype, **k)
    asanyarray = asarray

    def ascontiguousarray(self, a, dtype=None):
        if isinstance(a, LinArray):
            return a if a.flags['C_CONTIGUOUS'] else a.copy()
        return np.ascontiguousarray(a, dtype)

    def block(self, arrays):
        if not _has_lin(arrays):
            return np.block(arrays)

        def rec(a, depth):
            if not isinstance(a, list):
                return a, 0
            parts = [rec(x, depth + 1) for x in a]
            d = parts[0][1]
            return lin.concatenate([p[0] for p in parts], axis=-1 - d), d + 1
        return rec(arrays, 0)[0]

    def isscalar(self, x):
        return np.isscalar(x)

    def _listarg(name):
        def f(self, a, *args, **k):
            if isinstance(a, (list, tuple)) and _has_lin(a):
                a = self.array(a)
            return getattr(np, name)(a, *args, **k)
        f.__name__ = name
        return f
    for _n in ('sum', 'mean', 'moveaxis', 'transpose', 'swapaxes', 'max', 'amax', 'cumsum', 'squeeze', 'ravel', 'real', 'imag',
               'reshape', 'dot', 'matmul', 'tensordot'):
        locals()[_n] = _listarg(_n)
    del _n

    def asfortranarray(self, a, dtype=None):
        if isinstance(a, LinArray):
            return a.T.copy().T
        return np.asfortranarray(a, dtype)

    def require(self, a, dtype=None, requirements=None):
        if isinstance(a, LinArray):
            return self.asarray(a, dtype)
        return np.require(a, dtype, requirements)

    def ndenumerate(self, a):
        if isinstance(a, LinArray):
            return ((i, a[i]) for i in np.ndindex(*a.shape))
        return np.ndenumerate(a)

    def copyto(self, dst, src, **k):
        return lin.copyto(dst, src, **k) if isinstance(dst, LinArray) or isinstance(src, LinArray) else np.copyto(dst, src, **k)

    def copy(self, a, **k):
        return a.copy() if isinstance(a, LinArray) else np.copy(a, **k)


def _has_lin(a):
    return isinstance(a, LinArray) or (isinstance(a, (list, tuple)) and any(_has_lin(x) for x in a))


def view_buffer(buf, shape, dtype):
    """np.ndarray(shape, dtype, buffer): C-ordered view of the start of a contiguous buffer."""
    dt = np.dtype(dtype)
    shape = (shape,) if np.isscalar(shape) else tuple(int(s) for s in shape)
    n = int(np.prod(shape))
    if n * dt.itemsize > buf.size * buf.itemsize:
        raise TypeError("buffer is too small for requested array")
    if not buf.flags['C_CONTIGUOUS']:
        raise ValueError("ndarray is not C-contiguous")
    if dt == buf.dtype:
        return LinArray(buf.st, buf.idx.ravel()[:n].reshape(shape), dt)
    if dt.kind == 'c' and buf.dtype.kind == 'f':
        # one complex element per store slot: the store is reinterpreted as a whole
        if getattr(buf.st, 'as_', 'c') != 'c':
            raise NonLinear("buffer used both as real and complex")
        buf.st.as_ = 'c'
        return LinArray(buf.st, buf.idx.ravel()[:n].reshape(shape), dt)
    if dt.kind == 'f' and buf.dtype.kind == 'c' and shape == buf.shape + (2,):
        return Interleaved(buf)
    raise NonLinear("buffer reinterpretation")


class Interleaved(LinArray):
    """(…,2) real view of a complex array."""
    __slots__ = ('cx',)

    def __init__(self, cx):
        r = lin.stack([cx.real, cx.imag], axis=-1)
        super().__init__(r.st, r.idx, r.dtype)
        self.cx = cx

    def __setitem__(self, key, value):
        super().__setitem__(key, value)
        full = LinArray(self.st, self.idx, self.dtype)
        self.cx.real[...] = full[..., 0]
        self.cx.imag[...] = full[..., 1]


# ------------------------------------------------------------ transforms by definition
def dft(N, sign):
    n = np.arange(N)
    return np.exp(sign * 2j * np.pi * np.outer(n, n) / N)


def _resize(x, n, axis):
    N = x.shape[axis]
    if n is None or n == N:
        return x
    shape = list(x.shape)
    shape[axis] = n
    out = lin.empty(x.st.space, shape, x.dtype)
    sl = [slice(None)] * x.ndim
    sl[axis] = slice(0, min(n, N))
    out[tuple(sl)] = x[tuple(sl)]
    return out


def _fnorm(norm, N, forward):
    if norm in (None, 'backward'):
        return 1 if forward else 1 / N
    if norm == 'ortho':
        return 1 / np.sqrt(N)
    return 1 / N if forward else 1


def fft(x, n=None, axis=-1, norm=None, *a, **k):
    x = _resize(x, n, axis)
    N = x.shape[axis]
    return apply_matrix(dft(N, -1) * _fnorm(norm, N, True), x, axis)


def ifft(x, n=None, axis=-1, norm=None, *a, **k):
    x = _resize(x, n, axis)
    N = x.shape[axis]
    return apply_matrix(dft(N, 1) * _fnorm(norm, N, False), x, axis)


def rfft(x, n=None, axis=-1, norm=None, *a, **k):
    if x.dtype.kind == 'c':
        raise TypeError("x must be a real sequence")
    x = _resize(x, n, axis)
    N = x.shape[axis]
    return apply_matrix(dft(N, -1)[:N//2+1] * _fnorm(norm, N, True), x, axis)


def irfft_un(x, N, axis):
    K = N//2 + 1
    x = _resize(x, K, axis)
    k = np.arange(K)
    n = np.arange(N)
    w = np.full(K, 2.0)
    w[0] = 1
    if N % 2 == 0:
        w[-1] = 1
    ang = 2 * np.pi * np.outer(n, k) / N
    return apply_matrix(np.cos(ang) * w, x.real, axis) - apply_matrix(np.sin(ang) * w, x.imag, axis)


def irfft(x, n=None, axis=-1, norm=None, *a, **k):
    N = 2 * (x.shape[axis] - 1) if n is None else n
    return irfft_un(x, N, axis) * _fnorm(norm, N, False)


def dct_matrix(N, type):
    k, n = np.arange(N)[:, None], np.arange(N)[None, :]
    if type == 2:
        return 2 * np.cos(np.pi * k * (2*n+1) / (2*N))
    if type == 3:
        M = 2 * np.cos(np.pi * (2*k+1) * n / (2*N))
        M[:, 0] = 1
        return M
    if type == 1:
        M = 2 * np.cos(np.pi * k * n / (N-1))
        M[:, 0] = 1
        M[:, -1] = (-1.0)**np.arange(N)
        return M
    if type == 4:
        return 2 * np.cos(np.pi * (2*k+1) * (2*n+1) / (4*N))
    raise NonLinear('dct type')


def dst_matrix(N, type):
    k, n = np.arange(N)[:, None], np.arange(N)[None, :]
    if type == 2:
        return 2 * np.sin(np.pi * (k+1) * (2*n+1) / (2*N))
    if type == 3:
        M = 2 * np.sin(np.pi * (2*k+1) * (n+1) / (2*N))
        M[:, -1] = (-1.0)**np.arange(N)
        return M
    raise NonLinear('dst type')


def dct(x, type=2, n=None, axis=-1, norm=None, *a, **k):
    if norm not in (None, 'backward'):
        raise NonLinear('dct norm')
    x = _resize(x, n, axis)
    return apply_matrix(dct_matrix(x.shape[axis], type), x, axis)


def idct(x, type=2, n=None, axis=-1, norm=None, *a, **k):
    if norm not in (None, 'backward'):
        raise NonLinear('dct norm')
    x = _resize(x, n, axis)
    N = x.shape[axis]
    return apply_matrix(dct_matrix(N, {2: 3, 3: 2}[type]) / (2*N), x, axis)


def dst(x, type=2, n=None, axis=-1, norm=None, *a, **k):
    x = _resize(x, n, axis)
    return apply_matrix(dst_matrix(x.shape[axis], type), x, axis)


def packed_rfft(x, n=None, axis=-1, *a, **k):
    x = _resize(x, n, axis)
    N = x.shape[axis]
    M = np.zeros((N, N))
    F = dft(N, -1)
    M[0] = F[0].real
    for j in range(1, N):
        kk = (j + 1) // 2
        M[j] = F[kk].real if j % 2 == 1 else F[kk].imag
    return apply_matrix(M, x, axis)


def packed_irfft(x, n=None, axis=-1, *a, **k):
    x = _resize(x, n, axis)
    N = x.shape[axis]
    M = np.zeros((N, N))
    t = np.arange(N)
    M[:, 0] = 1
    for j in range(1, N):
        kk = (j + 1) // 2
        ang = 2 * np.pi * kk * t / N
        if j % 2 == 1:
            M[:, j] = np.cos(ang) * (1 if 2*kk == N else 2)
        else:
            M[:, j] = -2 * np.sin(ang)
    return apply_matrix(M / N, x, axis)


SCIPY = {'fft': fft, 'ifft': ifft, 'rfft': rfft, 'irfft': irfft, 'dct': dct, 'idct': idct, 'dst': dst}
FFTPACK = {'fft': fft, 'ifft': ifft, 'rfft': packed_rfft, 'irfft': packed_irfft, 'dct': dct, 'idct': idct}


def dispatcher(real, sym):
    def f(x, *a, **k):
        return sym(x, *a, **k) if isinstance(x, LinArray) else real(x, *a, **k)
    return f


class SymFFTW:
    """fftw_wrappers by contract: unnormalised FFTW transforms, input possibly destroyed."""

    def __init__(self, space, real):
        self._space, self._real = space, real
        sp = space

        def create_buffer(n):
            b = lin.empty(sp, (n,), np.float64)
            return b

        def create_array(shape, dtype):
            if np.dtype(dtype) not in (np.dtype(np.float64), np.dtype(np.complex128)):
                raise ValueError("Unsupported dtype")
            return lin.empty(sp, tuple(int(s) for s in shape), dtype)

        def create_copy(a):
            return a.copy()
        self.create_buffer, self.create_array, self.create_copy = create_buffer, create_array, create_copy

        class Base:
            def __init__(s, dtype, shape, axis, flags=[]):
                s.dtype, s.shape, s.axis = np.dtype(dtype), tuple(int(x) for x in shape), int(axis)
                if s.dtype not in (np.dtype(np.float64), np.dtype(np.complex128)):
                    raise ValueError("Unsupported dtype")
                s.N = s.shape[axis]

            def _io(s, a, b, sa, sb):
                for x, shape in ((a, sa), (b, sb)):
                    if not isinstance(x, (LinArray, np.ndarray)):
                        raise TypeError("array expected")
                    if tuple(x.shape) != tuple(shape) or not x.flags['C_CONTIGUOUS']:
                        raise NonLinear(f"FFTW plan for shape {shape} executed on {x.shape} (contiguous: {x.flags['C_CONTIGUOUS']})")
                return lin.lift(sp, a)

            def _out(s, a, b, r):
                if isinstance(a, LinArray):
                    a[...] = lin.garbage(sp, a.shape, a.dtype)     # FFTW_DESTROY_INPUT
                b[...] = r

        class FourierTransform(Base):
            def __init__(s, *a, **k):
                super().__init__(*a, **k)
                c = list(s.shape)
                if s.dtype.kind == 'f':
                    c[s.axis] = s.N//2 + 1
                s.cshape = np.array(c, dtype=int)

            def forward(s, g, c):
                g0 = s._io(g, c, s.shape, s.cshape)
                s._out(g, c, rfft(g0, axis=s.axis) if s.dtype.kind == 'f' else fft(g0, axis=s.axis))

            def backward(s, c, g):
                c0 = s._io(c, g, s.cshape, s.shape)
                s._out(c, g, irfft_un(c0, s.N, s.axis) if s.dtype.kind == 'f' else apply_matrix(dft(s.N, 1), c0, s.axis))

        class R2R(Base):
            def forward(s, g, c):
                s._out(g, c, apply_matrix(s.F(), s._io(g, c, s.shape, s.shape), s.axis))

            def backward(s, c, g):
                s._out(c, g, apply_matrix(s.B(), s._io(c, g, s.shape, s.shape), s.axis))

        class DiscreteCosineTransform(R2R):
            def F(s): return dct_matrix(s.N, 2)
            def B(s): return dct_matrix(s.N, 3)

        class DiscreteSineTransform(R2R):
            def F(s): return dst_matrix(s.N, 2)
            def B(s): return dst_matrix(s.N, 3)

        class R2HCTransform(R2R):
            # r0, r1, ..., r_{N/2}, i_{(N+1)/2-1}, ..., i_1
            def F(s):
                N, W = s.N, dft(s.N, -1)
                return np.array([W[k].real if k <= N//2 else W[N-k].imag for k in range(N)])

            def B(s):
                N, t = s.N, np.arange(s.N)
                cols = []
                for k in range(N):
                    if k == 0 or 2*k == N:
                        cols.append(np.cos(2*np.pi*k*t/N))
                    elif k < N/2:
                        cols.append(2*np.cos(2*np.pi*k*t/N))
                    else:
                        cols.append(-2*np.sin(2*np.pi*(N-k)*t/N))
                return np.array(cols).T
        self.FourierTransform, self.DiscreteCosineTransform = FourierTransform, DiscreteCosineTransform
        self.DiscreteSineTransform, self.R2HCTransform = DiscreteSineTransform, R2HCTransform

    def __getattr__(self, n):
        return getattr(self._real, n)


class SymLinalg:
    """compiled sparse kernels by contract"""

    def __init__(self, space, real):
        self._space, self._real = space, real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def apply_csr(self, indptr, indices, data, array, out, axis, num_threads):
        if not isinstance(array, LinArray) and not isinstance(out, LinArray):
            return self._real.apply_csr(indptr, indices, data, array, out, axis, num_threads)
        a = lin.lift(self._space, array)
        if np.asarray(array.dtype).item().kind == 'c' and out.dtype.kind == 'f' if False else False:
            raise TypeError
        n = len(indptr) - 1
        if not (0 <= axis < a.ndim):
            return    # kernel silently does nothing
        m = a.shape[axis]
        M = sparse.csr_matrix((np.asarray(data), np.asarray(indices), np.asarray(indptr)), shape=(n, m))
        if out.shape[axis] != n:
            raise NonLinear("apply_csr: output size mismatch (out-of-bounds access)")
        out[...] = apply_matrix(M.toarray(), a, axis)

    def solve_upper_csr(self, indptr, indices, data, array, axis, num_threads):
        if not isinstance(array, LinArray):
            return self._real.solve_upper_csr(indptr, indices, data, array, axis, num_threads)
        n = len(indptr) - 1
        M = sparse.csr_matrix((np.asarray(data), np.asarray(indices), np.asarray(indptr)), shape=(n, n)).toarray()
        array[...] = apply_matrix(np.linalg.inv(np.triu(M)), array, axis)


class SymSpin:
    def __init__(self, space, real):
        self._space, self._real = space, real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def _go(self, s, inp, out, forward):
        # matrix acting on (component pair) x (cos, -sin) slots, read off the documented unitary map:
        # u_pm = (u_theta +- i u_phi)/sqrt(2) with (u_phi, u_theta) the stored order and slot pairs (Re, Im)
        inp = lin.lift(self._space, inp)
        r = 2**-0.5
        n3 = inp.shape[3] // 2 * 2
        out[:, :s] = inp[:, :s]
        out[:, s+2:] = inp[:, s+2:]
        pr = lambda a, c: a[:, s+c, :, 0:n3:2]
        pi = lambda a, c: a[:, s+c, :, 1:n3:2]
        if forward:
            phr, phi_, thr, thi = pr(inp, 0), pi(inp, 0), pr(inp, 1), pi(inp, 1)
            vals = ((thr + phi_) * r, (thi - phr) * r, (thr - phi_) * r, (thi + phr) * r)
        else:
            mr, mi, qr, qi = pr(inp, 0), pi(inp, 0), pr(inp, 1), pi(inp, 1)
            vals = ((qi - mi) * r, (mr - qr) * r, (mr + qr) * r, (mi + qi) * r)
        out[:, s, :, 0:n3:2], out[:, s, :, 1:n3:2], out[:, s+1, :, 0:n3:2], out[:, s+1, :, 1:n3:2] = vals

    def recombine_forward(self, s, inp, out):
        if not (isinstance(inp, LinArray) or isinstance(out, LinArray)):
            return self._real.recombine_forward(s, inp, out)
        self._go(s, inp, out, True)

    def recombine_backward(self, s, inp, out):
        if not (isinstance(inp, LinArray) or isinstance(out, LinArray)):
            return self._real.recombine_backward(s, inp, out)
        self._go(s, inp, out, False)


class SymNumexpr:
    def __init__(self, space):
        self._space = space

    def evaluate(self, expr, local_dict=None, global_dict=None, out=None, **k):
        f = sys._getframe(1)
        loc = dict(f.f_globals)
        loc.update(f.f_locals)
        if local_dict:
            loc.update(local_dict)
        code = compile(expr, '<numexpr>', 'eval')
        r = eval(code, {n: loc[n] for n in code.co_names if n in loc})
        if out is not None:
            out[...] = r
            return out
        return r

    def __getattr__(self, n):
        import numexpr
        return getattr(numexpr, n)


def modules():
    out = []
    for m in MODULES:
        try:
            out.append(importlib.import_module('dedalus.' + m))
        except ImportError:
            pass
    return out


def _builtin_shims(env):
    import builtins
    return {}


def symbolize(env):
    """Make the imported dedalus modules able to carry symbolic arrays (symbolic run only)."""
    if not env.sym:
        return
    sp = env.space
    mods = modules()
    snp = SymNumpy(sp)
    from dedalus.libraries.fftw import fftw_wrappers as fw
    from dedalus.tools import linalg as cl
    from dedalus.libraries import spin_recombination as sr
    import dedalus.core.timesteppers as ts
    shims = {'fftw': SymFFTW(sp, fw), 'cython_linalg': SymLinalg(sp, cl), 'spin_recombination': SymSpin(sp, sr),
             'ne': SymNumexpr(sp)}
    for m in mods:
        if getattr(m, 'np', None) is np:
            env.patch(m, 'np', snp)
        for n, s in shims.items():
            if n in m.__dict__:
                env.patch(m, n, s)
    for n, f in SCIPY.items():
        env.patch(scipy.fft, n, dispatcher(getattr(scipy.fft, n), f))
    for n, f in FFTPACK.items():
        env.patch(scipy.fftpack, n, dispatcher(getattr(scipy.fftpack, n), f))
    import scipy.sparse as sps
    for base in sps.csr_matrix.__mro__:
        if '_matmul_dispatch' in base.__dict__:
            real_mm = base.__dict__['_matmul_dispatch']

            def mm(self, other, _real=real_mm):
                if isinstance(other, LinArray):
                    return LinArray.__rmatmul__(other, self.toarray())
                return _real(self, other)
            env.patch(base, '_matmul_dispatch', mm)
    import scipy.linalg.blas as blas
    real_get = blas.get_blas_funcs

    def get_blas_funcs(names, arrays=(), dtype=None, **k):
        got = real_get(names, arrays, dtype, **k)
        if isinstance(names, str):
            return blas_dispatch(names, got)
        return [blas_dispatch(n, f) for n, f in zip(names, got)]
    env.patch(blas, 'get_blas_funcs', get_blas_funcs)
    return snp


def blas_dispatch(name, real):
    def f(*a, **k):
        if not any(isinstance(v, LinArray) for v in list(a) + list(k.values())):
            return real(*a, **k)
        if name != 'axpy' or set(k) - {'a', 'x', 'y'} or len(a) > 2:
            raise NonLinear(f"blas {name} on symbolic data")
        args = dict(zip(('x', 'y'), a), **k)
        x, y, c = args['x'], args['y'], args.get('a', 1.0)
        if x.ndim != 1 or y.ndim != 1 or x.shape[0] > y.shape[0]:
            raise ValueError("axpy arguments")
        dt = np.dtype(real.dtype)
        if x.dtype.kind == 'c' and dt.kind != 'c':
            x = x.real
        r = y[:x.shape[0]] + c * x
        if isinstance(y, LinArray) and y.dtype == dt:
            y[:x.shape[0]] = r   # in place
            return y
        out = y.astype(dt)
        out[:x.shape[0]] = r
        return out
    return f


for _n, _f in (('fft', fft), ('ifft', ifft), ('rfft', rfft), ('irfft', irfft)):
    lin.FUNCS[getattr(np.fft, _n)] = _f
