"""
Symbolic arrays in polynomial normal form.

A LinArray looks like a numpy array whose entries are symbolic: each entry is a
polynomial (usually linear form) over the scenario's z3 real variables, kept in
normal form as a coefficient row over monomial columns.  Views alias their store
exactly as numpy views alias memory (the index array of a view is itself a numpy
view), so in-place updates through views behave as in the code under test.
Assertions are discharged by z3 (see `discharge`).
"""
import itertools, math, time
import numpy as np
import z3
from .engine import Inconclusive, q, SymReal, SymInt


class Space:
    """Symbols and monomials of one scenario."""

    def __init__(self):
        self.syms = []          # (array name, key, z3 var)
        self.monos = [()]       # monomial id -> sorted tuple of symbol ids
        self.index = {(): 0}
        self.names = {}
        self.nonneg = False     # symbols stand for nonnegative values (absolute values of single terms are linear)

    def sym(self, name, key):
        i = self.names.get((name, key))
        if i is not None:
            return self.mono((i,))
        i = self.names[(name, key)] = len(self.syms)
        self.syms.append((name, key, z3.Real(f"{name}[{key}]")))
        return self.mono((i,))

    def mono(self, t):
        j = self.index.get(t)
        if j is None:
            j = self.index[t] = len(self.monos)
            self.monos.append(t)
        return j

    def new(self, name, shape, complex=False):
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape))
        if complex:
            cols = np.array([self.sym(name, f"{i}{p}") for i in range(n) for p in 'ri'], dtype=int)
            data = np.zeros((n, 2*n), dtype=np.complex128)
            data[np.arange(n), 2*np.arange(n)] = 1
            data[np.arange(n), 2*np.arange(n)+1] = 1j
        else:
            cols = np.array([self.sym(name, f"{i}r") for i in range(n)], dtype=int)
            data = np.eye(n)
        st = Store(self, n)
        st.data, st.cols = data, cols
        return LinArray(st, np.arange(n).reshape(shape), np.dtype(np.complex128 if complex else np.float64))

    def term(self, mono):
        e = None
        for i in self.monos[mono]:
            v = self.syms[i][2]
            e = v if e is None else e * v
        return z3.RealVal(1) if e is None else e


SPACE = Space()      # one per process: objects cached by the code under test outlive a scenario


class Store:
    def __init__(self, space, size):
        self.space = space
        self.size = size
        self.data = np.zeros((size, 0))
        self.cols = np.zeros(0, dtype=int)

    def ensure(self, cols, cplx):
        """Add missing columns, return positions of `cols` in this store."""
        pos = {c: i for i, c in enumerate(self.cols)}
        miss = [c for c in cols if c not in pos]
        if cplx and not np.iscomplexobj(self.data):
            self.data = self.data.astype(np.complex128)
        if miss:
            if len(self.cols) > 12:
                # forget symbols that no longer occur
                keep = self.data.any(axis=0)
                if not keep.all():
                    self.data, self.cols = self.data[:, keep], self.cols[keep]
                    pos = {c: i for i, c in enumerate(self.cols)}
                    miss = [c for c in cols if c not in pos]
            self.data = np.concatenate([self.data, np.zeros((self.size, len(miss)), dtype=self.data.dtype)], axis=1)
            for c in miss:
                pos[c] = len(pos)
            self.cols = np.concatenate([self.cols, np.array(miss, dtype=int)])
        return np.array([pos[c] for c in cols], dtype=int)


class NonLinear(Inconclusive):
    pass


def space_of(*args):
    for a in args:
        if isinstance(a, LinArray):
            return a.st.space
    for a in args:
        if isinstance(a, (list, tuple)):
            s = space_of(*a)
            if s is not None:
                return s
    return None


def fromcoef(space, coef, cols, dtype=None):
    """coef: shape + (k,)"""
    shape = coef.shape[:-1]
    k = coef.shape[-1]
    n = int(np.prod(shape))
    st = Store(space, n)
    st.data = np.ascontiguousarray(coef).reshape(n, k)
    st.cols = np.asarray(cols, dtype=int)
    if dtype is None:
        dtype = np.complex128 if np.iscomplexobj(coef) else np.float64
    return LinArray(st, np.arange(n).reshape(shape), np.dtype(dtype))


def lift(space, x, dtype=None):
    """Constant array -> LinArray."""
    if isinstance(x, LinArray):
        return x
    x = np.asarray(x)
    if x.dtype == object:
        flat = [v for v in x.ravel()]
        if any(isinstance(v, (LinArray, SymReal, SymInt)) for v in flat):
            raise NonLinear("object array with symbolic entries")
        x = x.astype(complex if any(isinstance(v, complex) for v in flat) else float)
    if not np.iscomplexobj(x):
        x = x.astype(float)
    return fromcoef(space, x[..., None], [0], dtype or x.dtype)


def empty(space, shape, dtype=float):
    if np.isscalar(shape):
        shape = (shape,)
    shape = tuple(int(s) for s in shape)
    n = int(np.prod(shape))
    st = Store(space, n)
    dt = np.dtype(dtype)
    if dt.kind not in 'fc':
        raise NonLinear(f"symbolic array of dtype {dt}")
    return LinArray(st, np.arange(n).reshape(shape), dt)


def garbage(space, shape, dtype=float):
    """np.empty: contents are unconstrained symbols (uninitialised memory)."""
    a = empty(space, shape, dtype)
    space._ng = getattr(space, '_ng', 0) + 1
    c = space.sym('uninitialised', f"{space._ng}r")
    a.st.data = np.ones((a.st.size, 1))
    a.st.cols = np.array([c])
    return a


class Flags:
    def __init__(self, f):
        self._f = f

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __getitem__(self, k):
        return self._f[k]


CONST_METHODS = {'min', 'max', 'any', 'all', 'nonzero', 'argmin', 'argmax', 'argsort', 'round', 'tobytes', 'prod', 'std'}


def _consts(args):
    """args with constant LinArrays replaced by numpy arrays, or None if one is symbolic."""
    out = []
    for a in args:
        if isinstance(a, LinArray):
            c = a._const()
            if c is None:
                return None
            a = c
        elif isinstance(a, (list, tuple)) and not isinstance(a, str):
            c = _consts(a)
            if c is None:
                return None
            a = type(a)(c) if type(a) in (list, tuple) else a
        out.append(a)
    return out


class LinArray:
    __array_priority__ = 1e5
    __slots__ = ('st', 'idx', 'dtype', 'part', '__weakref__')

    def __init__(self, st, idx, dtype, part=None):
        self.st, self.idx, self.dtype, self.part = st, idx, np.dtype(dtype), part

    # --- numpy-like attributes
    shape = property(lambda s: s.idx.shape)

    @shape.setter
    def shape(self, v):
        self.idx = self.idx.view()
        self.idx.shape = v

    ndim = property(lambda s: s.idx.ndim)
    size = property(lambda s: s.idx.size)
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.size * s.dtype.itemsize)
    strides = property(lambda s: tuple(t // s.idx.itemsize * s.dtype.itemsize for t in s.idx.strides))
    flags = property(lambda s: Flags(s.idx.flags))
    T = property(lambda s: s._view(s.idx.T))
    base = property(lambda s: s.st)
    flat = property(lambda s: s.reshape(-1))

    @flat.setter
    def flat(self, v):
        v = v.ravel() if isinstance(v, LinArray) else np.resize(v, self.size)
        LinArray(self.st, self.idx.ravel(), self.dtype, self.part)[...] = v

    data = property(lambda s: s)

    def _view(self, idx):
        return LinArray(self.st, idx, self.dtype, self.part)

    @property
    def coef(self):
        c = self.st.data[self.idx.ravel()].reshape(self.idx.shape + (self.st.data.shape[1],))
        if self.part == 'r':
            return np.ascontiguousarray(c.real)
        if self.part == 'i':
            return np.ascontiguousarray(c.imag) if np.iscomplexobj(c) else np.zeros_like(c)
        return c

    @property
    def cols(self):
        return self.st.cols

    @property
    def real(self):
        if self.dtype.kind == 'c':
            return LinArray(self.st, self.idx, np.float64, 'r')
        return self

    @real.setter
    def real(self, v):
        self.real[...] = v

    @property
    def imag(self):
        if self.dtype.kind == 'c':
            return LinArray(self.st, self.idx, np.float64, 'i')
        return fromcoef(self.st.space, np.zeros(self.shape + (0,)), [], np.float64)

    @imag.setter
    def imag(self, v):
        LinArray(self.st, self.idx, np.float64, 'i')[...] = v

    # --- views / copies
    def copy(self, order='C'):
        return fromcoef(self.st.space, self.coef, self.cols, self.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True, **kw):
        dt = np.dtype(dtype)
        if dt == self.dtype and not copy:
            return self
        if dt.kind not in 'fc':
            c = self._const()
            if c is None:
                raise NonLinear(f"astype {dt}")
            return c.astype(dt)
        c = self.coef
        if dt.kind == 'f' and np.iscomplexobj(c):
            c = c.real
        return fromcoef(self.st.space, c, self.cols, dt)

    def view(self, dtype=None, **kw):
        if dtype is None or dtype is np.ndarray or np.dtype(dtype) == self.dtype:
            return self._view(self.idx)
        dt = np.dtype(dtype)
        if dt.kind == 'f' and self.dtype.kind == 'c':
            c = self.coef
            c = np.stack([c.real, c.imag if np.iscomplexobj(c) else 0 * c], axis=-2)
            c = c.reshape(self.shape[:-1] + (2 * self.shape[-1],) + c.shape[-1:])
            return fromcoef(self.st.space, c, self.cols, np.float64)   # read-only semantics
        if dt.kind == 'c' and self.dtype.kind == 'f':
            c = self.coef
            return fromcoef(self.st.space, c[..., 0::2, :] + 1j * c[..., 1::2, :], self.cols, np.complex128)
        raise NonLinear("view dtype")

    def reshape(self, *shape, order='C', copy=None):
        if len(shape) == 1 and not np.isscalar(shape[0]):
            shape = tuple(shape[0])
        new = self.idx.reshape(shape, order=order)
        if new.size == 0 or np.shares_memory(new, self.idx):
            return self._view(new)
        return self._view(new).copy()

    def ravel(self, order='C'):
        new = self.idx.ravel(order=order)
        if new.size == 0 or np.shares_memory(new, self.idx):
            return self._view(new)
        return self._view(new).copy()

    def flatten(self, order='C'):
        return self._view(self.idx.flatten(order=order)).copy()

    def transpose(self, *axes):
        return self._view(self.idx.transpose(*axes))

    def swapaxes(self, a, b):
        return self._view(self.idx.swapaxes(a, b))

    def squeeze(self, axis=None):
        return self._view(self.idx.squeeze(axis))

    def __len__(self):
        return len(self.idx)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, key):
        if isinstance(key, LinArray) or (isinstance(key, tuple) and any(isinstance(k, LinArray) for k in key)):
            raise NonLinear("symbolic index")
        new = self.idx[key]
        if not isinstance(new, np.ndarray):
            new = np.asarray(new)
            # 0-d result: numpy returns a scalar (copy)
            r = self._view(new)
            c = r._const()
            return r.copy() if c is None else np.asarray(c).astype(self.dtype)[()]
        if new.size == 0 or np.may_share_memory(new, self.idx):
            return self._view(new)
        return self._view(new).copy()

    def __setitem__(self, key, value):
        idx = self.idx[key]
        if not isinstance(idx, np.ndarray):
            idx = np.asarray(idx)
        v = lift(self.st.space, value)
        c = v.coef
        self._write(idx, c, v.cols)

    def _write(self, idx, c, cols):
        shape = idx.shape
        if c.shape[:-1] != shape:
            s = c.shape[:-1]
            while len(s) > len(shape) and s[0] == 1:
                c = c[0]
                s = s[1:]
            c = np.broadcast_to(c, shape + c.shape[-1:])
        st = self.st
        i = idx.ravel()
        c = c.reshape(i.size, -1) if i.size else np.zeros((0, c.shape[-1]))
        if self.part is None:
            if self.dtype.kind == 'f' and np.iscomplexobj(c):
                c = c.real
            if i.size == st.size > 0 and len(cols) == c.shape[1]:
                full = np.zeros(st.size, bool)
                full[i] = True
                if full.all():
                    # everything is replaced: so are the symbols
                    keep = c.any(axis=0)
                    new = np.zeros((st.size, int(keep.sum())), dtype=np.complex128 if np.iscomplexobj(st.data) or np.iscomplexobj(c) else np.float64)
                    new[i] = c[:, keep]
                    st.data, st.cols = new, np.asarray(cols, dtype=int)[keep]
                    return
            pos = st.ensure(cols, np.iscomplexobj(c))
            if i.size:
                st.data[i] = 0
                if len(pos):
                    st.data[i[:, None], pos[None, :]] = c
        else:
            if np.iscomplexobj(c):
                c = c.real
            pos = st.ensure(cols, True)
            old = st.data[i]
            new = np.zeros((i.size, st.data.shape[1]))
            if len(pos):
                new[:, pos] = c
            st.data[i] = (new + 1j * old.imag) if self.part == 'r' else (old.real + 1j * new)

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        if a:
            return self.reshape(-1)[a[0]]
        if self.size != 1:
            raise ValueError("item")
        return self.reshape(())

    def tolist(self):
        return [x.tolist() if x.ndim else x for x in self]

    # --- refuse silent concretisation
    def __bool__(self):
        c = self._const()
        if c is None:
            raise NonLinear("truth value of a symbolic array")
        return bool(c)

    def __int__(self):
        return int(float(self))

    def __index__(self):
        raise TypeError("not an index")

    def __abs__(self):
        c = self._const()
        if c is None:
            return _abs(space_of(self), self)
        return abs(c)

    def __float__(self):
        c = self._const()
        if c is None or c.size != 1:
            raise NonLinear("float() of a symbolic value")
        return float(c.ravel()[0])

    def __complex__(self):
        c = self._const()
        if c is None or c.size != 1:
            raise NonLinear("complex() of a symbolic value")
        return complex(c.ravel()[0])

    def _const(self):
        """Concrete numpy value if the entries do not depend on any symbol."""
        c, cols = self.coef, self.cols
        k = cols != 0
        if np.any(c[..., k]):
            return None
        return c[..., ~k].sum(axis=-1)

    def __array__(self, dtype=None, copy=None):
        c = self._const()
        if c is None:
            raise NonLinear("symbolic array used where a concrete array is needed")
        c = np.asarray(c)
        return c if dtype is None else c.astype(dtype)

    # --- arithmetic
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if isinstance(out, tuple):
            out = out[0] if len(out) == 1 else out
        sp = space_of(*inputs, *( [out] if isinstance(out, LinArray) else []))
        if method == 'reduce':
            ins = _consts(inputs)
            if ins is not None and out is None:
                return ufunc.reduce(*ins, **kw)
            if ufunc is np.add:
                kw.setdefault('axis', 0)
                return sum_(inputs[0], out=out, **{k: v for k, v in kw.items() if k in ('axis', 'keepdims')})
            if ufunc is np.subtract:
                a, ax = inputs[0], kw.get('axis', 0)
                a = np.moveaxis(a, ax, 0)
                r = a[0] - sum_(a[1:], axis=0) if len(a) > 1 else a[0]
                if out is not None:
                    out[...] = r
                    return out
                return r
            raise NonLinear(f"{ufunc.__name__}.reduce")
        if method == 'outer':
            a, b = (lift(sp, x) for x in inputs)
            if ufunc is np.multiply:
                return a.reshape(a.shape + (1,) * b.ndim) * b
            raise NonLinear('outer')
        if method == 'at':
            a, ind, b = inputs
            if ufunc is np.add:
                ii = a.idx[ind]
                for n, j in enumerate(ii.ravel()):
                    t = LinArray(a.st, np.asarray(j), a.dtype)
                    t[...] = t + (b.ravel()[n] if np.ndim(b) else b)
                return None
        if method != '__call__':
            ins = _consts(inputs)
            if ins is not None:
                return getattr(ufunc, method)(*ins, **kw)
            raise NonLinear(f"ufunc method {method}")
        f = UFUNCS.get(ufunc)
        if f is None:
            ins = _consts(inputs)
            if ins is None:
                raise NonLinear(f"ufunc {ufunc.__name__}")
            r = ufunc(*ins, **kw)
            if out is not None:
                out[...] = r
                return out
            return r
        where = kw.pop('where', True)
        res = f(sp, *inputs)
        if res is NotImplemented:
            raise NonLinear(f"ufunc {ufunc.__name__} on these operands")
        if where is not True:
            if out is None:
                raise NonLinear("ufunc where without out")
            w = np.broadcast_to(where, out.shape)
            out[w] = (res if isinstance(res, LinArray) else np.broadcast_to(res, out.shape))[w]
            return out
        if out is not None:
            if not isinstance(out, LinArray):
                if isinstance(res, LinArray):
                    c = res._const()
                    if c is None:
                        raise NonLinear("symbolic result written to a concrete array")
                    res = c
                out[...] = res
                return out
            out[...] = res
            return out
        return res

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func)
        if f is None:
            a, k = _consts(args), _consts(list(kwargs.values()))
            if a is not None and k is not None and not isinstance(kwargs.get('out'), LinArray):
                return func(*a, **dict(zip(kwargs, k)))
            raise NonLinear(f"numpy function {func.__module__}.{func.__name__}")
        return f(*args, **kwargs)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in CONST_METHODS:
            c = self._const()
            if c is None:
                raise NonLinear(f"{name} of a symbolic array")
            return getattr(c, name)
        raise AttributeError(f"LinArray has no attribute {name}")

    def _op(u, refl=False):
        def f(self, o):
            if isinstance(o, (list, tuple)):
                o = np.asarray(o)
            if isinstance(o, np.ma.MaskedArray):
                c = self._const()
                if c is not None:
                    return u(o, c) if refl else u(c, o)
                if np.ma.getmaskarray(o).any():
                    raise NonLinear("masked operand")
                o = o.data
            if hasattr(o, 'tocsr') and not isinstance(o, np.ndarray):
                return NotImplemented
            if not isinstance(o, (LinArray, np.ndarray, np.generic, int, float, complex)):
                return NotImplemented
            r = UFUNCS[u](space_of(self), *((o, self) if refl else (self, o)))
            return r
        return f

    def _iop(u):
        def f(self, o):
            r = UFUNCS[u](space_of(self), self, o)
            self[...] = r
            return self
        return f

    def _cop(op):
        def f(self, o):
            a = _consts([self, o])
            if a is None:
                raise NonLinear(f"{op} of symbolic arrays")
            return getattr(np.asarray(a[0]), op)(a[1])
        return f
    __floordiv__, __rfloordiv__, __mod__, __rmod__, __rpow__ = map(_cop, ('__floordiv__', '__rfloordiv__', '__mod__', '__rmod__', '__rpow__'))

    __add__ = _op(np.add); __radd__ = _op(np.add, True); __iadd__ = _iop(np.add)
    __sub__ = _op(np.subtract); __rsub__ = _op(np.subtract, True); __isub__ = _iop(np.subtract)
    __mul__ = _op(np.multiply); __rmul__ = _op(np.multiply, True); __imul__ = _iop(np.multiply)
    __truediv__ = _op(np.divide); __rtruediv__ = _op(np.divide, True); __itruediv__ = _iop(np.divide)

    def __pow__(self, n):
        return _power(space_of(self), self, n)

    def __neg__(self):
        return fromcoef(self.st.space, -self.coef, self.cols, self.dtype)

    def __pos__(self):
        return self.copy()

    def conj(self):
        return fromcoef(self.st.space, self.coef.conj(), self.cols, self.dtype)
    conjugate = conj

    def tobytes(self, order='C'):
        return np.asarray(self).tobytes(order)

    def __matmul__(self, o):
        if hasattr(o, 'tocsr') and not isinstance(o, np.ndarray):
            return (o.T @ self.T).T
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    # methods
    def sum(self, axis=None, out=None, keepdims=False, **kw):
        return sum_(self, axis=axis, out=out, keepdims=keepdims)

    def dot(self, o, out=None):
        return dot(self, o, out=out)

    def _cmp(op):
        def f(self, o):
            a = _consts([self, o])
            if a is None:
                raise NonLinear("comparison of symbolic arrays")
            return getattr(a[0], op)(a[1])
        return f
    __eq__, __ne__, __lt__ = _cmp('__eq__'), _cmp('__ne__'), _cmp('__lt__')
    __le__, __gt__, __ge__ = _cmp('__le__'), _cmp('__gt__'), _cmp('__ge__')
    __hash__ = object.__hash__

    def take(self, ind, axis=None, out=None, mode='raise'):
        r = self._view(self.idx.take(ind, axis=axis)).copy()
        if out is not None:
            out[...] = r
            return out
        return r

    def repeat(self, repeats, axis=None):
        return self._view(self.idx.repeat(repeats, axis=axis)).copy()

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis=axis)

    def diagonal(self, *a, **k):
        return self._view(np.array(self.idx.diagonal(*a, **k))).copy()

    def trace(self, *a, **k):
        return trace(self, *a, **k)

    def put(self, ind, v, mode='raise'):
        put(self, ind, v)

    def compress(self, cond, axis=None, out=None):
        return self._view(self.idx.compress(cond, axis=axis)).copy()

    def mean(self, axis=None, **k):
        n = self.size if axis is None else np.prod([self.shape[a] for a in np.atleast_1d(axis)])
        return self.sum(axis=axis, **k) / n

    def __repr__(self):
        return f"<LinArray {self.shape} {self.dtype} k={self.st.data.shape[1]}>"


# ---------------------------------------------------------------- arithmetic
_ma_delegate = np.ma.MaskedArray._delegate_binop


def _delegate_binop(self, other):
    return isinstance(other, LinArray) or _ma_delegate(self, other)


np.ma.MaskedArray._delegate_binop = _delegate_binop


def _align(a, b):
    """Coefficient arrays of two LinArrays over a common column list."""
    ca, cb = a.cols, b.cols
    if ca is cb or (len(ca) == len(cb) and np.array_equal(ca, cb)):
        return a.coef, b.coef, ca
    pos = {c: i for i, c in enumerate(ca)}
    miss = [c for c in cb if c not in pos]
    for c in miss:
        pos[c] = len(pos)
    cols = np.concatenate([ca, np.array(miss, dtype=int)]) if miss else ca
    A = a.coef
    if miss:
        A = np.concatenate([A, np.zeros(A.shape[:-1] + (len(miss),), dtype=A.dtype)], axis=-1)
    B0 = b.coef
    B = np.zeros(B0.shape[:-1] + (len(cols),), dtype=B0.dtype)
    if len(cb):
        B[..., [pos[c] for c in cb]] = B0
    return A, B, cols


def _bc(A, B):
    """Broadcast leading axes of coefficient arrays."""
    s = np.broadcast_shapes(A.shape[:-1], B.shape[:-1])
    nd = len(s)
    A = A.reshape((1,) * (nd - A.ndim + 1) + A.shape)
    B = B.reshape((1,) * (nd - B.ndim + 1) + B.shape)
    return A, B


def _dt(*xs):
    return np.result_type(*[x.dtype if hasattr(x, 'dtype') else np.asarray(x).dtype for x in xs], np.float64)


def _add(sp, a, b):
    dt = _dt(a, b)
    A, B, cols = _align(lift(sp, a), lift(sp, b))
    A, B = _bc(A, B)
    return fromcoef(sp, A + B, cols, dt)


def _sub(sp, a, b):
    dt = _dt(a, b)
    A, B, cols = _align(lift(sp, a), lift(sp, b))
    A, B = _bc(A, B)
    return fromcoef(sp, A - B, cols, dt)


def _scale(sp, a, b, dt):
    """LinArray a times concrete array b."""
    b = np.asarray(b)
    A, B = _bc(a.coef, b[..., None])
    return fromcoef(sp, A * B, a.cols, dt)


def _mul(sp, a, b):
    dt = _dt(a, b)
    if not isinstance(a, LinArray):
        return _scale(sp, b, a, dt)
    if not isinstance(b, LinArray):
        return _scale(sp, a, b, dt)
    for x, y in ((a, b), (b, a)):
        c = y._const()
        if c is not None:
            return _scale(sp, x, c, dt)
    return polymul(sp, a, b, dt)


def _active(a):
    c = a.coef
    k = np.nonzero(np.any(c.reshape(-1, c.shape[-1]), axis=0))[0]
    return c[..., k], a.cols[k]


def polymul(sp, a, b, dt):
    A, ca = _active(a)
    B, cb = _active(b)
    A, B = _bc(A, B)
    out = {}
    prods = {}
    cols = []
    pos = {}
    tgt = np.zeros((len(ca), len(cb)), dtype=int)
    for i, p in enumerate(ca):
        for j, r in enumerate(cb):
            m = sp.mono(tuple(sorted(sp.monos[p] + sp.monos[r])))
            if m not in pos:
                pos[m] = len(cols)
                cols.append(m)
            tgt[i, j] = pos[m]
    shape = np.broadcast_shapes(A.shape[:-1], B.shape[:-1])
    res = np.zeros(shape + (len(cols),), dtype=np.result_type(A, B))
    if res.size > 60_000_000:
        raise Inconclusive("polynomial product too large")
    for i in range(len(ca)):
        np_ = A[..., i:i+1] * B
        res[..., tgt[i]] += np_      # targets within one row i are distinct
    return fromcoef(sp, res, cols, dt)


def _div(sp, a, b):
    if isinstance(b, LinArray):
        c = b._const()
        if c is None:
            raise NonLinear("division by a symbolic array")
        b = c
    if not isinstance(a, LinArray):
        return np.divide(a, b)
    with np.errstate(divide='ignore', invalid='ignore'):
        return _scale(sp, a, 1 / np.asarray(b), _dt(a, b)) if np.asarray(b).dtype.kind != 'i' else \
            _divc(sp, a, b)


def _divc(sp, a, b):
    A, B = _bc(a.coef, np.asarray(b)[..., None])
    return fromcoef(sp, A / B, a.cols, _dt(a, b))


def _abs(sp, a):
    if not isinstance(a, LinArray):
        return np.abs(a)
    c = a._const()
    if c is not None:
        return np.abs(c)
    C = a.coef
    if not sp.nonneg or (np.count_nonzero(C.reshape(-1, C.shape[-1]), axis=1) > 1).any():
        raise NonLinear("abs of a symbolic array")
    return fromcoef(sp, np.abs(C), a.cols, float)


def _sqrt(sp, a):
    if not isinstance(a, LinArray):
        return np.sqrt(a)
    c = a._const()
    if c is not None:
        return np.sqrt(c)
    C = a.coef
    F = C.reshape(-1, C.shape[-1])
    if not sp.nonneg or (np.count_nonzero(F, axis=1) > 1).any() or np.iscomplexobj(C):
        raise NonLinear("sqrt of a symbolic array")
    st = [j for j in range(F.shape[1]) if F[:, j].any()]
    cols = []
    for j in st:
        m = sp.monos[a.cols[j]]
        if len(m) % 2 or m[::2] != m[1::2]:
            raise NonLinear("sqrt of a symbolic array")
        cols.append(sp.mono(m[::2]))
    return fromcoef(sp, np.sqrt(C[..., st]), np.array(cols, dtype=int), float)


def _power(sp, a, n):
    if isinstance(n, LinArray) or np.ndim(n):
        raise NonLinear("array power")
    if float(n) == 0.5:
        return _sqrt(sp, a)
    if float(n) != int(n) or n < 0:
        raise NonLinear(f"power {n}")
    out = 1.0
    for _ in range(int(n)):
        out = a * out
    return out if isinstance(out, LinArray) else lift(sp, np.ones(a.shape))


def matmul(a, b, out=None):
    sp = space_of(a, b)
    if isinstance(a, LinArray) and isinstance(b, LinArray):
        ca, cb = a._const(), b._const()
        if ca is not None:
            a = ca
        elif cb is not None:
            b = cb
        else:
            if a.ndim == 2 and b.ndim in (1, 2):
                bb = b if b.ndim == 2 else b.reshape(-1, 1)
                r = sum_(a.reshape(a.shape + (1,)) * bb.reshape((1,) + bb.shape), axis=1)
                r = r if b.ndim == 2 else r.reshape(-1)
                if out is not None:
                    out[...] = r
                return r
            aa = a.reshape((1,) + a.shape) if a.ndim == 1 else a
            bb = b.reshape(b.shape + (1,)) if b.ndim == 1 else b
            r = sum_(aa.reshape(aa.shape + (1,)) * bb.reshape(bb.shape[:-2] + (1,) + bb.shape[-2:]), axis=-2)
            r = r[..., 0] if b.ndim == 1 else r
            r = r[..., 0, :] if a.ndim == 1 and b.ndim > 1 else r[..., 0] if a.ndim == 1 else r
            if out is not None:
                out[...] = r
            return r
    dt = _dt(a, b)
    if isinstance(b, LinArray):
        if hasattr(a, 'tocsr') and not isinstance(a, np.ndarray):
            C = b.coef
            r = (a @ C.reshape(C.shape[0], -1)).reshape((a.shape[0],) + C.shape[1:])
            res = fromcoef(sp, r, b.cols, dt)
        else:
            a = np.asarray(a)
            C = b.coef
            if b.ndim == 1:
                r = np.tensordot(a, C, axes=(a.ndim - 1, 0))
            else:
                # (..., n, m) @ (..., m, k, sym)
                if a.ndim == 1:
                    r = np.tensordot(a, C, axes=(0, C.ndim - 3))
                else:
                    r = np.einsum('...ij,...jks->...iks', a, C)
            res = fromcoef(sp, r, b.cols, dt)
    else:
        b = np.asarray(b)
        C = a.coef
        if a.ndim == 1 and b.ndim == 1:
            r = np.tensordot(b, C, axes=(0, 0))
        elif b.ndim == 1:
            r = np.einsum('...js,j->...s', C, b)
        elif a.ndim == 1:
            r = np.einsum('js,...jk->...ks', C, b)
        else:
            r = np.einsum('...ijs,...jk->...iks', C, b)
        res = fromcoef(sp, r, a.cols, dt)
    if out is not None:
        out[...] = res
        return out
    return res


def dot(a, b, out=None):
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        r = a * b
        if out is not None:
            out[...] = r
            return out
        return r
    if _nd(b) <= 2 and _nd(a) <= 2:
        return matmul(a, b, out=out)
    r = tensordot(a, b, axes=([_nd(a) - 1], [_nd(b) - 2]))
    if out is not None:
        out[...] = r
        return out
    return r


def _nd(x):
    return x.ndim if hasattr(x, 'ndim') else np.ndim(x)


def tensordot(a, b, axes=2):
    sp = space_of(a, b)
    if isinstance(axes, (int, np.integer)):
        aa, bb = list(range(_nd(a) - axes, _nd(a))), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if np.isscalar(aa) else list(aa)
        bb = [bb] if np.isscalar(bb) else list(bb)
    aa = [x % _nd(a) for x in aa]
    bb = [x % _nd(b) for x in bb]
    dt = _dt(a, b)
    if isinstance(a, LinArray) and isinstance(b, LinArray):
        ca, cb = a._const(), b._const()
        if ca is not None:
            a = ca
        elif cb is not None:
            b = cb
        else:
            la = [chr(97 + i) for i in range(a.ndim)]
            lb = [chr(97 + a.ndim + i) for i in range(b.ndim)]
            for x, y in zip(aa, bb):
                lb[y] = la[x]
            rhs = [c for i, c in enumerate(la) if i not in aa] + [c for i, c in enumerate(lb) if i not in bb]
            return einsum(f"{''.join(la)},{''.join(lb)}->{''.join(rhs)}", a, b)
    if isinstance(b, LinArray):
        r = np.tensordot(np.asarray(a), b.coef, axes=(aa, bb))
        return fromcoef(sp, r, b.cols, dt)
    C = a.coef
    r = np.tensordot(C, np.asarray(b), axes=(aa, bb))
    # symbol axis sits after a's free axes
    pos = a.ndim - len(aa)
    return fromcoef(sp, np.moveaxis(r, pos, -1), a.cols, dt)


def _einsum_parse(subs, ops):
    subs = subs.replace(' ', '')
    lhs, arrow, rhs = subs.partition('->')
    terms = lhs.split(',')
    used = set(subs)
    spare = [c for c in 'ZYXWVUTSRQPONMLK' if c not in used]
    nell = 0
    for t, o in zip(terms, ops):
        if '...' in t:
            nell = max(nell, np.ndim(o) - len(t.replace('...', '')))
    ell = ''.join(spare[:nell])
    out = []
    for t, o in zip(terms, ops):
        if '...' in t:
            k = np.ndim(o) - len(t.replace('...', ''))
            t = t.replace('...', ell[len(ell)-k:])
        out.append(t)
    if not arrow:
        allc = ''.join(out)
        rhs = ell + ''.join(sorted(c for c in set(allc) if c not in ell and allc.count(c) == 1))
    else:
        rhs = rhs.replace('...', ell)
    return out, rhs, spare[nell]


def einsum(subs, *ops, out=None, **kw):
    kw.pop('optimize', None)
    sp = space_of(*ops)
    if not isinstance(subs, str):
        raise NonLinear("einsum operand format")
    ops = [o if not (isinstance(o, LinArray) and o._const() is not None) else o._const() for o in ops]
    sym = [i for i, o in enumerate(ops) if isinstance(o, LinArray)]
    if not sym:
        r = np.einsum(subs, *ops)
        if out is not None:
            out[...] = r
            return out
        return r
    terms, rhs, free = _einsum_parse(subs, ops)
    if len(sym) > 1:
        letters = []
        for t in terms:
            letters += [c for c in t if c not in letters]
        prod = None
        for t, o in zip(terms, ops):
            uniq = ''.join(dict.fromkeys(t))
            if uniq != t:
                o = einsum(t + '->' + uniq, o)
            order = sorted(range(len(uniq)), key=lambda q: letters.index(uniq[q]))
            o = o.transpose(order) if len(order) else o
            have = [uniq[q] for q in order]
            shape, k = [], 0
            for c in letters:
                if c in have:
                    shape.append(o.shape[k])
                    k += 1
                else:
                    shape.append(1)
            o = o.reshape(tuple(shape))
            prod = o if prod is None else prod * o
        axes = tuple(k for k, c in enumerate(letters) if c not in rhs)
        res = sum_(prod, axis=axes) if axes else prod
        left = [c for c in letters if c in rhs]
        res = res.transpose([left.index(c) for c in rhs]) if len(left) > 1 else res
    else:
        i = sym[0]
        terms[i] += free
        args = [o.coef if k == i else o for k, o in enumerate(ops)]
        r = np.einsum(','.join(terms) + '->' + rhs + free, *args)
        res = fromcoef(sp, r, ops[i].cols, _dt(*ops))
    if out is not None:
        out[...] = res
        return out
    return res


def sum_(a, axis=None, out=None, keepdims=False, **kw):
    if axis is None:
        axis = tuple(range(a.ndim))
    axis = tuple(x % a.ndim for x in np.atleast_1d(axis)) if a.ndim else ()
    r = fromcoef(a.st.space, a.coef.sum(axis=axis, keepdims=keepdims), a.cols, a.dtype)
    if out is not None:
        out[...] = r
        return out
    return r


UFUNCS = {
    np.add: _add, np.subtract: _sub, np.multiply: _mul, np.divide: _div, np.true_divide: _div,
    np.negative: lambda sp, a: -a, np.positive: lambda sp, a: a.copy(),
    np.conjugate: lambda sp, a: a.conj(), np.power: _power, np.square: lambda sp, a: _mul(sp, a, a),
    np.matmul: lambda sp, a, b: matmul(a, b),
    np.absolute: lambda sp, a: _abs(sp, a), np.fabs: lambda sp, a: _abs(sp, a), np.sqrt: lambda sp, a: _sqrt(sp, a),
    np.hypot: lambda sp, a, b: _sqrt(sp, a*a + b*b),
}
FUNCS = {}


def max_(a, axis=None, out=None, **kw):
    """maximum of nonnegative multiples of one nonnegative quantity"""
    c = a._const()
    if c is not None:
        return np.max(c, axis=axis, **kw)
    if a.size == 1 and axis is None and not kw:
        return a.reshape(())
    F = a.coef.reshape(-1, a.coef.shape[-1])
    st = [j for j in range(F.shape[1]) if F[:, j].any()]
    if axis is not None or kw or not a.st.space.nonneg or len(st) > 1 or np.iscomplexobj(F):
        raise NonLinear("max of a symbolic array")
    return fromcoef(a.st.space, F.max(axis=0), a.cols, float)


def _bound(sp, a, b, worst, fn):
    """maximum/minimum with a trivial bound"""
    ca, cb = (x._const() if isinstance(x, LinArray) else np.asarray(x) for x in (a, b))
    if ca is not None and cb is not None:
        return fn(ca, cb)
    for c, x in ((ca, b), (cb, a)):
        if c is not None and c.size and (c == worst).all():
            return x if np.shape(x) == np.broadcast_shapes(np.shape(c), np.shape(x)) else np.broadcast_to(x, np.broadcast_shapes(np.shape(c), np.shape(x)))
    raise NonLinear("maximum of symbolic arrays")


UFUNCS[np.maximum] = lambda sp, a, b: _bound(sp, a, b, -np.inf, np.maximum)
UFUNCS[np.minimum] = lambda sp, a, b: _bound(sp, a, b, np.inf, np.minimum)


def implements(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return deco


@implements(np.copyto)
def copyto(dst, src, casting='same_kind', where=True):
    if not isinstance(dst, LinArray):
        c = src._const()
        if c is None:
            raise NonLinear(f"symbolic data copied into a concrete array {type(dst)} {dst.dtype} {dst.shape}")
        np.copyto(dst, c, casting, where)
        return
    if where is True:
        dst[...] = src
    else:
        w = np.broadcast_to(where, dst.shape)
        s = lift(dst.st.space, src)
        s = s._view(np.broadcast_to(s.idx, dst.shape))
        dst[w] = s[w]


def _viewfn(npf):
    def g(a, *args, **kw):
        new = npf(a.idx, *args, **kw)
        if new.size == 0 or np.may_share_memory(new, a.idx):
            return a._view(new)
        return a._view(new).copy()
    FUNCS[npf] = g


for _f in (np.moveaxis, np.swapaxes, np.transpose, np.expand_dims, np.squeeze, np.broadcast_to, np.flip, np.roll,
           np.rollaxis, np.diagonal, np.flipud, np.fliplr, np.repeat, np.tile, np.take, np.diag, np.atleast_1d,
           np.atleast_2d, np.atleast_3d, np.delete, np.rot90, np.take_along_axis, np.compress):
    _viewfn(_f)
FUNCS[np.atleast_1d] = lambda a: a if a.ndim >= 1 else a.reshape(1)
FUNCS[np.reshape] = lambda a, *s, **k: a.reshape(*(s or (k.pop('shape', k.pop('newshape', None)),)), **{x: y for x, y in k.items() if x == 'order'})
FUNCS[np.ravel] = lambda a, order='C': a.ravel(order)
FUNCS[np.tensordot] = tensordot
FUNCS[np.dot] = dot
FUNCS[np.einsum] = einsum
FUNCS[np.sum] = sum_
FUNCS[np.max] = FUNCS[np.amax] = max_
FUNCS[np.mean] = lambda a, axis=None, **k: a.mean(axis=axis)
FUNCS[np.copy] = lambda a, **k: a.copy()
FUNCS[np.real] = lambda a: a.real
FUNCS[np.imag] = lambda a: a.imag
FUNCS[np.shape] = lambda a: a.shape
FUNCS[np.ndim] = lambda a: a.ndim
FUNCS[np.size] = lambda a, axis=None: a.size if axis is None else a.shape[axis]
FUNCS[np.iscomplexobj] = lambda a: a.dtype.kind == 'c'
FUNCS[np.isrealobj] = lambda a: a.dtype.kind != 'c'
FUNCS[np.zeros_like] = lambda a, dtype=None, **k: empty(a.st.space, k.get('shape') or a.shape, dtype or a.dtype)
FUNCS[np.empty_like] = lambda a, dtype=None, **k: garbage(a.st.space, k.get('shape') or a.shape, dtype or a.dtype)
FUNCS[np.ones_like] = lambda a, dtype=None, **k: lift(a.st.space, np.ones(a.shape, dtype=dtype or a.dtype))
FUNCS[np.result_type] = lambda *a: np.result_type(*[x.dtype if isinstance(x, LinArray) else x for x in a])
FUNCS[np.may_share_memory] = FUNCS[np.shares_memory] = lambda a, b, *k: isinstance(a, LinArray) and isinstance(b, LinArray) and a.st is b.st and len(np.intersect1d(a.idx, b.idx)) > 0
FUNCS[np.outer] = lambda a, b, out=None: a.ravel().reshape(-1, 1) * b.ravel().reshape(1, -1)


@implements(np.kron)
def kron(a, b):
    n = max(_nd(a), _nd(b))
    a = a.reshape((1,) * (n - _nd(a)) + a.shape)
    b = b.reshape((1,) * (n - _nd(b)) + b.shape)
    r = a.reshape(sum(((x, 1) for x in a.shape), ())) * b.reshape(sum(((1, x) for x in b.shape), ()))
    return r.reshape(tuple(x * y for x, y in zip(a.shape, b.shape)))


FUNCS[np.hsplit] = lambda a, n: split(a, n, axis=0 if a.ndim == 1 else 1)
FUNCS[np.vsplit] = lambda a, n: split(a, n, axis=0)
FUNCS[np.resize] = lambda a, shape: a._view(np.resize(a.idx, shape)).copy()
FUNCS[np.broadcast_arrays] = lambda *arrs, **k: [a._view(np.broadcast_to(a.idx, sh)) if isinstance(a, LinArray) else np.broadcast_to(a, sh)
                                                 for sh in [np.broadcast_shapes(*[np.shape(x) for x in arrs])] for a in arrs]



@implements(np.concatenate)
def concatenate(arrs, axis=0, out=None, **kw):
    sp = space_of(*arrs)
    arrs = [lift(sp, a) for a in arrs]
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    shape = list(arrs[0].shape)
    shape[axis] = sum(a.shape[axis] for a in arrs)
    dt = _dt(*arrs)
    res = empty(sp, shape, dt) if out is None else out
    n = 0
    for a in arrs:
        sl = [slice(None)] * len(shape)
        sl[axis] = slice(n, n + a.shape[axis])
        n += a.shape[axis]
        res[tuple(sl)] = a
    return res


@implements(np.stack)
def stack(arrs, axis=0, out=None, **kw):
    sp = space_of(*arrs)
    arrs = [lift(sp, a) for a in arrs]
    nd = arrs[0].ndim + 1
    r = concatenate([a.reshape(a.shape[:axis % nd] + (1,) + a.shape[axis % nd:]) for a in arrs], axis=axis % nd)
    if out is not None:
        out[...] = r
        return out
    return r


FUNCS[np.hstack] = lambda a, **k: concatenate(a, axis=0 if _nd(a[0]) <= 1 else 1)
FUNCS[np.vstack] = lambda a, **k: concatenate([x.reshape(1, -1) if _nd(x) == 1 else x for x in a], axis=0)


@implements(np.where)
def where(cond, a=None, b=None):
    if isinstance(cond, LinArray):
        raise NonLinear("symbolic condition")
    sp = space_of(a, b)
    m = np.asarray(cond).astype(float)
    return lift(sp, a) * m + lift(sp, b) * (1 - m)


@implements(np.split, np.array_split)
def split(a, n, axis=0):
    parts = np.array_split(a.idx, n, axis=axis)
    return [a._view(p) for p in parts]


@implements(np.diff)
def diff(a, n=1, axis=-1, **k):
    for _ in range(n):
        sl = [slice(None)] * a.ndim
        s2 = list(sl)
        sl[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(sl)] - a[tuple(s2)]
    return a


@implements(np.cumsum)
def cumsum(a, axis=None, **k):
    if axis is None:
        a, axis = a.ravel(), 0
    return fromcoef(a.st.space, np.cumsum(a.coef, axis=axis % a.ndim), a.cols, a.dtype)


@implements(np.trace)
def trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    r = sum_(FUNCS[np.diagonal](a, offset, axis1, axis2), axis=-1)
    if out is not None:
        out[...] = r
        return out
    return r


@implements(np.pad)
def pad(a, width, mode='constant', **k):
    if mode != 'constant' or k.get('constant_values', 0) != 0:
        raise NonLinear("pad")
    w = np.broadcast_to(width, (a.ndim, 2))
    res = empty(a.st.space, [s + x + y for s, (x, y) in zip(a.shape, w)], a.dtype)
    res[tuple(slice(x, x + s) for s, (x, y) in zip(a.shape, w))] = a
    return res


@implements(np.cross)
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    sp = space_of(a, b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = (np.moveaxis(x, ax, -1) for x, ax in ((a, axisa), (b, axisb)))
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise NonLinear("cross")
    x = [a[..., (i+1) % 3] * b[..., (i+2) % 3] - a[..., (i+2) % 3] * b[..., (i+1) % 3] for i in range(3)]
    return np.moveaxis(stack([lift(sp, y) for y in x], axis=-1), -1, axisc)


@implements(np.column_stack)
def column_stack(arrs):
    return concatenate([x.reshape(-1, 1) if _nd(x) == 1 else x for x in arrs], axis=1)


@implements(np.dstack)
def dstack(arrs):
    sp = space_of(*arrs)
    arrs = [lift(sp, a) for a in arrs]
    up = [a.reshape((1, -1, 1)) if a.ndim <= 1 else a.reshape(a.shape + (1,)) if a.ndim == 2 else a for a in arrs]
    return concatenate(up, axis=2)


@implements(np.append)
def append(a, b, axis=None):
    sp = space_of(a, b)
    return concatenate([lift(sp, a), lift(sp, b)], axis=axis)


@implements(np.insert)
def insert(a, pos, vals, axis=None):
    sp = space_of(a, vals)
    a, vals = lift(sp, a), lift(sp, vals)
    if axis is None:
        a, axis = a.ravel(), 0
    n = a.shape[axis]
    where_ = np.insert(np.arange(n), pos, -1)
    shape = list(a.shape)
    shape[axis] = len(where_)
    res = empty(sp, shape, _dt(a, vals))
    sl = [slice(None)] * a.ndim
    sl[axis] = np.nonzero(where_ >= 0)[0]
    res[tuple(sl)] = a
    sl[axis] = np.nonzero(where_ < 0)[0]
    if np.ndim(pos) == 0 and vals.ndim:
        vals = vals._view(np.moveaxis(np.array(vals.idx, ndmin=a.ndim), 0, axis))
    res[tuple(sl)] = vals
    return res


@implements(np.linalg.solve)
def solve(A, b):
    sp = space_of(A, b)
    if isinstance(A, LinArray):
        c = A._const()
        if c is None:
            raise NonLinear("solve with a symbolic matrix")
        A = c
        if not isinstance(b, LinArray):
            return np.linalg.solve(A, b)
    A = np.asarray(A)
    return matmul(np.linalg.inv(A), b)


@implements(np.linalg.multi_dot)
def multi_dot(arrs, out=None):
    r = arrs[0]
    for a in arrs[1:]:
        r = dot(r, a)
    if out is not None:
        out[...] = r
        return out
    return r


@implements(np.full_like)
def full_like(a, fill, dtype=None, **k):
    sp = space_of(a, fill)
    if not isinstance(a, LinArray):
        a = lift(sp, a)
    r = empty(sp, k.get('shape') or a.shape, dtype or a.dtype)
    r[...] = fill
    return r


@implements(np.average)
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        r, scl = a.mean(axis=axis, keepdims=keepdims), None
    else:
        w = np.asarray(weights)
        if w.shape != a.shape:
            ax = axis if not isinstance(axis, tuple) else axis[0]
            w = w.reshape([len(w) if i == ax % a.ndim else 1 for i in range(a.ndim)])
        w = np.broadcast_to(w, a.shape)
        scl = w.sum(axis=axis, keepdims=keepdims)
        r = sum_(a * w, axis=axis, keepdims=keepdims) / scl
    return (r, scl) if returned else r


@implements(np.vdot)
def vdot(a, b):
    return sum_(np.conj(a).ravel() * b.ravel())


@implements(np.inner)
def inner(a, b):
    return dot(a, b) if _nd(a) == 0 or _nd(b) == 0 else matmul(a, b) if _nd(b) == 1 else matmul(a, b.T)


@implements(np.nan_to_num)
def nan_to_num(a, copy=True, **k):
    if not np.isfinite(a.coef).all():
        raise NonLinear("nan_to_num of non-finite data")
    return a.copy() if copy else a


FUNCS[np.real_if_close] = lambda a, tol=100: a.copy()


FUNCS[np.tril] = lambda a, k=0: a * np.tril(np.ones(a.shape[-2:]), k)
FUNCS[np.triu] = lambda a, k=0: a * np.triu(np.ones(a.shape[-2:]), k)


@implements(np.gradient)
def gradient(a, *spacing, axis=None, edge_order=1):
    if axis is None:
        axis = tuple(range(a.ndim))
    if np.ndim(axis) == 0:
        n = a.shape[axis]
        M = np.gradient(np.eye(n), *spacing, axis=0, edge_order=edge_order)
        return apply_matrix(M, a, axis)
    return [gradient(a, *(spacing if len(spacing) < 2 else [spacing[i]]), axis=x, edge_order=edge_order) for i, x in enumerate(axis)]


@implements(np.apply_along_axis)
def apply_along_axis(f, axis, a, *args, **kw):
    sp = space_of(a)
    axis = axis % a.ndim
    b = a._view(np.moveaxis(a.idx, axis, -1))
    outs = {}
    for i in np.ndindex(*b.shape[:-1]):
        outs[i] = f(b[i], *args, **kw)
    first = next(iter(outs.values()))
    nd = _nd(first)
    res = empty(sp, b.shape[:-1] + tuple(np.shape(first)), _dt(*outs.values()))
    for i, v in outs.items():
        res[i] = v
    if nd == 0:
        return res
    ind = list(range(res.ndim))
    n0 = a.ndim - 1
    order = ind[:axis] + ind[n0:] + ind[axis:n0]
    return res.transpose(order)


@implements(np.put)
def put(a, ind, v, mode='raise'):
    flat = a.idx.ravel()[np.asarray(ind).ravel()]
    v = v if isinstance(v, LinArray) else np.resize(v, flat.shape)
    LinArray(a.st, flat, a.dtype, a.part)[...] = v


@implements(np.putmask)
def putmask(a, mask, values):
    m = np.broadcast_to(np.asarray(mask), a.shape)
    sp = space_of(a, values)
    v = lift(sp, values)
    if v.size == 1:
        a[m] = v.reshape(())
    elif v.shape == a.shape:
        a[m] = v[m]
    else:
        raise NonLinear("putmask")


@implements(np.put_along_axis)
def put_along_axis(a, ind, v, axis):
    target = np.take_along_axis(a.idx, ind, axis)
    LinArray(a.st, target, a.dtype, a.part)[...] = v


@implements(np.block)
def block(arrs):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    d = depth(arrs)
    sp = _deep_space(arrs)

    def nd(x):
        return max(nd(y) for y in x) if isinstance(x, list) else _nd(x)
    n = max(d, nd(arrs))

    def rec(x, level):
        if isinstance(x, list):
            return concatenate([rec(y, level + 1) for y in x], axis=level - d + n)
        x = lift(sp, x)
        return x.reshape((1,) * (n - x.ndim) + x.shape)
    return rec(arrs, 0)


def _deep_space(x):
    if isinstance(x, LinArray):
        return x.st.space
    if isinstance(x, (list, tuple)):
        for y in x:
            s = _deep_space(y)
            if s is not None:
                return s
    return None


@implements(np.array_equal)
def array_equal(a, b, **k):
    if a is b:
        return True
    if np.shape(a) != np.shape(b):
        return False
    c = _consts([a, b])
    if c is None:
        raise NonLinear("comparison of symbolic arrays")
    return np.array_equal(*c, **k)


def apply_matrix(M, a, axis):
    """Contract matrix M (rows out, cols in) along axis of LinArray a."""
    axis = axis % a.ndim
    r = np.tensordot(np.asarray(M), a.coef, axes=(1, axis))
    r = np.moveaxis(r, 0, axis)
    dt = np.complex128 if (np.iscomplexobj(M) or a.dtype.kind == 'c') else np.float64
    return fromcoef(a.st.space, r, a.cols, dt)


# ---------------------------------------------------------------- verdicts
def depends(a):
    return isinstance(a, LinArray) and a._const() is None


def discharge(space, got, exp, tol, eng):
    """True / None (unknown) / (model, text)."""
    g = lift(space, got)
    e = lift(space, exp)
    if g.shape != e.shape and e.ndim and g.ndim:
        return {}, f"shape {g.shape} != {e.shape}"
    G, E, cols = _align(g, e)
    G, E = _bc(G, E)
    D = (G - E)
    if D.shape[-1] == 0 or D.size == 0:
        eng.stats['queries'] += 1
        return True
    D = D.reshape(-1, D.shape[-1])
    if not np.all(np.isfinite(D)):
        i = int(np.nonzero(~np.isfinite(D).all(axis=1))[0][0])
        j = int(np.nonzero(~np.isfinite(D[i]))[0][0])
        return _unit_model(space, cols, j), f"non-finite coefficient at flat index {i}"
    mag = max(1.0, float(np.max(np.abs(E))) if E.size else 1.0)
    tol = tol * mag
    parts = [D.real, D.imag] if np.iscomplexobj(D) else [D]
    # sound pruning: coefficients below eps are removed and their total added to the error budget
    eps = tol / (4 * D.shape[1])
    s = z3.Solver()
    s.set('timeout', 60000)
    terms = []
    used = set()
    where = []
    for P in parts:
        big = np.abs(P) > eps
        rows = np.nonzero(big.any(axis=1))[0]
        for i in rows:
            js = np.nonzero(big[i])[0]
            slack = tol / 4
            lin = z3.Sum([q(P[i, j]) * z3.Real(f"m{cols[j]}") if cols[j] else q(P[i, j]) for j in js])
            used.update(int(cols[j]) for j in js if cols[j])
            terms.append(z3.Or(lin > q(tol - slack), lin < q(-(tol - slack))))
            where.append((int(i), [(int(cols[j]), P[i, j]) for j in js]))
            if len(terms) >= 40:
                break
        if len(terms) >= 40:
            break
    t = time.time()
    for c in used:
        v = z3.Real(f"m{c}")
        s.add(v >= -1, v <= 1)
    s.add(z3.Or(terms) if terms else z3.BoolVal(False))
    r = s.check()
    eng.stats['queries'] += 1
    eng.stats['solver_s'] += time.time() - t
    if r == z3.unsat:
        return True
    if r == z3.unknown:
        return None
    m = s.model()
    text = f"entry {where[0][0]}: difference {'+'.join(f'{v:.3g}*{name(space, c)}' for c, v in where[0][1][:6])}"
    if all(len(space.monos[c]) <= 1 for c in used):
        model = {}
        for c in used:
            val = m.eval(z3.Real(f"m{c}"), model_completion=True)
            _put(model, space, space.monos[c][0], float(val.as_fraction()))
        return model, text
    # polynomial: find a point where the difference polynomial of one entry is nonzero
    s = z3.Solver()
    s.set('timeout', 60000)
    i, ent = where[0]
    syms = sorted({k for c, _ in ent for k in space.monos[c]})
    poly = z3.Sum([q(v) * space.term(c) for c, v in ent])
    for k in syms:
        s.add(space.syms[k][2] >= -1, space.syms[k][2] <= 1)
    big = max(abs(v) for _, v in ent)
    s.add(z3.Or(poly > q(min(tol, big / 100)), poly < -q(min(tol, big / 100))))
    # prefer a simple witness: symbols in {-1, 0, 1, 1/2}
    t = time.time()
    r = s.check()
    eng.stats['queries'] += 1
    eng.stats['solver_s'] += time.time() - t
    model = {}
    if r == z3.sat:
        m = s.model()
        for k in syms:
            val = m.eval(space.syms[k][2], model_completion=True)
            fr = val.as_fraction() if z3.is_rational_value(val) else val.approx(15).as_fraction()
            _put(model, space, k, float(fr))
        return model, text
    rng = np.random.default_rng(1)
    for k in syms:
        _put(model, space, k, float(rng.uniform(-1, 1)))
    return model, text


def name(space, c):
    return '*'.join(f"{space.syms[k][0]}[{space.syms[k][1]}]" for k in space.monos[c]) or '1'


def _put(model, space, k, val):
    n, key, _ = space.syms[k]
    model.setdefault(n, {})[key] = val


def _unit_model(space, cols, j):
    model = {}
    for k in space.monos[cols[j]]:
        _put(model, space, k, 1.0)
    return model
