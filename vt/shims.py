"""Stand-ins injected into modules under symbolic execution."""
import numpy as np


class ObjNumpy:
    """numpy with array constructors producing object arrays (able to hold z3 proxies)."""

    def __init__(self, base=np, fill=0):
        self._base = base

    def __getattr__(self, n):
        return getattr(self._base, n)

    def zeros(self, shape, dtype=None, **k):
        a = np.empty(shape, dtype=object)
        a[...] = 0
        return a

    def empty(self, shape, dtype=None, **k):
        return self.zeros(shape)

    def ones(self, shape, dtype=None, **k):
        a = np.empty(shape, dtype=object)
        a[...] = 1
        return a

    def zeros_like(self, x, dtype=None, **k):
        return self.zeros(np.shape(x))

    def empty_like(self, x, dtype=None, **k):
        return self.zeros(np.shape(x))

    def array(self, x, dtype=None, **k):
        a = np.array(x, dtype=object, **k)
        return a
    asarray = array


class SymNp:
    """numpy for modules handling symbolic scalars: elementwise functions work on z3 proxies and object arrays of them."""

    def __init__(self, base=np):
        self._base = base

    def __getattr__(self, n):
        return getattr(self._base, n)

    @staticmethod
    def _has(x):
        from .engine import _SymNum, SymBool
        if isinstance(x, (_SymNum, SymBool)):
            return True
        if isinstance(x, np.ndarray):
            return x.dtype == object
        if isinstance(x, (list, tuple)):
            return any(SymNp._has(v) for v in x)
        return False

    def _el(self, f, base, x, *a, **k):
        if not self._has(x):
            return base(x, *a, **k)
        if isinstance(x, (np.ndarray, list, tuple)):
            x = np.asarray(x, dtype=object)
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i])
            return out
        return f(x)

    def round(self, x, decimals=0): return self._el(round, self._base.round, x)
    around = round
    def rint(self, x): return self._el(round, self._base.rint, x)
    def floor(self, x):
        import math
        return self._el(math.floor, self._base.floor, x)
    def ceil(self, x):
        import math
        return self._el(math.ceil, self._base.ceil, x)
    def trunc(self, x): return self._el(lambda v: v.__trunc__(), self._base.trunc, x)
    def abs(self, x): return self._el(abs, self._base.abs, x)
    absolute = abs
    fabs = abs
    def isfinite(self, x): return self._el(lambda v: True, self._base.isfinite, x)
    def isinf(self, x): return self._el(lambda v: False, self._base.isinf, x)
    def isnan(self, x): return self._el(lambda v: False, self._base.isnan, x)
    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if not (self._has(a) or self._has(b)):
            return self._base.isclose(a, b, rtol=rtol, atol=atol, **k)
        return abs(a - b) <= atol + rtol*abs(b)
    def floor_divide(self, a, b): return a // b
    def mod(self, a, b): return a % b
    remainder = mod
    def _bc(self, f, *xs):
        """elementwise on broadcast arrays of exact numbers"""
        if not any(isinstance(x, (np.ndarray, list, tuple)) for x in xs):
            return f(*xs)
        xs = np.broadcast_arrays(*[_obj(x) for x in xs])
        out = np.empty(xs[0].shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = f(*[x[i] for x in xs])
        return out

    def minimum(self, a, b):
        from .engine import sym_min
        return self._bc(sym_min, a, b) if self._has(a) or self._has(b) else self._base.minimum(a, b)
    def maximum(self, a, b):
        from .engine import sym_max
        return self._bc(sym_max, a, b) if self._has(a) or self._has(b) else self._base.maximum(a, b)
    def clip(self, x, lo=None, hi=None, a_min=None, a_max=None, min=None, max=None):
        from .engine import sym_max, sym_min
        lo = a_min if lo is None else lo
        lo = min if lo is None else lo
        hi = a_max if hi is None else hi
        hi = max if hi is None else hi
        if not any(map(self._has, (x, lo, hi))):
            return self._base.clip(x, lo, hi)
        if lo is not None:
            x = self._bc(sym_max, x, lo)
        return x if hi is None else self._bc(sym_min, x, hi)

    def _red(self, pick, base, x, *a, **k):
        if not self._has(x):
            return base(x, *a, **k)
        vals = list(np.asarray(x, dtype=object).ravel())
        if 'initial' in k:
            vals.append(k['initial'])
        return pick(vals)

    def max(self, x, *a, **k):
        from .engine import sym_max
        return self._red(sym_max, self._base.max, x, *a, **k)
    amax = max
    def min(self, x, *a, **k):
        from .engine import sym_min
        return self._red(sym_min, self._base.min, x, *a, **k)
    amin = min


def _obj(x):
    if isinstance(x, (np.ndarray, list, tuple)):
        return np.asarray(x, dtype=object)
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def symbolic_module(env, mod):
    """Run a module's scalar code on z3 proxies."""
    from .engine import sym_int, sym_float, sym_min, sym_max
    if hasattr(mod, 'np'):
        env.patch(mod, 'np', SymNp(np))
    env.patch(mod, 'int', sym_int_t)
    env.patch(mod, 'float', sym_float_t)
    env.patch(mod, 'min', sym_min)
    env.patch(mod, 'max', sym_max)
    if hasattr(mod, 'math'):
        env.patch(mod, 'math', SymMath())


class SymMath:
    def __getattr__(self, n):
        import math
        return getattr(math, n)

    def _or(self, name, x, val):
        import math
        return val if SymNp._has(x) else getattr(math, name)(x)
    def isfinite(self, x): return self._or('isfinite', x, True)
    def isinf(self, x): return self._or('isinf', x, False)
    def isnan(self, x): return self._or('isnan', x, False)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        from .engine import SymInt
        return isinstance(x, (int, SymInt))

    def __call__(cls, *a):
        from .engine import sym_int
        if len(a) == 1:
            return sym_int(a[0])
        return int(*a)


class sym_int_t(int, metaclass=_IntMeta):
    """builtins.int, accepting z3 proxies (isinstance included)"""


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        from .engine import SymReal
        return isinstance(x, (float, SymReal))

    def __call__(cls, *a):
        from .engine import sym_float
        return sym_float(*a) if a else 0.0


class sym_float_t(float, metaclass=_FloatMeta):
    pass
