"""
Environments a scenario body runs in.

A scenario is one function body(env).  `SymEnv` runs it symbolically (inputs are
z3 variables, assertions are discharged by z3, every feasible path is taken).
`ConcEnv` re-runs the same body on concrete values -- a solver model -- against
the unpatched code: that is the replay.  `env.patch` replaces something only in
the symbolic run (solver-friendly stand-in with the same contract); `env.stub`
replaces environment (clock, communicator, file...) in both.
"""
import fractions, math, random
from collections.abc import MutableMapping
import numpy as np
from .engine import Engine, SymBool, SymInt, SymReal, PathAbort, Inconclusive, Failure, _current, to_z3, q, _b
import z3

_MISSING = object()


class Patches:
    def _p_init(self):
        self._undo = []
        self.notes = []

    def _set(self, obj, attr, value):
        if isinstance(obj, MutableMapping):
            old = obj.get(attr, _MISSING)
            self._undo.append((obj, attr, old))
            obj[attr] = value
            return
        old = obj.__dict__.get(attr, _MISSING) if hasattr(obj, '__dict__') else getattr(obj, attr, _MISSING)
        self._undo.append((obj, attr, old))
        setattr(obj, attr, value)

    def _unpatch(self):
        while self._undo:
            obj, attr, old = self._undo.pop()
            if isinstance(obj, MutableMapping):
                if old is _MISSING:
                    obj.pop(attr, None)
                else:
                    obj[attr] = old
            elif old is _MISSING:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
            else:
                setattr(obj, attr, old)

    def stub(self, obj, attr, value):
        self._set(obj, attr, value)


class SymEnv(Engine, Patches):
    sym = True

    def __init__(self, **kw):
        super().__init__(**kw)
        self._p_init()
        self.tol = 1e-9

    def patch(self, obj, attr, value):
        self._set(obj, attr, value)

    def explore(self, body, **kw):
        def wrapped(eng):
            eng.fkey = None
            try:
                body(eng)
            finally:
                eng._unpatch()
        return super().explore(wrapped, **kw)

    # --- symbolic arrays (linear-form domain)
    @property
    def space(self):
        from . import lin
        return lin.SPACE

    def array(self, name, shape, complex=False):
        return self.space.new(name, shape, complex)

    def equal(self, got, exp, label, tol=None, info=None):
        """got == exp, elementwise, for every value of the symbols (|x_i| <= 1), to tol."""
        from . import lin
        tol = self.tol if tol is None else tol
        self.stats['asserts'] += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        res = lin.discharge(self.space, got, exp, tol, self)
        if res is True:
            return True
        if res is None:
            self.inconclusive.append(label)
            return None
        model, text = res
        r, m = self._check()
        base = self.model_dict(m) if m is not None else {}
        base.update(model)
        self.failures.append(Failure(label, base, f'{info}: {text}' if info else text))
        return False

    def nonzero(self, arr, label):
        """Reachability witness: arr depends on the symbols (not identically zero)."""
        from . import lin
        if not lin.depends(arr):
            self.inconclusive.append(f'vacuous: {label}')

    def same(self, got, exp, label, tol=1e-9):
        """Equality of symbolic scalars (engine domain): exact identity, else to tol relative to magnitudes."""
        a, b = got, exp
        if not isinstance(a, (SymReal, SymInt)) and not isinstance(b, (SymReal, SymInt)):
            return self.check(bool(abs(a - b) <= tol * (1 + abs(b))), label, info=f'{a} vs {b}')
        d = a - b
        self.stats['asserts'] += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        if not isinstance(d, (SymReal, SymInt)):
            ok = abs(d) <= tol
            if ok: return True
            return self.fail(label, info=f'{d}')
        s = z3.simplify(d.e, som=True)
        if z3.is_rational_value(s) or z3.is_int_value(s):
            v = fractions.Fraction(str(s.as_fraction())) if z3.is_rational_value(s) else s.as_long()
            if abs(v) <= tol:
                self.stats['queries'] += 1
                return True
        r, m = self._check(d.e != 0)
        if r == z3.unsat:
            return True
        mag = 1 + abs(a) + abs(b) if True else 1
        t = z3.ToReal(d.e) if z3.is_int(d.e) else d.e
        magz = to_z3(mag)
        r, m = self._check(z3.Or(t > q(tol) * magz, -t > q(tol) * magz))
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.inconclusive.append(label)
            return None
        self.failures.append(Failure(label, self.model_dict(m), f'got {str(a)[:200]} expected {str(b)[:200]}'))
        return False


class ConcEnv(Patches):
    """Replays a body on the values of a model, unpatched."""
    sym = False

    def __init__(self, model, seed=1):
        self._p_init()
        self.model = model
        self.problems = []
        self.tol = 1e-9
        self.rng = random.Random(seed)
        self.fkey = None
        self.space = None
        self.stats = {}

    def patch(self, obj, attr, value):
        pass

    def _get(self, name, default):
        if name in self.model:
            return self.model[name]
        return default()

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lambda: self._default_int(lo, hi)))

    def _default_int(self, lo, hi):
        lo = 0 if lo is None else int(lo)
        hi = lo + 5 if hi is None else int(hi)
        return self.rng.randint(lo, max(lo, hi))

    def real(self, name, lo=None, hi=None, pos=False):
        v = self._get(name, lambda: self._default_real(lo, hi, pos))
        return float(fractions.Fraction(v)) if isinstance(v, str) else float(v)

    def _default_real(self, lo, hi, pos):
        lo = (0.1 if pos else -1) if lo is None else float(lo)
        hi = lo + 2 if hi is None else float(hi)
        return self.rng.uniform(lo, hi)

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    def choose(self, name, options):
        options = list(options)
        i = int(self._get(name, lambda: self.rng.randrange(len(options))))
        return options[i]

    def fresh_real(self, name):
        return self.rng.uniform(0, 1)

    def assume(self, cond):
        if not bool(cond):
            raise PathAbort()

    def add(self, e):
        pass

    def array(self, name, shape, complex=False):
        n = int(np.prod(shape))
        out = np.zeros(n, dtype=np.complex128 if complex else np.float64)
        d = self.model.get(name)
        if d is None:
            if any(isinstance(v, dict) for v in self.model.values()):
                pass       # unmentioned symbols are zero in a linear model
            else:
                g = np.random.default_rng(abs(hash_name(name)) % 2**31)
                out[:] = g.uniform(-1, 1, n)
                if complex:
                    out += 1j * g.uniform(-1, 1, n)
        else:
            for k, v in d.items():
                part = k[-1] if k[-1] in 'ri' else 'r'
                i = int(k[:-1]) if k[-1] in 'ri' else int(k)
                out[i] += float(v) * (1j if part == 'i' else 1)
        return out.reshape(shape)

    def equal(self, got, exp, label, tol=None, info=None):
        tol = self.tol if tol is None else tol
        g = np.asarray(got)
        e = np.asarray(exp)
        if g.shape != e.shape and not (e.ndim == 0 or g.ndim == 0):
            self.problems.append(f"{label}: shape {g.shape} != {e.shape}")
            return False
        if g.size == 0 and e.size == 0:
            return True
        scale = 1 + (np.max(np.abs(e)) if e.size else 0)
        with np.errstate(all='ignore'):
            d = np.abs(g - e)
        bad = ~(d <= tol * scale)
        if np.any(bad):
            i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            self.problems.append(f"{label}" + (f" ({info})" if info else '') + f": max error {d.ravel()[i]:.3g} at flat index {i}: got {np.broadcast_to(g, d.shape).ravel()[i]} expected {np.broadcast_to(e, d.shape).ravel()[i]}")
            return False
        return True

    def nonzero(self, arr, label):
        pass

    def check(self, cond, label, info=None):
        if not bool(cond):
            i = info() if callable(info) else info
            self.problems.append(f"{label}" + (f" ({i})" if i else ''))
            return False
        return True

    def same(self, got, exp, label, tol=1e-9):
        got, exp = complex_ok(got), complex_ok(exp)
        if not (abs(got - exp) <= max(tol, 1e-9) * (1 + abs(exp) + abs(got))):
            self.problems.append(f"{label}: got {got} expected {exp}")
            return False
        return True

    def fail(self, label, info=None, kind='assert'):
        self.problems.append(f"{label}" + (f" ({info})" if info else ''))

    def witness(self, label):
        pass

    def run(self, body):
        from .engine import PathAbort
        try:
            body(self)
        except PathAbort:
            pass
        except Exception as exc:
            import traceback
            self.problems.append(f"exception {type(exc).__name__}: {exc} :: {traceback.format_exc(limit=-3)[-500:]}")
        finally:
            self._unpatch()
        return self.problems


def complex_ok(x):
    return complex(x) if isinstance(x, complex) or np.iscomplexobj(x) else float(x)


def hash_name(s):
    import zlib
    return zlib.crc32(s.encode())
