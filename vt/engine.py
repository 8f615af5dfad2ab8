"""
Path-forking symbolic execution of real Python functions.

`explore(fn)` runs `fn(eng)` once per feasible path.  Symbolic values (SymBool,
SymInt, SymReal) are proxies around z3 terms; whenever the code under test asks
for the truth of a SymBool (or for the concrete value of a SymInt via
__index__/__hash__), the engine asks z3 which outcomes are feasible under the
current path condition, takes one and schedules the other.  Assertions made
with `eng.check` are discharged by z3 under the path condition, so every
verdict covers all values that follow that path.
"""
import os, time, itertools, fractions, math, numbers
import z3

__all__ = ['Engine', 'SymBool', 'SymInt', 'SymReal', 'PathAbort', 'Inconclusive', 'Failure',
           'to_z3', 'explore']


class PathAbort(BaseException):
    """Current path is infeasible or deliberately cut."""


class Inconclusive(Exception):
    """Engine could not decide (unknown, path budget, unsupported operation)."""


class Failure:
    def __init__(self, label, model, info=None, kind='assert'):
        self.label, self.model, self.info, self.kind = label, model, info, kind

    def __repr__(self):
        return f"Failure({self.kind}: {self.label}; {self.model}; {self.info})"


_current = []


def cur():
    if not _current:
        raise Inconclusive("symbolic branch outside an engine run")
    return _current[-1]


def q(x):
    """Exact z3 rational for a python/numpy number."""
    if isinstance(x, bool) or type(x).__name__ == 'bool_':
        return z3.RealVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.RealVal(int(x))
    f = fractions.Fraction(float(x)) if not isinstance(x, fractions.Fraction) else x
    return z3.Q(f.numerator, f.denominator)


def to_z3(x):
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool) or type(x).__name__ == 'bool_':
        return z3.BoolVal(bool(x))
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, (numbers.Real, fractions.Fraction)):
        return q(x)
    raise TypeError(f"cannot lift {type(x)}")


def _num(x):
    return isinstance(x, (numbers.Real, fractions.Fraction)) and not isinstance(x, (SymInt, SymReal))


class SymBool:
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o): return SymBool(z3.And(self.e, _b(o)))
    __rand__ = __and__
    __mul__ = __and__
    __rmul__ = __and__
    def __or__(self, o): return SymBool(z3.Or(self.e, _b(o)))
    __ror__ = __or__
    __add__ = __or__
    __radd__ = __or__
    def __xor__(self, o): return SymBool(z3.Xor(self.e, _b(o)))
    __rxor__ = __xor__
    def __invert__(self): return SymBool(z3.Not(self.e))
    def __eq__(self, o): return SymBool(self.e == _b(o))
    def __ne__(self, o): return SymBool(self.e != _b(o))
    def __hash__(self): return hash(bool(self))
    def logical_not(self): return ~self
    def __repr__(self): return f"SymBool({self.e})"


def _b(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, z3.BoolRef):
        return o
    if isinstance(o, (SymInt, SymReal)):
        return o.e != 0
    return z3.BoolVal(bool(o))


def mk(e):
    if z3.is_bool(e):
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return SymBool(e)
    if z3.is_int(e):
        return SymInt(e)
    return SymReal(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymBool(e)


def int_linear(e):
    """{variable: coefficient}, constant of a linear integer term; None if it is not linear."""
    if z3.is_int_value(e):
        return {}, e.as_long()
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
        return {e: 1}, 0
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        out, c = {}, 0
        for i, ch in enumerate(e.children()):
            p = int_linear(ch)
            if p is None:
                return None
            sg = -1 if (k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and i)) else 1
            for v, x in p[0].items():
                out[v] = out.get(v, 0) + sg*x
            c += sg*p[1]
        return out, c
    if k == z3.Z3_OP_MUL and e.num_args() == 2:
        a, b = map(int_linear, e.children())
        if a is None or b is None:
            return None
        if not a[0]:
            a, b = b, a
        if b[0]:
            return None
        return {v: x*b[1] for v, x in a[0].items()}, a[1]*b[1]
    return None


def exact_div(a, b):
    """floor(a/b) when every coefficient of the linear term a is divisible by b."""
    p = int_linear(z3.simplify(a))
    if p is None or b == 0 or any(x % b for x in p[0].values()):
        return None
    out = z3.IntVal(p[1]//b)
    for v, x in p[0].items():
        out = out + (x//b)*v
    return out


class _SymNum:
    __slots__ = ('e',)
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _lift(o):
        """(z3 term) or NotImplemented marker None."""
        if isinstance(o, _SymNum):
            return o.e
        if isinstance(o, SymBool):
            return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, (bool,)) or type(o).__name__ == 'bool_':
            return z3.IntVal(int(o))
        if isinstance(o, numbers.Integral):
            return z3.IntVal(int(o))
        if isinstance(o, fractions.Fraction):
            return q(o)
        if isinstance(o, numbers.Real):
            f = float(o)
            if math.isinf(f) or math.isnan(f):
                return None
            return q(f)
        return None

    def _inf(self, o):
        return isinstance(o, numbers.Real) and not isinstance(o, (numbers.Integral, fractions.Fraction)) and math.isinf(float(o))

    def _bin(self, o, op, refl=False):
        l = self._lift(o)
        if l is None:
            return NotImplemented
        a, b = (l, self.e) if refl else (self.e, l)
        if z3.is_int(a) != z3.is_int(b):
            a = z3.ToReal(a) if z3.is_int(a) else a
            b = z3.ToReal(b) if z3.is_int(b) else b
        return mk(op(a, b))

    def __add__(self, o):
        if self._inf(o): return float(o)
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o):
        if self._inf(o): return -float(o)
        return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o):
        if self._inf(o): return float(o)
        return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if self._inf(o):
            return float(o) if cur().branch(self.e > 0) else -float(o) if cur().branch(self.e < 0) else float('nan')
        return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if self._inf(o):
            return self * o
        return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return mk(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mk(z3.If(self.e >= 0, self.e, -self.e))

    def _truediv(self, a, b):
        a = z3.ToReal(a) if z3.is_int(a) else a
        b = z3.ToReal(b) if z3.is_int(b) else b
        if not z3.is_rational_value(b):
            if cur().branch(b == 0):
                raise ZeroDivisionError("division by zero")
        elif b.numerator_as_long() == 0:
            raise ZeroDivisionError("division by zero")
        return mk(a / b)

    def __truediv__(self, o):
        if self._inf(o): return SymReal(z3.RealVal(0))
        l = self._lift(o)
        if l is None: return NotImplemented
        return self._truediv(self.e, l)

    def __rtruediv__(self, o):
        if self._inf(o):
            return float(o) if cur().branch(self.e > 0) else -float(o)
        l = self._lift(o)
        if l is None: return NotImplemented
        return self._truediv(l, self.e)

    def _floordiv(self, a, b):
        bi = z3.is_int(a) and z3.is_int(b)
        if bi:
            if cur().branch(b == 0):
                raise ZeroDivisionError
            # python floor division for either sign of the divisor
            if z3.is_int_value(b):
                e = exact_div(a, b.as_long())
                if e is not None:
                    return mk(e)
                return mk(a / b) if b.as_long() > 0 else mk((-a) / (-b))
            return mk(z3.If(b > 0, a / b, (-a) / (-b)))
        r = self._truediv(a, b)
        return SymReal(z3.ToReal(z3.ToInt(r.e)))

    def __floordiv__(self, o):
        l = self._lift(o)
        if l is None: return NotImplemented
        return self._floordiv(self.e, l)

    def __rfloordiv__(self, o):
        l = self._lift(o)
        if l is None: return NotImplemented
        return self._floordiv(l, self.e)

    def __mod__(self, o):
        l = self._lift(o)
        if l is None: return NotImplemented
        return self - self._floordiv(self.e, l) * mk(l)

    def __rmod__(self, o):
        l = self._lift(o)
        if l is None: return NotImplemented
        return mk(l) - self._floordiv(l, self.e) * self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, n):
        if isinstance(n, numbers.Real) and float(n) == int(n):
            n = int(n)
            if n >= 0:
                out = 1
                for _ in range(n):
                    out = self * out
                return out
            return 1 / (self ** (-n))
        raise Inconclusive(f"symbolic power {n}")

    def _cmp(self, o, op, infval):
        if self._inf(o):
            return infval(float(o) > 0)
        l = self._lift(o)
        if l is None:
            return NotImplemented
        a, b = self.e, l
        if z3.is_int(a) != z3.is_int(b):
            a = z3.ToReal(a) if z3.is_int(a) else a
            b = z3.ToReal(b) if z3.is_int(b) else b
        return mkbool(op(a, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda p: p)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda p: p)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda p: not p)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda p: not p)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda p: False)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda p: True)
        return True if r is NotImplemented else r
    def __bool__(self): return cur().branch(self.e != 0)
    def __repr__(self): return f"{type(self).__name__}({self.e})"
    def __format__(self, spec): return "<sym>"
    def item(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self
    # numpy object-array method hooks
    def sqrt(self):
        eng = cur()
        r = eng.fresh_real('sqrt')
        eng.add(z3.And(r.e >= 0, r.e * r.e == (z3.ToReal(self.e) if z3.is_int(self.e) else self.e)))
        return r
    def ceil(self): return self.__ceil__()
    def floor(self): return self.__floor__()
    def rint(self): return round(self)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


class SymInt(_SymNum):
    __slots__ = ()

    def __index__(self):
        return cur().concretize(self.e)

    def __int__(self):
        return cur().concretize(self.e)

    def __hash__(self):
        return hash(cur().concretize(self.e))

    def __float__(self):
        return float(cur().concretize(self.e))

    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None): return self
    def __trunc__(self): return self

    def __and__(self, o):
        if isinstance(o, numbers.Integral) and int(o) == 1:
            return self % 2
        return NotImplemented
    __rand__ = __and__


class SymReal(_SymNum):
    __slots__ = ()

    def __floor__(self): return SymInt(z3.ToInt(self.e))
    def __ceil__(self): return SymInt(-z3.ToInt(-self.e))
    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
    def __round__(self, n=None):
        if n not in (None, 0):
            raise Inconclusive("round to decimals")
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.Q(1, 2)
        r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return SymInt(r)
    def __hash__(self):
        return hash(cur().concretize_real(self.e))
    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


def sym_int(x):
    """Stand-in for builtins.int in modules executed symbolically."""
    if isinstance(x, SymReal):
        return x.__trunc__()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return SymInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    return int(x)


def sym_float(x):
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.e))
    if isinstance(x, SymReal):
        return x
    return float(x)


def _minmax(args, kw, pick):
    if len(args) == 1:
        args = list(args[0])
        if not args and 'default' in kw:
            return kw['default']
    else:
        args = list(args)
    if kw.get('key'):
        raise Inconclusive('min/max key')
    out = args[0]
    for a in args[1:]:
        if isinstance(a, _SymNum) or isinstance(out, _SymNum):
            if isinstance(a, float) and math.isinf(a) or isinstance(out, float) and math.isinf(out):
                out = a if bool(pick(a, out)) else out
                continue
            c = pick(a, out)
            if isinstance(c, SymBool):
                l, r = _SymNum._lift(a), _SymNum._lift(out)
                if z3.is_int(l) != z3.is_int(r):
                    l = z3.ToReal(l) if z3.is_int(l) else l
                    r = z3.ToReal(r) if z3.is_int(r) else r
                out = mk(z3.If(c.e, l, r))
            else:
                out = a if c else out
        else:
            out = a if pick(a, out) else out
    return out


def sym_min(*args, **kw): return _minmax(args, kw, lambda a, b: a < b)
def sym_max(*args, **kw): return _minmax(args, kw, lambda a, b: a > b)


class Engine:
    """Depth-first exploration of the feasible paths of a function."""

    def __init__(self, max_paths=20000, timeout_ms=60000, max_time=None, stop_on_fail=8):
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.max_time = max_time
        self.stop_on_fail = stop_on_fail
        self.failures = []
        self.stats = dict(paths=0, aborted=0, queries=0, asserts=0, solver_s=0.0, branches=0, unknown=0)
        self.reached = {}
        self.symbols = {}
        self.inconclusive = []
        self._pos = self._plen = 0

    # --- solver plumbing
    def _check(self, *extra):
        t = time.time()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r, m

    def add(self, e):
        self.solver.add(to_z3(e))

    def assume(self, e):
        e = to_z3(e)
        self.solver.add(e)
        if self._pos < self._plen:
            return          # known to be consistent
        r, _ = self._check()
        if r == z3.unsat:
            raise PathAbort()

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.symbols[name] = v
        if lo is not None: self.solver.add(v >= lo)
        if hi is not None: self.solver.add(v <= hi)
        return SymInt(v)

    def real(self, name, lo=None, hi=None, pos=False):
        v = z3.Real(name)
        self.symbols[name] = v
        if lo is not None: self.solver.add(v >= q(lo))
        if hi is not None: self.solver.add(v <= q(hi))
        if pos: self.solver.add(v > 0)
        return SymReal(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.symbols[name] = v
        return SymBool(v)

    def fresh_real(self, name):
        self._fresh += 1
        return SymReal(z3.Real(f"{name}!{self._fresh}"))

    def fresh_int(self, name):
        self._fresh += 1
        return SymInt(z3.Int(f"{name}!{self._fresh}"))

    def choose(self, name, options):
        """Nondeterministic choice among concrete options (a symbolic index)."""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[self.concretize(i.e)]

    # --- decisions
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        self.stats['branches'] += 1
        i = self._pos
        self._pos += 1
        if i < len(self._prefix):
            d = self._prefix[i]
            self.solver.add(e if d else z3.Not(e))
            return d
        rt, _ = self._check(e)
        rf, _ = self._check(z3.Not(e))
        if rt == z3.unknown or rf == z3.unknown:
            # keep both sides: sound over-approximation of the feasible paths
            self.inconclusive_branch = True
        t, f = rt != z3.unsat, rf != z3.unsat
        if not t and not f:
            raise PathAbort()
        if t and f:
            self._work.append(self._prefix[:i] + [False])
            d = True
        else:
            d = t
        self._prefix = self._prefix[:i] + [d]
        self.solver.add(e if d else z3.Not(e))
        return d

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            i = self._pos
            if i < len(self._prefix):
                d = self._prefix[i]
                # prefix entries for concretisation are ('v', value) or ('n', value)
                self._pos += 1
                if isinstance(d, tuple):
                    kind, v = d
                    if kind == 'v':
                        self.solver.add(e == v)
                        return v
                    self.solver.add(e != v)
                    continue
                raise Inconclusive("decision mismatch (non-deterministic code)")
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise Inconclusive("unknown while concretising")
            v = m.eval(e, model_completion=True).as_long()
            rn, _ = self._check(e != v)
            if rn != z3.unsat:
                self._work.append(self._prefix[:i] + [('n', v)])
            self._prefix = self._prefix[:i] + [('v', v)]
            self._pos += 1
            self.solver.add(e == v)
            return v

    def concretize_real(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
        raise Inconclusive("hash of symbolic real")

    # --- assertions
    def check(self, cond, label, info=None):
        """Assert cond for every value on this path; continue assuming it."""
        self.stats['asserts'] += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        e = _b(cond)
        s = z3.simplify(e)
        if z3.is_true(s):
            self.stats['queries'] += 1
            return True
        if self._pos < self._plen:
            return True     # discharged under the identical path condition when the shared prefix was first explored
        r, m = self._check(z3.Not(e))
        if r == z3.sat:
            self.failures.append(Failure(label, self.model_dict(m), info() if callable(info) else info))
            self.solver.add(e)
            r2, _ = self._check()
            if r2 == z3.unsat:
                raise PathAbort()
            return False
        if r == z3.unknown:
            self.inconclusive.append(label)
            return None
        return True

    def fail(self, label, info=None, kind='assert'):
        """This path itself is a violation (reached code that must be unreachable)."""
        self.stats['asserts'] += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        r, m = self._check()
        if r == z3.sat:
            self.failures.append(Failure(label, self.model_dict(m), info, kind))
        elif r == z3.unknown:
            self.inconclusive.append(label)

    def witness(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def model_dict(self, m):
        out = {}
        for name, v in self.symbols.items():
            val = m.eval(v, model_completion=True)
            if z3.is_int_value(val):
                out[name] = val.as_long()
            elif z3.is_rational_value(val):
                out[name] = str(fractions.Fraction(val.numerator_as_long(), val.denominator_as_long()))
            elif z3.is_bool(val):
                out[name] = z3.is_true(val)
            elif z3.is_string_value(val):
                out[name] = val.as_string()
            elif z3.is_algebraic_value(val):
                out[name] = str(val.approx(20).as_fraction())
            else:
                out[name] = str(val)
        return out

    # --- driver
    def explore(self, fn, on_exception='fail'):
        """Run fn(self) over all feasible paths."""
        t0 = time.time()
        self._work = [[]]
        complete = True
        while self._work:
            if self.stats['paths'] + self.stats['aborted'] >= self.max_paths:
                complete = False
                break
            if self.max_time and time.time() - t0 > self.max_time:
                complete = False
                break
            if len(self.failures) >= self.stop_on_fail:
                break
            self._prefix = list(self._work.pop())
            self._pos = 0
            self._plen = len(self._prefix)
            self._fresh = 0
            self.symbols = {}
            self.inconclusive_branch = False
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            _current.append(self)
            try:
                fn(self)
                self.stats['paths'] += 1
            except PathAbort:
                self.stats['aborted'] += 1
            except Inconclusive:
                raise
            except Exception as exc:
                import traceback
                if on_exception == 'raise':
                    raise
                self.stats['paths'] += 1
                tb = traceback.format_exc(limit=-int(os.environ.get('VERIF_TB', '6')))
                self.fail(f"exception {type(exc).__name__}: {exc}", info=tb, kind='exception')
            finally:
                _current.pop()
        self.complete = complete
        self.stats['wall_s'] = self.stats.get('wall_s', 0) + time.time() - t0
        return self.failures


def explore(fn, **kw):
    eng = Engine(**kw)
    eng.explore(fn)
    return eng
