"""Symbolic reals as exact rational functions of positive z3 variables (normal form num/den).

Used for step-size formulas: division by sums of positive symbols stays exact, and an
identity a == b becomes a polynomial query on the numerator."""
import fractions, numbers, math
import numpy as np
import z3
from .engine import cur, Inconclusive, mkbool, q, SymReal, SymInt


class RatSpace:
    def __init__(self, env, names):
        from sympy.polys.fields import field
        from sympy import QQ
        self.env = env
        self.QQ = QQ
        out = field(','.join(names), QQ)
        self.F = out[0]
        self.z = [env.real(n, pos=True).e for n in names]
        self.gens = [Rat(self, g) for g in out[1:]]

    def conv(self, x):
        if isinstance(x, Rat):
            return x.f
        if isinstance(x, (SymReal, SymInt)):
            return None
        if isinstance(x, (numbers.Integral, np.integer)):
            return self.F(int(x))
        if isinstance(x, (numbers.Real, np.floating, fractions.Fraction)):
            fr = fractions.Fraction(x) if isinstance(x, fractions.Fraction) else fractions.Fraction(float(x))
            return self.F(self.QQ(fr.numerator, fr.denominator))
        return None

    def zpoly(self, p):
        terms = []
        for mon, c in p.terms():
            t = z3.Q(int(c.numerator), int(c.denominator))
            for v, e in zip(self.z, mon):
                for _ in range(e):
                    t = t * v
            terms.append(t)
        return z3.Sum(terms) if terms else z3.RealVal(0)


class Rat:
    __array_ufunc__ = None
    __slots__ = ('sp', 'f')

    def __init__(self, sp, f):
        self.sp, self.f = sp, f

    def _b(op):
        def g(self, o):
            c = self.sp.conv(o)
            if c is None:
                return NotImplemented
            return Rat(self.sp, op(self.f, c))
        return g
    __add__ = __radd__ = _b(lambda a, b: a + b)
    __sub__ = _b(lambda a, b: a - b)
    __rsub__ = _b(lambda a, b: b - a)
    __mul__ = __rmul__ = _b(lambda a, b: a * b)
    __truediv__ = _b(lambda a, b: a / b)
    __rtruediv__ = _b(lambda a, b: b / a)

    def __pow__(self, n):
        if float(n) != int(n):
            raise Inconclusive('fractional power')
        return Rat(self.sp, self.f ** int(n))

    def __neg__(self):
        return Rat(self.sp, -self.f)

    def __pos__(self):
        return self

    def _cmp(op):
        def g(self, o):
            c = self.sp.conv(o)
            if c is None:
                return NotImplemented
            d = self.f - c
            # sign of num/den; cleared by multiplying with den**2 > 0
            e = self.sp.zpoly(d.numer * d.denom)
            return mkbool(op(e, z3.RealVal(0)))
        return g
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        c = self.sp.conv(o)
        if c is None:
            return False
        d = self.f - c
        return mkbool(self.sp.zpoly(d.numer) == 0)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return str(self.f)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def same(env, got, exp, label, tol=1e-10):
    """got == exp for all positive symbols (coefficient differences at rounding level are tolerated)."""
    if not isinstance(got, Rat) and not isinstance(exp, Rat):
        return env.same(got, exp, label)
    sp = got.sp if isinstance(got, Rat) else exp.sp
    g, e = sp.conv(got), sp.conv(exp)
    d = g - e
    num = d.numer
    # common-denominator magnitudes, coefficientwise
    mags = {}
    for f, other in ((g, e), (e, g)):
        for mon, c in (f.numer * other.denom).terms():
            mags[mon] = mags.get(mon, 0) + abs(c)
    # d = num/den in lowest terms; scale to the uncancelled denominator if they differ
    lead = abs(num.LC) if num else 0
    R = sp.F.ring
    big = R(0)
    for mon, c in num.terms():
        if not (mags.get(mon) and abs(c) <= sp.QQ(int(tol * 10**15), 10**15) * mags[mon] and d.denom == g.denom * e.denom):
            big = big + R.from_dict({mon: c})
    cond = mkbool(sp.zpoly(big) == 0)
    return env.check(cond, label, info=f'got {str(g)[:200]} expected {str(e)[:200]}')
