"""Interval domain with 1600-bit end points: used where double precision end points are swamped by outward rounding (deep message passing graphs)."""
import mpmath
from mpmath import mp, mpf
from fractions import Fraction as Fr
from .term import *
from .iv import Iv, IvFail, NANV

mp.prec = 1600
E = mpf(2) ** -1580
INF = mpf("inf")


def w(lo, hi):
    if lo != lo or hi != hi:
        raise IvFail("nan")
    return lo - abs(lo) * E if lo and abs(lo) != INF else lo, hi + abs(hi) * E if hi and abs(hi) != INF else hi


def m_(x, y):
    return mpf(0) if not x or not y else x * y


def imul(a, b):
    p = [m_(x, y) for x in a for y in b]
    return w(min(p), max(p))


def idiv(a, b):
    if b[0] <= 0 <= b[1]:
        if b[0] == 0 and b[1] > 0 and a[0] >= 0:
            return w(a[0] / b[1], INF)
        raise IvFail("division by zero")
    p = [x / y for x in a for y in b]
    return w(min(p), max(p))


def iabs(a):
    if a[0] >= 0:
        return a
    if a[1] <= 0:
        return -a[1], -a[0]
    return mpf(0), max(-a[0], a[1])


def ipowi(a, n):
    if n < 0:
        return idiv((mpf(1), mpf(1)), ipowi(a, -n))
    if n == 0:
        return mpf(1), mpf(1)
    if n % 2 == 0:
        a = iabs(a)
    return w(a[0] ** n, a[1] ** n)


def c(v):
    return mpf(v.numerator) / mpf(v.denominator) if isinstance(v, Fr) else mpf(v)


class IvMP(Iv):
    def __init__(self, env):
        super().__init__({t: (v if t.sort == "B" else (mpf(v[0]), mpf(v[1]))) for t, v in env.items()})
        self.budget = 60000

    def op(self, t, a):
        self.budget -= 1
        if self.budget < 0:
            raise IvFail("budget")
        return self.op_(t, t.op, a)

    def loop(self, x):
        raise IvFail("loop")

    def op_(self, t, o, a):
        if o == "c":
            v = t.args[0]
            if isinstance(v, (bool, str)):
                if isinstance(v, bool):
                    return v, not v
                raise IvFail("special")
            x = c(v)
            return (x, x) if not isinstance(v, Fr) or v.denominator & (v.denominator - 1) == 0 else w(x, x)
        if o == "k":
            return w(+mp.pi, +mp.pi)
        if o == "add":
            return w(a[0][0] + a[1][0], a[0][1] + a[1][1])
        if o == "sub":
            return w(a[0][0] - a[1][1], a[0][1] - a[1][0])
        if o == "neg":
            return -a[0][1], -a[0][0]
        if o == "mul":
            return ipowi(a[0], 2) if t.args[0] is t.args[1] else imul(a[0], a[1])
        if o == "div":
            return idiv(a[0], a[1])
        if o == "powi":
            return ipowi(a[0], t.args[1])
        if o == "sqrt":
            if a[0][0] < 0:
                raise IvFail("sqrt")
            return w(mpmath.sqrt(a[0][0]), mpmath.sqrt(a[0][1]))
        if o == "exp":
            if a[0][1] > 1e6:
                raise IvFail("exp")
            return w(mpmath.exp(a[0][0]), mpmath.exp(a[0][1]))
        if o == "ln":
            if a[0][0] <= 0:
                raise IvFail("ln")
            return w(mpmath.log(a[0][0]), mpmath.log(a[0][1]))
        if o == "erfc":
            return w(mpmath.erfc(a[0][1]), mpmath.erfc(a[0][0]))
        if o == "ierfc":
            if a[0][0] <= 0 or a[0][1] >= 2:
                raise IvFail("ierfc")
            return w(mpmath.erfinv(1 - a[0][1]), mpmath.erfinv(1 - a[0][0]))
        if o == "pow":
            if a[0][0] <= 0:
                raise IvFail("pow")
            l = (mpmath.log(a[0][0]), mpmath.log(a[0][1]))
            x = imul(a[1], w(*l))
            if x[1] > 1e6:
                raise IvFail("exp")
            return w(mpmath.exp(x[0]), mpmath.exp(x[1]))
        if o == "abs":
            return iabs(a[0])
        if o == "fround":
            raise IvFail(o)
        if o in ("floor", "trunc", "round", "toi", "idiv", "rem"):
            f = [(float(x[0]), float(x[1])) for x in a if isinstance(x, tuple)]
            if any(mpf(p[0]) != x[0] or mpf(p[1]) != x[1] for p, x in zip(f, a)):
                if o == "idiv" or o == "rem":
                    raise IvFail(o)
                # rounding to double must not cross an integer (or half) boundary
                if any(abs(x * 2 - mpmath.nint(x * 2)) < mpf(2) ** -30 for p in a if isinstance(p, tuple) for x in p):
                    raise IvFail(o)
            r = super().op_(t, o, f + [x for x in a if not isinstance(x, tuple)])
            return mpf(r[0]), mpf(r[1])
        return super().op_(t, o, a)
