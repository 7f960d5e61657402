"""Interval analysis of value graphs under f64 semantics: overflow to infinity, underflow to zero and not-a-number are part of the domain.

A real value is abstracted by (lo, hi, nan): the non-NaN results lie in [lo, hi] (infinities included), nan is 0 (never), 1 (possible), 2 (certain).
Endpoints are rounded like the operation itself (rounding to nearest is monotone, so the enclosure is exact for the operation as written);
library functions are widened by a few units in the last place, products inside sums by the rounding a fused operation leaves out."""
import math
from .term import *
from .iv import IvFail

INFF = math.inf
NAN2 = (0.0, 0.0, 2)


def nx(x, k=1):
    for _ in range(abs(k)):
        x = math.nextafter(x, INFF if k > 0 else -INFF)
    return x


def out(lo, hi, n=0, k=0):
    """widen finite endpoints by k ulps"""
    if k:
        if not math.isinf(lo):
            lo = nx(lo, -k)
        if not math.isinf(hi):
            hi = nx(hi, k)
    return lo, hi, n


def fadd(a, b):
    with_nan = a + b
    return with_nan


def fmul(a, b):
    r = a * b
    return 0.0 if r != r else r


def fdiv(a, b):
    """a / b for b of known sign, b != 0"""
    if math.isinf(a) and math.isinf(b):
        return 0.0
    return a / b


def fexp(x):
    if x > 709.79:
        return INFF
    try:
        return math.exp(x)
    except OverflowError:
        return INFF


def fpow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return INFF
    except (ValueError, ZeroDivisionError):
        return INFF


def pt(a):
    return a[0] == a[1]


class Fx:
    def __init__(self, env, budget=None):
        self.env = {k: (v if k.sort == "B" or len(v) == 3 else (v[0], v[1], 0)) for k, v in env.items()}
        self.memo = {}
        self.budget = [200000] if budget is None else budget

    def ev(self, t):
        m = self.memo
        st = [t]
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            if x in self.env:
                m[x] = self.env[x]
                st.pop()
                continue
            if x.op == "ite":
                c = x.args[0]
                if c not in m:
                    st.append(c)
                    continue
                g = m[c]
                need = ([x.args[1]] if g[0] else []) + ([x.args[2]] if g[1] else [])
                todo = [y for y in need if y not in m]
                if todo:
                    st.extend(todo)
                    continue
                if not need:
                    raise IvFail("empty guard")
                r = m[need[0]]
                for y in need[1:]:
                    r = self.join(x.sort, r, m[y])
                if len(need) == 2 and x.sort == "R":
                    r = self.refined(x)
                m[x] = r
                st.pop()
                continue
            if x.op == "loop":
                k = x.args[0]
                free = [y for y in x.args[1 + k:1 + 2 * k] if y not in m]
                if free:
                    st.extend(free)
                    continue
                m[x] = self.loop(x)
                st.pop()
                continue
            if x.op in ("and", "or"):
                a = x.args[0]
                if a not in m:
                    st.append(a)
                    continue
                u = m[a]
                if x.op == "and" and not u[0]:
                    m[x] = (False, True)
                    st.pop()
                    continue
                if x.op == "or" and not u[1]:
                    m[x] = (True, False)
                    st.pop()
                    continue
            todo = [a for a in x.args if isinstance(a, T) and a not in m]
            if todo:
                st.extend(todo)
                continue
            self.budget[0] -= 1
            if self.budget[0] < 0:
                raise IvFail("budget")
            m[x] = self.op(x, x.op, [m[a] if isinstance(a, T) else a for a in x.args])
            st.pop()
        return m[t]

    @staticmethod
    def join(sort, r, q):
        if sort == "B":
            return r[0] or q[0], r[1] or q[1]
        if r[2] == 2 and q[2] == 2:
            return NAN2
        if r[2] == 2:
            return q[0], q[1], 1
        if q[2] == 2:
            return r[0], r[1], 1
        return min(r[0], q[0]), max(r[1], q[1]), max(r[2], q[2])

    def assume(self, c, val, out):
        """bounds of terms that follow from a guard"""
        if c.op == "not":
            self.assume(c.args[0], not val, out)
        elif c.op == "and" and val or c.op == "or" and not val:
            for d in c.args:
                self.assume(d, val, out)
        elif c.op in ("lt", "le") and all(a in self.memo for a in c.args):
            p, q = c.args
            (pl, ph, pn), (ql, qh, qn) = self.memo[p], self.memo[q]
            if pn == 2 or qn == 2 or not val and (pn or qn):
                return
            strict = (c.op == "lt") == val
            lo, hi = (p, q) if val else (q, p)          # lo < hi  or  lo <= hi
            (ll, lh, ln_), (hl, hh, hn) = self.memo[lo], self.memo[hi]
            if lo.op != "c":
                b = min(lh, hh)
                if strict and b == hh and math.isfinite(b):
                    b = nx(b, -1)
                if ll <= b:
                    out[lo] = (ll, b, 0)
            if hi.op != "c":
                b = max(hl, ll)
                if strict and b == ll and math.isfinite(b):
                    b = nx(b, 1)
                if b <= hh:
                    out[hi] = (b, hh, 0)

    def refined(self, x):
        """the join of both branches, where a branch repeats a term its guard bounds"""
        rs = []
        for br, val in ((x.args[1], True), (x.args[2], False)):
            o = {}
            self.assume(x.args[0], val, o)
            rs.append(self.under(br, o))
        return self.join(x.sort, *rs)

    def under(self, t, o):
        if t in o:
            return o[t]
        if t.op == "ite" and t.sort == "R" and o:
            g = self.memo.get(t.args[0])
            if g is not None and g[0] and g[1] and all(y in self.memo for y in t.args[1:]):
                rs = []
                for br, val in ((t.args[1], True), (t.args[2], False)):
                    o2 = dict(o)
                    o3 = {}
                    self.assume(t.args[0], val, o3)
                    for k, v in o3.items():
                        if k in o2:
                            lo, hi = max(v[0], o2[k][0]), min(v[1], o2[k][1])
                            v = (lo, hi, 0) if lo <= hi else o2[k]
                        o2[k] = v
                    rs.append(self.under(br, o2))
                return self.join("R", *rs)
        return self.memo[t]

    def loop(self, x):
        k = x.args[0]
        ps, ini, nxt = x.args[1:1 + k], x.args[1 + k:1 + 2 * k], x.args[1 + 2 * k:1 + 3 * k]
        exitc, res = x.args[1 + 3 * k], x.args[2 + 3 * k]
        cur = [self.memo[i] for i in ini]
        for _ in range(300):
            s = Fx(self.env, self.budget)
            s.env.update(zip(ps, cur))
            e = s.ev(exitc)
            if e == (True, False):
                return s.ev(res)
            if e[0]:
                raise IvFail("loop exit undecided")
            cur = [s.ev(n) for n in nxt]
        raise IvFail("loop bound")

    def slack(self, t, a):
        """what fusing the products of a sum can change"""
        s = 0.0
        for x, v in zip(t.args, a):
            if x.op in ("mul", "neg", "powi"):
                m = max(abs(v[0]), abs(v[1]))
                if math.isfinite(m):
                    s += m * 1.2e-16
        return s

    def op(self, t, o, a):
        if o == "c":
            v = t.args[0]
            if isinstance(v, bool):
                return v, not v
            if isinstance(v, str):
                if v == "nan":
                    return NAN2
                return (INFF, INFF, 0) if v == "inf" else (-INFF, -INFF, 0)
            f = float(v)
            return (f, f, 0) if Fr(f) == v else out(f, f, 0, 1)
        if o == "k":
            return out(math.pi, math.pi, 0, 1)
        if o == "v":
            raise IvFail("unbound %s" % t.args[0])
        if o in ("and", "or", "not"):
            if o == "not":
                return a[0][1], a[0][0]
            if o == "and":
                return a[0][0] and a[1][0], a[0][1] or a[1][1]
            return a[0][0] or a[1][0], a[0][1] and a[1][1]
        if o in ("lt", "le", "eq"):
            if t.args[0].sort == "B":
                (p, q), (r, s) = a
                return (p and r) or (q and s), (p and s) or (q and r)
            n = max(a[0][2], a[1][2])
            if n == 2:
                return False, True
            (p, q, _), (r, s, _) = a
            if o == "lt":
                y, z = p < s, q >= r
            elif o == "le":
                y, z = p <= s, q > r
            else:
                y, z = p <= s and r <= q, not (p == q == r == s)
            return y, z or n == 1
        if o == "isnan":
            return a[0][2] > 0, a[0][2] < 2
        if o == "isinf":
            if a[0][2] == 2:
                return False, True
            i = math.isinf(a[0][0]) or math.isinf(a[0][1])
            return i, a[0][2] == 1 or not (pt(a[0]) and i)
        if o in ("min", "max"):
            x, y = a
            if x[2] == 2 or y[2] == 2:
                return y if x[2] == 2 else x
            f = min if o == "min" else max
            lo, hi = f(x[0], y[0]), f(x[1], y[1])
            if x[2]:
                lo, hi = min(lo, y[0]), max(hi, y[1])
            if y[2]:
                lo, hi = min(lo, x[0]), max(hi, x[1])
            return lo, hi, min(x[2], y[2])
        if o == "toi":
            if a[0][2] == 2:
                lo = hi = 0.0
            else:
                lo, hi = a[0][:2]
                if a[0][2]:
                    lo, hi = min(lo, 0.0), max(hi, 0.0)
            lo = math.trunc(lo) if math.isfinite(lo) else lo
            hi = math.trunc(hi) if math.isfinite(hi) else hi
            if t.args[1] is not None:
                lo, hi = max(lo, t.args[1]), max(hi, t.args[1])
            if t.args[2] is not None:
                lo, hi = min(lo, t.args[2]), min(hi, t.args[2])
            return float(lo), float(hi), 0
        # ---- strict operations
        if any(x[2] == 2 for x in a if isinstance(x, tuple)):
            return NAN2
        n = max([x[2] for x in a if isinstance(x, tuple)] + [0])
        if o == "tof":
            return a[0]
        if o == "neg":
            return -a[0][1], -a[0][0], n
        if o in ("add", "sub"):
            p, q = a
            if o == "sub":
                if t.args[0] is t.args[1] and math.isfinite(p[0]) and math.isfinite(p[1]):
                    return 0.0, 0.0, n
                q = (-q[1], -q[0], q[2])
            if pt(p) and pt(q) and math.isinf(p[0]) and math.isinf(q[0]) and p[0] != q[0]:
                return NAN2
            if (p[1] == INFF and q[0] == -INFF) or (p[0] == -INFF and q[1] == INFF):
                n = max(n, 1)
            lo, hi = p[0] + q[0], p[1] + q[1]
            lo = -INFF if lo != lo else lo
            hi = INFF if hi != hi else hi
            s = self.slack(t, a)
            if s and t.sort == "R":
                lo, hi = (nx(lo - s, -1) if math.isfinite(lo) else lo), (nx(hi + s, 1) if math.isfinite(hi) else hi)
            elif o == "sub" and lo == hi == 0 and t.args[0].op == "exp":
                lo, hi = -1.2e-16, 1.2e-16           # exp_m1
            return lo, hi, n
        if o == "mul":
            p, q = a
            if t.args[0] is t.args[1]:
                return self.square(p, n)
            for u, v in ((p, q), (q, p)):
                if pt(u) and u[0] == 0 and pt(v) and math.isinf(v[0]):
                    return NAN2
                if u[0] <= 0 <= u[1] and (v[0] == -INFF or v[1] == INFF):
                    n = max(n, 1)
            c = [fmul(x, y) for x in p[:2] for y in q[:2]]
            return min(c), max(c), n
        if o == "div":
            return self.div(t, a[0], a[1], n)
        if o == "powi":
            return self.powi(a[0], t.args[1], n)
        if o == "sqrt":
            lo, hi = a[0][:2]
            if hi < 0:
                return NAN2
            if lo < 0:
                n, lo = max(n, 1), 0.0
            return math.sqrt(lo), math.sqrt(hi), n
        if o == "exp":
            lo, hi = a[0][:2]
            if hi < -745.2:
                return 0.0, 0.0, n
            if lo > 709.79:
                return INFF, INFF, n
            lo, hi, n = out(fexp(lo), fexp(hi), n, 2)
            return max(lo, 0.0), hi, n
        if o == "ln":
            lo, hi = a[0][:2]
            if hi < 0:
                return NAN2
            if lo < 0:
                n, lo = max(n, 1), 0.0
            l = lambda v: -INFF if v == 0 else INFF if v == INFF else math.log(v)
            lo, hi, n = out(l(lo), l(hi), n, 2)
            y = t.args[0]
            if y.op == "add" and any(isc(z) and cv(z) == 1 for z in y.args):      # ln_1p
                lo, hi = lo - 1.2e-16, hi + 1.2e-16
            return lo, hi, n
        if o == "pow":
            return self.pow(a[0], a[1], n)
        if o == "abs":
            lo, hi = a[0][:2]
            if lo >= 0:
                return lo, hi, n
            if hi <= 0:
                return -hi, -lo, n
            return 0.0, max(-lo, hi), n
        if o in ("floor", "trunc", "round"):
            f = {"floor": math.floor, "trunc": math.trunc, "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}[o]
            g = lambda x: x if math.isinf(x) else float(f(x))
            return g(a[0][0]), g(a[0][1]), n
        if o == "fround":
            import numpy as np
            with np.errstate(all="ignore"):
                return float(np.float32(a[0][0])), float(np.float32(a[0][1])), n
        if o == "idiv":
            if a[1][0] <= 0 <= a[1][1]:
                raise IvFail("integer division")
            c = [x / y for x in a[0][:2] for y in a[1][:2]]
            return float(math.trunc(min(c))), float(math.trunc(max(c))), 0
        if o == "rem":
            if pt(a[0]) and pt(a[1]):
                if a[1][0] == 0 or math.isinf(a[0][0]):
                    return NAN2
                v = math.fmod(a[0][0], a[1][0])
                return v, v, n
            m = max(abs(a[1][0]), abs(a[1][1]))
            if a[1][0] <= 0 <= a[1][1] or math.isinf(a[0][0]) or math.isinf(a[0][1]):
                n = 1
            return (-m if a[0][0] < 0 else 0.0), m, n
        raise IvFail("f64 interval of %s" % o)

    def square(self, p, n):
        lo, hi = p[:2]
        c = [lo * lo, hi * hi]
        return (0.0 if lo <= 0 <= hi and lo != hi else min(c)), max(c), n

    def powi(self, p, k, n):
        if k < 0:
            return self.div(None, (1.0, 1.0, 0), self.powi(p, -k, n), n)
        f = lambda x: fpow(x, k) if math.isfinite(x) else (INFF if x > 0 or k % 2 == 0 else -INFF)
        g = lambda x: -f(-x) if x < 0 and k % 2 else f(abs(x))
        lo, hi = g(p[0]), g(p[1])
        if k % 2 == 0:
            lo, hi = (0.0 if p[0] <= 0 <= p[1] and p[0] != p[1] else min(lo, hi)), max(lo, hi)
        if k == 2:
            return lo, hi, n
        z = lo >= 0
        lo, hi, n = out(lo, hi, n, abs(k))
        return (max(lo, 0.0) if z else lo), hi, n

    def div(self, t, p, q, n):
        if q[0] == 0 == q[1]:
            if p[0] == 0 == p[1]:
                return NAN2
            sg = {math.copysign(1.0, q[0]), math.copysign(1.0, q[1])}
            if p[0] <= 0 <= p[1]:
                return -INFF, INFF, max(n, 1)
            s = 1.0 if p[0] > 0 else -1.0
            if len(sg) == 1:
                v = s * sg.pop() * INFF
                return v, v, n
            return -INFF, INFF, n
        if pt(p) and pt(q) and math.isinf(p[0]) and math.isinf(q[0]):
            return NAN2
        pi, qi = any(math.isinf(x) for x in p[:2]), any(math.isinf(x) for x in q[:2])
        if pi and qi:
            n = max(n, 1)
        if q[0] <= 0 <= q[1]:
            if p[0] <= 0 <= p[1]:
                return -INFF, INFF, max(n, 1)
            if q[0] == 0:       # [0, y]: the zero may be either one, but a positive range rounds to +0
                lo = p[0] / q[1] if p[0] > 0 else -INFF
                hi = INFF if p[0] > 0 else p[1] / q[1]
                return lo, hi, n
            return -INFF, INFF, n
        c = [fdiv(x, y) for x in p[:2] for y in q[:2]]
        lo, hi = min(c), max(c)
        if pi and qi:
            lo, hi = min(lo, 0.0), max(hi, 0.0)
            lo, hi = (-INFF if p[0] < 0 or q[0] < 0 else lo), INFF
        if t is not None:
            x, y = t.args
            if y.op == "add" and p[0] >= 0 and q[0] > 0:
                for k in (0, 1):
                    z = y.args[k]
                    if (z is x or isc(z) and isc(x) and cv(z) == cv(x)) and self.memo[y.args[1 - k]][0] >= 0:
                        lo, hi = max(lo, 0.0), min(hi, 1.0)
        return lo, hi, n

    def pow(self, p, q, n):
        if p[1] < 0:
            if pt(q) and math.isfinite(q[0]) and q[0] != int(q[0]):
                return NAN2
            raise IvFail("power of a negative number")
        lo = p[0]
        if lo < 0:
            n, lo = max(n, 1), 0.0
        if lo == 0 and q[0] <= 0 <= q[1]:
            return 0.0, INFF, n
        if lo == 0 and q[1] < 0:
            return (fpow(p[1], q[0]) if p[1] > 0 else INFF), INFF, n
        c = [fpow(x, y) if math.isfinite(x) and math.isfinite(y) else math.pow(x, y) for x in (lo, p[1]) for y in q[:2]]
        a, b = min(c), max(c)
        if lo < 1 < p[1] or q[0] < 0 < q[1]:
            a, b = min(a, 1.0), max(b, 1.0)
        a, b, n = (a, b, n) if a == b and (a == 0 or math.isinf(a)) else out(a, b, n, 3)
        return max(a, 0.0), b, n
