"""Interval abstract domain (outward rounded) and a vectorised point heuristic used to pick boxes."""
import math
from fractions import Fraction as Fr
import numpy as np
from .term import *

INFF = float("inf")


class IvFail(Exception):
    pass


def dn(x):
    return math.nextafter(x, -INFF)


def up(x):
    return math.nextafter(x, INFF)


def _ex(x):
    return math.isfinite(x)


def wide(lo, hi, n=1):
    for _ in range(n):
        lo, hi = dn(lo), up(hi)
    return lo, hi


def addl(a, b, d):
    s = a + b
    if math.isfinite(s):
        bb = s - a
        if (a - (s - bb)) + (b - bb) == 0:
            return s
    return dn(s) if d else up(s)


def mull(a, b, d):
    if a == 0 or b == 0:
        return 0.0
    p = a * b
    if math.isfinite(p) and abs(p) > 1e-290:
        if a == int(a) if math.isfinite(a) and abs(a) < 2**26 else False:
            if b == int(b) if math.isfinite(b) and abs(b) < 2**26 else False:
                return p
        if Fr(a) * Fr(b) == Fr(p):
            return p
    return dn(p) if d else up(p)


def iadd(a, b):
    return addl(a[0], b[0], True), addl(a[1], b[1], False)


def ineg(a):
    return -a[1], -a[0]


def imul(a, b):
    ps = [(x, y) for x in a for y in b]
    return min(mull(x, y, True) for x, y in ps), max(mull(x, y, False) for x, y in ps)


def divl(a, b, d):
    if a == 0:
        return 0.0
    if math.isinf(b):
        return 0.0 if not math.isinf(a) else math.nan
    q = a / b
    if math.isfinite(q) and abs(q) > 1e-290 and Fr(q) * Fr(b) == Fr(a):
        return q
    return dn(q) if d else up(q)


def idiv(a, b):
    if b[0] <= 0 <= b[1]:
        if b[0] == b[1] == 0:
            raise IvFail("division by zero")
        if b[0] == 0 and a[0] >= 0:
            return (divl(a[0], b[1], True) if math.isfinite(b[1]) else 0.0), INFF
        if b[0] == 0 and a[1] <= 0:
            return -INFF, divl(a[1], b[1], False)
        return -INFF, INFF
    ps = [(x, y) for x in a for y in b]
    los = [divl(x, y, True) for x, y in ps]
    his = [divl(x, y, False) for x, y in ps]
    if any(v != v for v in los + his):
        return -INFF, INFF
    return min(los), max(his)


def mono(f, a, n=2):
    def g(x):
        try:
            return f(x)
        except OverflowError:
            return INFF
    return wide(g(a[0]), g(a[1]), n)


def iexp(a):
    lo = math.exp(a[0]) if a[0] < 709 else INFF
    hi = math.exp(a[1]) if a[1] < 709 else INFF
    if a == (0, 0):
        return 1.0, 1.0
    return max(0.0, dn(dn(lo))) if math.isfinite(lo) else 1.7e308, up(up(hi))


def iln(a):
    if a[0] <= 0:
        if a[1] <= 0:
            raise IvFail("ln of nonpositive")
        return -INFF, up(up(math.log(a[1]))) if math.isfinite(a[1]) else INFF
    return dn(dn(math.log(a[0]))), up(up(math.log(a[1]))) if math.isfinite(a[1]) else INFF


def isqrt_(a):
    if a[0] < 0:
        if a[1] < 0:
            raise IvFail("sqrt of negative")
        a = (0.0, a[1])
    r = []
    for k, x in enumerate(a):
        if math.isinf(x):
            r.append(INFF)
            continue
        s = math.sqrt(x)
        if Fr(s) * Fr(s) != Fr(x):
            s = dn(s) if k == 0 else up(s)
        r.append(s)
    return max(0.0, r[0]), r[1]


def ierfc(y):
    from scipy.special import erfcinv
    if y >= 2.0:
        return -100.0, -100.0
    if y <= 0.0:
        return 100.0, 100.0
    v = float(erfcinv(y))
    h = 1e-12 * max(1.0, abs(v))
    return v - h, v + h


def ipowi(a, n):
    if n < 0:
        return idiv((1.0, 1.0), ipowi(a, -n))
    if n == 0:
        return 1.0, 1.0
    if n % 2 == 0:
        m = iabs(a)
        r = m
        for _ in range(n - 1):
            r = imul(r, m)
        return max(0.0, r[0]), r[1]
    r = a
    for _ in range(n - 1):
        r = imul(r, a)
    if a[0] >= 0 or a[1] <= 0:
        return r
    lo, hi = a[0], a[1]
    x = y = 1.0
    for _ in range(n):
        x = mull(x, lo, True)
        y = mull(y, hi, False)
    return x, y


def iabs(a):
    if a[0] >= 0:
        return a
    if a[1] <= 0:
        return -a[1], -a[0]
    return 0.0, max(-a[0], a[1])


PI_IV = (dn(math.pi), up(math.pi))


NANV = (math.nan, math.nan)       # definitely not a number
STRICT = frozenset("add sub neg mul div sqrt exp ln erfc ierfc pow powi abs floor trunc round".split())


def pinf(a):
    return a[0] == a[1] and math.isinf(a[0])


def makes_nan(o, a):
    """the operation yields NaN for every element of its arguments"""
    if o == "div":
        return a[0] == (0, 0) and a[1] == (0, 0) or pinf(a[0]) and pinf(a[1])
    if o == "add":
        return pinf(a[0]) and pinf(a[1]) and a[0][0] != a[1][0]
    if o == "sub":
        return pinf(a[0]) and pinf(a[1]) and a[0][0] == a[1][0]
    if o == "mul":
        return a[0] == (0, 0) and pinf(a[1]) or a[1] == (0, 0) and pinf(a[0])
    if o in ("sqrt", "ln"):
        return a[0][1] < 0 and not math.isinf(a[0][1])
    return False


class Iv:
    def __init__(self, env, facts=None):
        self.env = env            # var term -> (lo,hi) or (canT,canF)
        self.memo = {}
        self.budget = 200000

    def ev(self, t):
        m = self.memo
        if t in m:
            return m[t]
        st = [t]
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            if x in self.env:
                m[x] = self.env[x]
                st.pop()
                continue
            if x.op == "ite":
                c = x.args[0]
                if c not in m:
                    st.append(c)
                    continue
                g = m[c]
                need = ([x.args[1]] if g[0] else []) + ([x.args[2]] if g[1] else [])
                todo = [y for y in need if y not in m]
                if todo:
                    st.extend(todo)
                    continue
                if not need:
                    raise IvFail("empty guard")
                r = m[need[0]]
                for y in need[1:]:
                    q = m[y]
                    if (r is NANV) != (q is NANV):
                        raise IvFail("nan or not")
                    if r is NANV:
                        continue
                    r = (r[0] or q[0], r[1] or q[1]) if x.sort == "B" else (min(r[0], q[0]), max(r[1], q[1]))
                m[x] = r
                st.pop()
                continue
            if x.op == "loop":
                k = x.args[0]
                ini = x.args[1 + k:1 + 2 * k]
                free = [y for y in ini if y not in m]
                if free:
                    st.extend(free)
                    continue
                m[x] = self.loop(x)
                st.pop()
                continue
            if x.op in ("and", "or"):
                a = x.args[0]
                if a not in m:
                    st.append(a)
                    continue
                u = m[a]
                if x.op == "and" and not u[0]:
                    m[x] = (False, True)
                    st.pop()
                    continue
                if x.op == "or" and not u[1]:
                    m[x] = (True, False)
                    st.pop()
                    continue
            todo = [a for a in x.args if isinstance(a, T) and a not in m]
            if todo:
                st.extend(todo)
                continue
            m[x] = self.op(x, [m[a] if isinstance(a, T) else a for a in x.args])
            st.pop()
        return m[t]

    def loop(self, x):
        k = x.args[0]
        ps, ini, nxt = x.args[1:1 + k], x.args[1 + k:1 + 2 * k], x.args[1 + 2 * k:1 + 3 * k]
        exitc, out = x.args[1 + 3 * k], x.args[2 + 3 * k]
        cur = [self.memo[i] for i in ini]
        for _ in range(300):
            sub_ = Iv(dict(self.env, **{}))
            for p, v in zip(ps, cur):
                sub_.env[p] = v
            e = sub_.ev(exitc)
            if e == (True, False):
                return sub_.ev(out)
            if e[0]:
                raise IvFail("loop exit undecided")
            cur = [sub_.ev(n) for n in nxt]
        raise IvFail("loop bound")

    def op(self, t, a):
        o = t.op
        self.budget -= 1
        if self.budget < 0:
            raise IvFail("budget")
        nan = [x for x in a if x is NANV]
        if nan:
            if o in STRICT:
                return NANV
            if t.sort == "B" and o in ("lt", "le", "eq"):
                return False, True
            if o in ("isinf", "isnan"):
                return (True, False) if o == "isnan" else (False, True)
            if o in ("min", "max"):
                return a[1] if a[0] is NANV else a[0]
            if o not in ("and", "or", "not"):
                raise IvFail("nan in " + o)
        if makes_nan(o, a):
            return NANV
        r = self.op_(t, o, a)
        if r is NANV:
            return r
        if t.sort != "B" and (r[0] != r[0] or r[1] != r[1]):
            return -INFF, INFF
        return r

    def op_(self, t, o, a):
        if o == "c":
            v = t.args[0]
            if isinstance(v, bool):
                return (v, not v)
            if isinstance(v, str):
                if v == "nan":
                    return NANV
                return (INFF, INFF) if v == "inf" else (-INFF, -INFF)
            f = float(v)
            if Fr(f) == v:
                return f, f
            return dn(f), up(f)
        if o == "k":
            return PI_IV
        if o == "v":
            raise IvFail("unbound %s" % t.args[0])
        if o == "add":
            x, y = t.args
            return iadd(a[0], a[1])
        if o == "sub":
            return iadd(a[0], ineg(a[1]))
        if o == "neg":
            return ineg(a[0])
        if o == "mul":
            if t.args[0] is t.args[1]:
                return ipowi(a[0], 2)
            return imul(a[0], a[1])
        if o == "div":
            return self.div(t, a)
        if o == "powi":
            return ipowi(a[0], t.args[1])
        if o == "sqrt":
            return isqrt_(a[0])
        if o == "exp":
            return iexp(a[0])
        if o == "ln":
            return iln(a[0])
        if o == "erfc":
            lo, hi = math.erfc(a[0][1]), math.erfc(a[0][0])
            return max(0.0, lo * (1 - 1e-14)), min(2.0, up(hi * (1 + 1e-14)))
        if o == "ierfc":
            return ierfc(a[0][1])[0], ierfc(a[0][0])[1]
        if o == "pow":
            if a[0][0] < 0:
                raise IvFail("pow of negative")
            return iexp(imul(a[1], iln(a[0])))
        if o == "abs":
            return iabs(a[0])
        if o == "min":
            return min(a[0][0], a[1][0]), min(a[0][1], a[1][1])
        if o == "max":
            return max(a[0][0], a[1][0]), max(a[0][1], a[1][1])
        if o == "tof":
            return a[0]
        if o in ("floor", "trunc", "round"):
            f = {"floor": math.floor, "trunc": math.trunc, "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}[o]
            if math.isinf(a[0][0]) or math.isinf(a[0][1]):
                return a[0]
            return float(f(a[0][0])), float(f(a[0][1]))
        if o == "fround":
            with np.errstate(all="ignore"):
                return float(np.float32(a[0][0])), float(np.float32(a[0][1]))
        if o == "toi":
            lo, hi = a[0]
            lo = math.trunc(lo) if math.isfinite(lo) else lo
            hi = math.trunc(hi) if math.isfinite(hi) else hi
            if t.args[1] is not None:
                lo, hi = max(lo, t.args[1]), max(hi, t.args[1])
            if t.args[2] is not None:
                lo, hi = min(lo, t.args[2]), min(hi, t.args[2])
            return float(lo), float(hi)
        if o == "idiv":
            if a[1][0] <= 0 <= a[1][1]:
                raise IvFail("integer division")
            q = idiv(a[0], a[1])
            return float(math.trunc(q[0])), float(math.trunc(q[1]))
        if o == "rem":
            if a[0][0] == a[0][1] and a[1][0] == a[1][1] and a[1][0] != 0:
                v = math.fmod(a[0][0], a[1][0])
                return v, v
            m = max(abs(a[1][0]), abs(a[1][1]))
            if a[0][0] >= 0 and a[0][1] < min(abs(a[1][0]), abs(a[1][1])):
                return a[0]
            return (-m if a[0][0] < 0 else 0.0), m
        if o == "not":
            return a[0][1], a[0][0]
        if o == "and":
            return a[0][0] and a[1][0], a[0][1] or a[1][1]
        if o == "or":
            return a[0][0] or a[1][0], a[0][1] and a[1][1]
        if o == "lt":
            (p, q), (r, s) = a
            return p < s, q >= r
        if o == "le":
            (p, q), (r, s) = a
            return p <= s, q > r
        if o == "eq":
            if t.args[0].sort == "B":
                (p, q), (r, s) = a
                return (p and r) or (q and s), (p and s) or (q and r)
            (p, q), (r, s) = a
            return p <= s and r <= q, not (p == q == r == s)
        if o == "isinf":
            return (math.isinf(a[0][0]) or math.isinf(a[0][1])), not (a[0][0] == a[0][1] and math.isinf(a[0][0]))
        if o == "isnan":
            return a[0][0] == -INFF or a[0][1] == INFF, True
        raise IvFail("interval of %s" % o)

    def div(self, t, a):
        x, y = t.args
        r = idiv(a[0], a[1])
        # a/(a+b) with a,b >= 0 stays within [0,1]
        if y.op == "add" and a[0][0] >= 0 and a[1][0] >= 0:
            for k in (0, 1):
                if y.args[k] is x:
                    o = self.memo[y.args[1 - k]]
                    if o[0] >= 0:
                        r = (max(r[0], 0.0), min(r[1], 1.0))
        if isc(x) and y.op == "add":
            for k in (0, 1):
                if isc(y.args[k]) and cv(y.args[k]) == cv(x) and cv(x) > 0 and self.memo[y.args[1 - k]][0] >= 0:
                    r = (max(r[0], 0.0), min(r[1], 1.0))
        return r


# ------------------------------------------------------------------ vectorised points (box-choice heuristic only)
def npeval(ts, env, n):
    """evaluate terms on arrays of points"""
    memo = {}
    with np.errstate(all="ignore"):
        return [_np(t, env, memo, n) for t in ts], memo


def _np(t, env, memo, n):
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x in env:
            memo[x] = env[x]
            st.pop()
            continue
        if x.op == "loop":
            k = x.args[0]
            todo = [y for y in x.args[1 + k:1 + 2 * k] if y not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x] = _nploop(x, env, memo, n)
            st.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a not in memo]
        if todo:
            st.extend(todo)
            continue
        memo[x] = _npop(x, [memo[a] if isinstance(a, T) else a for a in x.args], n)
        st.pop()
    return memo[t]


def _nploop(x, env, memo, n):
    k = x.args[0]
    ps, ini, nxt = x.args[1:1 + k], x.args[1 + k:1 + 2 * k], x.args[1 + 2 * k:1 + 3 * k]
    exitc, out = x.args[1 + 3 * k], x.args[2 + 3 * k]
    cur = [np.broadcast_to(memo[i], (n,)) for i in ini]
    res = np.full(n, np.nan)
    if out.sort == "B":
        res = np.zeros(n, bool)
    done = np.zeros(n, bool)
    for _ in range(120):
        e2 = dict(env)
        e2.update(zip(ps, cur))
        m2 = {}
        ex = np.broadcast_to(_np(exitc, e2, m2, n), (n,))
        o = np.broadcast_to(_np(out, e2, m2, n), (n,))
        new = ex & ~done
        res = np.where(new, o, res)
        done = done | ex
        if done.all():
            break
        cur = [np.where(done, c, np.broadcast_to(_np(q, e2, m2, n), (n,))) for c, q in zip(cur, nxt)]
    return res


def _npop(t, a, n):
    o = t.op
    if o == "c":
        v = t.args[0]
        if isinstance(v, bool):
            return np.bool_(v)
        return np.float64(float(v))
    if o == "k":
        return np.float64(math.pi)
    if o == "add":
        return a[0] + a[1]
    if o == "sub":
        return a[0] - a[1]
    if o == "neg":
        return -a[0]
    if o == "mul":
        return a[0] * a[1]
    if o == "div":
        return a[0] / a[1]
    if o == "powi":
        return np.power(a[0], float(t.args[1]))
    if o == "pow":
        return np.power(a[0], a[1])
    if o == "sqrt":
        return np.sqrt(a[0])
    if o == "exp":
        return np.exp(a[0])
    if o == "ln":
        return np.log(a[0])
    if o == "erfc":
        from scipy.special import erfc as erfc_
        return erfc_(a[0])
    if o == "ierfc":
        from scipy.special import erfcinv
        return np.where(a[0] >= 2, -100.0, np.where(a[0] <= 0, 100.0, erfcinv(np.clip(a[0], 1e-300, 2 - 1e-16))))
    if o == "abs":
        return np.abs(a[0])
    if o == "min":
        return np.fmin(a[0], a[1])
    if o == "max":
        return np.fmax(a[0], a[1])
    if o == "tof":
        return a[0]
    if o == "fround":
        with np.errstate(all="ignore"):
            return np.asarray(a[0], dtype=np.float32).astype(np.float64)
    if o == "floor":
        return np.floor(a[0])
    if o == "trunc":
        return np.trunc(a[0])
    if o == "round":
        return np.sign(a[0]) * np.floor(np.abs(a[0]) + 0.5)
    if o == "toi":
        r = np.trunc(np.nan_to_num(a[0]))
        if t.args[1] is not None:
            r = np.maximum(r, float(t.args[1]))
        if t.args[2] is not None:
            r = np.minimum(r, float(t.args[2]))
        return r
    if o == "idiv":
        return np.trunc(a[0] / a[1])
    if o == "rem":
        return np.fmod(a[0], a[1])
    if o == "ite":
        return np.where(a[0], a[1], a[2])
    if o == "not":
        return np.logical_not(a[0])
    if o == "and":
        return np.logical_and(a[0], a[1])
    if o == "or":
        return np.logical_or(a[0], a[1])
    if o == "lt":
        return a[0] < a[1]
    if o == "le":
        return a[0] <= a[1]
    if o == "eq":
        return a[0] == a[1]
    if o == "isinf":
        return np.isinf(a[0])
    if o == "isnan":
        return np.isnan(a[0])
    raise IvFail("points of %s" % o)
