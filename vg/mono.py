"""Dependency-sign (monotonicity) analysis of value graphs: how does a term respond to an increase of one input, everywhere in the domain?

c: independent, +: nondecreasing, -: nonincreasing, None: unknown. Signs of co-factors come from interval analysis of the domain box."""
from .term import *
from .iv import Iv, IvFail

FLIP = {"c": "c", "+": "-", "-": "+", None: None}


def plus(a, b):
    if a == "c":
        return b
    if b == "c":
        return a
    return a if a == b else None


def sgn(iv, t):
    try:
        lo, hi = iv.ev(t)
    except (IvFail, OverflowError, ValueError, ZeroDivisionError):
        return None
    if lo >= 0:
        return 1
    if hi <= 0:
        return -1
    return None


def scale(d, s):
    if d == "c":
        return "c"
    if s is None:
        return None
    return d if s > 0 else FLIP[d]


def summands(t):
    out, st = [], [t]
    while st:
        y = st.pop()
        if y.op == "add":
            st += y.args
        else:
            out.append(y)
    return out


class Mono:
    def __init__(self, x, env):
        self.x, self.iv = x, Iv(env)
        self.memo = {}

    def of(self, t):
        st = [t]
        while st:
            y = st[-1]
            if y in self.memo:
                st.pop()
                continue
            todo = [a for a in y.args if isinstance(a, T) and a not in self.memo]
            if todo and y.op not in ("loop",):
                st += todo
                continue
            self.memo[y] = self.one(y)
            st.pop()
        return self.memo[t]

    def one(self, t):
        m = self.memo
        o = t.op
        if t is self.x:
            return "+"
        if o in ("c", "v", "k"):
            return "c"
        kids = [a for a in t.args if isinstance(a, T)]
        if o != "loop" and all(m[a] == "c" for a in kids):
            return "c"
        if o == "loop":
            return "c" if self.x not in walk(t) else None
        if o == "add":
            return plus(m[t.args[0]], m[t.args[1]])
        if o == "sub":
            return plus(m[t.args[0]], FLIP[m[t.args[1]]])
        if o == "neg":
            return FLIP[m[t.args[0]]]
        if o == "mul":
            a, b = t.args
            if a is b:
                return scale(m[a], sgn(self.iv, a))
            da, db = m[a], m[b]
            sa = sgn(self.iv, a) if db != "c" else 1
            sb = sgn(self.iv, b) if da != "c" else 1
            return plus(scale(da, sb), scale(db, sa))
        if o == "div":
            a, b = t.args
            da, db = m[a], m[b]
            if b.op == "add" and a in b.args and not isc(a):
                # a/(a+r) = 1/(1+r/a)
                r = b.args[1] if b.args[0] is a else b.args[0]
                if sgn(self.iv, a) == 1 and sgn(self.iv, r) == 1:
                    return plus(da, FLIP[m[r]])
            if b.op == "add" and not isc(a):
                # the same through a longer sum
                ss = summands(b)
                if len(ss) <= 40 and a in ss:
                    ss.remove(a)
                    d = da
                    for r in ss:
                        if isc(r) and r.args[0] == 0:
                            continue
                        if sgn(self.iv, r) != 1:
                            d = None
                            break
                        d = plus(d, FLIP[m[r]])
                    if d is not None and sgn(self.iv, a) == 1:
                        return d
            sb = sgn(self.iv, b)
            if sb is None:
                return None
            sa = sgn(self.iv, a) if db != "c" else 1
            return plus(scale(da, sb), FLIP[scale(db, sa)])
        if o in ("exp", "ln", "sqrt", "floor", "trunc", "round", "fround", "tof", "atan", "tanh", "cbrt"):
            return m[t.args[0]]
        if o in ("erfc", "ierfc"):
            return FLIP[m[t.args[0]]]
        if o in ("min", "max"):
            return plus(m[t.args[0]], m[t.args[1]])
        if o == "abs":
            return scale(m[t.args[0]], sgn(self.iv, t.args[0]))
        if o == "powi":
            a, n = t.args
            if n % 2 and n > 0:
                return m[a]
            s = sgn(self.iv, a)
            if s is None:
                return None
            d = scale(m[a], s) if n % 2 == 0 else m[a]
            return d if n > 0 else FLIP[d]
        if o == "pow":
            a, b = t.args
            if m[a] == "c":
                try:
                    lo, hi = self.iv.ev(a)
                except (IvFail, OverflowError, ValueError):
                    return None
                if lo >= 1:
                    return m[b]
                if hi <= 1 and lo > 0:
                    return FLIP[m[b]]
            return None
        if o == "ite":
            c, a, b = t.args
            if m[c] == "c":
                return plus(m[a], m[b])
            return None
        return None


def direction(t, x, env):
    return Mono(x, env).of(t)
