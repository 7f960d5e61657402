"""Hash-consed value-graph terms (Herbrand terms over f64 / integer / bool operators)."""
from fractions import Fraction as Fr

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "_h", "__weakref__")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self, 6)

    # arithmetic notation for specifications
    def __add__(a, b): return add(a, lift(a, b))
    def __radd__(a, b): return add(lift(a, b), a)
    def __sub__(a, b): return sub(a, lift(a, b))
    def __rsub__(a, b): return sub(lift(a, b), a)
    def __mul__(a, b): return mul(a, lift(a, b))
    def __rmul__(a, b): return mul(lift(a, b), a)
    def __truediv__(a, b): return div(a, lift(a, b))
    def __rtruediv__(a, b): return div(lift(a, b), a)
    def __neg__(a): return neg(a)
    def __pow__(a, b): return powi(a, b) if isinstance(b, int) else pow_(a, lift(a, b))


def lift(like, x):
    if isinstance(x, T):
        return x
    return I(x) if like.sort == "I" else R(x)


def mk(op, args, sort):
    k = (op, sort) + tuple(("#", a.id) if isinstance(a, T) else a for a in args)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t._h = hash(t.id)
        _tab[k] = t
    return t


def show(t, d=8):
    if not isinstance(t, T):
        return str(t)
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, Fr):
            return str(v.numerator) if v.denominator == 1 else repr(float(v))
        return str(v)
    if t.op in ("v", "k"):
        return str(t.args[0])
    if d <= 0:
        return "…"
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "=="}
    a = [show(x, d - 1) for x in t.args]
    if t.op in inf:
        return "(" + (" %s " % inf[t.op]).join(a) + ")"
    return t.op + "(" + ", ".join(a) + ")"


# ---------------------------------------------------------------- constants
def R(x):
    """real constant; strings are exact decimals"""
    if isinstance(x, T):
        return x
    if isinstance(x, str):
        x = Fr(x)
    elif isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else NINF
        x = Fr(repr(x)) if x == x else x
    else:
        x = Fr(x)
    return mk("c", (x,), "R")


def I(n):
    return n if isinstance(n, T) else mk("c", (int(n),), "I")


TRUE = mk("c", (True,), "B")
FALSE = mk("c", (False,), "B")
INF = mk("c", ("inf",), "R")
NINF = mk("c", ("-inf",), "R")
NAN = mk("c", ("nan",), "R")
PI = mk("k", ("pi",), "R")


def B(b):
    return TRUE if b else FALSE


def var(name, sort="R"):
    return mk("v", (name,), sort)


def isc(t):
    return t.op == "c" and not isinstance(t.args[0], str)


def cv(t):
    return t.args[0]


def special(t):
    return t.op == "c" and isinstance(t.args[0], str)


# ---------------------------------------------------------------- arithmetic
def _num(t, v):
    return I(v) if t.sort == "I" else R(v)


def add(a, b):
    if isc(a) and isc(b):
        return _num(a, cv(a) + cv(b))
    if isc(a) and cv(a) == 0:
        return b
    if isc(b) and cv(b) == 0:
        return a
    return mk("add", (a, b), a.sort)


def sub(a, b):
    if isc(a) and isc(b):
        return _num(a, cv(a) - cv(b))
    if isc(b) and cv(b) == 0:
        return a
    if isc(a) and cv(a) == 0:
        return neg(b)
    if a is b and not special(a):
        return _num(a, 0)
    return mk("sub", (a, b), a.sort)


def neg(a):
    if isc(a):
        return _num(a, -cv(a))
    if a is INF:
        return NINF
    if a is NINF:
        return INF
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,), a.sort)


def mul(a, b):
    if isc(a) and isc(b):
        return _num(a, cv(a) * cv(b))
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if cv(x) == 1:
                return y
            if cv(x) == -1:
                return neg(y)
            if cv(x) == 0 and not special(y) and a.sort == "I":
                return x
    return mk("mul", (a, b), a.sort)


def div(a, b):
    if a.sort == "I":
        if isc(a) and isc(b) and cv(b) != 0:
            q = abs(cv(a)) // abs(cv(b))
            return I(q if (cv(a) < 0) == (cv(b) < 0) else -q)
        return mk("idiv", (a, b), "I")
    if isc(b) and cv(b) != 0:
        if isc(a):
            return R(cv(a) / cv(b))
        if cv(b) == 1:
            return a
        if cv(b) == -1:
            return neg(a)
    if isc(b) and cv(b) == 0 and isc(a):
        return NAN if cv(a) == 0 else (INF if cv(a) > 0 else NINF)
    return mk("div", (a, b), "R")


def rem(a, b):
    if isc(a) and isc(b) and cv(b) != 0 and a.sort == "I":
        r = abs(cv(a)) % abs(cv(b))
        return I(-r if cv(a) < 0 else r)
    return mk("rem", (a, b), a.sort)


def powi(a, n):
    if isinstance(n, T):
        if isc(n):
            n = int(cv(n))
        else:
            return mk("pow", (a, tof(n)), "R")
    if n == 0:
        return R(1)
    if n == 1:
        return a
    if isc(a) and (cv(a) != 0 or n > 0) and abs(n) < 64:
        return R(cv(a) ** n)
    return mk("powi", (a, n), "R")


def pow_(a, b):
    if isc(b):
        f = cv(b)
        if f.denominator == 1 and abs(f) < 64:
            return powi(a, int(f))
        if f == Fr(1, 2):
            return sqrt(a)
    return mk("pow", (a, b), "R")


def _isq(n):
    from math import isqrt

    r = isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    if isc(a) and cv(a) >= 0:
        p, q = _isq(cv(a).numerator), _isq(cv(a).denominator)
        if p is not None and q is not None:
            return R(Fr(p, q))
    if a is INF:
        return INF
    return mk("sqrt", (a,), "R")


def fn(name, *a):
    return mk(name, a, "R")


def exp(a):
    if isc(a) and cv(a) == 0:
        return R(1)
    if a.op == "ln":
        return a.args[0]
    return mk("exp", (a,), "R")


def ln(a):
    if isc(a) and cv(a) == 1:
        return R(0)
    if a.op == "exp":
        return a.args[0]
    return mk("ln", (a,), "R")


def abs_(a):
    if isc(a):
        return _num(a, abs(cv(a)))
    if a.op == "neg":
        return abs_(a.args[0])
    if a.op == "abs":
        return a
    return mk("abs", (a,), a.sort)


def min_(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return a if cv(a) <= cv(b) else b
    if a is INF and a.sort == "R":
        return b
    if b is INF:
        return a
    return mk("min", (a, b), a.sort)


def max_(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return a if cv(a) >= cv(b) else b
    if a is NINF:
        return b
    if b is NINF:
        return a
    return mk("max", (a, b), a.sort)


def floor(a):
    if isc(a):
        return R(cv(a).numerator // cv(a).denominator)
    return mk("floor", (a,), "R")


def round_(a):
    if isc(a):
        v = cv(a)
        s = -1 if v < 0 else 1
        v = abs(v)
        return R(s * ((v + Fr(1, 2)).numerator // (v + Fr(1, 2)).denominator))
    return mk("round", (a,), "R")


def trunc(a):
    if isc(a):
        v = cv(a)
        s = -1 if v < 0 else 1
        v = abs(v)
        return R(s * (v.numerator // v.denominator))
    return mk("trunc", (a,), "R")


def fround(a):
    """rounding to single precision"""
    if isc(a):
        import struct
        try:
            return R(Fr(struct.unpack("f", struct.pack("f", float(cv(a))))[0]))
        except OverflowError:
            return INF if cv(a) > 0 else NINF
    return a if a.op == "fround" or special(a) else mk("fround", (a,), "R")


def tof(a):
    if a.sort == "R":
        return a
    if isc(a):
        return R(Fr(int(cv(a))))
    if a.sort == "B":
        return ite(a, R(1), R(0))
    if a.op == "ite":
        return ite(a.args[0], tof(a.args[1]), tof(a.args[2]))
    if a.op in ("add", "sub", "mul"):
        return {"add": add, "sub": sub, "mul": mul}[a.op](tof(a.args[0]), tof(a.args[1]))
    if a.op in ("min", "max"):
        return {"min": min_, "max": max_}[a.op](tof(a.args[0]), tof(a.args[1]))
    return mk("tof", (a,), "R")


def toi(a, lo=None, hi=None):
    """float -> int `as` cast (saturating)"""
    if a.sort == "I":
        return a
    if a.sort == "B":
        return ite(a, I(1), I(0))
    if isc(a):
        v = int(cv(trunc(a)))
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        return I(v)
    return mk("toi", (a, lo, hi), "I")


# ---------------------------------------------------------------- booleans
def not_(a):
    if isc(a):
        return B(not cv(a))
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*xs):
    r = TRUE
    for x in xs:
        if x is TRUE or x is r:
            continue
        if x is FALSE or r is FALSE:
            r = FALSE
        elif r is TRUE:
            r = x
        elif x is not_(r):
            r = FALSE
        else:
            r = mk("and", (r, x), "B")
    return r


def or_(*xs):
    r = FALSE
    for x in xs:
        if x is FALSE or x is r:
            continue
        if x is TRUE or r is TRUE:
            r = TRUE
        elif r is FALSE:
            r = x
        elif x is not_(r):
            r = TRUE
        else:
            r = mk("or", (r, x), "B")
    return r


def nonneg_int(t):
    """syntactic: is this integer term certainly >= 0 ?"""
    if isc(t):
        return cv(t) >= 0
    if t.op == "v":
        return t.args[0].startswith("n:")
    if t.op in ("add", "mul", "min", "max"):
        return all(nonneg_int(x) for x in t.args)
    if t.op == "ite":
        return nonneg_int(t.args[1]) and nonneg_int(t.args[2])
    return t.op in ("len",)


def lt(a, b):
    if isc(a) and isc(b):
        return B(cv(a) < cv(b))
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return FALSE
    if isc(b) and b.sort == "I" and cv(b) <= 0 and nonneg_int(a):
        return FALSE
    if isc(a) and a.sort == "I" and cv(a) < 0 and nonneg_int(b):
        return TRUE
    return mk("lt", (a, b), "B")


def le(a, b):
    if isc(a) and isc(b):
        return B(cv(a) <= cv(b))
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return TRUE
    if isc(a) and a.sort == "I" and cv(a) <= 0 and nonneg_int(b):
        return TRUE
    if isc(b) and b.sort == "I" and cv(b) < 0 and nonneg_int(a):
        return FALSE
    return mk("le", (a, b), "B")


def eq(a, b):
    if a is b and not special(a):
        return TRUE
    if isc(a) and isc(b):
        return B(cv(a) == cv(b))
    if a is NAN or b is NAN:
        return FALSE
    if a.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
    if a.sort == "I":
        for x, y in ((a, b), (b, a)):
            if isc(x) and cv(x) < 0 and nonneg_int(y):
                return FALSE
            if isc(x) and y.op == "ite":
                p, q = eq(y.args[1], x), eq(y.args[2], x)
                if p is TRUE and q is FALSE:
                    return y.args[0]
                if p is FALSE and q is TRUE:
                    return not_(y.args[0])
                if isc(p) or isc(q):
                    return ite(y.args[0], p, q)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), a.sort)


OPS = {
    "add": add, "sub": sub, "mul": mul, "div": div, "neg": neg, "idiv": div, "rem": rem,
    "exp": exp, "ln": ln, "sqrt": sqrt, "abs": abs_, "min": min_, "max": max_, "floor": floor,
    "round": round_, "trunc": trunc, "fround": fround, "tof": tof, "not": not_, "and": and_, "or": or_, "lt": lt,
    "le": le, "eq": eq, "ite": ite, "powi": powi, "pow": pow_, "toi": toi,
}


def rebuild(t, args):
    f = OPS.get(t.op)
    if f is None:
        return mk(t.op, tuple(args), t.sort)
    return f(*args)


def subst(t, m, memo=None):
    """replace terms according to dict m (term -> term)"""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x in m:
            memo[x] = m[x]
            st.pop()
            continue
        kids = [a for a in x.args if isinstance(a, T)]
        todo = [a for a in kids if a not in memo]
        if todo:
            st.extend(todo)
            continue
        na = [memo[a] if isinstance(a, T) else a for a in x.args]
        memo[x] = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x, na)
        st.pop()
    return memo[t]


def walk(t, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        st.append(b)
    return seen
