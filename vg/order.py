"""Order reasoning on normal forms: is a generalised polynomial nonnegative in a cell?

Rules, each sound on its own:
  - every term nonnegative (signs of atoms from the domain, positive powers of sums proved nonnegative first);
  - common factors of known sign and positive denominators are dropped;
  - a radical is isolated and squared when both sides have known signs;
  - the difference of two positive monomials has the sign of the difference of their logarithms;
  - p >= 0 if p - l*m*K >= 0 for a known K >= 0, a constant l > 0 and a nonnegative monomial m."""
from fractions import Fraction as Fr
import os
import time
from . import norm
from .term import T, var, rebuild, subst, le, lt, not_, TRUE, FALSE, special
from .iv import Iv, IvFail
from .norm import padd, pscale, pmul, clear, content, key, monomul, at, TooBig, Undecided, NeedSplit

DEBUG = bool(os.environ.get("VG_ORDER"))


class Order:
    def __init__(self, n, limit=1.0, skip=None):
        self.n = n
        self.memo = {}
        self.amemo = {}
        self.t1 = time.monotonic() + limit
        self.facts = []
        for k, s in n.signs.items():
            if k == skip:
                continue
            p = n.reduce(dict(k))
            if s >= 0:
                self.facts.append(p)
            if s <= 0:
                self.facts.append(pscale(p, -1))
        for p in list(self.facts):
            q = self.squared(p)
            if q is not None:
                self.facts.append(q)
        self.facts = [q for q in self.facts if 1 < len(q) <= 24]

    def squared(self, p):
        """A - B >= 0 with A, B >= 0 and a radical on one side: A^2 - B^2 >= 0"""
        x = radical(p)
        if x is None or len(p) > 6:
            return None
        A = {m: c for m, c in p.items() if half(m, x)}
        B = {m: c for m, c in p.items() if not half(m, x)}
        try:
            sa, sb = self.n.psign(A), self.n.psign(B)
            if sa is None or sb is None:
                return None
            if sa >= 0 >= sb:
                return padd(pmul(A, A), pmul(B, B), -1)
            if sb >= 0 >= sa:
                return padd(pmul(B, B), pmul(A, A), -1)
        except TooBig:
            pass
        return None

    # ------------------------------------------------------------ atoms
    def apos(self, i):
        """the atom is nonnegative (1: positive, 0: nonnegative, None)"""
        r = self.amemo.get(i, 7)
        if r != 7:
            return r
        self.amemo[i] = None
        A = at(i)
        r = None
        if self.n.pos(i):
            r = 1
        elif self.n.nonneg_atom(i):
            r = 0
        elif A.kind == "P":
            if self.ge(dict(A.data), True, 2):
                r = 1
            elif self.ge(dict(A.data), False, 2):
                r = 0
        self.amemo[i] = r
        return r

    def msign(self, m):
        s = 1
        for x, e in m:
            a = self.apos(x)
            if a == 1:
                continue
            if e < 0:
                return None
            if a == 0:
                s = 0
            elif e.denominator == 1 and e.numerator % 2 == 0:
                s = 0
            else:
                return None
        return s

    def known(self, p):
        """facts about the atoms of p"""
        out = []
        seen = set()
        for m in p:
            for x, e in m:
                if x in seen:
                    continue
                seen.add(x)
                A = at(x)
                X = {((x, Fr(1)),): Fr(1)}
                if A.kind == "v" and A.data.op == "v" and A.data.args[0] in self.n.box:
                    lo, hi = self.n.box[A.data.args[0]]
                    if lo != float("-inf") and lo:
                        out.append(padd(X, {(): Fr(lo)}, -1))
                    if hi != float("inf"):
                        out.append(padd({(): Fr(hi)} if hi else {}, X, -1))
                elif A.kind == "f" and A.data[0] == "erfc":
                    out.append(padd({(): Fr(2)}, X, -1))
                elif A.kind == "abs":
                    out.append(padd(X, dict(A.data), -1))
                    out.append(padd(X, dict(A.data)))
        return out

    # ------------------------------------------------------------ the prover
    def ge(self, p, strict=False, depth=3):
        if not p:
            return not strict
        if time.monotonic() > self.t1 or len(p) > 120:
            return False
        k = (key(p), strict)
        d, r = self.memo.get(k, (-1, False))
        if r or d >= depth:
            return r
        self.memo[k] = (depth, False)
        try:
            r = self.ge_(p, strict, depth)
        except (TooBig, Undecided, NeedSplit, ZeroDivisionError):
            r = False
        self.memo[k] = (depth, r)
        return r

    def terms(self, p, strict):
        st = False
        for m, c in p.items():
            if c < 0:
                return False
            s = self.msign(m)
            if s is None:
                return False
            st = st or s == 1
        return st or not strict

    def ge_(self, p, strict, depth):
        n = self.n
        s = n.psign(p)
        if s is not None:
            return s == 1 or s >= 0 and not strict
        if self.terms(p, strict):
            return True
        # denominators
        N, D = clear(p)
        for x, e in D:
            if self.apos(x) != 1 and not (e.denominator == 1 and e.numerator % 2 == 0):
                return False
        if not N:
            return not strict
        c, m, q = content(N)
        if m:
            s = self.msign(tuple((x, abs(e)) for x, e in m))
            neg = [x for x, e in m if e < 0]
            if s is None or strict and s != 1 or any(self.apos(x) != 1 and not even(m, x) for x in neg):
                q = N
            else:
                q = pscale(q, c)
        else:
            q = N
        if q is not p and q != p:
            return self.ge(q, strict, depth)
        p = q
        if depth <= 0:
            return False
        neg = [m for m, c in p.items() if c < 0 or self.msign(m) is None]
        # radicals
        x = radical(p)
        if x is not None and self.apos(x) is not None:
            A = {m: c for m, c in p.items() if half(m, x)}
            B = {m: c for m, c in p.items() if not half(m, x)}
            if B:
                if self.ge(A, strict, depth - 1) and self.ge(B, False, depth - 1) or self.ge(A, False, depth - 1) and self.ge(B, strict, depth - 1):
                    return True
                for U, V in ((A, B), (B, A)):
                    if self.ge(U, False, depth - 1) and self.ge(pscale(V, -1), False, depth - 1):
                        return self.ge(padd(pmul(U, U), pmul(V, V), -1), strict, depth)
        # two positive monomials
        if len(p) == 2:
            (m1, c1), (m2, c2) = sorted(p.items(), key=lambda x: -x[1])
            if c1 > 0 > c2 and self.msign(m1) == 1 and self.msign(m2) == 1 and logs(m1 + m2):
                return self.ge(padd(n.lnp({m1: c1}), n.lnp({m2: -c2}), -1), strict, depth - 1)
        # known facts
        if len(p) > 60:
            return False
        ks = self.facts + self.known(p)
        cand = []
        for K in ks:
            for mk, ck in K.items():
                inv = tuple((x, -e) for x, e in mk)
                for m in neg:
                    cm = p[m]
                    if (cm < 0) != (ck < 0):
                        continue
                    mm = monomul(m, inv)
                    if self.msign(mm) is None:
                        continue
                    r = padd(p, norm.expandP({monomul(mm, a): v * cm / ck for a, v in K.items()}), -1)
                    bad = sum(1 for a, v in r.items() if v < 0 or self.msign(a) is None)
                    cand.append((bad, len(r), len(cand), r))
        cand.sort(key=lambda x: x[:3])
        for bad, l, _, r in cand[:12 if depth > 1 else 40]:
            if depth == 1 and bad:
                break
            if bad > len(neg):
                break
            if self.ge(r, strict, depth - 1):
                return True
        return False


def even(m, x):
    e = dict(m)[x]
    return e.denominator == 1 and e.numerator % 2 == 0


def half(m, x):
    return any(y == x and e.denominator == 2 for y, e in m)


def radical(p):
    """an atom with a half-integer power in some but not all monomials"""
    cnt = {}
    for m in p:
        for x, e in m:
            if e.denominator == 2:
                cnt[x] = cnt.get(x, 0) + 1
    cs = [(c, x) for x, c in cnt.items() if c < len(p)]
    return min(cs)[1] if cs else None


def logs(m):
    return any(at(x).kind == "E" or e.denominator > 2 for x, e in m)


def show(p, depth=2):
    def a(x):
        A = at(x)
        if A.kind == "v":
            return str(A.data.args[0]) if A.data.op == "v" else "?"
        if A.kind in ("P", "E", "abs", "L") and depth and not isinstance(A.data, int):
            return A.kind + "(" + show({A.data: Fr(1)} if A.kind == "E" else dict(A.data), depth - 1) + ")"
        if A.kind == "f":
            return A.data[0] + "#%d" % x
        return "%s:%s" % (A.kind, A.data if A.kind in "pk" else x)
    return " ".join("%+.4g" % float(c) + "".join("*" + a(x) + ("" if e == 1 else "^%s" % e) for x, e in m) for m, c in p.items())


def proves(n, d, strict):
    try:
        if d and Order(n).ge(d, strict):
            return True
        if empty(n):
            return True
    except (TooBig, Undecided, NeedSplit, ZeroDivisionError):
        pass
    if DEBUG:
        print("GOAL", show(d)[:1500])
        for k, s in n.signs.items():
            print("   ", s, show(dict(k))[:600])
    return False


def empty(n):
    """the sign assumptions of the cell contradict each other"""
    for k, s in n.signs.items():
        p = n.reduce(dict(k))
        o = Order(n, 0.3, k)
        if s > 0 and o.ge(pscale(p, -1)) or s < 0 and o.ge(p) or s == 0 and (o.ge(p, True) or o.ge(pscale(p, -1), True)):
            return True
    return False


# ------------------------------------------------------------------ generalisation
TRANS = ("exp", "ln", "pow", "erfc", "ierfc", "opq", "loop", "fold", "sum", "floor", "round", "trunc", "toi", "rem", "idiv")


def closed(x):
    """loops and folds bind variables: never look inside"""
    return x.op in ("loop", "fold", "sum") or any(isinstance(a, tuple) for a in x.args)


def heights(ts):
    """distance above the innermost transcendental operation (0: none below)"""
    h = {}
    st = list(ts)
    while st:
        x = st[-1]
        if x in h:
            st.pop()
            continue
        if closed(x):
            h[x] = 1
            st.pop()
            continue
        sub = [a for a in x.args if isinstance(a, T)]
        need = [a for a in sub if a not in h]
        if need:
            st += need
            continue
        m = max([h[a] for a in sub] or [0])
        h[x] = m + 1 if m else 1 if x.op in TRANS else 0
        st.pop()
    return h


def generalise(ts, k, env, h):
    """replace every maximal subterm of height 1..k by a fresh variable that ranges over its interval hull"""
    iv = Iv(env)
    memo, box = {}, {}

    def cut(x):
        try:
            lo, hi = iv.ev(x)
        except (IvFail, OverflowError, ValueError, ZeroDivisionError):
            lo, hi = float("-inf"), float("inf")
        if lo != lo or hi != hi:
            lo, hi = float("-inf"), float("inf")
        v = var("z:%d" % x.id, "R")
        box["z:%d" % x.id] = (lo, hi)
        return v

    def go(t):
        st = [t]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if x.sort == "R" and 0 < h.get(x, 0) <= k:
                memo[x] = cut(x)
                st.pop()
                continue
            need = [] if closed(x) else [a for a in x.args if isinstance(a, T) and a not in memo]
            if need:
                st += need
                continue
            memo[x] = x if closed(x) else rebuild(x, [memo[a] if isinstance(a, T) else a for a in x.args])
            st.pop()
        return memo[t]

    return [go(t) for t in ts], box


def prove(c, facts, env, box, limit=4.0):
    """lattice rules for minima, maxima, cases and roots; the remaining inequalities with parts abstracted"""
    t1 = time.monotonic() + limit
    how = []

    def rel(a, b, facts, strict, depth):
        if a is b:
            return not strict
        if depth <= 0 or time.monotonic() > t1:
            return False
        d = depth - 1
        if a.op == "max":
            return all(rel(x, b, facts, strict, d) for x in a.args)
        if b.op == "min":
            return all(rel(a, x, facts, strict, d) for x in b.args)
        for x in (a, b):
            if x.op == "ite":
                g = x.args[0]
                out = True
                for v, f in ((TRUE, g), (FALSE, not_(g))):
                    fs = [subst(q, {g: v}) for q in facts]
                    if any(q is FALSE for q in fs):
                        continue
                    if not rel(subst(a, {g: v}), subst(b, {g: v}), [q for q in fs if q is not TRUE] + [f], strict, d):
                        return False
                return True
        if b.op == "max" and any(rel(a, x, facts, strict, d) for x in b.args):
            return True
        if a.op == "min" and any(rel(x, b, facts, strict, d) for x in a.args):
            return True
        if a.op == "sqrt" and b.op == "sqrt" and rel(a.args[0], b.args[0], facts, strict, d):
            return True
        r, h = leaf((lt if strict else le)(a, b), facts, env, box, max(0.5, (t1 - time.monotonic()) / 2))
        if r:
            how.append(h)
        return r

    def boolean(c, facts):
        if c.op == "and":
            return all(boolean(x, facts) for x in c.args)
        if c.op == "not" and c.args[0].op in ("lt", "le"):
            x = c.args[0]
            return rel(x.args[1], x.args[0], facts, x.op == "le", 12)
        if c.op in ("lt", "le"):
            return rel(c.args[0], c.args[1], facts, c.op == "lt", 12)
        return False

    if c.op in ("lt", "le", "not", "and") and boolean(c, list(facts)):
        return True, how[-1] if how else "lattice rules"
    return False, ""


def leaf(c, facts, env, box, limit):
    """try the relation with more and more of its transcendental parts abstracted to interval hulls"""
    if c is TRUE:
        return True, "trivial"
    if c.op not in ("lt", "le") or any(special(x) for x in c.args):
        return False, ""
    ts = [c] + list(facts)
    h = heights(ts)
    top = h[c]
    t0 = time.monotonic()
    for k in range(max(0, top - 2), 0 if top > 2 else -1, -1):       # coarse first: the terms are smaller
        if time.monotonic() - t0 > limit:
            break
        qs, zb = generalise(ts, k, env, h)
        norm.LIMIT[1] = time.monotonic() + 1.5
        try:
            r, how = norm.prove_bool(qs[0], {**box, **zb}, 120, qs[1:], 200000)
        except (TooBig, Undecided, ZeroDivisionError):
            continue
        if DEBUG:
            print("LEVEL", k, r, how, str(qs[0])[:400])
        if r:
            return True, "order of the terms with parts of height %d as intervals; %s" % (k, how)
    return False, ""
