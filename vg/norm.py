"""Normal forms for value-graph terms over the reals.

A term becomes a generalised Laurent polynomial: {monomial: rational}, a monomial being a sorted tuple of
(atom, rational exponent).  Sums that occur under a negative or fractional power are themselves atoms ("P"),
exp/pow are merged exponent-wise, constants under roots are factored.  Equality is decided by clearing the
denominators of the difference and comparing with the empty polynomial; conditionals are decided per sign cell
of their (normalised) guards."""
import time
from .term import *
from .term import _num
from .values import Undecided


class NeedSplit(Exception):
    def __init__(self, what):
        self.what = what


class TooBig(Exception):
    pass


class Contra(Exception):
    """assumptions contradictory: the cell is empty"""


MAXTERMS = 3000
NODETERMS = 200


class OutOfTime(TooBig):
    pass


def tick(n):
    WORK[0] += n
    if WORK[0] > WORK[1] or time.monotonic() > WORK[2]:
        raise OutOfTime()
WORK = [0, 10**9, 1e18]      # work done, work limit, deadline
_atoms = {}
_alist = []


class Atom:
    __slots__ = ("id", "kind", "data", "pos")

    def __repr__(self):
        return "A%d" % self.id


def atom(kind, data, pos=False):
    k = (kind, data)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id, a.kind, a.data, a.pos = len(_alist), kind, data, pos
        _alist.append(a)
        _atoms[k] = a.id
        return a.id
    if pos and not _alist[a].pos:
        _alist[a].pos = True
    return a


def at(i):
    return _alist[i]


ONE = {(): Fr(1)}


def const(c):
    return {(): Fr(c)} if c else {}


def monomul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pscale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def pmul(a, b):
    tick(len(a) * len(b))
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = monomul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return expandP(r)


def expandP(p):
    """expand sums that ended up with an exponent >= 1, reduce prime powers"""
    todo = None
    for m in p:
        for x, e in m:
            k = _alist[x].kind
            if (k == "P" and e >= 1) or (k == "p" and (e >= 1 or e < 0)):
                todo = m
                break
        if todo is not None:
            break
    if todo is None:
        return p
    r = {}
    for m, c in p.items():
        q = {(): c}
        rest = []
        for x, e in m:
            A = _alist[x]
            if A.kind == "P" and e >= 1:
                n = e.numerator // e.denominator
                base = dict(A.data)
                for _ in range(n):
                    q = rawmul(q, base)
                if e - n:
                    rest.append((x, e - n))
            elif A.kind == "p" and (e >= 1 or e < 0):
                n = e.numerator // e.denominator
                q = pscale(q, Fr(A.data) ** n)
                if e - n:
                    rest.append((x, e - n))
            else:
                rest.append((x, e))
        rest = tuple(rest)
        for n, d in q.items():
            k = monomul(rest, n)
            v = r.get(k, 0) + d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return expandP(r)


def rawmul(a, b):
    tick(len(a) * len(b))
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = monomul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def key(p):
    return tuple(sorted(p.items()))


def clear(p):
    """p = N / D ; N without negative powers of P atoms, D a monomial"""
    D = ()
    for _ in range(60):
        mins = {}
        for m in p:
            for x, e in m:
                if e < 0 and _alist[x].kind == "P":
                    mins[x] = min(mins.get(x, 0), e)
        if not mins:
            return p, D
        f = tuple(sorted((x, -e) for x, e in mins.items()))
        D = monomul(D, f)
        p = pmul(p, {f: Fr(1)})
    raise TooBig()


def content(p, absolute=False):
    """p = c * m * p0 with p0 normalised"""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for x in list(common):
            e = min(common[x], d.get(x, Fr(0)))
            if e:
                common[x] = e
            else:
                del common[x]
        for x, e in d.items():
            if e < 0 and x not in common and all(True for _ in (0,)):
                # present with negative exponent here, absent (0) before
                common[x] = e
    # re-check minimum over all monomials
    for x in list(common):
        e = min(dict(m).get(x, Fr(0)) for m in ms)
        if e:
            common[x] = e
        else:
            del common[x]
    mono = tuple(sorted(common.items()))
    inv = tuple((x, -e) for x, e in mono)
    p0 = {monomul(m, inv): c for m, c in p.items()}
    lead = p0[max(p0)]
    c = abs(lead) if absolute else lead
    p0 = {m: v / c for m, v in p0.items()}
    return c, mono, p0


_factors = {}


def factor(n):
    if n in _factors:
        return _factors[n]
    r, m, d = {}, n, 2
    while d * d <= m and d < 200000:
        while m % d == 0:
            r[d] = r.get(d, 0) + 1
            m //= d
        d += 1 if d == 2 else 2
    if m > 1:
        r[m] = r.get(m, 0) + 1
    _factors[n] = r
    return r


def cpow(c, r):
    """positive rational c to rational power r"""
    if r.denominator == 1:
        return {(): c ** int(r)}
    out = {(): Fr(1)}
    e = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for q, k in factor(n).items():
            e[q] = e.get(q, 0) + s * k
    mono = []
    k = Fr(1)
    for q, n in sorted(e.items()):
        t = n * r
        f = t.numerator // t.denominator
        k *= Fr(q) ** f
        if t - f:
            mono.append((atom("p", q, True), t - f))
    return {tuple(sorted(mono)): k}


class Norm:
    def __init__(self, box=None, assume=None):
        self.box = box or {}
        self.sub = {}          # atom id -> poly   (zero cells)
        self.vals = {}         # variable term -> constant term (enum cells)
        self.signs = {}        # guard key -> -1/0/1
        self.lin = {}          # linear part -> (lo, lostrict, hi, histrict)
        self.lazy = True
        self.memo = {}
        self.steps = 0
        if assume:
            self.__dict__.update(assume)

    def child(self):
        n = Norm(self.box)
        n.sub, n.vals, n.signs, n.lin, n.lazy = dict(self.sub), dict(self.vals), dict(self.signs), dict(self.lin), self.lazy
        return n

    # ---------------------------------------------------------- positivity
    def pos(self, i):
        A = _alist[i]
        if A.pos:
            return True
        if A.kind == "v":
            return self.tpos(A.data)
        if A.kind == "P":
            return self.ppos(dict(A.data))
        if A.kind == "L":
            return self.lnpos(A)
        return False

    def tpos(self, t):
        if t.op == "v":
            b = self.box.get(t.args[0])
            return b is not None and b[0] > 0
        if t.op == "k":
            return True
        if t.op in ("tof",):
            return self.tpos(t.args[0])
        return False

    def tnn(self, t):
        if t.op == "v":
            b = self.box.get(t.args[0])
            return b is not None and b[0] >= 0 or t.args[0].startswith(("n:", "e:"))
        return self.tpos(t)

    def lnpos(self, A):
        d = A.data
        return isinstance(d, int) and d >= 2

    def nonneg_atom(self, i):
        A = _alist[i]
        return self.pos(i) or (A.kind == "v" and self.tnn(A.data)) or A.kind == "abs"

    def monosign(self, m):
        """1 positive, 0 nonnegative, None unknown"""
        s = 1
        for x, e in m:
            if self.pos(x):
                continue
            if self.nonneg_atom(x):
                s = 0
            elif e.denominator == 1 and e.numerator % 2 == 0:
                s = 0
            else:
                return None
        return s

    def psign(self, p):
        """1: >0, 0.5: >=0, -1: <0, -0.5: <=0, 0: zero, None"""
        if not p:
            return 0
        up = dn = True
        strict = False
        for m, c in p.items():
            s = self.monosign(m)
            if s is None:
                return self.pintsign(p)
            if c > 0:
                dn = False
            else:
                up = False
            strict = strict or s == 1
        if up:
            return 1 if strict else 0.5
        if dn:
            return -1 if strict else -0.5
        return self.pintsign(p)

    def pintsign(self, p):
        """interval sign of a polynomial in variable atoms (exact rational bounds; None: unbounded)"""
        lo, hi = Fr(0), Fr(0)
        for m, c in p.items():
            a, b = c, c
            for x, e in m:
                A = _alist[x]
                if A.kind == "v" and A.data.op == "v" and A.data.args[0] in self.box and e.denominator == 1 and e > 0:
                    l, h = self.box[A.data.args[0]]
                    l = None if l == float("-inf") else Fr(l)
                    h = None if h == float("inf") else Fr(h)
                    if e > 1:
                        k = e.numerator
                        if k % 2 == 0:
                            if l is None or h is None:
                                l, h = Fr(0), None
                            else:
                                l, h = (Fr(0) if l <= 0 <= h else min(l ** k, h ** k)), max(l ** k, h ** k)
                        else:
                            l = None if l is None else l ** k
                            h = None if h is None else h ** k
                elif A.kind == "E" or A.kind == "v" and A.data.op == "v" and A.data.args[0].startswith("n:") and e > 0:
                    l, h = Fr(0), None
                else:
                    return None
                a, b = ivmul((a, b), (l, h))
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
            if lo is None and hi is None:
                return None
        if lo is not None and lo >= 0:
            return 1 if lo > 0 else (0.5 if hi != 0 else 0)
        if hi is not None and hi <= 0:
            return -1 if hi < 0 else -0.5
        return None

    def ppos(self, p):
        return self.psign(p) == 1

    # ---------------------------------------------------------- algebra
    def inv(self, p):
        if not p:
            raise Undecided("division by zero")
        if len(p) == 1:
            (m, c), = p.items()
            return expandP({tuple((x, -e) for x, e in m): 1 / c})
        N, D = clear(p)
        if not N:
            raise Undecided("division by zero")
        c, m, p0 = content(N)
        inv = tuple((x, -e) for x, e in m)
        mono = monomul(D, inv)
        if len(p0) == 1:
            return expandP({mono: 1 / c})
        a = self.patom(p0)
        return expandP({monomul(mono, ((a, Fr(-1)),)): 1 / c})

    def patom(self, p0):
        k = key(p0)
        return atom("P", k)

    def pw(self, p, r):
        r = Fr(r)
        if not r:
            return dict(ONE)
        if r.denominator == 1:
            n = abs(int(r))
            if n > 12 and len(p) > 1:
                raise TooBig()
            if len(p) == 1:
                (m, c), = p.items()
                return expandP({tuple((x, e * r) for x, e in m): c ** int(r)})
            if not p:
                if r > 0:
                    return {}
                raise Undecided("division by zero")
            q = p
            for _ in range(n - 1):
                q = pmul(q, p)
            return q if r > 0 else self.inv(q)
        if not p:
            return {}
        N, D = clear(p)
        if not N:
            return {}
        c, m, p0 = content(N, True)
        if D:
            bad = [x for x, e in D if not self.pos(x)]
            if bad:
                ev = [x for x in bad if True]
        res = self.monopow(m, r)
        res = pmul(res, self.monopow(tuple((x, -e) for x, e in D), r))
        if len(p0) == 1:
            (mm, cc), = p0.items()
            if cc < 0:
                a = atom("P", key(p0))
                res = pmul(res, {((a, r),): Fr(1)})
        else:
            a = self.patom(p0)
            res = pmul(res, {((a, r),): Fr(1)})
        return pmul(res, cpow(c, r))

    def monopow(self, m, r):
        out = dict(ONE)
        rest = []
        for x, e in m:
            t = e * r
            if self.nonneg_atom(x) or t.denominator == 1 and e.numerator % 2 and e.denominator == 1 and False:
                out = pmul(out, {((x, t),): Fr(1)})
            elif e.denominator == 1 and e.numerator % 2 == 0:
                a = self.absatom({((x, Fr(1)),): Fr(1)})
                out = pmul(out, self.pw(a, t) if t.denominator == 1 else {((next(iter(a))[0][0], t),): Fr(1)})
            elif _alist[x].kind == "P":
                out = pmul(out, {((x, t),): Fr(1)})
            else:
                rest.append((x, e))
        if rest:
            rest = tuple(rest)
            a = atom("P", key({rest: Fr(1)}))
            out = pmul(out, {((a, r),): Fr(1)})
        return out

    def absatom(self, p):
        s = self.psign(p)
        if s is not None:
            return p if s >= 0 else pscale(p, -1)
        N, D = clear(p)
        if not N:
            return {}
        # pull out everything of known sign
        c, m, p0 = content(N)
        keep, out = [], []
        for x, e in m:
            if self.nonneg_atom(x) or e.denominator == 1 and e.numerator % 2 == 0:
                out.append((x, e))
            else:
                keep.append((x, e))
        dk, do = [], []
        for x, e in D:
            (do if self.pos(x) or e.denominator == 1 and e.numerator % 2 == 0 else dk).append((x, -e))
        q = {monomul(monomul(tuple(keep), tuple(dk)), mm): v for mm, v in p0.items()}
        s = self.psign(q)
        outer = {monomul(tuple(out), tuple(do)): abs(c)}
        if s is not None:
            return pmul(outer, q if s >= 0 else pscale(q, -1))
        if not self.lazy:
            sg = self.sign(q)
            return pmul(outer, q if sg >= 0 else pscale(q, -1))
        lead = q[max(q)]
        if lead < 0:
            q = pscale(q, -1)
        return pmul(outer, {((atom("abs", key(q)), Fr(1)),): Fr(1)})

    def expp(self, p):
        out = dict(ONE)
        for m, c in p.items():
            ln_ = [x for x, e in m if e == 1 and _alist[x].kind == "L"]
            if len(m) == 1 and ln_:
                A = _alist[m[0][0]]
                base = {(): Fr(A.data)} if isinstance(A.data, int) else dict(A.data)
                out = pmul(out, self.pw(base, c))
                continue
            out = pmul(out, {((atom("E", m, True), c),): Fr(1)})
        return out

    def lnp(self, p):
        if not p:
            raise Undecided("ln of zero")
        N, D = clear(p)
        c, m, p0 = content(N, True)
        out = {}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for q, k in factor(n).items():
                out = padd(out, {((atom("L", q), Fr(1)),): Fr(k * s)})
        for x, e in list(m) + [(x, -e) for x, e in D]:
            A = _alist[x]
            if A.kind == "E":
                out = padd(out, {A.data: e})
            elif A.kind == "p":
                out = padd(out, {((atom("L", A.data), Fr(1)),): e})
            elif A.kind == "P":
                out = padd(out, {((atom("L", A.data), Fr(1)),): e})
            else:
                out = padd(out, {((atom("L", key({((x, Fr(1)),): Fr(1)})), Fr(1)),): e})
        if len(p0) > 1 or list(p0.values()) != [1]:
            out = padd(out, {((atom("L", key(p0)), Fr(1)),): Fr(1)})
        return out

    # ---------------------------------------------------------- guards
    def guardkey(self, p):
        """p up to positive factors -> (key, flip) or a known sign int"""
        s = self.psign(p)
        if s in (1, -1, 0):
            return int(s)
        N, D = clear(p)
        if not N:
            return 0
        c, m, p0 = content(N)
        flip = 1 if c > 0 else -1
        keep = []
        for x, e in m:
            if not self.pos(x):
                keep.append((x, Fr(1) if e.denominator == 1 and e.numerator % 2 else (e if e.denominator != 1 else Fr(2))))
        for x, e in D:
            if not self.pos(x):
                keep.append((x, Fr(1)))
        q = {monomul(tuple(sorted(keep)), mm): v for mm, v in p0.items()}
        s = self.psign(q)
        if s in (1, -1, 0):
            return int(s) * flip
        lead = q[max(q)]
        if lead < 0:
            q, flip = pscale(q, -1), -flip
        return key(q), flip, (s or 0) * (1 if lead > 0 else -1)

    def sign(self, p):
        g = self.guardkey(p)
        if isinstance(g, int):
            return g
        k, flip, semi = g
        if k in self.signs:
            return self.signs[k] * flip
        # linear bounds
        lp, c0 = linpart(k)
        b = self.lin.get(lp)
        if b is not None:
            lo, ls, hi, hs = b
            # value = L + c0
            if lo is not None and (lo + c0 > 0 or lo + c0 == 0 and ls):
                return flip
            if hi is not None and (hi + c0 < 0 or hi + c0 == 0 and hs):
                return -flip
        raise NeedSplit(("sign", k, semi))

    def assume_sign(self, k, s):
        n = self.child()
        n.signs[k] = s
        p = dict(k)
        if s == 0:
            # solve for an atom occurring linearly with a constant coefficient
            for m, c in sorted(p.items()):
                if len(m) == 1 and m[0][1] == 1 and _alist[m[0][0]].kind == "v":
                    x = m[0][0]
                    if sum(1 for mm in p for y, e in mm if y == x) == 1 and not mentions(p, x, m):
                        rest = pscale({mm: v for mm, v in p.items() if mm != m}, -1 / c)
                        n.sub[x] = rest
                        break
        lp, c0 = linpart(k)
        lo, ls, hi, hs = n.lin.get(lp, (None, False, None, False))
        v = -c0
        if s and intpoly(p):
            v, s = v + s, s * 0.5      # integers: > 0 means >= 1
        if s >= 0 and (lo is None or v > lo or v == lo and s == 1):
            lo, ls = v, s == 1
        if s <= 0 and (hi is None or v < hi or v == hi and s == -1):
            hi, hs = v, s == -1
        if lo is not None and hi is not None and (lo > hi or lo == hi and (ls or hs)):
            raise Contra()
        n.lin[lp] = (lo, ls, hi, hs)
        return n

    def cond(self, c):
        """-> True/False or NeedSplit"""
        r = self.memo.get(c)
        if r is not None:
            return r
        r = self.cond_(c)
        self.memo[c] = r
        return r

    def cond_(self, c):
        o = c.op
        if o == "c":
            return cv(c)
        if o == "not":
            return not self.cond(c.args[0])
        if o in ("and", "or"):
            need = None
            for x in c.args:
                try:
                    v = self.cond(x)
                except NeedSplit as ns:
                    need = need or ns
                    continue
                if v == (o == "or"):
                    return v
            if need:
                raise need
            return o == "and"
        if o == "ite":
            return self.cond(c.args[1] if self.cond(c.args[0]) else c.args[2])
        if o == "v":
            if c in self.vals:
                return cv(self.vals[c])
            raise NeedSplit(("var", c, (TRUE, FALSE)))
        if o in ("isinf", "isnan"):
            return False
        if o in ("lt", "le", "eq"):
            a, b = c.args
            if o == "eq" and a.sort == "B":
                return self.cond(a) == self.cond(b)
            for x in (a, b):
                if x.op == "v" and x.args[0].startswith("e:") and x not in self.vals:
                    raise NeedSplit(("var", x, tuple(I(k) for k in range(int(x.args[0].split(":")[1])))))
            if special(a) or special(b):
                return self.spec(o, a, b)
            d = padd(self.poly(b), self.poly(a), -1)
            if a.sort == "I" and o == "le":
                d = padd(d, ONE)
                return self.sign(d) > 0
            if a.sort == "I" and o == "lt":
                return self.sign(d) > 0
            if a.sort == "I" and o == "eq":
                return self.sign(d) == 0
            s = self.sign(d)
            return s > 0 if o == "lt" else (s >= 0 if o == "le" else s == 0)
        raise NeedSplit(("bool", c, (TRUE, FALSE))) if c not in self.vals else Contra()

    def spec(self, o, a, b):
        if a is NAN or b is NAN:
            return False
        va = 1 if a is INF else -1 if a is NINF else 0
        vb = 1 if b is INF else -1 if b is NINF else 0
        if va == vb:
            raise Undecided("comparison of infinities")
        return va < vb if o != "eq" else False

    # ---------------------------------------------------------- terms
    def poly(self, t):
        r = self.memo.get(t)
        if r is None:
            # iterative post-order to keep recursion shallow
            st = [t]
            while st:
                x = st[-1]
                if x in self.memo:
                    st.pop()
                    continue
                if x.op in ("ite", "loop", "sum", "fold") or x.sort == "B":
                    kids = []
                else:
                    kids = [a for a in x.args if isinstance(a, T) and a not in self.memo and a.sort != "B"]
                if kids:
                    st.extend(kids)
                    continue
                if x.sort == "B":
                    raise Undecided("boolean in arithmetic")
                try:
                    v = self.poly_(x)
                    if len(v) > NODETERMS and x.op not in ("add", "sub", "neg"):
                        raise TooBig()
                except OutOfTime:
                    raise
                except TooBig:
                    v = self.cut(x)
                self.memo[x] = v
                st.pop()
            r = self.memo[t]
        return r

    def vatom(self, t):
        i = atom("v", t)
        if i in self.sub:
            return self.reduce(self.sub[i])
        return {((i, Fr(1)),): Fr(1)}

    def reduce(self, p):
        for _ in range(8):
            if not any(x in self.sub for m in p for x, e in m):
                return p
            r = {}
            for m, c in p.items():
                q = {(): c}
                for x, e in m:
                    q = pmul(q, self.pw(self.sub[x], e) if x in self.sub else {((x, e),): Fr(1)})
                r = padd(r, q)
            p = r
        return p

    def opq(self, op, *polys):
        return {((atom("f", (op,) + tuple(key(p) if isinstance(p, dict) else p for p in polys)), Fr(1)),): Fr(1)}

    def cut(self, x):
        """too large to expand: an opaque atom that is still congruent in its normalised arguments"""
        if x.op in ("ite", "loop", "sum", "fold"):
            raise TooBig()
        ks = [self.poly(a) if isinstance(a, T) else a for a in x.args]
        if x.op == "mul":
            ks.sort(key=key)
        return self.opq(x.op, *ks)

    def poly_(self, t):
        self.steps += 1
        o = t.op
        if o == "c":
            v = t.args[0]
            if isinstance(v, str):
                raise Undecided("non-finite constant")
            return const(Fr(v))
        if o == "k":
            return {((atom("k", t.args[0], True), Fr(1)),): Fr(1)}
        if o == "v":
            if t in self.vals:
                return self.poly(self.vals[t])
            return self.vatom(t)
        P = self.poly
        if o == "add":
            return padd(P(t.args[0]), P(t.args[1]))
        if o == "sub":
            return padd(P(t.args[0]), P(t.args[1]), -1)
        if o == "neg":
            return pscale(P(t.args[0]), -1)
        if o == "mul":
            return pmul(P(t.args[0]), P(t.args[1]))
        if o == "div":
            a, b = P(t.args[0]), P(t.args[1])
            return pmul(a, self.inv(b))
        if o == "powi":
            return self.pw(P(t.args[0]), t.args[1])
        if o == "sqrt":
            return self.pw(P(t.args[0]), Fr(1, 2))
        if o == "exp":
            return self.expp(P(t.args[0]))
        if o == "ln":
            return self.lnp(P(t.args[0]))
        if o == "pow":
            a, b = P(t.args[0]), P(t.args[1])
            if not b or (len(b) == 1 and () in b):
                return self.pw(a, b.get((), Fr(0)))
            if not a:
                raise Undecided("0 to a variable power")
            return self.expp(pmul(b, self.lnp(a)))
        if o == "tof":
            return P(t.args[0])
        if o == "abs":
            return self.absatom(P(t.args[0])) if P(t.args[0]) else {}
        if o in ("min", "max"):
            a, b = t.args
            for x, y in ((a, b), (b, a)):
                if special(x):
                    if x is NAN:
                        return P(y)
                    return P(y) if (x is INF) == (o == "min") else P(x)
            a, b = P(a), P(b)
            d = padd(b, a, -1)
            if not d:
                return a
            s = self.psign(d)
            if s is None:
                try:
                    s = self.sign(d)
                except NeedSplit:
                    if not self.lazy:
                        raise
            if s is not None:
                if o == "min":
                    return a if s >= 0 else b
                return b if s >= 0 else a
            # max(a,b) = (a+b+|a-b|)/2 keeps one canonical atom
            ab = self.absatom(d)
            h = pscale(padd(padd(a, b), ab, 1 if o == "max" else -1), Fr(1, 2))
            return h
        if o == "ite":
            c = t.args[0]
            try:
                return P(t.args[1] if self.cond(c) else t.args[2])
            except NeedSplit:
                if not self.lazy:
                    raise
            g = self.guardform(c)
            a, b = self.arm(t.args[1]), self.arm(t.args[2])
            if a == b:
                return a
            if g[0] == "not":
                g, a, b = g[1], b, a
            # a = b + [g](a-b): keep one canonical atom per guard, linear in the difference
            return padd(b, pmul({((atom("g", g), Fr(1)),): Fr(1)}, padd(a, b, -1)))
        if o == "erfc":
            q = P(t.args[0])
            if not q:
                return dict(ONE)
            flip = q[min(q, key=repr)] < 0
            if flip:
                q = pscale(q, -1)
            e = {((atom("f", ("erfc", key(q)), True), Fr(1)),): Fr(1)}
            return padd(const(2), e, -1) if flip else e
        if o in ("floor", "round", "trunc"):
            return self.opq(o, P(t.args[0]))
        if o == "toi":
            return self.opq("toi%s,%s" % (t.args[1], t.args[2]), P(t.args[0]))
        if o in ("rem", "idiv", "ipow"):
            return self.opq(o, P(t.args[0]), P(t.args[1]))
        if o == "sum":
            return self.sum_(t)
        if o in ("loop", "fold"):
            return self.bind_(t)
        return self.opq(o, *[P(a) if isinstance(a, T) and a.sort != "B" else (a if not isinstance(a, T) else ("b", self.guardform(a))) for a in t.args])

    def arm(self, t):
        return self.poly(t)

    def guardform(self, c):
        o = c.op
        if o == "c":
            return ("c", cv(c))
        if o == "v":
            if c in self.vals:
                return ("c", cv(self.vals[c]))
            return ("bv", c.args[0])
        if o == "not":
            g = self.guardform(c.args[0])
            return g[1] if g[0] == "not" else ("not", g)
        if o in ("and", "or"):
            xs = []

            def fl(y):
                if y.op == o:
                    fl(y.args[0]); fl(y.args[1])
                else:
                    xs.append(self.guardform(y))
            fl(c)
            if o == "and":
                return ("not", ("or", tuple(sorted(set(map(negg, xs)), key=repr))))
            return ("or", tuple(sorted(set(xs), key=repr)))
        if o in ("lt", "le", "eq"):
            a, b = c.args
            if special(a) or special(b):
                return ("c", self.spec(o, a, b))
            if a.sort == "B":
                return ("beq", tuple(sorted((self.guardform(a), self.guardform(b)), key=repr)))
            d = padd(self.poly(b), self.poly(a), -1)
            if a.sort == "I" and o == "le":
                d = padd(d, ONE)
                o = "lt"
            g = self.guardkey(d)
            if isinstance(g, int):
                return ("c", g > 0 if o == "lt" else g >= 0 if o == "le" else g == 0)
            k, flip, semi = g
            if o == "eq":
                return ("eq0", k)
            if o == "lt":     # d > 0
                if flip < 0 and a.sort == "I":
                    # -q > 0  <=> q < 0 <=> not (q >= 0) <=> not (q+1 > 0)
                    c0, m0, q = content(padd(d, {}), False)
                    g2 = self.guardkey(padd(pscale(d, -1), ONE))
                    if isinstance(g2, int):
                        return ("c", not g2 > 0)
                    return ("not", ("gt0", g2[0], g2[1]))
                return ("gt0", k, 1) if flip > 0 else ("lt0", k)
            return ("not", ("lt0", k)) if flip > 0 else ("not", ("gt0", k, 1))
        if o == "ite":
            return ("bite",) + tuple(self.guardform(x) for x in c.args)
        if o in ("isinf", "isnan"):
            return ("c", False)
        return ("bf", o) + tuple(self.guardform(x) if isinstance(x, T) and x.sort == "B" else key(self.poly(x)) if isinstance(x, T) else x for x in c.args)

    # ---------------------------------------------------------- binders
    def sum_(self, t):
        n, iv, body = t.args
        np_ = self.poly(n)
        p = self.poly(body)
        iat = atom("v", iv)
        out = {}
        for m, c in p.items():
            free, bound = [], []
            for x, e in m:
                (bound if dep(x, iat) else free).append((x, e))
            if not bound:
                out = padd(out, pmul({tuple(free): c}, np_))
            else:
                a = atom("S", (key(np_), iat, tuple(bound)), False)
                out = padd(out, pmul({tuple(free): c}, {((a, Fr(1)),): Fr(1)}))
        return out

    def bind_(self, t):
        ks = []
        for a in t.args:
            if isinstance(a, T):
                ks.append(("b", self.guardform(a)) if a.sort == "B" else (key(self.poly(a)) if not special(a) else a.args[0]))
            else:
                ks.append(a)
        return {((atom("f", (t.op,) + tuple(ks)), Fr(1)),): Fr(1)}


def negg(g):
    return g[1] if g[0] == "not" else ("not", g)


def intpoly(p):
    return all(c.denominator == 1 and all(_alist[x].kind == "v" and _alist[x].data.sort == "I" and e.denominator == 1 and e > 0 for x, e in m)
               for m, c in p.items())


def gkeys(g, out):
    """sign keys / boolean variables a guard form depends on"""
    if not isinstance(g, tuple) or not g:
        return
    if g[0] in ("gt0", "lt0", "eq0"):
        out.append(("sign", g[1]))
    elif g[0] == "bv":
        out.append(("var", g[1]))
    else:
        for x in g[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    gkeys(x, out)
                else:
                    for y in x:
                        gkeys(y, out)


def splits(p):
    """guards the atoms of p still depend on, outermost first"""
    out = []
    seen = set()
    todo = [x for m in p for x, e in m]
    while todo:
        x = todo.pop(0)
        if x in seen:
            continue
        seen.add(x)
        A = _alist[x]
        if A.kind == "g":
            gkeys(A.data, out)
        elif A.kind == "abs":
            out.append(("sign", A.data))
        else:
            inner = []
            atoms_in(A.data, inner)
            todo += inner
    return out


def atoms_in(d, out):
    if isinstance(d, tuple):
        if len(d) == 2 and isinstance(d[0], int) and not isinstance(d[0], bool) and isinstance(d[1], Fr):
            out.append(d[0])
        else:
            for x in d:
                atoms_in(x, out)


def linpart(k):
    c0 = Fr(0)
    out = []
    for m, c in k:
        if m == ():
            c0 = c
        else:
            out.append((m, c))
    return tuple(out), c0


_dep = {}


def dep(x, a):
    """does atom x mention atom a"""
    if x == a:
        return True
    r = _dep.get((x, a))
    if r is None:
        r = _dep[(x, a)] = depd(_alist[x].data, a, _alist[x].kind)
    return r


def depd(d, a, kind):
    if kind == "v":
        t = d
        if t.op == "v":
            return False
        vt = _alist[a].data
        return vt in walk(t)
    return depk(d, a)


def depk(d, a):
    # nested keys: monomials are tuples of (atom:int, Fr)
    if isinstance(d, tuple):
        if len(d) == 2 and isinstance(d[0], int) and isinstance(d[1], Fr) and not isinstance(d[0], bool):
            return dep(d[0], a)
        return any(depk(x, a) for x in d)
    return False


def mentions(p, x, skip):
    for m in p:
        for y, e in m:
            if y != x and dep(y, x):
                return True
    return False


def zero(n, p):
    p = n.reduce(p)
    if not p:
        return True
    try:
        N, D = clear(p)
    except OutOfTime:
        raise
    except TooBig:
        return False
    return not N


def ivmul(x, y):
    """product of intervals with None for the infinite end"""
    inf = float("inf")
    def m(a, b, sa, sb):
        if a is None or b is None:
            if a == 0 or b == 0:
                return Fr(0)
            s = (sa if a is None else (1 if a > 0 else -1)) * (sb if b is None else (1 if b > 0 else -1))
            return inf * s
        return a * b
    q = [m(a, b, sa, sb) for a, sa in ((x[0], -1), (x[1], 1)) for b, sb in ((y[0], -1), (y[1], 1))]
    lo, hi = min(q), max(q)
    return (None if lo in (inf, -inf) else lo), (None if hi in (inf, -inf) else hi)


class Budget(Exception):
    pass


def cells(box, leaf, budget=300, facts=(), enum_only=False):
    """visit the sign cells on demand; leaf(n) -> bool. True iff every non-empty cell satisfies leaf"""
    cnt = [0]

    def go(n):
        cnt[0] += 1
        if cnt[0] > budget:
            raise Budget()
        n.lazy = enum_only
        try:
            for f in facts:
                try:
                    if not n.cond(f):
                        return True
                except NeedSplit as ns:
                    if not enum_only:
                        raise
            return leaf(n)
        except NeedSplit as ns:
            w = ns.what
            if w[0] in ("var", "bool"):
                for v in w[2]:
                    c = n.child()
                    c.vals[w[1]] = v
                    if not go(c):
                        return False
                return True
            if enum_only:
                return False
            semi = w[2]
            for s in (1, -1, 0):
                if semi > 0 and s < 0 or semi < 0 and s > 0:
                    continue
                try:
                    c = n.assume_sign(w[1], s)
                except Contra:
                    continue
                if not go(c):
                    return False
            return True
        except Contra:
            return True

    try:
        return go(Norm(box)), "cells=%d" % cnt[0]
    except Budget:
        return False, "cell budget"
    except (Undecided, TooBig, RecursionError) as ex:
        return False, type(ex).__name__ + " " + str(ex)


def enumvars(ts):
    seen = set()
    for t in ts:
        walk(t, seen)
    return [x for x in seen if x.op == "v" and (x.sort == "B" or x.args[0].startswith("e:"))]


LIMIT = [6.0, 1e18]     # seconds per cell proof, absolute deadline of the obligation


def start(work):
    WORK[0], WORK[1], WORK[2] = 0, work, min(LIMIT[1], time.monotonic() + LIMIT[0])


_size = {}


def dagsize(t):
    r = _size.get(t)
    if r is None:
        r = _size[t] = len(walk(t))
    return r


def cut_shared(a, b, k, box):
    """replace maximal shared subterms of DAG size >= k by fresh variables (a sound generalisation)"""
    wa, wb = walk(a), walk(b)
    sh = {t for t in wa if t in wb and t.sort == "R" and t.op not in ("v", "c", "k", "neg")}
    m = {}
    seen = set()
    bx = dict(box or {})

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t in sh and dagsize(t) >= k:
            v = var("cut%d" % t.id)
            m[t] = v
            try:
                from .iv import Iv, IvFail
                env = {}
                for x in walk(t):
                    if x.op == "v":
                        env[x] = (True, True) if x.sort == "B" else bx.get(x.args[0], (float("-inf"), float("inf")))
                bx["cut%d" % t.id] = Iv(env).ev(t)
            except Exception:
                bx["cut%d" % t.id] = (float("-inf"), float("inf"))
            return
        if t.op == "loop":
            return
        for x in t.args:
            if isinstance(x, T):
                go(x)
    go(a)
    go(b)
    if not m:
        return None
    try:
        return subst(a, m), subst(b, m), bx
    except NotImplementedError:
        return None


def lazy_cells(a, b, box, budget, facts):
    """normal forms with guards as atoms; only guards that survive in the difference are split"""
    cnt = [0]

    def go(n, depth):
        cnt[0] += 1
        if cnt[0] > budget:
            raise Budget()
        n.lazy = True
        for f in facts:
            try:
                if not n.cond(f):
                    return True
            except NeedSplit:
                pass
        try:
            p = n.reduce(padd(n.poly(a), n.poly(b), -1))
        except Contra:
            return True
        if zero(n, p):
            return True
        if depth > 14:
            return False
        for kind, k in splits(p):
            if kind == "var":
                c1, c2 = n.child(), n.child()
                v = var(k, "B")
                if v in n.vals:
                    continue
                c1.vals[v], c2.vals[v] = TRUE, FALSE
                return go(c1, depth + 1) and go(c2, depth + 1)
            if k in n.signs:
                continue
            sp = n.psign(dict(k))
            for s in (1, -1, 0):
                if sp is not None and (sp > 0 and s < 0 or sp < 0 and s > 0):
                    continue
                try:
                    c = n.assume_sign(k, s)
                except Contra:
                    continue
                if not go(c, depth + 1):
                    return False
            return True
        return False
    try:
        return go(Norm(box), 0), "cells=%d" % cnt[0]
    except Budget:
        return False, "cell budget"
    except (Undecided, TooBig, RecursionError, NeedSplit) as ex:
        return False, type(ex).__name__ + " " + str(ex)


def guard_atoms(t):
    out = set()
    for x in walk(t):
        if x.op == "loop":
            return set()
        if x.op == "ite":
            st = [x.args[0]]
            while st:
                y = st.pop()
                if y.op in ("and", "or", "not"):
                    st += [z for z in y.args if isinstance(z, T)]
                elif y.op in ("lt", "le", "eq", "v"):
                    out.add(y)
    return out


def shared_split(a, b, box, budget, facts, work, depth):
    """case split on a guard that both sides test, by substitution of its truth value"""
    from .gvn import same
    try:
        if same(a, b):
            return True, "value numbers per guard cell"
        sh = guard_atoms(a) & guard_atoms(b) if depth else ()
        if not sh:
            if depth == 5:
                return False, ""
            start(work)
            return lazy_cells(a, b, box, budget, facts)
        g = min(sh, key=lambda t: (dagsize(t), t.id))
        ng = not_(g)
        for v in (TRUE, FALSE):
            m = {g: v, ng: not_(v)}
            r, how = shared_split(subst(a, m), subst(b, m), box, budget, tuple(facts) + ((g,) if v is TRUE else (ng,)), work, depth - 1)
            if not r:
                return r, how
        return True, "value numbers per guard cell"
    except NotImplementedError:
        return False, "loop"


def prove_cell(a, b, box, budget, facts, work):
    if a is b:
        return True, "identical"
    tried = None
    if not facts and max(dagsize(a), dagsize(b)) > 100:
        for k in (50, 200):
            c = cut_shared(a, b, k, box)
            if c is None or c[:2] == tried:
                continue
            tried = c[:2]
            if tried[0] is tried[1]:
                return True, "identical"
            start(work)
            r, how = lazy_cells(c[0], c[1], c[2], budget, facts)
            if r:
                return True, how
    r, how = shared_split(a, b, box, budget, facts, work, 5)
    if r:
        return r, how
    start(work)
    return lazy_cells(a, b, box, budget, facts)


def prove_eq(a, b, box=None, budget=300, facts=(), work=2000000):
    """(True, how) if a == b is established for all inputs of the domain, else (False, reason)"""
    if a is b:
        return True, "identical"
    if dagsize(a) + dagsize(b) < 160:
        start(work)
        r, how = lazy_cells(a, b, box, 1, facts)
        if r:
            return True, "normal forms"
    ev = sorted(enumvars([a, b]), key=lambda t: t.args[0])
    tot = 1
    for v in ev:
        tot *= 2 if v.sort == "B" else int(v.args[0].split(":")[1])
    if tot > 243:
        return prove_cell(a, b, box, budget, facts, work)
    n = [0]

    def go(i, m):
        if i == len(ev):
            try:
                x, y = subst(a, m), subst(b, m)
                fs = [subst(f, m) for f in facts]
            except NotImplementedError:
                return False, "loop"
            if any(f is FALSE for f in fs):
                return True, ""
            r, how = prove_cell(x, y, box, budget, [f for f in fs if f is not TRUE], work)
            n[0] += 1
            return r, how
        v = ev[i]
        for x in ((TRUE, FALSE) if v.sort == "B" else [I(k) for k in range(int(v.args[0].split(":")[1]))]):
            r, how = go(i + 1, {**m, v: x})
            if not r:
                return False, how
        return True, how
    r, how = go(0, {})
    return r, ("%d enum cells; %s" % (n[0], how)) if r else how


def ratsign(n, p):
    N, D = clear(n.reduce(p))
    if any(not n.pos(x) for x, e in D if not (e.denominator == 1 and e.numerator % 2 == 0)):
        return n.psign(p)
    return n.psign(N)


def holds(n, c):
    o = c.op
    if o == "and":
        return holds(n, c.args[0]) and holds(n, c.args[1])
    if o == "not" and c.args[0].op in ("lt", "le") and c.args[0].args[0].sort != "B":
        x = c.args[0]
        return holds(n, (le if x.op == "lt" else lt)(x.args[1], x.args[0]))
    if o in ("lt", "le") and not special(c.args[0]) and not special(c.args[1]):
        d = padd(n.poly(c.args[1]), n.poly(c.args[0]), -1)
        s = ratsign(n, d)
        if s is not None:
            if s == 1 or (o == "le" and s in (0, 0.5)):
                return True
        else:
            try:
                s = n.sign(d)
                if s > 0 or o == "le" and s == 0:
                    return True
            except NeedSplit:
                pass
        from .order import proves
        return proves(n, d, o == "lt")
    return n.cond(c)


def prove_bool(c, box=None, budget=300, facts=(), work=2000000):
    if c is TRUE:
        return True, "trivial"
    start(work)
    return cells(box, lambda n: holds(n, c), budget, facts)
