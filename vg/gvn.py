"""Global value numbering modulo associativity, commutativity and like terms: a linear-time canonical form without expansion or case splits.
Two terms with the same canonical form are equal on every input where both are defined."""
from .term import *


class Canon:
    def __init__(self):
        self.memo = {}      # T -> canonical T
        self.lins = {}      # canonical T -> (const, {mono: coef})

    def __call__(self, t):
        st = [t]
        memo = self.memo
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T) and a not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x] = self.one(x, [memo[a] if isinstance(a, T) else a for a in x.args])
            st.pop()
        return memo[t]

    # lin: {mono: coef}; mono: tuple of (atom T, exponent) sorted by id; () is the constant
    def lin(self, c):
        r = self.lins.get(c)
        if r is not None:
            return r
        if c.op == "c" and not special(c):
            v = c.args[0]
            r = {(): Fr(v)} if v else {}
        else:
            r = {((c, 1),): Fr(1)}
        self.lins[c] = r
        return r

    def out(self, l, sort):
        l = {m: c for m, c in l.items() if c}
        if not l:
            return R(0) if sort == "R" else I(0)
        if len(l) == 1:
            (m, c), = l.items()
            if m == ():
                return R(c) if sort == "R" else (I(int(c)) if c.denominator == 1 else mk("L", (c,), sort))
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        ks = sorted(l, key=lambda m: tuple((a.id, e) for a, e in m))
        args = []
        for m in ks:
            args.append(l[m])
            args.append(len(m))
            for a, e in m:
                args += [a, e]
        r = mk("L", tuple(args), sort)
        self.lins[r] = l
        return r

    def mono(self, c, sort):
        """(coef, mono) of a canonical term as a product"""
        l = self.lin(c)
        if not l:
            return Fr(0), ()
        if len(l) == 1:
            (m, k), = l.items()
            return k, m
        f = self.expsum(l, sort)
        if f is not None:
            return f
        # factor out the leading coefficient
        lead = l[min(l, key=lambda m: tuple((a.id, e) for a, e in m))]
        q = self.out({m: v / lead for m, v in l.items()}, sort)
        return lead, ((q, 1),)

    def expsum(self, l, sort):
        """exp(u) + exp(v) + ... as exp(u) (1 + exp(v-u) + ...)"""
        if any(len(m) != 1 or m[0][1] != 1 or m[0][0].op != "exp" for m in l):
            return None
        first = min(l, key=lambda m: m[0][0].id)
        u, lead = first[0][0].args[0], l[first]
        r = {}
        for m, c in l.items():
            x = ((self.exp(self.diff(m[0][0].args[0], u)), 1),) if m is not first else ()
            r[x] = r.get(x, Fr(0)) + c / lead
        return lead, tuple(sorted(((first[0][0], 1), (self.out(r, sort), 1)), key=lambda x: x[0].id))

    def exp(self, l):
        return mk("exp", (self.out(l, "R"),), "R")

    def reduce(self, d):
        """sqrt(x)^2 = x and exp(u) exp(v) = exp(u+v) in a product; returns the constant factor"""
        k = Fr(1)
        for a in [a for a, e in d.items() if a.op == "sqrt" and abs(e) >= 2]:
            e = d[a]
            q = e // 2 if e > 0 else -(-e // 2)
            d[a] = e - 2 * q
            c, m = self.mono(a.args[0], "R")
            if not c:
                continue
            k *= c ** q
            for b, f in m:
                d[b] = d.get(b, 0) + f * q
        ex = [(a, e) for a, e in d.items() if a.op == "exp" and e]
        if len(ex) > 1 or ex and ex[0][1] != 1:
            l = {}
            for a, e in ex:
                d[a] = 0
                for m, c in self.lin(a.args[0]).items():
                    l[m] = l.get(m, Fr(0)) + c * e
            l = {m: c for m, c in l.items() if c}
            if l:
                x = self.exp(l)
                d[x] = d.get(x, 0) + 1
        return k

    def prod(self, ms, sort):
        k = Fr(1)
        d = {}
        for (c, m), s in ms:
            if c == 0 and s < 0:
                return None
            k *= c ** s
            for a, e in m:
                d[a] = d.get(a, 0) + e * s
        if sort == "R" and k:
            k *= self.reduce(d)
        m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
        if not k:
            return R(0) if sort == "R" else I(0)
        for a, e in m:
            f = self.flipped(a) if e == -1 else None
            if f is not None:
                # 1/(1+exp(u)) = 1 - 1/(1+exp(-u)): one orientation for every u
                d[a] = 0
                d2 = dict(d)
                d2[f] = d2.get(f, 0) - 1
                l = {}
                for dd, c in ((d, k), (d2, -k)):
                    mm = tuple(sorted(((x, y) for x, y in dd.items() if y), key=lambda x: x[0].id))
                    l[mm] = l.get(mm, Fr(0)) + c
                return self.out(l, sort)
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.lins:
            return self.out({x: v * k for x, v in self.lins[m[0][0]].items()}, sort)
        return self.out({m: k}, sort)

    def flipped(self, a):
        """1+exp(-u) for a = 1+exp(u) if u is the orientation not used"""
        l = self.lins.get(a)
        if l is None or len(l) != 2 or l.get(()) != 1:
            return None
        (x, c), = [(x, c) for x, c in l.items() if x != ()]
        if c != 1 or len(x) != 1 or x[0][1] != 1:
            return None
        x = x[0][0]
        if x.op == "exp":
            u = x.args[0]
        elif x.op == "pow" and x.args[0].op == "c":
            u = x.args[1]
        else:
            return None
        lu = self.lin(u)
        if not lu or lu[min(lu, key=lambda m: tuple((y.id, e) for y, e in m))] > 0:
            return None
        v = self.out({m: -c for m, c in lu.items()}, "R")
        y = mk("exp", (v,), "R") if x.op == "exp" else mk("pow", (x.args[0], v), "R")
        return self.out({(): Fr(1), ((y, 1),): Fr(1)}, "R")

    def diff(self, a, b):
        l = dict(self.lin(a))
        for m, c in self.lin(b).items():
            l[m] = l.get(m, Fr(0)) - c
        return {m: c for m, c in l.items() if c}

    def cmp(self, op, a, b):
        d = unexp(self.diff(a, b))
        if not d:
            return TRUE if op in ("le", "eq") else FALSE
        if len(d) == 1 and () in d:
            v = d[()]
            return B(v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0)
        lead = d[min(d, key=lambda m: tuple((x.id, e) for x, e in m))]
        if op == "eq":
            return mk("eq0", (self.out({m: c / lead for m, c in d.items()}, a.sort),), "B")
        q = self.out({m: c / abs(lead) for m, c in d.items()}, a.sort)
        return mk(op + "0", (q,), "B")

    def one(self, x, a):
        o = x.op
        if o in ("c", "v", "k"):
            return x
        if any(isinstance(y, T) and special(y) for y in a):
            return mk(o, tuple(a), x.sort)
        s = x.sort
        if s in ("R", "I") and o in ("add", "sub"):
            l = dict(self.lin(a[0]))
            g = 1 if o == "add" else -1
            for m, c in self.lin(a[1]).items():
                l[m] = l.get(m, Fr(0)) + g * c
            return self.out(l, s)
        if s in ("R", "I") and o == "neg":
            return self.out({m: -c for m, c in self.lin(a[0]).items()}, s)
        if o == "mul" and s in ("R", "I"):
            return self.prod([(self.mono(a[0], s), 1), (self.mono(a[1], s), 1)], s)
        if o == "div" and s == "R":
            r = self.prod([(self.mono(a[0], s), 1), (self.mono(a[1], s), -1)], s)
            return r if r is not None else mk(o, tuple(a), s)
        if o == "powi" and s == "R" and isinstance(a[1], int):
            r = self.prod([(self.mono(a[0], s), a[1])], s)
            return r if r is not None else mk(o, tuple(a), s)
        if o in ("max", "min", "and", "or"):
            ys = []
            for y in a:
                ys += y.args if y.op == o else [y]
            ys = sorted(set(ys), key=lambda y: y.id)
            return ys[0] if len(ys) == 1 else mk(o, tuple(ys), s)
        if o in ("lt", "le", "eq") and a[0].sort in ("R", "I") and a[0].sort == a[1].sort:
            return self.cmp(o, a[0], a[1])
        if o == "ite":
            if a[0] is TRUE:
                return a[1]
            if a[0] is FALSE:
                return a[2]
            if a[1] is a[2]:
                return a[1]
        if o == "tof":
            return a[0]
        if o == "not" and a[0].op == "not":
            return a[0].args[0]
        return mk(o, tuple(a), s)


def unexp(d):
    """sign(c exp(u) - c) = sign(c u)"""
    if len(d) == 2 and () in d:
        (m, c), = [(m, c) for m, c in d.items() if m != ()]
        if c == -d[()] and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "exp":
            u = m[0][0].args[0]
            l = CAN[0].lin(u)
            return {x: v * c for x, v in l.items()}
    return d


CAN = [None]


def canon():
    if CAN[0] is None:
        CAN[0] = Canon()
    return CAN[0]


def same(a, b):
    c = canon()
    return c(a) is c(b)
