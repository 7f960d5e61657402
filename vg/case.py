"""Equality (and order) of value graphs by guard cases: the guards of conditionals, minima, maxima and absolute values are decided one by one,
every undecided guard opens two cases; in each case both sides must have the same value number (or the same normal form)."""
import functools
import math
import time
from .term import *
from .gvn import canon
from . import norm
from .iv import Iv, IvFail

INF = float("inf")


class Give(Exception):
    pass


def guardkey(c):
    """canonical guard atom -> (linear key T, constant k, rel): key + k rel 0, leading coefficient of key is 1"""
    C = canon()
    g = C(c)
    if g.op in ("lt0", "le0", "eq0"):
        q = g.args[0]
        l = dict(C.lin(q))
        k = l.pop((), Fr(0))
        if not l:
            return None
        lead = l[min(l, key=lambda m: tuple((x.id, e) for x, e in m))]
        rel = g.op[:2]
        if lead < 0 and rel != "eq":
            rel = {"lt": "gt", "le": "ge"}[rel]
        l = {m: v / lead for m, v in l.items()}
        k = k / lead
        isint = all(len(m) == 1 and m[0][1] == 1 and m[0][0].sort == "I" and v.denominator == 1 for m, v in l.items())
        key = C.out(l, q.sort)
        if isint and rel in ("lt", "gt"):
            # over the integers: strict to non-strict
            if rel == "lt":       # key < -k
                b = Fr(math.ceil(-k) - 1)
                rel, k = "le", -b
            else:
                b = Fr(math.floor(-k) + 1)
                rel, k = "ge", -b
        return key, k, rel
    if g.op == "v" and g.sort == "B":
        return g, None, "b"
    return None


@functools.lru_cache(None)
def intkey(key):
    if key.sort != "I":
        return False
    C = canon()
    return all(len(m) == 1 and m[0][1] == 1 and m[0][0].sort == "I" and v.denominator == 1 for m, v in C.lin(key).items())


class State:
    """known bounds of guard keys: key -> (lo, lo_open, hi, hi_open); truth of boolean variables"""
    __slots__ = ("b", "t")

    def __init__(s, b=None, t=None):
        s.b, s.t = b or {}, t or {}

    def get(s, key):
        return s.b.get(key, (-INF, True, INF, True))

    def decide(s, gk):
        key, k, rel = gk
        if rel == "b":
            return s.t.get(key)
        lo, lop, hi, hop = s.get(key)
        v = -k
        below = hi < v or hi == v and hop          # key < v surely
        above = lo > v or lo == v and lop
        nonab = hi <= v                            # key <= v
        nonbe = lo >= v
        if rel == "lt":
            return True if below else False if nonbe else None
        if rel == "le":
            return True if nonab else False if above else None
        if rel == "gt":
            return True if above else False if nonab else None
        if rel == "ge":
            return True if nonbe else False if below else None
        if rel == "eq":
            if below or above:
                return False
            if lo == hi == v:
                return True
        return None

    def assume(s, gk, truth):
        """new state or None if contradictory"""
        key, k, rel = gk
        if rel == "b":
            if key in s.t and s.t[key] != truth:
                return None
            return State(s.b, {**s.t, key: truth})
        if not truth:
            rel = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne"}[rel]
        lo, lop, hi, hop = s.get(key)
        v = -k
        if intkey(key):
            # over the integers: strict to non-strict
            if rel in ("lt", "le"):
                v, rel = Fr(math.ceil(v) - 1 if rel == "lt" else math.floor(v)), "le"
            elif rel in ("gt", "ge"):
                v, rel = Fr(math.floor(v) + 1 if rel == "gt" else math.ceil(v)), "ge"
        if rel in ("lt", "le", "eq"):
            op = rel == "lt"
            if v < hi or v == hi and op and not hop:
                hi, hop = v, op
        if rel in ("gt", "ge", "eq"):
            op = rel == "gt"
            if v > lo or v == lo and op and not lop:
                lo, lop = v, op
        if rel == "ne":
            if lo == hi == v:
                return None
            if lo == v:
                lop = True
            if hi == v:
                hop = True
        if lo > hi or lo == hi and (lop or hop):
            return None
        return State({**s.b, key: (lo, lop, hi, hop)}, s.t)


class Case:
    def __init__(self, box, deadline, budget=400):
        self.box, self.deadline, self.budget = box or {}, deadline, budget
        self.n = 0
        self.gk = {}

    def env(self, t):
        e = {}
        for x in walk(t):
            if x.op == "v":
                if x.sort == "B":
                    e[x] = (True, True)
                elif x.args[0] in self.box:
                    e[x] = self.box[x.args[0]]
                elif x.args[0].startswith("e:"):
                    e[x] = (0.0, float(int(x.args[0].split(":")[1]) - 1))
                elif x.args[0].startswith("n:"):
                    e[x] = (0.0, INF)
                else:
                    e[x] = (-INF, INF)
        return e

    def key(self, c):
        if c in self.gk:
            return self.gk[c]
        r = None
        if not any(x.op in ("loop", "fold", "sum") for x in walk(c)):
            r = guardkey(c)
            if r is not None and r[2] != "b":
                # decided on the whole domain?
                try:
                    v = Iv(self.env(c)).ev(c)
                    if v == (True, False):
                        r = True
                    elif v == (False, True):
                        r = False
                except (IvFail, OverflowError, ValueError, ZeroDivisionError):
                    pass
        elif c.op == "v":
            r = guardkey(c)
        self.gk[c] = r
        return r

    def dec(self, c, st):
        if c is TRUE or c is FALSE:
            return c is TRUE
        k = self.key(c)
        if k is None or k is True or k is False:
            return k
        return st.decide(k)

    def simp(self, t, st, memo):
        todo = [t]
        while todo:
            x = todo[-1]
            if x in memo:
                todo.pop()
                continue
            if x.op == "ite":
                c = x.args[0]
                if c not in memo:
                    todo.append(c)
                    continue
                c = memo[c]
                if c is TRUE or c is FALSE:
                    y = x.args[1] if c is TRUE else x.args[2]
                    if y not in memo:
                        todo.append(y)
                        continue
                    memo[x] = memo[y]
                    todo.pop()
                    continue
            kids = [a for a in x.args if isinstance(a, T) and a not in memo]
            if kids:
                todo += kids
                continue
            na = [memo[a] if isinstance(a, T) else a for a in x.args]
            y = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x, na)
            if y.op in ("lt", "le", "eq") and y.args[0].sort != "B" or y.op == "v" and y.sort == "B":
                d = self.dec(y, st)
                if d is not None:
                    y = TRUE if d else FALSE
            elif y.op in ("min", "max") and not special(y.args[0]) and not special(y.args[1]):
                d = self.dec(le(y.args[0], y.args[1]), st)
                if d is None and self.dec(le(y.args[1], y.args[0]), st):
                    d = False           # equal operands: either will do
                if d is not None:
                    y = y.args[0] if d == (y.op == "min") else y.args[1]
            elif y.op == "abs":
                z = R(0) if y.sort == "R" else I(0)
                d = self.dec(le(z, y.args[0]), st)
                if d is None and self.dec(le(y.args[0], z), st):
                    d = False
                if d is not None:
                    y = y.args[0] if d else neg(y.args[0])
            memo[x] = y
            todo.pop()
        return memo[t]

    def open(self, ts):
        """undecided guard atoms of ts, innermost and smallest first"""
        out = {}
        for t in ts:
            for x in walk(t):
                cs = []
                if x.op == "ite":
                    st = [x.args[0]]
                    while st:
                        y = st.pop()
                        if y.op in ("and", "or", "not", "ite"):
                            st += [z for z in y.args if isinstance(z, T) and z.sort == "B"]
                        else:
                            cs.append(y)
                elif x.op in ("min", "max"):
                    if not special(x.args[0]) and not special(x.args[1]):
                        cs.append(le(x.args[0], x.args[1]))
                elif x.op == "abs":
                    cs.append(le(R(0) if x.sort == "R" else I(0), x.args[0]))
                for y in cs:
                    k = self.key(y)
                    if k is not None and k is not True and k is not False and y not in out:
                        nest = sum(1 for z in walk(y) if z.op in ("ite", "min", "max", "abs"))
                        out[y] = (nest, norm.dagsize(y), y.id)
        return sorted(out, key=out.get)

    def prove(self, a, b, st, facts, leaf):
        self.n += 1
        if self.n > self.budget or time.monotonic() > self.deadline:
            raise Give("case budget")
        memo = {}
        x, y = self.simp(a, st, memo), self.simp(b, st, memo)
        if leaf == "eq" and canon()(x) is canon()(y):
            return True
        for f in facts:
            if self.simp(f, st, memo) is FALSE:
                return True
        gs = self.open([x, y])
        if not gs:
            return self.leaf(x, y, st, facts, leaf)
        g = gs[0]
        k = self.key(g)
        for truth in (True, False):
            s2 = st.assume(k, truth)
            if s2 is not None and not self.prove(x, y, s2, tuple(facts) + ((g if truth else not_(g)),), leaf):
                return False
        return True

    def leaf(self, x, y, st, facts, leaf):
        if leaf == "eq":
            norm.start(300000)
            try:
                r, how = norm.lazy_cells(x, y, self.box, 6, [f for f in facts])
                return r
            except (norm.OutOfTime, norm.TooBig):
                return False
        c = le(x, y)
        if c is TRUE:
            return True
        return leaf(x, y, st, facts, self)


def prove_eq(a, b, box, facts=(), seconds=4.0, budget=400):
    cs = Case(box, time.monotonic() + seconds, budget)
    st = State()
    try:
        for f in facts:
            k = cs.key(f)
            if isinstance(k, tuple):
                st = st.assume(k, True)
                if st is None:
                    return True, "contradictory facts"
        r = cs.prove(a, b, st, tuple(facts), "eq")
        return r, "%d guard cases" % cs.n
    except (Give, RecursionError, NotImplementedError) as e:
        return False, str(e)
