"""Obligations over value graphs and their three-valued decision.

proved    : normal forms coincide / the relation follows in every sign cell / interval analysis of the whole domain
refuted   : interval analysis of a concrete box of inputs shows that EVERY input in the box violates the relation
undecided : neither"""
import os
import time
import numpy as np
from .term import *
from .values import *
from . import norm
from .iv import Iv, IvFail, NANV, npeval

TOL = Fr(1, 10**9)


class Dom:
    """domain of the symbolic inputs: list of (regex on the variable's name, lo, hi[, LO, HI]); [lo, hi] are everyday values on which
    candidate boxes concentrate, [LO, HI] is the domain the obligation is decided on"""

    def __init__(self, rules, default=(-1000.0, 4000.0), ints=(0, 60)):
        import re
        self.rules = [(re.compile(r[0]),) + tuple(r[1:]) for r in rules]
        self.default, self.ints = default, ints

    def with_(self, *rules):
        d = Dom(list(rules) + [(r[0].pattern,) + r[1:] for r in self.rules], self.default, self.ints)
        d.__dict__.update({k: v for k, v in self.__dict__.items() if k not in d.__dict__})
        return d

    def rule(self, t):
        n = t.args[0]
        if n.startswith("e:"):
            return 0, int(n.split(":")[1]) - 1
        for r in self.rules:
            if r[0].search(n):
                return r[1:]
        return self.ints if t.sort == "I" else self.default

    def of(self, t):
        return self.rule(t)[-2:]

    def typ(self, t):
        return self.rule(t)[:2]

    def box(self, vs):
        return {t.args[0]: tuple(map(float, self.of(t))) for t in vs if t.sort != "B"}


def tvars(ts):
    seen = set()
    for t in ts:
        walk(t, seen)
    return sorted([x for x in seen if x.op == "v" and not x.args[0].startswith(("ψ", "φ", "ι"))], key=lambda x: x.args[0])


def viol_eq(a, b, tol=TOL):
    if a.sort == "B":
        return not_(eq(a, b))
    if special(a) or special(b):
        return FALSE if a is b else TRUE
    if a.sort == "I":
        return not_(eq(a, b))
    return lt(mul(R(tol), max_(R(1), max_(abs_(a), abs_(b)))), abs_(sub(a, b)))


def viol_le(a, b, tol=TOL):
    if a.sort == "I":
        return lt(b, a)
    return lt(add(b, mul(R(tol), max_(R(1), max_(abs_(a), abs_(b))))), a)


def canon(t, memo):
    """guarded selections that are minima or maxima of their operands, written as such (real semantics)"""
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a not in memo]
        if todo:
            st.extend(todo)
            continue
        na = [memo[a] if isinstance(a, T) else a for a in x.args]
        y = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x, na)
        if y.op == "ite" and y.sort != "B":
            y = canon_ite(y)
        memo[x] = y
        st.pop()
    return memo[t]


def canon_ite(y):
    c, a, b = y.args
    if c.op in ("lt", "le") and c.args[0].sort == a.sort:
        p, q = c.args
        if a is q and b is p:
            return max_(p, q)
        if a is p and b is q:
            return min_(p, q)
        if a.op == "c" and cv(a) == 0 and b is sub(p, q):
            return max_(a, b)
    if c.op == "and":
        # k && p < q ? q : p
        for i, g in enumerate(c.args):
            if g.op in ("lt", "le") and set((a, b)) == set(g.args):
                rest = and_(*[h for j, h in enumerate(c.args) if j != i])
                return ite(rest, canon_ite(mk("ite", (g, a, b), a.sort)), b)
    if c.op == "or":
        for i, g in enumerate(c.args):
            if g.op in ("lt", "le") and set((a, b)) == set(g.args):
                rest = or_(*[h for j, h in enumerate(c.args) if j != i])
                return ite(rest, a, canon_ite(mk("ite", (g, a, b), a.sort)))
    return y


class Ob:
    __slots__ = ("kind", "a", "b", "name", "where", "facts", "dom", "status", "how", "witness", "note", "t", "tol", "mono")

    def __init__(self, kind, a, b, name, where, dom, facts=(), note=""):
        self.kind, self.a, self.b, self.name, self.where, self.dom = kind, a, b, name, where, dom
        self.facts = tuple(facts)
        self.status = self.how = self.witness = None
        self.note = note
        self.t = 0.0
        self.tol = TOL
        self.mono = None

    def viol(self):
        if self.kind == "eq":
            return viol_eq(self.a, self.b, self.tol)
        if self.kind == "le":
            return viol_le(self.a, self.b, self.tol)
        if self.kind == "fin":
            return TRUE
        return not_(self.a)

    def again(self, k):
        """more candidate boxes for an undecided obligation"""
        t0 = time.time()
        if self.kind == "fin":
            return
        w = search(self, tvars([self.a] + ([self.b] if self.b is not None else []) + list(self.facts)), n=900, rounds=4, salt=k)
        if w:
            self.status, self.how, self.witness = "refuted", "interval analysis of a box", w
        self.t += time.time() - t0

    def decide(self, deep=False):
        t0 = time.time()
        try:
            self.decide_(deep)
        finally:
            self.t = time.time() - t0
        return self.status

    def monotone(self, vs):
        from .mono import direction
        t, x, want = self.mono
        env = {v: (True, True) if v.sort == "B" else tuple(map(float, self.dom.of(v))) for v in tvars([t]) + [x]}
        return direction(t, x, env) in ("c", want)

    def decide_(self, deep):
        if self.kind == "fin":
            return finite(self, deep)
        ts = [self.a] + ([self.b] if self.b is not None else [])
        memo = {}
        a = self.a if special(self.a) else canon(self.a, memo)
        b = self.b if self.b is None or special(self.b) else canon(self.b, memo)
        allv = tvars(ts + list(self.facts))
        box = self.dom.box(allv)
        work = 8000000 if deep else 1200000
        bud = 1500 if deep else 250
        norm.LIMIT[0] = 20.0 if deep else 3.0
        norm.LIMIT[1] = time.monotonic() + (90.0 if deep else 8.0)
        if self.kind == "eq":
            if self.a is self.b:
                self.status, self.how = "proved", "identical value graphs"
                return
            if self.a.sort != "B" and not special(self.a) and not special(self.b):
                from .gvn import same
                if a is b or same(a, b):
                    self.status, self.how = "proved", "same value number modulo associativity and commutativity"
                    return
            # a cheap look first: clear disagreement is not worth a proof attempt
            if self.a.sort != "B":
                fast = search(self, allv, n=200, rounds=0) if getattr(self.dom, 'prove', True) else None
                if not fast and getattr(self.dom, "prove", True):
                    from . import case
                    r, how = case.prove_eq(a, b, box, self.facts, 40.0 if deep else 4.0, 4000 if deep else 600)
                    if r:
                        self.status, self.how = "proved", how
                        return
                    r, how = norm.prove_eq(a, b, box, bud, self.facts, work)
                    if r:
                        self.status, self.how = "proved", how
                        return
            else:
                r, how = norm.prove_bool(or_(and_(a, b), and_(not_(a), not_(b))), box, bud, self.facts, work)
                if r:
                    self.status, self.how = "proved", how
                    return
        else:
            c = le(a, b) if self.kind == "le" else a
            if c is TRUE:
                self.status, self.how = "proved", "trivial"
                return
            if self.mono and self.monotone(allv):
                self.status, self.how = "proved", "dependency-sign analysis"
                return
            if interval_proof(self, c, allv, 400 if deep else 60):
                self.status, self.how = "proved", "interval analysis of the domain"
                return
            from . import order
            env = {v: (True, True) if v.sort == "B" else tuple(map(float, self.dom.of(v))) for v in allv}
            r, how = order.prove(c, self.facts, env, box, 30.0 if deep else 5.0 if getattr(self.dom, "prove", True) else 2.5)
            if r:
                self.status, self.how = "proved", how
                return
            norm.LIMIT[1] = time.monotonic() + (90.0 if deep else 8.0)
            r, how = norm.prove_bool(c, box, bud, self.facts, work)
            if r:
                self.status, self.how = "proved", how
                return
        big = not getattr(self.dom, "prove", True)
        light = getattr(self.dom, "light", False)
        w = search(self, allv, n=3000 if deep else 120 if light else 400 if big else 900, rounds=4 if deep else 0 if light else 1 if big else 2)
        if w:
            self.status, self.how, self.witness = "refuted", "interval analysis of a box", w
            return
        self.status, self.how = "undecided", how if "how" in dir() else ""


def interval_proof(ob, c, vs, budget):
    """whole-domain interval proof with bisection of the exact relation c, not of its tolerant form"""
    goal = and_(not_(c), *ob.facts)
    env = {}
    for t in vs:
        env[t] = (True, True) if t.sort == "B" else tuple(map(float, ob.dom.of(t)))
    todo = [env]
    n = 0
    while todo:
        e = todo.pop()
        n += 1
        if n > budget:
            return False
        try:
            r = Iv(e).ev(goal)
        except (IvFail, OverflowError, ValueError):
            r = (True, True)
        if not r[0]:
            continue
        if not r[1]:
            return False
        # bisect the relatively widest variable; enumerate small discrete ones
        best, bw = None, 1e-3
        for t, x in e.items():
            if t.sort == "B":
                if x == (True, True):
                    best, bw = t, 1e9
                continue
            w = x[1] - x[0]
            if t.sort == "I":
                w = w if w >= 1 else 0
                if t.args[0].startswith("e:") and w:
                    w = 1e8
            else:
                w = w / max(1.0, abs(x[0]), abs(x[1]))
            if w > bw:
                best, bw = t, w
        if best is None:
            return False
        x = e[best]
        if best.sort == "B":
            parts = [(True, False), (False, True)]
        elif best.sort == "I":
            m = float(int((x[0] + x[1]) // 2))
            parts = [(x[0], m), (m + 1, x[1])]
        else:
            m = (x[0] + x[1]) / 2
            parts = [(x[0], m), (m, x[1])]
        for p in parts:
            e2 = dict(e)
            e2[best] = p
            todo.append(e2)
    return True


# ------------------------------------------------------------------ choice of candidate boxes
def harvest(ts):
    cs = set()
    for t in ts:
        for x in walk(t):
            if x.op in ("lt", "le", "eq") and x.args[0].sort != "B":
                for a in x.args:
                    if isc(a):
                        cs.add(float(cv(a)))
            if x.op in ("min", "max", "rem"):
                for a in x.args:
                    if isc(a):
                        cs.add(float(cv(a)))
    return sorted(cs)


def sample(vs, dom, n, rng, consts):
    env = {}
    groups = {}
    tiny = [c for c in consts if 0 < abs(c) < 1e-2]
    far = rng.random(n) < 0.3       # points that leave the everyday ranges
    for t in vs:
        if t.sort == "B":
            env[t] = rng.random(n) < 0.5
            continue
        LO, HI = map(float, dom.of(t))
        lo, hi = map(float, dom.typ(t))
        if (lo, hi) != (LO, HI):
            far1 = far & (rng.random(n) < 0.5)
            x = np.where(far1, draw1(t, LO, HI, n, rng, consts), draw1(t, lo, hi, n, rng, consts))
        else:
            x = draw1(t, lo, hi, n, rng, consts)
        lo, hi = LO, HI
        if t.sort == "I":
            env[t] = x
            continue
        suf = t.args[0].split(".")[-1]
        if suf in groups:
            m = rng.random(n) < 0.12
            x = np.where(m, env[groups[suf]], x)
            if tiny and t.sort == "R":
                # pairs that differ by less than a small constant of the code; around zero, where such differences survive rounding
                m = rng.random(n) < 0.04
                z = rng.random(n) < 0.5
                env[groups[suf]] = np.where(m & z & (LO <= 0) & (HI >= 0), 0.0, env[groups[suf]])
                x = np.where(m, env[groups[suf]] + rng.choice(tiny, n) * rng.random(n) * 0.9, x)
            x = np.clip(x, lo, hi)
        groups[suf] = t
        env[t] = x
    return env


def draw1(t, lo, hi, n, rng, consts):
    if t.sort == "I":
        x = np.floor(lo + (hi - lo + 1) * rng.random(n) ** 2)
        cc = [c for c in consts if lo <= c <= hi and c == int(c)]
        cc = cc + [c + 1 for c in cc if c + 1 <= hi] + [c - 1 for c in cc if c - 1 >= lo]
        if cc:
            m = rng.random(n) < 0.4
            x = np.where(m, rng.choice(cc, n), x)
        return np.clip(x, lo, hi)
    u = rng.random(n)
    x = lo + (hi - lo) * u
    k = rng.random(n)
    if lo > 0:
        lg = np.exp(np.log(lo) + (np.log(hi) - np.log(lo)) * u)
        x = np.where(k < 0.3, lg, x)
    sc = 1.0 if hi - lo > 50 else (0.25 if hi - lo > 2 else 2.0 ** -6)
    x = np.where(k > 0.55, np.round(x / sc) * sc, x)
    x = np.where(k > 0.97, np.where(u < 0.5, lo, hi), x)
    mid = (1000.0, 2000.0) if lo <= 1000 and hi >= 2000 else None
    if mid:
        x = np.where((k > 0.3) & (k < 0.45), mid[0] + (mid[1] - mid[0]) * u, x)
    cc = [c for c in consts if lo <= c <= hi]
    if cc:
        if len(cc) <= 40:
            cc = cc + [(p + q) / 2 for p, q in zip(cc, cc[1:])]
        m = rng.random(n) < 0.08
        x = np.where(m, rng.choice(cc, n), x)
    return np.clip(x, lo, hi)


def guards(ts):
    seen = set()
    for t in ts:
        walk(t, seen)
    gs = [x for x in seen if x.op in ("lt", "le", "eq") and x.args[0].sort != "B"
          and not any(y.args[0].startswith(("ψ", "φ", "ι")) for y in walk(x) if y.op == "v")]
    for x in seen:
        if x.op in ("min", "max"):
            gs.append(lt(x.args[0], x.args[1]))
        if x.op == "abs":
            gs.append(lt(x.args[0], R(0)) if x.sort == "R" else lt(x.args[0], I(0)))
        if x.op in ("floor", "round", "trunc"):
            pass
    gs = [g for g in gs if g.op in ("lt", "le", "eq")]
    return sorted(set(gs), key=lambda t: t.id)


def adjust(env, g, dom, rng, n):
    """move one variable of each point to the boundary of guard g (or just beside it)"""
    vs = [v for v in tvars([g]) if v.sort != "B" and not v.args[0].startswith("e:")]
    en = [v for v in tvars([g]) if v.args[0].startswith("e:")]
    out = dict(env)
    if not vs:
        return out
    v = vs[rng.integers(len(vs))]
    lo, hi = map(float, dom.of(v))
    def gap(y):
        (p, q), _ = npeval([g.args[0], g.args[1]], out | {v: y}, n)
        with np.errstate(all="ignore"):
            return np.where((p > 0) & (q > 0) & logs, np.log(q) - np.log(p), q - p)     # sides of different magnitude: compare the logarithms

    logs = rng.random() < 0.5
    x = env[v]
    for it in range(4):
        h = 1.0 if v.sort == "I" else np.maximum(1e-5 * np.abs(x), 1e-6 * min(hi - lo, 100.0))
        f0, f1 = gap(x), gap(x + h)
        with np.errstate(all="ignore"):
            s = (f1 - f0) / h
            nx = x - f0 / s
        ok = np.isfinite(nx)
        x = np.where(ok, np.clip(nx, lo, hi), x)
    k = rng.random(n)
    if v.sort == "I":
        x = np.round(x) + np.where(k < 0.4, 0, np.where(k < 0.7, 1, -1))
    else:
        step = 10.0 ** (-1 - 8 * rng.random(n)) * (hi - lo)         # beside the boundary, at every scale
        x = np.where(k < 0.3, np.round(x * 1024) / 1024, np.where(k < 0.5, x + step, np.where(k < 0.7, x - step,
                     np.where(k < 0.85, x + (hi - x) * rng.random(n), x - (x - lo) * rng.random(n)))))
    out[v] = np.clip(x, lo, hi)
    return out


def search(ob, vs, n, rounds, salt=0):
    viol = and_(*ob.facts, ob.viol())
    if viol is FALSE:
        return None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = np.random.default_rng(seed * 1000003 + len(vs) + salt * 7919)
    ts = [viol]
    consts = harvest(ts)
    gs = guards([ob.a] + ([ob.b] if ob.b is not None else []) + list(ob.facts))
    if ob.b is not None:
        ga, gb = set(guards([ob.a])), set(guards([ob.b]))
        odd = [g for g in gs if (g in ga) != (g in gb)]
    else:
        odd = gs
    try:
        env = sample(vs, ob.dom, n, rng, consts)
        w = try_points(ob, viol, vs, env, n)
        if w or not gs:
            return w
        for r in range(rounds):
            pool = odd if odd and r % 2 == 0 else gs
            if len(pool) > 24:
                pool = [pool[i] for i in rng.choice(len(pool), 24, replace=False)]
            for g in pool:
                m = min(n, 256)
                e = sample(vs, ob.dom, m, rng, consts)
                e = adjust(e, g, ob.dom, rng, m)
                if r >= 1:
                    g2 = gs[rng.integers(len(gs))]
                    e = adjust(e, g2, ob.dom, rng, m)
                    e = adjust(e, g, ob.dom, rng, m)
                w = try_points(ob, viol, vs, e, m)
                if w:
                    return w
    except IvFail:
        return None
    return None


def nan_points(ob, vs, env, n):
    """boxes on which one side is not a number at all"""
    if ob.kind == "bool" or ob.a.sort != "R":
        return None
    (a, b), _ = npeval([ob.a, ob.b], env, n)
    bad = np.broadcast_to(np.isnan(a), (n,)) != np.broadcast_to(np.isnan(b), (n,))
    for i in np.nonzero(bad)[0][:2]:
        for rel in (1e-6, 0.0):
            e = box_at(ob, vs, env, i, rel)
            try:
                m = Iv(e)
                if any(m.ev(f) != (True, False) for f in ob.facts):
                    continue
                x, y = m.ev(ob.a), m.ev(ob.b)
            except (IvFail, OverflowError, ValueError, ZeroDivisionError):
                continue
            if (x is NANV) != (y is NANV):
                return {"box": {t.args[0]: (e[t] if t.sort != "B" else e[t][0]) for t in vs}, "values": {"lhs": x, "rhs": y}}
    return None


def box_at(ob, vs, env, i, rel):
    e = {}
    for t in vs:
        x = env[t][i]
        if t.sort == "B":
            e[t] = (bool(x), not bool(x))
        elif t.sort == "I":
            e[t] = (float(x), float(x))
        else:
            h = rel * max(1.0, abs(float(x)))
            lo, hi = map(float, ob.dom.of(t))
            e[t] = (max(lo, float(x) - h), min(hi, float(x) + h))
    return e


def try_points(ob, viol, vs, env, n):
    (v,), memo = npeval([viol], env, n)
    v = np.broadcast_to(v, (n,))
    w = nan_points(ob, vs, env, n)
    if w:
        return w
    idx = np.nonzero(v)[0]
    if len(idx) > 12:
        idx = idx[np.linspace(0, len(idx) - 1, 12).astype(int)]
    from .ivmp import IvMP, mpf
    mpleft = 2
    for i in idx:
        for rel in (1e-5, 1e-8, 0.0):
            e = box_at(ob, vs, env, i, rel)
            try:
                r = Iv(e).ev(viol)
            except (IvFail, OverflowError, ValueError, ZeroDivisionError):
                r = (True, True)
            if r != (True, False) and rel == 0.0 and mpleft > 0 and r[0]:
                mpleft -= 1
                h = mpf(2) ** -1400
                try:
                    em = {t: (x if t.sort != "R" else (mpf(x[0]) - h, mpf(x[1]) + h)) for t, x in e.items()}
                    r = IvMP(em).ev(viol)
                except (IvFail, OverflowError, ValueError, ZeroDivisionError):
                    continue
            if r == (True, False):
                wit = {t.args[0]: (e[t] if t.sort != "B" else e[t][0]) for t in vs}
                vals = {}
                try:
                    I2 = Iv(e)
                    vals["lhs"] = I2.ev(ob.a)
                    if ob.b is not None:
                        vals["rhs"] = I2.ev(ob.b)
                except (IvFail, OverflowError):
                    pass
                return {"box": wit, "values": vals}
    return None


# ------------------------------------------------------------------ finiteness under f64 semantics
def finite(ob, deep):
    """no input of the domain makes the f64 result infinite or not a number"""
    from .fx import Fx
    vs = tvars([ob.a] + list(ob.facts))
    t = ob.a

    def look(e):
        m = Fx(e)
        if any(not m.ev(f)[0] for f in ob.facts):
            return "out"
        r = m.ev(t)
        if r[2] == 0 and abs(r[0]) < np.inf and abs(r[1]) < np.inf:
            return "fine"
        if (r[2] == 2 or r[0] == r[1] and np.isinf(r[0])) and all(m.ev(f) == (True, False) for f in ob.facts):
            return "bad"
        return "maybe"

    todo = [{v: (True, True) if v.sort == "B" else tuple(map(float, ob.dom.of(v))) for v in vs}]
    n, budget, why = 0, (3000 if deep else 150) if getattr(ob.dom, "prove", True) else 1, ""
    t0 = time.monotonic()
    while todo:
        e = todo.pop()
        n += 1
        if n > budget or time.monotonic() - t0 > (60 if deep else 6):
            why = "bisection budget"
            break
        try:
            r = look(e)
        except (IvFail, OverflowError, ValueError, ZeroDivisionError) as x:
            r, why = "maybe", str(x)
        if r in ("fine", "out"):
            continue
        best, bw = None, 1e-6
        for v, x in e.items():
            if v.sort == "B":
                w = 1e9 if x == (True, True) else 0
            else:
                w = x[1] - x[0]
                if v.sort == "R":
                    w = w / max(1e-3, abs(x[0]), abs(x[1]))
                elif v.args[0].startswith("e:") and w >= 1:
                    w = 1e8
            if w > bw:
                best, bw = v, w
        if best is None:
            why = why or "a point"
            break
        x = e[best]
        if best.sort == "B":
            parts = [(True, False), (False, True)]
        elif best.sort == "I":
            m = float(int((x[0] + x[1]) // 2))
            parts = [(x[0], m), (m + 1, x[1])]
        else:
            m = (x[0] + x[1]) / 2
            parts = [(x[0], m), (m, x[1])]
        todo += [dict(e, **{}) | {best: q} for q in parts]
    else:
        ob.status, ob.how = "proved", "interval analysis under f64 semantics (overflow, underflow, NaN)"
        return
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = np.random.default_rng(seed * 1000003 + len(vs))
    consts = harvest([t])
    N = 6000 if deep else 1500
    gs = guards([t] + list(ob.facts))

    def points(env, n):
        (v,), _ = npeval([t], env, n)
        idx = np.nonzero(~np.isfinite(np.broadcast_to(v, (n,))))[0]
        if len(idx) > 12:
            idx = idx[np.linspace(0, len(idx) - 1, 12).astype(int)]
        for i in idx:
            for rel in (1e-7, 0.0):
                e = box_at(ob, vs, env, i, rel)
                try:
                    if look(e) == "bad":
                        ob.status, ob.how = "refuted", "interval analysis of a box under f64 semantics"
                        r = Fx(e).ev(t)
                        ob.witness = {"box": {v.args[0]: (e[v] if v.sort != "B" else e[v][0]) for v in vs},
                                      "values": {"lhs": "NaN" if r[2] else r[0]}}
                        return True
                except (IvFail, OverflowError, ValueError, ZeroDivisionError):
                    continue
        return False

    try:
        env = sample(vs, ob.dom, N, rng, consts)
        for v in vs:
            if v.sort == "R":
                lo, hi = map(float, ob.dom.of(v))
                k = rng.random(N)
                env[v] = np.where(k < 0.15, lo, np.where(k < 0.3, hi, env[v]))
        if points(env, N):
            return
        for _ in range(3 if deep else 1):
            pool = gs if len(gs) <= 24 else [gs[i] for i in rng.choice(len(gs), 24, replace=False)]
            for g in pool:
                e = adjust(sample(vs, ob.dom, 200, rng, consts), g, ob.dom, rng, 200)
                if points(e, 200):
                    return
    except IvFail as x:
        why = str(x)
    ob.status, ob.how = "undecided", why
