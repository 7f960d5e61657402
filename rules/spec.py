"""Conformance of every rating system to its published formulas (one property per system)."""
from .reg import prop
from .systems import *
from .cross import games, shapes, team, inputs, crowd, crowds

LN10 = ln(R(10))
PI = None


def pi():
    from vg.std import PI as p
    return p


def logistic10(d, scale):
    """1 / (1 + 10^(-d/scale))"""
    return R(1) / (R(1) + pow_(R(10), -(d) / R(scale)))


def total(xs):
    r = R(0)
    for x in xs:
        r = r + x
    return r


def G(c, v, f="rating"):
    return c.get(v, f)


def heads(c, s, f, what, fields=("rating",), cfgs=None, tol=None, facts=()):
    """compare head-to-head results with f(player, opponent, score, outcome, cfg, seat) -> dict field -> term"""
    with c.group("%s head-to-head" % s.name):
        a, b = inputs(c, s)
        cfg = s.C(c)
        for o in ("WIN", "DRAW", "LOSS"):
            oc = c.outcome(o)
            x, y = s.head(c, a, b, oc, cfg)
            for seat, (p, q, oo, got) in enumerate(((a, b, oc, x), (b, a, c.flip(oc), y))):
                w = f(p, q, c.score(oo), oo, cfg, seat)
                fs = tuple(facts(p, q, cfg)) if callable(facts) else facts
                for k in w:
                    c.eq("%s: %s: player %d's new %s after %s" % (s.name, what, seat + 1, k, o), s.headfn, G(c, got, k), w[k], facts=fs, tol=tol)


def periods(c, s, f, what, base=(0, 1, 2, 3), tol=None, cap=None):
    """compare rating periods with f(player, games, cfg) -> dict field -> term; games [(opp, score, outcome, side)]"""
    for n, uni in shapes(c, s, s.perfn, base=base):
        if cap and n > cap:
            continue
        with c.group("%s period n=%d" % (s.name, n)):
            a, = inputs(c, s, ("a",))
            cfg = s.C(c)
            cases = ["WIN", "DRAW", "LOSS"] if uni else [None]
            for o in cases:
                gs = games(c, s, n, uni, o and c.outcome(o))
                got = s.period(c, a, gs, cfg)
                w = f(a, [(b, c.score(o_), o_, sd) for b, o_, sd in gs], cfg)
                for k in w:
                    c.eq("%s: %s: new %s after a period of %d games" % (s.name, what, k, n), s.perfn, G(c, got, k), w[k], tol=tol)


def expect(c, s, f, what, tol=None):
    with c.group("%s expected" % s.name):
        a, b = inputs(c, s)
        cfg = s.C(c)
        c.eq("%s: %s: expected score" % (s.name, what), s.expfn, s.exp(c, a, b, cfg)[0], f(a, b, cfg), tol=tol)


# ------------------------------------------------------------------ Elo
@prop("C22", "Rule: Elo's expected score is 1/(1+10^((Rb-Ra)/400)), the new rating R + K(S-E); in a period this is applied game by game.")
def c22(c):
    s = SYS["elo"]
    E = lambda x, y: logistic10(x - y, 400)
    expect(c, s, lambda a, b, g: E(G(c, a), G(c, b)), "logistic expectation on the 400 scale")
    heads(c, s, lambda p, q, sc, o, g, seat: {"rating": G(c, p) + G(c, g, "k") * (sc - E(G(c, p), G(c, q)))}, "R + K(S-E)")

    def per(a, gs, g):
        r = G(c, a)
        for b, sc, o, sd in gs:
            r = r + G(c, g, "k") * (sc - E(r, G(c, b)))
        return {"rating": r}
    periods(c, s, per, "R + K(S-E)")


# ------------------------------------------------------------------ FIFA
@prop("C23", "Rule: FIFA/SUM: expected result 1/(10^(-dr/600)+1), new rating P + I(W-We), 0.75/0.5 for a shoot-out, no loss of points in a knockout round.")
def c23(c):
    s = SYS["fifa"]
    E = lambda x, y: logistic10(x - y, 600)
    expect(c, s, lambda a, b, g: E(G(c, a), G(c, b)), "logistic expectation on the 600 scale")

    def upd(r, opp, sc, o, g):
        w = ite(G(c, g, "penalties"), c.ocase(o, R("0.75"), R("0.5"), R("0.5")), sc)
        n = r + G(c, g, "importance") * (w - E(r, opp))
        return ite(G(c, g, "knockout"), max_(r, n), n)
    heads(c, s, lambda p, q, sc, o, g, seat: {"rating": upd(G(c, p), G(c, q), sc, o, g)}, "P + I(W-We)")

    def per(a, gs, g):
        r = G(c, a)
        for b, sc, o, sd in gs:
            r = upd(r, G(c, b), sc, o, sd)
        return {"rating": r}
    periods(c, s, per, "P + I(W-We)", base=(0, 1, 2))


# ------------------------------------------------------------------ Ingo
def step(x, *rules, default):
    """first matching threshold: step(age, (20, 10), (25, 15), default=20)"""
    r = R(default)
    for hi, v in reversed(rules):
        r = ite(le(x, I(hi)), R(v), r)
    return r


@prop("C24", "Rule: Ingo: performance = opponents' average - (100 p - 50), new = (D old + n performance)/(D + n) with D = 10/15/20 by age "
      "(<=20, 21..25, >25); expectation 0.5 + (Rb-Ra)/100; the age is kept.")
def c24(c):
    s = SYS["ingo"]
    expect(c, s, lambda a, b, g: R("0.5") + (G(c, b) - G(c, a)) / R(100), "linear expectation")

    def per(a, gs, g):
        if not gs:
            return {"rating": G(c, a), "age": G(c, a, "age")}
        n = R(len(gs))
        d = step(G(c, a, "age"), (20, 10), (25, 15), default=20)
        perf = total(G(c, b) for b, *_ in gs) / n - (R(100) * (total(x[1] for x in gs) / n) - R(50))
        return {"rating": (d * G(c, a) + n * perf) / (d + n), "age": G(c, a, "age")}
    heads(c, s, lambda p, q, sc, o, g, seat: per(p, [(q, sc, o, None)], g), "performance blend")
    periods(c, s, per, "performance blend")


# ------------------------------------------------------------------ DWZ
@prop("C25", "Rule: DWZ: R + 800/(E+n) (W-We), E from e0 = (R/1000)^4 + J, acceleration a, braking b and the clamps [5, min(30, 5 index)] or "
      "[5, 150]; the index grows by one per evaluation.")
def c25(c):
    s = SYS["dwz"]
    E = lambda x, y: logistic10(x - y, 400)
    expect(c, s, lambda a, b, g: E(G(c, a), G(c, b)), "logistic expectation on the 400 scale")

    def ev(r, age, w, we, idx):
        j = step(age, (20, 5), (25, 10), default=15)
        e0 = powi(r / R(1000), 4) + j
        a = ite(and_(lt(age, I(20)), le(we, w)), r / R(2000), R(1))
        brake = and_(lt(r, R(1300)), le(w, we))
        b = ite(brake, exp((R(1300) - r) / R(150)) - R(1), R(0))
        e = a * e0 + b
        cap = min_(R(30), R(5) * tof(idx))
        return ite(le(e, R(5)), R(5), ite(brake, min_(e, R(150)), min_(e, cap)))

    def per(a, gs, g):
        if not gs:
            return {"rating": G(c, a), "age": G(c, a, "age"), "index": G(c, a, "index")}
        w = total(x[1] for x in gs)
        we = total(E(G(c, a), G(c, x[0])) for x in gs)
        e = ev(G(c, a), G(c, a, "age"), w, we, G(c, a, "index"))
        return {"rating": G(c, a) + R(800) / (e + R(len(gs))) * (w - we), "age": G(c, a, "age"), "index": G(c, a, "index") + I(1)}
    heads(c, s, lambda p, q, sc, o, g, seat: per(p, [(q, sc, o, None)], g), "800/(E+n) (W-We)")
    periods(c, s, per, "800/(E+n) (W-We)")


# ------------------------------------------------------------------ USCF
@prop("C26", "Rule: USCF: up to 8 games the provisional average formula, afterwards K = 800/(Ne+n) with the effective game number and the bonus "
      "max(0, K(S-E) - T sqrt(min(n,4))) from 3 games on; floor 100; games are counted.")
def c26(c):
    s = SYS["uscf"]
    E = lambda x, y: logistic10(x - y, 400)
    expect(c, s, lambda a, b, g: E(G(c, a), G(c, b)), "logistic expectation on the 400 scale")

    def per(a, gs, g):
        r, past = G(c, a), G(c, a, "games")
        if not gs:
            return {"rating": r, "games": past}
        n = len(gs)
        N = R(n)
        pf = tof(past)
        sc, e = total(x[1] for x in gs), total(E(r, G(c, x[0])) for x in gs)
        wl = total(c.ocase(x[2], R(1), R(0), R(-1)) for x in gs)
        prov = (pf * r + total(G(c, x[0]) for x in gs) + R(400) * wl) / (pf + N)
        ne = min_(min_(pf, R(50)), ite(lt(r, R(2355)), R(50) / sqrt(R("0.662") + R("0.00000739") * powi(R(2569) - r, 2)), R(50)))
        k = R(800) / (ne + N)
        gain = k * (sc - e)
        bonus = max_(R(0), gain - G(c, g, "t") * sqrt(R(min(n, 4)))) if n >= 3 else R(0)
        new = ite(le(past, I(8)), prov, r + gain + bonus)
        return {"rating": max_(new, R(100)), "games": past + I(n)}
    heads(c, s, lambda p, q, sc, o, g, seat: per(p, [(q, sc, o, None)], g), "USCF formula")
    periods(c, s, per, "USCF formula")


# ------------------------------------------------------------------ EGF
def egf_beta(r, h):
    return R(-7) * ln(R(3300) - ite(eq(h, R(0)), R(0), R(100) * (h - R("0.5"))) - r)


def egf_exp(c, r, opp, h):
    """handicap h: positive for the opponent (black), negative for the player"""
    h1, h2 = max_(-h, R(0)), max_(h, R(0))
    return R(1) / (R(1) + exp(egf_beta(opp, h2) - egf_beta(r, h1)))


@prop("C27", "Rule: EGF: r' = max(-900, r + con (Sa-Se) + bonus), con = ((3300-r)/200)^1.6, bonus = ln(1+exp((2300-r)/80))/5, "
      "Se = 1/(1+exp(beta(r2)-beta(r1))), beta = -7 ln(3300-r), handicap stones worth 100 (h-0.5); a period adds the single game changes.")
def c27(c):
    s = SYS["egf"]
    expect(c, s, lambda a, b, g: egf_exp(c, G(c, a), G(c, b), G(c, g, "handicap")), "beta expectation")

    def chg(r, opp, sc, h):
        con = pow_((R(3300) - r) / R(200), R("1.6"))
        bonus = ln(R(1) + exp((R(2300) - r) / R(80))) / R(5)
        return con * (sc - egf_exp(c, r, opp, h)) + bonus
    heads(c, s, lambda p, q, sc, o, g, seat: {"rating": max_(R(-900), G(c, p) + chg(G(c, p), G(c, q), sc, G(c, g, "handicap") * R(1 - 2 * seat)))},
          "con (Sa-Se) + bonus")

    def per(a, gs, g):
        r = G(c, a)
        return {"rating": max_(R(-900), r + total(max_(R(-900), r + chg(r, G(c, b), sc, G(c, sd, "handicap"))) - r for b, sc, o, sd in gs))}
    periods(c, s, per, "con (Sa-Se) + bonus", base=(0, 1, 2))


# ------------------------------------------------------------------ Glicko family
def q_():
    return LN10 / R(400)


def gfun(dev):
    return R(1) / sqrt(R(1) + R(3) * q_() * q_() * dev * dev / (pi() * pi()))


def glicko_terms(c, a, gs, adv):
    """[(g, E)] of a player against the games' opponents; adv: rating advantage as white"""
    out = []
    for b, sc, o, sd in gs:
        g = gfun(G(c, b, "deviation"))
        d = G(c, a) - G(c, b)
        if adv is not None:
            d = d + ite(sd, adv, -adv)
        out.append((g, R(1) / (R(1) + pow_(R(10), -(g * d) / R(400))), sc))
    return out


def hyp(a, b):
    return sqrt(a * a + b * b)


def gl_expect(c, adv):
    def f(a, b, g):
        gg = gfun(hyp(G(c, a, "deviation"), G(c, b, "deviation")))
        d = G(c, a) - G(c, b)
        if adv:
            d = d + G(c, g, adv)
        return R(1) / (R(1) + pow_(R(10), -(gg * d) / R(400)))
    return f


@prop("C28", "Rule: Glicko: pre-period RD min(350, sqrt(RD^2+c^2)), g, E, d^2 and the rating and RD updates of Glickman's paper; decay for no games.")
def c28(c):
    s = SYS["glicko"]
    expect(c, s, gl_expect(c, None), "Glicko expectation")

    def per(a, gs, g):
        pre = min_(R(350), hyp(G(c, a, "deviation"), G(c, g, "c")))
        if not gs:
            return {"rating": G(c, a), "deviation": pre}
        t = glicko_terms(c, a, gs, None)
        dinv = q_() * q_() * total(x * x * e * (R(1) - e) for x, e, sc in t)
        den = R(1) / (pre * pre) + dinv
        return {"rating": G(c, a) + q_() / den * total(x * (sc - e) for x, e, sc in t), "deviation": sqrt(R(1) / den)}
    heads(c, s, lambda p, q, sc, o, g, seat: per(p, [(q, sc, o, None)], g), "Glicko update")
    periods(c, s, per, "Glicko update")


@prop("C31", "Rule: Sticko: Glicko with colour advantage gamma, per-game deviation increase h, bonus beta added to every score and lambda/100 times the "
      "difference to the opponents' average; RD at most 350.")
def c31(c):
    s = SYS["sticko"]
    expect(c, s, gl_expect(c, "gamma"), "Sticko expectation")

    def per(a, gs, g):
        pre = min_(R(350), hyp(G(c, a, "deviation"), G(c, g, "c")))
        if not gs:
            return {"rating": G(c, a), "deviation": pre}
        n = R(len(gs))
        t = glicko_terms(c, a, gs, G(c, g, "gamma"))
        dinv = q_() * q_() * total(x * x * e * (R(1) - e) for x, e, sc in t)
        lam = G(c, g, "lambda") / R(100) * (total(G(c, x[0]) for x in gs) / n - G(c, a))
        m = total(x * (sc - e + G(c, g, "beta")) for x, e, sc in t)
        return {"rating": G(c, a) + q_() / (R(1) / (pre * pre) + dinv) * m + lam,
                "deviation": min_(R(350), sqrt(R(1) / (R(1) / (pre * pre + G(c, g, "h") * n) + dinv)))}
    heads(c, s, lambda p, q, sc, o, g, seat: per(p, [(q, sc, o, TRUE if seat == 0 else FALSE)], g), "Sticko update")
    periods(c, s, per, "Sticko update")


@prop("C30", "Rule: Glicko-Boost: colour advantage eta, exceptional results (z > k, k != 0) boost the RD before the update by (1+(z-k)B1) RD + B2, "
      "the end-of-period RD grows by exp(alpha polynomial) and never exceeds 350.")
def c30(c):
    s = SYS["glicko_boost"]
    expect(c, s, gl_expect(c, "eta"), "Glicko-Boost expectation")

    def passage(r, dev, g):
        al = G(c, g, "alpha").v
        x = r / R(1000)
        return min_(R(350), sqrt(dev * dev + exp(al[0] + al[1] * dev + al[2] * dev * x + al[3] * x + al[4] * x * x)))

    def per(a, gs, g):
        dev = G(c, a, "deviation")
        if not gs:
            return {"rating": G(c, a), "deviation": passage(G(c, a), dev, g)}
        t = glicko_terms(c, a, gs, G(c, g, "eta"))
        ds = total(x * x * e * (R(1) - e) for x, e, sc in t)
        dinv = q_() * q_() * ds
        m = total(x * (sc - e) for x, e, sc in t)
        z = m / sqrt(ds)
        k, (b1, b2) = G(c, g, "k"), G(c, g, "b").v
        post = lambda d: sqrt(R(1) / (R(1) / (d * d) + dinv))
        boosted = (R(1) + (z - k) * b1) * post(dev) + b2
        nd = min_(R(350), ite(and_(lt(k, z), not_(eq(k, R(0)))), post(boosted), post(dev)))
        r = G(c, a) + nd * nd * q_() * m
        return {"rating": r, "deviation": passage(r, nd, g)}
    heads(c, s, lambda p, q, sc, o, g, seat: per(p, [(q, sc, o, TRUE if seat == 0 else FALSE)], g), "Glicko-Boost update")
    periods(c, s, per, "Glicko-Boost update", base=(0, 1, 2))


# ------------------------------------------------------------------ Glicko-2
SCALE = R("173.7178")


def g2(dev):
    return R(1) / sqrt(R(1) + R(3) * dev * dev / (pi() * pi()))


@prop("C29", "Rule: Glicko-2: on the 173.7178 scale v, delta, the new deviation 1/sqrt(1/(phi^2+sigma'^2)+1/v) and rating mu + phi'^2 sum g(s-E); the "
      "new volatility sigma' (whatever the root finder) solves Glickman's f within the convergence tolerance; decay for no games.")
def c29(c):
    s = SYS["glicko2"]

    def ex(a, b, g):
        d1, d2 = G(c, a, "deviation") / SCALE, G(c, b, "deviation") / SCALE
        return R(1) / (R(1) + exp(-(g2(hyp(d1, d2)) * (G(c, a) - G(c, b)) / SCALE)))
    expect(c, s, ex, "Glicko-2 expectation")
    from vg.term import lt as lt_

    def check(name, fn, a, gs, g, got):
        mu, phi, sig = (G(c, a) - R(1500)) / SCALE, G(c, a, "deviation") / SCALE, G(c, a, "volatility")
        if not gs:
            c.eq(name + ": rating kept", fn, G(c, got), G(c, a))
            c.eq(name + ": deviation decays by the volatility", fn, G(c, got, "deviation"), min_(R(350), SCALE * hyp(phi, sig)))
            c.eq(name + ": volatility kept", fn, G(c, got, "volatility"), sig)
            return
        t = []
        for b, sc, o, sd in gs:
            x = g2(G(c, b, "deviation") / SCALE)
            e = R(1) / (R(1) + exp(-(x * (mu - (G(c, b) - R(1500)) / SCALE))))
            t.append((x, e, sc))
        vinv = total(x * x * e * (R(1) - e) for x, e, sc in t)
        m = total(x * (sc - e) for x, e, sc in t)
        ns = G(c, got, "volatility")
        nphi = R(1) / sqrt(R(1) / (phi * phi + ns * ns) + vinv)
        c.eq(name + ": new deviation", fn, G(c, got, "deviation"), SCALE * nphi)
        c.eq(name + ": new rating", fn, G(c, got), (mu + nphi * nphi * m) * SCALE + R(1500))
        # volatility: f(ln sigma'^2) = 0 up to the tolerance of the root finder
        v = R(1) / vinv
        A = ln(ns * ns)
        ex_ = ns * ns
        tau, eps = G(c, g, "tau"), G(c, g, "convergence_tolerance")
        d2 = v * v * m * m
        f = ex_ * (d2 - phi * phi - v - ex_) / (R(2) * powi(phi * phi + v + ex_, 2)) - (A - ln(sig * sig)) / (tau * tau)
        # |f'| is below this between the returned point and the other end of the bracket, which is at most eps away
        slope = R(1) / (tau * tau) + R(1) + d2 * ex_ / (R(2) * powi(phi * phi + v + ex_, 2))
        c.le(name + ": the new volatility is the root of f from above", fn, f, slope * eps * R(2))
        c.le(name + ": the new volatility is the root of f from below", fn, -slope * eps * R(2), f)

    with c.group("glicko2 head-to-head"):
        a, b = inputs(c, s)
        cfg = s.C(c)
        for o in ("WIN", "DRAW", "LOSS"):
            oc = c.outcome(o)
            x, y = s.head(c, a, b, oc, cfg)
            check("glicko2: player 1 after %s" % o, s.headfn, a, [(b, c.score(oc), oc, None)], cfg, x)
            check("glicko2: player 2 after %s" % o, s.headfn, b, [(a, c.score(c.flip(oc)), oc, None)], cfg, y)
    for n, uni in shapes(c, s, s.perfn, base=(0, 1, 2)):
        with c.group("glicko2 period n=%d" % n):
            a, = inputs(c, s, ("a",))
            cfg = s.C(c)
            for o in (["WIN", "DRAW"] if uni else [None]):
                gs = games(c, s, n, uni, o and c.outcome(o))
                got = s.period(c, a, gs, cfg)
                check("glicko2: period of %d" % n, s.perfn, a, [(b_, c.score(o_), o_, sd) for b_, o_, sd in gs], cfg, got)


# ------------------------------------------------------------------ Weng-Lin
def wl_update(c, r, sig2, team2, cc, p, sc, omega, delta, tol):
    k = sig2 / team2
    return r + k * omega, sqrt(sig2 * max_(R(1) - k * delta, tol))


def wl_spec(c, teams, ranks, cfg):
    """Bradley-Terry full pair (Weng & Lin, algorithm 1); gamma = sigma_i / c_iq"""
    mu = [total(G(c, p) for p in t) for t in teams]
    s2 = [total(powi(G(c, p, "uncertainty"), 2) for p in t) for t in teams]
    beta, tol = G(c, cfg, "beta"), G(c, cfg, "uncertainty_tolerance")
    out = []
    for i in range(len(teams)):
        om = de = R(0)
        for q in range(len(teams)):
            if q == i:
                continue
            cc = sqrt(s2[i] + s2[q] + R(2) * beta * beta)
            p = R(1) / (R(1) + exp((mu[q] - mu[i]) / cc))
            sc = ranks(i, q)
            om = om + s2[i] / cc * (sc - p)
            de = de + (sqrt(s2[i]) / cc) * (s2[i] / (cc * cc)) * p * (R(1) - p)
        row = []
        for p_ in teams[i]:
            k = powi(G(c, p_, "uncertainty"), 2) / s2[i]
            row.append({"rating": G(c, p_) + k * om,
                        "uncertainty": sqrt(powi(G(c, p_, "uncertainty"), 2) * max_(R(1) - k * de, tol))})
        out.append(row)
    return out


def rank_score(c, ri, rq):
    return ite(lt(ri, rq), R(1), ite(eq(ri, rq), R("0.5"), R(0)))


@prop("C32", "Rule: Weng-Lin (Bradley-Terry full pair): c, p, omega, delta, gamma = sigma/c and the per-player updates, for duels, periods, two teams and "
      "any number of teams; expected scores are the softmax of the team sums over c.")
def c32(c):
    s = SYS["weng_lin"]

    def ex(a, b, g):
        cc = sqrt(R(2) * powi(G(c, g, "beta"), 2) + powi(G(c, a, "uncertainty"), 2) + powi(G(c, b, "uncertainty"), 2))
        return R(1) / (R(1) + exp((G(c, b) - G(c, a)) / cc))
    expect(c, s, ex, "softmax expectation")
    heads(c, s, lambda p, q, sc, o, g, seat: wl_spec(c, [[p], [q]], lambda i, k: sc if i == 0 else R(1) - sc, g)[0][0], "Weng-Lin update")

    def per(a, gs, g):
        r = {"rating": G(c, a), "uncertainty": G(c, a, "uncertainty")}
        for b, sc, o, sd in gs:
            r = wl_spec(c, [[c.put(a, **r)], [b]], lambda i, k: sc if i == 0 else R(1) - sc, g)[0][0]
        return r
    periods(c, s, per, "Weng-Lin update", base=(0, 1, 2), cap=6)
    fn2, fnm = s.headfn + "_two_teams", s.headfn + "_multi_team"
    big = crowds(c, fn2, s.expfn + "_two_teams")
    for n1, n2 in [(1, 1), (2, 1), (1, 3), (2, 2)] + [x for k in big for x in ((k, k), (k, 1))]:
        with c.group("weng_lin teams %d/%d" % (n1, n2)):
            c.dom = s.dom
            t1, t2 = (team if max(n1, n2) < 4 else crowd)(c, s, "p", n1), (team if max(n1, n2) < 4 else crowd)(c, s, "q", n2)
            cfg = s.C(c)
            for o in ("WIN", "DRAW", "LOSS"):
                oc = c.outcome(o)
                got = c.call(fn2, t1, t2, oc, cfg)
                sc = c.score(oc)
                w = wl_spec(c, [t1.v, t2.v], lambda i, k: sc if i == 0 else R(1) - sc, cfg)
                rows(c, "weng_lin: two teams %d/%d after %s" % (n1, n2, o), fn2, got.v, w)
            e = c.call(s.expfn + "_two_teams", t1, t2, cfg)
            softmax(c, "weng_lin: expected score of two teams", s.expfn + "_two_teams", e.v, [t1.v, t2.v], cfg)
    for sizes in [(1, 1), (1, 1, 1), (2, 1), (1, 2, 1), (1, 1, 1, 1)] + [(k, 1, k) for k in crowds(c, fnm, s.expfn + "_multi_team")]:
        with c.group("weng_lin multi-team %s" % (sizes,)):
            c.dom = s.dom
            ts = [(team if max(sizes) < 4 else crowd)(c, s, "t%d" % i, k) for i, k in enumerate(sizes)]
            cfg = s.C(c)
            rk = [var("n:rank%d" % i, "I") for i in range(len(sizes))]
            got = c.call(fnm, Lst([Tup([t, c.rank(k)]) for t, k in zip(ts, rk)]), cfg)
            w = wl_spec(c, [t.v for t in ts], lambda i, q: rank_score(c, rk[i], rk[q]), cfg)
            rows(c, "weng_lin: multi-team %s" % (sizes,), fnm, got.v, w)
            e = c.call(s.expfn + "_multi_team", Lst(ts), cfg)
            softmax(c, "weng_lin: expected score of teams %s" % (sizes,), s.expfn + "_multi_team", e.v, [t.v for t in ts], cfg)


    for k in sorted({5, 6, 8} | set(c.lens(fnm, base=(8,), cap=26, spread=(-1, 0, 1, 2))[1])):
        with c.group("weng_lin %d teams" % k):
            c.dom = s.dom.with_()
            c.dom.prove = False
            ts = [team(c, s, "t%d" % (i if i < 3 else 3), 1) for i in range(k)]
            cfg = s.C(c)
            for rk in (range(k), [(3 * i) % 4 for i in range(k)], [1] * k):
                got = c.call(fnm, Lst([Tup([t, c.rank(r)]) for t, r in zip(ts, rk)]), cfg)
                if len(got.v) != k:
                    c.add("bool", FALSE, None, "weng_lin: %d teams come back as %d" % (k, len(got.v)), fnm)
                    continue
                w = wl_spec(c, [t.v for t in ts], lambda i, q: rank_score(c, I(rk[i]), I(rk[q])), cfg)
                pick = (0, 1, k // 2, k - 1)
                rows(c, "weng_lin: %d teams %s" % (k, "in order" if rk == range(k) else "with ties"), fnm, [got.v[i] for i in pick], [w[i] for i in pick])


def rows(c, name, fn, got, want, tol=None, facts=()):
    for i, (gr, wr) in enumerate(zip(got, want)):
        if len(gr.v) != len(wr):
            c.add("bool", FALSE, None, name + ": %d players instead of %d" % (len(gr.v), len(wr)), fn)
            continue
        if gr.g is not None:
            c.holds(name + ": team %d keeps its %d players" % (i, len(wr)), fn, sized(gr, len(wr)))
        for j, (x, w) in enumerate(zip(gr.v, wr)):
            for k in w:
                c.eq("%s: %s of player %d in team %d" % (name, k, j, i), fn, G(c, x, k), w[k], tol=tol, facts=facts)


def softmax(c, name, fn, got, teams, cfg):
    mu = [total(G(c, p) for p in t) for t in teams]
    cc = sqrt(R(2) * powi(G(c, cfg, "beta"), 2) + total(powi(G(c, p, "uncertainty"), 2) for t in teams for p in t))
    ex = [exp(m / cc) for m in mu]
    for i, g in enumerate(got):
        c.eq("%s [%d]" % (name, i), fn, g, ex[i] / total(ex))


# ------------------------------------------------------------------ TrueSkill
SQRT2 = sqrt(R(2))


def Phi(x):
    return mk("erfc", (-(x) / SQRT2,), "R") / R(2)


def phi_(x):
    return exp(-(x * x) / R(2)) / sqrt(R(2) * pi())


def margin(c, cfg, n):
    """Phi^-1((p+1)/2) sqrt(n) beta"""
    p = G(c, cfg, "draw_probability")
    y = (p + R(1)) / R(2)
    inv = -(SQRT2) * mk("ierfc", (R(2) * y,), "R")
    return inv * sqrt(R(n)) * G(c, cfg, "beta")


def ts_vw(d, m, draw):
    if not draw:
        v = phi_(d - m) / Phi(d - m)
        return v, v * (v + d - m)
    ad = abs_(d)
    den = Phi(m - ad) - Phi(-m - ad)
    v0 = (phi_(-m - ad) - phi_(m - ad)) / den
    v = ite(lt(d, R(0)), -v0, v0)
    w = v0 * v0 + ((m - ad) * phi_(m - ad) - (-m - ad) * phi_(-m - ad)) / den
    return v, w


def ts_spec(c, t1, t2, o, cfg):
    n = len(t1) + len(t2)
    c2 = R(n) * powi(G(c, cfg, "beta"), 2) + total(powi(G(c, p, "uncertainty"), 2) for p in tuple(t1) + tuple(t2))
    cc = sqrt(c2)
    d = total(G(c, p) for p in t1) - total(G(c, p) for p in t2)
    if o == "LOSS":
        d = -d
    v, w = ts_vw(d / cc, margin(c, cfg, n) / cc, o == "DRAW")
    sg = {"WIN": 1, "DRAW": 1, "LOSS": -1}[o]
    out = []
    for k, t in enumerate((t1, t2)):
        row = []
        for p in t:
            var2 = powi(G(c, p, "uncertainty"), 2) + powi(G(c, cfg, "dynamics_factor"), 2)
            row.append({"rating": G(c, p) + R(sg * (1 - 2 * k)) * (var2 / cc) * v, "uncertainty": sqrt(var2 * (R(1) - w * var2 / c2))})
        out.append(row)
    return out, cc, ts_prob(d / cc, margin(c, cfg, n) / cc, o == "DRAW")


def ts_prob(d, m, draw):
    """the probability of what was observed"""
    return Phi(m - abs_(d)) - Phi(-m - abs_(d)) if draw else Phi(d - m)


def ts_near(pr):
    """the result is not so surprising that the normal tail underflows (it is within 21 standard deviations)"""
    return (le(R("1e-100"), pr),)


@prop("C33", "Rule: TrueSkill duels, periods and two-team games: c^2 = n beta^2 + sum sigma^2, draw margin Phi^-1((p+1)/2) sqrt(n) beta, the truncated "
      "Gaussian corrections v and w, variance sigma^2 + tau^2; expected score Phi(d/c). The error function is kept symbolic; the crate's "
      "approximation of it is compared with the exact one separately.")
def c33(c):
    s = SYS["trueskill"]
    fn2 = s.headfn + "_two_teams"

    def ex(a, b, g):
        cc = sqrt(R(2) * powi(G(c, g, "beta"), 2) + powi(G(c, a, "uncertainty"), 2) + powi(G(c, b, "uncertainty"), 2))
        return Phi((G(c, a) - G(c, b)) / cc)
    expect(c, s, ex, "Gaussian expectation")
    for o in ("WIN", "DRAW", "LOSS"):
        with c.group("trueskill duel %s" % o):
            a, b = inputs(c, s)
            cfg = s.C(c)
            x, y = s.head(c, a, b, c.outcome(o), cfg)
            w, cc, pr = ts_spec(c, [a], [b], o, cfg)
            rows(c, "trueskill: duel after %s" % o, s.headfn, [Lst([x]), Lst([y])], w, facts=ts_near(pr))
            p = s.period(c, a, [(b, c.outcome(o), None)], cfg)
            rows(c, "trueskill: period of one %s" % o, s.perfn, [Lst([p])], w[:1], facts=ts_near(pr))
            # far out in the tail v is the distance to the margin and w is one
            c.dom = s.dom.with_((r"beta", 0.05, 5.0), (r"uncertainty$", 0.05, 3.0), (r"dynamics", 0.0, 0.05))
            m = margin(c, cfg, 2)
            sgn = {"WIN": 1, "LOSS": -1, "DRAW": 0}[o]
            for k, fac in ([(1, "player one ahead"), (-1, "player two ahead")] if not sgn else [(-sgn, "upset")]):
                far = (le(R(30) * cc + m, R(k) * (G(c, a) - G(c, b))),)
                # the distance by which the difference lies outside the observed region
                gap = (R(k) * (G(c, a) - G(c, b)) - m) / cc if not sgn else (R(k) * (G(c, a) - G(c, b)) + m) / cc
                for i, (q, old, nm) in enumerate(((x, a, "one"), (y, b, "two"))):
                    var2 = powi(G(c, old, "uncertainty"), 2) + powi(G(c, cfg, "dynamics_factor"), 2)
                    step = R(-k * (1 - 2 * i)) * (G(c, q) - G(c, old))
                    c.le("trueskill: tail correction after %s (%s), player %s, at least" % (o, fac, nm), s.headfn, R("0.99") * var2 / cc * gap, step, facts=far)
                    c.le("trueskill: tail correction after %s (%s), player %s, at most" % (o, fac, nm), s.headfn, step, R("1.01") * var2 / cc * gap, facts=far)
                    c.le("trueskill: tail variance after %s (%s), player %s" % (o, fac, nm), s.headfn,
                         abs_(powi(G(c, q, "uncertainty"), 2) - var2 * (R(1) - var2 / powi(cc, 2))), R("0.01") * var2, facts=far)
            c.dom = s.dom
            for n1, n2 in [(1, 1), (2, 1), (1, 2), (2, 3)] + [(k, k) for k in crowds(c, fn2)]:
                t1, t2 = (team if n1 < 4 else crowd)(c, s, "p", n1), (team if n1 < 4 else crowd)(c, s, "q", n2)
                g = c.call(fn2, t1, t2, c.outcome(o), cfg)
                w, cc, pr = ts_spec(c, t1.v, t2.v, o, cfg)
                rows(c, "trueskill: two teams %d/%d after %s" % (n1, n2, o), fn2, g.v, w, facts=ts_near(pr))
    for n1, n2 in [(1, 1), (2, 1), (2, 3)] + [(k, k) for k in crowds(c, s.expfn + "_two_teams")]:
        with c.group("trueskill team expectation"):
            c.dom = s.dom
            cfg = s.C(c)
            t1, t2 = (team if n1 < 4 else crowd)(c, s, "p", n1), (team if n1 < 4 else crowd)(c, s, "q", n2)
            e = c.call(s.expfn + "_two_teams", t1, t2, cfg)
            n = n1 + n2
            cc = sqrt(R(n) * powi(G(c, cfg, "beta"), 2) + total(powi(G(c, p, "uncertainty"), 2) for p in t1.v + t2.v))
            d = total(G(c, p) for p in t1.v) - total(G(c, p) for p in t2.v)
            c.eq("trueskill: expected score of two teams %d/%d" % (n1, n2), s.expfn + "_two_teams", e.v[0], Phi(d / cc))
            c.eq("trueskill: expected score of two teams %d/%d, other team" % (n1, n2), s.expfn + "_two_teams", e.v[1], R(1) - Phi(d / cc))
    em = s.expfn + "_multi_team"
    for sizes in [(1, 1), (1, 1, 1), (2, 1, 1), (1, 1, 2, 1)] + [(k, k, 1) for k in crowds(c, em)] + [(1,) * k for k in crowds(c, em, base=5, cap=12)]:
        with c.group("trueskill multi-team expectation"):
            c.dom = s.dom
            cfg = s.C(c)
            ts = [(team if max(sizes) < 4 else crowd)(c, s, "t%d" % i, k) for i, k in enumerate(sizes)]
            e = c.call(s.expfn + "_multi_team", Lst(ts), cfg)
            n = sum(sizes)
            b2 = R(n) * powi(G(c, cfg, "beta"), 2)
            mu = [total(G(c, p) for p in t.v) for t in ts]
            s2 = [total(powi(G(c, p, "uncertainty"), 2) for p in t.v) for t in ts]
            sc = [total(Phi((mu[i] - mu[j]) / sqrt(b2 + s2[i] + s2[j])) for j in range(len(ts)) if j != i) for i in range(len(ts))]
            for i in range(len(ts)):
                c.eq("trueskill: expected score of teams %s [%d]" % (sizes, i), s.expfn + "_multi_team", e.v[i], sc[i] / total(sc))
    # the special functions
    with c.group("trueskill error function"):
        c.dom = D((r"^x$", -5.0, 5.0), (r"^y$", 0.001, 1.999), tol=Fr(1, 10**6))
        x, y = var("x", "R"), var("y", "R")
        keep, c.summ = c.summ, {}
        try:
            f = c.call("trueskill::erf::erfc", x)
            fy = c.call("trueskill::erf::inverse_erfc", y)
        finally:
            c.summ = keep
        c.le("trueskill: erfc approximates the complementary error function from above", "trueskill::erf::erfc", f - mk("erfc", (x,), "R"), R("1e-6"))
        c.le("trueskill: erfc approximates the complementary error function from below", "trueskill::erf::erfc", -R("1e-6"), f - mk("erfc", (x,), "R"))
        back = mk("erfc", (fy,), "R")
        c.le("trueskill: inverse_erfc inverts it from above", "trueskill::erf::inverse_erfc", back - y, R("1e-4"))
        c.le("trueskill: inverse_erfc inverts it from below", "trueskill::erf::inverse_erfc", -R("1e-4"), back - y)
