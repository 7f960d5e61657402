"""Constructors, conversions, counters, bounds and small helper functions."""
from .reg import prop
from .systems import *
from .cross import games, shapes, team, inputs
from .spec import G, total, hyp, step

X = var("x", "R")
U = var("u", "R")
N = var("n:a", "I")
WIDE = D((r"^n:", 0, 150), default=(-5000.0, 5000.0))


def default(c, adt, facts=()):
    return c.method("std::default::Default", adt, "default")


def want(ctx, name, fn, v, **kw):
    for k, w in kw.items():
        ctx.eq("%s: %s" % (name, k), fn, ctx.get(v, k), w if not isinstance(w, (int, str)) else R(w))


# ------------------------------------------------------------------ C12
RAT = {  # documented starting values
    "elo": dict(rating=1000), "fifa": dict(rating=1000), "egf": dict(rating=0),
    "ingo": dict(rating=230, age=I(26)), "dwz": dict(rating=1000, index=I(1), age=I(26)), "uscf": dict(rating=1300, games=I(0)),
    "glicko": dict(rating=1500, deviation=350), "glicko2": dict(rating=1500, deviation=350, volatility="0.06"),
    "glicko_boost": dict(rating=1500, deviation=350), "sticko": dict(rating=1500, deviation=350),
    "weng_lin": dict(rating=25, uncertainty=R(25) / R(3)), "trueskill": dict(rating=25, uncertainty=R(25) / R(3)),
}
CFG = {
    "elo": dict(k=32), "fifa": dict(importance=10, knockout=FALSE, penalties=FALSE), "egf": dict(handicap=0), "uscf": dict(t=14),
    "glicko": dict(c="63.2"), "glicko2": dict(tau="0.5", convergence_tolerance="0.000001"),
    "glicko_boost": dict(eta=30, k="1.96", b=Tup([R("0.20139"), R("17.5")]),
                         alpha=Tup([R("5.83733"), R("-1.75374e-04"), R("-7.080124e-05"), R("0.001733792"), R("0.00026706")])),
    "sticko": dict(h=10, beta=0, **{"lambda": 2}, gamma=0, c=10),
    "weng_lin": dict(beta=R(25) / R(6), uncertainty_tolerance="0.000001"),
    "trueskill": dict(draw_probability="0.1", beta=R(25) / R(6), dynamics_factor=R(25) / R(300)),
}


@prop("C12", "Rule: new(), default() and Rating::new(None, None) yield the documented starting values, Rating::new(Some(r), Some(u)) keeps what is given, "
      "rating() and uncertainty() return the stored values, configurations start with the documented constants, "
      "USCFRating::new follows the documented age table, outcomes are worth 1, 0.5 and 0, ranks are kept.")
def c12(c):
    c.dom = WIDE
    for s in PAIR:
        adt = s.rating
        newfn = adt + "::new"
        w = RAT[s.name]
        with c.group(s.name + " default"):
            want(c, "%s: default rating" % s.name, newfn, default(c, adt), **w)
        with c.group(s.name + " new"):
            if s.name in ("ingo", "dwz"):
                want(c, "%s: new(age)" % s.name, newfn, c.call(newfn, N), **dict(w, age=N))
            elif s.name == "uscf":
                v = c.call(newfn, N)
                want(c, "uscf: new(age)", newfn, v, games=I(0),
                     rating=ite(lt(N, I(2)), R(100), ite(le(I(26), N), R(1300), tof(N) * R(50))))
            else:
                want(c, "%s: new()" % s.name, newfn, c.call(newfn), **w)
        for r in (None, X):
            for u in (None, U):
                with c.group(s.name + " Rating::new"):
                    v = c.method("Rating", adt, "new", some(r) if r is not None else c.none(), some(u) if u is not None else c.none())
                    ww = dict(w)
                    if r is not None:
                        ww["rating"] = X
                    if u is not None and s.unc:
                        ww[s.unc] = U
                    want(c, "%s: Rating::new(%s, %s)" % (s.name, "rating" if r is not None else "None", "uncertainty" if u is not None else "None"), newfn, v, **ww)
        with c.group(s.name + " accessors"):
            a = s.R(c, "a")
            c.eq("%s: rating() is the rating" % s.name, newfn, c.method("Rating", adt, "rating", a), G(c, a))
            c.eq("%s: uncertainty() is the %s" % (s.name, s.unc), newfn, c.method("Rating", adt, "uncertainty", a),
                 some(G(c, a, s.unc)) if s.unc else c.none())
        if s.config:
            with c.group(s.name + " config"):
                want(c, "%s: config new()" % s.name, s.config + "::new", c.call(s.config + "::new"), **CFG[s.name])
                want(c, "%s: default config" % s.name, s.config + "::new", default(c, s.config), **CFG[s.name])
    with c.group("outcomes"):
        o = c.outcome("o")
        c.eq("an outcome is worth 1, 0.5 or 0 points", "Outcomes::to_chess_points", c.call("Outcomes::to_chess_points", o), c.score(o))
    c.dom = D((r"^n:", 0, 50, 0, 2 ** 53), default=(-5000.0, 5000.0))
    with c.group("ranks"):
        r = c.call("MultiTeamOutcome::new", N)
        c.eq("MultiTeamOutcome keeps the rank", "MultiTeamOutcome::new", c.call("MultiTeamOutcome::rank", r), N)
        c.eq("From<usize> is new", "MultiTeamOutcome::new", c.from_("MultiTeamOutcome", "usize", N), r)
        c.eq("usize::from gives the rank back", "MultiTeamOutcome::new", c.callb(c.p.fn("<impl std::convert::From<MultiTeamOutcome> for usize>::from"), (r,)), N)


# ------------------------------------------------------------------ C13
@prop("C13", "Rule: the conversions between rating types follow the documented formulas and conversions in both directions are inverse to each other; "
      "tuples become the rating with these fields.")
def c13(c):
    c.dom = WIDE
    E = "elo::EloRating"
    fn = lambda d, s_: "<%s as std::convert::From<%s>>::from" % (d, s_)

    def conv(dst, src, v, what, **kw):
        with c.group("%s -> %s" % (src, dst)):
            want(c, "%s -> %s %s" % (src.split("::")[-1], dst.split("::")[-1], what), fn(dst, src), c.from_(dst, src, v), **kw)

    S_ = lambda n, nm="a": SYS[n].R(c, nm)
    elo = S_("elo")
    r = G(c, elo)
    conv(E, "ingo::IngoRating", S_("ingo"), "2840 - 8 i", rating=R(2840) - R(8) * G(c, S_("ingo")))
    conv("ingo::IngoRating", E, elo, "355 - e/8", rating=R(355) - r / R(8), age=I(26))
    conv(E, "dwz::DWZRating", S_("dwz"), "unchanged", rating=G(c, S_("dwz")))
    conv("dwz::DWZRating", E, elo, "unchanged, index 6", rating=r, index=I(6), age=I(26))
    conv(E, "fifa::FifaRating", S_("fifa"), "unchanged", rating=G(c, S_("fifa")))
    conv("fifa::FifaRating", E, elo, "unchanged", rating=r)
    u = G(c, S_("uscf"))
    conv(E, "uscf::USCFRating", S_("uscf"), "by the 2060 table", rating=ite(lt(R(2060), u), (u - R(180)) / R("0.94"), (u - R(20)) / R("1.02")))
    conv("uscf::USCFRating", E, elo, "by the 2000 table", rating=ite(lt(R(2000), r), R("0.94") * r + R(180), R("1.02") * r + R(20)),
         games=ite(lt(R(2000), r), I(10), I(5)))
    for n in ("ingo", "dwz", "fifa", "uscf"):
        with c.group("round trip " + n):
            t = SYS[n].rating
            back = c.from_(E, t, c.from_(t, E, elo))
            c.eq("EloRating -> %s -> EloRating is the identity" % t.split("::")[-1], fn(E, t), G(c, back), r)
            a = S_(n)
            b = c.from_(t, E, c.from_(E, t, a))
            c.eq("%s -> EloRating -> %s keeps the rating" % (t.split("::")[-1], t.split("::")[-1]), fn(t, E), G(c, b), G(c, a))
    fam = ("glicko", "glicko2", "glicko_boost", "sticko")
    for x in fam:
        for y in fam:
            if x != y:
                a = S_(x)
                kw = dict(rating=G(c, a), deviation=G(c, a, "deviation"))
                if y == "glicko2":
                    kw["volatility"] = "0.06"
                conv(SYS[y].rating, SYS[x].rating, a, "keeps rating and deviation", **kw)
    for x, y in (("weng_lin", "trueskill"), ("trueskill", "weng_lin")):
        a = S_(x)
        conv(SYS[y].rating, SYS[x].rating, a, "keeps rating and uncertainty", rating=G(c, a), uncertainty=G(c, a, "uncertainty"))
    N2 = var("n:b", "I")
    Y, Z = var("y", "R"), var("z", "R")
    for n in ("elo", "fifa", "egf"):
        conv(SYS[n].rating, "f64", X, "takes the number", rating=X)
    conv(SYS["ingo"].rating, "f64", X, "takes the number", rating=X, age=I(26))
    conv(SYS["ingo"].rating, "(f64, usize)", Tup([X, N]), "takes rating and age", rating=X, age=N)
    conv(SYS["dwz"].rating, "(f64, usize)", Tup([X, N]), "takes rating and index", rating=X, index=N, age=I(26))
    conv(SYS["dwz"].rating, "(f64, usize, usize)", Tup([X, N, N2]), "takes rating, index and age", rating=X, index=N, age=N2)
    conv(SYS["uscf"].rating, "(f64, usize)", Tup([X, N]), "takes rating and games", rating=X, games=N)
    for n in ("glicko", "glicko_boost", "sticko"):
        conv(SYS[n].rating, "(f64, f64)", Tup([X, Y]), "takes rating and deviation", rating=X, deviation=Y)
    conv(SYS["glicko2"].rating, "(f64, f64, f64)", Tup([X, Y, Z]), "takes rating, deviation and volatility", rating=X, deviation=Y, volatility=Z)
    for n in ("weng_lin", "trueskill"):
        conv(SYS[n].rating, "(f64, f64)", Tup([X, Y]), "takes rating and uncertainty", rating=X, uncertainty=Y)


# ------------------------------------------------------------------ C14
@prop("C14", "Rule: games and evaluations are counted exactly: USCF games grow by the number of results, the DWZ index by one per evaluated event; "
      "ages never change.")
def c14(c):
    for n in ("uscf", "dwz", "ingo"):
        s = SYS[n]
        cnt = {"uscf": ("games",), "dwz": ("index", "age"), "ingo": ("age",)}[n]
        with c.group(n):
            a, b = inputs(c, s)
            c.dom = s.dom.with_((r"games|index|age", 0, 60, 0, 2 ** 40))
            cfg = s.C(c)
            x, y = s.head(c, a, b, c.outcome("o"), cfg)
            for f in cnt:
                for i, (p, q) in enumerate(((a, x), (b, y))):
                    c.eq("%s: a game %s player %d's %s" % (n, "keeps" if f == "age" else "adds one to", i + 1, f), s.headfn, G(c, q, f),
                         G(c, p, f) + I(0 if f == "age" else 1))
        for k, uni in shapes(c, s, s.perfn, base=(0, 1, 2, 3, 4, 5)):
            with c.group("%s n=%d" % (n, k)):
                a, = inputs(c, s, ("a",))
                c.dom = s.dom.with_((r"games|index|age", 0, 60, 0, 2 ** 40))
                p = s.period(c, a, games(c, s, k, uni), s.C(c))
                for f in cnt:
                    d = 0 if f == "age" else (k if f == "games" else min(k, 1))
                    c.eq("%s: a period of %d games adds %d to the %s" % (n, k, d, f), s.perfn, G(c, p, f), G(c, a, f) + I(d))


# ------------------------------------------------------------------ C07
@prop("C07", "Rule: USCF ratings never fall below 100, EGF ratings never below -900; deviations of the Glicko family never exceed 350 where the system caps "
      "them (Glicko, Glicko-Boost, Sticko after any period, all four after inactivity), for every rating, config, result list.")
def c07(c):
    for n, lo in (("uscf", 100), ("egf", -900)):
        s = SYS[n]
        with c.group(n):
            a, b = inputs(c, s)
            if n == "uscf":
                c.dom = D((r"\.rating$", 0.0, 4000.0), (r"\.t$", 1.0, 60.0), (r"games", 0, 60))
            cfg = s.C(c)
            for o in ("WIN", "DRAW", "LOSS"):
                for i, v in enumerate(s.head(c, a, b, c.outcome(o), cfg)):
                    c.le("%s: player %d stays at or above %d after %s" % (n, i + 1, lo, o), s.headfn, R(lo), G(c, v))
            for k, uni in shapes(c, s, s.perfn, base=(1, 2, 3)):
                p = s.period(c, a, games(c, s, k, uni), cfg)
                c.le("%s: a player stays at or above %d after a period of %d" % (n, lo, k), s.perfn, R(lo), G(c, p))
    for n in ("glicko", "glicko_boost", "sticko"):
        s = SYS[n]
        with c.group(n):
            a, b = inputs(c, s)
            c.dom = s.dom.with_((r"deviation", 1.0, 600.0, 0.01, 1000.0))
            cfg = s.C(c)
            for i, v in enumerate(s.head(c, a, b, c.outcome("o"), cfg)):
                c.le("%s: player %d's deviation stays at or below 350" % (n, i + 1), s.headfn, G(c, v, "deviation"), R(350))
            for k, uni in shapes(c, s, s.perfn, base=(0, 1, 2)):
                p = s.period(c, a, games(c, s, k, uni), cfg)
                c.le("%s: the deviation stays at or below 350 after a period of %d" % (n, k), s.perfn, G(c, p, "deviation"), R(350))
    with c.group("glicko2"):
        s = SYS["glicko2"]
        a, = inputs(c, s, ("a",))
        c.dom = s.dom.with_((r"deviation", 1.0, 600.0, 0.01, 1000.0))
        c.le("glicko2: the deviation of an inactive player stays at or below 350", s.mod + "::decay_deviation",
             G(c, c.call(s.mod + "::decay_deviation", a), "deviation"), R(350))


# ------------------------------------------------------------------ C08
@prop("C08", "Rule: after games the uncertainty is positive and at most the previous one after the system's own growth for the period "
      "(Glicko: min(350, hypot(RD, c)); Glicko-2: hypot(phi, sigma'); Sticko: plus h per game; Weng-Lin: none; TrueSkill: plus tau^2).")
def c08(c):
    def dom(s):
        # tau above sqrt(2) beta is exempt
        return s.dom.with_((r"dynamics", 0.0, 0.5)) if s.name == "trueskill" else s.dom

    def bound(s, a, cfg, n, new):
        d = G(c, a, s.unc)
        if s.name == "glicko":
            return min_(R(350), hyp(d, G(c, cfg, "c")))
        if s.name == "sticko":
            pre = min_(R(350), hyp(d, G(c, cfg, "c")))
            return sqrt(pre * pre + G(c, cfg, "h") * R(n))
        if s.name == "glicko2":
            return R("173.7178") * hyp(d / R("173.7178"), G(c, new, "volatility"))
        if s.name == "weng_lin":
            return d
        if s.name == "trueskill":
            return sqrt(d * d + R(n) * powi(G(c, cfg, "dynamics_factor"), 2))
        return R(350)
    for s in PAIR:
        if not s.unc:
            continue
        with c.group(s.name):
            a, b = inputs(c, s)
            c.dom = dom(s)
            cfg = s.C(c)
            for o in ("WIN", "DRAW", "LOSS"):
                for i, (p, v) in enumerate(zip((a, b), s.head(c, a, b, c.outcome(o), cfg))):
                    u = G(c, v, s.unc)
                    c.le("%s: player %d is not less certain after %s" % (s.name, i + 1, o), s.headfn, u, bound(s, p, cfg, 1, v))
                    c.holds("%s: player %d's uncertainty stays positive after %s" % (s.name, i + 1, o), s.headfn, lt(R(0), u))
            if s.name == "glicko2":
                for i, v in enumerate(s.head(c, a, b, c.outcome("o"), cfg)):
                    c.holds("glicko2: player %d's volatility stays positive" % (i + 1), s.headfn, lt(R(0), G(c, v, "volatility")))
        for k, uni in shapes(c, s, s.perfn, base=(1, 2)):
            if k > 6 and s.name in SEQ:
                continue
            with c.group("%s n=%d" % (s.name, k)):
                a, = inputs(c, s, ("a",))
                c.dom = dom(s)
                cfg = s.C(c)
                v = s.period(c, a, games(c, s, k, uni), cfg)
                c.le("%s: nobody is less certain after a period of %d" % (s.name, k), s.perfn, G(c, v, s.unc), bound(s, a, cfg, k, v))
                c.holds("%s: the uncertainty stays positive after a period of %d" % (s.name, k), s.perfn, lt(R(0), G(c, v, s.unc)))
    for s in (SYS["weng_lin"], SYS["trueskill"]):
        with c.group(s.name + " teams"):
            c.dom = dom(s)
            cfg = s.C(c)
            t1, t2 = team(c, s, "p", 2), team(c, s, "q", 1)
            for o in ("WIN", "DRAW", "LOSS"):
                g = c.call(s.headfn + "_two_teams", t1, t2, c.outcome(o), cfg)
                for t, r in zip((t1, t2), g.v):
                    for p, v in zip(t.v, r.v):
                        c.le("%s: no team player is less certain after %s" % (s.name, o), s.headfn + "_two_teams", G(c, v, s.unc), bound(s, p, cfg, 1, v))
                        c.holds("%s: a team player's uncertainty stays positive after %s" % (s.name, o), s.headfn + "_two_teams", lt(R(0), G(c, v, s.unc)))
    s = SYS["weng_lin"]
    for k in [5, 8, 12] + c.lens(s.headfn + "_multi_team", base=(12,), cap=26)[1] + [24]:
        with c.group("weng_lin %d teams" % k):
            c.dom = s.dom
            c.dom = s.dom.with_()
            c.dom.prove = False
            cfg = s.C(c)
            ts = [team(c, s, "t%d" % (i if i < 3 else 3), 1) for i in range(k)]
            for ranks in (range(k), [0] * k):
                g = c.call(s.headfn + "_multi_team", Lst([Tup([t, c.rank(r)]) for t, r in zip(ts, ranks)]), cfg)
                for t, r in zip(ts[:4] + ts[-1:], g.v[:4] + g.v[-1:]):
                    for p, v in zip(t.v, r.v):
                        c.le("weng_lin: no player is less certain after a game of %d teams" % k, s.headfn + "_multi_team", G(c, v, s.unc), G(c, p, s.unc))
                        c.holds("weng_lin: uncertainty stays positive after a game of %d teams" % k, s.headfn + "_multi_team", lt(R(0), G(c, v, s.unc)))
    with c.group("weng_lin multi"):
        s = SYS["weng_lin"]
        c.dom = s.dom
        cfg = s.C(c)
        ts = [team(c, s, "t%d" % i, k) for i, k in enumerate((1, 2, 1))]
        g = c.call(s.headfn + "_multi_team", Lst([Tup([t, c.rank(var("n:rank%d" % i, "I"))]) for i, t in enumerate(ts)]), cfg)
        for t, r in zip(ts, g.v):
            for p, v in zip(t.v, r.v):
                c.le("weng_lin: no player is less certain after a multi-team game", s.headfn + "_multi_team", G(c, v, s.unc), G(c, p, s.unc))
                c.holds("weng_lin: uncertainty stays positive after a multi-team game", s.headfn + "_multi_team", lt(R(0), G(c, v, s.unc)))


# ------------------------------------------------------------------ C10
@prop("C10", "Rule: what one side gains the other loses: exactly for Elo and FIFA (neither knockout nor shoot-out), for Glicko, Glicko-2 and Sticko "
      "(no bonus) between players of equal deviation, weighted by the variances for Weng-Lin and TrueSkill.")
def c10(c):
    for n in ("elo", "fifa", "glicko", "glicko2", "sticko", "weng_lin", "trueskill"):
        s = SYS[n]
        with c.group(n):
            a, b = inputs(c, s)
            ov = {"fifa": dict(knockout=FALSE, penalties=FALSE), "sticko": dict(beta=R(0))}.get(n, {})
            cfg = s.C(c, **ov)
            if n in ("glicko", "sticko", "glicko2"):
                b = c.put(b, deviation=G(c, a, "deviation"))
            if n == "glicko2":
                b = c.put(b, volatility=G(c, a, "volatility"))
            if n == "sticko":
                cfg = c.put(cfg, gamma=R(0))
            for o in ("WIN", "DRAW", "LOSS"):
                x, y = s.head(c, a, b, c.outcome(o), cfg)
                dx, dy = G(c, x) - G(c, a), G(c, y) - G(c, b)
                if n in ("weng_lin", "trueskill"):
                    t = R(0) if n == "weng_lin" else powi(G(c, cfg, "dynamics_factor"), 2)
                    dx = dx * (powi(G(c, b, "uncertainty"), 2) + t)
                    dy = dy * (powi(G(c, a, "uncertainty"), 2) + t)
                c.eq("%s: one player's gain is the other's loss after %s" % (n, o), s.headfn, dx, -dy)
    for s in (SYS["weng_lin"], SYS["trueskill"]):
        for n1, n2 in ((2, 1), (2, 2)):
            with c.group(s.name + " teams"):
                c.dom = s.dom
                cfg = s.C(c)
                t1, t2 = team(c, s, "p", n1), team(c, s, "q", n2)
                t = R(0) if s.name == "weng_lin" else powi(G(c, cfg, "dynamics_factor"), 2)
                for o in ("WIN", "DRAW", "LOSS"):
                    g = c.call(s.headfn + "_two_teams", t1, t2, c.outcome(o), cfg)
                    ps = [(p, v, 1) for p, v in zip(t1.v, g.v[0].v)] + [(p, v, -1) for p, v in zip(t2.v, g.v[1].v)]
                    p0, v0, _ = ps[0]
                    for k, (p, v, sg) in enumerate(ps[1:]):
                        c.eq("%s: the points of a team game are shared in proportion to the variances after %s" % (s.name, o), s.headfn + "_two_teams",
                             (G(c, v0) - G(c, p0)) * (powi(G(c, p, "uncertainty"), 2) + t) * R(sg),
                             (G(c, v) - G(c, p)) * (powi(G(c, p0, "uncertainty"), 2) + t))


# ------------------------------------------------------------------ C11
@prop("C11", "Rule: FIFA: in a knockout match nobody loses points; a shoot-out winner scores 0.75 and the loser 0.5, whichever side wins; a draw is a draw "
      "with or without the flag; the importance scales every change linearly.")
def c11(c):
    s = SYS["fifa"]
    a, b = inputs(c, s)
    for o in ("WIN", "DRAW", "LOSS"):
        with c.group("fifa " + o):
            oc = c.outcome(o)
            cfg = s.C(c)
            ko = c.put(cfg, knockout=TRUE)
            for i, (p, v) in enumerate(zip((a, b), s.head(c, a, b, oc, ko))):
                c.le("fifa: team %d loses no points in a knockout match after %s" % (i + 1, o), s.headfn, G(c, p), G(c, v))
            pen, nop = c.put(cfg, knockout=FALSE, penalties=TRUE), c.put(cfg, knockout=FALSE, penalties=FALSE)
            x, y = s.head(c, a, b, oc, pen)
            e1, e2 = s.exp(c, a, b, cfg)
            im = G(c, cfg, "importance")
            sc = {"WIN": ("0.75", "0.5"), "DRAW": ("0.5", "0.5"), "LOSS": ("0.5", "0.75")}[o]
            c.eq("fifa: team 1 scores %s after a shoot-out %s" % (sc[0], o), s.headfn, G(c, x), G(c, a) + im * (R(sc[0]) - e1))
            c.eq("fifa: team 2 scores %s after a shoot-out %s" % (sc[1], o), s.headfn, G(c, y), G(c, b) + im * (R(sc[1]) - e2))
            if o == "DRAW":
                c.eq("fifa: a draw ignores the shoot-out flag", s.headfn, Tup([x, y]), Tup(s.head(c, a, b, oc, nop)))
            for kk, pp in ((FALSE, TRUE), (TRUE, TRUE), (TRUE, FALSE), (FALSE, FALSE)):
                g1 = c.put(cfg, knockout=kk, penalties=pp)
                w = sc[0] if pp is TRUE else {"WIN": "1", "DRAW": "0.5", "LOSS": "0"}[o]
                dv = im * (R(w) - e1)
                if kk is TRUE:
                    dv = max_(R(0), dv)
                c.eq("fifa: a period scores %s after %s%s%s" % (w, "a shoot-out " if pp is TRUE else "", "a knockout " if kk is TRUE else "", o), s.perfn,
                     G(c, s.period(c, a, [(b, oc, g1)], None)), G(c, a) + dv)
                d_, g0 = s.R(c, "d"), c.put(s.C(c, "cfg2"), knockout=FALSE, penalties=FALSE)
                mid = s.head(c, a, d_, c.outcome("LOSS"), g0)[0]
                c.eq("fifa: later in a period %s%s%s counts like a single match" % ("a shoot-out " if pp is TRUE else "", "a knockout " if kk is TRUE else "", o),
                     s.perfn, G(c, s.period(c, a, [(d_, c.outcome("LOSS"), g0), (b, oc, g1)], None)), G(c, s.head(c, mid, b, oc, g1)[0]))
            p = s.period(c, a, [(b, oc, ko), (s.R(c, "d"), c.outcome("o2"), c.put(s.C(c, "cfg2"), knockout=TRUE))], None)
            c.le("fifa: a period of knockout matches loses no points (%s)" % o, s.perfn, G(c, a), G(c, p))
            for kk in (FALSE, TRUE):
                g1, g2 = c.put(cfg, knockout=kk), c.put(cfg, knockout=kk, importance=im * R(2))
                u, v = s.head(c, a, b, oc, g1)[0], s.head(c, a, b, oc, g2)[0]
                c.eq("fifa: doubling the importance doubles the change after %s" % o, s.headfn, (G(c, v) - G(c, a)), R(2) * (G(c, u) - G(c, a)))


# ------------------------------------------------------------------ C17
TABLE = [-728, -614, -555, -513, -480, -453, -429, -408, -389, -371, -355, -340, -326, -312, -300, -288, -276, -265, -254, -244, -234, -224, -214, -205,
         -196, -187, -178, -170, -161, -153, -145, -137, -129, -121, -113, -106, -98, -91, -83, -76, -69, -61, -54, -47, -40, -32, -25, -18, -11, -4, 0]


def fr_round(x):
    """half away from zero for x >= 0"""
    import math
    return math.floor(x + Fr(1, 2))


@prop("C17", "Rule: get_first_dwz refuses fewer than five games and scores of 0% or 100%; otherwise the result is the opponents' average plus the table "
      "value of the rounded percentage (sign mirrored above 50%), revised to 700 + r/8 up to 800, with index 1 and the given age.")
def c17(c):
    fn = "dwz::get_first_dwz"
    s = SYS["dwz"]
    err = c.adtpath("dwz::GetFirstDWZError")
    vs = c.p.variants(err)

    def go(n, w, d):
        """n games, w wins, d draws"""
        c.dom = D((r"\.rating$", -500.0, 4000.0), ints=(0, 120))
        os_ = [c.outcome("WIN")] * w + [c.outcome("DRAW")] * d + [c.outcome("LOSS")] * (n - w - d)
        uni = n > 8
        opp = [s.R(c, "b" if uni else "b%d" % i) for i in range(n)]
        r = c.call(fn, N, Lst([Tup([b, o]) for b, o in zip(opp, os_)]))
        nm = "dwz: first rating of %d wins, %d draws in %d games" % (w, d, n)
        pts = Fr(2 * w + d, 2)
        e = "NotEnoughGames" if n < 5 else "InvalidWinRate" if pts == 0 or pts == n else None
        c.eq(nm + (": is an error" if e else ": is a rating"), fn, r.tag, I(1 if e else 0))
        if e:
            if 1 in r.pay and isc(r.tag) and cv(r.tag) == 1:
                c.eq(nm + ": error " + e, fn, r.pay[1][0].tag, I(vs.index(e)))
            return
        if not isc(r.tag) or cv(r.tag) != 0:
            return
        v = r.pay[0][0]
        p = fr_round(100 * pts / n)
        t = -TABLE[100 - p] if p > 50 else TABLE[p]
        avg = total(G(c, b) for b in opp) / R(n)
        x = avg + R(t)
        want(c, nm, fn, v, rating=ite(le(x, R(800)), R(700) + x / R(8), x), index=I(1), age=N)
    for n in range(0, 5):
        for w in range(0, n + 1):
            with c.group("first %d" % n):
                go(n, w, 0)
                if w < n:
                    go(n, w, 1)
    todo = []
    for n in (5, 6, 7):
        todo += [(n, w, d) for w in range(n + 1) for d in range(n + 1 - w)]
    # every percentage of the table
    for q in range(0, 51):
        todo.append((50, q, 0))
        if q < 50:
            todo.append((50, q, 1))
    todo += [(8, 1, 0), (8, 7, 0), (16, 1, 1), (40, 39, 0), (100, 99, 1), (100, 0, 1), (200, 0, 1), (200, 199, 1), (200, 0, 2), (200, 1, 1)]
    for n, w, d in todo:
        if w + d <= n:
            with c.group("first %d" % n):
                go(n, w, d)


# ------------------------------------------------------------------ C20
@prop("C20", "Rule: inactivity keeps the rating (and volatility), never lowers the deviation of a player at or below 350, never raises it above 350, grows "
      "with the deviation, and follows min(350, sqrt(RD^2 + growth)).")
def c20(c):
    from .spec import SCALE
    for n in DECAY:
        s = SYS[n]
        with c.group(n):
            a, = inputs(c, s, ("a",))
            cfg = s.C(c)
            fn = s.mod + "::decay_deviation"
            v = c.call(fn, *([a] + ([cfg] if n != "glicko2" else [])))
            d, r = G(c, a, "deviation"), G(c, a)
            c.eq("%s: inactivity keeps the rating" % n, fn, G(c, v), r)
            if n == "glicko2":
                c.eq("%s: inactivity keeps the volatility" % n, fn, G(c, v, "volatility"), G(c, a, "volatility"))
            c.le("%s: inactivity never lowers the deviation" % n, fn, d, G(c, v, "deviation"), facts=(le(d, R(350)),))
            c.le("%s: inactivity never raises the deviation above 350" % n, fn, G(c, v, "deviation"), R(350))
            if n in ("glicko", "sticko"):
                g = powi(G(c, cfg, "c"), 2)
            elif n == "glicko2":
                g = powi(SCALE * G(c, a, "volatility"), 2)
            else:
                al = G(c, cfg, "alpha").v
                x = r / R(1000)
                g = exp(al[0] + al[1] * d + al[2] * d * x + al[3] * x + al[4] * x * x)
            c.eq("%s: the deviation grows to min(350, sqrt(RD^2 + growth))" % n, fn, G(c, v, "deviation"), min_(R(350), sqrt(d * d + g)))
            if n != "glicko_boost":
                c.mono("%s: a larger deviation stays larger" % n, fn, G(c, v, "deviation"), d, "+")


# ------------------------------------------------------------------ C21
@prop("C21", "Rule: confidence_interval is rating -/+ 1.96 deviations for the whole Glicko family; get_rank is the rating minus three uncertainties.")
def c21(c):
    for n in DECAY:
        s = SYS[n]
        with c.group(n):
            a, = inputs(c, s, ("a",))
            c.dom = D((r"deviation", 0.0, 600.0), default=(-5000.0, 8000.0))
            fn = s.mod + "::confidence_interval"
            lo, hi = c.call(fn, a).v
            w = R("1.96") * G(c, a, "deviation")
            c.eq("%s: lower end of the confidence interval" % n, fn, lo, G(c, a) - w)
            c.eq("%s: upper end of the confidence interval" % n, fn, hi, G(c, a) + w)
            c.le("%s: the interval contains the rating from below" % n, fn, lo, G(c, a))
            c.le("%s: the interval contains the rating from above" % n, fn, G(c, a), hi)
    with c.group("trueskill"):
        s = SYS["trueskill"]
        a, = inputs(c, s, ("a",))
        c.dom = D(UNC, SK)
        fn = "trueskill::get_rank"
        c.eq("trueskill: the conservative rank is the rating minus three uncertainties", fn, c.call(fn, a), G(c, a) - R(3) * G(c, a, "uncertainty"))


# ------------------------------------------------------------------ C39
@prop("C39", "Rule: the public value types behave like values: two ratings (outcomes, ranks, errors) are equal exactly when all their fields are, clone is the "
      "same value, and ranks are ordered like their numbers by every comparison operator.")
def c39(c):
    c.dom = D((r"^n:", 0, 150, 0, 10**9), (r"\.(age|index|games)$", 0, 150, 0, 10**6), default=(-5000.0, 5000.0))
    b = lambda x: ite(x, I(1), I(0))

    def same(v, w):
        out = []
        for x, y in zip(leaves(v), leaves(w)):
            out.append(eq(x, y))
        return and_(*out)
    types = [(s.rating, lambda n, s=s: s.R(c, n)) for s in PAIR]
    types += [("MultiTeamOutcome", lambda n: c.rank(var("n:" + n, "I"))), ("Outcomes", lambda n: c.outcome(n))]
    for adt, mk_ in types:
        nm = adt.split("::")[-1]
        x, y = mk_("x"), mk_("y")
        with c.group(adt + " =="):
            e = c.method("std::cmp::PartialEq", adt, "eq", x, y)
            c.holds("%s: equal values have equal fields" % nm, adt + "::new" if adt.endswith("Rating") else "Outcomes::to_chess_points", same(x, y), facts=(e,))
            c.holds("%s: values with equal fields are equal" % nm, adt + "::new" if adt.endswith("Rating") else "Outcomes::to_chess_points", e, facts=(same(x, y),))
            n = c.p.trait_method("std::cmp::PartialEq", c.adtpath(adt), "ne")
            if n is not None:
                c.holds("%s: != is the negation of ==" % nm, n["path"], eq(b(c.callb(n, (x, y))), b(not_(e))))
    for adt, mk_ in types + [(s.config, lambda n, s=s: s.C(c, n)) for s in PAIR if s.config]:
        with c.group(adt + " clone"):
            x = mk_("x")
            c.eq("%s: clone is the same value" % adt.split("::")[-1], None, c.method("std::clone::Clone", adt, "clone", x), x)
    with c.group("rank order"):
        m, n = var("n:x", "I"), var("n:y", "I")
        x, y = c.rank(m), c.rank(n)
        want = ite(lt(m, n), I(-1), ite(lt(n, m), I(1), I(0)))
        fn = "MultiTeamOutcome::new"
        for tr, f in (("std::cmp::Ord", "cmp"), ("std::cmp::PartialOrd", "partial_cmp")):
            v = c.method(tr, "MultiTeamOutcome", f, x, y)
            if f == "partial_cmp":
                c.eq("MultiTeamOutcome: ranks are always comparable", fn, v.tag, I(1))
                v = v.pay[1][0]
            c.eq("MultiTeamOutcome: %s compares the numbers" % f, fn, v.tag, want + I(1))
        for f, w in (("lt", lt(m, n)), ("le", le(m, n)), ("gt", lt(n, m)), ("ge", le(n, m))):
            bd = c.p.trait_method("std::cmp::PartialOrd", c.adtpath("MultiTeamOutcome"), f)
            if bd is not None:
                c.eq("MultiTeamOutcome: %s compares the numbers" % f, bd["path"], b(c.callb(bd, (x, y))), b(w))
        for f, w in (("max", max_(m, n)), ("min", min_(m, n))):
            bd = c.p.trait_method("std::cmp::Ord", c.adtpath("MultiTeamOutcome"), f)
            if bd is not None:
                c.eq("MultiTeamOutcome: %s compares the numbers" % f, bd["path"], c.callb(bd, (x, y)), c.rank(w))
