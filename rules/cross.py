"""Properties that relate the entry points of every rating system to each other."""
from .reg import prop
from .systems import *


def inputs(c, s, names=("a", "b")):
    c.dom = s.dom
    return [s.R(c, n) for n in names]

from vg.api import Missing


def games(c, s, n, uniform=False, outcome=None):
    """n symbolic games [(opponent, outcome, side)]; uniform: one opponent and one outcome repeated, the last one different"""
    out = []
    for i in range(n):
        k = str(i) if not uniform else "L" if i == n - 1 else ""
        out.append((s.R(c, "b" + k), outcome or c.outcome("o" + k), s.side(c, "s" + k)))
    return out


def shapes(c, s, *fns, base=(0, 1, 2, 3)):
    """(n, uniform) list shapes to unroll"""
    b, h = c.lens(*fns, base=base)
    return [(n, False) for n in b] + [(n, True) for n in h]


def sided(c, s, side, f, cfg):
    """f(cfg) as seen from the given colour / with the per-game configuration"""
    if s.colour:
        if side is TRUE:
            return f(cfg)
        if side is FALSE:
            return f(mirror(s, c, cfg))
        return join(side, f(cfg), f(mirror(s, c, cfg)))
    if s.pergame:
        return f(side)
    return f(cfg)


@prop("C01", "Rule: for every pair of ratings and every config, the two expected scores add to one and lie in [0,1] "
      "(Ingo's linear expectation is exempt from the range), equal ratings give one half, swapping the sides swaps the scores and "
      "the expectation never decreases in the own and never increases in the opposing strength.")
def c01(c):
    for s in PAIR:
        with c.group(s.name):
            a, b = inputs(c, s)
            cfg = s.C(c)
            e1, e2 = s.exp(c, a, b, cfg)
            c.eq("%s: expected scores sum to 1" % s.name, s.expfn, e1 + e2, R(1))
            if s.name != "ingo":
                for i, e in ((1, e1), (2, e2)):
                    c.le("%s: expected score %d >= 0" % (s.name, i), s.expfn, R(0), e)
                    c.le("%s: expected score %d <= 1" % (s.name, i), s.expfn, e, R(1))
            f1, f2 = s.exp(c, b, a, mirror(s, c, cfg) if s.expcfg else cfg)
            c.eq("%s: swapping the players swaps the expected scores" % s.name, s.expfn, e1, f2)
            h1, h2 = s.exp(c, a, c.put(b, rating=c.get(a, "rating")), neutral(s, c))
            c.eq("%s: equal ratings expect 1/2" % s.name, s.expfn, h1, R("0.5"))
            lo = "-" if s.name == "ingo" else "+"
            hi = "+" if s.name == "ingo" else "-"
            c.mono("%s: a stronger player one expects at least as much" % s.name, s.expfn, e1, c.get(a, "rating"), lo)
            c.mono("%s: a stronger player two leaves player one at most as much" % s.name, s.expfn, e1, c.get(b, "rating"), hi)
    # once more with the crate's own error function instead of the symbolic one
    s = SYS["trueskill"]
    with c.group("trueskill with its own error function"):
        keep, c.summ = c.summ, {}
        try:
            a, b = inputs(c, s)
            cfg = s.C(c)
            e1, e2 = s.exp(c, a, b, cfg)
            f1, f2 = s.exp(c, b, a, cfg)
        finally:
            c.summ = keep
        tol = R("1e-6")
        c.eq("trueskill: expected scores sum to 1 (own error function)", s.expfn, e1 + e2, R(1))
        c.le("trueskill: swapping the players swaps the expected scores (own error function, above)", s.expfn, e1 - f2, tol)
        c.le("trueskill: swapping the players swaps the expected scores (own error function, below)", s.expfn, -tol, e1 - f2)
        for i, e in ((1, e1), (2, e2)):
            c.le("trueskill: expected score %d >= 0 (own error function)" % i, s.expfn, -tol, e)
            c.le("trueskill: expected score %d <= 1 (own error function)" % i, s.expfn, e, R(1) + tol)


@prop("C02", "Rule: expected_score_rating_period returns one entry per opponent, in order, each equal to the first component of the "
      "pairwise expected_score against that opponent (with the colour's or game's own advantage), for list lengths 0..3 with independent "
      "opponents and for every longer length singled out by a constant in the code.")
def c02(c):
    for s in PAIR:
        for n, uni in shapes(c, s, s.expperfn):
            with c.group("%s n=%d" % (s.name, n)):
                a, = inputs(c, s, ("a",))
                cfg = s.C(c)
                opp = [(s.R(c, "b" if uni else "b%d" % i), s.side(c, "s" if uni else "s%d" % i)) for i in range(n)]
                cols = [opp]
                if s.colour:
                    cols = [[(b, v) for b, _ in opp] for v in (TRUE, FALSE)]
                for k, op in enumerate(cols):
                    e = s.expper(c, a, op, cfg)
                    want = Lst([sided(c, s, sd, lambda g: s.exp(c, a, b, g)[0], cfg) for b, sd in op])
                    c.eq("%s: period expectation against each opponent is the pairwise one%s" % (
                        s.name, " (playing %s)" % ("white", "black")[k] if s.colour else ""), s.expperfn, e, want)


@prop("C03", "Rule: rate(b, a, opposite outcome) is rate(a, b, outcome) with the results exchanged, for all ratings, configs and outcomes "
      "(first-player advantage and handicap change sign).")
def c03(c):
    for s in PAIR:
        with c.group(s.name):
            a, b = inputs(c, s)
            o = c.outcome("o")
            cfg = s.C(c)
            x, y = s.head(c, a, b, o, cfg)
            y2, x2 = s.head(c, b, a, c.flip(o), mirror(s, c, cfg))
            c.eq("%s: player one's result does not depend on the seat" % s.name, s.headfn, x, x2)
            c.eq("%s: player two's result does not depend on the seat" % s.name, s.headfn, y, y2)


@prop("C04", "Rule: a rating period of one game is the head-to-head update of the player (from white's and from black's seat); for the "
      "systems that rate game by game (Elo, FIFA, Weng-Lin, TrueSkill) a period of n games is the n-fold head-to-head update.")
def c04(c):
    for s in PAIR:
        with c.group(s.name):
            a, b = inputs(c, s)
            o = c.outcome("o")
            sd = s.side(c, "s")
            cfg = s.C(c)
            if s.colour:
                for col in (TRUE, FALSE):
                    p = s.period(c, a, [(b, o, col)], cfg)
                    h = s.head(c, a, b, o, cfg)[0] if col is TRUE else s.head(c, b, a, c.flip(o), cfg)[1]
                    c.eq("%s: one-game period (%s) is the head-to-head update" % (s.name, "white" if col is TRUE else "black"), s.perfn, p, h)
            else:
                p = s.period(c, a, [(b, o, sd)], cfg)
                g = sd if s.pergame else cfg
                c.eq("%s: one-game period is the head-to-head update" % s.name, s.perfn, p, s.head(c, a, b, o, g)[0])
        if s.name in SEQ:
            base = (0, 2, 3) if s.name != "trueskill" else (0, 2)
            for n, uni in shapes(c, s, s.perfn, base=base):
                if uni and n > 12 and s.name == "trueskill":
                    continue
                with c.group("%s n=%d" % (s.name, n)):
                    a, = inputs(c, s, ("a",))
                    gs = games(c, s, n, uni)
                    cfg = s.C(c)
                    p = s.period(c, a, gs, cfg)
                    r = a
                    for b, o, sd in gs:
                        r = s.head(c, r, b, o, sd if s.pergame else cfg)[0]
                    c.eq("%s: period is the head-to-head update game by game" % s.name, s.perfn, p, r)


@prop("C05", "Rule: the methods of the RatingSystem / RatingPeriodSystem / TeamRatingSystem / MultiTeamRatingSystem implementations compute "
      "exactly what the module functions compute with the supplied configuration (colour: white; per-game config: the supplied one).")
def c05(c):
    for s in PAIR:
        with c.group(s.name):
            a, b = inputs(c, s)
            o = c.outcome("o")
            cfg = s.C(c)
            cv_ = cfg if cfg is not None else Tup([])
            x = c.method("RatingSystem", s.struct, "new", cv_)
            c.eq("%s: RatingSystem::rate is the module function" % s.name, s.headfn, c.method("RatingSystem", s.struct, "rate", x, a, b, o),
                 Tup(s.head(c, a, b, o, cfg)))
            c.eq("%s: RatingSystem::expected_score is the module function" % s.name, s.expfn, c.method("RatingSystem", s.struct, "expected_score", x, a, b),
                 Tup(s.exp(c, a, b, cfg)))
            y = c.method("RatingPeriodSystem", s.struct, "new", cv_)
            sd = TRUE if s.colour else cfg
            _, big = c.lens(*[("RatingPeriodSystem", s.struct, m) for m in ("rate", "expected_score")], base=(3,))
            for n in [0, 1, 2, 3] + ([5] if s.name not in ("trueskill", "glicko2") else []) + big:
                if s.name in ("trueskill", "glicko2") and n == 3:
                    continue
                if s.name == "trueskill" and n > 20:
                    continue
                gs = [(b_, o_, sd) for b_, o_, _ in games(c, s, n, n > 5)]
                c.eq("%s: RatingPeriodSystem::rate is the module function (%d games)" % (s.name, n), s.perfn,
                     c.method("RatingPeriodSystem", s.struct, "rate", y, a, Lst([Tup([g[0], g[1]]) for g in gs])), s.period(c, a, gs, cfg))
                c.eq("%s: RatingPeriodSystem::expected_score is the module function (%d opponents)" % (s.name, n), s.expperfn,
                     c.method("RatingPeriodSystem", s.struct, "expected_score", y, a, Lst([g[0] for g in gs])),
                     s.expper(c, a, [(g[0], sd) for g in gs], cfg))
    for s in (SYS["weng_lin"], SYS["trueskill"]):
        big = crowds(c, *[("TeamRatingSystem", s.struct, m) for m in ("rate", "expected_score")])
        for n1, n2 in [(0, 1), (1, 1), (2, 1), (2, 2)] + [x for k in big for x in ((k, 1), (1, k))]:
            with c.group("%s teams %d/%d" % (s.name, n1, n2)):
                c.dom = s.dom
                t1, t2 = (team if max(n1, n2) < 4 else crowd)(c, s, "p", n1), (team if max(n1, n2) < 4 else crowd)(c, s, "q", n2)
                cfg = s.C(c)
                o = c.outcome("o")
                x = c.method("TeamRatingSystem", s.struct, "new", cfg)
                c.eq("%s: TeamRatingSystem::rate is the module function" % s.name, s.headfn + "_two_teams",
                     c.method("TeamRatingSystem", s.struct, "rate", x, t1, t2, o), c.call(s.headfn + "_two_teams", t1, t2, o, cfg))
                c.eq("%s: TeamRatingSystem::expected_score is the module function" % s.name, s.expfn + "_two_teams",
                     c.method("TeamRatingSystem", s.struct, "expected_score", x, t1, t2), c.call(s.expfn + "_two_teams", t1, t2, cfg))
        for sizes in [(), (1,), (1, 1), (2, 1), (1, 2, 1), (1,) * 5] + [(1,) * k for k in
                                                                        crowds(c, *[("MultiTeamRatingSystem", s.struct, m) for m in ("rate", "expected_score")], cap=12)]:
            with c.group("%s multi-team %s" % (s.name, sizes)):
                c.dom = s.dom
                ts = [team(c, s, "t%d" % i, k) for i, k in enumerate(sizes)]
                cfg = s.C(c)
                x = c.method("MultiTeamRatingSystem", s.struct, "new", cfg)
                c.eq("%s: MultiTeamRatingSystem::expected_score is the module function" % s.name, s.expfn + "_multi_team",
                     c.method("MultiTeamRatingSystem", s.struct, "expected_score", x, Lst(ts)), c.call(s.expfn + "_multi_team", Lst(ts), cfg))
                tr = Lst([Tup([t, c.rank(i)]) for i, t in enumerate(ts)])
                got = c.method("MultiTeamRatingSystem", s.struct, "rate", x, tr)
                if s.name == "weng_lin":
                    c.eq("%s: MultiTeamRatingSystem::rate is the module function" % s.name, s.headfn + "_multi_team", got,
                         c.call(s.headfn + "_multi_team", tr, cfg))
                else:
                    want = c.call(s.headfn + "_multi_team", tr, cfg, c.none())
                    c.eq("%s: MultiTeamRatingSystem::rate is the module function without weights" % s.name, s.headfn + "_multi_team", got, want.pay[0][0])


def team(c, s, name, n):
    return Lst([s.R(c, "%s%d" % (name, i)) for i in range(n)])


def crowd(c, s, name, n):
    """a large team: two individuals, the others alike"""
    return Lst([s.R(c, "%s%d" % (name, min(i, 2))) for i in range(n)])


def crowds(c, *fns, base=4, cap=40):
    """sizes of large teams: those singled out by constants of the code"""
    out = set()
    for f in fns:
        try:
            out |= set(c.lens(f, base=(base,), cap=cap, spread=(0, 1))[1])
        except Missing:
            pass
    return sorted(out | {base + 1})


@prop("C06", "Rule: an empty rating period leaves the rating as it is (the Glicko family: the deviation decay of an inactive player), "
      "a game against an empty team changes nobody, and no teams give no ratings.")
def c06(c):
    for s in PAIR:
        with c.group(s.name):
            a, = inputs(c, s, ("a",))
            if s.name == "egf":
                c.dom = s.dom.with_((r"\.rating$", -900.0, 3200.0))      # below that the floor applies
            cfg = s.C(c)
            p = s.period(c, a, [], cfg)
            if s.name in DECAY:
                args = [a] + ([cfg] if s.name != "glicko2" else [])
                c.eq("%s: an empty period is the inactivity decay" % s.name, s.perfn, p, c.call(s.mod + "::decay_deviation", *args))
                c.eq("%s: an empty period keeps the rating" % s.name, s.perfn, c.get(p, "rating"), c.get(a, "rating"))
                if s.name == "glicko2":
                    c.eq("%s: an empty period keeps the volatility" % s.name, s.perfn, c.get(p, "volatility"), c.get(a, "volatility"))
            else:
                c.eq("%s: an empty period changes nothing" % s.name, s.perfn, p, a)
            c.eq("%s: no opponents, no expected scores" % s.name, s.expperfn, s.expper(c, a, [], cfg), Lst([]))
    for s in (SYS["weng_lin"], SYS["trueskill"]):
        _, big = c.lens(s.headfn + "_two_teams", base=(3,), cap=12)
        for n1, n2 in [(0, 0), (0, 1), (1, 0), (2, 0), (0, 3)] + [x for k in big for x in ((k, 0), (0, k))]:
            with c.group("%s teams %d/%d" % (s.name, n1, n2)):
                c.dom = s.dom
                t1, t2 = team(c, s, "p", n1), team(c, s, "q", n2)
                c.eq("%s: an empty team leaves both teams unchanged" % s.name, s.headfn + "_two_teams",
                     c.call(s.headfn + "_two_teams", t1, t2, c.outcome("o"), s.C(c)), Tup([t1, t2]))
        _, big = c.lens(s.headfn + "_multi_team", base=(6,), cap=16, spread=(-1, 0, 1, 2))
        lone = [(0, 1), (1, 0), (0, 0), (2, 1, 0), (1, 0, 2), (1, 0, 0), (0, 0, 0)]
        lone += [tuple(0 if j == i else 1 + j % 2 for j in range(n)) for n in (3, 4, 5, 6) for i in range(n)]
        lone += [tuple(0 if j == i else 1 for j in range(n)) for n in big for i in (0, n // 2, n - 1)]
        for sizes in [(), (1,), (2,), (3,), (0,)] + lone:
            with c.group("%s multi-team %s" % (s.name, sizes)):
                c.dom = s.dom
                ts = [team(c, s, "t%d" % i, k) for i, k in enumerate(sizes)]
                cfg = s.C(c)
                n = len(sizes)
                for ranks in ([var("n:rank%d" % i, "I") for i in range(n)], range(n), range(n, 0, -1)):
                    with c.group("%s multi-team %s" % (s.name, sizes)):
                        tr = Lst([Tup([t, c.rank(r)]) for t, r in zip(ts, ranks)])
                        if s.name == "weng_lin":
                            got = c.call(s.headfn + "_multi_team", tr, cfg)
                        else:
                            got = c.call(s.headfn + "_multi_team", tr, cfg, c.none())
                            c.eq("%s: multi-team with %s is accepted" % (s.name, sizes), s.headfn + "_multi_team", got.tag, I(0))
                            got = got.pay[0][0]
                        c.eq("%s: multi-team with %s leaves the teams unchanged" % (s.name, sizes), s.headfn + "_multi_team", got, Lst(ts))


@prop("C36", "Rule: for the systems that rate a period as a whole (Ingo, DWZ, USCF, EGF, Glicko, Glicko-2, Glicko-Boost, Sticko) the order of "
      "the results does not matter; neither does the order of the players inside a team.")
def c36(c):
    for s in PAIR:
        if s.name in SEQ:
            continue
        for n, perm in ((2, (1, 0)), (3, (1, 2, 0))):
            if n == 3 and s.name == "glicko2" and not c.deep:
                continue
            with c.group("%s n=%d" % (s.name, n)):
                a, = inputs(c, s, ("a",))
                gs = games(c, s, n)
                cfg = s.C(c)
                c.eq("%s: the order of %d results does not matter" % (s.name, n), s.perfn, s.period(c, a, gs, cfg),
                     s.period(c, a, [gs[i] for i in perm], cfg))
        for n in sorted({4, 6} | set(c.lens(s.perfn, base=(3,))[1])) if s.name != "glicko2" else c.lens(s.perfn, base=(3,))[1]:
            with c.group("%s n=%d, all but one alike" % (s.name, n)):
                a, = inputs(c, s, ("a",))
                one, two = games(c, s, 2)
                cfg = s.C(c)
                x = s.period(c, a, [two] + [one] * (n - 1), cfg)
                for k in (1, n // 2, n - 1):
                    c.eq("%s: the position of a result among %d does not matter" % (s.name, n), s.perfn, x,
                         s.period(c, a, [one] * k + [two] + [one] * (n - 1 - k), cfg))
    for s in (SYS["weng_lin"], SYS["trueskill"]):
        f2, e2, em = s.headfn + "_two_teams", s.expfn + "_two_teams", s.expfn + "_multi_team"
        for n in crowds(c, f2, e2, em):
            with c.group("%s teams of %d" % (s.name, n)):
                c.dom = s.dom
                t1, t2 = crowd(c, s, "p", n), crowd(c, s, "q", n)
                r1, r2 = Lst(t1.v[::-1]), Lst(t2.v[::-1])
                cfg = s.C(c)
                for o in ("WIN", "DRAW"):
                    x = c.call(f2, t1, t2, c.outcome(o), cfg)
                    y = c.call(f2, r1, r2, c.outcome(o), cfg)
                    for i in (0, 1):
                        for j in (0, 1, n - 1):
                            c.eq("%s: the order inside team %d of %d does not matter" % (s.name, i + 1, n), f2, x.v[i].v[j], y.v[i].v[n - 1 - j])
                c.eq("%s: the order inside teams of %d does not matter for the expected score" % (s.name, n), e2, c.call(e2, t1, t2, cfg), c.call(e2, r1, r2, cfg))
                c.eq("%s: the order inside teams of %d does not matter for the expected scores of several teams" % (s.name, n), em,
                     c.call(em, Lst([t1, t2, team(c, s, "x", 1)]), cfg), c.call(em, Lst([r1, r2, team(c, s, "x", 1)]), cfg))
        with c.group("%s several teams" % s.name):
            c.dom = s.dom.with_()
            c.dom.prove = s.name == "weng_lin"
            fm = s.headfn + "_multi_team"
            ts = [team(c, s, "p", 2), team(c, s, "q", 1), team(c, s, "r", 3)]
            rv = [Lst(t.v[::-1]) for t in ts]
            cfg = s.C(c)
            for ranks in ((1, 2, 3), (2, 2, 1)):
                x, y = ([c.call(fm, Lst([Tup([t, c.rank(k)]) for t, k in zip(z, ranks)]), cfg, *([c.none()] if s.name == "trueskill" else [])) for z in (ts, rv)])
                if s.name == "trueskill":
                    x, y = x.pay[0][0], y.pay[0][0]
                c.eq("%s: the order inside the teams %s does not matter" % (s.name, ranks), fm, x, Lst([Lst(t.v[::-1]) for t in y.v]))
        with c.group("%s teams" % s.name):
            c.dom = s.dom
            t1, t2 = team(c, s, "p", 2), team(c, s, "q", 2)
            r1, r2 = Lst(t1.v[::-1]), Lst(t2.v[::-1])
            o, cfg = c.outcome("o"), s.C(c)
            x = c.call(s.headfn + "_two_teams", t1, t2, o, cfg)
            y = c.call(s.headfn + "_two_teams", r1, r2, o, cfg)
            for i in (0, 1):
                c.eq("%s: the order inside team %d does not matter" % (s.name, i + 1), s.headfn + "_two_teams", x.v[i], Lst(y.v[i].v[::-1]))
            c.eq("%s: the order inside the teams does not matter for the expected score" % s.name, s.expfn + "_two_teams",
                 c.call(s.expfn + "_two_teams", t1, t2, cfg), c.call(s.expfn + "_two_teams", r1, r2, cfg))


@prop("C09", "Rule: for the same opponents a better result never gives a worse new rating: win >= draw >= loss, for every player of the game "
      "(Ingo: lower is better).")
def c09(c):
    for s in PAIR:
        with c.group(s.name):
            a, b = inputs(c, s)
            c.dom = s.dom.with_((r"deviation", 1.0, 350.0))
            cfg = s.C(c, k=R(0)) if s.name == "glicko_boost" else s.C(c)        # the boost for exceptional results is exempt
            res = {o: s.head(c, a, b, c.outcome(o), cfg) for o in ("WIN", "DRAW", "LOSS")}
            for hi, lo in (("WIN", "DRAW"), ("DRAW", "LOSS")):
                for i, (x, y) in enumerate(((hi, lo), (lo, hi))):
                    p, q = c.get(res[y][i], "rating"), c.get(res[x][i], "rating")
                    if s.name == "ingo":
                        p, q = q, p
                    c.le("%s: player %d gains at least as much from %s as from %s" % (s.name, i + 1, x, y), s.headfn, p, q)
        with c.group(s.name + " period"):
            a, b, d = inputs(c, s, ("a", "b", "d"))
            c.dom = s.dom.with_((r"deviation", 1.0, 350.0))
            cfg = s.C(c, k=R(0)) if s.name == "glicko_boost" else s.C(c)        # the boost for exceptional results is exempt
            sd, sd2 = s.side(c, "s"), s.side(c, "s2")
            o2 = c.outcome("o2")
            if s.name in ("trueskill", "glicko2", "weng_lin", "elo", "fifa"):
                gs = lambda o: [(b, c.outcome(o), sd)]
            else:
                gs = lambda o: [(d, o2, sd2), (b, c.outcome(o), sd)]
            res = {o: c.get(s.period(c, a, gs(o), cfg), "rating") for o in ("WIN", "DRAW", "LOSS")}
            for x, y in (("WIN", "DRAW"), ("DRAW", "LOSS")):
                p, q = res[y], res[x]
                if s.name == "ingo":
                    p, q = q, p
                c.le("%s: in a period %s gains at least as much as %s" % (s.name, x, y), s.perfn, p, q)
        for prev in ("LOSS", "WIN"):
            with c.group("%s period after %s" % (s.name, prev)):
                a, b, d = inputs(c, s, ("a", "b", "d"))
                c.dom = s.dom.with_((r"deviation", 1.0, 350.0))
                cfg = s.C(c, k=R(0)) if s.name == "glicko_boost" else s.C(c)
                sd = s.side(c, "s")
                for n in ((2, 5) if c.deep else (3,)):
                    gs = lambda o: [(d, c.outcome(prev), sd)] * n + [(b, c.outcome(o), sd)]
                    res = {o: c.get(s.period(c, a, gs(o), cfg), "rating") for o in ("WIN", "LOSS")}
                    p, q = (res["LOSS"], res["WIN"]) if s.name != "ingo" else (res["WIN"], res["LOSS"])
                    c.le("%s: after %d times %s WIN gains at least as much as LOSS" % (s.name, n, prev), s.perfn, p, q)
