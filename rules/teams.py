"""Team games, weights, match quality, invariances, and the whole-crate rules (totality, purity)."""
from .reg import prop
from .systems import *
from .cross import games, shapes, team, inputs, sided, crowd, crowds
from .spec import G, total, hyp, Phi, phi_, margin, ts_vw, ts_spec, rows, pi, rank_score

WL, TS = SYS["weng_lin"], SYS["trueskill"]


def tr_list(c, ts, ranks):
    return Lst([Tup([t, c.rank(k)]) for t, k in zip(ts, ranks)])


def multi(c, s, ts, ranks, cfg, weights=None):
    """multi-team result as a list of lists (TrueSkill: unwrapped)"""
    fn = s.headfn + "_multi_team"
    if s is WL:
        return c.call(fn, tr_list(c, ts, ranks), cfg)
    w = c.none() if weights is None else some(Lst([Lst(x) for x in weights]))
    r = c.call(fn, tr_list(c, ts, ranks), cfg, w)
    c.eq("trueskill: valid input is accepted", fn, r.tag, I(0))
    return r.pay[0][0]


def mtol(c, s):
    c.dom = s.dom


# ------------------------------------------------------------------ C15
@prop("C15", "Rule: a multi-team game returns one team per input team, with the same players in the same places; permuting the teams permutes the "
      "result; only the order of the ranks matters, not their values.")
def c15(c):
    import itertools
    for s in (WL, TS):
        fn = s.headfn + "_multi_team"
        for sizes in ((1, 1), (2, 1), (1, 1, 1), (1, 2, 1), (3, 1, 2)):
            with c.group("%s shape %s" % (s.name, sizes)):
                c.dom = s.dom
                ts = [team(c, s, "t%d" % i, k) for i, k in enumerate(sizes)]
                cfg = s.C(c)
                for ranks in (tuple(range(1, len(sizes) + 1)), tuple(range(len(sizes), 0, -1)), (2,) * len(sizes)):
                    g = multi(c, s, ts, ranks, cfg)
                    ok = and_(sized(g, len(ts)), *[sized(x, len(t.v)) for x, t in zip(g.v, ts)])
                    c.holds("%s: teams of %s give teams of the same sizes (ranks %s)" % (s.name, sizes, ranks), fn, ok)
                    # same order type, other labels
                    g2 = multi(c, s, ts, [3 * r + 4 for r in ranks], cfg)
                    c.eq("%s: only the order of the ranks matters %s %s" % (s.name, sizes, ranks), fn, g, g2)
        for sizes in ((1, 1), (2, 1), (1, 1, 1), (1, 2, 1)):
            n = len(sizes)
            perms = [p for p in itertools.permutations(range(n)) if p != tuple(range(n))]
            for ranks in ((1, 2, 3), (2, 1, 3), (3, 2, 1), (1, 1, 2), (1, 2, 2), (2, 3, 1), (1, 1, 1)):
                ranks = ranks[:n]
                tie = len(set(ranks)) < n
                if s is TS and tie and n > 2:
                    continue        # the message schedule depends on the order of tied teams; see the tied rule
                with c.group("%s permutations %s %s" % (s.name, sizes, ranks)):
                    c.dom = s.dom
                    if s is TS and tie and not c.deep:
                        c.dom = s.dom.with_()
                        c.dom.prove = False
                    ts = [team(c, s, "t%d" % i, k) for i, k in enumerate(sizes)]
                    cfg = s.C(c)
                    g = multi(c, s, ts, ranks, cfg)
                    for p in perms[:2] + perms[-1:] if n > 2 else perms:
                        h = multi(c, s, [ts[i] for i in p], [ranks[i] for i in p], cfg)
                        c.eq("%s: the order in which the teams are passed does not matter %s %s" % (s.name, sizes, ranks), fn,
                             Lst([g.v[i] for i in p]), h)
    # rank labels of every magnitude
    LABELS = ((0, 1, 2), (9, 10, 100), (1, 256, 300), (255, 256, 512), (0, 65536, 70001), (5, 2**31, 2**32 + 1), (3, 2**32 + 2, 2**63), (0, 2**63, 2**64 - 1))
    for s in (WL, TS):
        fn = s.headfn + "_multi_team"
        for n, ranks in ((2, (0, 1)), (2, (1, 0)), (2, (1, 1)), (3, (0, 1, 2)), (3, (2, 0, 1)), (3, (1, 2, 0)), (3, (2, 2, 0)), (3, (0, 2, 2)), (3, (1, 0, 1))):
            with c.group("%s labels %s" % (s.name, ranks)):
                c.dom = s.dom
                ts = [team(c, s, "t%d" % i, 1) for i in range(n)]
                cfg = s.C(c)
                g = multi(c, s, ts, [r + 1 for r in ranks], cfg)
                for lab in LABELS:
                    c.eq("%s: ranks %s rate like %s" % (s.name, tuple(lab[r] for r in ranks), tuple(r + 1 for r in ranks)), fn, g,
                         multi(c, s, ts, [lab[r] for r in ranks], cfg))
    # many one-player teams, listed out of order
    for s in (WL, TS):
        fn = s.headfn + "_multi_team"
        for n in sorted({4, 5, 6} | set(c.lens(fn, base=(6,), cap=34 if s is WL else 10, spread=(-1, 0, 1, 2))[1])):
            with c.group("%s %d teams" % (s.name, n)):
                c.dom = s.dom.with_()
                c.dom.prove = s is WL
                sz = [2 if n in (5, 6) and i in (0, 3) else 1 for i in range(n)]
                ts = [team(c, s, "t%d" % i, sz[i]) for i in range(n)]
                cfg = s.C(c)
                g = multi(c, s, ts, range(1, n + 1), cfg)
                c.holds("%s: %d teams give %d teams" % (s.name, n, n), fn, and_(sized(g, n), *[sized(x, k) for x, k in zip(g.v, sz)]))
                st = 3 if n % 3 else 5 if n % 5 else 7
                for p in (tuple(range(n))[::-1], tuple((i * st + 1) % n for i in range(n))):
                    h = multi(c, s, [ts[i] for i in p], [p[i] + 1 for i in range(n)], cfg)
                    c.eq("%s: the order in which %d teams are passed does not matter" % (s.name, n), fn, Lst([g.v[i] for i in p]), h)
                h = multi(c, s, ts, [7 * i + 2 for i in range(n)], cfg)
                c.eq("%s: only the order of %d ranks matters" % (s.name, n), fn, g, h)
    # symbolic ranks for Weng-Lin
    for sizes, p in (((1, 1), (1, 0)), ((1, 1, 1), (2, 0, 1)), ((2, 1, 1), (1, 2, 0)), ((1, 1, 1, 1), (3, 1, 0, 2))):
        with c.group("weng_lin symbolic ranks %s" % (sizes,)):
            c.dom = WL.dom
            ts = [team(c, WL, "t%d" % i, k) for i, k in enumerate(sizes)]
            rk = [var("n:rank%d" % i, "I") for i in range(len(sizes))]
            cfg = WL.C(c)
            g = multi(c, WL, ts, rk, cfg)
            h = multi(c, WL, [ts[i] for i in p], [rk[i] for i in p], cfg)
            c.eq("weng_lin: the order of the teams does not matter for any ranks %s" % (sizes,), WL.headfn + "_multi_team", Lst([g.v[i] for i in p]), h)


# ------------------------------------------------------------------ C40
@prop("C40", "Rule: the expected scores of teams are a probability split: one entry per team, none negative, summing to one (a lone team gets everything); "
      "equal teams get equal shares, the entries follow the teams, and a stronger player raises the share of the own team and no other.")
def c40(c):
    import itertools
    for s in (WL, TS):
        fn = s.expfn + "_multi_team"
        for sizes in [(), (1,), (2,), (1, 1), (2, 1), (1, 1, 1), (2, 1, 1), (1, 3, 1, 2), (1, 1, 1, 1, 1), (0, 1), (2, 0), (1, 0, 2), (0, 1, 1, 0)] + [(k, k - 1, 1) for k in crowds(c, fn, cap=24)] + \
                [(1,) * k for k in crowds(c, fn, base=5, cap=24)]:
            with c.group("%s expectations %s" % (s.name, sizes)):
                c.dom = s.dom
                n = len(sizes)
                ts = [(team if max(sizes + (0,)) < 4 else crowd)(c, s, "t%d" % (i if n < 8 else min(i, 3)), k) for i, k in enumerate(sizes)]
                cfg = s.C(c)
                e = c.call(fn, Lst(ts), cfg)
                c.holds("%s: one expected score per team %s" % (s.name, sizes), fn, sized(e, n))
                if not n:
                    continue
                c.eq("%s: the expected scores of the teams sum to one %s" % (s.name, sizes), fn, total(e.v), R(1), tol=None if n > 1 else 1e-9)
                for i, x in enumerate(e.v):
                    c.le("%s: the expected score of a team is not negative %s" % (s.name, sizes), fn, R(0), x)
                    c.le("%s: the expected score of a team is at most one %s" % (s.name, sizes), fn, x, R(1))
                if n < 2:
                    continue
                perms = [tuple(range(n))[::-1]] + ([tuple((i + 1) % n for i in range(n))] if n > 2 else [])
                for p in perms:
                    h = c.call(fn, Lst([ts[i] for i in p]), cfg)
                    c.eq("%s: expected scores follow the order of the teams %s" % (s.name, sizes), fn, Lst([e.v[i] for i in p]), h)
                if n > 3:
                    continue
                for i in range(n):
                    if not sizes[i]:
                        continue
                    own = ts[i].v[-1]
                    c.mono("%s: a stronger player in team %d of %s expects at least as much" % (s.name, i, sizes), fn, e.v[i], c.get(own, "rating"), "+")
                    j = (i + 1) % n
                    c.mono("%s: a stronger player in team %d of %s leaves team %d at most as much" % (s.name, i, sizes, j), fn, e.v[j], c.get(own, "rating"), "-")
        for k, n in ((1, 2), (2, 2), (1, 3), (2, 3), (1, 4)):
            with c.group("%s equal teams %d x %d" % (s.name, n, k)):
                c.dom = s.dom
                t = team(c, s, "t", k)
                e = c.call(fn, Lst([t] * n), s.C(c))
                c.eq("%s: %d equal teams of %d share equally" % (s.name, n, k), fn, e, Lst([R(1) / R(n)] * n))
        fn = s.expfn + "_two_teams"
        for k, m in ((1, 1), (2, 2), (1, 3), (3, 2), (0, 2), (1, 0)):
            with c.group("%s two teams %d vs %d" % (s.name, k, m)):
                c.dom = s.dom
                x, y = team(c, s, "a", k), team(c, s, "b", m)
                cfg = s.C(c)
                e = c.call(fn, x, y, cfg)
                f = c.call(fn, y, x, cfg)
                nm = "%s %d vs %d" % (s.name, k, m)
                c.eq("%s: the expected scores of two teams sum to one" % nm, fn, e.v[0] + e.v[1], R(1))
                for i in (0, 1):
                    c.le("%s: the expected score of team %d is not negative" % (nm, i), fn, R(0), e.v[i])
                    c.le("%s: the expected score of team %d is at most one" % (nm, i), fn, e.v[i], R(1))
                c.eq("%s: swapping the teams swaps the expected scores" % nm, fn, e.v[0], f.v[1])
                if k:
                    c.mono("%s: a stronger player in team one expects at least as much" % nm, fn, e.v[0], c.get(x.v[-1], "rating"), "+")
                if m:
                    c.mono("%s: a stronger player in team two leaves team one at most as much" % nm, fn, e.v[0], c.get(y.v[-1], "rating"), "-")
                if k == m:
                    h = c.call(fn, x, x, cfg)
                    c.eq("%s: equal teams expect one half" % nm, fn, h.v[0], R("0.5"))


# ------------------------------------------------------------------ C16
@prop("C16", "Rule: weights are validated: wrong number of teams, wrong number of players and negative weights give TeamAmount, PlayerAmount{team} and "
      "Weight{team, player} naming the first offender, in trueskill_multi_team and match_quality_multi_team; valid weights are accepted; "
      "no weights are weights of one.")
def c16(c):
    err = c.adtpath("trueskill::weights::WeightError")
    vs = c.p.variants(err)
    flds = {v["name"]: [f["name"] for f in v["fields"]] for v in c.p.adts[err]["variants"]}

    def run(which, ts, cfg, w):
        if which == "rate":
            fn = TS.headfn + "_multi_team"
            return fn, c.call(fn, tr_list(c, ts, range(1, len(ts) + 1)), cfg, w)
        fn = "trueskill::match_quality_multi_team"
        return fn, c.call(fn, Lst(ts), cfg, w)

    P, M = var("w:p", "R"), var("w:m", "R")
    for which in ("rate", "quality"):
        # weights of any sign: rejected exactly when negative
        for sizes in ((1, 1), (2, 1)):
            with c.group("signs %s %s" % (which, sizes)):
                c.dom = TS.dom.with_((r"^u:", -1.0, 3.0, -1e6, 1e6))
                ts = [team(c, TS, "t%d" % i, k) for i, k in enumerate(sizes)]
                cfg = TS.C(c)
                for i in range(len(sizes)):
                    for j in range(sizes[i]):
                        u = var("u:", "R")
                        w = [[R(1)] * k for k in sizes]
                        w[i][j] = u
                        fn, r = run(which, ts, cfg, some(Lst([Lst(x) for x in w])))
                        c.eq("trueskill %s: any negative weight of player %d in team %d of %s is refused" % (which, j, i, sizes), fn, r.tag, I(1), facts=(lt(u, R(0)),))
                        c.eq("trueskill %s: any weight of zero or more of player %d in team %d of %s is accepted" % (which, j, i, sizes), fn, r.tag, I(0), facts=(le(R(0), u),))
        # large teams and many teams
        top = TS.headfn + "_multi_team" if which == "rate" else "trueskill::match_quality_multi_team"
        big = crowds(c, top, cap=24)
        for sizes in [(k, 1) for k in big] + [(1, k) for k in big[:2]] + [(1,) * k for k in crowds(c, top, cap=12)]:
            if which == "quality" and len(sizes) > 6:
                continue
            with c.group("large %s %s" % (which, sizes)):
                c.dom = D(UNC, SK, (r"beta", 0.5, 20.0), (r"draw_prob", 0.02, 0.9), (r"dynamics", 0.0, 2.0), (r"w:p", 0.05, 3.0, 0.01, 1e7), (r"w:m", -3.0, -1e-3, -1e6, -1e-9), tol=Fr(1, 10**4))
                c.dom.prove = len(sizes) < 4 and max(sizes) < 12
                ts = [crowd(c, TS, "t%d" % i, k) for i, k in enumerate(sizes)]
                cfg = TS.C(c)
                for i, j in ((0, sizes[0] - 1), (len(sizes) - 1, sizes[-1] - 1)):
                    w = [[P] * k for k in sizes]
                    w[i][j] = M
                    fn, r = run(which, ts, cfg, some(Lst([Lst(x) for x in w])))
                    nm = "trueskill %s: a negative weight of player %d in team %d of %s" % (which, j, i, sizes)
                    c.eq(nm + " is an error", fn, r.tag, I(1))
                    if 1 in r.pay and not (isc(r.tag) and cv(r.tag) != 1):
                        e = r.pay[1][0]
                        c.eq(nm + " is a weight error", fn, e.tag, I(vs.index("Weight")))
                        if vs.index("Weight") in e.pay:
                            c.eq(nm + " names the team", fn, e.pay[vs.index("Weight")][flds["Weight"].index("team")], I(i))
                            c.eq(nm + " names the player", fn, e.pay[vs.index("Weight")][flds["Weight"].index("player")], I(j))
                    w = [[P] * k for k in sizes]
                    w[i] = w[i] + [P]
                    fn, r = run(which, ts, cfg, some(Lst([Lst(x) for x in w])))
                    nm = "trueskill %s: a surplus weight for team %d of %s" % (which, i, sizes)
                    c.eq(nm + " is an error", fn, r.tag, I(1))
                    if 1 in r.pay and not (isc(r.tag) and cv(r.tag) != 1):
                        c.eq(nm + " is a player error", fn, r.pay[1][0].tag, I(vs.index("PlayerAmount")))
                if len(sizes) < 7:
                    fn, r0 = run(which, ts, cfg, c.none())
                    fn, r1 = run(which, ts, cfg, some(Lst([Lst([R(1)] * k) for k in sizes])))
                    c.eq("trueskill %s: no weights are weights of one in teams %s" % (which, sizes), fn, r0.pay[0][0], r1.pay[0][0])
        for sizes in ((1, 1), (2, 1), (1, 2, 1)):
            ts = None
            with c.group("weights %s %s" % (which, sizes)):
                c.dom = D(UNC, SK, (r"beta", 0.5, 20.0), (r"draw_prob", 0.02, 0.9), (r"dynamics", 0.0, 2.0), (r"w:p", 0.05, 3.0, 0.01, 1e7), (r"w:m", -3.0, -1e-3, -1e6, -1e-9), tol=Fr(1, 10**4))
                ts = [team(c, TS, "t%d" % i, k) for i, k in enumerate(sizes)]
                cfg = TS.C(c)
                full = [[P] * k for k in sizes]

                def bad(label, w, var_, **kw):
                    fn, r = run(which, ts, cfg, some(Lst([Lst(x) for x in w])))
                    nm = "trueskill %s: %s in teams %s" % (which, label, sizes)
                    c.eq(nm + " is an error", fn, r.tag, I(1))
                    if 1 not in r.pay or isc(r.tag) and cv(r.tag) != 1:
                        return
                    e = r.pay[1][0]
                    if var_ is None:
                        return
                    c.eq(nm + " is %s" % var_, fn, e.tag, I(vs.index(var_)))
                    if vs.index(var_) in e.pay:
                        for k, x in kw.items():
                            c.eq(nm + " names the %s" % k, fn, e.pay[vs.index(var_)][flds[var_].index(k)], I(x))
                bad("one team too few", full[:-1], "TeamAmount")
                bad("one team too many", full + [[P]], "TeamAmount")
                bad("no weights", [], "TeamAmount")
                for i in range(len(sizes)):
                    for d in (-1, 1):
                        w = [list(x) for x in full]
                        w[i] = [P] * (sizes[i] + d)
                        bad("%s weight for team %d" % ("missing" if d < 0 else "surplus", i), w, "PlayerAmount", team=i)
                    for j in range(sizes[i]):
                        w = [list(x) for x in full]
                        w[i][j] = M
                        bad("negative weight for player %d of team %d" % (j, i), w, "Weight", team=i, player=j)
                # first offender
                w = [list(x) for x in full]
                w[0][0] = M
                w[-1][-1] = M
                bad("two negative weights", w, "Weight", team=0, player=0)
                fn, r = run(which, ts, cfg, some(Lst([Lst(x) for x in full])))
                c.eq("trueskill %s: positive weights are accepted in teams %s" % (which, sizes), fn, r.tag, I(0))
                fn, r0 = run(which, ts, cfg, c.none())
                c.eq("trueskill %s: missing weights are accepted in teams %s" % (which, sizes), fn, r0.tag, I(0))
                fn, r1 = run(which, ts, cfg, some(Lst([Lst([R(1)] * k) for k in sizes])))
                c.eq("trueskill %s: no weights are weights of one in teams %s" % (which, sizes), fn, r0.pay[0][0], r1.pay[0][0])
                if sizes == (2, 1):
                    z = [[P, R(0)], [P]]
                    fn, rz = run(which, ts, cfg, some(Lst([Lst(x) for x in z])))
                    c.eq("trueskill %s: a weight of zero is accepted" % which, fn, rz.tag, I(0))
                    if which == "rate":
                        idle = rz.pay[0][0].v[0].v[1]
                        c.eq("trueskill rate: a player who did not take part keeps the rating", fn, G(c, idle), G(c, ts[0].v[1]))
                        c.eq("trueskill rate: a player who did not take part only gains dynamics", fn, G(c, idle, "uncertainty"),
                             hyp(G(c, ts[0].v[1], "uncertainty"), G(c, cfg, "dynamics_factor")))


# ------------------------------------------------------------------ C34
class Ga:
    """Gaussian in natural parameters"""

    def __init__(s, pi_, tau):
        s.pi, s.tau = pi_, tau


def ep(c, teams, ranks, cfg, weights, rounds):
    """expectation propagation for teams already in rank order (Herbrich et al.), messages between team performances and differences"""
    beta2, t2 = powi(G(c, cfg, "beta"), 2), powi(G(c, cfg, "dynamics_factor"), 2)
    n = len(teams)
    m = [total(w * G(c, p) for p, w in zip(t, ws)) for t, ws in zip(teams, weights)]
    v = [total(w * w * (powi(G(c, p, "uncertainty"), 2) + t2 + beta2) for p, w in zip(t, ws)) for t, ws in zip(teams, weights)]
    prior = [Ga(R(1) / v[i], m[i] / v[i]) for i in range(n)]
    # messages from difference i to team i (L) and i+1 (Rr)
    zero = Ga(R(0), R(0))
    L, Rr = [zero] * (n - 1), [zero] * (n - 1)
    tm = [zero] * (n - 1)       # truncation messages

    def one(i):
        a = Ga(prior[i].pi + (Rr[i - 1].pi if i > 0 else R(0)), prior[i].tau + (Rr[i - 1].tau if i > 0 else R(0)))
        b = Ga(prior[i + 1].pi + (L[i + 1].pi if i + 1 < n - 1 else R(0)), prior[i + 1].tau + (L[i + 1].tau if i + 1 < n - 1 else R(0)))
        ma, va, mb, vb = a.tau / a.pi, R(1) / a.pi, b.tau / b.pi, R(1) / b.pi
        dv, dm = va + vb, ma - mb
        sd = sqrt(dv)
        eps = margin(c, cfg, len(teams[i]) + len(teams[i + 1]))
        V, W = ts_vw(dm / sd, eps / sd, ranks[i] == ranks[i + 1])
        # truncated Gaussian, its message = posterior / cavity
        pv, pm = dv * (R(1) - W), dm + sd * V
        mp, mt = R(1) / pv - R(1) / dv, pm / pv - dm / dv
        tm[i] = (mp, mt)
        # messages to the teams: t_i = d + t_{i+1}
        L[i] = None
        lv = R(1) / mp + vb
        L[i] = Ga(R(1) / lv, (mt / mp + mb) / lv)
        rv = R(1) / mp + va
        Rr[i] = Ga(R(1) / rv, (ma - mt / mp) / rv)

    for _ in range(rounds if n > 2 else 1):
        for i in range(n - 1):
            one(i)
        for i in reversed(range(n - 1)):
            one(i)
    out = []
    for i in range(n):
        up = Ga(R(0), R(0))
        if i > 0:
            up = Ga(up.pi + Rr[i - 1].pi, up.tau + Rr[i - 1].tau)
        if i < n - 1:
            up = Ga(up.pi + L[i].pi, up.tau + L[i].tau)
        # posterior of the team performance given the outside information; project on the players
        um, uv = up.tau / up.pi, R(1) / up.pi
        k = R(1) / (uv + v[i])
        row = []
        for p, w in zip(teams[i], weights[i]):
            s2 = powi(G(c, p, "uncertainty"), 2) + t2
            row.append({"rating": G(c, p) + w * s2 * k * (um - m[i]), "uncertainty": sqrt(s2 - w * w * s2 * s2 * k)})
        out.append(row)
    return out


@prop("C34", "Rule: trueskill_multi_team: two teams give the exact posterior of the truncated team difference; for more teams the result is the fixed point "
      "of the expectation propagation over adjacent teams (compared with an independent derivation unrolled to convergence); weights scale a player's share.")
def c34(c):
    fn = TS.headfn + "_multi_team"
    # closed games: the two team performances differ by little enough for the truncated tails to be representable
    base = [UNC, (r"\.rating$", 10.0, 40.0), (r"uncertainty$", 1.0, 10.0), (r"beta", 2.0, 8.0), (r"draw_prob", 0.05, 0.5), (r"dynamics", 0.0, 1.0), (r"^w", 0.2, 2.0)]
    for sizes in ((1, 1), (2, 1), (2, 3)):
        for ranks in ((1, 2), (2, 1), (3, 3)):
            for weighted in (False, True) if c.deep or sizes == (2, 1) else (False,):
                with c.group("two teams %s %s" % (sizes, ranks)):
                    c.dom = D(*base[1:], tol=Fr(1, 10**5))
                    c.dom.prove = c.deep
                    ts = [team(c, TS, "t%d" % i, k) for i, k in enumerate(sizes)]
                    cfg = TS.C(c)
                    ws = [[var("w%d%d" % (i, j), "R") if weighted else R(1) for j in range(k)] for i, k in enumerate(sizes)]
                    g = multi(c, TS, ts, ranks, cfg, ws if weighted else None)
                    od = (1, 0) if ranks[0] > ranks[1] else (0, 1)
                    w = ep(c, [ts[i].v for i in od], [ranks[i] for i in od], cfg, [ws[i] for i in od], 1)
                    rows(c, "trueskill: two teams %s, ranks %s%s" % (sizes, ranks, ", weighted" if weighted else ""), fn, [g.v[i] for i in od], w)
    many = [((1, 1, 1), (1, 2, 3)), ((1, 1, 1), (1, 1, 2)), ((1, 1, 1), (3, 1, 2)), ((2, 1, 1), (1, 2, 2)), ((1, 1, 1), (5, 5, 5)), ((1, 2, 1), (2, 1, 3))]
    many += [((1,) * (k - 1) + (2 if k > 5 else 1,), tuple(range(1, k + 1))) for k in (4, 5, 6)] + [((1,) * 5, (2, 1, 1, 3, 3))]
    many += [((1,) * (k - 1) + (2,), tuple(range(1, k + 1))) for k in c.lens(fn, base=(6,), cap=9, spread=(-1, 0, 1, 2))[1]]
    if c.deep:
        many += [((1, 1, 1, 1), (1, 2, 3, 4)), ((1, 1, 1, 1), (2, 1, 1, 3)), ((2, 1, 2), (3, 2, 1))]
    for sizes, ranks in many:
        for weighted in (False, True) if c.deep or ranks in ((1, 2, 2), (2, 1, 3)) else (False,):
            with c.group("teams %s %s" % (sizes, ranks)):
                c.dom = D((r"\.rating$", 20.0, 30.0), (r"uncertainty$", 3.0, 9.0), (r"beta", 3.0, 6.0), (r"draw_prob", 0.05, 0.3), (r"dynamics", 0.0, 0.5),
                          (r"^w", 0.5, 1.5), tol=Fr(1, 1000 if len(sizes) < 5 else 200))
                c.dom.prove = False
                c.dom.light = len(sizes) > 3
                ts = [team(c, TS, "t%d" % i, k) for i, k in enumerate(sizes)]
                cfg = TS.C(c)
                ws = [[var("w%d%d" % (i, j), "R") if weighted else R(1) for j in range(k)] for i, k in enumerate(sizes)]
                g = multi(c, TS, ts, ranks, cfg, ws if weighted else None)
                od = sorted(range(len(sizes)), key=lambda i: ranks[i])
                w = ep(c, [ts[i].v for i in od], [ranks[i] for i in od], cfg, [ws[i] for i in od], 8)
                if len(sizes) > 3 and not c.deep:       # the first, a middle and the last team
                    k = (0, len(od) // 2, len(od) - 1)
                    od, w = [od[i] for i in k], [w[i] for i in k]
                rows(c, "trueskill: %d teams %s, ranks %s%s" % (len(sizes), sizes, ranks, ", weighted" if weighted else ""), fn, [g.v[i] for i in od], w)


# ------------------------------------------------------------------ C35
def det(m):
    if len(m) == 1:
        return m[0][0]
    r = R(0)
    for j in range(len(m)):
        x = m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + x if j % 2 == 0 else r - x
    return r


def quality(c, teams, cfg, weights):
    """sqrt(det(beta^2 A'A)/det(M)) exp(-mu' A M^-1 A' mu / 2), M = beta^2 A'A + A'SA over adjacent teams"""
    n = len(teams) - 1
    b2 = powi(G(c, cfg, "beta"), 2)
    tb = [total(w * w for w in ws) * b2 for ws in weights]
    tv = [total(w * w * powi(G(c, p, "uncertainty"), 2) for p, w in zip(t, ws)) for t, ws in zip(teams, weights)]
    mu = [total(w * G(c, p) for p, w in zip(t, ws)) for t, ws in zip(teams, weights)]

    def tri(x):
        return [[x[i] + x[i + 1] if i == j else -x[max(i, j)] if abs(i - j) == 1 else R(0) for j in range(n)] for i in range(n)]
    A = tri(tb)
    M = tri([a + b for a, b in zip(tb, tv)])
    d = [mu[i] - mu[i + 1] for i in range(n)]
    dm = det(M)
    q = R(0)
    for i in range(n):
        # Cramer: (M^-1 d)_i
        Mi = [[d[r] if k == i else M[r][k] for k in range(n)] for r in range(n)]
        q = q + d[i] * det(Mi) / dm
    return sqrt(det(A) / dm) * exp(-q / R(2))


@prop("C35", "Rule: match quality is the draw probability sqrt(det(beta^2 A'A)/det(beta^2 A'A + A'SA)) exp(-1/2 mu'A(...)^-1 A'mu), between 0 and 1, symmetric, "
      "best for equal ratings; the period variant maps it over the opponents; empty input has quality 0.")
def c35(c):
    sharp = TS.dom.with_()      # no error function involved
    sharp.tol = None
    f1, fp, f2, fm = ("trueskill::match_quality" + x for x in ("", "_rating_period", "_two_teams", "_multi_team"))
    with c.group("duel"):
        a, b = inputs(c, TS)
        c.dom = sharp
        cfg = TS.C(c)
        q = c.call(f1, a, b, cfg)
        one = [[R(1)], [R(1)]]
        c.eq("trueskill: match quality of a duel", f1, q, quality(c, [[a], [b]], cfg, one))
        c.le("trueskill: match quality is at least 0", f1, R(0), q)
        c.le("trueskill: match quality is at most 1", f1, q, R(1))
        c.eq("trueskill: match quality is symmetric", f1, q, c.call(f1, b, a, cfg))
        c.le("trueskill: equal ratings make the best match", f1, q, c.call(f1, a, c.put(b, rating=G(c, a)), cfg))
        for n, uni in shapes(c, TS, fp):
            opp = [TS.R(c, "b" if uni else "b%d" % i) for i in range(n)]
            c.eq("trueskill: match qualities against %d opponents" % n, fp, c.call(fp, a, Lst(opp), cfg), Lst([c.call(f1, a, b_, cfg) for b_ in opp]))
    for n1, n2 in ((1, 1), (2, 1), (1, 2), (2, 2), (2, 3)):
        with c.group("two teams"):
            c.dom = sharp
            cfg = TS.C(c)
            t1, t2 = team(c, TS, "p", n1), team(c, TS, "q", n2)
            q = c.call(f2, t1, t2, cfg)
            c.eq("trueskill: match quality of two teams %d/%d" % (n1, n2), f2, q, quality(c, [t1.v, t2.v], cfg, [[R(1)] * n1, [R(1)] * n2]))
            c.eq("trueskill: match quality of two teams %d/%d is symmetric" % (n1, n2), f2, q, c.call(f2, t2, t1, cfg))
            c.le("trueskill: match quality of two teams is at most 1", f2, q, R(1))
    for sizes in ((), (0,), (1, 0), (0, 2), (1, 0, 1)):
        with c.group("empty"):
            c.dom = TS.dom
            cfg = TS.C(c)
            r = c.call(fm, Lst([team(c, TS, "t%d" % i, k) for i, k in enumerate(sizes)]), cfg, c.none())
            c.eq("trueskill: empty teams %s have quality 0" % (sizes,), fm, r.tag, I(0))
            c.eq("trueskill: empty teams %s have quality zero" % (sizes,), fm, r.pay[0][0], R(0))
    shp = [(1, 1), (2, 1), (2, 2), (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 1, 1), (1, 2, 1, 1), (1,) * 5]
    shp += [(2, 2, 2), (2, 1, 1, 1, 1), (1,) * 6] if c.deep else []
    shp += [(1,) * k for k in c.lens(fm, base=(5,), cap=7, spread=(0, 1, 2))[1]] + [(k, 1) for k in crowds(c, fm)]
    for sizes in shp:
        for weighted in (False, True) if len(sizes) < 6 and max(sizes) < 12 else (False,):
            with c.group("teams %s" % (sizes,)):
                c.dom = D(UNC, (r"\.rating$", 10.0, 40.0), (r"beta", 1.0, 10.0), (r"^w", 0.2, 2.0, 0.01, 1e4), tol=Fr(1, 10**7))
                cfg = TS.C(c)
                ts = [(team if max(sizes) < 4 else crowd)(c, TS, "t%d" % i, k) for i, k in enumerate(sizes)]
                ws = [[var("w%d%d" % (i, min(j, 2)), "R") if weighted else R(1) for j in range(k)] for i, k in enumerate(sizes)]
                r = c.call(fm, Lst(ts), cfg, some(Lst([Lst(x) for x in ws])) if weighted else c.none())
                nm = "trueskill: match quality of teams %s%s" % (sizes, ", weighted" if weighted else "")
                c.eq(nm + " is a number", fm, r.tag, I(0))
                c.eq(nm, fm, r.pay[0][0], quality(c, [t.v for t in ts], cfg, ws))
                if not weighted and len(sizes) > 1:
                    p = list(range(1, len(sizes))) + [0]
                    r2 = c.call(fm, Lst([ts[i] for i in p]), cfg, c.none())
                    c.eq("trueskill: match quality of teams %s does not depend on their order" % (sizes,), fm, r.pay[0][0], r2.pay[0][0])


# ------------------------------------------------------------------ C37
@prop("C37", "Rule: the entry points agree where they overlap: teams of one are the duel, two teams are the multi-team game (Weng-Lin rating and "
      "expectation, TrueSkill expectation and match quality).")
def c37(c):
    for s in (WL, TS):
        with c.group(s.name + " teams of one"):
            a, b = inputs(c, s)
            o, cfg = c.outcome("o"), s.C(c)
            f2, e2 = s.headfn + "_two_teams", s.expfn + "_two_teams"
            x, y = s.head(c, a, b, o, cfg)
            c.eq("%s: teams of one are rated like the two players" % s.name, f2, c.call(f2, Lst([a]), Lst([b]), o, cfg), Tup([Lst([x]), Lst([y])]))
            c.eq("%s: teams of one expect what the two players expect" % s.name, e2, c.call(e2, Lst([a]), Lst([b]), cfg), Tup(s.exp(c, a, b, cfg)))
        big = crowds(c, *[f + x for f in (s.headfn, s.expfn) for x in ("_two_teams", "_multi_team")])
        for n1, n2 in [(1, 1), (2, 1), (1, 3)] + [(k, k) for k in big]:
            with c.group(s.name + " two teams"):
                c.dom = s.dom
                cfg = s.C(c)
                t1, t2 = (team if n1 < 4 else crowd)(c, s, "p", n1), (team if n1 < 4 else crowd)(c, s, "q", n2)
                em = s.expfn + "_multi_team"
                c.eq("%s: two teams %d/%d expect the same in a multi-team game" % (s.name, n1, n2), em, c.call(em, Lst([t1, t2]), cfg),
                     Lst(c.call(s.expfn + "_two_teams", t1, t2, cfg).v))
                if s is WL:
                    for o, rk in (("WIN", (1, 2)), ("DRAW", (4, 4)), ("LOSS", (7, 3))):
                        c.eq("weng_lin: two teams %d/%d are rated the same in a multi-team game (%s)" % (n1, n2, o), s.headfn + "_multi_team",
                             multi(c, s, [t1, t2], rk, cfg), Lst(c.call(s.headfn + "_two_teams", t1, t2, c.outcome(o), cfg).v))
    with c.group("quality"):
        a, b = inputs(c, TS)
        cfg = TS.C(c)
        q = c.call("trueskill::match_quality", a, b, cfg)
        c.eq("trueskill: the quality of teams of one is the duel's", "trueskill::match_quality_two_teams",
             c.call("trueskill::match_quality_two_teams", Lst([a]), Lst([b]), cfg), q)
        for n1, n2 in ((1, 1), (2, 1), (2, 2)):
            t1, t2 = team(c, TS, "p", n1), team(c, TS, "q", n2)
            r = c.call("trueskill::match_quality_multi_team", Lst([t1, t2]), cfg, c.none())
            c.eq("trueskill: the quality of two teams %d/%d is the same in a multi-team game" % (n1, n2), "trueskill::match_quality_multi_team", r.pay[0][0],
                 c.call("trueskill::match_quality_two_teams", t1, t2, cfg))


# ------------------------------------------------------------------ C38
@prop("C38", "Rule: only rating differences matter (Elo, FIFA, Ingo, Glicko, Glicko-2, Sticko, Weng-Lin, TrueSkill): shifting every rating by the same "
      "amount leaves expectations, match quality and uncertainties unchanged and shifts the new ratings by that amount.")
def c38(c):
    h = var("shift", "R")

    def sh(v):
        return c.put(v, rating=G(c, v) + h)

    def shl(l):
        return Lst([sh(x) for x in l.v])
    for n in ("elo", "fifa", "ingo", "glicko", "glicko2", "sticko", "weng_lin", "trueskill"):
        s = SYS[n]
        d = s.dom.with_((r"^shift$", -15.0, 15.0, -200.0, 200.0) if n == "weng_lin" else (r"^shift$", -15.0, 15.0) if n == "trueskill"
                        else (r"^shift$", -300.0, 300.0, -5000.0, 5000.0))
        with c.group(n):
            c.dom = d
            a, b = s.R(c, "a"), s.R(c, "b")
            cfg = s.C(c)
            c.eq("%s: expected scores depend on the rating difference only" % n, s.expfn, Tup(s.exp(c, sh(a), sh(b), cfg)), Tup(s.exp(c, a, b, cfg)))
            for o in ("WIN", "DRAW", "LOSS"):
                x = s.head(c, a, b, c.outcome(o), cfg)
                y = s.head(c, sh(a), sh(b), c.outcome(o), cfg)
                for i in (0, 1):
                    c.eq("%s: shifting all ratings shifts the new ratings (player %d, %s)" % (n, i + 1, o), s.headfn, y[i], sh(x[i]))
            gs = games(c, s, 2) if n not in SEQ else games(c, s, 1)
            p = s.period(c, a, gs, cfg)
            q = s.period(c, sh(a), [(sh(b_), o_, sd) for b_, o_, sd in gs], cfg)
            c.eq("%s: shifting all ratings shifts the rating after a period" % n, s.perfn, q, sh(p))
    for s in (WL, TS):
        with c.group(s.name + " teams"):
            c.dom = s.dom.with_((r"^shift$", -15.0, 15.0))
            t1, t2 = team(c, s, "p", 2), team(c, s, "q", 2)
            cfg = s.C(c)
            fn = s.headfn + "_two_teams"
            for o in ("WIN", "DRAW", "LOSS"):
                x = c.call(fn, t1, t2, c.outcome(o), cfg)
                y = c.call(fn, shl(t1), shl(t2), c.outcome(o), cfg)
                c.eq("%s: shifting all ratings shifts the ratings of equally large teams (%s)" % (s.name, o), fn, y, Tup([shl(v) for v in x.v]))
    with c.group("quality"):
        c.dom = TS.dom.with_((r"^shift$", -15.0, 15.0))
        c.dom.tol = Fr(1, 10**6)
        a, b = TS.R(c, "a"), TS.R(c, "b")
        cfg = TS.C(c)
        fn = "trueskill::match_quality"
        c.eq("trueskill: match quality depends on the rating difference only", fn, c.call(fn, sh(a), sh(b), cfg), c.call(fn, a, b, cfg))


# ------------------------------------------------------------------ C18
@prop("C18", "Rule: no public function can reach a panic (index, slice or split out of bounds, unwrap of None/Err, missing map key, unsigned underflow, "
      "integer division by zero, failed assertion, explicit panic) on valid input: every path condition of every reachable panic site is refuted, "
      "for result lists of 0..6 games, 0..4 teams of 0..3 players, every outcome, rank order and configuration.")
def c18(c):
    import itertools
    for s in PAIR:
        with c.group(s.name):
            a, b = inputs(c, s)
            cfg = s.C(c)
            for o in ("WIN", "DRAW", "LOSS"):
                s.head(c, a, b, c.outcome(o), cfg)
            s.exp(c, a, b, cfg)
            c.method("std::default::Default", s.rating, "default")
        for n, uni in shapes(c, s, s.perfn, s.expperfn, base=(0, 1, 2, 3, 4, 5, 6) if s.name not in ("trueskill", "glicko2") else (0, 1, 2)):
            if uni and n > 12 and s.name in ("trueskill", "glicko2", "weng_lin"):
                continue
            with c.group("%s n=%d" % (s.name, n)):
                a, = inputs(c, s, ("a",))
                cfg = s.C(c)
                gs = games(c, s, n, uni or n > 2)
                s.period(c, a, gs, cfg)
                s.expper(c, a, [(g[0], g[2]) for g in gs], cfg)
        if s.name in DECAY:
            with c.group(s.name + " decay"):
                a, = inputs(c, s, ("a",))
                c.call(s.mod + "::decay_deviation", *([a] + ([s.C(c)] if s.name != "glicko2" else [])))
                c.call(s.mod + "::confidence_interval", a)
    with c.group("first dwz"):
        c.dom = D((r"\.rating$", -500.0, 4000.0), ints=(0, 120))
        b = SYS["dwz"].R(c, "b")
        for n in range(0, 9):
            for w in range(n + 1):
                for d in range(n + 1 - w):
                    os_ = ["WIN"] * w + ["DRAW"] * d + ["LOSS"] * (n - w - d)
                    c.call("dwz::get_first_dwz", var("n:age", "I"), Lst([Tup([b, c.outcome(o)]) for o in os_]))
    with c.group("uscf new"):
        c.call("uscf::USCFRating::new", var("n:age", "I"))
    for s in (WL, TS):
        for n1, n2 in itertools.product(range(3), range(3)):
            with c.group("%s teams %d/%d" % (s.name, n1, n2)):
                c.dom = s.dom
                t1, t2 = team(c, s, "p", n1), team(c, s, "q", n2)
                cfg = s.C(c)
                for o in ("WIN", "DRAW", "LOSS"):
                    c.call(s.headfn + "_two_teams", t1, t2, c.outcome(o), cfg)
                c.call(s.expfn + "_two_teams", t1, t2, cfg)
                if s is TS:
                    c.call("trueskill::match_quality_two_teams", t1, t2, cfg)
        shp = [()] + [(k,) for k in range(3)] + list(itertools.product(range(3), repeat=2)) + [(1, 1, 1), (2, 1, 0), (1, 2, 3), (0, 1, 1), (3, 1, 2), (1, 1, 1, 1), (2, 1, 1, 2)]
        for sizes in shp:
            with c.group("%s multi-team %s" % (s.name, sizes)):
                c.dom = s.dom
                ts = [team(c, s, "t%d" % i, k) for i, k in enumerate(sizes)]
                cfg = s.C(c)
                n = len(sizes)
                for ranks in {tuple(range(n)), tuple(range(n, 0, -1)), (1,) * n, tuple(i // 2 for i in range(n))}:
                    if s is WL:
                        c.call(s.headfn + "_multi_team", tr_list(c, ts, ranks), cfg)
                    else:
                        c.call(s.headfn + "_multi_team", tr_list(c, ts, ranks), cfg, c.none())
                c.call(s.expfn + "_multi_team", Lst(ts), cfg)
                if s is TS:
                    c.call("trueskill::match_quality_multi_team", Lst(ts), cfg, c.none())
                    W = D(UNC, SK, (r"beta", 0.5, 20.0), (r"draw_prob", 0.02, 0.9), (r"dynamics", 0.0, 2.0), (r"^w", 0.1, 2.0), tol=Fr(1, 10**4))
                    c.dom = W
                    for w in ([[var("w%d%d" % (i, j), "R") for j in range(k)] for i, k in enumerate(sizes)],
                              [[var("w%d" % i, "R")] for i in range(n)], [], [[var("w", "R")] * (k + 1) for k in sizes]):
                        c.call(s.headfn + "_multi_team", tr_list(c, ts, range(n)), cfg, some(Lst([Lst(x) for x in w])))
                        c.call("trueskill::match_quality_multi_team", Lst(ts), cfg, some(Lst([Lst(x) for x in w])))
    c.obs = [o for o in c.obs if "does not panic" in o.name]
    # every function without a reachable panic counts as an obligation of its own
    bad = {o.name.split(" does not")[0] for o in c.obs}
    for f in sorted(c.fns):
        c.add("bool", TRUE, None, "%s: the %s panic sites reached were examined" % (f, "listed" if f in bad else "(no)"), f)


def hasstatic(e):
    todo = list(e)
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "static":
                return True
            todo += [y for k, y in x.items() if isinstance(y, (dict, list)) and x.get("k") != "closure"]
        elif isinstance(x, list):
            todo += x
    return False


# ------------------------------------------------------------------ C19
IMPURE = ("std::time::", "std::env::", "std::fs::", "std::io::", "std::net::", "std::thread::", "std::process::", "std::sync::atomic", "std::random",
          "core::sync::atomic", "std::sync::Mutex", "std::sync::RwLock", "std::sync::mpsc", "std::hash::RandomState", "std::collections::hash_map::RandomState",
          "std::hash::random", "std::ptr::read_volatile", "core::ptr::read_volatile", "std::intrinsics::volatile", "std::os::", "std::ptr::addr",
          "std::hash::BuildHasher", "std::arch::", "core::arch::", "std::alloc::")
HASHITER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "extract_if")
MUTSTATIC = ("Atomic", "Mutex", "RwLock", "RefCell", "Cell<", "UnsafeCell", "*mut")
ONCE = ("OnceLock", "LazyLock", "OnceCell", "LazyCell")


@prop("C19", "Rule: every function of the crate is a function of its arguments: no call to a clock, random source, environment, file, thread, atomic, lock "
      "or thread-local, no static with interior mutability, no iteration over a hash map or set, no pointer turned into a number, no mutable reference "
      "to an argument in a public entry point. Decided over the resolved callees of every body.")
def c19(c):
    c.dom = D()
    p = c.p

    def bad(fn, sp, what):
        c.add("bool", FALSE, None, "%s %s" % (fn, what), None)
        c.obs[-1].where = sp

    def interior(t, seen=()):
        """the type (or a field of a type of this crate it mentions) can change behind a shared reference; once-cells are judged by their uses"""
        t2 = re.sub("(%s)<" % "|".join(ONCE), "<", t)
        if any(m in t2 for m in MUTSTATIC):
            return True
        for a, d in p.adts.items():
            if a not in seen and re.search(r"(^|[^\w:])%s($|[^\w:])" % re.escape(a), t2):
                if any(interior(p.types[f["ty"]]["s"], seen + (a,)) for v in d["variants"] for f in v["fields"]):
                    return True
        return False

    for st in p.statics:
        t = st["tys"]
        if "mutability: Mut" in st["kind"] or interior(t):
            bad(st["path"], st.get("sp", st["path"]), "is mutable global state (%s)" % t)
        else:
            c.add("bool", TRUE, None, "static %s is immutable" % st["path"], None)
    for b in p.bodies.values():
        path = b["path"]
        if " as std::fmt::" in path or " as std::hash::" in path:
            continue
        n = len(c.obs)
        todo = [b["body"]]
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                todo += x
                continue
            if not isinstance(x, dict):
                continue
            todo += [y for y in x.values() if isinstance(y, (dict, list))]
            if x.get("k") == "cast" and isinstance(x.get("e"), dict) and isinstance(x["e"].get("ty"), int):
                s, d = p.types[x["e"]["ty"]]["s"], p.types[x["ty"]]["s"]
                if s.startswith("*") and not d.startswith("*"):
                    bad(path, x.get("sp", ""), "turns a pointer into a number")
            cal = x.get("callee") if x.get("k") == "call" else x if "path" in x and "kind" in x else None
            if not isinstance(cal, dict) or "path" not in cal:
                continue
            names = [cal["path"]] + ([cal["rpath"]] if cal.get("rpath") else [])
            sp = x.get("sp", b.get("sp", ""))
            for nm in names:
                k = nm.lstrip("<")
                if k.startswith(IMPURE) or "LocalKey" in k:
                    bad(path, sp, "calls %s" % nm)
                    break
                last = k.split("::")[-1]
                if any("%s::" % o in k for o in ONCE) and x.get("k") == "call" and hasstatic(x.get("args") or []):
                    cl = [y for y in x["args"] if isinstance(y, dict) and y.get("k") == "closure"]
                    if last in ("set", "try_insert", "take", "get_mut", "replace") or last.startswith("get_or") and any(y.get("upvars") for y in cl) and b["params"]:
                        bad(path, sp, "remembers values of a call in a global (%s)" % nm)
                        break
                if ("HashMap" in k or "HashSet" in k or "hash_map" in k or "hash_set" in k) and (last in HASHITER or last == "into_iter"):
                    bad(path, sp, "iterates over a hash table (%s)" % nm)
                    break
        if len(c.obs) == n:
            c.add("bool", TRUE, None, "%s depends on its arguments only" % path, path)
        c.fns.add(path)
        # public entry points do not take mutable references
    for s in PAIR:
        for fn in (s.headfn, s.perfn, s.expfn, s.expperfn):
            try:
                b = c.body(fn)
            except Missing:
                continue
            ok = not any("&mut" in p.types[q["ty"]]["s"] for q in b["params"] if isinstance(q.get("ty"), int))
            c.add("bool", B(ok), None, "%s does not modify its arguments" % fn, fn)
