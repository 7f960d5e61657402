"""Finite ratings stay finite: no overflow, division by zero or NaN under f64 semantics."""
import itertools
from .reg import prop
from .systems import *
from .cross import games, shapes, team, inputs
from .teams import tr_list, WL, TS


@prop("C42", "Rule: finite inputs give finite results: no public function of any rating system returns an infinity or NaN for ratings, deviations and "
      "configurations in the domain, however large the rating difference; overflow, underflow to zero and rounding to one are part of the analysis.")
def c42(c):
    def dom(s):
        # beta(x) = -7 ln(3300 - h - x) bounds EGF ratings from above, by up to nine stones less with a handicap
        c.dom = s.dom
        if s.name == "egf":
            c.dom = s.dom.with_((r"\.rating$", -900.0, 2400.0, -3000.0, 2400.0))
        if s is TS:
            # tau above sqrt(2) beta is exempt, as for C08
            c.dom = s.dom.with_((r"uncertainty$", 0.05, 15.0, 0.01, 25.0), (r"\.rating$", -60.0, 120.0, -300.0, 500.0), (r"beta", 0.5, 20.0),
                                (r"draw_prob", 0.02, 0.9, 0.001, 0.99), (r"dynamics", 0.0, 0.05))

    keep, c.summ = c.summ, {}           # the crate's own error function, not the symbolic one
    try:
        for s in PAIR:
            with c.group(s.name):
                a, b = inputs(c, s)
                dom(s)
                cfg = s.C(c)
                c.finite("%s: the expected score is a finite number" % s.name, s.expfn, Tup(s.exp(c, a, b, cfg)))
                for o in ("WIN", "DRAW", "LOSS"):
                    c.finite("%s: ratings stay finite after a %s" % (s.name, o.lower()), s.headfn, Tup(s.head(c, a, b, c.outcome(o), cfg)))
            for n in (0, 1, 2) if s.name not in ("trueskill", "glicko2") else (0, 1):
                with c.group("%s n=%d" % (s.name, n)):
                    a, = inputs(c, s, ("a",))
                    dom(s)
                    cfg = s.C(c)
                    for os_ in itertools.product(("WIN", "DRAW", "LOSS"), repeat=n):
                        gs = [(s.R(c, "b%d" % i), c.outcome(o), s.side(c, "s%d" % i)) for i, o in enumerate(os_)]
                        c.finite("%s: a rating period of %d games ends finite" % (s.name, n), s.perfn, s.period(c, a, gs, cfg))
                    c.finite("%s: the expected scores of %d opponents are finite" % (s.name, n), s.expperfn, s.expper(c, a, [(g[0], g[2]) for g in gs], cfg))
            if s.name in DECAY:
                with c.group(s.name + " decay"):
                    a, = inputs(c, s, ("a",))
                    fn = s.mod + "::decay_deviation"
                    c.finite("%s: the decayed rating is finite" % s.name, fn, c.call(fn, *([a] + ([s.C(c)] if s.name != "glicko2" else []))))
        for s in (WL, TS):
            for n1, n2 in ((1, 1), (2, 1), (1, 2)):
                with c.group("%s teams %d/%d" % (s.name, n1, n2)):
                    dom(s)
                    t1, t2 = team(c, s, "p", n1), team(c, s, "q", n2)
                    cfg = s.C(c)
                    fn = s.headfn + "_two_teams"
                    for o in ("WIN", "DRAW", "LOSS"):
                        c.finite("%s: team ratings stay finite after a %s" % (s.name, o.lower()), fn, c.call(fn, t1, t2, c.outcome(o), cfg))
                    fn = s.expfn + "_two_teams"
                    c.finite("%s: the teams' expected scores are finite" % s.name, fn, c.call(fn, t1, t2, cfg))
                    if s is TS:
                        fn = "trueskill::match_quality_two_teams"
                        c.finite("trueskill: the match quality is finite", fn, c.call(fn, t1, t2, cfg))
            for sizes, ranks in (((1, 1), (1, 2)), ((1, 1), (1, 1)), ((1, 1, 1), (1, 2, 3)), ((1, 2, 1), (2, 1, 1))):
                with c.group("%s multi-team %s" % (s.name, sizes)):
                    dom(s)
                    ts = [team(c, s, "t%d" % i, k) for i, k in enumerate(sizes)]
                    cfg = s.C(c)
                    fn = s.expfn + "_multi_team"
                    c.finite("%s: the expected scores of several teams are finite" % s.name, fn, c.call(fn, Lst(ts), cfg))
                    fn = s.headfn + "_multi_team"
                    r = c.call(fn, tr_list(c, ts, ranks), cfg, *([c.none()] if s is TS else []))
                    c.finite("%s: ratings of several teams stay finite" % s.name, fn, r.pay[0][0] if s is TS else r)
                    if s is TS:
                        fn = "trueskill::match_quality_multi_team"
                        c.finite("trueskill: the match quality of several teams is finite", fn, c.call(fn, Lst(ts), cfg, c.none()).pay[0][0])
    finally:
        c.summ = keep
    c.obs = [o for o in c.obs if o.kind == "fin" or "exists" in o.name]
