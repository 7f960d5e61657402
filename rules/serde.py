"""The serde feature: what is written is what is read, and the feature changes nothing else."""
from .reg import prop
from .systems import *
from .cross import games, inputs, team
from vg import prog as prog_
from vg import serde as serde_
from vg.ev import Ev, State
from vg.values import *

TYPES = [s.rating for s in PAIR] + [s.config for s in PAIR if s.config] + ["Outcomes", "MultiTeamOutcome"]


def results(c, s):
    """(label, function, abstract value) of every entry point of a system, in the program c.p"""
    a, b = inputs(c, s)
    cfg = s.C(c)
    o = c.outcome("o")
    yield "head to head", s.headfn, Tup(s.head(c, a, b, o, cfg))
    yield "expected score", s.expfn, Tup(s.exp(c, a, b, cfg))
    g = games(c, s, 2)
    yield "rating period", s.perfn, s.period(c, a, g, cfg)
    yield "expected scores of a period", s.expperfn, s.expper(c, a, [(x[0], x[2]) for x in g], cfg)
    yield "default rating", s.rating + "::new", c.call(s.rating + "::new", *[var("n:age", "I") for q in c.body(s.rating + "::new")["params"] if "pat" in q])
    if s.config:
        yield "default configuration", s.config + "::new", c.call(s.config + "::new")
    if s.name in ("weng_lin", "trueskill"):
        x, y = team(c, s, "p", 2), team(c, s, "q", 2)
        yield "two teams", s.headfn + "_two_teams", c.call(s.headfn + "_two_teams", x, y, o, cfg)
        yield "expected scores of teams", s.expfn + "_multi_team", c.call(s.expfn + "_multi_team", Lst([x, y]), cfg)


@prop("C41", "Rule: with the serde feature every public rating, configuration, outcome and rank is written and read back as the same value, by name and by "
      "position; the feature changes no rating, expectation or default.")
def c41(c):
    plain = c.p
    c.dom = D(default=(-5000.0, 5000.0), ints=(0, 2**40))
    with c.group("serde front end"):
        c.p = prog_.load(serde=True)
    if c.p is plain:
        return
    c.pathcache = {}
    try:
        for adt in TYPES:
            for mode in ("map", "seq"):
                with c.group("%s %s" % (adt, mode)):
                    path = c.adtpath(adt)
                    nm = adt.split("::")[-1]
                    vs = c.p.adts[path]["variants"]
                    c.site = "%s (%s)" % (c.p.adts[path]["sp"].replace("/repo/", ""), path)
                    for tr in ("Serialize", "Deserialize"):
                        m = "serialize" if tr == "Serialize" else "deserialize"
                        c.holds("%s implements %s" % (nm, tr), None, B(any(c.p.trait_method(p + tr, path, m) for p in ("serde::", "serde::ser::", "serde::de::"))))
                    if len(vs) > 1:
                        vals = [Adt(path, I(i), {i: ()}) for i in range(len(vs)) if not vs[i]["fields"]]
                    else:
                        vals = [c.sym(adt, "x")]
                    for v in vals:
                        r = c.raw(lambda ev, st: serde_.roundtrip(ev, st, v, path, mode))
                        what = "%s%s (%s)" % (nm, "::" + vs[cv(v.tag)]["name"] if len(vs) > 1 else "", "by name" if mode == "map" else "by position")
                        c.eq("%s can be read back" % what, None, r.tag, I(0))
                        if 0 in r.pay:
                            c.eq("%s is read back as the same value" % what, None, r.pay[0][0], v)
        rich = c.p
        for s in PAIR:
            with c.group("%s with and without the feature" % s.name):
                c.dom = s.dom
                c.p, c.pathcache = rich, {}
                r = list(results(c, s))
                c.p, c.pathcache = plain, {}
                for (what, fn, v), (_, _, w) in zip(results(c, s), r):
                    c.eq("%s: %s is the same with the serde feature" % (s.name, what), fn, v, w)
    finally:
        c.p, c.pathcache, c.site = plain, {}, ""
