"""The twelve rating systems: their public entry points under one calling convention, and the domains of their inputs."""
from vg.api import *

# domains: (regex on the symbolic input's name, lo, hi)
CHESS = (-1000.0, 5000.0)


def D(*rules, default=CHESS, ints=(0, 80), tol=None):
    d = Dom(list(rules) + [("δ", 0.0, 400.0)], default, ints)
    d.tol = tol
    return d


class System:
    """head/expected/period/expected_period take a per-game 'side' (colour bool or per-game config) where the API does"""

    def __init__(s, name, rating, config, dom, mod=None, head=None, colour=False, pergame=False, cfg=True, expcfg=False, struct=None,
                 period=True, unc=None):
        s.name, s.mod = name, mod or name
        s.rating, s.config = "%s::%s" % (s.mod, rating), config and "%s::%s" % (s.mod, config)
        s.dom = dom
        s.headfn = "%s::%s" % (s.mod, head or name)
        s.perfn = s.headfn + "_rating_period"
        s.expfn = "%s::expected_score" % s.mod
        s.expperfn = "%s::expected_score_rating_period" % s.mod
        s.colour, s.pergame, s.cfg, s.expcfg = colour, pergame, cfg, expcfg
        s.struct = "%s::%s" % (s.mod, struct)
        s.unc = unc

    # -- symbolic inputs
    def R(s, c, name, **over):
        return c.sym(s.rating, name, **over)

    def C(s, c, name="cfg", **over):
        return c.sym(s.config, name, **over) if s.config else None

    # -- calls
    def head(s, c, a, b, o, cfg, **kw):
        args = [a, b, o] + ([cfg] if s.config else [])
        r = c.call(s.headfn, *args, **kw)
        return r.v

    def exp(s, c, a, b, cfg, **kw):
        args = [a, b] + ([cfg] if s.expcfg else [])
        return c.call(s.expfn, *args, **kw).v

    def period(s, c, a, games, cfg, **kw):
        """games: [(opponent, outcome, side)]"""
        if s.colour or s.pergame:
            l = Lst([Tup([b, o, sd]) for b, o, sd in games])
        else:
            l = Lst([Tup([b, o]) for b, o, sd in games])
        args = [a, l] + ([cfg] if s.config and not s.pergame else [])
        return c.call(s.perfn, *args, **kw)

    def expper(s, c, a, opps, cfg, **kw):
        """opps: [(opponent, side)]"""
        if s.colour or s.pergame and s.expcfg:
            l = Lst([Tup([b, sd]) for b, sd in opps])
        else:
            l = Lst([b for b, sd in opps])
        args = [a, l] + ([cfg] if s.expcfg and not s.pergame else [])
        return c.call(s.expperfn, *args, **kw)

    def side(s, c, name):
        """symbolic per-game side"""
        if s.colour:
            return var(name + ".col", "B")
        if s.pergame:
            return s.C(c, name + ".cfg")
        return None


SYS = {}


def S(*a, **k):
    x = System(*a, **k)
    SYS[x.name] = x


RT = (r"\.rating$", -1000.0, 5000.0, -4000.0, 10000.0)
S("elo", "EloRating", "EloConfig", D(RT, (r"\.k$", 0.0, 200.0, 0.0, 1000.0)), struct="Elo")
S("fifa", "FifaRating", "FifaConfig", D(RT, (r"importance", 0.0, 100.0, 0.0, 1000.0)), pergame=True, struct="Fifa")
S("ingo", "IngoRating", None, D((r"\.rating$", -200.0, 500.0, -2000.0, 2000.0), ints=(0, 100)), cfg=False, struct="Ingo")
S("dwz", "DWZRating", None, D((r"\.rating$", 0.0, 4000.0, -1000.0, 7000.0), (r"\.age", 0, 100, 0, 200), (r"\.index", 0, 60, 0, 400), ints=(0, 100)), cfg=False, struct="DWZ")
S("uscf", "USCFRating", "USCFConfig", D((r"\.rating$", 100.0, 4000.0, 0.0, 6000.0), (r"\.t$", 1.0, 60.0, 0.0, 300.0), (r"games", 0, 60, 0, 500)), struct="USCF")
S("egf", "EGFRating", "EGFConfig", D((r"\.rating$", -900.0, 3200.0, -3000.0, 3290.0), (r"handicap", -9.0, 9.0)), pergame=True, expcfg=True, struct="EGF")
DEV = (r"deviation", 1.0, 350.0, 0.01, 1000.0)
S("glicko", "GlickoRating", "GlickoConfig", D(RT, DEV, (r"\.c$", 0.0, 200.0, 0.0, 1000.0)), struct="Glicko", unc="deviation")
S("glicko2", "Glicko2Rating", "Glicko2Config",
  D((r"\.rating$", -1000.0, 5000.0), (r"deviation", 1.0, 350.0, 0.1, 700.0), (r"volatility", 0.01, 0.3, 0.001, 1.5), (r"tau", 0.1, 2.0, 0.05, 5.0), (r"convergence", 1e-7, 1e-5, 1e-9, 1e-3)),
  struct="Glicko2", unc="deviation")
S("glicko_boost", "GlickoBoostRating", "GlickoBoostConfig",
  D(RT, DEV, (r"\.eta$", 0.0, 100.0, -100.0, 400.0), (r"\.k$", 0.0, 5.0, -5.0, 20.0), (r"\.b\.0", 0.0, 1.0, 0.0, 3.0), (r"\.b\.1", 0.0, 40.0, 0.0, 200.0),
    (r"alpha\.0", -3.0, 8.0), (r"alpha\.[12]", -0.02, 0.02), (r"alpha", -1.0, 1.0)),
  colour=True, expcfg=True, struct="GlickoBoost", unc="deviation")
S("sticko", "StickoRating", "StickoConfig",
  D(RT, DEV, (r"\.h$", 0.0, 100.0, 0.0, 1000.0), (r"\.beta$", -5.0, 50.0, -50.0, 100.0), (r"lambda", 0.0, 100.0, -100.0, 200.0), (r"gamma", 0.0, 100.0, -100.0, 400.0),
    (r"\.c$", 0.0, 100.0, 0.0, 1000.0)),
  colour=True, expcfg=True, struct="Sticko", unc="deviation")
UNC = (r"uncertainty$", 0.05, 15.0, 0.05, 60.0)
SK = (r"\.rating$", -60.0, 120.0, -2000.0, 3000.0)
S("weng_lin", "WengLinRating", "WengLinConfig",
  D((r"uncertainty$", 0.05, 15.0, 0.01, 60.0), (r"\.rating$", -60.0, 120.0, -300.0, 500.0), (r"beta", 0.5, 20.0, 0.05, 60.0), (r"tolerance", 1e-9, 1e-2, 1e-12, 0.5),
    (r"0$|rank", 0, 8, 0, 100000)),
  expcfg=True, struct="WengLin", unc="uncertainty")
S("trueskill", "TrueSkillRating", "TrueSkillConfig",
  D(UNC, SK, (r"beta", 0.5, 20.0), (r"draw_prob", 0.02, 0.9, 0.0, 0.97), (r"dynamics", 0.0, 0.5, 0.0, 5.0), (r"^w", 0.0, 1.0), (r"0$|rank", 0, 8, 0, 100000), tol=Fr(1, 10**4)),
  expcfg=True, struct="TrueSkill", unc="uncertainty")

PAIR = list(SYS.values())


def mirror(s, c, cfg):
    """the same game's configuration as seen from the other side: advantages and handicaps change sign"""
    if s.name == "egf":
        return c.put(cfg, handicap=-c.get(cfg, "handicap"))
    if s.name == "sticko":
        return c.put(cfg, gamma=-c.get(cfg, "gamma"))
    if s.name == "glicko_boost":
        return c.put(cfg, eta=-c.get(cfg, "eta"))
    return cfg


def neutral(s, c):
    """a configuration without first-player advantage or handicap"""
    k = {"egf": "handicap", "sticko": "gamma", "glicko_boost": "eta"}.get(s.name)
    return s.C(c, **{k: R(0)}) if k else s.C(c)


SEQ = ("elo", "fifa", "weng_lin", "trueskill")      # rating periods applied game by game
DECAY = ("glicko", "glicko2", "glicko_boost", "sticko")
