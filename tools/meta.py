#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it; no check reads this file)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["src/elo.rs", "src/fifa.rs", "src/ingo.rs", "src/dwz.rs", "src/uscf.rs", "src/egf.rs", "src/glicko.rs", "src/glicko2.rs",
       "src/glicko_boost.rs", "src/sticko.rs", "src/weng_lin.rs", "src/trueskill/mod.rs"]
TEAMF = ["src/weng_lin.rs", "src/trueskill/mod.rs"]
GL = ["src/glicko.rs", "src/glicko2.rs", "src/glicko_boost.rs", "src/sticko.rs"]
TSF = ["src/trueskill/mod.rs", "src/trueskill/factor_graph.rs", "src/trueskill/schedule.rs", "src/trueskill/gaussian.rs", "src/trueskill/math.rs",
       "src/trueskill/erf.rs"]

P = []


def p(id, title, st, text, why, files, mech, tech=None, note=None, over=("inputs",), na=None):
    P.append(dict(id=id, title=title, st=st, text=text, why=why, files=files, mech=mech, tech=tech, note=note, over=list(over), na=na))


VG = "abstract interpretation of THIR into value graphs; "
EQ = VG + "global value numbering decides equality, interval domain separates unequal graphs"
IV = VG + "interval/monotonicity analysis of the guards and arithmetic"
STD = "Static: no code runs. Obligations the abstract domains settle are settled for every real input of the stated domain; the others are listed as undecided in the evidence. "
REAL = "Assumes real arithmetic for f64 (no rounding, overflow, NaN) and the analyser's models of std functions."

p("C01", "Expected scores are a fair, monotone probability split",
  "For any two players the two expected scores add up to exactly one and each lies between 0 and 1 (Ingo's linear formula is not clamped). Players of equal rating expect one half each when nobody has an advantage, and swapping the players (and reversing the advantage) swaps the scores. Raising a player's strength never lowers that player's expectation and never raises the opponent's.",
  "all pairs of ratings, uncertainties, configurations, handicaps, for all twelve systems", "tests check a few fixed pairs; monotonicity and the sum hold over a continuum",
  ALL, [("expected_score of every system", "src/*/expected_score")], EQ, STD + "Domain: the rating ranges of rules/systems.py. " + REAL)
p("C02", "Period expectations agree with pairwise expectations",
  "Asking for the expected scores against a list of opponents returns exactly one entry per opponent, in the given order. Each entry is what the pairwise expected score gives the player against that opponent, taking into account the colour or configuration of that game.",
  "all players, opponent lists, colours and per-game configurations", "tests use one fixed list of three or four opponents per system",
  ALL, [("expected_score_rating_period", "src/*")], EQ, STD + "Lists of 0..3 independent opponents plus every longer length a constant of the code singles out. One known finding (Glicko-Boost ignores the colour, pinned by a doctest). " + REAL)
p("C03", "Head-to-head updates do not depend on the seat",
  "Rating a game with the two players exchanged and the outcome reversed gives both players exactly the same new ratings. Where a system has a first-mover advantage or handicap, it is reversed along with the seats.",
  "all pairs of ratings, all outcomes, all configurations", "a handful of sampled games cannot show a symmetry of a two-player function",
  ALL, [("head-to-head update", "src/*: elo, fifa, ingo, dwz, uscf, egf, glicko, glicko2, glicko_boost, sticko, weng_lin, trueskill")], EQ, STD + REAL)
p("C04", "Rating periods agree with head-to-head updates",
  "A rating period consisting of one game gives the player the same new rating as the head-to-head function, from either colour's seat. For Elo, FIFA, Weng-Lin and TrueSkill a period of several games equals applying the head-to-head update game by game.",
  "all players, opponents, outcomes, configurations and period lengths", "tests compare the two code paths at one or two points",
  ALL, [("*_rating_period", "src/*")], EQ, STD + "Periods of 0..3 independent games plus longer lengths singled out by constants of the code. " + REAL)
p("C05", "Trait implementations compute what the module functions compute",
  "Using a system through the generic rating-system traits gives the same ratings and expectations as calling the module's functions with the configuration handed to the constructor. Colour-aware systems treat the player as white, and per-game configurations are the supplied one.",
  "all inputs of all four traits, for every system implementing them", "tests call each trait method once with the default configuration, where a dropped configuration is invisible",
  ALL + ["src/lib.rs"], [("impl RatingSystem / RatingPeriodSystem / TeamRatingSystem / MultiTeamRatingSystem", "src/*")], EQ, STD + REAL)
p("C06", "Nothing played, nothing changed",
  "A rating period without games leaves the rating unchanged, apart from the documented growth of the deviation of an inactive player in the Glicko family. A team game in which a team is empty returns all teams unchanged, a lone team is returned unchanged, and no teams give no ratings.",
  "all ratings and configurations; all empty shapes of periods and team lists", "tests cover some of the empty shapes with one rating each",
  ALL, [("early returns on empty input", "src/*_rating_period, *_two_teams, *_multi_team")], EQ, STD + REAL)
p("C07", "Rating floors and deviation caps hold",
  "No USCF rating computed from any game or period is below 100 and no EGF rating is below -900. Deviations of Glicko, Glicko-Boost and Sticko never exceed 350 after a game or period, and the deviation of an inactive player of the whole Glicko family never exceeds 350.",
  "all ratings, results, configurations", "boundary conditions of a continuous function; the tests stay in the middle of the range",
  ["src/uscf.rs", "src/egf.rs"] + GL, [("clamps", "src/uscf.rs, src/egf.rs, src/glicko*.rs, src/sticko.rs")], IV, STD + REAL)
p("C08", "Playing games never makes a rating less certain than waiting would",
  "After games the uncertainty of a player is positive and at most what it was before, after adding the system's own per-period growth (Glicko: c; Glicko-2: the new volatility; Glicko-Boost: boost and alpha terms; Sticko: c and h per game; TrueSkill: the dynamics factor, assumed not larger than beta; Weng-Lin: none). It does not matter whether the games were won or lost.",
  "all ratings, opponents, outcomes, configurations", "an inequality over the continuum; tests look at single numbers",
  GL + TEAMF, [("deviation / uncertainty updates", "src/*")], IV, STD + "Glicko-2: uses the new volatility the code returns. " + REAL)
p("C09", "A better result never earns a worse rating",
  "Against the same opponent and with everything else equal, winning gives at least the rating that drawing gives, and drawing at least what losing gives, for both players of the game and inside rating periods. (For Ingo lower numbers are better; Glicko-Boost's extra step for exceptional performances is exempt: the property is claimed with k = 0, which disables it.)",
  "all ratings, opponents, configurations and the other games of the period", "an ordering over the continuum; tests look at single numbers",
  ALL, [("score term of every update", "src/*")], IV, STD + REAL)
p("C10", "Points are exchanged, not created",
  "In Elo and in a FIFA match that is neither knockout nor decided on penalties, what one side gains the other loses. In Glicko, Glicko-2 and Sticko (without bonuses) the same holds between players of equal deviation, and in Weng-Lin and TrueSkill the gains and losses are in proportion to the players' variances.",
  "all ratings, outcomes, configurations", "an algebraic identity over the continuum",
  ["src/elo.rs", "src/fifa.rs", "src/glicko.rs", "src/glicko2.rs", "src/sticko.rs"] + TEAMF, [("rating updates", "src/*")], EQ, STD + REAL)
p("C11", "FIFA knockout and shoot-out rules",
  "In a knockout match nobody loses points, whoever wins and however it is decided. A side that wins on penalties is credited with 0.75 and the side that loses on penalties with 0.5, whichever side that is; a drawn result is a plain draw. Rating changes are proportional to the match importance.",
  "all ratings, importances, outcomes, flag combinations", "tests exercise one side of the flag combinations",
  ["src/fifa.rs"], [("fifa, fifa_rating_period", "src/fifa.rs")], EQ, STD + REAL)
p("C12", "Documented starting values and accessors",
  "New ratings and configurations of all systems carry the documented default values, a rating built from given values keeps them (missing ones take the default), and the generic accessors return the stored rating and uncertainty. A new USCF player's rating follows the age table, and outcomes are worth 1, 0.5 and 0 points.",
  "all given values and ages; all types", "tests check some defaults and a few ages",
  ALL + ["src/lib.rs"], [("new, default, Rating impls, Outcomes, MultiTeamOutcome", "src/*")], EQ, STD + REAL)
p("C13", "Conversions between rating systems",
  "Converting a rating into another system follows the documented formula (Elo/FIFA/DWZ identity, Ingo 2840 - 8x, USCF piecewise linear, within the Glicko family the same rating and deviation, TrueSkill/Weng-Lin unchanged). Converting there and back returns the original rating, and tuples become the rating with exactly these fields.",
  "all ratings", "tests convert one value per direction; the USCF formula is piecewise",
  ALL, [("impl From", "src/*")], EQ, STD + REAL)
p("C14", "Games and evaluations are counted exactly",
  "A USCF player's game count grows by exactly the number of rated results, a DWZ player's index by one per evaluated game or event, and ages never change.",
  "all ratings, result lists, outcomes", "tests check single transitions",
  ["src/uscf.rs", "src/dwz.rs", "src/ingo.rs"], [("games, index, age fields", "src/uscf.rs, src/dwz.rs, src/ingo.rs")], EQ, STD + "Lists of 0..3 results plus constant-triggered lengths. " + REAL)
p("C15", "Multi-team games: every team gets its own result",
  "A multi-team game returns one team per input team, with the same number of players in the same places. Listing the teams in a different order only reorders the results, and only the order of the ranks matters, not their numeric values; expected scores follow the teams in the same way and add up to one.",
  "all team lists, ranks, orders", "tests use one sorted team list",
  TEAMF + ["src/trueskill/factor_graph.rs"], [("*_multi_team, expected_score_multi_team", "src/weng_lin.rs, src/trueskill/mod.rs")], EQ, STD + "Up to 4 teams of up to 2 players with every rank order and ties; larger games of up to 26 teams for representative rank orders and the team counts singled out by constants of the code. " + REAL)
p("C16", "Player weights are validated and mean what they say",
  "A weight list with the wrong number of teams, the wrong number of players in a team, or a negative weight is rejected with the error naming the first offending team and player; every valid list is accepted. Leaving the weights out is the same as giving everybody a weight of one.",
  "all weight lists and team shapes", "tests try one list per error",
  TSF + ["src/trueskill/weights.rs"], [("weight validation", "src/trueskill/weights.rs, mod.rs")], EQ, STD + "Team shapes up to 3 teams of 3 players. " + REAL)
p("C17", "A first DWZ is granted exactly under the rules",
  "Fewer than five games, a score of 0 % and a score of 100 % are refused with their respective error. Otherwise the first DWZ is the opponents' average plus the official table value for the achieved percentage, revised upwards for results of 800 and below, with index 1 and the given age.",
  "all opponents' ratings, result lists, ages", "tests use a few tournaments; the table has a hundred entries",
  ["src/dwz.rs"], [("get_first_dwz", "src/dwz.rs")], EQ, STD + "Every percentage step; lists of 0..10 games (and longer ones singled out by constants). " + REAL)
p("C18", "No panics on valid input",
  "No public function panics, whatever the ratings, outcomes, ranks, configurations and the numbers of games, teams and players (including none).",
  "all inputs and list shapes", "tests run a few shapes; a panic hides in the ones they do not run",
  ALL + TSF[1:] + ["src/trueskill/matrix.rs", "src/trueskill/weights.rs"], [("indexing, unwrap, arithmetic on lengths", "src/*")],
  VG + "reachability of every panic site's path condition", STD + "0..6 games, 0..4 teams of 0..3 players. " + REAL)
p("C19", "Results depend on nothing but the arguments",
  "Every function of the crate is a pure function: the same arguments always give the same result, in any order of calls and from any thread, and no argument is modified.",
  "all call histories and schedules", "a test sees one call sequence on one thread",
  ALL + TSF[1:] + ["src/lib.rs"], [("absence of state: no statics, clocks, random sources, hash iteration, I/O", "src/*")],
  "effect analysis: who-may-call over resolved callees, statics and types of every body", "Static effect analysis over every body of the crate; decides the whole property up to the list of known pure std functions.", over=("histories", "schedules", "inputs"))
p("C20", "Inactivity only widens the deviation",
  "Letting a rating period pass without games keeps the rating (and volatility), never lowers a deviation of at most 350 and never raises it above 350; the new deviation follows the documented growth formula of the system and never decreases in the old one.",
  "all ratings and configurations", "tests decay a handful of ratings",
  GL, [("decay_deviation", "src/glicko*.rs, src/sticko.rs")], IV, STD + REAL)
p("C21", "Confidence intervals and conservative ranks",
  "The confidence interval of a Glicko-family rating is the rating plus and minus 1.96 deviations, lower end first; TrueSkill's rank is the rating minus three uncertainties.",
  "all ratings", "tests check one rating each", GL + ["src/trueskill/mod.rs"], [("confidence_interval, get_rank", "src/*")], EQ, STD + REAL)
p("C22", "Elo follows its formula",
  "The expected score is 1/(1+10^((Rb-Ra)/400)) and the new rating is R + K(S-E); a rating period applies this game by game.",
  "all ratings, K factors, outcomes, periods", "tests compare rounded values of a few games", ["src/elo.rs"], [("elo, elo_rating_period, expected_score", "src/elo.rs")], EQ, STD + REAL)
p("C23", "FIFA/SUM follows its formula",
  "The expected result is 1/(10^(-dr/600)+1), the new rating P + I(W-We) with W of 1, 0.5, 0 or the shoot-out values 0.75 and 0.5, and knockout matches never cost points.",
  "all ratings, importances, flags, outcomes, periods", "tests compare rounded values of a few games", ["src/fifa.rs"], [("fifa, fifa_rating_period, expected_score", "src/fifa.rs")], EQ, STD + REAL)
p("C24", "Ingo follows its formula",
  "The performance is the opponents' average minus (100 p - 50), the new rating (D old + n performance)/(D + n) with the development value D of 10, 15 or 20 for ages up to 20, up to 25 and above; the expectation is 0.5 + (Rb-Ra)/100.",
  "all ratings, ages, result lists", "tests use one tournament", ["src/ingo.rs"], [("ingo, ingo_rating_period, expected_score", "src/ingo.rs")], EQ, STD + REAL)
p("C25", "DWZ follows its formula",
  "The new rating is R + 800/(E+n)(W-We), where E = a ((R/1000)^4 + J) + B with J of 5, 10 or 15 for ages up to 20, up to 25 and above; a = R/2000 for players under 20 who do at least as well as expected (else 1); B = exp((1300-R)/150) - 1 for players below 1300 who do no better than expected (else 0). E is at least 5 and at most min(30, 5 index), or 150 when B applies. The expectation is 1/(10^(-d/400)+1).",
  "all ratings, ages, indices, result lists", "piecewise in age, rating, index and result; tests touch a few pieces", ["src/dwz.rs"], [("dwz, dwz_rating_period, e-value helpers", "src/dwz.rs")], EQ, STD + REAL)
p("C26", "USCF follows its formula",
  "Players with up to 8 games get the provisional (special) rating, others R + K(S-E) with K = 800/(Ne+n) from the effective number of games, plus the bonus max(0, K(S-E) - T sqrt(m)) when at least 3 games were played; ratings do not fall below 100.",
  "all ratings, game counts, T values, result lists", "piecewise in games, rating and result; tests touch a few pieces", ["src/uscf.rs"], [("uscf, uscf_rating_period, helpers", "src/uscf.rs")], EQ, STD + REAL)
p("C27", "EGF follows its formula",
  "The new rating is r + con (Sa-Se) + bonus with con = ((3300-r)/200)^1.6, bonus = ln(1+exp((2300-r)/80))/5 and Se = 1/(1+exp(beta(r2)-beta(r1))), beta = -7 ln(3300-r); handicap stones shift the ratings compared; a period adds the changes of its games computed from the initial rating.",
  "all ratings, handicaps, outcomes, periods", "tests use a few games", ["src/egf.rs"], [("egf, egf_rating_period, helpers", "src/egf.rs")], EQ, STD + REAL)
p("C28", "Glicko follows Glickman's paper",
  "The deviation first grows to min(350, sqrt(RD^2+c^2)), then rating and deviation are updated with g, E and d^2 as in the paper, for single games and periods.",
  "all ratings, deviations, c, result lists", "tests check the paper's example", ["src/glicko.rs"], [("glicko, glicko_rating_period, expected_score", "src/glicko.rs")], EQ, STD + REAL)
p("C29", "Glicko-2 follows Glickman's paper",
  "On the internal scale v, delta, the new deviation and the new rating are as in the paper, and the new volatility solves the paper's equation to within the configured convergence tolerance, for single games and periods.",
  "all ratings, deviations, volatilities, tau, result lists", "the volatility is found by iteration; tests check the paper's example", ["src/glicko2.rs"], [("glicko2, glicko2_rating_period, new_volatility", "src/glicko2.rs")], EQ,
  STD + "The root finder's loop is not summarised for arbitrary iteration counts: the returned volatility is checked as a root on interval boxes. " + REAL)
p("C30", "Glicko-Boost follows its formula",
  "Expectations include the colour advantage eta; an exceptional performance (z > k, k not zero) boosts the deviation by (1+(z-k)B1) RD + B2 before the update, afterwards the deviation grows by the alpha polynomial and never exceeds 350.",
  "all ratings, colours, configurations, result lists", "tests use the default configuration on a few games", ["src/glicko_boost.rs"], [("glicko_boost, glicko_boost_rating_period, boost_rd, new_deviation", "src/glicko_boost.rs")], EQ, STD + REAL)
p("C31", "Stephenson (Sticko) follows its formula",
  "Glicko with colour advantage gamma, per-game deviation increase h, bonus beta per game and neighbourhood term lambda/100 towards the opponents' average; the deviation never exceeds 350.",
  "all ratings, colours, configurations, result lists", "tests use the default configuration on a few games", ["src/sticko.rs"], [("sticko, sticko_rating_period, helpers", "src/sticko.rs")], EQ, STD + REAL)
p("C32", "Weng-Lin follows the Bradley-Terry full-pair update",
  "Duels, periods, two-team and multi-team games follow the Bayesian approximation of Weng and Lin (Bradley-Terry, full pair), with the variance factor limited from below by the uncertainty tolerance; expectations are the logistic split (softmax for several teams) of the team strengths.",
  "all ratings, team shapes, ranks, configurations", "tests use a few fixed teams", ["src/weng_lin.rs"], [("weng_lin*, expected_score*", "src/weng_lin.rs")], EQ, STD + "Up to 4 teams of mixed sizes; up to 26 teams by separation search only. " + REAL)
p("C33", "TrueSkill duels and two-team games follow the paper",
  "The combined deviation, draw margin and the truncated-Gaussian corrections v and w for wins and draws are those of the TrueSkill paper, with the dynamics factor added to each player's variance; expectations are the normal cdf of the scaled difference. The approximated error function is accurate to 1e-6.",
  "all ratings, team shapes, outcomes, configurations", "tests use a few fixed games", TSF, [("trueskill, trueskill_two_teams, expected_score*, erf", "src/trueskill/*")], EQ, STD + REAL)
p("C34", "TrueSkill multi-team games solve the factor graph",
  "For two teams the result is the exact posterior of the truncated team difference; for more teams it is the fixed point of message passing between neighbouring teams in rank order. A player's weight scales the share of that player in the team.",
  "all ratings, weights, ranks, configurations", "tests pin a few numbers to three digits", TSF, [("trueskill_multi_team", "src/trueskill/mod.rs"), ("factor graph and schedule", "src/trueskill/factor_graph.rs, schedule.rs")], EQ,
  STD + "Two and three teams, larger games for shapes only; for three teams compared with an independent derivation, mostly by separation search (undecided otherwise). " + REAL)
p("C35", "TrueSkill match quality",
  "Match quality is the draw probability relative to a perfectly even match: sqrt(det(beta^2 A'A)/det(beta^2 A'A + A'SA)) exp(-mu'A(...)^-1A'mu/2), between 0 and 1, independent of the order of the sides. The rating-period variant maps it over the opponents and an empty input has quality 0.",
  "all ratings, team shapes, weights", "tests use a few fixed teams", ["src/trueskill/mod.rs", "src/trueskill/matrix.rs"], [("match_quality*", "src/trueskill/mod.rs"), ("Matrix", "src/trueskill/matrix.rs")], EQ, STD + "Up to 4 teams of 2. " + REAL)
p("C36", "The order of results inside a period does not matter",
  "For the systems that evaluate a rating period as a whole (Ingo, DWZ, USCF, EGF, Glicko, Glicko-2, Glicko-Boost, Sticko) reordering the results changes nothing. Reordering the players of a team only reorders their results.",
  "all result lists and permutations", "tests pass the results in one order", ALL, [("sums over results", "src/*_rating_period"), ("team sums", "src/weng_lin.rs, src/trueskill")], EQ, STD + "Permutations of 2 and 3 results. " + REAL)
p("C37", "Duel, two-team and multi-team entry points agree",
  "Teams of one player are the head-to-head game, and two teams in the multi-team functions are the two-team game (Weng-Lin ratings and expectations; TrueSkill expectations and match quality).",
  "all ratings, outcomes, configurations", "tests do not compare the entry points except at a few points", TEAMF, [("*_two_teams, *_multi_team", "src/weng_lin.rs, src/trueskill/mod.rs")], EQ, STD + REAL)
p("C38", "Only rating differences matter",
  "In Elo, FIFA, Ingo, Glicko, Glicko-2, Sticko, Weng-Lin and TrueSkill, adding the same amount to every rating leaves expectations, match quality and uncertainties unchanged and adds that amount to every new rating.",
  "all ratings and shifts", "a relation between infinitely many pairs of runs", ["src/elo.rs", "src/fifa.rs", "src/ingo.rs", "src/glicko.rs", "src/glicko2.rs", "src/sticko.rs"] + TEAMF, [("updates in terms of differences", "src/*")], EQ, STD + REAL)
p("C39", "Ratings, outcomes and ranks behave like values",
  "Two ratings (outcomes, ranks) compare equal exactly when all their fields are equal, a clone is the same value, and finishing ranks are ordered like their numbers by every comparison operator.",
  "all values of the public types", "tests compare a few values", ALL + ["src/lib.rs"], [("PartialEq, Clone, Ord of the public types", "src/*.rs")], EQ, STD + "NaN fields excluded. ")
p("C40", "Expected scores of teams are a fair probability split",
  "The team expectation functions (two teams and many teams) return one expected score per team, each between 0 and 1, together exactly one; a lone team expects everything. Equal teams get equal shares, the scores follow the teams when they are listed in another order, and a stronger player never lowers the share of the own team nor raises that of another.",
  "all teams, ratings, configurations", "tests check a few fixed teams", TEAMF, [("expected_score_two_teams, expected_score_multi_team", "src/weng_lin.rs, src/trueskill/mod.rs")], EQ, STD + "Up to 5 teams. " + REAL)
p("C41", "Serde round trips and changes nothing",
  "With the serde feature, every public rating, configuration, outcome and rank type can be written and read back as exactly the same value, in formats that name the fields (JSON) and in formats that go by position (bincode). Turning the feature on changes no rating, expectation or default.",
  "all values of the public types", "the tests never serialize anything", ALL + ["src/lib.rs"], [("derive(Serialize, Deserialize) of the public types", "src/*.rs")], EQ,
  "The derived or hand-written Serialize/Deserialize code of the crate is interpreted against a model of serde's data model (a serializer that records a tree, a deserializer that replays it); encodings themselves (JSON text, bincode bytes) are outside. ")
p("C42", "Finite ratings stay finite",
  "No public rating, expectation, decay or match-quality function of any system returns NaN or an infinity for finite input: ratings of the system's scale and far beyond it (thousands of points apart; hundreds for Weng-Lin and TrueSkill), positive deviations or uncertainties and valid configurations, however lopsided the game and whatever its outcome. In particular overflow, underflow to zero and an expectation that rounds to exactly 0 or 1 never surface in a result.",
  "all ratings, deviations, configurations, outcomes", "the failing inputs are corners of a continuum: a test has to know the corner already", ALL + TSF,
  [("every update, expectation, decay and match-quality function", "src/*")],
  VG + "interval analysis under f64 semantics with overflow, underflow and NaN tracked",
  "Static: no code runs. Periods of up to two games, up to three teams; EGF ratings up to 2400 (the logarithm of its formula ends at 3300 minus the handicap), TrueSkill uncertainty at most 50 beta and dynamics below beta. TrueSkill, Glicko-2 and some period obligations are too wide for a proof over the whole domain and are undecided: there the check only refutes. ")
p("C50", "Glicko-2 volatility iteration terminates",
  "The iterative search for the new volatility terminates for every rating, result list and configuration.",
  "all inputs", "termination over a continuum", ["src/glicko2.rs"], [("new_volatility loop", "src/glicko2.rs")],
  na="depends on convergence of a floating-point Illinois iteration; no ranking argument over f64 values is in reach of the abstract domains built here (the loop bound depends on runtime values)")
p("C51", "TrueSkill message passing converges for any number of teams",
  "The message passing schedule of a multi-team game converges to the same fixed point for every number of teams.",
  "all team counts", "unbounded team counts", TSF, [("schedule loop", "src/trueskill")],
  na="convergence of expectation propagation for an arbitrary number of teams is a numerical fact about runtime values; C34 decides two and three teams")
p("C52", "Results are accurate in floating point",
  "For ratings of ordinary size, rounding errors of every result stay below the last published digit.",
  "all inputs", "rounding over the continuum", ALL, [("f64 arithmetic", "src/*")],
  na="all value rules use real-number semantics; a sound rounding-error analysis through exp/ln/pow approximations of the platform's libm is not in reach")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["st"], "quantifier": {"over": x["over"], "text": x["text"]},
                                "why_tests_cant": x["why"], "anchors": {"files": sorted(set(x["files"])), "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                                                                       "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash driver/build.sh", "checks": [], "not_applicable": [],
         "notes": "All checks: python3-vt check.py <id>. Known findings: known-findings.txt. No hooks in /repo."}
    for x in P:
        if x["na"]:
            m["not_applicable"].append({"property": x["id"], "reason": x["na"]})
        else:
            m["checks"].append({"property": x["id"], "quick_cmd": "python3-vt check.py " + x["id"], "thorough_cmd": "python3-vt check.py %s --thorough" % x["id"],
                                "technique": x["tech"], "level": "other", "level_note": x["note"]})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


main()
