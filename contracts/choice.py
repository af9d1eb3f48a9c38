"""Contracts for how people choose whether and where to move (flee.moving, flee.scoring)."""
from pyvc.dsl import Contract as K, Hint

C = []


def c(q, **k):
    C.append(K("flee.moving:" + q, **k))


MR = 'SimulationSettings.move_rules["%s"]'
MACROS = {
    "rule": (["k"], "SimulationSettings.move_rules[k]"),
    "scaled_capacity": (["L"], 'L.capacity * SimulationSettings.move_rules["CapacityScaling"]'),
    "buffer_ok": ([], '0 <= SimulationSettings.move_rules["CapacityBuffer"] and SimulationSettings.move_rules["CapacityBuffer"] <= 1'),
    "rules_ok": ([], """rule("WeightSoftening") >= 0 and rule("DistanceSoftening") > 0 and buffer_ok() and rule("CapacityScaling") >= 0 and rule("MovechancePopBase") > 0 and flood_ok()"""),
    "distances_ok": ([], "all(l._Link__distance >= 0 for l in objects(Link))"),
    "scores_ok": ([], "all(len(L.scores) == 4 and L.scores[1] >= 0 for L in objects(Location))"),
    "stored_ok": ([], "all(L.routes[k][0] >= 0 for L in objects(Location) for k in L.routes)"),
    # the stop s after the stop r, over a link that is open
    "hop": (["r", "s"], "any(L.name == r and l.endpoint.name == s for L in objects(Location) for l in L.links)",
            ("all(hop(L.name, l.endpoint.name) for L in objects(Location) for l in L.links)",
             "all(L.links is old(L.links) and L.name == old(L.name) and same_row(L.links, old(L.links)) for L in objects(Location) if not fresh(L)) and all(l.endpoint is old(l.endpoint) for l in objects(Link) if not fresh(l))")),
    "path": (["r", "n"], "all(implies(k == j + 1, hop(r[j], r[k])) for j in range(n, len(r)) for k in range(n, len(r)))"),
    "links_home": ([], "all(l.startpoint is L for L in objects(Location) for l in L.links)"),
    "no_loops": ([], "all(l.startpoint.name != l.endpoint.name for l in objects(Link))"),
    "all_differ": (["r"], "distinct(r)"),
}

# ---- how full a place is
c("getCapMultiplier", types={"location": "Location", "numOnLink": "int"}, ret="float", requires=[(["P06", "P08"], "buffer_ok()")], safety=["P06"],
  ensures=[("range", ["P06", "P08"], "0 <= result and result <= 1"),
           ("no-limit", ["P06"], "implies(scaled_capacity(location) < 1, result == 1)"),
           ("room", ["P06"], 'implies(location.numAgents <= SimulationSettings.move_rules["CapacityBuffer"] * scaled_capacity(location), result == 1)'),
           ("full", ["P06"], "implies(scaled_capacity(location) >= 1 and location.numAgents >= scaled_capacity(location) and "
                             'location.numAgents > SimulationSettings.move_rules["CapacityBuffer"] * scaled_capacity(location), result == 0)'),
           ("falls", ["P06"], """implies(scaled_capacity(location) >= 1 and location.numAgents > SimulationSettings.move_rules["CapacityBuffer"] * scaled_capacity(location)
               and location.numAgents < scaled_capacity(location),
               eqv(result * (scaled_capacity(location) * (1 - SimulationSettings.move_rules["CapacityBuffer"])), scaled_capacity(location) - location.numAgents))""")])

# ---- routes and their weights
ROUTES = [
    ("pairs", "len({w}) == len({r})"),
    ("from-here", "all(len(r) > {n} and all(r[i] == {o}[i] for i in range({n})) for r in {r})"),
]
c("calculateLinkWeight", types={"agent": "Person", "link": "Link", "prior_distance": "float", "origin_names": "list[str]", "step": "int", "time": "int", "debug": "bool"},
  ret="tuple[list[float],list[list[str]]]", effort=1,
  requires=["len(origin_names) > 0"] + [(["P07"], e) for e in ("link.startpoint.name == origin_names[-1]", "any(m is link for m in link.startpoint.links)", "links_home()", "no_loops()",
            "all_differ(origin_names)", "not any(x == link.endpoint.name for x in origin_names)")] + [(["P08"], e) for e in ("rules_ok()", "distances_ok()", "scores_ok()", "shares_ok(agent)", "prior_distance >= 0")], allocs=True,
  ensures=[("pairs", None, "len(result[0]) == len(result[1])"), ("weights", ["P08"], "all(w >= 0 for w in result[0])"),
           ("continue", ["P07"], "all(len(r) > len(origin_names) and all(r[i] == origin_names[i] for i in range(len(origin_names))) and r[len(origin_names)] == link.endpoint.name for r in result[1])"),
           ("connected", ["P07"], "all(path(r, len(origin_names) - 1) for r in result[1])"),
           ("no-repeats", ["P07"], "all(all_differ(r) for r in result[1])"),
           ("real-destination", ["P07"], "all(any(l.endpoint.name == r[-1] and not l.endpoint.marker for l in objects(Link)) for r in result[1])"),
           ("within-reach", ["P07"], """implies(all(not l.endpoint.marker for l in objects(Link)),
               all(len(r) <= len(origin_names) + max(1, SimulationSettings.move_rules["AwarenessLevel"] - step + 1) for r in result[1]))"""),
           ("neighbour", ["P07"], "link.endpoint.marker or len(result[1]) > 0 and len(result[1][0]) == len(origin_names) + 1"),
           ("goal:onward", ["P07"], """implies(SimulationSettings.move_rules["AwarenessLevel"] > (step - 1 if link.endpoint.marker else step),
               all(any(x == lel.endpoint.name for x in origin_names) or lel.endpoint.marker
                   or any(len(r) == len(origin_names) + 2 and r[len(origin_names) + 1] == lel.endpoint.name for r in result[1]) for lel in link.endpoint.links))"""),
           ("~weight", ["P07"], """link.endpoint.marker or eqv(result[0][0], ((rule("WeightSoftening") + getEndPointScore(agent, link.endpoint, time))
                / (rule("DistanceSoftening") + link.get_distance() + prior_distance) ** rule("DistancePower") * getCapMultiplier(link.endpoint, 0)) ** rule("WeightPower"))"""),
           ],
  loops=[Hint("len(ws) == len(rs)", ws="list[float]", rs="list[list[str]]"), Hint("all(w >= 0 for w in ws)", ws="list[float]"),
         Hint("all(len(r) > len(origin_names) and all(r[i] == origin_names[i] for i in range(len(origin_names))) and r[len(origin_names)] == link.endpoint.name for r in rs)", rs="list[list[str]]"),
         Hint("all(path(r, len(origin_names) - 1) for r in rs)", rs="list[list[str]]"),
         Hint("all(all_differ(r) for r in rs)", rs="list[list[str]]"),
         Hint("all(any(l.endpoint.name == r[-1] and not l.endpoint.marker for l in objects(Link)) for r in rs)", rs="list[list[str]]"),
         Hint("implies(all(not l.endpoint.marker for l in objects(Link)), all(len(r) <= len(origin_names) + max(1, rule(\"AwarenessLevel\") - step + 1) for r in rs))", rs="list[list[str]]"),
         Hint("link.endpoint.marker or len(rs) > 0 and len(rs[0]) == len(origin_names) + 1", rs="list[list[str]]"),
         Hint("""all(any(x == link.endpoint.links[q].endpoint.name for x in origin_names) or link.endpoint.links[q].endpoint.marker
                   or any(len(r) == len(origin_names) + 2 and r[len(origin_names) + 1] == link.endpoint.links[q].endpoint.name for r in rs) for q in range(_k))""", rs="list[list[str]]"),
         ])
import itertools
SCORE_CASES = [" and ".join(("" if on else "not ") + 'rule("%s")' % r for r, on in zip(("FloodRulesEnabled", "StayCloseToHome", "ChildrenAvoidHazards"), w))
               for w in itertools.product([False], [True, False], [True, False])]
c("getEndPointScore", types={"agent": "Person", "endpoint": "Location", "time": "int"}, ret="float", requires=[(["P08"], "rules_ok()"), (["P08"], "scores_ok()"), (["P08"], "shares_ok(agent)")],
  cases=SCORE_CASES,
  ensures=[("not-negative", ["P08"], "result >= 0"),
           ("score", ["P14"], 'rule("FloodRulesEnabled") or not shares_there(agent, endpoint) or eqv(result, for_person(agent, endpoint.scores[1]) * nearness(agent, endpoint) * match(agent, endpoint) * crowd_factor(endpoint))'),
           ("~flooded", ["P14"], 'forecast_score(time) or not shares_there(agent, endpoint) or eqv(result, for_person(agent, endpoint.scores[1]) * nearness(agent, endpoint) * flood_factor(endpoint) * match(agent, endpoint) * crowd_factor(endpoint))')])
MACROS.update({
    "forecast_score": (["time"], 'rule("FloodRulesEnabled") and rule("FloodForecaster")'),
    "for_person": (["a", "s"], """1.0 if rule("ChildrenAvoidHazards") and rule("BoysTakeRisk") and a.attributes["gender"] == "male" and a.attributes["age"] > 14
        else s * s if rule("ChildrenAvoidHazards") and a.attributes["age"] < 19 else s"""),
    "nearness": (["a", "L"], '1.0 / (max(1.0, L.calculateDistance(a.home_location)) ** rule("HomeDistancePower")) if rule("StayCloseToHome") else 1.0'),
    "flood_factor": (["L"], 'rule("FloodLocWeights")[L.attributes["flood_level"]] if rule("FloodRulesEnabled") and level_now(L) > 0 else 1.0'),
    "matching": (["L"], 'rule("MatchCampEthnicity") if L.camp else rule("MatchConflictEthnicity") if L.conflict > 0 else rule("MatchTownEthnicity")'),
    "match": (["a", "L"], 'L.attributes[a.attributes["ethnicity"]] / L.pop * 10.0 if matching(L) else 1.0'),
    "crowd_factor": (["L"], 'max(1.0, L.pop) ** rule("PopPowerForLocWeight") if rule("UsePopForLocWeight") and not L.camp else 1.0'),
    "shares_ok": (["a"], 'all(implies(matching(L), L.pop > 0 and a.attributes["ethnicity"] in L.attributes and is_num(L.attributes[a.attributes["ethnicity"]]) and L.attributes[a.attributes["ethnicity"]] >= 0) for L in objects(Location))'),
    "flood_ok": ([], """all(implies(has_setting("move_rules", k), all(w >= 0 for w in rule(k))) for k in ("FloodLocWeights", "FloodForecasterWeights", "FloodAwarenessWeights"))"""),
    "shares_there": (["a", "L"], 'implies(matching(L), L.pop != 0 and a.attributes["ethnicity"] in L.attributes and is_num(L.attributes[a.attributes["ethnicity"]]))'),
})


c("pruneRoutes", types={"weights": "list[float]", "routes": "list[list[str]]"}, ret="tuple[list[float],list[list[str]]]", effort=1,
  requires=["len(weights) == len(routes)"], modifies=["weights[:]", "routes[:]"], allocs=True,
  ensures=[("pairs", None, "len(result[0]) == len(result[1])"),
           ("none-new", ["P07", "P08"], """all(any(result[0][i] == old(weights[j]) and result[1][i] is old(routes[j]) for j in range(old(len(weights)))) for i in range(len(result[0])))"""),
           ("viable-kept", ["P08"], """all(implies(all(old(weights[j]) * rule("PruningThreshold") >= old(weights[m]) for m in range(old(len(weights)))),
               any(result[0][i] == old(weights[j]) and result[1][i] is old(routes[j]) for i in range(len(result[0])))) for j in range(old(len(weights))))"""),
           ("weak-dropped", ["P08"], """rule("PruningThreshold") < 1.001 or all(all(result[0][i] * rule("PruningThreshold") >= old(weights[j]) for j in range(old(len(weights)))) for i in range(len(result[0])))"""),
           ("off", ["P08"], 'rule("PruningThreshold") >= 1.001 or same_row(result[0], old(weights)) and same_row(result[1], old(routes))')],
  loops=[Hint("len(weights) == len(routes) and i >= 0 and len(weights) <= pre(len(weights))", i="int"),
         Hint("all(any(weights[q] == pre(weights[j]) and routes[q] is pre(routes[j]) for j in range(pre(len(weights)))) for q in range(len(weights)))"),
         Hint("all(weights[q] >= thr for q in range(i))", i="int", thr="float"),
         Hint("all(pre(weights[j]) < thr or any(weights[q] == pre(weights[j]) and routes[q] is pre(routes[j]) for q in range(len(weights))) for j in range(pre(len(weights))))", thr="float"),

         # from the last to the first
         Hint("len(weights) >= pre(len(weights)) - _k"),
         Hint("all(weights[q] >= thr for q in range(pre(len(weights)) - _k, len(weights)))", thr="float"),
         # into new lists
         Hint("len(mw) == len(mr)", mw="list[float]", mr="list[list[str]]"),
         Hint("all(any(mw[q] == weights[j] and mr[q] is routes[j] for j in range(_k)) for q in range(len(mw)))", mw="list[float]", mr="list[list[str]]"),
         Hint("all(w >= thr for w in mw)", mw="list[float]", thr="float"),
         Hint("all(weights[j] < thr or any(mw[q] == weights[j] and mr[q] is routes[j] for q in range(len(mw))) for j in range(_k))", mw="list[float]", mr="list[list[str]]", thr="float"),
         # the places to keep
         Hint("all(0 <= mi[q] and mi[q] < _k and weights[mi[q]] >= thr for q in range(len(mi)))", mi="list[int]", thr="float"),
         Hint("all(weights[j] < thr or any(mi[q] == j for q in range(len(mi))) for j in range(_k))", mi="list[int]", thr="float"),
         ])

c("normalizeWeights", types={"weights": "list[float]"}, ret="list[float]", requires=[(["P08"], "all(w >= 0 for w in weights)")], allocs=True,
  ensures=[("as-many", ["P08"], "len(result) == len(weights)"),
           ("proportional", ["P08"], "implies(any(w > 0 for w in weights), all(eqv(result[i] * total(w for w in weights), weights[i]) for i in range(len(weights))))"),
           ("some-chance", ["P08"], "implies(not any(w > 0 for w in weights), all(result[i] > 0 for i in range(len(result))))"),
           ("not-negative", ["P08"], "all(x >= 0 for x in result)"),
           ("zero-stays", ["P08"], "implies(any(w > 0 for w in weights), all(iff(result[i] > 0, weights[i] > 0) for i in range(len(weights))))")])
c("chooseFromWeights", types={"weights": "list[float]", "routes": "list[list[str]]"}, ret="list[str]?", requires=["len(weights) == len(routes)", (["P08"], "all(w >= 0 for w in weights)")], allocs=True,
  ensures=[("none", None, "iff(result is None, len(weights) == 0)"),
           ("one-of-them", None, "result is None or any(r is result for r in routes)"),
           ("has-weight", ["P08"], "result is None or not any(w > 0 for w in weights) or any(routes[i] is result and weights[i] > 0 for i in range(len(routes)))")])

c("selectRoute", types={"a": "Person", "time": "int", "debug": "bool", "return_all_routes": "bool"}, ret="list[str]",
  cases=['rule("AwarenessLevel") == 0', 'rule("AwarenessLevel") != 0 and rule("FixedRoutes")'], effort=1,
  requires=["not return_all_routes", "is_a(a.location, Location)", (["P07"], "links_home()"), (["P07"], "no_loops()")] + [(["P08"], e) for e in ("rules_ok()", "distances_ok()", "scores_ok()", "shares_ok(a)", "stored_ok()")], allocs=True,
  ensures=[("first-hop", ["P07"], 'rule("FixedRoutes") and rule("AwarenessLevel") != 0 or len(result) == 0 or any(l.endpoint.name == result[0] for l in a.location.links)'),
           ("connected", ["P07"], 'rule("FixedRoutes") and rule("AwarenessLevel") != 0 or path(result, 0)'),
           ("not-here", ["P07"], 'rule("FixedRoutes") and rule("AwarenessLevel") != 0 or all(x != a.location.name for x in result)'),
           ("no-repeats", ["P07"], 'rule("FixedRoutes") and rule("AwarenessLevel") != 0 or all_differ(result)'),
           ("stays", ["P08"], 'rule("FixedRoutes") and rule("AwarenessLevel") != 0 or len(a.location.links) > 0 or len(result) == 0'),
           ("fixed", ["P24"], 'not rule("FixedRoutes") or rule("AwarenessLevel") == 0 or len(result) == 0 or any(result is a.location.routes[k][1] for k in a.location.routes)')],
  loops=[Hint("len(ws) == len(rs)", ws="list[float]", rs="list[list[str]]"),
         Hint("all(w >= 0 for w in ws)", ws="list[float]"),
         Hint("rule('FixedRoutes') or len(a.location.links) > 0 or len(rs) == 0", rs="list[list[str]]"),
         Hint("rule('FixedRoutes') or all(len(r) > 1 and r[0] == a.location.name and any(l.endpoint.name == r[1] for l in a.location.links) for r in rs)", rs="list[list[str]]"),
         Hint("rule('FixedRoutes') or all(path(r, 0) for r in rs)", rs="list[list[str]]"),
         Hint("rule('FixedRoutes') or all(all_differ(r) for r in rs)", rs="list[list[str]]"),
         Hint("rule('FixedRoutes') or all(len(rs[q]) > 0 and any(l.endpoint.name == rs[q][0] for l in a.location.links) and all_differ(rs[q]) for q in range(_k))", rs="list[list[str]]"),
         Hint("rule('FixedRoutes') or all(path(rs[q], 0) for q in range(_k))", rs="list[list[str]]"),
         Hint("rule('FixedRoutes') or all(all(x != a.location.name for x in rs[q]) for q in range(_k))", rs="list[list[str]]"),
         Hint("rule('FixedRoutes') or all(len(rs[q]) > 1 and rs[q][0] == a.location.name and any(l.endpoint.name == rs[q][1] for l in a.location.links) and all_differ(rs[q]) for q in range(_k, len(rs)))", rs="list[list[str]]"),
         Hint("rule('FixedRoutes') or all(path(rs[q], 0) for q in range(_k, len(rs)))", rs="list[list[str]]"),
         Hint("not rule('FixedRoutes') or all(any(r is L.routes[k][1] for L in objects(Location) for k in L.routes if L is a.location) for r in rs)", rs="list[list[str]]"),
         ])

# ---- whether to move
FORECAST = """rule("FloodRulesEnabled") and rule("FloodForecaster") and rule("FloodForecasterTimescale") is not None and rule("FloodForecasterEndTime") is not None
    and rule("FloodForecasterTimescale") > 1 and time <= rule("FloodForecasterEndTime")"""
MACROS.update({
    "forecast_on": (["time"], FORECAST),
    "level_now": (["L"], 'L.attributes.get("flood_level", 0)'),
    # how many days ahead are looked at, the day x ahead, and its share
    "days_ahead": (["time"], 'min(rule("FloodForecasterTimescale"), max(1, rule("FloodForecasterEndTime") - time))'),
    "day": (["time", "x"], 'min(time + x, rule("FloodForecasterEndTime"))'),
    "share": (["L", "d"], '(rule("FloodLocWeights")[int(L.attributes["forecast_flood_levels"][d])] * rule("FloodForecasterWeights")[d] if L.attributes["forecast_flood_levels"][d] > 0 else 0.0)'),
    "outlook": (["L", "time"], 'total(share(L, day(time, x + 1)) for x in range(days_ahead(time))) / rule("FloodForecasterTimescale")'),
    "base_chance": (["L"], """L.movechance * (max(L.pop, L.capacity) / rule("MovechancePopBase")) ** rule("MovechancePopScaleFactor")"""),
    "todays_chance": (["L"], 'rule("FloodMovechances")[L.attributes["flood_level"]] if rule("FloodRulesEnabled") and level_now(L) > 0 else base_chance(L)'),
})
c("calculateMoveChance", types={"a": "Person", "ForceTownMove": "bool", "time": "int"}, ret="float",
  requires=["is_a(a.location, Location)", (["P09"], 'rule("MovechancePopBase") > 0')],
  ensures=[("forced", ["P09"], "implies(a.location.town and ForceTownMove, result == 1)"),
           ("today", ["P09"], 'implies(not forecast_on(time) and not (a.location.town and ForceTownMove), eqv(result, todays_chance(a.location)))'),
           ("~forecast", ["P09"], """implies(forecast_on(time) and not (a.location.town and ForceTownMove),
               eqv(result, todays_chance(a.location) * outlook(a.location, time) * rule("FloodAwarenessWeights")[int(a.attributes["floodawareness"])]))""")])
