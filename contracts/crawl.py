"""Contracts for the routes that are stored with a place (flee.crawling)."""
from pyvc.dsl import Contract as K, Hint

C = []


def c(q, **k):
    C.append(K("flee.crawling:" + q, **k))


MACROS = {
    # what is stored for the place L under the name n is a way from there to n
    "leads": (["L", "r", "n"], "len(r) > 0 and r[-1] == n and path(r, 0)"),
    "starts": (["L", "r"], "hop(L.name, r[0])"),
    "simple": (["L", "r"], "all_differ(r) and all(x != L.name for x in r)"),
    "entry_ok": (["L", "n"], "leads(L, L.routes[n][1], n) and L.routes[n][0] >= 0 and L.routes[n][2].name == n"),
    "entry_simple": (["L", "n"], "starts(L, L.routes[n][1]) and simple(L, L.routes[n][1]) and not L.routes[n][2].marker"),
    "routes_ok": (["L"], "all(entry_ok(L, n) for n in L.routes)"),
    "routes_simple": (["L"], "all(entry_simple(L, n) for n in L.routes)"),
    "route_weight": (["link", "before", "time", "major"], """((rule("WeightSoftening") + crawl_score(link))
        / ((rule("DistanceSoftening") + link.get_distance() + before) / (4.0 if major else 1.0)) ** rule("DistancePower")) ** rule("WeightPower")"""),
    "crawl_score": (["link"], "link.endpoint.scores[1] * flood_factor(link.endpoint)"),
    "flood_weights": ([], 'all(implies(has_setting("move_rules", k), all(w >= 0 for w in rule(k))) for k in ("FloodLocWeights", "FloodForecasterWeights", "FloodAwarenessWeights"))'),
    "crawl_ok": ([], 'rule("WeightSoftening") >= 0 and rule("DistanceSoftening") > 0 and distances_ok() and scores_ok() and flood_weights()'),
    "none_worse": (["L"], "all(n in L.routes and L.routes[n][0] >= old(L.routes[n][0]) for n in old(L.routes))"),
}

P = ["P24"]
WELL = [(P, e) for e in ("crawl_ok()", "links_home()", "no_loops()")]

c("getLocationCrawlEndPointScore", types={"link": "Link", "time": "int"}, ret="float", requires=[(P, "scores_ok() and flood_weights()")],
  ensures=[("not-negative", P, "result >= 0"),
           ("score", P, """eqv(result, crawl_score(link))""")])

c("_addLocationRoute", types={"source_loc": "Location", "loc": "Location", "link": "Link", "prior_distance": "float", "origin_names": "list[str]", "time": "int", "major": "bool"},
  requires=[(P, "crawl_ok()"), (P, "prior_distance >= 0"), (P, "routes_ok(source_loc)"), (P, "path(origin_names, 0)"), (P, "len(origin_names) == 0 or hop(origin_names[-1], link.endpoint.name)")],
  modifies=["source_loc.routes{}"], allocs=True, effort=1,
  ensures=[("others", P, "all(n in source_loc.routes and source_loc.routes[n] is old(source_loc.routes[n]) for n in old(source_loc.routes) if n != link.endpoint.name)"),
           ("only-it", P, "all(n == link.endpoint.name or n in old(source_loc.routes) for n in source_loc.routes)"),
           ("none-worse", P, "none_worse(source_loc)"),
           ("stored", P, """implies(link.endpoint.name in source_loc.routes, link.endpoint.name in old(source_loc.routes) and source_loc.routes[link.endpoint.name] is old(source_loc.routes[link.endpoint.name])
               or source_loc.routes[link.endpoint.name][2] is link.endpoint and source_loc.routes[link.endpoint.name][0] >= 0
               and len(source_loc.routes[link.endpoint.name][1]) == max(1, len(origin_names))
               and source_loc.routes[link.endpoint.name][1][-1] == link.endpoint.name
               and all(source_loc.routes[link.endpoint.name][1][i] == origin_names[i + 1] for i in range(len(origin_names) - 1)))"""),
           ("ways", P, "routes_ok(source_loc)"),
           ("simple", P, """implies(old(routes_simple(source_loc)) and len(origin_names) > 0 and origin_names[0] == source_loc.name and all_differ(origin_names)
               and all(x != link.endpoint.name for x in origin_names) and not link.endpoint.marker, routes_simple(source_loc))"""),
           ("there", P, "implies(route_weight(link, prior_distance, time, major) > 0, link.endpoint.name in source_loc.routes and source_loc.routes[link.endpoint.name][0] >= route_weight(link, prior_distance, time, major))"),
           ])

c("calculateLocCrawlLinkWeight", types={"source_loc": "Location", "loc": "Location", "link": "Link", "prior_distance": "float", "origin_names": "list[str]", "step": "int", "time": "int"},
  requires=WELL + [(P, e) for e in ("prior_distance >= 0", "len(origin_names) > 0", "origin_names[0] == source_loc.name", "path(origin_names, 0)", "link.startpoint.name == origin_names[-1]",
     "any(m is link for m in link.startpoint.links)", "all_differ(origin_names)", "not any(x == link.endpoint.name for x in origin_names)", "routes_ok(source_loc)", "routes_simple(source_loc)")],
  modifies=["source_loc.routes{}"], allocs=True, effort=1,
  ensures=[("ways", P, "routes_ok(source_loc)"), ("simple", P, "routes_simple(source_loc)"),
           ("none-worse", P, "none_worse(source_loc)"),
           ("there", P, """link.endpoint.marker or implies(rule("WeightSoftening") + crawl_score(link) > 0, link.endpoint.name in source_loc.routes)"""),
           ("neighbour", P, """link.endpoint.marker or implies(route_weight(link, prior_distance, time, False) > 0,
               link.endpoint.name in source_loc.routes and source_loc.routes[link.endpoint.name][0] >= route_weight(link, prior_distance, time, False))""")],
  loops=[Hint("routes_ok(source_loc)"), Hint("routes_simple(source_loc)"), Hint("all(n in source_loc.routes and source_loc.routes[n][0] >= pre(source_loc.routes[n][0]) for n in pre(source_loc.routes))")])

c("generateLocationRoutes", types={"l": "Location", "time": "int", "debug": "bool"}, requires=WELL, modifies=["l.routes"], allocs=True, effort=1,
  ensures=[("ways", P, "l.marker or routes_ok(l)"), ("simple", P, "l.marker or any(len(L.major_routes) > 0 for L in objects(Location)) or routes_simple(l)"),
           ("marker", P, "not l.marker or l.routes is old(l.routes)"),
           ("neighbours", P, """l.marker or rule("AwarenessLevel") == 0 or all(k.endpoint.marker or implies(rule("WeightSoftening") + crawl_score(k) > 0, k.endpoint.name in l.routes) for k in l.links)""")],
  loops=[Hint("routes_ok(l)"), Hint("routes_simple(l)"),
         Hint("""all(l.links[q].endpoint.marker or implies(rule("WeightSoftening") + crawl_score(l.links[q]) > 0, l.links[q].endpoint.name in l.routes) for q in range(_k))""")])

c("compileDestList", types={"l": "Location"}, ret="list[Location]", allocs=True, requires=[(P, "all(len(l.routes[n][1]) > 0 for n in l.routes)")],
  ensures=[("all", P, "all(any(x is l.routes[n][2] for x in result) for n in l.routes)"),
           ("only", P, "all(any(x is l.routes[n][2] for n in l.routes) for x in result)")],
  loops=[Hint("all(implies(seen(n), any(x is l.routes[n][2] for x in ds)) for n in l.routes)", ds="list[Location]"), Hint("all(any(x is l.routes[n][2] for n in l.routes) for x in ds)", ds="list[Location]")])

c("insertAllMajorRoutesAtLocation", types={"l": "Location", "time": "int"}, requires=WELL + [(P, "routes_ok(l)")], modifies=["l.routes{}"], allocs=True,
  ensures=[("ways", P, "routes_ok(l)"), ("none-worse", P, "none_worse(l)"),
           ("off", P, "any(len(L.major_routes) > 0 for L in objects(Location)) or all(n in old(l.routes) and l.routes[n] is old(l.routes[n]) for n in l.routes)")],
  loops=[Hint("routes_ok(l)"), Hint("all(n in l.routes and l.routes[n][0] >= pre(l.routes[n][0]) for n in pre(l.routes))"),
         Hint("any(len(L.major_routes) > 0 for L in objects(Location)) or all(n in pre(l.routes) and l.routes[n] is pre(l.routes[n]) for n in l.routes)")])

c("insertMajorRoutesForLocation", types={"source_loc": "Location", "l": "Location", "route_to_l": "list[str]", "dest_list": "list[Location]", "time": "int"},
  requires=WELL + [(P, "routes_ok(source_loc)")], modifies=["source_loc.routes{}"], allocs=True,
  ensures=[("ways", P, "routes_ok(source_loc)"), ("none-worse", P, "none_worse(source_loc)"),
           ("off", P, "len(l.major_routes) > 0 or all(n in old(source_loc.routes) and source_loc.routes[n] is old(source_loc.routes[n]) for n in source_loc.routes)")],
  loops=[Hint("routes_ok(source_loc)"), Hint("all(n in source_loc.routes and source_loc.routes[n][0] >= pre(source_loc.routes[n][0]) for n in pre(source_loc.routes))"),
         Hint("_k == 0 or len(l.major_routes) > 0"), Hint("len(l.major_routes) > 0 or all(n in pre(source_loc.routes) and source_loc.routes[n] is pre(source_loc.routes[n]) for n in source_loc.routes)")])

c("_addMajorRouteToLocation", types={"source_loc": "Location", "route": "list[str]", "time": "int"}, requires=WELL + [(P, "routes_ok(source_loc)")], modifies=["source_loc.routes{}"], allocs=True, effort=1,
  ensures=[("ways", P, "routes_ok(source_loc)"), ("none-worse", P, "none_worse(source_loc)")],
  loops=[Hint("d >= 0", d="float"), Hint("ms >= 0", ms="int"),
         *[Hint("mL is not None and (ms == 0 or mL.name == route[ms - 1]) and (ms > 0 or mL is source_loc)", mL=t, ms="int") for t in ("Location", "Location?")],
         Hint("all(hop(route[j], route[j + 1]) for j in range(ms - 1))", ms="int"),
         *[Hint("mo is None or mo.name == route[s] and hop(L.name, mo.name)", mo="Location?", L=t, s="int") for t in ("Location", "Location?")], Hint("mo is None", mo="Location?")])
