"""Contracts for links, borders and locations that close and reopen, and for the closure schedule (flee.flee)."""
from pyvc.dsl import Contract as K, Hint

C = []


def c(q, **k):
    C.append(K("flee.flee:" + q, **k))


MACROS = {
    # locations are known by their names
    "named": (["e"], """len(e.locations) == len(e.locationNames) and all(e.locations[i].name == e.locationNames[i] for i in range(len(e.locations)))"""),
    "one_each": (["e"], """all(implies(e.locations[i].name == e.locations[j].name, i == j) for i in range(len(e.locations)) for j in range(len(e.locations)))"""),
    # no two locations share a list of links
    "own_links": ([], """all(L.links is not M.closed_links and implies(L is not M, L.links is not M.links and L.closed_links is not M.closed_links)
        for L in objects(Location) for M in objects(Location))"""),
    "found": (["e", "n"], "any(L.name == n for L in e.locations)"),
    "same_links": (["L"], "same_row(L.links, old(L.links)) and same_row(L.closed_links, old(L.closed_links))"),
    # open links of L: those to n are gone, the others are what they were
    "cut": (["L", "n"], """all(l.endpoint.name != n for l in L.links) and all(any(l is m for m in old(L.links)) for l in L.links)
        and all(l.endpoint.name == n or any(l is m for m in L.links) for l in old(L.links))"""),
    # closed links of L: what they were, and copies of the open links to n
    "still_closed": (["L"], "len(L.closed_links) >= old(len(L.closed_links)) and all(L.closed_links[i] is old(L.closed_links[i]) for i in range(old(len(L.closed_links))))"),
    "shelved": (["L", "n"], """all(fresh(L.closed_links[i]) and L.closed_links[i].closed and L.closed_links[i].numAgents == 0 and L.closed_links[i].endpoint.name == n
            for i in range(old(len(L.closed_links)), len(L.closed_links)))"""),
    "copies": (["L"], "all(any(copied(L.closed_links[i], m) for m in old(L.links)) for i in range(old(len(L.closed_links)), len(L.closed_links)))"),
    "all_links": (["L"], "len(L.links) + len(L.closed_links) == old(len(L.links)) + old(len(L.closed_links))"),
    "copied": (["x", "m"], """x.endpoint is m.endpoint and x._Link__distance == m._Link__distance and x.startpoint is m.startpoint and x.forced_redirection == m.forced_redirection and x.attributes is m.attributes"""),
    # open links of L: what they were, and the closed links to n; closed links: those to n are gone
    "still_open": (["L"], "len(L.links) >= old(len(L.links)) and all(L.links[i] is old(L.links[i]) for i in range(old(len(L.links))))"),
    "restored": (["L", "n"], "all(not L.links[i].closed and L.links[i].endpoint.name == n and any(L.links[i] is m for m in old(L.closed_links)) for i in range(old(len(L.links)), len(L.links)))"),
    "uncut": (["L", "n"], """all(l.endpoint.name != n and any(l is m for m in old(L.closed_links)) for l in L.closed_links)"""),
    "back": (["L", "n"], """all(l.endpoint.name != n or any(l is m for m in L.links) for l in old(L.closed_links))"""),
    "rest": (["L", "n"], """all(l.endpoint.name == n or any(l is m for m in L.closed_links) for l in old(L.closed_links))"""),
}
NET = ["@Location.links", "@Location.closed_links", "@Link.closed", "@list[Link]"]
OK = ["named(self)", "one_each(self)", "own_links()"]

c("Ecosystem._convert_location_name_to_index", types={"name": "str"}, ret="int", safety=["P04"],
  loops=[Hint("mi < len(_self.locations) and mi >= -1 and mi < _k", _self="Ecosystem", mi="int"),
         Hint("mi < 0 or _self.locations[mi].name == name", _self="Ecosystem", mi="int", name="str"),
         Hint("all(j <= mi or _self.locations[j].name != name for j in range(_k))", _self="Ecosystem", mi="int", name="str")],
  ensures=[("found", None, "-1 <= result and result < len(self.locations) and (result < 0 or self.locations[result].name == name)"),
           ("absent", None, "all(j <= result or self.locations[j].name != name for j in range(len(self.locations)))")])

SHUT = [
    Hint("all(l.endpoint.name != endpoint for l in news)", news="list[Link]"),
    Hint("all(any(l is pre(self.locations[x].links[j]) for j in range(_k)) for l in news)", x="int", news="list[Link]"),
    Hint("all(pre(self.locations[x].links[j]).endpoint.name == endpoint or any(l is pre(self.locations[x].links[j]) for l in news) for j in range(_k))", x="int", news="list[Link]"),
    Hint("all(same_row(L.links, pre(L.links)) for L in objects(Location))"),
    Hint("all(same_row(L.closed_links, pre(L.closed_links)) for L in objects(Location))"),
    Hint("all(L is self.locations[x] or same_row(L.closed_links, pre(L.closed_links)) for L in objects(Location))", x="int"),
    Hint("len(self.locations[x].closed_links) >= pre(len(self.locations[x].closed_links)) and all(self.locations[x].closed_links[i] is pre(self.locations[x].closed_links[i]) for i in range(pre(len(self.locations[x].closed_links))))",
         x="int"),
    Hint("""all(fresh(self.locations[x].closed_links[i]) and self.locations[x].closed_links[i].closed and self.locations[x].closed_links[i].numAgents == 0 and self.locations[x].closed_links[i].endpoint.name == endpoint
            and any(copied(self.locations[x].closed_links[i], pre(self.locations[x].links[j])) for j in range(_k)) for i in range(pre(len(self.locations[x].closed_links)), len(self.locations[x].closed_links)))""",
         x="int"),
    Hint("implies(close_only, len(news) + len(self.locations[x].closed_links) == pre(len(self.locations[x].closed_links)) + _k)", x="int", news="list[Link]"),
    Hint("close_only or same_row(self.locations[x].closed_links, pre(self.locations[x].closed_links))", x="int"),
    Hint("all(implies(pre(l.closed), l.closed) for l in objects(Link) if not fresh(l))"),
    Hint("all(implies(l.closed, pre(l.closed)) for l in objects(Link) if not fresh(l))"),
    Hint("iff(mb, any(pre(self.locations[x].links[j]).endpoint.name == endpoint for j in range(_k)))", x="int", mb="bool"),
]
c("Ecosystem._remove_link_1way", types={"startpoint": "str", "endpoint": "str", "close_only": "bool"}, ret="bool", requires=OK, modifies=NET, allocs=("Link",), safety=["P04"],
  loops=SHUT,
  ensures=[("others", ["P04", "P02", "P05"], "all(L.name == startpoint or L.links is old(L.links) and L.closed_links is old(L.closed_links) and same_links(L) for L in self.locations)"),
           ("cut", ["P04", "P02", "P05"], "all(implies(L.name == startpoint, cut(L, endpoint)) for L in self.locations)"),
           ("still-closed", ["P04"], "all(implies(L.name == startpoint and close_only, still_closed(L)) for L in self.locations)"),
           ("shelved", ["P04"], "all(implies(L.name == startpoint and close_only, shelved(L, endpoint)) for L in self.locations)"),
           ("copies", ["P04"], "all(implies(L.name == startpoint and close_only, copies(L)) for L in self.locations)"),
           ("none-lost", ["P04"], "all(implies(L.name == startpoint and close_only, all_links(L)) for L in self.locations)"),
           ("dropped", ["P04"], "all(implies(L.name == startpoint and not close_only, same_row(L.closed_links, old(L.closed_links))) for L in self.locations)"),
           ("result", ["P04"], "iff(result, any(L.name == startpoint and any(l.endpoint.name == endpoint for l in old(L.links)) for L in self.locations))"),
           ("closing", None, "all(implies(old(l.closed), l.closed) for l in objects(Link) if not fresh(l))"), ("own", None, "own_links()")])

OPENED = [
    Hint("all(l.endpoint.name != endpoint and any(l is pre(self.locations[x].closed_links[j]) for j in range(_k)) for l in news)", x="int", news="list[Link]"),
    Hint("all(pre(self.locations[x].closed_links[j]).endpoint.name == endpoint or any(l is pre(self.locations[x].closed_links[j]) for l in news) for j in range(_k))", x="int", news="list[Link]"),
    Hint("all(pre(self.locations[x].closed_links[j]).endpoint.name != endpoint or any(l is pre(self.locations[x].closed_links[j]) for l in self.locations[x].links) for j in range(_k))", x="int"),
    Hint("all(same_row(L.closed_links, pre(L.closed_links)) for L in objects(Location))"),
    Hint("all(L is self.locations[x] or same_row(L.links, pre(L.links)) for L in objects(Location))", x="int"),
    Hint("len(self.locations[x].links) >= pre(len(self.locations[x].links)) and all(self.locations[x].links[i] is pre(self.locations[x].links[i]) for i in range(pre(len(self.locations[x].links))))",
         x="int"),
    Hint("""all(not self.locations[x].links[i].closed and self.locations[x].links[i].endpoint.name == endpoint and any(self.locations[x].links[i] is pre(self.locations[x].closed_links[j]) for j in range(_k))
            for i in range(pre(len(self.locations[x].links)), len(self.locations[x].links)))""", x="int"),
    Hint("len(news) + len(self.locations[x].links) == pre(len(self.locations[x].links)) + _k", x="int", news="list[Link]"),
    Hint("all(implies(pre(l.closed), l.closed) for l in objects(Link) if not fresh(l))"),
    Hint("all(implies(l.closed, pre(l.closed)) for l in objects(Link) if not fresh(l))"),
    Hint("iff(mb, any(pre(self.locations[x].closed_links[j]).endpoint.name == endpoint for j in range(_k)))", x="int", mb="bool"),
]
c("Ecosystem._reopen_link_1way", types={"startpoint": "str", "endpoint": "str"}, ret="bool", requires=OK, modifies=NET, allocs=True, safety=["P04"],
  loops=OPENED,
  ensures=[("others", ["P04", "P05"], "all(L.name == startpoint or L.links is old(L.links) and L.closed_links is old(L.closed_links) and same_links(L) for L in self.locations)"),
           ("still-open", ["P04"], "all(implies(L.name == startpoint, still_open(L)) for L in self.locations)"),
           ("none-lost", ["P04"], "all(implies(L.name == startpoint, all_links(L)) for L in self.locations)"),
           *[(x, ["P04", "P05"], "all(implies(L.name == startpoint, %s(L, endpoint)) for L in self.locations)" % x) for x in ("restored", "uncut", "back", "rest")],
           ("result", ["P04"], "iff(result, any(L.name == startpoint and any(l.endpoint.name == endpoint for l in old(L.closed_links)) for L in self.locations))"),
           ("opening", None, "all(implies(l.closed, old(l.closed)) for l in objects(Link) if not fresh(l))"), ("own", None, "own_links()")])

def oneway(props):
    return [("others", props, "all(L.name == startpoint or (twoway and L.name == endpoint) or same_links(L) for L in self.locations)"), ("own", None, "own_links()")]


ONEWAY = oneway(["P04", "P02", "P05"])
CUT = [("cut", ["P04", "P02", "P05"], "all(implies(L.name == startpoint, cut(L, endpoint)) and implies(twoway and L.name == endpoint, cut(L, startpoint)) for L in self.locations)")]
BOTH = "all(implies(L.name == startpoint or twoway and L.name == endpoint, {}) for L in self.locations)"
SHELVED = [("still-closed", ["P04"], BOTH.format("still_closed(L)")),
           ("shelved", ["P04"], "all(implies(L.name == startpoint, shelved(L, endpoint)) and implies(twoway and L.name == endpoint, shelved(L, startpoint)) for L in self.locations)"),
           ("copies", ["P04"], BOTH.format("copies(L)")), ("none-lost", ["P04"], BOTH.format("all_links(L)"))]
GONE = "any(L.name == startpoint and any(l.endpoint.name == endpoint for l in old(L.{0})) for L in self.locations) and (not twoway or startpoint == endpoint or any(L.name == endpoint and any(l.endpoint.name == startpoint for l in old(L.{0})) for L in self.locations))"
T2 = {"startpoint": "str", "endpoint": "str", "twoway": "bool"}
c("Ecosystem.remove_link", types=dict(T2, close_only="bool"), ret="bool", requires=OK + ["not twoway or startpoint != endpoint"], modifies=NET, allocs=("Link",), safety=["P04"],
  ensures=ONEWAY + CUT + [*[(a, b, "implies(close_only, " + e + ")") for a, b, e in SHELVED],
                          ("dropped", ["P04"], "close_only or all(same_row(L.closed_links, old(L.closed_links)) for L in self.locations)"),
                          ("result", ["P04"], "iff(result, " + GONE.format("links") + ")")])
c("Ecosystem.close_link", types=T2, ret="bool", requires=OK + ["not twoway or startpoint != endpoint"], modifies=NET, allocs=("Link",), safety=["P04"],
  ensures=ONEWAY + CUT + [*SHELVED, ("result", ["P04"], "iff(result, " + GONE.format("links") + ")")])
c("Ecosystem.reopen_link", types=T2, ret="bool", requires=OK + ["not twoway or startpoint != endpoint"], modifies=NET, allocs=True, safety=["P04"],
  ensures=oneway(["P04", "P05"]) + [("still-open", ["P04"], BOTH.format("still_open(L)")), ("none-lost", ["P04"], BOTH.format("all_links(L)")),
                    *[(x, ["P04", "P05"], "all(implies(L.name == startpoint, {0}(L, endpoint)) and implies(twoway and L.name == endpoint, {0}(L, startpoint)) for L in self.locations)".format(x))
                      for x in ("restored", "uncut", "back", "rest")],
                    ("result", ["P04"], "iff(result, " + GONE.format("closed_links") + ")")])

# ---- whole locations and borders
MACROS.update({
    # open links of L: none added; those not to n kept
    "fewer": (["L"], "all(any(l is m for m in old(L.links)) for l in L.links)"),
    "kept_but": (["L", "n"], "all(l.endpoint.name == n or any(l is m for m in L.links) for l in old(L.links))"),
    "no_link_to": (["L", "n"], "all(l.endpoint.name != n for l in L.links)"),
    "new_closed": (["L"], "all(fresh(L.closed_links[i]) and L.closed_links[i].closed and L.closed_links[i].numAgents == 0 for i in range(old(len(L.closed_links)), len(L.closed_links)))"),
    # closed links of L: none added; those not to n kept
    "fewer_closed": (["L"], "all(any(l is m for m in old(L.closed_links)) for l in L.closed_links)"),
    "closed_but": (["L", "n"], "all(l.endpoint.name == n or any(l is m for m in L.closed_links) for l in old(L.closed_links))"),
    "none_closed_to": (["L", "n"], "all(l.endpoint.name != n for l in L.closed_links)"),
    "new_open": (["L"], "all(not L.links[i].closed and any(L.links[i] is m for m in old(L.closed_links)) for i in range(old(len(L.links)), len(L.links)))"),
    "moved": (["L"], "all(any(l is m for m in L.links) or any(l is m for m in L.closed_links) for l in old(L.closed_links))"),
})
ALL = "all({} for L in self.locations)"
CLOSING = [("none-lost", ["P04"], ALL.format("all_links(L)")), ("still-closed", ["P04"], ALL.format("still_closed(L)")), ("!fewer", ["P04", "P02", "P05"], ALL.format("fewer(L)")),
           ("shelved", ["P04"], ALL.format("new_closed(L)")), ("copies", ["P04"], ALL.format("copies(L)"))]
OPENING = [("none-lost", ["P04"], ALL.format("all_links(L)")), ("still-open", ["P04"], ALL.format("still_open(L)")), ("!fewer", ["P04", "P05"], ALL.format("fewer_closed(L)")),
           ("back", ["P04"], ALL.format("new_open(L)")), ("moved", ["P04"], ALL.format("moved(L)"))]


def when(c, cl):
    return [(n + "-" + c.split('"')[1], p, "implies(%s, %s)" % (c, e)) for n, p, e in cl]


def hints(cond, cl):
    return [Hint("implies(%s, %s)" % (cond, e)) for _, _, e in cl]


FEWER = [Hint("mode != 'close' or all(all(any(L.links[i] is pre(L.links[q]) for q in range(pre(len(L.links)))) for i in range(len(L.links))) for L in self.locations)"),
         Hint("mode != 'reopen' or all(all(any(L.closed_links[i] is pre(L.closed_links[q]) for q in range(pre(len(L.closed_links)))) for i in range(len(L.closed_links))) for L in self.locations)")]
LC, LO = 'mode == "close"', 'mode == "reopen"'
LNAME = "location_name"
LOC_CLOSE = CLOSING + [
    ("kept", ["P04", "P02"], 'all(kept_but(L, location_name) or (direction != "in" and L.name == location_name) for L in self.locations)'),
    ("kept-out", ["P04"], 'direction == "in" or direction == "both" or all(L.name == location_name or same_links(L) for L in self.locations)')]
LOC_OPEN = OPENING + [
    ("kept", ["P04"], 'all(closed_but(L, location_name) or (direction != "in" and L.name == location_name) for L in self.locations)'),
    ("kept-out", ["P04"], 'direction == "in" or direction == "both" or all(L.name == location_name or same_links(L) for L in self.locations)')]
IN_C = ("in", ["P04", "P02"], 'direction == "out" or not found(self, location_name) or all(no_link_to(L, location_name) for L in self.locations)')
OUT_C = ("out", ["P04", "P02"], 'direction == "in" or all(L.name != location_name or all(no_link_to(L, M.name) for M in self.locations) for L in self.locations)')
IN_O = ("in", ["P04"], 'direction == "out" or not found(self, location_name) or all(none_closed_to(L, location_name) for L in self.locations)')
OUT_O = ("out", ["P04"], 'direction == "in" or all(L.name != location_name or all(none_closed_to(L, M.name) for M in self.locations) for L in self.locations)')


def bounded(cl):
    """The clauses as clauses that are only checked on runs of the real code."""
    return [(n[1:], p, e) if n[0] == "!" else ("~" + n, p, e) for n, p, e in cl]


LOC_RESULT = [("result", ["P04"], "iff(result, found(self, location_name))"), ("unknown", ["P04"], "found(self, location_name) or all(same_links(L) for L in self.locations)")]
c("Ecosystem._change_location_1way", types={"location_name": "str", "mode": "str", "direction": "str", "Debug": "bool"}, ret="bool",
  requires=OK + ['mode == "close" or mode == "reopen"', 'direction == "in" or direction == "out" or direction == "both"'],
  modifies=NET, allocs=("Link",), loops=FEWER + [Hint("own_links()"), Hint("not mb or found(self, location_name)", mb="bool"),
      Hint("mb or all(self.locationNames[j] != location_name for j in range(_k))", mb="bool"), Hint("mb or all(same_links(L) for L in self.locations)", mb="bool")],
  ensures=bounded(when(LC, LOC_CLOSE + [IN_C, OUT_C]) + when(LO, LOC_OPEN + [IN_O, OUT_O])) + LOC_RESULT + [("own", None, "own_links()")])


def ends(cl):
    """close_location and reopen_location: both directions, or inbound only."""
    return [(n, p, e.replace('direction == "in" or direction == "both" or ', "True or ").replace('direction == "out" or ', "")
             .replace('direction == "in" or ', "not twoway or ").replace('direction != "in" and ', "twoway and ")) for n, p, e in cl if n != "kept-out"]


c("Ecosystem.close_location", types={"location_name": "str", "twoway": "bool", "Debug": "bool"}, ret="bool", requires=OK, modifies=NET, allocs=("Link",),
  ensures=bounded(ends(LOC_CLOSE + [IN_C, OUT_C])) + LOC_RESULT + [("own", None, "own_links()")])
c("Ecosystem.reopen_location", types={"location_name": "str", "twoway": "bool", "Debug": "bool"}, ret="bool", requires=OK, modifies=NET, allocs=("Link",),
  ensures=bounded(ends(LOC_OPEN + [IN_O, OUT_O])) + LOC_RESULT + [("own", None, "own_links()")])

# borders: every link from a location of the one country to a location of the other, and no other link
MACROS.update({
    "crosses": (["L", "l"], "L.country == source_country and l.endpoint.country == dest_country"),
    "crosses2": (["L", "l"], "crosses(L, l) or (twoway and L.country == dest_country and l.endpoint.country == source_country)"),
})


def border(x):
    return {
        "close": [("no-crossing", ["P04", "P02"], "all(not %s(L, l) for L in self.locations for l in L.links)" % x),
                  ("kept", ["P04", "P02"], "all(%s(L, l) or any(l is m for m in L.links) for L in self.locations for l in old(L.links))" % x)] + CLOSING,
        "reopen": [("no-crossing", ["P04"], "all(not %s(L, l) for L in self.locations for l in L.closed_links)" % x),
                   ("kept", ["P04"], "all(%s(L, l) or any(l is m for m in L.closed_links) for L in self.locations for l in old(L.closed_links))" % x)] + OPENING}


TB = {"source_country": "str", "dest_country": "str", "Debug": "bool"}
# two links that end in places of one name end in places of one country
SAMELAND = ["all(implies(l.endpoint.name == m.endpoint.name, l.endpoint.country == m.endpoint.country) for L in self.locations for l in L.links + L.closed_links for m in L.links + L.closed_links)"]
c("Ecosystem._change_border_1way", types=dict(TB, mode="str"), requires=OK + ['mode == "close" or mode == "reopen"'], modifies=NET, allocs=("Link",),
  loops=FEWER + [Hint("own_links()")],
  ensures=bounded(when(LC, border("crosses")["close"]) + when(LO, border("crosses")["reopen"])) + [("own", None, "own_links()")])
c("Ecosystem.close_border", types=dict(TB, twoway="bool"), requires=OK, modifies=NET, allocs=("Link",),
  ensures=bounded(border("crosses2")["close"]) + [("own", None, "own_links()")])
c("Ecosystem.reopen_border", types=dict(TB, twoway="bool"), requires=OK, modifies=NET, allocs=("Link",),
  ensures=bounded(border("crosses2")["reopen"]) + [("own", None, "own_links()")])

# ---- the schedule of closures
MACROS.update({
    "shut_today": (["e", "time"], "any(x[3] == time for x in e.closures)"),
    "open_today": (["e", "time"], "any(x[4] == time for x in e.closures)"),
    "same_network": (["e"], """all(same_links(L) and same_place(L) for L in e.locations) and all(l.forced_redirection == old(l.forced_redirection) for l in objects(Link) if not fresh(l))"""),
    "unlinked": (["e", "a", "b"], "all(implies(L.name == a, no_link_to(L, b)) for L in e.locations)"),
    "none_shelved": (["e", "a", "b"], "all(implies(L.name == a, none_closed_to(L, b)) for L in e.locations)"),
    "town_now": (["e", "n"], "all(implies(L.name == n, is_town(L)) for L in e.locations)"),
    "camp_now": (["e", "n", "idp"], "all(implies(L.name == n, is_camp(L, idp)) for L in e.locations)"),
    "forced_to": (["e", "a", "b", "v"], "all(implies(L.name == a and l.endpoint.name == b, l.forced_redirection == v) for L in e.locations for l in L.links)"),
})
# what an entry starts (or ends) today stands unless it or a later entry ends (or a later one starts) today
DUE = "all(implies(self.closures[j][0] == \"{0}\" and self.closures[j][3] == time and not any(self.closures[m][4] == time for m in range(j, {2})), {1}) for j in range({2}))"
REDUE = "all(implies(self.closures[j][0] == \"{0}\" and self.closures[j][4] == time and not any(self.closures[m][3] == time for m in range(j + 1, {2})), {1}) for j in range({2}))"
RECAMP = REDUE.replace("[3] == time for", "[3] == time or self.closures[m][4] == time and self.closures[m][0] == '{3}' for")
SHUTTING = [("link", DUE, "link", "unlinked(self, self.closures[j][1], self.closures[j][2]) and implies(twoway, unlinked(self, self.closures[j][2], self.closures[j][1]))"),
            ("camp", DUE, "camp", "town_now(self, self.closures[j][1])"), ("idpcamp", DUE, "idpcamp", "town_now(self, self.closures[j][1])"),
            ("~redirection", DUE, "remove_forced_redirection", "forced_to(self, self.closures[j][1], self.closures[j][2], False)"),
            ("relink", REDUE, "link", "none_shelved(self, self.closures[j][1], self.closures[j][2]) and implies(twoway, none_shelved(self, self.closures[j][2], self.closures[j][1]))"),
            ("recamp", RECAMP.replace("{3}", "idpcamp"), "camp", "camp_now(self, self.closures[j][1], False)"), ("reidpcamp", RECAMP.replace("{3}", "camp"), "idpcamp", "camp_now(self, self.closures[j][1], True)")]
FAR = [("~location", DUE, "location", "not found(self, self.closures[j][1]) or all(no_link_to(L, self.closures[j][1]) for L in self.locations)"),
       ("~border", DUE, "country", "all(not (L.country == self.closures[j][1] and l.endpoint.country == self.closures[j][2] or twoway and L.country == self.closures[j][2] and l.endpoint.country == self.closures[j][1]) for L in self.locations for l in L.links)"),
       ("~relocation", REDUE, "location", "not found(self, self.closures[j][1]) or all(none_closed_to(L, self.closures[j][1]) for L in self.locations)"),
       ("~reborder", REDUE, "country", "all(not (L.country == self.closures[j][1] and l.endpoint.country == self.closures[j][2] or twoway and L.country == self.closures[j][2] and l.endpoint.country == self.closures[j][1]) for L in self.locations for l in L.closed_links)"),
       ("~reredirection", REDUE, "remove_forced_redirection", "forced_to(self, self.closures[j][1], self.closures[j][2], True)")]
c("Ecosystem.enact_border_closures", types={"time": "int", "twoway": "bool", "Debug": "bool"},
  requires=OK + ["all(implies(x[0] == 'link' and twoway, x[1] != x[2]) for x in self.closures)"],
  modifies=NET + ["@Location." + f for f in ("movechance", "camp", "idpcamp", "conflict", "town", "forward", "marker", "flood_zone")] + ["@Link.forced_redirection"], allocs=("Link",), safety=["P05"],
  loops=[Hint("own_links()"), Hint("any(self.closures[j][3] == time or self.closures[j][4] == time for j in range(_k)) or same_network(self)".replace("old(", "pre("))]
  + [Hint(f.format(k, e, "_k").replace("old(", "pre(")) for _, f, k, e in SHUTTING],
  ensures=[("quiet", ["P05"], "shut_today(self, time) or open_today(self, time) or same_network(self)")]
  + [(n, ["P05"], f.format(k, e, "len(self.closures)")) for n, f, k, e in SHUTTING + FAR] + [("own", None, "own_links()")])
