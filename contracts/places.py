"""Contracts for what a location is (camp, town, conflict zone ...), its score, and the weights of spawning
(flee.flee, flee.scoring, flee.spawning, flee.SimulationSettings)."""
from pyvc.dsl import Contract, Hint

C = []


def c(q, **k):
    C.append(Contract("flee.flee:" + q, **k))


MR = 'SimulationSettings.move_rules["%s"]'
SR = 'SimulationSettings.spawn_rules["%s"]'
MACROS = {
    "srule": (["k"], "SimulationSettings.spawn_rules[k]"),
    # ---- what a location is
    "kind_camp": (["t"], '"camp" in t.lower()'),
    "kind_idp": (["t"], '"camp" in t.lower() and "idp" in t.lower()'),
    "kind_conflict": (["t"], 'not kind_camp(t) and "conflict" in t.lower()'),
    "kind_forward": (["t"], 'not kind_camp(t) and not kind_conflict(t) and "forward" in t.lower()'),
    "kind_marker": (["t"], 'not kind_camp(t) and not kind_conflict(t) and not kind_forward(t) and "marker" in t.lower()'),
    "kind_flood": (["t"], 'not kind_camp(t) and not kind_conflict(t) and not kind_forward(t) and not kind_marker(t) and "flood_zone" in t.lower()'),
    "kind_town": (["t"], '''not kind_camp(t) and not kind_conflict(t) and not kind_forward(t) and not kind_marker(t) and not kind_flood(t)
        and ("default" in t.lower() or "town" in t.lower())'''),
    "kind_known": (["t"], "kind_camp(t) or kind_conflict(t) or kind_forward(t) or kind_marker(t) or kind_flood(t) or kind_town(t)"),
    "is_kind": (["L", "t"], """iff(L.camp, kind_camp(t)) and iff(L.idpcamp, kind_idp(t)) and iff(L.forward, kind_forward(t)) and iff(L.marker, kind_marker(t))
        and iff(L.flood_zone, kind_flood(t)) and iff(L.town, kind_town(t))
        and L.conflict == (numeric(L.attributes["conflict_intensity"]) if kind_conflict(t) and "conflict_intensity" in L.attributes else 1.0 if kind_conflict(t) else -1.0)"""),
    "kind_chance": (["t", "other"], """rule("IDPCampMoveChance") if kind_idp(t) else rule("CampMoveChance") if kind_camp(t) else rule("ConflictMoveChance") if kind_conflict(t)
        else 1.0 if kind_forward(t) or kind_marker(t) else rule("DefaultMoveChance") if kind_flood(t) or kind_town(t) else other"""),
    "is_camp": (["L", "idp"], """L.camp and L.idpcamp == idp and not L.town and not L.forward and not L.marker and not L.flood_zone and L.conflict == -1
        and L.movechance == (rule("IDPCampMoveChance") if idp else rule("CampMoveChance"))"""),
    "is_town": (["L"], """not L.camp and not L.idpcamp and L.town and not L.forward and not L.marker and not L.flood_zone and L.conflict == -1
        and L.movechance == rule("DefaultMoveChance")"""),
    "same_place": (["L"], """L.camp == old(L.camp) and L.idpcamp == old(L.idpcamp) and L.town == old(L.town) and L.forward == old(L.forward) and L.marker == old(L.marker)
        and L.flood_zone == old(L.flood_zone) and L.conflict == old(L.conflict) and L.movechance == old(L.movechance)"""),
    "ok_attr": (["L"], 'implies("conflict_intensity" in L.attributes, parses(L.attributes["conflict_intensity"]))'),
    # ---- decay of conflicts, scores
    "decays": ([], 'srule("conflict_spawn_decay") is not None and len(srule("conflict_spawn_decay")) > 0'),
    "decay": (["age"], '(srule("conflict_spawn_decay")[min(int_of(age / srule("conflict_spawn_decay_interval")), len(srule("conflict_spawn_decay")) - 1)] if decays() else 1.0)'),
    "base_score": (["L", "time"], """(rule("ForeignWeight") if L.foreign else 1.0) * (rule("CampWeight") if L.camp or L.idpcamp else 1.0)
        * (pw(rule("ConflictWeight"), decay(time - L.time_of_conflict) * L.conflict) if L.conflict > 0 else 1.0)"""),
    "known_flood": (["L"], 'L.flood_zone and "flood_level" in L.attributes and L.attributes["flood_level"] is not None'),
    "todays_score": (["L", "time"], 'base_score(L, time) * (rule("FloodLocWeights")[L.attributes["flood_level"]] if known_flood(L) else 1.0)'),
    "score_known": (["L"], 'not known_flood(L) or not rule("FloodForecaster") and L.attributes["flood_level"] >= 0'),
    "times_ok": ([], 'srule("conflict_spawn_decay_interval") > 0'),
    "dated": (["L", "time"], "L.time_of_conflict <= time"),
    "weights_ok": ([], 'rule("ForeignWeight") >= 0 and rule("CampWeight") >= 0 and rule("ConflictWeight") >= 0 and implies(has_setting("move_rules", "FloodLocWeights"), all(w >= 0 for w in rule("FloodLocWeights")))'),
}
STATE = ["movechance", "camp", "idpcamp", "conflict", "town", "forward", "marker", "flood_zone"]

c("Location.open_camp", types={"IDP": "bool"}, modifies=["self." + f for f in STATE], safety=["P15"], ensures=[("camp", ["P15", "P05"], "is_camp(self, IDP)")])
c("Location.close_camp", types={"IDP": "bool"}, modifies=["self." + f for f in STATE], safety=["P15"], ensures=[("town", ["P15", "P05"], "is_town(self)")])
ALLSTATE = ["@Location." + f for f in STATE]
EL = "all({} for L in self.locations)"
c("Ecosystem.open_camp", types={"location_name": "str", "IDP": "bool"}, requires=["named(self)", "one_each(self)"], modifies=ALLSTATE, safety=["P15"],
  ensures=[("camp", ["P15", "P05"], EL.format("is_camp(L, IDP) if L.name == location_name else same_place(L)")), ])
c("Ecosystem.close_camp", types={"location_name": "str", "IDP": "bool"}, requires=["named(self)", "one_each(self)"], modifies=ALLSTATE, safety=["P15"],
  ensures=[("town", ["P15", "P05"], EL.format("is_town(L) if L.name == location_name else same_place(L)"))])
c("Ecosystem.change_location_type", types={"location_name": "str", "location_type": "str"}, requires=["named(self)", "one_each(self)", "all(ok_attr(L) for L in self.locations)"],
  modifies=ALLSTATE, safety=["P15"],
  ensures=[("kind", ["P15", "P18"], EL.format("L.name != location_name or is_kind(L, location_type) and L.movechance == kind_chance(location_type, old(L.movechance))")),
           ("others", ["P15", "P18"], EL.format("L.name == location_name or same_place(L)"))])
c("Ecosystem.set_forced_redirection", types={"loc1_name": "str", "loc2_name": "str", "value": "bool"}, requires=["named(self)", "one_each(self)", (["P15"], "links_home()"), (["P15"], "own_links()")], modifies=["@Link.forced_redirection"], safety=["P15"],
  loops=[Hint("all(self.locations[id1].links[j].forced_redirection == value if self.locations[id1].links[j].endpoint.name == loc2_name else self.locations[id1].links[j].forced_redirection == pre(self.locations[id1].links[j].forced_redirection) for j in range(_k))", id1="int"),
         Hint("all(l.forced_redirection == pre(l.forced_redirection) or l.startpoint is self.locations[id1] and l.endpoint.name == loc2_name and l.forced_redirection == value for l in objects(Link))", id1="int")],
  ensures=[("set", ["P15"], "all(implies(L.name == loc1_name, all(l.forced_redirection == (value if l.endpoint.name == loc2_name else old(l.forced_redirection)) for l in L.links)) for L in self.locations)"),
           ("others", ["P15"], "all(l.forced_redirection == old(l.forced_redirection) or l.startpoint.name == loc1_name and l.endpoint.name == loc2_name and l.forced_redirection == value for l in objects(Link))")])

c("Location.__init__", types={"name": "str", "region": "str", "x": "float", "y": "float", "location_type": "str?", "movechance": "float", "capacity": "int", "pop": "int", "foreign": "bool",
    "country": "str", "attributes": "dict[str,val]"}, requires=['"conflict_intensity" not in attributes or parses(attributes["conflict_intensity"])', (["P14", "P11"], "times_ok()")],
  modifies=["self." + f for f in STATE + ["name", "region", "x", "y", "links", "routes", "major_routes", "closed_links", "numAgents", "numAgentsOnRank", "capacity", "pop", "foreign", "country",
     "conflict_date", "time_of_conflict", "numAgentsSpawned", "attributes", "scores", "incoming_journey_lengths"]], allocs=True,
  ensures=[("empty", ["P01", "P25"], "self.numAgents == 0 and len(self.links) == 0 and len(self.closed_links) == 0"),
           ("kept", ["P25"], """self.name == name and self.region == region and self.x == x and self.y == y and self.capacity == capacity and self.pop == pop and self.foreign == foreign and self.country == country
               and self.attributes is attributes and self.numAgentsSpawned == 0 and self.time_of_conflict == -1"""),
           ("undated", ["P11", "P14"], "self.time_of_conflict == -1"),
           ("own", ["P25"], "fresh(self.links) and fresh(self.closed_links)"), ("own-scores", ["P25"], "fresh(self.scores)"), ("scores4", ["P25"], "len(self.scores) == 4"),
           ("chance", ["P15", "P25"], "self.movechance == (movechance if location_type is None else kind_chance(location_type, movechance))"),
           ("kind", ["P15", "P25"], """location_type is None or not kind_known(location_type) or (is_kind(self, location_type) if kind_camp(location_type) or kind_flood(location_type) or self.movechance >= 0.005
               else self.camp and not self.town and not self.idpcamp and iff(self.forward, kind_forward(location_type)) and iff(self.marker, kind_marker(location_type)) and not self.flood_zone)"""),
           ("untyped", ["P15", "P25"], "location_type is not None and kind_known(location_type) or iff(self.camp, movechance < 0.005) and not self.town and not self.idpcamp and not self.forward and not self.marker and not self.flood_zone and self.conflict == -1"),
           ])

# ---- conflict zones
c("Ecosystem.add_conflict_zone", types={"name": "str", "conflict_intensity": "float", "change_movechance": "bool"}, requires=["named(self)", "one_each(self)", "len(self.spawn_weights) == len(self.locations)",
    (["P11", "P14"], "times_ok()"), (["P11", "P14"], "all(dated(L, self.time) for L in self.locations)")],
  modifies=["@Location." + f for f in ("movechance", "conflict", "town", "time_of_conflict")] + ["self.spawn_weights[:]", "self.spawn_weight_total"], safety=["P16"],
  loops=[Hint("all(self.locationNames[j] != name for j in range(i))", i="int")],
  ensures=[("zone", ["P16", "P18"], EL.format('L.name != name or L.conflict == conflict_intensity and not L.town and L.time_of_conflict == self.time and L.movechance == (rule("ConflictMoveChance") if change_movechance else old(L.movechance))')),
           ("others", ["P16", "P18"], EL.format("L.name == name or same_place(L) and L.time_of_conflict == old(L.time_of_conflict)")),
           ("size", None, "len(self.spawn_weights) == len(self.locations)"), ("weights", ["P11"], "implies(any(L.name == name for L in self.locations), spawn_weights_right(self))")])
c("Ecosystem.remove_conflict_zone", types={"name": "str", "change_movechance": "bool"}, requires=["named(self)", "one_each(self)", "len(self.spawn_weights) == len(self.locations)", (["P11", "P14"], "times_ok()"), (["P11", "P14"], "all(dated(L, self.time) for L in self.locations)")],
  modifies=["@Location." + f for f in ("movechance", "conflict", "town")] + ["self.spawn_weights[:]", "self.spawn_weight_total"], safety=["P16"],
  loops=[Hint("all(L.name != name or not any(L is self.locations[j] for j in range(i)) or L.conflict == -1 and L.town and L.movechance == (rule('DefaultMoveChance') if change_movechance else pre(L.movechance)) for L in self.locations)", i="int"),
         Hint("all(L.name == name or L.conflict == pre(L.conflict) and L.town == pre(L.town) and L.movechance == pre(L.movechance) for L in self.locations)"),
         Hint("all(any(L is self.locations[j] for j in range(i)) or L.conflict == pre(L.conflict) and L.town == pre(L.town) and L.movechance == pre(L.movechance) for L in self.locations)", i="int")],
  ensures=[("not-a-zone", ["P16", "P18"], EL.format('L.name != name or L.conflict == -1 and L.town and L.movechance == (rule("DefaultMoveChance") if change_movechance else old(L.movechance))')),
           ("others", ["P16", "P18"], EL.format("L.name == name or same_place(L)")),
           ("size", None, "len(self.spawn_weights) == len(self.locations)"), ("weights", ["P11"], "spawn_weights_right(self)")])
c("Ecosystem.set_conflict_intensity", types={"name": "str", "conflict_intensity": "float", "change_movechance": "bool"}, requires=["named(self)", "one_each(self)", "len(self.spawn_weights) == len(self.locations)",
    (["P11", "P14"], "times_ok()"), (["P11", "P14"], "all(dated(L, self.time) for L in self.locations)")],
  modifies=["@Location." + f for f in ("movechance", "conflict", "town", "time_of_conflict")] + ["self.spawn_weights[:]", "self.spawn_weight_total"], safety=["P16"],
  ensures=[("zone", ["P16", "P18"], 'conflict_intensity < 0.000001 or ' + EL.format('L.name != name or L.conflict == conflict_intensity and not L.town and L.time_of_conflict == self.time and L.movechance == (rule("ConflictMoveChance") if change_movechance else old(L.movechance))')),
           ("not-a-zone", ["P16", "P18"], 'conflict_intensity >= 0.000001 or ' + EL.format('L.name != name or L.conflict == -1 and L.town and L.movechance == (rule("DefaultMoveChance") if change_movechance else old(L.movechance))')),
           ("others", ["P16", "P18"], EL.format("L.name == name or same_place(L) and L.time_of_conflict == old(L.time_of_conflict)")),
           ("size", None, "len(self.spawn_weights) == len(self.locations)"), ("weights", ["P11"], "implies(any(L.name == name for L in self.locations), spawn_weights_right(self))")])

# ---- scores
C.append(Contract("flee.SimulationSettings:SimulationSettings.get_conflict_decay", types={"time_since_conflict": "int"}, ret="float", requires=[(["P14", "P11"], "times_ok()"), (["P14", "P11"], "time_since_conflict >= 0")],
  ensures=[("decay", ["P14", "P11"], "result == decay(time_since_conflict)")]))
C.append(Contract("flee.SimulationSettings:SimulationSettings.get_location_conflict_decay", types={"time": "int", "loc": "Location"}, ret="float", requires=[(["P14", "P11"], "times_ok()"), (["P14", "P11"], "dated(loc, time)")],
  ensures=[("decay", ["P14", "P11"], "result == decay(time - loc.time_of_conflict)")]))
C.append(Contract("flee.scoring:updateLocationScore", types={"time": "int", "loc": "Location"}, requires=[(["P14"], "len(loc.scores) == 4"), (["P14", "P11"], "times_ok()"), (["P14", "P11"], "dated(loc, time)")], modifies=["loc.scores[:]", "loc.routes"], allocs=True,
  cases=["not known_flood(loc)", "rule('FloodForecaster')"],
  ensures=[("size", ["P25"], "len(loc.scores) == old(len(loc.scores))"), ("score", ["P14"], "not score_known(loc) or eqv(loc.scores[1], old(todays_score(loc, time)))"),
           ("rest", ["P14"], "len(loc.scores) == 4 and loc.scores[0] == 1 and loc.scores[2] == old(loc.scores[2]) and loc.scores[3] == old(loc.scores[3])")]))

# ---- weights of spawning
MACROS.update({
    "spawn_weight": (["L", "time"], """0.0 if srule("conflict_driven_spawning") or L.conflict <= 0 else L.pop * L.conflict * decay(time - L.time_of_conflict)"""),
    "spawn_weights_right": (["e"], """len(e.spawn_weights) == len(e.locations) and all(eqv(e.spawn_weights[i], spawn_weight(e.locations[i], e.time)) for i in range(len(e.locations)))
        and eqv(e.spawn_weight_total, total(w for w in e.spawn_weights))"""),
})
C.append(Contract("flee.spawning:refresh_spawn_weights", types={"e": "Ecosystem"}, requires=["len(e.spawn_weights) == len(e.locations)", (["P11", "P14"], "times_ok()"), (["P11", "P14"], "all(dated(L, e.time) for L in e.locations)")],
  modifies=["e.spawn_weights[:]", "e.spawn_weight_total"], safety=["P11"],
  loops=[Hint("all(eqv(e.spawn_weights[j], spawn_weight(e.locations[j], e.time)) for j in range(i))", i="int")],
  ensures=[("size", None, "len(e.spawn_weights) == old(len(e.spawn_weights))"), ("weights", ["P11"], "spawn_weights_right(e)")]))
C.append(Contract("flee.spawning:getAttributeRatio", types={"location": "Location", "attr_name": "str"}, ret="float", requires=[],
  ensures=[("ratio", ["P14", "P08"], "location.pop == 0 or attr_name not in location.attributes or not is_num(location.attributes[attr_name]) or eqv(result, location.attributes[attr_name] / location.pop)")]))
