"""Contracts for building the location graph and reading it back, and for arrivals (flee.flee)."""
from pyvc.dsl import Contract as K, Hint

C = []


def c(q, **k):
    C.append(K("flee.flee:" + q, **k))


MACROS = {
    "link_of": (["l", "A", "B", "d", "f", "at"], """l.startpoint is A and l.endpoint is B and l._Link__distance == d and l.forced_redirection == f and l.attributes is at
        and not l.closed and l.numAgents == 0 and l.cumNumAgents == 0 and fresh(l)"""),
    "appended": (["L", "n"], "len(L.links) == old(len(L.links)) + n and all(L.links[i] is old(L.links[i]) for i in range(old(len(L.links))))"),
    "newest": (["L", "n"], "L.links[len(L.links) - n]"),
}
c("Link.__init__", types={"startpoint": "Location", "endpoint": "Location", "distance": "float", "forced_redirection": "bool", "attributes": "dict[str,val]"},
  modifies=["self." + f for f in ("name", "closed", "_Link__distance", "startpoint", "endpoint", "x", "y", "numAgents", "cumNumAgents", "cumNumAgentsByAttribute", "numAgentsOnRank", "forced_redirection", "attributes")],
  allocs=True, ensures=[
      ("ends", None, "self.startpoint is startpoint and self.endpoint is endpoint and self._Link__distance == distance and self.forced_redirection == forced_redirection and self.attributes is attributes"),
      ("empty", None, "not self.closed and self.numAgents == 0 and self.cumNumAgents == 0"),
      ("middle", ["P25"], "eqv(2 * self.x, startpoint.x + endpoint.x) and eqv(2 * self.y, startpoint.y + endpoint.y)")])
c("Link.get_distance", ret="float", ensures=[("distance", None, "result == self._Link__distance")])

c("Ecosystem.__init__", modifies=["self." + f for f in ("locations", "locationNames", "agents", "closures", "time", "print_location_output", "spawn_weights", "num_arrivals", "travel_durations")], allocs=True,
  ensures=[("empty", ["P25"], "len(self.locations) == 0 and len(self.locationNames) == 0 and len(self.agents) == 0 and len(self.closures) == 0 and len(self.spawn_weights) == 0 and self.time == 0"),
           ("own", ["P25"], "fresh(self.locations) and fresh(self.locationNames) and fresh(self.agents) and fresh(self.closures)")])

c("Ecosystem.addLocation", types={"name": "str", "region": "str", "x": "float", "y": "float", "location_type": "str?", "movechance": "float", "capacity": "int", "pop": "int", "foreign": "bool",
    "country": "str", "attributes": "dict[str,val]"}, ret="Location",
  requires=["named(self)", "len(self.spawn_weights) == len(self.locations)", '"conflict_intensity" not in attributes or parses(attributes["conflict_intensity"])',
            (["P11", "P14"], "times_ok()"), (["P11", "P14"], "all(dated(L, self.time) for L in self.locations)"), (["P11", "P14"], "self.time >= 0")],
  modifies=["self.locations[:]", "self.locationNames[:]", "self.spawn_weights", "self.spawn_weight_total"], allocs=("Location",),
  ensures=[("listed", ["P25"], """len(self.locations) == old(len(self.locations)) + 1 and self.locations[old(len(self.locations))] is result and fresh(result)
               and all(self.locations[i] is old(self.locations[i]) for i in range(old(len(self.locations))))"""),
           ("named", ["P25"], "named(self)"),
           ("as-asked", ["P25"], "result.name == name and result.region == region and result.x == x and result.y == y and result.capacity == capacity and result.pop == pop and result.foreign == foreign and result.country == country and result.attributes is attributes"),
           ("kind", ["P25"], """location_type is None or not kind_known(location_type) or kind_conflict(location_type) or result.movechance < 0.005 or is_kind(result, location_type)"""),
           ("empty", ["P25"], "result.numAgents == 0 and len(result.links) == 0 and len(result.closed_links) == 0 and fresh(result.links) and fresh(result.closed_links)"),
           ("weights", ["P11"], "spawn_weights_right(self)")])

c("Ecosystem.linkUp", types={"endpoint1": "str", "endpoint2": "str", "distance": "float", "forced_redirection": "bool", "attributes": "dict[str,val]"},
  requires=["named(self)", "one_each(self)", "own_links()"], modifies=["@list[Link]"], allocs=("Link",),
  loops=[Hint("n < 0 or n < _k and self.locationNames[n] == endpoint1", n="int"), Hint("n >= 0 or all(self.locationNames[j] != endpoint1 for j in range(_k))", n="int"),
         Hint("n < 0 or n < _k and self.locationNames[n] == endpoint2", n="int"), Hint("n >= 0 or all(self.locationNames[j] != endpoint2 for j in range(_k))", n="int")],
  ensures=[("there", ["P25"], "found(self, endpoint1) and found(self, endpoint2)"),
           ("there-and-back", ["P25"], """endpoint1 == endpoint2 or all(implies(A.name == endpoint1 and B.name == endpoint2,
               appended(A, 1) and appended(B, 1) and link_of(newest(A, 1), A, B, distance, forced_redirection, attributes) and link_of(newest(B, 1), B, A, distance, False, attributes))
               for A in self.locations for B in self.locations)"""),
           ("others", ["P25"], "all(L.name == endpoint1 or L.name == endpoint2 or same_links(L) for L in self.locations)"),
           ("closed-same", ["P25"], "all(same_row(L.closed_links, old(L.closed_links)) for L in self.locations)")])

c("Ecosystem.get_camp_names", ret="list[str]", allocs=True,
  loops=[Hint("all(any(L.camp and L.name == n for L in self.locations) for n in names)", names="list[str]"),
         Hint("all(not self.locations[j].camp or any(n == self.locations[j].name for n in names) for j in range(_k))", names="list[str]"),
         Hint("len(names) == count(self.locations[j].camp for j in range(_k))", names="list[str]")],
  ensures=[("camps", ["P25"], "all(any(L.camp and L.name == n for L in self.locations) for n in result)"),
           ("all", ["P25"], "all(not L.camp or any(n == L.name for n in result) for L in self.locations)"),
           ("once", ["P25"], "len(result) == count(L.camp for L in self.locations)")])
c("Ecosystem.export_graph", types={"use_ids_instead_of_names": "bool"}, ret="tuple[list[str],list[rec[str,str,float]]]", allocs=True,
  loops=[Hint("same_row(names, pre(names))", names="list[str]"), Hint("len(names) == _k and all(names[j] == self.locations[j].name for j in range(_k))", names="list[str]"),
         Hint("len(es) == total(len(self.locations[j].links) for j in range(_k))", es="list[rec[str,str,float]]"), Hint("len(es) == pre(len(es)) + _k", es="list[rec[str,str,float]]"),
         Hint("all(any(L.name == x[0] and any(l.endpoint.name == x[1] and l._Link__distance == x[2] for l in L.links) for L in self.locations) for x in es)", es="list[rec[str,str,float]]"),
         Hint("all(any(x[0] == self.locations[j].name and x[1] == l.endpoint.name and x[2] == l._Link__distance for x in es) for j in range(_k) for l in self.locations[j].links)", es="list[rec[str,str,float]]"),
         Hint("all(any(x[0] == loc.name and x[1] == loc.links[j].endpoint.name and x[2] == loc.links[j]._Link__distance for x in es) for j in range(_k))", es="list[rec[str,str,float]]", loc="Location"),
         Hint("all(any(x[0] == pre(es[q])[0] and x[1] == pre(es[q])[1] and x[2] == pre(es[q])[2] for x in es) for q in range(pre(len(es))))", es="list[rec[str,str,float]]")],
  ensures=[("vertices", ["P25"], "len(result[0]) == len(self.locations) and all(result[0][i] == self.locations[i].name for i in range(len(self.locations)))"),
           ("edges-real", ["P25"], "all(any(L.name == x[0] and any(l.endpoint.name == x[1] and l._Link__distance == x[2] for l in L.links) for L in self.locations) for x in result[1])"),
           ("~edges-all", ["P25"], "all(any(x[0] == L.name and x[1] == l.endpoint.name and x[2] == l._Link__distance for x in result[1]) for L in self.locations for l in L.links)"),
           ("~as-many", ["P25"], "len(result[1]) == total(len(L.links) for L in self.locations)")])
c("Ecosystem.numIDPs", ret="int", loops=[Hint("n == total(self.locations[j].numAgents if self.locations[j].idpcamp else 0 for j in range(_k))", n="int")],
  ensures=[("people-in-idp-camps", ["P25", "P21"], "result == total(L.numAgents if L.idpcamp else 0 for L in self.locations)")])

# ---- arrivals
c("Ecosystem._aggregate_arrivals", modifies=["@Location.incoming_journey_lengths", "self.num_arrivals[:]", "self.travel_durations[:]"], allocs=True,
  requires=[(["P21"], "distinct(self.locations)")],
  loops=[Hint("all(not self.locations[j].camp or len(self.locations[j].incoming_journey_lengths) == 0 and fresh(self.locations[j].incoming_journey_lengths) for j in range(_k))"),
         Hint("all(L.camp or L.incoming_journey_lengths is pre(L.incoming_journey_lengths) for L in self.locations)"),
         Hint("all(L.incoming_journey_lengths is pre(L.incoming_journey_lengths) or fresh(L.incoming_journey_lengths) for L in self.locations)"),
         Hint("all(self.locations[j].incoming_journey_lengths is pre(self.locations[j].incoming_journey_lengths) for j in range(_k, len(self.locations)))"),
         Hint("n == total(len(pre(self.locations[j].incoming_journey_lengths)) if self.locations[j].camp else 0 for j in range(_k))", n="int")],
  ensures=[("emptied", ["P21"], 'SimulationSettings.log_levels["camp"] <= 0 or all(not L.camp or len(L.incoming_journey_lengths) == 0 for L in self.locations)'),
           ("others", ["P21"], 'all(SimulationSettings.log_levels["camp"] > 0 and L.camp or L.incoming_journey_lengths is old(L.incoming_journey_lengths) for L in self.locations)'),
           ("one-entry", ["P21"], """SimulationSettings.log_levels["camp"] <= 0 or len(self.num_arrivals) == old(len(self.num_arrivals)) + 1 and len(self.travel_durations) == old(len(self.travel_durations)) + 1
               and all(self.num_arrivals[i] == old(self.num_arrivals[i]) for i in range(old(len(self.num_arrivals))))"""),
           ("arrivals", ["P21"], 'SimulationSettings.log_levels["camp"] <= 0 or self.num_arrivals[-1] == old(total(len(L.incoming_journey_lengths) if L.camp else 0 for L in self.locations))')])
