"""Contracts for people, the places they are at, and how they move (flee.flee Person/Location/Link/Ecosystem)."""
from pyvc.dsl import Contract as K, Hint

C = []


def c(q, **k):
    C.append(K("flee.flee:" + q, **k))


MACROS = {
    # a person on the move is on a link, a person at rest is at a location
    "placed": (["a"], "a.location is None or (a.travelling and is_a(a.location, Link)) or (not a.travelling and is_a(a.location, Location))"),
    "speeds_ok": ([], 'SimulationSettings.move_rules["MaxMoveSpeed"] > 0 and SimulationSettings.move_rules["MaxWalkSpeed"] > 0'),
    "speeds_parse": ([], """all(implies("max_move_speed" in L.attributes, parses(L.attributes["max_move_speed"])) and
        implies("walk_probability" in L.attributes, parses(L.attributes["walk_probability"])) for L in objects(Link))"""),
    # change of an agent count between the two states against the place of one person
    "counts_follow": (["a"], "all(L.numAgents - old(L.numAgents) == (1 if L is a.location else 0) - (1 if L is old(a.location) else 0) for L in objects(Location, Link))"),
    "counts_same": ([], "all(L.numAgents == old(L.numAgents) for L in objects(Location, Link))"),
}

COUNTERS = ["@Location.numAgents", "@Link.numAgents", "@Link.cumNumAgents"]

c("Location.DecrementNumAgents", modifies=["self.numAgents"], safety=["P01"],
  ensures=[("one-less", ["P01", "P10"], "self.numAgents == old(self.numAgents) - 1")])
c("Location.IncrementNumAgents", types={"agent": "Person"}, modifies=["self.numAgents"], safety=["P01"],
  ensures=[("one-more", ["P01", "P10"], "self.numAgents == old(self.numAgents) + 1")])
c("Link.DecrementNumAgents", modifies=["self.numAgents"], safety=["P01"],
  ensures=[("one-less", ["P01", "P10"], "self.numAgents == old(self.numAgents) - 1")])
c("Link.IncrementNumAgents", types={"agent": "Person"}, modifies=["self.numAgents", "self.cumNumAgents"], safety=["P01"],
  ensures=[("one-more", ["P01", "P10"], "self.numAgents == old(self.numAgents) + 1"),
           ("cumulative", ["P21"], "self.cumNumAgents == old(self.cumNumAgents) + 1")])

c("Person.__init__", types={"location": "Location", "attributes": "dict[str,val]"},
  modifies=["self." + f for f in ("location", "home_location", "timesteps_since_departure", "places_travelled", "recent_travel_distance",
            "distance_moved_this_timestep", "travelling", "distance_travelled_on_link", "attributes", "route", "distance_travelled", "locations_visited")]
  + ["location.numAgents"], allocs=True,
  safety=["P01"],
  ensures=[("at-start", None, "self.location is location and self.home_location is location and not self.travelling and placed(self)"),
           ("counted", ["P01", "P10"], "all(L.numAgents - old(L.numAgents) == (1 if L is location else 0) for L in objects(Location, Link))"),
           ("initial", ["P03"], "self.distance_travelled_on_link == 0 and self.distance_moved_this_timestep == 0 and self.places_travelled == 1 and self.recent_travel_distance == 0 and len(self.route) == 0"),
           ("not-left", None, "self.timesteps_since_departure == 0 and self.places_travelled == 1"),
           ("kept", None, "self.attributes is attributes")])

c("Person.handle_travel", types={"location": "Location|Link", "travelling": "bool"}, requires=["self.location is not None"],
  modifies=["self.location", "self.travelling", "self.distance_travelled_on_link"] + COUNTERS, safety=["P01"],
  ensures=[("moved", None, "self.location is location and self.travelling == travelling"),
           ("fresh-link", ["P03"], "self.distance_travelled_on_link == 0"),
           ("counts", ["P01"], "counts_follow(self)")])

c("Person.check_dest_is_full_camp", types={"e": "Ecosystem"}, ret="bool", requires=["len(self.route) > 0", "len(e.locations) == len(e.locationNames)", (["P06"], "buffer_ok()")],
  ensures=[("full", ["P06"], "iff(result, no_room(e, self.route[-1]))")],
  loops=[Hint("all(e.locationNames[j] != self.route[-1] for j in range(i))", i="int")])
MACROS.update({
    "full_camp": (["L"], "moving.getCapMultiplier(L, 1) < 0.5"),
    # the place called n is a camp without room
    "no_room": (["e", "n"], "any(e.locationNames[i] == n and all(e.locationNames[j] != n for j in range(i)) and e.locations[i].camp and full_camp(e.locations[i]) for i in range(len(e.locationNames)))"),
    "on_track": (["a"], "a.distance_travelled_on_link >= 0 and implies(a.travelling and is_a(a.location, Link), a.distance_travelled_on_link <= a.location._Link__distance)"),
    "lengths_ok": ([], "all(l._Link__distance >= 0 and implies('max_move_speed' in l.attributes, numeric(l.attributes['max_move_speed']) > 0) for l in objects(Link))"),
    "walk_chance": (["L"], 'numeric(L.attributes["walk_probability"]) if "walk_probability" in L.attributes else 0.0'),
    "ride": (["a", "L"], """SimulationSettings.move_rules["MaxWalkSpeed"] if a.places_travelled == 1 and SimulationSettings.move_rules["StartOnFoot"]
        else (numeric(L.attributes["max_move_speed"]) if "max_move_speed" in L.attributes else SimulationSettings.move_rules["MaxMoveSpeed"])"""),
    "pace": (["a", "L"], 'SimulationSettings.move_rules["MaxWalkSpeed"] if walk_chance(L) >= 1 else ride(a, L)'),
    "sure_pace": (["L"], "walk_chance(L) <= 0 or walk_chance(L) >= 1"),
    "same_spot": (["a"], "a.location is old(a.location) and a.travelling == old(a.travelling)"),
})

c("Person.take_next_step", types={"e": "Ecosystem"}, ret="Link?",
  requires=["self.location is not None and is_a(self.location, Location)", "len(e.locations) == len(e.locationNames)", (["P06"], "buffer_ok()")],
  modifies=["self.route"], allocs=True,
  loops=[Hint("all(_self.location.links[j].endpoint.name != _self.route[0] for j in range(_k))", _self="Person")],
  ensures=[("open-link", ["P02"], "result is None or any(l is result for l in self.location.links)"),
           ("on-route", ["P02"], "result is None or (len(old(self.route)) > 0 and result.endpoint.name == old(self.route)[0])"),
           ("goes", ["P06"], "iff(result is not None, len(old(self.route)) > 0 and any(l.endpoint.name == old(self.route)[0] for l in self.location.links) and not no_room(e, old(self.route)[-1]))"),
           ("plan", ["P03", "P06", "P09"], """(len(self.route) == 0 if result is None else len(self.route) == len(old(self.route)) - 1
               and all(self.route[i] == old(self.route)[i + 1] for i in range(len(self.route))))"""),
           ])

DATES = [(["P11", "P14"], "times_ok()"), (["P11", "P14"], "all(dated(L, self.time) for L in self.locations)"), (["P14"], "all(len(L.scores) == 4 for L in self.locations)"), (["P14"], "own_scores(self)")]
MACROS["own_scores"] = (["e"], "e.travel_durations is not srule('conflict_spawn_decay') and implies(has_setting('move_rules', 'FloodLocWeights'), e.travel_durations is not rule('FloodLocWeights')) and all(e.locations[i].scores is not e.spawn_weights for i in range(len(e.locations))) and all(implies(e.locations[i].scores is e.locations[j].scores, i == j) for i in range(len(e.locations)) for j in range(len(e.locations)))")
RULES = [(["P06"], "buffer_ok()"), (["P09"], 'rule("MovechancePopBase") > 0')]
c("Person.evolve", types={"e": "Ecosystem", "time": "int", "ForceTownMove": "bool"},
  requires=["self.location is not None", "placed(self)", "len(e.locations) == len(e.locationNames)", (["P03"], "lengths_ok()"), (["P03"], "on_track(self)"), ] + RULES,
  modifies=["self.location", "self.travelling", "self.distance_travelled_on_link", "self.route"] + COUNTERS, allocs=True,
  ensures=[("under-way", ["P03"], "not old(self.travelling) or same_spot(self) and self.route is old(self.route) and self.distance_travelled_on_link == old(self.distance_travelled_on_link)"),
           ("sets-out", ["P03"], "same_spot(self) and self.distance_travelled_on_link == old(self.distance_travelled_on_link) or self.travelling and self.distance_travelled_on_link == 0"),
           ("on-track", ["P03"], "on_track(self)"),
           ("stays", ["P09"], """old(self.travelling) or ForceTownMove or forecast_on(time) or not old(todays_chance(self.location) <= 0) or same_spot(self) and self.route is old(self.route)"""),
           ("forced", ["P09"], """old(self.travelling) or not (ForceTownMove and old(self.location.town)) or not same_spot(self) or len(self.route) == 0"""),
           ("certain", ["P09"], """old(self.travelling) or ForceTownMove or forecast_on(time) or not old(todays_chance(self.location) >= 1) or not same_spot(self) or len(self.route) == 0"""),
           ("placed", None, "placed(self) and self.location is not None"),
           ("counts", ["P01"], "counts_follow(self)"),
           ("open-link", ["P02"], "self.location is old(self.location) or any(l is self.location for l in old(self.location).links)"),
           ])

c("Person.finish_travel", types={"e": "Ecosystem", "time": "int"},
  requires=["self.location is not None", "placed(self)", "len(e.locations) == len(e.locationNames)", "speeds_parse()", "speeds_ok()", (["P03"], "lengths_ok()"), (["P03"], "on_track(self)")] + RULES,
  cases=["not self.travelling", "self.travelling and self.location.closed"],
  modifies=["self.location", "self.travelling", "self.distance_travelled_on_link", "self.route", "self.distance_moved_this_timestep",
            "self.places_travelled", "self.distance_travelled", "self.locations_visited[:]", "@Location.incoming_journey_lengths", "@list[int]"] + COUNTERS, allocs=True,
  ensures=[("placed", None, "placed(self) and self.location is not None"),
           ("counts", ["P01"], "counts_follow(self)"),
           ("at-rest", ["P03"], """old(self.travelling) or same_spot(self) and self.distance_travelled_on_link == old(self.distance_travelled_on_link)
               and self.distance_moved_this_timestep == old(self.distance_moved_this_timestep) and self.places_travelled == old(self.places_travelled)"""),
           ("on-the-way", ["P03"], """implies(old(self.travelling) and old(sure_pace(self.location)) and old(self.distance_travelled_on_link + pace(self, self.location) <= self.location._Link__distance),
               same_spot(self) and eqv(self.distance_travelled_on_link, old(self.distance_travelled_on_link + pace(self, self.location)))
               and eqv(self.distance_moved_this_timestep, old(self.distance_moved_this_timestep + pace(self, self.location))) and self.places_travelled == old(self.places_travelled))"""),
           ("either-pace", ["P03"], """implies(old(self.travelling) and old(self.distance_travelled_on_link + max(SimulationSettings.move_rules["MaxWalkSpeed"], ride(self, self.location)) <= self.location._Link__distance),
               same_spot(self) and (eqv(self.distance_travelled_on_link, old(self.distance_travelled_on_link + ride(self, self.location)))
                 or eqv(self.distance_travelled_on_link, old(self.distance_travelled_on_link) + SimulationSettings.move_rules["MaxWalkSpeed"])))"""),
           ("arrives", ["P03"], """implies(old(self.travelling) and old(sure_pace(self.location)) and old(self.distance_travelled_on_link + pace(self, self.location) > self.location._Link__distance),
               self.places_travelled > old(self.places_travelled))"""),
           ("for-the-day", ["P03"], """implies(old(self.travelling) and old(sure_pace(self.location)) and old(self.distance_travelled_on_link + pace(self, self.location) > self.location._Link__distance)
               and old(self.location.closed or self.distance_moved_this_timestep + self.location._Link__distance - self.distance_travelled_on_link >= pace(self, self.location)),
               not self.travelling and self.location is old(self.location.startpoint if self.location.closed else self.location.endpoint) and self.distance_travelled_on_link == 0
               and self.places_travelled == old(self.places_travelled) + 1
               and eqv(self.distance_moved_this_timestep, old(self.distance_moved_this_timestep + self.location._Link__distance - self.distance_travelled_on_link)))"""),
           ("never-less", ["P03"], "self.distance_moved_this_timestep >= old(self.distance_moved_this_timestep) and self.places_travelled >= old(self.places_travelled)"),
           ("on-track", ["P03"], "on_track(self)"),
           ])


EVERYONE = ["@Person." + f for f in ("location", "travelling", "distance_travelled_on_link", "route", "distance_moved_this_timestep", "places_travelled",
            "distance_travelled", "timesteps_since_departure", "recent_travel_distance", "locations_visited")] + ["@list[Location|Link]"]

MACROS.update({
    "eco_ok": (["e"], """len(e.locations) == len(e.locationNames) and len(e.spawn_weights) == len(e.locations)"""),
    "crowd_ok": (["e"], """all(placed(a) for a in e.agents) and
        distinct(e.agents)"""),
    "balance": (["e"], """all(L.numAgents - old(L.numAgents) == at_place(L, e.agents, len(e.agents)) - old(at_place(L, e.agents, len(e.agents))) for L in objects(Location, Link))"""),
})

COUNT_LOOP = [
    Hint("all(placed(a) for a in _self.agents)", _self="Ecosystem"),
    Hint("all(L.numAgents - pre(L.numAgents) == at_place(L, _self.agents, _k) - pre(at_place(L, _self.agents, _k)) for L in objects(Location, Link))", _self="Ecosystem"),
    Hint("all(_self.agents[j].location is pre(_self.agents[j].location) for j in range(_k, len(_self.agents)))", _self="Ecosystem"),
    Hint("all(at_place(L, _self.agents, _k) == pre(at_place(L, _self.agents, _k)) for L in objects(Link))", _self="Ecosystem"),
    Hint("all(at_place(L, _self.agents, _k) <= pre(at_place(L, _self.agents, _k)) for L in objects(Location))", _self="Ecosystem"),
    Hint("all(implies(not L.camp, at_place(L, _self.agents, _k) == pre(at_place(L, _self.agents, _k))) for L in objects(Location))", _self="Ecosystem"),
]

DAYS = [
    Hint("all(on_track(a) for a in _self.agents)", _self="Ecosystem"),
    Hint("all(a.distance_moved_this_timestep >= 0 for a in _self.agents)", _self="Ecosystem"),
    Hint("all(_self.agents[j].timesteps_since_departure == pre(_self.agents[j].timesteps_since_departure) + (0 if pre(_self.agents[j].location) is None else 1) for j in range(_k))", _self="Ecosystem"),
    Hint("all(_self.agents[j].timesteps_since_departure == pre(_self.agents[j].timesteps_since_departure) for j in range(_k, len(_self.agents)))", _self="Ecosystem"),
    Hint("all(iff(a.location is None, pre(a.location) is None) for a in _self.agents)", _self="Ecosystem"),
    Hint("all(_self.agents[j].distance_moved_this_timestep == 0 for j in range(_k))", _self="Ecosystem"),
    Hint("all(_self.agents[j].recent_travel_distance * 2 >= pre(_self.agents[j].recent_travel_distance) for j in range(_k))", _self="Ecosystem"),
    Hint("all(_self.agents[j].recent_travel_distance == pre(_self.agents[j].recent_travel_distance) for j in range(_k, len(_self.agents)))", _self="Ecosystem"),
]
SCORES = [Hint("all(len(L.scores) == 4 and L.scores is pre(L.scores) for L in _self.locations)", _self="Ecosystem"),
          Hint("all(not score_known(_self.locations[j]) or eqv(_self.locations[j].scores[1], pre(todays_score(_self.locations[j], _self.time))) for j in range(_k))", _self="Ecosystem")]
c("Ecosystem.evolve", requires=["eco_ok(self)", "crowd_ok(self)", "speeds_parse()", "speeds_ok()", (["P03"], "lengths_ok()"),
     (["P03"], "all(on_track(a) and a.distance_moved_this_timestep >= 0 for a in self.agents)")] + RULES + DATES + [(["P21"], "distinct(self.locations)")],
  modifies=EVERYONE + COUNTERS + ["@Location.incoming_journey_lengths", "@list[int]", "self.num_arrivals", "self.travel_durations", "self.travel_durations[:]", "self.time", "self.spawn_weights[:]", "self.spawn_weight_total",
     "@Location.routes", "@arr[float]"],
  allocs=True, loops=COUNT_LOOP + DAYS + SCORES,
  ensures=[("same-people", ["P01"], "self.agents is old(self.agents) and same_row(self.agents, old(self.agents))"),
           ("placed", ["P01"], "all(placed(a) for a in self.agents)"),
           ("clock", ["P05"], "self.time == old(self.time) + 1"),
           ("~scores", ["P14"], "all(not score_known(L) or eqv(L.scores[1], old(todays_score(L, self.time))) for L in self.locations)"),
           ("days", ["P03"], "all(a.timesteps_since_departure == old(a.timesteps_since_departure) + (0 if old(a.location) is None else 1) for a in self.agents)"),
           ("new-day", ["P03"], "all(a.distance_moved_this_timestep == 0 and on_track(a) for a in self.agents)"),
           ("recent", ["P03"], "all(a.recent_travel_distance * 2 >= old(a.recent_travel_distance) for a in self.agents)"),
           ("balance", ["P01"], """all(implies(not SimulationSettings.spawn_rules["camps_are_sinks"] or is_a(L, Link),
               L.numAgents - old(L.numAgents) == at_place(L, self.agents, len(self.agents)) - old(at_place(L, self.agents, len(self.agents)))) for L in objects(Location, Link))"""),
           ("sinks", ["P01"], """all(L.numAgents - old(L.numAgents) >= at_place(L, self.agents, len(self.agents)) - old(at_place(L, self.agents, len(self.agents)))
               and implies(not L.camp, L.numAgents - old(L.numAgents) == at_place(L, self.agents, len(self.agents)) - old(at_place(L, self.agents, len(self.agents)))) for L in objects(Location))"""),
           ])


# ---- adding and removing people
MACROS.update({
    # the person p has just been added to the list of everyone, and nothing else changed there
    "joined": (["e"], """len(e.agents) == old(len(e.agents)) + 1 and all(e.agents[i] is old(e.agents[i]) for i in range(old(len(e.agents))))
        and fresh(e.agents[len(e.agents) - 1])"""),
    "newcomer": (["p", "L"], "p.location is L and p.home_location is L and not p.travelling and p.places_travelled == 1 and p.timesteps_since_departure == 0"),
    "one_more": (["M"], "all(L.numAgents - old(L.numAgents) == (1 if L is M else 0) for L in objects(Location, Link))"),
})
JOIN = ["self.agents[:]", "location.numAgents"]
c("Ecosystem.addAgent", types={"location": "Location", "attributes": "dict[str,val]"}, modifies=JOIN + ["location.pop", "location.numAgentsSpawned"], allocs=("Person",),
  safety=["P01", "P11"],
  ensures=[("joined", ["P01", "P10", "P19"], "joined(self) and newcomer(self.agents[len(self.agents) - 1], location) and self.agents[len(self.agents) - 1].attributes is attributes"),
           ("counted", ["P01", "P10"], "one_more(location)"),
           ("population", ["P11"], """location.pop == (old(location.pop) - 1 if SimulationSettings.spawn_rules["TakeFromPopulation"] and old(location.pop) > 0 else old(location.pop))
               and location.numAgentsSpawned == old(location.numAgentsSpawned) + (1 if SimulationSettings.spawn_rules["TakeFromPopulation"] else 0)"""),
           ("population-not-negative", ["P11"], "implies(old(location.pop) >= 0, location.pop >= 0)")])
c("Ecosystem.insertAgent", types={"location": "Location", "attributes": "dict[str,val]"}, modifies=JOIN, allocs=("Person",), safety=["P01", "P11"],
  ensures=[("joined", ["P01", "P10"], "joined(self) and newcomer(self.agents[len(self.agents) - 1], location)"),
           ("attributes", ["P10"], "self.agents[len(self.agents) - 1].attributes is attributes"),
           ("counted", ["P01", "P10"], "one_more(location)")])
c("Ecosystem.insertAgents", types={"location": "Location", "number": "int"}, modifies=JOIN, allocs=("Person",), safety=["P01"],
  loops=[Hint("len(_self.agents) == pre(len(_self.agents)) + _k and all(_self.agents[i] is pre(_self.agents[i]) for i in range(pre(len(_self.agents))))", _self="Ecosystem"),
         Hint("all(fresh(_self.agents[i]) and newcomer(_self.agents[i], where) for i in range(pre(len(_self.agents)), len(_self.agents)))", _self="Ecosystem", where="Location"),
         Hint("all(L.numAgents - pre(L.numAgents) == (_k if L is where else 0) for L in objects(Location, Link))", where="Location")],
  ensures=[("joined", ["P01"], """len(self.agents) == old(len(self.agents)) + (number if number > 0 else 0)
               and all(self.agents[i] is old(self.agents[i]) for i in range(old(len(self.agents))))
               and all(fresh(self.agents[i]) and newcomer(self.agents[i], location) for i in range(old(len(self.agents)), len(self.agents)))"""),
           ("counted", ["P01"], "all(L.numAgents - old(L.numAgents) == ((number if number > 0 else 0) if L is location else 0) for L in objects(Location, Link))")])
c("Ecosystem.clearLocationsFromAgents", types={"location_names": "list[str]"}, modifies=["self.agents", "@Location.numAgents", "@Link.numAgents"], allocs=True, safety=["P01"],
  loops=[Hint("all(L.numAgents - pre(L.numAgents) == at_place(L, kept, len(kept)) - at_place(L, _self.agents, _k) for L in objects(Location, Link))", _self="Ecosystem", kept="list[Person]"),
         Hint("all(a.location is None or not any(x == a.location.name for x in names) for a in kept)", kept="list[Person]", names="list[str]"),
         Hint("all(any(x is pre(_self.agents[i]) for i in range(_k)) for x in kept)", kept="list[Person]", _self="Ecosystem"),
         Hint("all(any(x is _self.agents[i] for x in kept) for i in range(_k) if _self.agents[i].location is None or not any(n == _self.agents[i].location.name for n in names))", kept="list[Person]", _self="Ecosystem", names="list[str]")],
  ensures=[("none-left", ["P01", "P20"], "all(a.location is None or not any(x == a.location.name for x in location_names) for a in self.agents)"),
           ("from-before", ["P01", "P20"], "all(any(x is y for y in old(self.agents)) for x in self.agents)"),
           ("others-kept", ["P01", "P20"], "all(implies(x.location is None or not any(n == x.location.name for n in location_names), any(y is x for y in self.agents)) for x in old(self.agents))"),
           ("balance", ["P01", "P20"], "all(L.numAgents - old(L.numAgents) == at_place(L, self.agents, len(self.agents)) - old(at_place(L, self.agents, len(self.agents))) for L in objects(Location, Link))")])
c("Ecosystem.numAgents", ret="int", ensures=[("all-agents", ["P01"], "result == len(self.agents)")])

from pyvc.dsl import Contract
C.append(Contract("flee.Diagnostics:write_agents", types={"agents": "list[Person]", "time": "int"}, trusted=True))
C.append(Contract("flee.Diagnostics:write_links", types={"locations": "list[Location]", "time": "int"}, trusted=True))
