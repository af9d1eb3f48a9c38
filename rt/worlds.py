"""Random use of the real API: settings, location graphs, people, and sequences of operations on them."""
import os
import random

import numpy as np

NAMES = ["A", "B", "C", "D", "E1", "F", "Gao", "Mbera"]
TYPES = ["town", "camp", "conflict", "idpcamp", "forwarding_hub", "marker", "flood_zone", "default", None]
COUNTRIES = ["X", "Y", "unknown"]


class Ctx:
    """What a driver works with: a generator of choices, constants seen in the code, the flee modules."""

    def __init__(self, rng, consts, mon=None):
        self.r, self.consts, self.mon = rng, consts, mon
        from flee import flee, moving, spawning, scoring, crawling, Diagnostics
        from flee.SimulationSettings import SimulationSettings
        self.flee, self.moving, self.spawning, self.scoring, self.crawling, self.diag = flee, moving, spawning, scoring, crawling, Diagnostics
        self.SS = SimulationSettings
        self.log = []

    def chance(self, p):
        return self.r.random() < p

    def num(self, lo, hi, pool=()):
        """A number, often a boundary one or one that occurs in the code."""
        k = self.r.random()
        cs = [c for c in self.consts["num"] if lo <= c <= hi]
        if pool and k < 0.5:
            return float(self.r.choice(pool))
        if cs and k < 0.65:
            return float(self.r.choice(cs)) + (0.0 if self.chance(0.8) else self.r.choice([-1, 1]) * 0.5)
        if k < 0.85:
            return float(self.r.randint(int(lo), int(hi)))
        return self.r.uniform(lo, hi)

    def int(self, lo, hi):
        k = self.r.random()
        cs = [int(c) for c in self.consts["num"] if lo <= c <= hi and c == int(c)]
        if cs and k < 0.25:
            return min(hi, max(lo, self.r.choice(cs) + self.r.choice([0, 0, -1, 1])))
        if k < 0.6:
            return self.r.randint(lo, min(hi, lo + 6))
        return self.r.randint(lo, hi)

    def do(self, f, *a, **kw):
        """Calls the API; an exception or exit of the code ends only this operation."""
        try:
            return f(*a, **kw)
        except SystemExit:
            return None
        except Exception as ex:
            if type(ex).__name__ == "ScenarioTimeout":
                raise
            self.log.append("%s: %r" % (getattr(f, "__name__", f), ex))
            return None


def default_settings(c):
    if not os.path.exists("plain.yml"):
        open("plain.yml", "w").write("log_levels:\n  agent: 0\n")
    for d in (c.SS.log_levels, c.SS.spawn_rules, c.SS.move_rules, c.SS.optimisations):
        d.clear()
    c.SS.ReadFromYML("plain.yml")


def settings(c, flood=True, spawn=True, fixed=True):
    default_settings(c)
    r, S = c.r, c.SS
    ll, sr, mr = S.log_levels, S.spawn_rules, S.move_rules
    ll["agent"] = r.choice([0, 0, 0, 1, 2, 3])
    ll["link"] = r.choice([0, 0, 0, 1, 2])
    ll["camp"] = r.choice([0, 1])
    ll["init"] = r.choice([0, 1])
    ll["conflict"] = r.choice([0, 0, 1])
    ll["granularity"] = r.choice(["location", "location", "region"]) if ll["agent"] == 0 else "location"
    mr["MaxMoveSpeed"] = c.num(20, 400, [360.0, 200.0, 35.0, 50.0])
    mr["MaxWalkSpeed"] = c.num(5, 60, [35.0, 20.0])
    mr["AwarenessLevel"] = r.choice([0, 1, 1, 2, 2, 3])
    mr["StartOnFoot"] = c.chance(0.3)
    mr["AvoidShortStints"] = c.chance(0.4)
    mr["CapacityBuffer"] = r.choice([0.9, 0.9, 0.5, 0.75])
    mr["CapacityScaling"] = r.choice([1.0, 1.0, 0.5, 2.0])
    mr["CampMoveChance"] = r.choice([0.001, 0.0, 0.5, 1.0])
    mr["IDPCampMoveChance"] = r.choice([0.1, 0.0, 0.7])
    mr["DefaultMoveChance"] = r.choice([0.3, 1.0, 0.8, 0.0])
    mr["ConflictMoveChance"] = r.choice([1.0, 0.9, 0.5])
    mr["ForeignWeight"] = r.choice([1.0, 2.0, 0.5])
    mr["CampWeight"] = r.choice([1.0, 2.0, 3.0])
    mr["ConflictWeight"] = r.choice([0.25, 0.3162, 0.5, 1.0])
    mr["DistanceSoftening"] = r.choice([10.0, 0.5, 1.0, 25.0])
    mr["WeightSoftening"] = r.choice([0.0, 0.0, 0.5, 1.0])
    mr["WeightPower"] = r.choice([1.0, 1.0, 0.5, 2.0, 0.0])
    mr["DistancePower"] = r.choice([1.0, 1.0, 2.0, 0.5])
    mr["PruningThreshold"] = r.choice([1.0, 1.0, 1.5, 2.0, 5.0])
    mr["StayCloseToHome"] = c.chance(0.2)
    mr["MovechancePopScaleFactor"] = r.choice([0.0, 0.0, 0.5, 1.0])
    mr["MovechancePopBase"] = r.choice([10000.0, 100.0, 10.0])
    sr["TakeFromPopulation"] = c.chance(0.4)
    sr["camps_are_sinks"] = c.chance(0.3)
    sr["conflict_zone_spawning_only"] = c.chance(0.6)
    sr["conflict_driven_spawning"] = spawn and c.chance(0.3)
    if sr["conflict_driven_spawning"]:
        sr["conflict_spawn_mode"] = r.choice(["constant", "pop_ratio", "poisson", "Poisson"])
        sr["displaced_per_conflict_day"] = r.choice([0.01, 0.1, 0.5]) if sr["conflict_spawn_mode"] == "pop_ratio" else c.num(0, 6, [1, 2, 5])
    sr["conflict_spawn_decay"] = r.choice([None, None, [], [1.0, 0.5, 0.25], [0.9, 0.1, 0.7, 0.0]])
    sr["conflict_spawn_decay_interval"] = r.choice([30, 1, 2, 7])
    if flood and c.chance(0.35):
        mr["FloodRulesEnabled"] = True
        mr["FloodMovechances"] = [0.0, 0.2, 0.5, 0.75, 1.0]
        mr["FloodLocWeights"] = [1.0, 0.8, 0.5, 0.25, 0.1]
        mr["FloodLinkWeights"] = [1.0, 1.0, 1.0, 1.0, 1.0]
        mr["FloodForecaster"] = c.chance(0.5)
        mr["FloodForecasterTimescale"] = r.choice([0, 1, 2, 3, 5])
        mr["FloodForecasterEndTime"] = r.choice([0, 3, 5, 8])
        mr["FloodForecasterWeights"] = [round(1.0 - 0.07 * i, 3) for i in range(16)]
        mr["FloodAwarenessWeights"] = [0.2, 0.6, 1.0]
        sr["MaxFloodLevel"] = 4
        if spawn and c.chance(0.4):
            sr["flood_driven_spawning"] = True
            sr["flood_spawn_mode"] = r.choice(["constant", "pop_ratio", "poisson"])
            sr["displaced_per_flood_day"] = [0.0, 0.1, 0.2, 0.5, 0.9] if sr["flood_spawn_mode"] == "pop_ratio" else [0, 1, 2, 3, 5]
    if fixed and c.chance(0.1):
        mr["FixedRoutes"] = True
    for k in ("ChildrenAvoidHazards", "BoysTakeRisk", "UsePopForLocWeight"):
        mr[k] = c.chance(0.15)


def location_attributes(c):
    a = {}
    if c.chance(0.5):
        a["flood_level"] = c.r.choice([0, 1, 2, 3, 4])
    a["forecast_flood_levels"] = [c.r.choice([0, 0, 1, 2, 3, 4]) for _ in range(16)]
    if c.chance(0.6):
        a["deactivation_probability"] = c.r.choice([0.0, 0.5, 1.0])
    if c.chance(0.3):
        a["conflict_intensity"] = c.r.choice([0.5, 1.0, "0.7"])
    if c.chance(0.3):
        a["ethnicA"] = c.int(0, 20)
    return a


def person_attributes(c):
    a = {"age": c.r.choice([3, 14, 15, 18, 19, 40]), "gender": c.r.choice(["male", "female"]), "floodawareness": c.r.choice([0, 1, 2]), "ethnicity": "ethnicA"}
    return a


def add_location(c, e, nm):
    r = c.r
    t = r.choice(TYPES)
    kw = {}
    if c.chance(0.6):
        kw["capacity"] = r.choice([-1, 0, 1, 2, 3, 10, c.int(0, 50)])
    return c.do(e.addLocation, name=nm, region=r.choice(["R1", "R2"]), x=r.uniform(-20, 20), y=r.uniform(-20, 20), location_type=t,
                movechance=r.choice([1.0, 0.3, 0.001, 0.0, 0.006]), pop=r.choice([0, 1, 5, 100, c.int(0, 1000)]), foreign=c.chance(0.3),
                country=r.choice(COUNTRIES), attributes=location_attributes(c), **kw)


def link_attributes(c):
    a = {}
    if c.chance(0.15):
        a["max_move_speed"] = c.r.choice([100.0, "50.0", 10])
    if c.chance(0.15):
        a["walk_probability"] = c.r.choice(["0.5", 1.0, "0.0"])
    return a


def graph(c, e, nmin=2, nmax=6):
    names = c.r.sample(NAMES, c.r.randint(nmin, nmax))
    for nm in names:
        add_location(c, e, nm)
    names = list(e.locationNames) if e is not None else []
    if not names:
        return names
    m = c.r.randint(1, 2 * len(names))
    for _ in range(m):
        a, b = c.r.choice(names), c.r.choice(names)
        if a == b:
            continue
        c.do(e.linkUp, "" + a, "" + b, c.num(1, 800, [1.0, 10.0, 35.0, 36.0, 100.0, 200.0, 360.0, 500.0]), c.chance(0.1), attributes=link_attributes(c))
    return names


def name(c, e, known=0.93):
    ns = e.locationNames
    if ns and c.chance(known):
        x = c.r.choice(ns)
        # a name read from elsewhere is an equal, not an identical, string
        return "".join(list(x))
    return "Nowhere"


def linked(c, e):
    """Names of the two ends of an existing (open or closed) link, else any two names."""
    ls = [(l.startpoint.name, l.endpoint.name) for L in e.locations for l in L.links + L.closed_links]
    if ls and c.chance(0.85):
        a, b = c.r.choice(ls)
        if c.chance(0.3):
            a, b = b, a
        return "".join(list(a)), "".join(list(b))
    return name(c, e), name(c, e)


def op_agents(c, e):
    if not e.locations:
        return
    L = c.r.choice(e.locations)
    k = c.r.random()
    if k < 0.5:
        for _ in range(c.r.randint(1, 5)):
            c.do(e.addAgent, L, person_attributes(c))
    elif k < 0.85:
        c.do(e.insertAgent, L, person_attributes(c))
    else:
        c.do(e.insertAgents, L, c.r.randint(0, 4))


def op_links(c, e):
    a, b = linked(c, e)
    k = c.r.choice(["remove", "removeclose", "close", "reopen", "reopen", "close"])
    tw = c.chance(0.6)
    if k == "remove":
        if c.chance(0.4):
            c.do(e.remove_link, a, b, twoway=tw)
        else:
            c.do(e.close_link, a, b, twoway=tw)
    elif k == "removeclose":
        c.do(e.remove_link, a, b, twoway=tw, close_only=True)
    elif k == "close":
        c.do(e.close_link, a, b, twoway=tw)
    else:
        c.do(e.reopen_link, a, b, twoway=tw)


def op_borders(c, e):
    tw = c.chance(0.6)
    k = c.r.random()
    if k < 0.25:
        c.do(e.close_border, c.r.choice(COUNTRIES), c.r.choice(COUNTRIES), twoway=tw)
    elif k < 0.5:
        c.do(e.reopen_border, c.r.choice(COUNTRIES), c.r.choice(COUNTRIES), twoway=tw)
    elif k < 0.75:
        c.do(e.close_location, name(c, e), twoway=tw)
    else:
        c.do(e.reopen_location, name(c, e), twoway=tw)


def op_types(c, e):
    k = c.r.random()
    if k < 0.3:
        c.do(e.change_location_type, name(c, e), c.r.choice(["camp", "idpcamp", "conflict", "conflict_zone", "forwarding_hub", "marker", "flood_zone", "town", "default", "Camp", "IDPcamp", "nonsense"]))
    elif k < 0.5:
        c.do(e.open_camp, name(c, e), c.chance(0.5))
    elif k < 0.7:
        c.do(e.close_camp, name(c, e), c.chance(0.5))
    elif k < 0.9:
        a, b = linked(c, e)
        c.do(e.set_forced_redirection, a, b, c.chance(0.5))
    elif e.locations:
        L = c.r.choice(e.locations)
        c.do(c.r.choice([L.SetCampMoveChance, L.SetConflictMoveChance]))


def op_conflict(c, e):
    k = c.r.random()
    if k < 0.4:
        c.do(e.add_conflict_zone, name(c, e), c.r.choice([1.0, 0.5, 0.25]), c.chance(0.8))
    elif k < 0.6:
        c.do(e.remove_conflict_zone, name(c, e), c.chance(0.8))
    else:
        c.do(e.set_conflict_intensity, name(c, e), c.r.choice([0.0, 0.5, 1.0, 0.0000001]), c.chance(0.8))


def op_query(c, e):
    c.do(e.get_camp_names)
    c.do(e.export_graph)
    c.do(e.numIDPs)
    c.do(e.numAgents)
    if e.locations:
        a, b = c.r.choice(e.locations), c.r.choice(e.locations)
        c.do(a.calculateDistance, b)
        c.do(c.moving.getCapMultiplier, a, 1)
        c.do(e.pick_spawn_locations, c.r.randint(0, 3))


def op_clear(c, e):
    c.do(e.clearLocationsFromAgents, [name(c, e) for _ in range(c.r.randint(0, 3))])


def op_closures(c, e):
    for _ in range(c.r.randint(1, 3)):
        t = c.r.choice(["country", "location", "link", "camp", "idpcamp", "remove_forced_redirection"])
        if t == "country":
            a, b = c.r.choice(COUNTRIES), c.r.choice(COUNTRIES)
        elif t in ("link", "remove_forced_redirection"):
            a, b = linked(c, e)
        else:
            a, b = name(c, e), name(c, e)
        t0 = e.time + c.r.randint(0, 3)
        e.closures.append([t, a, b, t0, c.r.choice([-1, t0, t0 + 1, t0 + 3])])


def op_attributes(c, e):
    if not e.locations:
        return
    L = c.r.choice(e.locations)
    c.do(L.setAttribute, c.r.choice(["flood_level", "deactivation_probability"]), c.r.choice([0, 1, 2]) if c.chance(0.5) else 1)
    if L.links:
        c.do(c.r.choice(L.links).setAttribute, "max_move_speed", c.r.choice([50.0, "30"]))


OPS = {"agents": op_agents, "links": op_links, "borders": op_borders, "types": op_types, "conflict": op_conflict,
       "query": op_query, "clear": op_clear, "closures": op_closures, "attributes": op_attributes}
WEIGHTS = {"agents": 4, "links": 3, "borders": 2, "types": 2, "conflict": 2, "query": 1, "clear": 1, "closures": 1, "attributes": 1}


def world(c, weights=None, **kw):
    """A small world and a history of operations on it, day by day."""
    settings(c, **kw)
    e = c.do(c.flee.Ecosystem)
    if c.mon is not None:
        c.mon.roots = [e]
    graph(c, e)
    if c.chance(0.8):
        op_agents(c, e)
        op_agents(c, e)
    w = dict(WEIGHTS)
    w.update(weights or {})
    kinds = [k for k in w for _ in range(w[k])]
    for _ in range(c.r.randint(2, 6)):
        for _ in range(c.r.randint(0, 3)):
            OPS[c.r.choice(kinds)](c, e)
        if e.closures and c.chance(0.9):
            c.do(e.enact_border_closures, e.time, c.chance(0.8))
        if len(e.agents) > 40:
            break
        c.do(e.evolve)
    return e


def stored(c):
    """Routes that are stored with the places, with and without major routes."""
    from flee import crawling
    settings(c)
    r, mr = c.r, c.SS.move_rules
    mr["FixedRoutes"] = True
    mr["AwarenessLevel"] = r.choice([1, 2, 2, 3, 3, 4, 0])
    e = c.do(c.flee.Ecosystem)
    if c.mon is not None:
        c.mon.roots = [e]
    graph(c, e, 2, 7)
    if c.chance(0.4):
        for L in e.locations:
            for _ in range(r.choice([0, 0, 1, 2])):
                walk, at = [], L
                for _ in range(r.randint(1, 4)):
                    if at.links:
                        at = r.choice(at.links).endpoint
                        walk.append(at.name)
                if walk:
                    L.major_routes.append(walk)
    if c.chance(0.6):
        op_agents(c, e)
    for _ in range(r.randint(1, 3)):
        for L in e.locations:
            if c.chance(0.5):
                c.do(crawling.generateLocationRoutes, L, e.time)
            if c.chance(0.2):
                c.do(L.setScore, 1, r.choice([0.0, 0.5, 1.0, 2.0]))
            if c.chance(0.1):
                op_types(c, e)
        if c.chance(0.5):
            c.do(e.evolve)
    return e


DRIVERS = {"world": world}
