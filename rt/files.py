"""Input files written at random into the scratch directory, read by the real code."""
import os
import random

NUMS = [0, 1, 2, 0.5, 0.25, 3, 10, 40, 200, "7", 1.75, 0.001]


def setting_value(c, kind):
    if kind == "bool":
        return c.r.choice([True, False, True, False, 1, 0])
    if kind == "int":
        return c.r.choice([0, 1, 2, 3, 7, "4", 2.0])
    if kind == "list":
        return [c.r.choice([0.0, 0.1, 0.5, 1.0, 2]) for _ in range(c.r.randint(1, 5))]
    if kind == "str":
        return c.r.choice(["a.csv", "location", "b", ""])
    return c.r.choice(NUMS)


def settings_files(c):
    import yaml
    from contracts import schema
    SS = c.SS
    KINDS = {"": {"number_of_steps": "int", "conflict_input_file": "str", "flood_level_input_file": "str"},
             "log_levels": dict({k: "int" for k in schema.SS["log_levels"]}, granularity="str"),
             "spawn_rules": dict({k: "bool" for k in ("take_from_population", "insert_day0", "empty_camps_on_day0", "conflict_zone_spawning_only", "flood_zone_spawning_only",
                                                      "camps_are_sinks", "read_from_agents_csv_file", "sum_from_camps")}, conflict_spawn_decay="list", conflict_spawn_decay_interval="int"),
             "move_rules": dict({k: "num" for k in (
                 "max_move_speed max_walk_speed max_crossing_speed foreign_weight camp_weight conflict_weight conflict_movechance camp_movechance idpcamp_movechance "
                 "default_movechance capacity_buffer capacity_scaling softening weight_softening weight_power distance_power home_distance_power pop_power_for_loc_weight "
                 "movechance_pop_base movechance_pop_scale_factor pruning_threshold").split()}, awareness_level="int",
                 **{k: "bool" for k in ("avoid_short_stints start_on_foot stay_close_to_home use_pop_for_loc_weight fixed_routes ChildrenAvoidHazards BoysTakeRisk "
                                        "MatchCampEthnicity MatchTownEthnicity MatchConflictEthnicity use_v1_rules").split()}),
             "optimisations": {"hasten": "int"}}
    for n in range(3):
        doc = {}
        p = c.r.choice([0.0, 0.1, 0.4, 0.9])
        for sec, ks in KINDS.items():
            d = {k: setting_value(c, t) for k, t in ks.items() if c.chance(p)}
            if not sec:
                doc.update(d)
            elif d or c.chance(0.3):
                doc[sec] = d if d or c.chance(0.5) else None
        sr = doc.get("spawn_rules")
        if sr and c.chance(0.6):
            if "flood_zone_spawning_only" in sr and sr["flood_zone_spawning_only"]:
                sr["conflict_zone_spawning_only"] = False
                sr["take_from_population"] = True
        if sr is not None and c.chance(0.5):
            x = {"spawn_mode": c.r.choice(["constant", "pop_ratio", "Poisson"]), "displaced_per_conflict_day": c.r.choice([0.5, 3, 10])}
            sr["conflict_driven_spawning"] = {k: v for k, v in x.items() if c.chance(0.6)} or None
        if sr is not None and c.chance(0.5):
            x = {"spawn_mode": c.r.choice(["constant", "pop_ratio"]), "displaced_per_flood_day": setting_value(c, "list")}
            sr["flood_driven_spawning"] = {k: v for k, v in x.items() if c.chance(0.6)} or None
        mr = doc.get("move_rules")
        if mr is not None and c.chance(0.5):
            x = {"max_flood_level": "int", "flood_movechances": "list", "flood_loc_weights": "list", "flood_link_weights": "list", "flood_forecaster": "bool",
                 "flood_forecaster_timescale": "int", "flood_forecaster_weights": "list", "flood_forecaster_end_time": "int", "flood_awareness_weights": "list"}
            mr["flood_rules"] = {k: setting_value(c, t) for k, t in x.items() if c.chance(0.6)} or None
        path = "settings%d.yml" % c.r.randrange(10 ** 9)
        with open(path, "w") as f:
            if doc or c.chance(0.5):
                yaml.safe_dump(doc, f)
        try:
            c.do(SS.ReadFromYML, path)
        finally:
            os.remove(path)


PLACES = ["Aleph", "Beth", "Gimel", "Daleth", "He", "Vav"]


def _csv(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(",".join(str(x) for x in r) + "\n")


def _series(c, n):
    """Intensities that rise, fall and rise again."""
    out, v = [], c.r.choice([0, 0, 1.0, 0.4])
    for _ in range(n):
        out.append(v)
        if c.chance(0.4):
            v = c.r.choice([0, 0, 0.5, 1.0, 0.001, 0.3])
    return out


def geography(c):
    """Input files, the world made from them, and what they change from day to day."""
    from rt import worlds
    from flee import InputGeography
    r, days = c.r, c.r.randint(2, 8)
    flood = c.chance(0.3)
    worlds.settings(c, flood=flood)
    c.SS.move_rules["FloodRulesEnabled"] = flood
    c.SS.spawn_rules["flood_driven_spawning"] = flood
    c.SS.ConflictInputFile = "conflicts.csv" if c.chance(0.5) else ""
    c.SS.FloodLevelInputFile = "flood_level.csv"
    names = r.sample(PLACES, r.randint(2, len(PLACES)))
    extra = r.sample(["conflict_intensity", "initial_idps", "note"], r.choice([0, 0, 1, 2]))
    rows = [["#name", "region", "country", "gps_x", "gps_y", "location_type", "conflict_date", "pop/cap"] + extra]
    for n in names:
        t = r.choice(["conflict_zone", "conflict_zone", "town", "camp", "idpcamp", "forwarding_hub", "marker", "flood_zone", "Conflict_Zone"])
        row = [n, r.choice(["R1", "R2", ""]), r.choice(["A", "A", "B", ""]), r.choice([0.5, 1, -3.25, ""]), r.choice([2, 7.5, ""]), t,
               r.choice([0, 0, 1, 2, 3, -1]) if "onflict" in t else r.choice([0, 1]), r.choice([0, 1, 7, 100, 2500, ""])]
        rows.append(row + [{"conflict_intensity": r.choice([0.5, 2, 1]), "initial_idps": r.choice([0, 3]), "note": "x"}[k] for k in extra])
        if c.chance(0.1):
            rows.append(["#" + r.choice(names)] + row[1:])
    _csv("locations.csv", rows)
    rows = [["#name1", "name2", "distance", "forced_redirection"]]
    for _ in range(r.randint(1, 2 * len(names))):
        a, b = r.sample(names, 2)
        rows.append([a, b, r.choice([1, 35, 100, 250.5, 600])] + r.choice([[], [0], [0], [1], [2], [""]]))
        if c.chance(0.1):
            rows.append(["#" + a] + rows[-1][1:])
    _csv("routes.csv", rows)
    rows = [["#closure_type", "name1", "name2", "closure_start", "closure_end"]]
    for _ in range(r.randint(0, 3)):
        k = r.choice(["location", "link", "country", "idpcamp", "camp"])
        a, b = (r.sample(["A", "B"], 2) if k == "country" else r.sample(names, 2))
        rows.append([k, a, b, r.randint(0, 4), r.choice([-1, 1, 3, 5])])
    _csv("closures.csv", rows)
    for f in ("location_changes.csv",):
        if os.path.exists(f):
            os.remove(f)
    if c.chance(0.5):
        _csv("location_changes.csv", [["#name", "type", "day"]] + [[r.choice(names), r.choice(["town", "camp", "idpcamp", "conflict_zone", "marker", "flood_zone"]), r.randint(0, 3)]
                                                                  for _ in range(r.randint(0, 3))])
    some = r.sample(names, r.randint(1, len(names)))
    cols = [_series(c, days + 2) for _ in some]
    _csv("conflicts.csv", [["#Day"] + some] + [[t] + [x[t] for x in cols] for t in range(days + 2)])
    cols = [[r.choice([0, 0, 1, 2, 3]) for _ in range(days + 2)] for _ in some]
    _csv("flood_level.csv", [["#Day"] + some] + [[t] + [x[t] for x in cols] for t in range(days + 2)])
    ig = InputGeography.InputGeography()
    if c.mon is not None:
        c.mon.roots = [ig]
    if not flood and c.SS.ConflictInputFile and c.chance(0.7):
        c.do(ig.ReadConflictInputCSV, "conflicts.csv")
    c.do(ig.ReadLocationsFromCSV, "locations.csv")
    c.do(ig.ReadLinksFromCSV, "routes.csv")
    c.do(ig.ReadClosuresFromCSV, "closures.csv")
    if not flood and c.SS.ConflictInputFile and not ig.conflicts:
        c.do(ig.ReadConflictInputCSV, "conflicts.csv")
    if flood and not ig.attributes:
        c.do(ig.ReadAttributeInputCSV, "flood_level", "int", "flood_level.csv")
        c.do(ig.ReadAttributeInputCSV, "forecast_flood_levels", "int", "flood_level.csv")
    e = c.do(c.flee.Ecosystem)
    c.do(ig.StoreInputGeographyInEcosystem, e)
    if c.mon is not None:
        c.mon.roots = [e, ig]
    c.do(ig.getConflictLocationNames)
    for t in range(days):
        c.do(ig.AddNewConflictZones, e, t)
        if flood and c.chance(0.3):
            c.do(ig.UpdateLocationAttributes, e, r.choice(list(ig.attributes) or ["flood_level"]), t)
        e.time += 1
    return e
