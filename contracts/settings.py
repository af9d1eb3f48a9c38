"""Contract for reading the settings file (flee.SimulationSettings)."""
from pyvc.dsl import Contract as K
from contracts import schema

C = []
MACROS = {
    "yaml_given": (["f", "s", "k"], "has_yaml(f, s, k)"),
    "yaml_section": (["f", "s", "k"], "has_yaml(f, s, k) and yaml(f, s, k) is not None"),
    "yaml_flood_first": (["f"], "has_yaml(f, 'spawn_rules', 'flood_zone_spawning_only') and truth(yaml(f, 'spawn_rules', 'flood_zone_spawning_only'))"),
    "yaml_conflict": (["f"], "not yaml_flood_first(f) and yaml_section(f, 'spawn_rules', 'conflict_driven_spawning')"),
    "yaml_flood": (["f"], "yaml_flood_first(f) and yaml_section(f, 'spawn_rules', 'flood_driven_spawning')"),
    "yaml_v1": (["f"], "has_yaml(f, 'move_rules', 'use_v1_rules') and truth(yaml(f, 'move_rules', 'use_v1_rules'))"),
}
CONV = {"int": "int_of(%s)", "float": "numeric(%s)", "bool": "truth(%s)", "": "%s"}
ens = []


def setting(target, kind, keys, default, when=None, but=None):
    """The setting holds what the file gives, converted, or the default."""
    path = ", ".join("'%s'" % k for k in keys)
    got = CONV[kind] % ("yaml(ymlfile, %s)" % path)
    lhs = target
    eq = "iff(%s, %s)" if kind == "bool" else "%s == %s"
    e = "implies(has_yaml(ymlfile, %s), %s) and implies(not has_yaml(ymlfile, %s), %s)" % (path, eq % (lhs, got), path, eq % (lhs, default))
    if when:
        e = "implies(%s, %s)" % (when, e)
    if but:
        e = "implies(yaml_v1(ymlfile), %s) and implies(not yaml_v1(ymlfile), %s)" % (eq % (lhs, but), e)
    ens.append((target.split('"')[1] if '"' in target else target.split(".")[-1], ["P22"], e))


def S(d, k):
    return 'SimulationSettings.%s["%s"]' % (d, k)


for k in ("agent", "link", "camp", "init", "conflict", "idp_totals"):
    setting(S("log_levels", k), "int", ["log_levels", k], "0")
setting(S("log_levels", "granularity"), "", ["log_levels", "granularity"], "'location'")
setting("SimulationSettings.ConflictInputFile", "", ["conflict_input_file"], "''")
setting("SimulationSettings.FloodLevelInputFile", "", ["flood_level_input_file"], "''")
for t, k, d in (("TakeFromPopulation", "take_from_population", "False"), ("InsertDayZeroRefugeesInCamps", "insert_day0", "True"),
                ("EmptyCampsOnDay0", "empty_camps_on_day0", "False"), ("conflict_zone_spawning_only",) * 2 + ("True",),
                ("flood_zone_spawning_only",) * 2 + ("False",), ("camps_are_sinks",) * 2 + ("False",),
                ("read_from_agents_csv_file",) * 2 + ("False",), ("sum_from_camps",) * 2 + ("True",)):
    setting(S("spawn_rules", t), "bool", ["spawn_rules", k], d)
setting(S("spawn_rules", "conflict_spawn_decay_interval"), "int", ["spawn_rules", "conflict_spawn_decay_interval"], "30")
setting(S("spawn_rules", "conflict_spawn_decay"), "", ["spawn_rules", "conflict_spawn_decay"], "None")
for t, k, d, b in (
        ("MaxMoveSpeed", "max_move_speed", "360.0", "200"), ("MaxWalkSpeed", "max_walk_speed", "35.0", None), ("MaxCrossingSpeed", "max_crossing_speed", "20.0", None),
        ("ForeignWeight", "foreign_weight", "1.0", None), ("CampWeight", "camp_weight", "1.0", "2.0"),
        ("ConflictWeight", "conflict_weight", "1.0 / SimulationSettings.sqrt_ten", "0.25"), ("ConflictMoveChance", "conflict_movechance", "1.0", None),
        ("CampMoveChance", "camp_movechance", "0.001", None), ("IDPCampMoveChance", "idpcamp_movechance", "0.1", None),
        ("DefaultMoveChance", "default_movechance", "0.3", None), ("CapacityBuffer", "capacity_buffer", "0.9", None),
        ("CapacityScaling", "capacity_scaling", "1.0", None), ("DistanceSoftening", "softening", "10.0", None), ("WeightSoftening", "weight_softening", "0.0", None),
        ("WeightPower", "weight_power", "1.0", None), ("DistancePower", "distance_power", "1.0", None), ("HomeDistancePower", "home_distance_power", "0.5", None),
        ("PopPowerForLocWeight", "pop_power_for_loc_weight", "0.1", None), ("MovechancePopBase", "movechance_pop_base", "10000.0", None),
        ("MovechancePopScaleFactor", "movechance_pop_scale_factor", "0.0", None), ("PruningThreshold", "pruning_threshold", "1.0", None)):
    setting(S("move_rules", t), "float", ["move_rules", k], d, but=b)
setting(S("move_rules", "AwarenessLevel"), "int", ["move_rules", "awareness_level"], "1")
for t, k, b in (("AvoidShortStints", "avoid_short_stints", "False"), ("StartOnFoot", "start_on_foot", "False"), ("StayCloseToHome", "stay_close_to_home", None),
                ("UsePopForLocWeight", "use_pop_for_loc_weight", None), ("FixedRoutes", "fixed_routes", None)) + tuple(
                (a, a, None) for a in ("ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity")):
    setting(S("move_rules", t), "bool", ["move_rules", k], "False", but=b)
setting("SimulationSettings.UseV1Rules", "bool", ["move_rules", "use_v1_rules"], "False")
setting(S("optimisations", "PopulationScaleDownFactor"), "int", ["optimisations", "hasten"], "1")
# the way people are spawned
ens += [
    ("kind-of-spawning", ["P22"], """iff(SimulationSettings.spawn_rules["conflict_driven_spawning"], yaml_conflict(ymlfile)) and iff(SimulationSettings.spawn_rules["flood_driven_spawning"], yaml_flood(ymlfile))"""),
    ("one-kind-of-zone", ["P22"], """not (SimulationSettings.spawn_rules["conflict_zone_spawning_only"] and SimulationSettings.spawn_rules["flood_zone_spawning_only"])"""),
    ("flood-takes-people", ["P22"], """implies(SimulationSettings.spawn_rules["flood_driven_spawning"], SimulationSettings.spawn_rules["TakeFromPopulation"])"""),
    ("flood-rules", ["P22"], """iff(SimulationSettings.move_rules["FloodRulesEnabled"], yaml_flood(ymlfile) or yaml_section(ymlfile, 'move_rules', 'flood_rules'))"""),
    ("no-flood-rules", ["P22"], """implies(not yaml_section(ymlfile, 'move_rules', 'flood_rules'), not SimulationSettings.move_rules["FloodForecaster"])"""),
    ("steps", ["P22"], "implies(has_yaml(ymlfile, 'number_of_steps'), result == numeric(yaml(ymlfile, 'number_of_steps'))) and implies(not has_yaml(ymlfile, 'number_of_steps'), result == -1)"),
]
CS = ["spawn_rules", "conflict_driven_spawning"]
setting(S("spawn_rules", "conflict_spawn_mode"), "", CS + ["spawn_mode"], "'constant'", when="yaml_conflict(ymlfile)")
RATIO = 'SimulationSettings.spawn_rules["conflict_spawn_mode"] == "pop_ratio"'
setting(S("spawn_rules", "displaced_per_conflict_day"), "float", CS + ["displaced_per_conflict_day"], "0.01", when="yaml_conflict(ymlfile) and " + RATIO)
setting(S("spawn_rules", "displaced_per_conflict_day"), "int", CS + ["displaced_per_conflict_day"], "500", when="yaml_conflict(ymlfile) and not (%s)" % RATIO)
ens[-1] = ("displaced-by-number",) + ens[-1][1:]
FS = ["spawn_rules", "flood_driven_spawning"]
setting(S("spawn_rules", "flood_spawn_mode"), "", FS + ["spawn_mode"], "'pop_ratio'", when="yaml_flood(ymlfile)")
ens.append(("displaced_per_flood_day", ["P22"], """implies(yaml_flood(ymlfile) and has_yaml(ymlfile, 'spawn_rules', 'flood_driven_spawning', 'displaced_per_flood_day'),
    SimulationSettings.spawn_rules["displaced_per_flood_day"] == yaml(ymlfile, 'spawn_rules', 'flood_driven_spawning', 'displaced_per_flood_day'))"""))
DAY = 'SimulationSettings.spawn_rules["displaced_per_flood_day"]'
for nm, cnd, lst in (("ratio", "", [0.0, 0.1, 0.2, 0.5, 0.9]), ("number", "not ", [0, 100, 200, 300, 500])):
    ens.append(("displaced-by-flood-" + nm, ["P22"], """implies(yaml_flood(ymlfile) and not has_yaml(ymlfile, 'spawn_rules', 'flood_driven_spawning', 'displaced_per_flood_day') and %s(SimulationSettings.spawn_rules["flood_spawn_mode"] == "pop_ratio"),
        len(%s) == 5 and %s)""" % (cnd, DAY, " and ".join("%s[%d] == %s" % (DAY, i, v) for i, v in enumerate(lst)))))
FR = ["move_rules", "flood_rules"]
FON = "yaml_section(ymlfile, 'move_rules', 'flood_rules')"
setting(S("spawn_rules", "MaxFloodLevel"), "int", FR + ["max_flood_level"], "-1", when=FON)
setting(S("move_rules", "FloodForecaster"), "bool", FR + ["flood_forecaster"], "False", when=FON)
setting(S("move_rules", "FloodForecasterTimescale"), "int", FR + ["flood_forecaster_timescale"], "0", when=FON)
setting(S("move_rules", "FloodForecasterEndTime"), "int", FR + ["flood_forecaster_end_time"], "0", when=FON)
for t, k in (("FloodMovechances", "flood_movechances"), ("FloodLocWeights", "flood_loc_weights"),
             ("FloodForecasterWeights", "flood_forecaster_weights"), ("FloodAwarenessWeights", "flood_awareness_weights")):
    p = ", ".join("'%s'" % x for x in FR + [k])
    ens.append((t, ["P22"], "implies(has_yaml(ymlfile, %s) and yaml(ymlfile, %s) is not None, %s == yaml(ymlfile, %s))" % (p, p, S("move_rules", t), p)))
C.append(K("flee.SimulationSettings:SimulationSettings.ReadFromYML", types={"ymlfile": "str"}, ret="float",
           modifies=["SS.%s.%s" % (d, k) for d in schema.SS for k in schema.SS[d]] + ["SS.UseV1Rules", "SS.ConflictInputFile", "SS.FloodLevelInputFile"],
           ensures=ens))
