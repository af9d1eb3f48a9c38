"""Types of the objects flee's functions work on (checked: every store in a verified function is an
obligation against them; assumed for the values a function receives)."""

CLASSES = {
    "Person": "flee.flee.Person", "Location": "flee.flee.Location", "Link": "flee.flee.Link",
    "Ecosystem": "flee.flee.Ecosystem", "SimulationSettings": "flee.SimulationSettings.SimulationSettings",
    "InputGeography": "flee.InputGeography.InputGeography",
    "RefugeeTable": "flee.datamanager.handle_refugee_data.RefugeeTable",
    "DataTable": "flee.datamanager.DataTable.DataTable",
    "CouplingInterface": "flee.coupling.CouplingInterface",
    "PPerson": "flee.pflee.Person", "PLocation": "flee.pflee.Location", "PLink": "flee.pflee.Link",
    "PEcosystem": "flee.pflee.Ecosystem", "MPIManager": "flee.pflee.MPIManager",
}
ALIASES = {
    "flee.pflee": {"Person": "flee.pflee.Person", "Location": "flee.pflee.Location", "Link": "flee.pflee.Link",
                   "Ecosystem": "flee.pflee.Ecosystem"},
}
PERSON = {
    "location": "Location|Link?", "home_location": "Location", "timesteps_since_departure": "int", "places_travelled": "int",
    "recent_travel_distance": "float", "distance_moved_this_timestep": "float", "travelling": "bool",
    "distance_travelled_on_link": "float", "attributes": "dict[str,val]", "distance_travelled": "float",
    "locations_visited": "list[Location|Link]", "route": "list[str]",
}
LOCATION = {
    "name": "str", "region": "str", "country": "str", "x": "float", "y": "float", "movechance": "float",
    "links": "list[Link]", "routes": "dict[str,rec[float,list[str],Location]]", "major_routes": "list[list[str]]",
    "closed_links": "list[Link]", "numAgents": "int", "numAgentsOnRank": "int", "capacity": "int", "pop": "int",
    "foreign": "bool", "conflict": "float", "conflict_date": "int", "camp": "bool", "idpcamp": "bool", "town": "bool",
    "forward": "bool", "marker": "bool", "flood_zone": "bool", "time_of_conflict": "int", "numAgentsSpawned": "int",
    "attributes": "dict[str,val]", "scores": "arr[float]", "incoming_journey_lengths": "list[int]",
}
LINK = {
    "name": "str", "closed": "bool", "_Link__distance": "float", "startpoint": "Location", "endpoint": "Location",
    "x": "float", "y": "float", "numAgents": "int", "cumNumAgents": "int", "cumNumAgentsByAttribute": "opaque",
    "forced_redirection": "bool", "attributes": "dict[str,val]", "numAgentsOnRank": "int",
}
ECO = {
    "locations": "list[Location]", "locationNames": "list[str]", "agents": "list[Person]",
    "closures": "list[rec[str,str,str,int,int]]", "time": "int", "print_location_output": "bool",
    "spawn_weights": "arr[float]", "spawn_weight_total": "float", "num_arrivals": "list[int]", "travel_durations": "list[float]",
}
FIELDS = {
    "flee.flee.Person": PERSON, "flee.flee.Location": LOCATION, "flee.flee.Link": LINK, "flee.flee.Ecosystem": ECO,
    "flee.datamanager.handle_refugee_data.RefugeeTable": {},
    "flee.datamanager.DataTable.DataTable": {
        "override_refugee_input": "bool", "override_refugee_input_file": "str", "data_directory": "str",
        "data_layout": "str", "start_date": "str", "header": "list[str]", "data_table": "list[list[list[float]]]",
        "total_refugee_column": "int", "days_column": "int", "retrofitted": "bool", "day0pops": "dict[str,int]", "population_scaledown_factor": "int", "start_empty": "int",
    },
    "flee.InputGeography.InputGeography": {
        "conflicts": "dict[str,list[float]]", "locations": "list[list[str]]", "links": "list[list[str]]",
        "closures": "list[list[str]]", "attributes": "dict[str,dict[str,list[int]]]", "conflict_zones": "list[str]",
        "location_changes": "list[list[str]]", "major_routes": "list[list[str]]", "columns": "list[str]", "link_columns": "list[str]",
    },
}
FIELD_COND = {
    ("flee.flee.Person", "distance_travelled"): 'SimulationSettings.log_levels["agent"] > 0',
    ("flee.flee.Person", "locations_visited"): 'SimulationSettings.log_levels["agent"] > 1',
    ("flee.flee.Location", "incoming_journey_lengths"): 'SimulationSettings.log_levels["camp"] > 0',
    ("flee.flee.Ecosystem", "num_arrivals"): 'SimulationSettings.log_levels["camp"] > 0',
    ("flee.flee.Ecosystem", "travel_durations"): 'SimulationSettings.log_levels["camp"] > 0',
}
SS = {
    "log_levels": {k: "int" for k in ("agent", "link", "camp", "init", "conflict", "idp_totals")} | {"granularity": "str"},
    "spawn_rules": {k: "bool" for k in (
        "TakeFromPopulation", "InsertDayZeroRefugeesInCamps", "EmptyCampsOnDay0", "conflict_zone_spawning_only",
        "flood_zone_spawning_only", "camps_are_sinks", "read_from_agents_csv_file", "sum_from_camps",
        "conflict_driven_spawning", "flood_driven_spawning")} | {
        "conflict_spawn_mode": "str!opt", "displaced_per_conflict_day": "float!opt", "flood_spawn_mode": "str!opt",
        "displaced_per_flood_day": "list[float]!opt", "conflict_spawn_decay": "list[float]?", "conflict_spawn_decay_interval": "int",
        "MaxFloodLevel": "int!opt"},
    "move_rules": {k: "float" for k in (
        "MaxMoveSpeed", "MaxWalkSpeed", "MaxCrossingSpeed", "ForeignWeight", "CampWeight", "ConflictWeight", "ConflictMoveChance",
        "CampMoveChance", "IDPCampMoveChance", "DefaultMoveChance", "CapacityBuffer", "CapacityScaling", "DistanceSoftening",
        "WeightSoftening", "WeightPower", "DistancePower", "HomeDistancePower", "PopPowerForLocWeight", "MovechancePopBase",
        "MovechancePopScaleFactor", "PruningThreshold")} | {k: "bool" for k in (
        "AvoidShortStints", "StartOnFoot", "StayCloseToHome", "UsePopForLocWeight", "ChildrenAvoidHazards", "BoysTakeRisk",
        "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity", "FixedRoutes", "FloodRulesEnabled", "FloodForecaster")} | {
        "AwarenessLevel": "int", "flood_forecaster_timescale": "int",
        "FloodMovechances": "list[float]!opt", "FloodLocWeights": "list[float]!opt", "FloodLinkWeights": "opaque!opt",
        "FloodForecasterTimescale": "int!opt", "FloodForecasterWeights": "list[float]!opt", "FloodForecasterEndTime": "int!opt",
        "FloodAwarenessWeights": "list[float]!opt"},
    "optimisations": {"PopulationScaleDownFactor": "int"},
}
SSATTRS = {"UseV1Rules": "bool", "ConflictInputFile": "str", "FloodLevelInputFile": "str", "sqrt_ten": "float"}
ATTR_KEYS = {"forecast_flood_levels": "list[int]"}
GLOBALS = {
    "flee.spawning.__refugees_raw": "int", "flee.spawning.__refugee_debt": "int", "flee.spawning.__demographics": "opaque",
    "flee.spawning.refugee_debt": "int", "flee.spawning.refugees_raw": "int",
}
POW_NONNEG = True
