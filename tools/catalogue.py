"""The catalogue of properties: writes properties.jsonl and MANIFEST.json.   usage: python3 tools/catalogue.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, na=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe, na=na, note=note))


prop("P01", "People are conserved and every place's headcount matches them",
     "Adding, inserting, removing and moving people changes the headcount of each location and link by exactly the number of people who came to it minus the number who left it. "
     "A simulation step creates and loses nobody: the same people are there afterwards, everyone travelling is on a link and everyone at rest at a location. "
     "Only with the camps-are-sinks rule do people taken out at a camp stay in that camp's headcount.",
     ["inputs", "histories", "configurations"],
     "all populations, networks, settings and move decisions; every number of people, steps and operations in any order",
     "the tests look at totals after a few fixed runs on small networks; a person lost or counted twice on one branch of a move needs a particular route, speed and camp state",
     ["flee/flee.py"],
     [("per-person move and its two counter updates", "flee/flee.py Person.handle_travel, Person.evolve, Person.finish_travel"),
      ("step over all people", "flee/flee.py Ecosystem.evolve"), ("adding and clearing", "flee/flee.py Ecosystem.addAgent, insertAgent, insertAgents, clearLocationsFromAgents")],
     "numAgents of locations and links against Person.location")

prop("P02", "People travel only over open links, along the route they hold",
     "A person who leaves a location leaves it on one of the links open at that location at that moment, and that link leads to the next stop of the route the person holds. "
     "A person who cannot do so (no route, no such open link) stays where they are; the journey over a link ends at the link's own end point.",
     ["inputs", "histories", "configurations"],
     "all networks, sets of closed links, routes and settings",
     "tests use networks where every link on a route stays open; a wrong link is only visible when several links leave a place or links close under way",
     ["flee/flee.py"],
     [("choice of the next link", "flee/flee.py Person.take_next_step"), ("boarding and arriving", "flee/flee.py Person.evolve, Person.finish_travel")],
     "Person.location and Person.route around one step")

prop("P04", "Closing and reopening links, borders and places affects exactly those links",
     "Closing or reopening a link moves exactly the links between the two named places, in the directions asked for, between a place's open and closed links, and removing one deletes exactly those; all others stay as they were. "
     "Closing or reopening a border or a whole location does the same for all the links over that border or at that location. "
     "A name that does not exist changes nothing and is reported as failure; success is reported otherwise as documented.",
     ["inputs", "histories"],
     "all networks (also with several links between the same places and links one way only), all names, all directions, any sequence of closures and reopenings",
     "tests close one link on a small network; whether an unrelated link is touched, or a direction forgotten, shows only with parallel and one-way links and unknown names",
     ["flee/flee.py"],
     [("one direction of a closure", "flee/flee.py Ecosystem._remove_link_1way, _reopen_link_1way, _change_location_1way, _change_border_1way"),
      ("public operations", "flee/flee.py Ecosystem.remove_link, close_link, reopen_link, close_location, reopen_location, close_border, reopen_border")],
     "links and closed_links of each location")

prop("P03", "Travel is accounted for day by day",
     "A person under way keeps the link and the distance covered on it until the day's travel; the day's travel adds exactly the pace that applies (on foot for the first stretch with StartOnFoot or when the link's walk probability says so, "
     "else the link's own top speed or the general one) to the distance on the link and to the distance moved that day. While that does not exceed the link's length the person stays on the link; beyond it the person arrives at the link's end "
     "(or, on a link that has closed, back at its start), the number of places visited goes up by one, and the distance on the link starts again at zero. Distance on a link is never negative nor beyond its length, the day's distance and the places visited never go down. "
     "A simulation step raises the days since departure of everyone still in the simulation by one and starts the next day at distance zero.",
     ["inputs", "histories", "configurations"],
     "all link lengths, speeds and walk probabilities, positions on the link, and every number of steps",
     "tests run fixed lengths and the default speed; off-by-one days, pace of the wrong link and positions beyond the end need lengths and speeds near each other",
     ["flee/flee.py"],
     [("the day's travel", "flee/flee.py Person.finish_travel"), ("setting out", "flee/flee.py Person.evolve"), ("step over all people", "flee/flee.py Ecosystem.evolve")],
     "distance_travelled_on_link, distance_moved_this_timestep, places_travelled, timesteps_since_departure")

prop("P05", "Closures take effect on their day and on no other",
     "On a day on which no closure starts or ends, enacting the schedule changes nothing: links, camps and forced redirections stay as they are. After a day's entries have been carried out in their order, what an entry starts holds unless it or a later entry also ends that day: none of the links, borders and locations it closes "
     "has an open link left, the camp it names is no camp any more, and the forced redirection it removes is off. Likewise what an entry ends holds unless a later entry also starts that day: the links, borders and locations have no closed link left, and the camp named is a camp again, "
     "of the kind the entry names. Each simulation step moves the clock on by exactly one day.",
     ["inputs", "schedules", "histories"],
     "all schedules with any number of entries of any kind, all networks, any day",
     "tests have schedules with one entry; two entries of different kinds on one day, an entry that starts and ends on one day, or an entry whose effect is undone by a later one, do not occur in them",
     ["flee/flee.py"],
     [("the schedule", "flee/flee.py Ecosystem.enact_border_closures"), ("what it calls", "flee/flee.py close_border, close_location, close_link, close_camp, set_forced_redirection and their counterparts"), ("clock", "flee/flee.py Ecosystem.evolve")],
     "links, closed_links, camp flags and forced_redirection around a day")

prop("P06", "Full camps take nobody in; partly full places weigh less",
     "A place's capacity multiplier is between 0 and 1: 1 when the place has no capacity limit (scaled capacity below one) or holds at most the buffer share of its scaled capacity, 0 when it is at or over its scaled capacity, and in between it falls linearly with the number of people there. "
     "Nobody sets out for a route whose destination is a camp with a multiplier below one half; with any other plan whose first stop can be reached over an open link, the person sets out and the plan loses exactly that stop.",
     ["inputs", "configurations"],
     "all capacities, buffers, scalings and headcounts, all plans and networks",
     "the behaviour changes at exact headcounts which tests do not sit on",
     ["flee/flee.py", "flee/moving.py"],
     [("multiplier", "flee/moving.py getCapMultiplier"), ("destination check", "flee/flee.py Person.check_dest_is_full_camp"), ("setting out", "flee/flee.py Person.take_next_step")],
     "Location.numAgents against capacity")

prop("P07", "Every candidate route is a real, loop-free path from where the person is",
     "Every route that is considered, and the one chosen, goes from the person's place over links that are open, one after the other, never visits a place twice nor the place the person is at, and ends at a place that is not a marker. "
     "Every neighbour over an open link that is no marker is considered, within the awareness level also the places one link further; without markers no route is longer than the awareness level allows. "
     "The weight of the direct route to a neighbour is the documented formula of its score, the distance (including the way already behind) and how full it is.",
     ["inputs", "configurations"],
     "all networks, awareness levels and settings; unbounded depth of the search",
     "tests check a handful of routes on small networks; a repeated place or a missed branch needs cycles and markers",
     ["flee/moving.py"],
     [("recursive search", "flee/moving.py calculateLinkWeight"), ("choice", "flee/moving.py selectRoute"), ("pruning", "flee/moving.py pruneRoutes")],
     "the route a person holds")

prop("P08", "Pruning and the weighted choice keep weights and routes together",
     "Pruning keeps only given pairs of weight and route, drops none whose weight times the pruning threshold reaches every other weight, drops every one that falls short of the best, and with a threshold of one or less changes nothing. "
     "Weights are never negative; normalised weights are proportional to the given ones, and equal to each other (none zero) only when all given ones are zero. The route chosen is one of those given, has positive weight if any has, and none is chosen only when there is none; a person at a place with no open link gets none.",
     ["inputs", "configurations"],
     "all lists of weights and routes of any length, all settings",
     "tests use a few weights; a mismatch of weight and route appears only for particular orders of large and small weights",
     ["flee/moving.py"],
     [("pruning", "flee/moving.py pruneRoutes"), ("normalising and choosing", "flee/moving.py normalizeWeights, chooseFromWeights"), ("weights", "flee/moving.py calculateLinkWeight, getEndPointScore, getCapMultiplier")],
     "selectRoute's result")

prop("P09", "The move chance is the documented one and decides who moves",
     "A person's move chance is 1 in a town when moving is forced; else, with flood rules and a flood at the place, the chance set for that flood level; else the place's own chance scaled by the larger of its population and capacity over the base, to the set power. With the flood forecaster on and in range it is multiplied by the weighted outlook of the coming days and the person's awareness. "
     "Someone at rest with chance 0 stays with the same plan, someone with chance 1 or forced leaves unless there is no plan left to follow; people under way make no new decision.",
     ["inputs", "configurations"],
     "all settings, populations, flood levels and places",
     "tests compute the chance for default settings; the flood level, forecast and population branches combine in ways they do not enumerate",
     ["flee/moving.py", "flee/flee.py"],
     [("chance", "flee/moving.py calculateMoveChance"), ("decision", "flee/flee.py Person.evolve")],
     "whether Person.location changes")

prop("P11", "Populations and spawn weights follow the people taken from them",
     "Adding a person takes one from the place's population exactly when TakeFromPopulation is on and the population is positive, and counts the spawned person; the population never falls below zero. "
     "After each change of a conflict zone, and whenever they are refreshed, the spawn weight of each location is population times conflict intensity times decay for conflict zones (zero elsewhere and with conflict-driven spawning), and the total is their sum.",
     ["inputs", "histories", "configurations"],
     "all populations, intensities, decay lists and sequences of changes",
     "tests look at one zone with default settings; a stale weight or total shows only after a change without a refresh",
     ["flee/flee.py", "flee/spawning.py", "flee/SimulationSettings.py"],
     [("taking from the population", "flee/flee.py Ecosystem.addAgent"), ("weights", "flee/spawning.py refresh_spawn_weights"), ("decay", "flee/SimulationSettings.py get_conflict_decay, get_location_conflict_decay")],
     "Ecosystem.spawn_weights, Location.pop")

prop("P14", "Location and destination scores follow the settings",
     "A location's score is the product of the foreign weight if it is abroad, the camp weight if it is a camp, the conflict weight to the power of decayed intensity if in conflict, and the flood weight of its level if it is a flood zone with a level; the decay is the entry of the decay list for the age of the conflict, its last entry beyond the list, 1 without a list. "
     "The score a person gives a destination follows from it by the person's age, gender, distance from home, ethnicity match and the destination's population exactly where the settings say so. Each simulation step brings the scores of all locations up to date.",
     ["inputs", "configurations"],
     "all locations, people, days and settings (the flood forecaster's contribution is not part of the claim)",
     "each rule is off by default and the tests switch on one at a time with one person",
     ["flee/scoring.py", "flee/moving.py", "flee/spawning.py", "flee/SimulationSettings.py"],
     [("location score", "flee/scoring.py updateLocationScore"), ("destination score", "flee/moving.py getEndPointScore"), ("decay", "flee/SimulationSettings.py get_conflict_decay")],
     "Location.scores")

prop("P15", "A location is of one kind at a time and its move chance fits",
     "Opening a camp makes the place a camp (an IDP camp if so asked) and nothing else, closing it makes it a town and nothing else, changing its type makes it exactly the kind named, each with the move chance set for that kind; other places stay as they are. A new location is of the kind its type says, or a camp if its move chance is next to nothing. "
     "Setting forced redirection between two places sets it on exactly the open links from the one to the other.",
     ["inputs", "histories"],
     "all places, type names and sequences of changes",
     "tests change one type once; a flag left over from the previous kind shows only for particular pairs of kinds",
     ["flee/flee.py"],
     [("kinds", "flee/flee.py Location.__init__, Location.open_camp, Location.close_camp"), ("by name", "flee/flee.py Ecosystem.open_camp, close_camp, change_location_type, set_forced_redirection")],
     "camp, idpcamp, town, conflict, forward, marker, flood_zone, movechance")

prop("P16", "Conflict zones start, change and end at exactly the place named",
     "Adding a conflict zone or setting an intensity makes exactly the named place a zone of that intensity, no town, in conflict since today, with the conflict move chance if that is to change; removing it (or an intensity of zero) makes it a town out of conflict, with the default move chance if that is to change. Every other place stays as it was.",
     ["inputs", "histories"],
     "all names, intensities and sequences of changes, with and without changing the move chance",
     "tests add one zone with the defaults; the variants that keep the move chance or hit an unknown name are not covered",
     ["flee/flee.py"],
     [("zones", "flee/flee.py Ecosystem.add_conflict_zone, remove_conflict_zone, set_conflict_intensity")],
     "conflict, town, time_of_conflict, movechance of every location")

prop("P10", "Every day exactly as many people become displaced as the settings and counts say",
     "With conflict-driven spawning each location gains the whole part of the daily rate times its intensity (times its population in pop_ratio mode), with flood-driven spawning that of its flood level's rate, and all others none; with counts from data, the number spawned less the debt left over is the day's difference less the debt there was, never both a debt and people. "
     "The number returned is the number of people added, they are new people at the places due (for counts: at places of positive spawn weight), everyone who was there stays, and the first day's people in camps are as many as the table and the place's initial_idps say.",
     ["inputs", "configurations", "histories"],
     "all locations, settings, tables, days and debts (how many people a Poisson draw gives is not part of the claim beyond being a count)",
     "the tests spawn with one mode and one table for a few days and look at the total",
     ["flee/spawning.py", "flee/flee.py"],
     [("per day", "flee/spawning.py spawn_daily_displaced"), ("first day", "flee/spawning.py add_initial_refugees"), ("where", "flee/flee.py Ecosystem.pick_spawn_locations"), ("one by one", "flee/flee.py Ecosystem.addAgent, insertAgent")],
     "Ecosystem.agents, the returned counts",
     note="That a day's balance uses the table's difference for that day is checked at run time only (bounded). ")

prop("P12", "Counts between, before and after the days of a table are those the table implies",
     "For a table of counts by day in order, the count of a place on any day is, with interpolation, the whole part of the value on the straight line between the rows around the day, and without it that of the last row not after the day; before the first row the first, after the last the last; less the count of day 0 where the simulation starts empty. "
     "The place's own column is used; a day counts as interpolated unless the place has a row for it; the maximum up to a day is at least every count up to then and is one of the place's counts or zero.",
     ["inputs"],
     "all tables with strictly increasing days, all places and days",
     "tests read one table on a few days; the days at and beside the first, last and exact rows are where lookups go wrong",
     ["flee/datamanager/DataTable.py", "flee/datamanager/handle_refugee_data.py"],
     [("lookup", "flee/datamanager/DataTable.py DataTable.get_interpolated_data, get_raw_data, get_field, is_interpolated, _find_headerindex"), ("difference", "flee/datamanager/DataTable.py DataTable.get_daily_difference"), ("maximum", "flee/datamanager/handle_refugee_data.py RefugeeTable.getMaxFromData")],
     "returned counts",
     note="The daily difference is checked at run time only (bounded). ")

prop("P21", "Arrivals and IDP counts agree with the people and journeys they count",
     "When camp logging is on, each day adds one entry to the arrivals list, equal to the number of journeys that ended in camps since the last one, and one to the durations list, and the camps' journey lists are emptied; other places' lists and the earlier entries stay; when it is off none of it happens. "
     "The number of IDPs is the number of people in IDP camps. Everyone entering a link adds one to its cumulative count.",
     ["histories", "configurations"],
     "all ecosystems and histories, with camp logging on and off",
     "tests read the logs of one run; double counting shows only with several camps or days",
     ["flee/flee.py"],
     [("arrivals", "flee/flee.py Ecosystem._aggregate_arrivals, Ecosystem.evolve"), ("IDPs", "flee/flee.py Ecosystem.numIDPs"), ("links", "flee/flee.py Link.IncrementNumAgents")],
     "Ecosystem.num_arrivals, travel_durations, numIDPs, Link.cumNumAgents")

prop("P25", "The location graph is built exactly as asked and read back as it is",
     "Adding a location appends one new place with exactly the data given, no people and no links, under its name, and leaves the others; linking two places by name adds one open empty link each way of the given length and attributes (forced redirection one way only) and touches no other place's links. "
     "The camp names are those of the camps, each once; the exported graph has the locations in order as its vertices and only the open links, with their lengths, as its edges.",
     ["inputs", "histories"],
     "all names, coordinates, kinds, attributes and existing graphs",
     "tests build a handful of graphs and count the links",
     ["flee/flee.py"],
     [("places", "flee/flee.py Ecosystem.addLocation, Location.__init__"), ("links", "flee/flee.py Ecosystem.linkUp, Link.__init__"), ("reading", "flee/flee.py Ecosystem.get_camp_names, export_graph")],
     "Ecosystem.locations, locationNames, Location.links",
     note="That the exported graph has every open link, and each once, is checked at run time only (bounded). ")


prop("P22", "Settings are those the settings file gives, else their documented defaults",
     "After a settings file is read, each log level, spawn rule, move rule and optimisation is the value the file gives for it in its own section, converted to its kind (whole number, number, yes or no), "
     "or its documented default where the file (or its section) does not give it; flood rules' own settings are set so where the file has a flood_rules section. Old rules (use_v1_rules) override exactly max_move_speed, "
     "start_on_foot, avoid_short_stints, camp_weight and conflict_weight. Spawning is driven by conflicts, or by floods when flood zones only are asked for, exactly if the section for it is there, "
     "with that section's mode and numbers; flood rules are on exactly if spawning is driven by floods or there is a flood_rules section. Settings that contradict each other are refused. "
     "The number of steps returned is the file's, -1 if it gives none.",
     ["inputs", "configurations"],
     "all settings files: every combination of sections and entries given, empty or missing",
     "tests read a few files and check a few entries; a swapped or misspelt entry, a wrong default or a missing override shows only for the one setting and only if some test uses it with another value",
     ["flee/SimulationSettings.py"],
     [("reading the file", "flee/SimulationSettings.py SimulationSettings.ReadFromYML"), ("one entry or its default", "flee/SimulationSettings.py fetchss (verified as part of its callers)")],
     "the dictionaries of SimulationSettings after ReadFromYML",
     note="Entries of the wrong kind (where the conversion fails) and files a YAML reader refuses are not covered. ")


prop("P17", "Every location's flood level is the table's for the day; nothing else changes",
     "With flood rules on, after the day's update each location's flood_level is the flood table's value for that location and day, or 0 if the table has no column for the location; and after an update "
     "of any attribute from its table the same holds for that attribute (the forecast is the table's whole row for the location, or zeros of a row's length). "
     "No other attribute of any location changes, and with flood rules off none does.",
     ["inputs", "histories"],
     "all tables, days, locations and existing attributes",
     "tests update attributes for one small table on a few days; a level taken from the neighbouring day or left over from another location needs the values of all days and locations compared",
     ["flee/InputGeography.py"],
     [("update", "flee/InputGeography.py InputGeography.UpdateLocationAttributes"), ("daily", "flee/InputGeography.py InputGeography.AddNewConflictZones")],
     "Location.attributes after AddNewConflictZones / UpdateLocationAttributes",
     note="Assumes no two locations share one attributes dictionary. ")

prop("P18", "Conflict zones begin, change and end on the days the input says",
     "Each day, without flood rules, exactly these locations change their kind: without a conflicts table, the locations of locations.csv that are conflict zones dated that day become zones of intensity 1; "
     "with a table, the locations whose intensity rises from below to above the threshold (or is above it on day 0) become conflict zones of the table's intensity, and those whose intensity falls below it "
     "stop being conflict zones; and each location with a change due in location_changes.csv becomes the kind named by its last change due that day. "
     "A zone that starts is dated that day, is no town, and gets the conflict move chance. No other location changes. "
     "The conflict locations listed are those of the table, or else those of locations.csv.",
     ["inputs", "histories"],
     "all location tables, conflict tables, change tables, and days",
     "tests run one conflict table or one set of start dates; a zone that starts on the wrong day, or whose removal is missed, depends on the sequence of values of each location",
     ["flee/InputGeography.py", "flee/flee.py"],
     [("daily", "flee/InputGeography.py InputGeography.AddNewConflictZones"), ("names", "flee/InputGeography.py InputGeography.getConflictLocationNames"),
      ("zones", "flee/flee.py Ecosystem.set_conflict_intensity, add_conflict_zone, remove_conflict_zone, change_location_type")],
     "Location.conflict, town, time_of_conflict, movechance after AddNewConflictZones",
     note="A change of intensity from one positive value to another is not applied by the code and is not part of the property. ")


prop("P24", "Stored routes are real ways, and the best found",
     "With fixed routes, everything stored with a place is a route of at least one stop whose consecutive stops are joined by open links, which ends at the place it is stored for, with a weight that is not negative. "
     "Where no major routes are given, a stored route also starts at a neighbour of the place, visits no place twice, never the place itself, and does not end at a marker. "
     "Every neighbour over an open link that is no marker and has a positive score has a route. A route is stored only with its formula weight, and one that is stored is never replaced by one of less weight. "
     "Markers keep the routes they have. The route a person takes is one of those stored with the place the person is at.",
     ["inputs", "configurations"],
     "all networks, awareness levels, major routes and settings; unbounded depth of the search",
     "tests look at the routes of one place in one small network; a worse route that overwrites a better one, or a broken one, needs cycles and several ways to the same place",
     ["flee/crawling.py", "flee/moving.py", "flee/scoring.py"],
     [("search", "flee/crawling.py calculateLocCrawlLinkWeight"), ("store", "flee/crawling.py _addLocationRoute"), ("all of a place", "flee/crawling.py generateLocationRoutes"),
      ("major routes", "flee/crawling.py insertAllMajorRoutesAtLocation, insertMajorRoutesForLocation, _addMajorRouteToLocation"), ("use", "flee/moving.py selectRoute")],
     "Location.routes after generateLocationRoutes",
     note="With major routes the first stop is left out of the stored route by the code (a known finding, pinned by a test), so the clauses on how a route starts are stated without major routes. ")

prop("P13", "Distances are great-circle distances",
     "The distance between two places is the great-circle distance of their coordinates; it is not negative, the same in both directions and zero from a place to itself.",
     ["inputs"], "all coordinates", "tests use a few pairs of places", ["flee/flee.py"], [("formula", "flee/flee.py Location.calculateDistance")], "Location.calculateDistance",
     na="sin, cos, sqrt and atan2 are uninterpreted for the solvers at hand: a contract could only repeat the formula, not say that it gives the distance on the sphere")

prop("P19", "A parallel run has the same people as a sequential one",
     "In a parallel run every person is on exactly one process, and the headcounts all processes agree on are the numbers of people over all processes.",
     ["schedules", "inputs"], "all numbers of processes, populations and networks", "no stable test runs with several processes", ["flee/pflee.py"],
     [("sharing out", "flee/pflee.py Ecosystem.addAgent, insertAgent"), ("agreement", "flee/pflee.py Ecosystem.updateNumAgents, evolve")], "numAgents over all processes",
     na="it relates the states of several MPI processes exchanged with collective calls; a contract on a function of one process cannot state it, and mpi4py's collectives would have to be assumed")

prop("P20", "Coupled simulations exchange each person exactly once",
     "Everybody sent through a coupling file by one simulation is inserted once into the other, at the coupled location, and removed from the sender.",
     ["schedules", "inputs"], "all interleavings of the two programs, populations and coupled places", "tests run one side with files prepared", ["flee/coupling.py"],
     [("exchange", "flee/coupling.py CouplingInterface.Couple")], "people at coupled places on both sides",
     na="the exchange is two programs polling files: the guarantee is about their interleaving and the file system, neither of which a function contract of this verifier can speak about")

prop("P23", "Error metrics compare simulation and data day by day",
     "The reported errors are those of their definitions, computed from the columns of the output and the data of the same place and day; they are zero for identical columns and never negative.",
     ["inputs"], "all output tables", "tests compute them for stored runs", ["flee/postprocessing/analysis.py"], [("metrics", "flee/postprocessing/analysis.py abs_error, rel_error, mean_abs_diffs, calculate_MASE")], "returned errors",
     na="the code is pandas and numpy array arithmetic, whose semantics (alignment, broadcasting, nan) the verifier does not have; assuming it would assume the result")

TECH = "contract-based deductive verification (own verification condition generator over the real Python source; z3 and cvc5)"
NOTE = ("Every obligation generated from the current source of the functions under contract is discharged for all inputs (floats as reals, integers unbounded, partial correctness); "
        "clauses and functions the evidence lists under bounded are only checked at run time on generated simulations and do not count as proved. ")


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"],
                                "anchors": dict(files=p["files"], mechanism=[{"name": n, "where": w} for n, w in p["mechanism"]], **({"observe_at": [p["observe"]]} if p["observe"] else {}))}) + "\n")
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "python3-vt check.py " + p["id"], "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
                     "technique": TECH, "level": "proof", "level_note": NOTE + p["note"]} for p in P if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
