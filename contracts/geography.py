"""Contracts for the input tables and what they do to a simulation day by day (flee.InputGeography)."""
from pyvc.dsl import Contract as K, Hint

C = []
IG = "flee.InputGeography:InputGeography."
MACROS = {
    "own_attributes": (["e"], "all(implies(i != j, e.locations[i].attributes is not e.locations[j].attributes) for i in range(len(e.locations)) for j in range(len(e.locations)))"),
    "others_kept": (["L", "name"], "same_dict(L.attributes, old(L.attributes), name)"),
    "level_of": (["g", "name", "L", "time"], "(g.attributes[name][L.name][time] if L.name in g.attributes[name] else 0)"),
}


def c(q, **k):
    C.append(K(IG + q, **k))


FF = '"forecast_flood_levels"'
LV = "{0} in {1}.attributes and {1}.attributes[{0}] == level_of(self, {0}, {1}, time)"
FV = "{0} in {1}.attributes and ({1}.attributes[{0}] is self.attributes[{0}][{1}.name] if {1}.name in self.attributes[{0}] else all(x == 0 for x in {1}.attributes[{0}]) and all(implies(n in self.attributes[{0}], any(len({1}.attributes[{0}]) == len(self.attributes[{0}][m]) for m in self.attributes[{0}])) for n in self.attributes[{0}]))"
KEPT = "same_dict({0}.attributes, pre({0}.attributes), attribute_name)"
c("UpdateLocationAttributes", types={"e": "Ecosystem", "attribute_name": "str", "time": "int"},
  requires=["attribute_name in self.attributes", "time >= 0", "own_attributes(e)"],
  modifies=["@dict[str,val]"], allocs=True,
  loops=[Hint("all(implies(attribute_name != %s, %s) for j in range(_k))" % (FF, LV.format("attribute_name", "e.locations[j]"))),
         Hint("all(implies(attribute_name == %s, %s) for j in range(_k))" % (FF, FV.format(FF, "e.locations[j]"))),
         Hint("all(%s for j in range(_k))" % KEPT.format("e.locations[j]")),
         Hint("all(j < _k or same_dict(e.locations[j].attributes, pre(e.locations[j].attributes)) for j in range(len(e.locations)))"),
         ],
  ensures=[("level", ["P17"], "attribute_name == %s or all(%s for L in e.locations)" % (FF, LV.format("attribute_name", "L"))),
           ("forecast", ["P17"], "attribute_name != %s or all(%s for L in e.locations)" % (FF, FV.format(FF, "L"))),
           ("kept", ["P17", "P18"], "all(others_kept(L, attribute_name) for L in e.locations)")])

MACROS.update({
    # which zones start and end on a day
    "by_date": (["g", "name", "time"], "any(r[0] == name and 'conflict' in r[5].lower() and int_of(r[6]) == time for r in g.locations)"),
    "rises": (["g", "name", "time"], "name in g.conflicts and g.conflicts[name][time] > 0.000001 and (time == 0 or g.conflicts[name][time - 1] < 0.000001)"),
    "falls": (["g", "name", "time"], "name in g.conflicts and time > 0 and g.conflicts[name][time] < 0.000001 and g.conflicts[name][time - 1] >= 0.000001"),
    "change_due": (["g", "name", "time"], "any(c[0] == name and int_of(c[2]) == time for c in g.location_changes)"),
    "last_due": (["g", "i", "n", "name", "time"], """g.location_changes[i][0] == name and int_of(g.location_changes[i][2]) == time
        and all(j <= i or g.location_changes[j][0] != name or int_of(g.location_changes[j][2]) != time for j in range(n))"""),
    "begins": (["g", "name", "time"], "(by_date(g, name, time) if SimulationSettings.ConflictInputFile == '' else rises(g, name, time)) and not rule('FloodRulesEnabled')"),
    "ends": (["g", "name", "time"], "SimulationSettings.ConflictInputFile != '' and falls(g, name, time) and not rule('FloodRulesEnabled')"),
    "strength": (["g", "name", "time"], "(1.0 if SimulationSettings.ConflictInputFile == '' else g.conflicts[name][time])"),
    "zone_now": (["e", "L", "s"], "L.conflict == s and not L.town and L.time_of_conflict == e.time and L.movechance == rule('ConflictMoveChance')"),
    "no_zone": (["L"], "L.conflict == -1 and L.town and L.movechance == rule('DefaultMoveChance')"),
    "geo_ready": (["g", "e", "time"], """time >= 0 and named(e) and one_each(e) and len(e.spawn_weights) == len(e.locations) and all(ok_attr(L) for L in e.locations)
        and all(len(r) > 6 for r in g.locations) and all(len(c) > 2 for c in g.location_changes) and all(len(g.conflicts[n]) > time for n in g.conflicts)
        and distinct(e.locationNames)"""),
})
c("getConflictLocationNames", types={}, ret="list[str]", requires=["all(len(r) > 6 for r in self.locations)"],
  loops=[Hint("all(any(n == r[0] and 'conflict' in r[5].lower() for r in self.locations) for n in xs)", xs="list[str]"),
         Hint("all(implies('conflict' in self.locations[j][5].lower(), any(n == self.locations[j][0] for n in xs)) for j in range(_k))", xs="list[str]")], allocs=True,
  ensures=[("listed", ["P18"], "SimulationSettings.ConflictInputFile != '' or all(any(n == r[0] and 'conflict' in r[5].lower() for r in self.locations) for n in result)"),
           ("all", ["P18"], "SimulationSettings.ConflictInputFile != '' or all(implies('conflict' in r[5].lower(), any(n == r[0] for n in result)) for r in self.locations)"),
           ("table", ["P18"], "SimulationSettings.ConflictInputFile == '' or all(n in self.conflicts for n in result) and all(any(m == n for m in result) for n in self.conflicts)"),
           ("once", ["P18"], "SimulationSettings.ConflictInputFile == '' or distinct(result)")])
ST = "{0}.conflict == pre({0}.conflict) and {0}.town == pre({0}.town) and {0}.time_of_conflict == pre({0}.time_of_conflict) and {0}.movechance == pre({0}.movechance)"
SEEN_D = "any(self.locations[j][0] == L.name and 'conflict' in self.locations[j][5].lower() and int_of(self.locations[j][6]) == time for j in range(_k))"
SEEN_T = "any(ns[j] == L.name for j in range(_k))"
SAMEK = "{0}.camp == pre({0}.camp) and {0}.idpcamp == pre({0}.idpcamp) and {0}.forward == pre({0}.forward) and {0}.marker == pre({0}.marker) and {0}.flood_zone == pre({0}.flood_zone)"
DUE = "change_due(self, L.name, time)"
c("AddNewConflictZones", types={"e": "Ecosystem", "time": "int", "Debug": "bool"}, requires=["geo_ready(self, e, time)", "implies(rule('FloodRulesEnabled'), 'flood_level' in self.attributes and own_attributes(e))",
     "implies(rule('FloodRulesEnabled') and rule('FloodForecaster'), 'forecast_flood_levels' in self.attributes)", (["P11", "P14"], "times_ok()"), (["P11", "P14"], "all(dated(L, e.time) for L in e.locations)")],
  modifies=["@Location." + f for f in ("movechance", "conflict", "town", "time_of_conflict", "camp", "idpcamp", "forward", "marker", "flood_zone")] + ["e.spawn_weights[:]", "e.spawn_weight_total", "@dict[str,val]"], allocs=True,
  cases=["rule('FloodRulesEnabled')", "SimulationSettings.ConflictInputFile == ''"],
  loops=[Hint("all(all(not last_due(self, i, _k, L.name, time) or is_kind(L, self.location_changes[i][1]) for i in range(_k)) for L in e.locations)"),
         Hint("all(%s or %s and %s for L in e.locations)" % (DUE, ST.format("L"), SAMEK.format("L"))),
         Hint("all(not (%s) or zone_now(e, L, 1.0) for L in e.locations)" % SEEN_D, on=(1,)),
         Hint("all(%s or %s for L in e.locations)" % (SEEN_D, ST.format("L")), on=(1,)),
         Hint("all(zone_now(e, L, self.conflicts[L.name][time]) if %s and rises(self, L.name, time) else no_zone(L) if %s and falls(self, L.name, time) else %s for L in e.locations)" % (SEEN_T, SEEN_T, ST.format("L")), ns="list[str]", on=(2,)),
         ],
  ensures=[("starts", ["P18"], "all(not begins(self, L.name, time) or zone_now(e, L, strength(self, L.name, time)) for L in e.locations)"),
           ("stops", ["P18"], "all(not ends(self, L.name, time) or no_zone(L) for L in e.locations)"),
           ("changed", ["P18"], """all(all(not last_due(self, i, len(self.location_changes), L.name, time) or begins(self, L.name, time) or ends(self, L.name, time) or is_kind(L, self.location_changes[i][1])
               for i in range(len(self.location_changes))) for L in e.locations)"""),
           ("size", None, "len(e.spawn_weights) == len(e.locations)"),
           ("others", ["P18"], "all(begins(self, L.name, time) or ends(self, L.name, time) or same_place(L) and L.time_of_conflict == old(L.time_of_conflict) or %s for L in e.locations)" % DUE),
           ("levels", ["P17"], "not rule('FloodRulesEnabled') or all(%s for L in e.locations)" % LV.format('"flood_level"', "L")),
           ("no-flood", ["P17"], "rule('FloodRulesEnabled') or all(same_dict(L.attributes, old(L.attributes)) for L in e.locations)")])

# ---- what is read from the files
MACROS.update({
    "remark": (["p", "k"], 'csv_len(p, k) == 0 or csv_cell(p, k, 0)[0] == "#"'),
    "kept_before": (["p", "n"], "count(not remark(p, j) for j in range(n))"),
    "row_is": (["r", "p", "k"], "len(r) == csv_len(p, k) and all(r[j] == csv_cell(p, k, j) for j in range(csv_len(p, k)))"),
    "rows_read": (["xs", "p", "n"], "len(xs) == kept_before(p, n) and all(remark(p, k) or 0 <= kept_before(p, k) and kept_before(p, k) < len(xs) and row_is(xs[kept_before(p, k)], p, k) for k in range(n))"),
    "rows_filled": (["p"], "all(csv_len(p, k) == 0 or csv_cell(p, k, 0) != '' for k in range(csv_rows(p)))"),
})
ROWS = ["rows_read(self.{0}, csv_name, _k)", "fresh(self.{0})", "all(remark(csv_name, k) or self.{0}[kept_before(csv_name, k)] is _seq[k] for k in range(_k))"]


def rows(field):
    return [Hint(h.format(field)) for h in ROWS]


c("ReadClosuresFromCSV", types={"csv_name": "str"}, requires=["rows_filled(csv_name)"], modifies=["self.closures"], allocs=True, loops=rows("closures"),
  ensures=[("rows", ["P18"], "rows_read(self.closures, csv_name, csv_rows(csv_name))")])
c("ReadLocationChangesFromCSV", types={"csv_name": "str"}, requires=["rows_filled(csv_name)"], modifies=["self.location_changes"], allocs=True, loops=rows("location_changes"),
  ensures=[("rows", ["P18"], "len(self.location_changes) == 0 or rows_read(self.location_changes, csv_name, csv_rows(csv_name))")])
MACROS.update({
    "head": (["p", "i"], "csv_cell(p, 0, i).strip()"),
    "table_ok": (["p"], """csv_rows(p) > 0 and csv_len(p, 0) > 0 and all(csv_len(p, k) == csv_len(p, 0) for k in range(csv_rows(p))) and all(head(p, i) != '' for i in range(csv_len(p, 0)))
        and all(all(implies(i != j and i > 0 and j > 0, head(p, i) != head(p, j)) for i in range(csv_len(p, 0))) for j in range(csv_len(p, 0)))"""),
    "numbers": (["p"], "all(all(k == 0 or i == 0 or parses(csv_cell(p, k, i).strip()) for i in range(csv_len(p, 0))) for k in range(csv_rows(p)))"),
    "column_read": (["d", "p", "i", "n"], "head(p, i) in d and len(d[head(p, i)]) == n and all(d[head(p, i)][t] == numeric(csv_cell(p, t + 1, i).strip()) for t in range(n))"),
})
TAB = "self.conflicts"
c("ReadConflictInputCSV", types={"csv_name": "str"}, requires=["table_ok(csv_name)", "numbers(csv_name)"], modifies=["self.conflicts"], allocs=True,
  beyond="the invariants of its nested loops over the columns are not found within the time a check has",
  ensures=[("columns", ["P18"], "all(i == 0 or column_read({0}, csv_name, i, csv_rows(csv_name) - 1) for i in range(csv_len(csv_name, 0)))".format(TAB)),
           ("only", ["P18"], "all(any(i > 0 and n == head(csv_name, i) for i in range(csv_len(csv_name, 0))) for n in {0})".format(TAB))])
