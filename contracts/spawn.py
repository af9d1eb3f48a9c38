"""Contracts for the people who become displaced (flee.spawning)."""
from pyvc.dsl import Contract as K, Hint
from contracts.movement import JOIN

C = []


def c(q, **k):
    C.append(K("flee.spawning:" + q, **k))


MACROS = {
    "plus": (["n"], "(n if n > 0 else 0)"),
    # how many flee from L today, by the settings
    "conflict_due": (["L"], """(0 if L.conflict <= 0 else int_of(srule("displaced_per_conflict_day") * L.conflict) if srule("conflict_spawn_mode") == "constant"
        else int_of(srule("displaced_per_conflict_day") * L.pop * L.conflict))"""),
    "counted_mode": ([], '(srule("conflict_spawn_mode") == "constant" or srule("conflict_spawn_mode") == "pop_ratio")'),
    "flood_lvl": (["L"], '(int_of(L.attributes["flood_level"]) if "flood_level" in L.attributes else 0)'),
    "flood_due": (["L"], """(0 if flood_lvl(L) <= 0 else int_of(srule("displaced_per_flood_day")[flood_lvl(L)]) if srule("flood_spawn_mode") == "constant"
        else int_of(srule("displaced_per_flood_day")[flood_lvl(L)] * L.pop))"""),
    "flood_mode": ([], '(srule("flood_spawn_mode") == "constant" or srule("flood_spawn_mode") == "pop_ratio")'),
    "by_conflict": ([], 'srule("conflict_driven_spawning")'),
    "by_flood": ([], '(not srule("conflict_driven_spawning") and srule("flood_driven_spawning"))'),
    "by_data": ([], '(not srule("conflict_driven_spawning") and not srule("flood_driven_spawning"))'),
    "kept": (["e"], "all(e.agents[i] is old(e.agents[i]) for i in range(old(len(e.agents))))"),
    "all_new": (["e"], "all(fresh(e.agents[i]) for i in range(old(len(e.agents)), len(e.agents)))"),
}
NEW = [Hint("len(e.agents) == pre(len(e.agents)) + _k and all(e.agents[i] is pre(e.agents[i]) for i in range(pre(len(e.agents))))", e="Ecosystem"),
       Hint("all(fresh(e.agents[i]) for i in range(pre(len(e.agents)), len(e.agents)))", e="Ecosystem"),
       Hint("all(e.agents[i].location is L for i in range(pre(len(e.agents)), len(e.agents)))", e="Ecosystem", L="Location"),
       Hint("all(any(e.locations[j] is e.agents[i].location and e.spawn_weights[j] > 0 for j in range(len(e.locations))) for i in range(pre(len(e.agents)), len(e.agents)))", e="Ecosystem")]
c("draw_samples", types={"e": "Ecosystem", "loc": "Location"}, ret="dict[str,val]", trusted=True, allocs=True)
c("read_demographics", types={"e": "Ecosystem"}, trusted=True)
c("add_initial_refugees", types={"e": "Ecosystem", "d": "RefugeeTable", "loc": "Location"}, modifies=[m.replace("self", "e").replace("location.", "loc.") for m in JOIN], allocs=("Person",),
  requires=["tables_ok(d)", "all(in_order(d, T) for T in d.data_table)", '"initial_idps" not in loc.attributes or is_num(loc.attributes["initial_idps"])'], safety=["P10"],
  loops=NEW,
  ensures=[("kept", ["P10"], "kept(e) and all_new(e)"),
           ("here", ["P10"], "all(e.agents[i].location is loc for i in range(old(len(e.agents)), len(e.agents)))"),
           ("empty-start", ["P10"], 'not srule("EmptyCampsOnDay0") or len(e.agents) == old(len(e.agents))'),
           ("only-idps", ["P10"], """srule("EmptyCampsOnDay0") or srule("InsertDayZeroRefugeesInCamps") or len(e.agents) - old(len(e.agents)) == plus(int_of(loc.attributes["initial_idps"]) if "initial_idps" in loc.attributes else 0)"""),
           ("as-counted", ["P10"], """srule("EmptyCampsOnDay0") or not srule("InsertDayZeroRefugeesInCamps") or len(e.agents) == old(len(e.agents))
               or all(implies(table_for(d, i, loc.name), on_line(d, d.data_table[i], 0, len(e.agents) - old(len(e.agents)) - (int_of(loc.attributes["initial_idps"]) if "initial_idps" in loc.attributes else 0) + base(d, loc.name))) for i in range(len(d.header)))""")])
SPAWN = ["e.agents[:]", "@Location.numAgents", "@Location.pop", "@Location.numAgentsSpawned", "@Location.capacity", "global flee.spawning.__refugees_raw", "global flee.spawning.__refugee_debt",
         "d.total_refugee_column", "d.days_column", "d.day0pops{}"]
c("spawn_daily_displaced", types={"e": "Ecosystem", "t": "int", "d": "RefugeeTable"}, ret="rec[int,int,int]", modifies=SPAWN, allocs=("Person",),
  requires=["distinct(e.locations)", "all(L.pop >= 0 for L in e.locations)",
            "len(e.spawn_weights) == len(e.locations)", "all(w >= 0 for w in e.spawn_weights)", "__refugee_debt >= 0",
            'not by_conflict() or has_setting("spawn_rules", "conflict_spawn_mode") and has_setting("spawn_rules", "displaced_per_conflict_day") and srule("displaced_per_conflict_day") >= 0',
            'not by_flood() or has_setting("spawn_rules", "flood_spawn_mode") and has_setting("spawn_rules", "displaced_per_flood_day")',
            '(not by_flood()) or all("flood_level" not in L.attributes or is_int(L.attributes["flood_level"]) and flood_lvl(L) < len(srule("displaced_per_flood_day")) for L in e.locations)',
            'not by_flood() or all(x >= 0 for x in srule("displaced_per_flood_day"))',
            'not by_flood() or not flood_mode() or all(flood_due(L) >= 0 for L in e.locations)', 'not by_conflict() or not counted_mode() or all(conflict_due(L) >= 0 for L in e.locations)',
            "not by_data() or total(w for w in e.spawn_weights) > 0", "not by_data() or tables_ok(d) and d.days_column == 0 and d.total_refugee_column == 1 and all(in_order(d, T) for T in d.data_table)"],
  safety=["P10"],
  cases=['by_conflict() and srule("conflict_spawn_mode") == "constant"', 'by_conflict() and srule("conflict_spawn_mode") == "pop_ratio"', 'by_conflict() and not counted_mode()',
         'by_flood() and srule("flood_spawn_mode") == "constant"', 'by_flood() and srule("flood_spawn_mode") == "pop_ratio"', 'by_flood() and not flood_mode()'],
  loops=[
      Hint("len(e.agents) == pre(len(e.agents)) + _k", e="Ecosystem"),
      Hint("len(e.agents) == old(len(e.agents)) + n and n >= 0", n="int"),
      Hint("kept(e)"), Hint("all_new(e)"),
      Hint("n == total(old(conflict_due(e.locations[j])) for j in range(_k))", on=(0, 1), n="int"),
      Hint("all(e.locations[j].numAgents - old(e.locations[j].numAgents) == old(conflict_due(e.locations[j])) for j in range(_k))", on=(0, 1)),
      Hint("n == total(old(flood_due(e.locations[j])) for j in range(_k))", on=(3,), n="int"),
      Hint("all(e.locations[j].numAgents - old(e.locations[j].numAgents) == old(flood_due(e.locations[j])) for j in range(_k))", on=(3, 4)),
      Hint("all(e.locations[j].numAgents == old(e.locations[j].numAgents) and e.locations[j].pop == old(e.locations[j].pop) for j in range(_k, len(e.locations)))", on=(0, 1, 3, 4)),
      Hint("e.locations[i].numAgents == pre(e.locations[i].numAgents) + _k and all(M is e.locations[i] or M.numAgents == pre(M.numAgents) and M.pop == pre(M.pop) for M in objects(Location))", on=(0, 1, 3, 4), i="int"),
      Hint("all(e.agents[i].location is locs[i - pre(len(e.agents))] for i in range(pre(len(e.agents)), len(e.agents)))", on=(6,), locs="list[Location]"),
  ],
  ensures=[("as-many", ["P10"], "len(e.agents) == old(len(e.agents)) + result[0] and result[0] >= 0"),
           ("kept", ["P10"], "kept(e) and all_new(e)"),
           ("conflict-each", ["P10"], "not by_conflict() or not counted_mode() or all(L.numAgents - old(L.numAgents) == old(conflict_due(L)) for L in e.locations)"),
           ("conflict-all", ["P10"], "not by_conflict() or not counted_mode() or result[0] == total(old(conflict_due(L)) for L in e.locations)"),
           ("flood-each", ["P10"], "not by_flood() or not flood_mode() or all(L.numAgents - old(L.numAgents) == old(flood_due(L)) for L in e.locations)"),
           ("flood-all", ["P10"], 'not by_flood() or srule("flood_spawn_mode") != "constant" or result[0] == total(old(flood_due(L)) for L in e.locations)'),
           ("~flood-all-by-ratio", ["P10"], "not by_flood() or not flood_mode() or result[0] == total(old(flood_due(L)) for L in e.locations)"),
           ("books", ["P10"], "result[1] == __refugees_raw and result[2] == __refugee_debt"),
           ("books-kept", ["P10"], "by_data() or result[1] == old(__refugees_raw) and result[2] == old(__refugee_debt)"),
           ("debt", ["P10"], "result[2] >= 0 and (by_conflict() or by_flood() or result[0] == 0 or result[2] == 0)"),
           ("~balance", ["P10"], """not by_data() or srule("InsertDayZeroRefugeesInCamps") and t == 0 or result[0] - result[2] == result[1] - old(__refugees_raw) - old(__refugee_debt)"""),
           ("~difference", ["P10"], """not by_data() or result[1] - old(__refugees_raw) == d.get_daily_difference(t, 0, 1, False, True, srule("sum_from_camps"))"""),
           ("day-zero", ["P10"], 'not by_data() or not srule("InsertDayZeroRefugeesInCamps") or t != 0 or result[0] == 0'),
           ("where", ["P10"], "not by_data() or all(any(e.locations[j] is e.agents[i].location and e.spawn_weights[j] > 0 for j in range(len(e.locations))) for i in range(old(len(e.agents)), len(e.agents)))")])
c("spawn_agents", types={"e": "Ecosystem", "number": "int"}, modifies=["e.agents[:]", "@Location.numAgents", "@Location.pop", "@Location.numAgentsSpawned"], allocs=("Person",),
  requires=["len(e.spawn_weights) == len(e.locations)", "all(w >= 0 for w in e.spawn_weights)", "total(w for w in e.spawn_weights) > 0"], safety=["P10"],
  loops=NEW,
  ensures=[("as-many", ["P10"], "len(e.agents) == old(len(e.agents)) + plus(number) and kept(e) and all_new(e)"),
           ("where", ["P10"], "all(any(e.locations[j] is e.agents[i].location and e.spawn_weights[j] > 0 for j in range(len(e.locations))) for i in range(old(len(e.agents)), len(e.agents)))")])
C.append(K("flee.flee:Ecosystem.pick_spawn_locations", types={"number": "int"}, ret="list[Location]", allocs=True, requires=["len(self.spawn_weights) == len(self.locations)", "all(w >= 0 for w in self.spawn_weights)", "number >= 0", "total(w for w in self.spawn_weights) > 0"],
  ensures=[("as-many", ["P10"], "len(result) == number"),
           ("where", ["P10"], "all(any(self.locations[j] is L and self.spawn_weights[j] > 0 for j in range(len(self.locations))) for L in result)")]))
