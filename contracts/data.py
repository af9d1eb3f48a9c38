"""Contracts for refugee counts over time (flee.datamanager)."""
from pyvc.dsl import Contract as K, Hint

C = []


def c(q, **k):
    C.append(K("flee.datamanager." + q, **k))


MACROS = {
    "tables_ok": (["d"], """len(d.data_table) >= len(d.header) and d.days_column >= 0 and d.total_refugee_column >= 0
        and all(len(T) > 0 and all(len(r) > d.days_column and len(r) > d.total_refugee_column for r in T) for T in d.data_table)"""),
    # days go up from row to row
    "in_order": (["d", "T"], "all(implies(i < j, T[i][d.days_column] < T[j][d.days_column]) for i in range(len(T)) for j in range(len(T)))"),
    "day_of": (["d", "T", "i"], "T[i][d.days_column]"),
    "val_of": (["d", "T", "i"], "T[i][d.total_refugee_column]"),
    "last_row": (["T"], "(len(T) - 1)"),
    "between": (["d", "T", "i", "day"], "val_of(d, T, i - 1) + (day - day_of(d, T, i - 1)) / (day_of(d, T, i) - day_of(d, T, i - 1)) * (val_of(d, T, i) - val_of(d, T, i - 1))"),
    # r is the value for the day on the line through the rows around it
    "on_line": (["d", "T", "day", "r"], """implies(day <= day_of(d, T, 0), r == int_of(val_of(d, T, 0)))
        and implies(day > day_of(d, T, 0) and day >= day_of(d, T, last_row(T)), r == int_of(val_of(d, T, last_row(T))))
        and all(implies(day > day_of(d, T, 0) and day_of(d, T, i) <= day and day < day_of(d, T, i + 1), r == int_of(between(d, T, i + 1, day))) for i in range(len(T) - 1))"""),
    # r is the value of the last row not after the day (the first row before all rows)
    "step": (["d", "T", "day", "r"], """implies(day < day_of(d, T, 0), r == int_of(val_of(d, T, 0))) and implies(day >= day_of(d, T, last_row(T)), r == int_of(val_of(d, T, last_row(T))))
        and all(implies(day_of(d, T, i) <= day and day < day_of(d, T, i + 1), r == int_of(val_of(d, T, i))) for i in range(len(T) - 1))"""),
    "table_for": (["d", "i", "n"], "d.header[i] == n and all(d.header[j] != n for j in range(i))"),
    "base": (["d", "n"], "d.day0pops.get(n, 0) * d.start_empty"),
}
DT = "DataTable:DataTable."
c(DT + "_find_headerindex", types={"name": "str"}, ret="int", loops=[Hint("all(self.header[j] != name for j in range(_k))")],
  ensures=[("found", ["P12", "P10"], "0 <= result and result < len(self.header) and table_for(self, result, name)")])
ROWS = [Hint("all(day >= self.data_table[column][j][self.days_column] for j in range(1, _k + 1))"), Hint("all(day >= self.data_table[column][j][self.days_column] for j in range(_k))"),
        Hint("v == self.data_table[column][_k - 1][self.total_refugee_column] if _k > 0 else v == self.data_table[column][0][self.total_refugee_column]", v="float")]
c(DT + "get_interpolated_data", types={"column": "int", "day": "int"}, ret="int", requires=["tables_ok(self)", "0 <= column and column < len(self.data_table)", "in_order(self, self.data_table[column])"],
  safety=["P12"], loops=ROWS,
  ensures=[("interpolated", ["P12", "P10"], "on_line(self, self.data_table[column], day, result)")])
c(DT + "get_raw_data", types={"column": "int", "day": "int"}, ret="int", requires=["tables_ok(self)", "0 <= column and column < len(self.data_table)", "in_order(self, self.data_table[column])"],
  safety=["P12"], loops=ROWS,
  ensures=[("latest", ["P12", "P10"], "step(self, self.data_table[column], day, result)")])
WHOLE = "all(all(r[self.days_column] == int_of(r[self.days_column]) for r in T) for T in self.data_table)"
ORDERED = "all(in_order(self, T) for T in self.data_table)"
c(DT + "get_field", types={"name": "str", "day": "int", "FullInterpolation": "bool"}, ret="int", requires=["tables_ok(self)", ORDERED],
  ensures=[("interpolated", ["P12", "P10"], "not FullInterpolation or all(implies(table_for(self, i, name), on_line(self, self.data_table[i], day, result + base(self, name))) for i in range(len(self.header)))"),
           ("latest", ["P12", "P10"], "FullInterpolation or all(implies(table_for(self, i, name), step(self, self.data_table[i], day, result + base(self, name))) for i in range(len(self.header)))")])
c(DT + "is_interpolated", types={"name": "str", "day": "int"}, ret="bool", requires=["tables_ok(self)", ORDERED, WHOLE, "distinct(self.header)"],
  loops=[Hint("all(self.header[j] != name or all(r[self.days_column] != day for r in self.data_table[j]) for j in range(_k))"), Hint("all(day > self.data_table[i][j][self.days_column] for j in range(_k))", i="int")],
  ensures=[("given", ["P12"], "all(implies(table_for(self, i, name), iff(result, all(r[self.days_column] != day for r in self.data_table[i]))) for i in range(len(self.header)))"),
           ("unknown", ["P12"], "result or any(n == name for n in self.header)")])
c("handle_refugee_data:RefugeeTable.getMaxFromData", types={"name": "str", "days": "int"}, ret="int",
  requires=["tables_ok(self)", "self.days_column == 0 and self.total_refugee_column == 1", ORDERED, WHOLE],
  loops=[Hint("m >= 0 and all(m >= int_of(T[j][1]) for j in range(_k))", m="int", T="list[list[float]]"), Hint("m == 0 or any(m == int_of(T[j][1]) for j in range(_k))", m="int", T="list[list[float]]"),
         Hint("all(int_of(T[j][0]) < days for j in range(_k))", T="list[list[float]]")],
  ensures=[("at-least", ["P12"], "result >= 0 and all(implies(table_for(self, i, name) and self.data_table[i][j][0] <= days, result >= int_of(self.data_table[i][j][1])) for i in range(len(self.header)) for j in range(len(self.data_table[i])))"),
           ("reached", ["P12"], "result == 0 or any(table_for(self, i, name) and any(result == int_of(r[1]) for r in self.data_table[i]) for i in range(len(self.header)))")])
c(DT + "get_daily_difference", types={"day": "int", "day_column": "int", "count_column": "int", "Debug": "bool", "FullInterpolation": "bool", "SumFromCamps": "bool"}, ret="int",
  requires=["tables_ok(self)", ORDERED, "self.days_column == day_column and self.total_refugee_column == count_column"],
  modifies=["self.total_refugee_column", "self.days_column", "self.day0pops{}"],
  ensures=[("columns", ["P12", "P10"], "self.total_refugee_column == count_column and self.days_column == day_column"),
           ("~camps", ["P12"], "day == 0 or not SumFromCamps or result == total(self.get_field(self.header[i + 1], day, FullInterpolation) - self.get_field(self.header[i + 1], day - 1, FullInterpolation) for i in range(len(self.header) - 1))"),
           ("~total", ["P12"], 'day == 0 or SumFromCamps or result == self.get_field("total", day, FullInterpolation) - self.get_field("total", day - 1, FullInterpolation)'),
           ("~first-day", ["P12"], "day != 0 or self.start_empty == 0 or result == 0")])
