"""Refugee count tables read from files in the scratch directory, and questions about them."""
import datetime
import os

NAMES = ["total", "Mbera", "Fassala", "Abala", "Mentao", "Mangaize"]
START = "2012-02-29"


def date(days):
    return (datetime.date(2012, 2, 29) + datetime.timedelta(days=days)).isoformat()


def write_counts(c, path, lo=-3, daily=False):
    day, rows = c.r.randint(lo, 2), []
    for _ in range(c.r.randint(1, 6)):
        v = c.r.choice([0, c.r.randint(0, 9), c.r.randint(0, 60), c.int(0, 400)])
        rows.append((day, v))
        day += c.r.choice([1, 1, 2, 3, 10])
    if daily:  # counts that fall and rise from day to day
        rows = [(day, c.r.randint(0, 30)) for day in range(8)]
    with open(path, "w") as f:
        if c.chance(0.5):
            f.write("#Date,count\n" if c.chance(0.5) else "Date,count\n")
        for d, v in rows:
            f.write("%s,%d\n" % (date(d), v))
            if c.chance(0.1):
                f.write("#%s,%d\n" % (date(d), v))
    return rows


def table(c, names=None, daily=False):
    """A directory of count files and the table made from it."""
    names = names or NAMES[:c.r.randint(2, 5)]
    base = "rt%d" % c.r.randrange(10 ** 9)
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, "layout.csv"), "w") as f:
        f.write("#name,file\n")
        for n in names:
            write_counts(c, os.path.join(base, n + ".csv"), daily=daily)
            f.write("%s,%s.csv\n" % (n, n))
    from flee.datamanager import handle_refugee_data as H
    return c.do(H.RefugeeTable, csvformat="generic", data_directory=base, start_date=START, data_layout="layout.csv",
                population_scaledown_factor=c.r.choice([1, 1, 2, 10]), start_empty=c.chance(0.3))


def questions(c):
    d = table(c)
    if d is None:
        return
    if c.mon is not None:
        c.mon.roots = [d]
    if c.chance(0.7):
        c.do(d.get_new_refugees, 0, FullInterpolation=c.chance(0.7))
    for t in range(c.r.randint(2, 12)):
        t = c.r.choice([t, t, t - 3, t + 5])
        n = c.r.choice(d.header)
        k = c.r.random()
        if k < 0.25:
            c.do(d.get_field, n, t, c.chance(0.5))
        elif k < 0.4:
            c.do(d.is_interpolated, n if c.chance(0.9) else "elsewhere", t)
        elif k < 0.55:
            c.do(d.getMaxFromData, n, t)
        elif k < 0.7:
            c.do(d.get_new_refugees, max(t, 0), FullInterpolation=c.chance(0.5))
        elif k < 0.85:
            c.do(d.get_daily_difference, max(t, 0), FullInterpolation=c.chance(0.5), SumFromCamps=c.chance(0.5))
        elif k < 0.95:
            c.do(c.r.choice([d.get_interpolated_data, d.get_raw_data]), c.r.randrange(len(d.header)), t)
        else:
            c.do(d.correctLevel1Registrations, n, date(t))


def spawning(c):
    """A small world whose people come from conflicts, floods or a table of counts."""
    from rt import worlds
    worlds.settings(c)
    sr = c.SS.spawn_rules
    sr["EmptyCampsOnDay0"] = c.chance(0.2)
    sr["InsertDayZeroRefugeesInCamps"] = c.chance(0.5)
    sr["sum_from_camps"] = c.chance(0.5)
    e = c.do(c.flee.Ecosystem)
    if c.mon is not None:
        c.mon.roots = [e]
    worlds.graph(c, e)
    names = list(e.locationNames)
    if c.chance(0.3):
        for L in e.locations:
            L.attributes["initial_idps"] = c.r.choice([0, 1, 4, 2.5, -1])
    daily = c.chance(0.4)
    if daily:
        sr["conflict_driven_spawning"] = sr["flood_driven_spawning"] = False
    d = table(c, ["total"] + names, daily)
    if d is None:
        return
    c.spawning.__dict__["__refugees_raw"] = 0
    c.spawning.__dict__["__refugee_debt"] = c.r.choice([0, 0, 3])
    for L in e.locations:
        if c.chance(0.5):
            c.do(c.spawning.add_initial_refugees, e, d, L)
    for t in range(c.r.randint(4, 8) if daily else c.r.randint(1, 5)):
        c.do(c.spawning.refresh_spawn_weights, e)
        c.do(c.spawning.spawn_daily_displaced, e, t if c.chance(0.9) else 0, d)
        if c.chance(0.3):
            c.do(c.spawning.spawn_agents, e, c.r.randint(0, 4))
        if c.chance(0.3):
            worlds.op_conflict(c, e)
        if len(e.agents) > 400:
            break
        if c.chance(0.2) and len(e.agents) < 40:
            c.do(e.evolve)
        else:
            e.time += 1
