"""Bounded search for a call of the real code that breaks a clause of one property.

usage: search.py PROPERTY --seconds N [--seed S] [--only f1,f2] [--replay FILE]      (prints one JSON object)
"""
import argparse
import ast
import contextlib
import io
import json
import os
import random
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
os.environ.setdefault("FLEE_TYPE_CHECK", "true")
sys.dont_write_bytecode = True


class ScenarioTimeout(Exception):
    pass


def constants(quals):
    """Numbers and strings written in the functions concerned (and in their modules' other functions, less often)."""
    nums, strs = set(), set()
    files = {}
    for q in quals:
        mod, path = q.split(":")
        files.setdefault(mod, set()).add(path.split(".")[-1])
    for mod, names in files.items():
        p = os.path.join(REPO, *mod.split(".")) + ".py"
        try:
            tree = ast.parse(open(p).read())
        except Exception:
            continue
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef,)):
                for n in ast.walk(fn):
                    if isinstance(n, ast.Constant):
                        if isinstance(n.value, bool):
                            continue
                        if isinstance(n.value, (int, float)) and abs(n.value) < 1e7:
                            nums.add(n.value)
                        elif isinstance(n.value, str) and len(n.value) < 24:
                            strs.add(n.value)
    return {"num": sorted(nums, key=float)}


def run_scenario(prop, contracts, macros, schema, driver, fn, seed, consts, only, secs=6):
    import numpy as np
    from rt import worlds
    from rt.monitor import Monitor
    mon = Monitor(contracts, macros, schema, prop, only=only)
    mon.install()
    rng = random.Random(seed * 7919 + hash_str(driver))
    random.seed(seed)
    np.random.seed(seed % (2 ** 31))
    def onalarm(*_):
        raise ScenarioTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(secs)
    ctx = worlds.Ctx(rng, consts, mon)
    err = None
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            fn(ctx)
    except ScenarioTimeout:
        err = "timeout"
    except SystemExit:
        pass
    except Exception as ex:
        err = repr(ex)
    finally:
        signal.alarm(0)
        mon.uninstall()
    return mon, err, ctx


def hash_str(s):
    h = 0
    for ch in s:
        h = (h * 31 + ord(ch)) % 100003
    return h


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only", default="")
    ap.add_argument("--scenarios", type=int, default=100000)
    ap.add_argument("--replay", default="")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    import contracts as CC
    C, M, schema = CC.load()
    from rt import drivers
    quals = [q for q in C]
    only = None
    if a.only:
        only = set(a.only.split(","))
    else:
        only = CC.closure(a.prop, C)
    drv = drivers.for_property(a.prop)
    consts = constants(only or quals)
    out = {"property": a.prop, "scenarios": 0, "clauses": {}, "calls": {}, "errors": {}, "notes": {}, "found": None}
    t0 = time.time()
    k = a.seed * 1000003
    if a.replay:
        rp = json.load(open(a.replay))["input"]
        drv = {rp["driver"]: drv[rp["driver"]]}
        consts = rp["consts"]
        k = rp["seed"] - 1
        a.scenarios = 1
    names = sorted(drv)
    while time.time() - t0 < a.seconds and out["scenarios"] < a.scenarios:
        for dn in names:
            k += 1
            mon, err, ctx = run_scenario(a.prop, C, M, schema, dn, drv[dn], k, consts, only)
            out["scenarios"] += 1
            for d, s in ((mon.calls, "calls"), (mon.checked, "clauses")):
                for q, n in d.items():
                    out[s][q] = out[s].get(q, 0) + n
            out["notes"].update(mon.notes)
            if err:
                out["errors"][err] = out["errors"].get(err, 0) + 1
            if a.verbose and ctx.log:
                print(ctx.log[:6], file=sys.stderr)
            if mon.broken is not None:
                b = mon.broken
                out["found"] = {"function": b.fn, "kind": b.kind, "clause": b.clause, "expr": b.expr, "detail": b.detail,
                                "input": {"driver": dn, "seed": k, "consts": consts}}
                break
        if out["found"]:
            break
    out["seconds"] = round(time.time() - t0, 2)
    print("RESULT " + json.dumps(out))


if __name__ == "__main__":
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix="rtsearch")
    os.chdir(scratch)
    try:
        main()
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
