#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]    decides one property of /repo's current tree.

Every function the property depends on is verified against its contract (contracts/), generated afresh from the
current source; what the verifier cannot settle is searched for on the real code.   check.py --replay FILE runs a
failing input again.
"""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CORE = {"pre", "post", "frame"}


class TooLong(Exception):
    pass


def contracts_for(prop):
    import contracts
    C, M, S = contracts.load()
    return {q: contracts.project(prop, k) for q, k in C.items()}, M, S


PROG = None


def work(job):
    """Verifies one function; returns a plain dict."""
    qual, prop, limit, tmo, effort0, case, end = job
    limit = max(5, min(limit, end - time.time()))
    from pyvc.verify import Verifier
    from pyvc.engine import Unsupported
    t0 = time.time()
    C, M, S = contracts_for(prop)
    k = C[qual]
    out = {"fn": qual, "case": case, "obligations": [], "used": [], "inlined": [], "error": None, "kind": None, "vacuous": None, "notes": []}

    def onalarm(*_):
        raise TooLong()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    v = None
    try:
        if PROG.func(qual) is None:
            out["kind"], out["error"] = "missing", "function not in the current source"
            return out
        if k.beyond:
            out["kind"], out["error"] = "bounded", k.beyond
            return out
        for effort in range(max(k.effort, effort0), 2):
            # the loop-invariant search first with little effort, then, if obligations stay open, with more
            v = Verifier(PROG, S, C, M)
            v.effort = effort
            out["obligations"] = []
            v.verify(k, case)
            safe = prop in k.safety
            for o in v.obls:
                if o.kind not in CORE and not safe:
                    continue
                if o.kind == "frame" and o.name.startswith("f/") and not v.declared_field(o.name):
                    continue
                v.solve(o, int((k.timeout or tmo) * (1000 if effort else 400)))
                out["obligations"].append({"name": o.label(), "kind": o.kind, "line": o.line, "src": o.src, "status": o.status,
                                           "backend": o.backend, "secs": round(o.secs, 3), "detail": o.detail[:1500] if o.status != "proved" else ""})
                if effort == 0 and o.status != "proved":
                    break
            if all(o["status"] == "proved" for o in out["obligations"]):
                break
        out["vacuous"] = v.vacuity()
    except Unsupported as ex:
        out["kind"], out["error"] = "unsupported", str(ex)
    except TooLong:
        out["kind"], out["error"] = "timeout", "gave up after %d s" % limit
    except Exception as ex:
        out["kind"], out["error"] = "unsupported", "%r at %s" % (ex, traceback.format_exc().strip().splitlines()[-3].strip())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if v is None:
        return dict(out, trusted=[], ext=[], houdini_s=0, secs=0)
    out["used"], out["inlined"] = sorted(v.used_contracts), sorted(v.inlined)
    out["trusted"] = sorted(v.trusted_used)
    out["ext"] = sorted(v.trusted_ext)
    out["notes"] = [str(n) for n in v.notes][:20]
    out["houdini_s"] = round(v.quick_time, 2)
    out["secs"] = round(time.time() - t0, 2)
    return out


def merge(a, b):
    """Results of two cases of one function."""
    if a is None:
        return b
    out = dict(a)
    for k in ("obligations", "notes"):
        out[k] = a[k] + b[k]
    for k in ("used", "inlined", "trusted", "ext"):
        out[k] = sorted(set(a[k]) | set(b[k]))
    for k in ("secs", "houdini_s"):
        out[k] = round(a[k] + b[k], 2)
    out["error"], out["kind"] = (a["error"], a["kind"]) if a["error"] else (b["error"], b["kind"])
    out["vacuous"] = a["vacuous"] and b["vacuous"]
    return out


def verify_all(prop, roots, C, limit, tmo, end, follow=True, jobs=8):
    global PROG
    from pyvc.source import Program
    PROG = Program()
    done, pending, results = set(), set(), {}
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(max_workers=min(jobs, int(os.environ.get("VERIF_JOBS", "8"))), mp_context=ctx) as ex:
        futs = {}

        def add(q):
            if q in done or q not in C:
                return
            done.add(q)
            if C[q].trusted:
                return
            for case in C[q].cases:
                futs[ex.submit(work, (q, prop, limit, tmo, 0 if follow else 1, case, end))] = q
        for q in roots:
            add(q)
        while futs:
            fin, _ = cf.wait(list(futs), return_when=cf.FIRST_COMPLETED)
            for f in fin:
                q = futs.pop(f)
                try:
                    r = f.result()
                except Exception as e2:
                    r = {"fn": q, "obligations": [], "used": [], "inlined": [], "error": repr(e2), "kind": "unsupported", "vacuous": None, "notes": [], "trusted": [], "ext": [], "secs": 0, "houdini_s": 0}
                results[q] = merge(results.get(q), r)
                for u in r["used"] if follow else ():
                    add(u)
    return results, done


def search(prop, only, seconds, seed, jobs):
    """Runs the bounded search in parallel; returns the merged statistics and the first breach found."""
    env = dict(os.environ)
    env.update({"PYTHONPATH": REPO, "FLEE_TYPE_CHECK": "true", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "VERIF_REPO": REPO,
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
    ps = [subprocess.Popen([PY, os.path.join(HERE, "rt", "search.py"), prop, "--seconds", str(seconds), "--seed", str(seed * 100 + i), "--only", ",".join(sorted(only))],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd="/") for i in range(jobs)]
    tot = {"scenarios": 0, "clauses": {}, "calls": {}, "errors": {}, "notes": {}, "found": None, "seconds": seconds, "processes": jobs}
    t1 = time.time()
    live = list(ps)
    while live:
        for p in list(live):
            if p.poll() is not None:
                live.remove(p)
                so, se = p.communicate()
                r = None
                for ln in so.splitlines():
                    if ln.startswith("RESULT "):
                        r = json.loads(ln[7:])
                if r is None:
                    tot["errors"]["search process: " + se.strip()[-300:]] = 1
                    continue
                tot["scenarios"] += r["scenarios"]
                for s in ("clauses", "calls", "errors"):
                    for q, n in r[s].items():
                        tot[s][q] = tot[s].get(q, 0) + n
                tot["notes"].update(r["notes"])
                if r["found"] and not tot["found"]:
                    tot["found"] = r["found"]
                    for o in live:
                        o.terminate()
        if time.time() - t1 > seconds + 60:
            for p in live:
                p.kill()
            break
        time.sleep(0.05)
    return tot


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                out.append(ln[len("known: property=%s " % prop):])
    return out


def tally(res):
    failed, unreached, n, ok, backends, solver_s = [], [], 0, 0, {}, 0.0
    for q in sorted(res):
        r = res[q]
        if r["error"]:
            unreached.append({"function": q, "why": "%s: %s" % (r["kind"], r["error"])})
            continue
        if r["vacuous"]:
            failed.append({"name": q + "/vacuous/" + r["vacuous"], "function": q, "src": "", "line": 0, "status": "vacuous", "detail": ""})
        for o in r["obligations"]:
            n += 1
            solver_s += o["secs"]
            if o["status"] == "proved":
                ok += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                failed.append(dict(o, function=q))
        solver_s += r["houdini_s"]
    return failed, unreached, n, ok, backends, solver_s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        rp = json.load(open(a.replay))
        if "input" not in rp:
            print("no failing input recorded; failed obligations:")
            for f in rp.get("failed", []):
                print("  ", f["name"])
            return 1
        env = dict(os.environ, PYTHONPATH=REPO, FLEE_TYPE_CHECK="true", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        return subprocess.call([PY, os.path.join(HERE, "rt", "search.py"), rp["property"], "--replay", os.path.abspath(a.replay), "--only", ",".join(rp["only"])], env=env)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    t0 = time.time()
    import contracts
    C, M, S = contracts_for(prop)
    rawC, _, _ = contracts.load()
    roots = contracts.roots(prop, rawC)
    limit, tmo = (600, 40) if thorough else (170, 10)
    res, closure = verify_all(prop, roots, C, limit, tmo, t0 + (1500 if thorough else 330))
    failed, unreached, n, ok, backends, solver_s = tally(res)
    trusted = sorted({t for r in res.values() for t in r.get("trusted", [])})
    wanted = set(closure)
    bounded = sorted(set(trusted) | {u["function"] for u in unreached})
    t1 = time.time()
    # concrete reading of the same contracts on the real code: confirms a failed obligation, and stands in
    # (bounded, never counted as proved) for functions the verifier did not reach
    found = None
    stats = None
    if not a.no_search:
        if failed:
            secs = 90 if thorough else 45
        elif unreached:
            secs = 120 if thorough else 45
        else:
            secs = 60 if thorough else 12
        stats = search(prop, wanted, secs, seed, 7)
        found = stats["found"]
    if failed and not found and time.time() - t0 < (3000 if thorough else 480):
        # a second look, with more time and less company, at functions with obligations left open
        again = sorted({f["function"] for f in failed})
        res2, _ = verify_all(prop, again, C, limit * 1.5, tmo * 3, t0 + (4000 if thorough else 700), follow=False, jobs=4)
        for q, r in res2.items():
            if not r["error"] and sum(o["status"] != "proved" for o in r["obligations"]) <= sum(o["status"] != "proved" for o in res[q]["obligations"]):
                res[q] = r
        failed, unreached, n, ok, backends, solver_s = tally(res)
        if failed and not a.no_search:
            more = search(prop, wanted, secs, seed + 1, 7)
            found = more["found"]
            for s in ("clauses", "calls", "errors"):
                for q, v in more[s].items():
                    stats[s][q] = stats[s].get(q, 0) + v
            stats["scenarios"] += more["scenarios"]
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    violation = None
    known = known_findings(prop)
    if found or failed:
        rp = {"property": prop, "only": sorted(wanted), "failed": [{k: f.get(k) for k in ("name", "function", "line", "src", "status", "backend", "detail")} for f in failed]}
        if found:
            rp.update(found)
            rp["command"] = "python3-vt check.py --replay <this file>"
        path = os.path.join(HERE, "replays", "%s.json" % prop)
        json.dump(rp, open(path, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found")
    import z3
    from pyvc import lemmas
    lem = lemmas.prove()
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "proof",
        "coverage": {
            "obligations": n, "discharged": ok,
            "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier),
            "trusted_base": ["z3 %s and cvc5 1.1.2" % z3.get_version_string(), "pyvc, the verification-condition generator of /verif (heap model, Python semantics of the subset it accepts)"]
            + ["assumed contract: " + q for q in trusted]
            + ["library semantics: " + x for x in sorted({x for r in res.values() for x in r.get("ext", [])})],
            "functions_under_contract": sorted(q for q in res if not res[q]["error"]),
            "functions_inlined": sorted({i for r in res.values() for i in r["inlined"]}),
            "functions_not_reached": unreached,
            "lemmas_by_induction": {"proved": sum(ok_ for _, ok_ in lem), "not_proved": [x for x, ok_ in lem if not ok_]},
            "back_ends": backends, "solver_s": round(solver_s, 1),
            "failed": [f["name"] for f in failed],
            "per_function": {q: {"obligations": len(r["obligations"]), "secs": r["secs"]} for q, r in sorted(res.items()) if not r["error"]},
            "bounded": {"what": "the same contracts checked call by call while random scenarios drive the real code; no bound on proof is implied",
                        "stands_in_for": bounded, "clauses_checked_only_here": sorted(q + "/" + n for q in wanted for n, _, _ in C[q].bounded), "seconds": secs if stats else 0,
                        "scenarios": stats["scenarios"] if stats else 0,
                        "clause_evaluations": sum(stats["clauses"].values()) if stats else 0,
                        "clauses": stats["clauses"] if stats else {}, "errors": stats["errors"] if stats else {}, "notes": stats["notes"] if stats else {}},
        },
        "assumptions": [
            "floats are treated as real numbers and ints as unbounded",
            "partial correctness: termination and the code after sys.exit() are not covered",
            "arguments have the types written in the contracts; stored fields have the types in contracts/schema.py",
            "print has no effect; decorators (beartype) do not change results",
            "strings compared with `is` may be equal without being identical",
        ],
        "wall_s": round(wall, 1), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", "%s.json" % prop), "w"), indent=1)
    print("%s: %d/%d obligations proved in %d functions, %d not reached, %d assumed; %.0fs proof, %.0fs total" % (
        prop, ok, n, len([r for r in res.values() if not r["error"]]), len(unreached), len(trusted), t1 - t0, wall))
    for u in unreached:
        print("  not reached (bounded check instead): %s: %s" % (u["function"], u["why"][:200]))
    for f in failed[:20]:
        print("  failed: %s [%s] line %s" % (f["name"], f["status"], f["line"]))
    if stats:
        print("  real code: %d scenarios, %d clause evaluations" % (stats["scenarios"], sum(stats["clauses"].values())))
        if stats["errors"]:
            print("  scenario errors:", {k[:80]: v for k, v in list(stats["errors"].items())[:5]})
    if a.v:
        for q, r in sorted(res.items(), key=lambda x: -x[1]["secs"]):
            print("   ", q, r["secs"], len(r["obligations"]))
        if stats:
            for q, m in stats["notes"].items():
                print("    note", q, m)
    for kf in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, kf))
    if found:
        print("  %s breaks %s '%s': %s" % (found["function"], found["kind"], found["clause"], found["expr"][:300].replace("\n", " ")))
        print("  " + found["detail"][:400])
    if violation:
        print(violation)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
