"""Run-time reading of the contracts: wraps the real functions and checks, call by call, the clauses of one property."""
import functools
import importlib
import inspect
import numbers
import os
import sys

import numpy as np

from rt.spec import Spec, Snapshot, NotEvaluable, fields, is_model_object, same


class Broken(Exception):
    """A call of the real code that breaks a clause."""

    def __init__(self, fn, kind, clause, expr, detail):
        super().__init__("%s breaks %s %s" % (fn, kind, clause))
        self.fn, self.kind, self.clause, self.expr, self.detail = fn, kind, clause, expr, detail


class Stop(BaseException):
    """Leaves the scenario: the code called sys.exit or the budget is used up."""


def resolve(qual):
    mod, path = qual.split(":")
    m = importlib.import_module(mod)
    owner, x = m, m
    for p in path.split("."):
        owner = x
        nm = p
        if isinstance(x, type) and p.startswith("__") and not p.endswith("__"):
            nm = "_%s%s" % (x.__name__.lstrip("_"), p)
        x = inspect.getattr_static(x, nm, None)
        if x is None:
            return None
    return m, owner, nm, x


class Monitor:
    def __init__(self, contracts, macros, schema, prop, only=None, frames=True):
        self.contracts, self.macros, self.schema, self.prop = contracts, macros, schema, prop
        self.only, self.frames = only, frames
        self.classes = {}
        self.calls, self.checked, self.skipped, self.notes = {}, {}, {}, {}
        self.installed = []
        self.unwrapped = {}
        self.depth = 0
        self.broken = None
        self.roots = []
        self.allfields = {f for c in schema.FIELDS.values() for f in c if c[f] != "opaque"}
        for k, q in schema.CLASSES.items():
            mod, cn = q.rsplit(".", 1)
            if mod == "flee.pflee" and "pflee" not in prop and prop not in PFLEE_PROPS:
                continue
            try:
                c = getattr(importlib.import_module(mod), cn, None)
            except Exception:
                c = None
            if c is not None:
                self.classes[k] = c

    def clauses(self, c):
        return [(nm[5:] if nm.startswith("goal:") else nm, e) for nm, props, e in c.ensures + c.bounded if props is None or self.prop in props]

    def install(self):
        for q, c in self.contracts.items():
            if self.only is not None and q not in self.only:
                continue
            cl = self.clauses(c)
            if (not cl and not (self.frames and not c.trusted)) or c.norun:
                continue
            r = resolve(q)
            if r is None:
                self.notes[q] = "not found"
                continue
            m, owner, nm, raw = r
            static = isinstance(raw, staticmethod)
            fn = raw.__func__ if static else raw
            if not callable(fn):
                continue
            base = inspect.unwrap(fn)
            try:
                sig = inspect.signature(base)
            except (TypeError, ValueError):
                continue
            names = set(sig.parameters)
            used = set(c.types) | {"self"} if "self" in names else set(c.types)
            if not (set(c.types) <= names):
                self.notes[q] = "parameters changed"
                continue
            w = self.wrap(q, c, cl, fn, sig, importlib.import_module(q.split(":")[0]))
            self.unwrapped[w] = fn
            setattr(owner, nm, staticmethod(w) if static else w)
            self.installed.append((owner, nm, raw))
            # the same function bound under other names in flee modules
            if not isinstance(owner, type):
                for mn, mm in list(sys.modules.items()):
                    if mn.split(".")[0] == "flee" and mm is not None and mm is not owner:
                        for k, v in list(vars(mm).items()):
                            if v is raw:
                                setattr(mm, k, w)
                                self.installed.append((mm, k, raw))

    def uninstall(self):
        for owner, nm, raw in reversed(self.installed):
            setattr(owner, nm, raw)
        self.installed = []

    def spec(self, mod, old, roots):
        return Spec(mod, self.macros, self.classes, old, lambda: Snapshot(roots), self.unwrapped)

    def wrap(self, q, c, cl, fn, sig, mod):
        mon = self

        @functools.wraps(fn)
        def w(*args, **kw):
            if mon.broken is not None or mon.depth > 6 or mon.busy:
                return fn(*args, **kw)
            try:
                b = sig.bind(*args, **kw)
            except TypeError:
                return fn(*args, **kw)
            b.apply_defaults()
            env = dict(b.arguments)
            roots = list(env.values()) + [mon.classes["SimulationSettings"]] + mon.roots + mon.module_globals(mod)
            mon.calls[q] = mon.calls.get(q, 0) + 1
            if mon.calls[q] > mon.limit and mon.calls[q] % 7:
                return fn(*args, **kw)
            mon.busy = True
            try:
                old = Snapshot(roots)
                sp = mon.spec(mod, old, roots)
                ok = mon.types_ok(c, env, sp)
                for nm, e in c.requires:
                    if not ok:
                        break
                    try:
                        ok = sp.holds(e, env)
                    except Exception as ex:
                        ok = False
                        mon.notes[q] = "precondition %s not evaluable: %r" % (nm, ex)
            finally:
                mon.busy = False
            if not ok:
                mon.skipped[q] = mon.skipped.get(q, 0) + 1
                return fn(*args, **kw)
            mon.depth += 1
            g0 = mon.globals_snapshot(mod)
            try:
                res = fn(*args, **kw)
            except Broken:
                raise
            except Exception as ex:
                if mon.prop in c.safety and type(ex).__name__ not in c.raises and mon.broken is None:
                    mon.report(q, "safety", type(ex).__name__, "", "raises %r" % (ex,), env)
                raise
            finally:
                mon.depth -= 1
            if mon.broken is not None:
                return res
            mon.busy = True
            try:
                env2 = dict(env)
                env2["result"] = res
                sp = mon.spec(mod, old, roots + [res])
                sp.g0 = g0
                for nm, e in cl:
                    try:
                        good = sp.holds(e, env2)
                    except NotEvaluable as ex:
                        mon.notes[q + "/" + nm] = "not evaluable: %s" % ex
                        continue
                    except (AttributeError, KeyError, IndexError, TypeError, ValueError, ZeroDivisionError, AssertionError, OverflowError) as ex:
                        mon.notes[q + "/" + nm] = "not evaluable: %r" % ex
                        continue
                    mon.checked[q + "/" + nm] = mon.checked.get(q + "/" + nm, 0) + 1
                    if not good:
                        mon.report(q, "post", nm, e, mon.describe(env2, old), env2)
                        break
                if mon.broken is None and mon.frames:
                    bad = mon.frame(c, env, old, sp, mod)
                    if bad:
                        mon.report(q, "frame", bad[0], "modifies " + ", ".join(c.modifies), bad[1], env2)
            finally:
                mon.busy = False
            return res
        return w

    busy = False
    limit = 60

    def module_globals(self, mod):
        return []

    def globals_snapshot(self, mod):
        """The plain values among the module's globals."""
        return {k: v for k, v in vars(mod).items() if type(v) in (int, float, bool, str)}

    def report(self, q, kind, nm, e, detail, env):
        self.broken = Broken(q, kind, nm, e, detail)

    def describe(self, env, old):
        out = []
        for k, v in env.items():
            out.append("%s=%s" % (k, show(v)))
        return ", ".join(out)[:1500]

    def types_ok(self, c, env, sp):
        """Are the arguments of the types the contract is about?"""
        for p, t in c.types.items():
            if p in env and not has_type(env[p], t, self.classes):
                return False
        return True

    # ---- frames
    def frame(self, c, env, old, sp, mod):
        allowed_fields, allowed_rows, classes, anylist, anyarr, anydict = set(), set(), set(), False, False, False
        ss_ok = set()
        for m in c.modifies:
            m = m.strip()
            if m.startswith("@list"):
                anylist = True
            elif m.startswith("@arr"):
                anyarr = True
            elif m.startswith("@dict"):
                anydict = True
            elif m.startswith("@rec") or m.startswith("@set"):
                anylist = True
            elif m.startswith("@"):
                cn, f = m[1:].rsplit(".", 1)
                classes.add((cn, f))
            elif m.startswith("SS."):
                ss_ok.add(tuple(m.split(".")[1:]))
            elif m.startswith("global "):
                pass
            else:
                cont = m.endswith("[:]") or m.endswith("{}")
                e = m[:-3] if m.endswith("[:]") else m[:-2] if m.endswith("{}") else m
                try:
                    if cont:
                        allowed_rows.add(id(sp.ev(sp.parse(e), env, True)))
                    else:
                        obj, f = e.rsplit(".", 1)
                        o = sp.ev(sp.parse(obj), env, True)
                        if f.startswith("__"):
                            f = "_%s%s" % (type(o).__name__.lstrip("_"), f)
                        allowed_fields.add((id(o), f))
                except Exception:
                    return None
        rowowner = {}
        for x, d in old.items.values():
            if is_model_object(x):
                for f, v in d.items():
                    if isinstance(v, (list, dict, np.ndarray)):
                        rowowner[id(v)] = (type(x).__name__, f)
        for x, d in old.items.values():
            if isinstance(x, type):
                for k, v in d.items():
                    if isinstance(v, dict) or (k,) in ss_ok:
                        continue
                    if k in self.schema.SSATTRS and getattr(x, k, None) != v:
                        return ("SimulationSettings." + k, "changed from %r to %r" % (v, getattr(x, k, None)))
                continue
            if isinstance(x, list):
                if id(x) in allowed_rows or anylist:
                    continue
                if id(x) not in rowowner or rowowner[id(x)][1] not in self.allfields:
                    continue
                if len(x) != len(d) or any(p is not q and not same_shallow(p, q) for p, q in zip(x, d)):
                    return ("%s.%s" % rowowner[id(x)], "list changed")
            elif isinstance(x, dict):
                if id(x) in allowed_rows or anydict:
                    continue
                ssd = [k for k, v in ((k, getattr(self.classes["SimulationSettings"], k, None)) for k in self.schema.SS) if v is x]
                if ssd:
                    for k in set(x) | set(d):
                        if (ssd[0], k) in ss_ok or k not in self.schema.SS[ssd[0]]:
                            continue
                        if x.get(k) != d.get(k):
                            return ("SimulationSettings.%s[%r]" % (ssd[0], k), "changed from %r to %r" % (d.get(k), x.get(k)))
                    continue
                if id(x) not in rowowner or rowowner[id(x)][1] not in self.allfields:
                    continue
                if set(x) != set(d) or any(x[k] is not d[k] and not same_shallow(x[k], d[k]) for k in x):
                    return ("%s.%s" % rowowner[id(x)], "dict changed")
            elif isinstance(x, np.ndarray):
                if id(x) in allowed_rows or anyarr:
                    continue
                if x.shape != d.shape or not np.array_equal(x, d):
                    return ("%s.%s" % rowowner.get(id(x), ("array", "")), "array changed")
            elif is_model_object(x):
                now = fields(x)
                cn = type(x).__name__
                known = None
                for k, q in self.schema.CLASSES.items():
                    if type(x).__module__ + "." + cn == q:
                        known = k
                if known is None:
                    continue
                fl = self.schema.FIELDS.get(self.schema.CLASSES[known], {})
                for f in fl:
                    if fl[f] == "opaque" or (id(x), f) in allowed_fields or (known, f) in classes or (cn, f) in classes:
                        continue
                    a, b = d.get(f), now.get(f)
                    if a is not b and not same_shallow(a, b):
                        return ("%s.%s" % (cn, f), "%s.%s changed from %s to %s" % (getattr(x, "name", cn), f, show(a), show(b)))
        return None


PFLEE_PROPS = set()


def same_shallow(a, b):
    if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
        return a == b or (a != a and b != b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return False


def show(v):
    if is_model_object(v):
        return "<%s %s>" % (type(v).__name__, getattr(v, "name", ""))
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(show(x) for x in v[:12]) + (" ..." if len(v) > 12 else "") + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%r: %s" % (k, show(x)) for k, x in list(v.items())[:8]) + "}"
    return repr(v)[:80]


def has_type(v, t, classes):
    t = t.strip()
    if t.endswith("?"):
        return v is None or has_type(v, t[:-1], classes)
    if "[" not in t and "|" in t:
        return any(has_type(v, x, classes) for x in t.split("|"))
    if t in ("val", "opaque"):
        return True
    if t == "int":
        return isinstance(v, (int, np.integer)) and not isinstance(v, bool)
    if t == "float":
        return isinstance(v, numbers.Real) and not isinstance(v, bool) and v == v and abs(v) != float("inf")
    if t == "bool":
        return isinstance(v, (bool, np.bool_))
    if t == "str":
        return isinstance(v, str)
    if t == "none":
        return v is None
    if t.startswith("list["):
        if not isinstance(v, list):
            return False
        inner = t[5:-1]
        return all(has_type(x, inner, classes) for x in v)
    if t.startswith("arr["):
        return isinstance(v, np.ndarray)
    if t.startswith("dict["):
        return isinstance(v, dict)
    if t in classes:
        return isinstance(v, classes[t])
    return True
