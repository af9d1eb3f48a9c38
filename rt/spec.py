"""Concrete meaning of the contract language: evaluates a clause in a real state and in a saved earlier state."""
import ast
import math
import numbers
import os

import numpy as np

TOL = 1e-7


class NotEvaluable(Exception):
    """The clause has no concrete reading in this state."""


PRIM = {int, float, bool, str, type(None), np.float64, np.int64, complex, bytes}
_FIELDS, _CACHE, _YAML, _CSV = {}, {}, {}, {}


class Snapshot:
    """Contents of every reachable object, list, dict and array, by identity."""

    def __init__(self, roots):
        self.items = items = {}
        self.objs = []
        todo = list(roots)
        while todo:
            x = todo.pop()
            i = id(x)
            if i in items:
                continue
            if isinstance(x, (list, tuple)):
                items[i] = (x, list(x))
                todo.extend([y for y in x if type(y) not in PRIM])
            elif isinstance(x, dict):
                items[i] = (x, dict(x))
                todo.extend([y for y in x.values() if type(y) not in PRIM])
            elif isinstance(x, np.ndarray):
                self.items[i] = (x, x.copy())
            elif isinstance(x, type):
                d = {k: v for k, v in vars(x).items() if not k.startswith("__") and not callable(v) and not isinstance(v, staticmethod)}
                self.items[i] = (x, d)
                todo.extend(v for v in d.values() if isinstance(v, (dict, list)))
            elif is_model_object(x):
                d = fields(x)
                self.items[i] = (x, d)
                self.objs.append(x)
                todo.extend([v for v in d.values() if type(v) not in PRIM and id(v) not in items])

    def swap(self):
        """Puts the saved contents back; returns what undoes it."""
        now = []
        for x, c in self.items.values():
            if isinstance(x, list):
                now.append((x, list(x)))
                x[:] = c
            elif isinstance(x, dict):
                now.append((x, dict(x)))
                x.clear()
                x.update(c)
            elif isinstance(x, np.ndarray):
                now.append((x, x.copy()))
                if x.shape == c.shape:
                    x[...] = c
            elif isinstance(x, tuple):
                pass
            elif isinstance(x, type):
                now.append((x, {k: getattr(x, k) for k in c if hasattr(x, k)}))
                for k, v in c.items():
                    setattr(x, k, v)
            else:
                now.append((x, fields(x)))
                setfields(x, c)
        return now

    @staticmethod
    def restore(now):
        for x, c in now:
            if isinstance(x, list):
                x[:] = c
            elif isinstance(x, dict):
                x.clear()
                x.update(c)
            elif isinstance(x, np.ndarray):
                x[...] = c
            elif isinstance(x, type):
                for k, v in c.items():
                    setattr(x, k, v)
            else:
                setfields(x, c)


def fields(x):
    d = dict(getattr(x, "__dict__", {}))
    cls = type(x)
    if cls not in _FIELDS:
        _FIELDS[cls] = ["_%s%s" % (k.__name__.lstrip("_"), s) if s.startswith("__") else s
                        for k in cls.__mro__ for s in getattr(k, "__slots__", ()) if not s.endswith("__")]
    for s in _FIELDS[cls]:
        try:
            d[s] = object.__getattribute__(x, s)
        except AttributeError:
            pass
    return d


def setfields(x, c):
    cur = fields(x)
    for k in cur:
        if k not in c:
            object.__delattr__(x, k)
    for k, v in c.items():
        object.__setattr__(x, k, v)


def is_model_object(x):
    return type(x).__module__.split(".")[0] == "flee" and not callable(x)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return a == b
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= TOL * (1.0 + abs(a) + abs(b))


class Undecided:
    """The truth value of a comparison that rounding decides."""

    def __bool__(self):
        raise NotEvaluable("decided by rounding")

    def __repr__(self):
        return "MAYBE"


MAYBE = Undecided()


def sharp(a, b):
    """Two numbers that are the same or clearly apart, so that no other order of rounding tells them otherwise."""
    if a == b:
        return isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) or math.isinf(a) or float(a) * 1024 == int(float(a) * 1024)
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return True
    return abs(a - b) > TOL * (abs(a) + abs(b)) and (abs(a - b) > 1e-11)


def number(x):
    return isinstance(x, numbers.Real) and not isinstance(x, (bool, np.bool_))


def negate(v):
    return MAYBE if v is MAYBE else not v


def conj(vs):
    r = True
    for v in vs:
        if v is MAYBE:
            r = MAYBE
        elif not v:
            return False
    return r


def disj(vs):
    r = False
    for v in vs:
        if v is MAYBE:
            r = MAYBE
        elif v:
            return True
    return r


def same(a, b):
    if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
        return close(a, b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    r = a == b
    return bool(r)


class Spec:
    """One evaluation context: module globals, macros, the saved entry state."""

    def __init__(self, module, macros, classes, old=None, world=None, unwrapped=None):
        self.module, self.macros, self.classes, self.old, self.world = module, macros, classes, old, world
        self.unwrapped = unwrapped or {}
        self.now = None
        self.ghost = {}
        self.g0 = None

    def parse(self, e):
        if e not in _CACHE:
            _CACHE[e] = ast.parse(e.strip().replace("\n", " "), mode="eval").body
        return _CACHE[e]

    def holds(self, e, env):
        """False only where rounding cannot be the reason."""
        v = self.ev(self.parse(e), env, False)
        return True if v is MAYBE else bool(v)

    # ---- state access
    def attr(self, x, f, old):
        if old and self.old is not None:
            it = self.old.items.get(id(x))
            if it is not None and f in it[1] and not isinstance(x, (list, dict, tuple, np.ndarray)):
                return it[1][f]
        if f.startswith("__") and not f.endswith("__"):
            f = "_%s%s" % (type(x).__name__.lstrip("_"), f)
        return getattr(x, f)

    def view(self, x, old):
        if old and self.old is not None:
            it = self.old.items.get(id(x))
            if it is not None and isinstance(x, (list, dict, np.ndarray)):
                return it[1]
        return x

    def objects(self, cls, old):
        if not (old and self.old is not None) and self.now is None:
            self.now = self.world().objs
        src = self.old.objs if old and self.old is not None else self.now
        return [o for o in src if isinstance(o, cls)]

    # ---- evaluation
    def ev(self, n, env, old):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise NotEvaluable(type(n).__name__)
        return m(n, env, old)

    def ev_Constant(self, n, env, old):
        return n.value

    def ev_Name(self, n, env, old):
        if n.id in env:
            return env[n.id]
        if n.id in self.classes:
            return self.classes[n.id]
        if old and self.g0 and n.id in self.g0:
            return self.g0[n.id]
        if hasattr(self.module, n.id):
            return getattr(self.module, n.id)
        if n.id == "math":
            return math
        if n.id == "np":
            return np
        import builtins
        if hasattr(builtins, n.id):
            return getattr(builtins, n.id)
        raise NotEvaluable("name " + n.id)

    def ev_Attribute(self, n, env, old):
        return self.attr(self.ev(n.value, env, old), n.attr, old)

    def ev_Subscript(self, n, env, old):
        b = self.view(self.ev(n.value, env, old), old)
        if isinstance(n.slice, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, env, old)
            return b[g(n.slice.lower):g(n.slice.upper):g(n.slice.step)]
        return b[self.ev(n.slice, env, old)]

    def ev_Tuple(self, n, env, old):
        return tuple(self.ev(x, env, old) for x in n.elts)

    def ev_List(self, n, env, old):
        return [self.ev(x, env, old) for x in n.elts]

    def ev_Dict(self, n, env, old):
        return {self.ev(k, env, old): self.ev(v, env, old) for k, v in zip(n.keys, n.values)}

    def ev_BoolOp(self, n, env, old):
        v, maybe = None, False
        for x in n.values:
            v = self.ev(x, env, old)
            if v is MAYBE:
                maybe = True
                continue
            if isinstance(n.op, ast.And) and not v:
                return v
            if isinstance(n.op, ast.Or) and v:
                return v
        return MAYBE if maybe else v

    def ev_UnaryOp(self, n, env, old):
        v = self.ev(n.operand, env, old)
        return negate(v) if isinstance(n.op, ast.Not) else -v if isinstance(n.op, ast.USub) else +v

    def ev_BinOp(self, n, env, old):
        a, b = self.ev(n.left, env, old), self.ev(n.right, env, old)
        if isinstance(a, list):
            a = list(self.view(a, old))
        if isinstance(b, list):
            b = list(self.view(b, old))
        o = type(n.op)
        if o is ast.Add:
            return a + b
        if o is ast.Sub:
            return a - b
        if o is ast.Mult:
            return a * b
        if o is ast.Div:
            return a / b
        if o is ast.FloorDiv:
            return a // b
        if o is ast.Mod:
            return a % b
        if o is ast.Pow:
            return a ** b
        raise NotEvaluable(o.__name__)

    def ev_IfExp(self, n, env, old):
        return self.either(n.test, n.body, n.orelse, env, old)

    def either(self, c, a, b, env, old):
        t = self.ev(c, env, old)
        if t is MAYBE:
            x, y = self.ev(a, env, old), self.ev(b, env, old)
            if x is y or number(x) and number(y) and same(x, y):
                return x
        return self.ev(a if t else b, env, old)

    def ev_JoinedStr(self, n, env, old):
        return "".join(v.value if isinstance(v, ast.Constant) else str(self.ev(v.value, env, old)) for v in n.values)

    def ev_Compare(self, n, env, old):
        a, out = self.ev(n.left, env, old), True
        for op, c in zip(n.ops, n.comparators):
            b = self.ev(c, env, old)
            o = type(op)
            va, vb = self.view(a, old), self.view(b, old)
            if o in (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE) and number(a) and number(b):
                r = {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[o] if sharp(a, b) else MAYBE
            elif o is ast.Eq:
                r = same(va, vb)
            elif o is ast.NotEq:
                r = not same(va, vb)
            elif o is ast.Is:
                r = a is b or (isinstance(a, (str, bool)) and a == b)
            elif o is ast.IsNot:
                r = not (a is b or (isinstance(a, (str, bool)) and a == b))
            elif o is ast.In:
                r = any(a is x or same(a, x) for x in vb) if not isinstance(vb, (dict, str)) else a in vb
            elif o is ast.NotIn:
                r = not any(a is x or same(a, x) for x in vb) if not isinstance(vb, (dict, str)) else a not in vb
            elif o is ast.Lt:
                r = a < b
            elif o is ast.LtE:
                r = a <= b
            elif o is ast.Gt:
                r = a > b
            elif o is ast.GtE:
                r = a >= b
            else:
                raise NotEvaluable(o.__name__)
            if r is MAYBE:
                out = MAYBE
            elif not r:
                return False
            a = b
        return out

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        else:
            for x, y in zip(t.elts, v):
                self.bind(x, y, env)

    def gens(self, gs, env, old):
        if not gs:
            yield env
            return
        g = gs[0]
        for v in self.seq(g.iter, env, old):
            e2 = dict(env)
            self.bind(g.target, v, e2)
            if all(self.ev(c, e2, old) for c in g.ifs):
                yield from self.gens(gs[1:], e2, old)

    def seq(self, node, env, old):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            f = node.func.id
            if f == "objects":
                cls = tuple(self.ev(a, env, old) for a in node.args)
                return self.objects(cls, old)
            if f in ("enumerate", "zip"):
                xs = [list(self.seq(a, env, old)) for a in node.args]
                return list(enumerate(xs[0]) if f == "enumerate" else zip(*xs))
        x = self.view(self.ev(node, env, old), old or is_old(node))
        return list(x)

    def ev_ListComp(self, n, env, old):
        return [self.ev(n.elt, e, old) for e in self.gens(n.generators, env, old)]

    ev_GeneratorExp = ev_ListComp

    def ev_Call(self, n, env, old):
        f = n.func
        if isinstance(f, ast.Name):
            nm = f.id
            if nm in self.macros and nm not in env:
                ps, body = self.macros[nm][:2]
                return self.ev(self.parse(body), dict(zip(ps, [self.ev(a, env, old) for a in n.args])), old)
            m = getattr(self, "sp_" + nm, None)
            if m is not None:
                return m(n, env, old)
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env, old)
            if isinstance(b, (dict, list, np.ndarray)) and f.attr in ("get", "keys", "values", "items", "index", "count"):
                return getattr(self.view(b, old), f.attr)(*[self.ev(a, env, old) for a in n.args])
            fn = getattr(b, f.attr)
        else:
            fn = self.ev(f, env, old)
        args = [self.ev(a, env, old) for a in n.args]
        kw = {k.arg: self.ev(k.value, env, old) for k in n.keywords}
        if fn in (len, sum, min, max, sorted, list, set, abs, float, int, round, str, tuple) or fn is range:
            return fn(*[self.view(a, old) for a in args], **kw)
        fn = self.unwrapped.get(getattr(fn, "__func__", fn), fn) if not hasattr(fn, "__self__") else fn
        if old and self.old is not None:
            now = self.old.swap()
            try:
                return fn(*args, **kw)
            finally:
                Snapshot.restore(now)
        return fn(*args, **kw)

    # ---- specification functions
    def sp_old(self, n, env, old):
        return self.ev(n.args[0], env, True)

    def sp_all(self, n, env, old):
        g = n.args[0]
        return conj(self.ev(g.elt, e, old) for e in self.gens(g.generators, env, old))

    def sp_any(self, n, env, old):
        g = n.args[0]
        return disj(self.ev(g.elt, e, old) for e in self.gens(g.generators, env, old))

    def sp_implies(self, n, env, old):
        a = self.ev(n.args[0], env, old)
        return True if a is not MAYBE and not a else disj([negate(a), self.ev(n.args[1], env, old)])

    def sp_iff(self, n, env, old):
        a, b = self.ev(n.args[0], env, old), self.ev(n.args[1], env, old)
        return MAYBE if a is MAYBE or b is MAYBE else bool(a) == bool(b)

    def sp_ite(self, n, env, old):
        return self.either(*n.args, env, old)

    def sp_truth(self, n, env, old):
        return bool(self.view(self.ev(n.args[0], env, old), old))

    def sp_numeric(self, n, env, old):
        v = self.ev(n.args[0], env, old)
        return float(v) if isinstance(v, str) else v

    def sp_parses(self, n, env, old):
        try:
            float(self.ev(n.args[0], env, old))
            return True
        except (ValueError, TypeError):
            return False

    def yaml_at(self, n, env, old):
        import yaml
        path, *keys = [self.ev(a, env, old) for a in n.args]
        q = os.stat(path)
        key = (path, q.st_mtime_ns, q.st_ino, q.st_size)
        if _YAML.get("key") != key:
            with open(path) as f:
                _YAML.update(key=key, doc=yaml.safe_load(f))
        cur = _YAML["doc"]
        for k in keys:
            if cur is None or k not in cur:
                return False, None
            cur = cur[k]
        return True, cur

    def sp_yaml(self, n, env, old):
        return self.yaml_at(n, env, old)[1]

    def sp_has_yaml(self, n, env, old):
        return self.yaml_at(n, env, old)[0]

    def csv_at(self, path):
        import csv
        q = os.stat(path)
        key = (path, q.st_mtime_ns, q.st_ino, q.st_size)
        if _CSV.get("key") != key:
            with open(path, newline="", encoding="utf-8") as f:
                _CSV.update(key=key, doc=list(csv.reader(f)))
        return _CSV["doc"]

    def sp_csv_rows(self, n, env, old):
        return len(self.csv_at(self.ev(n.args[0], env, old)))

    def sp_csv_len(self, n, env, old):
        p, k = [self.ev(a, env, old) for a in n.args]
        return len(self.csv_at(p)[k])

    def sp_csv_cell(self, n, env, old):
        p, k, j = [self.ev(a, env, old) for a in n.args]
        return self.csv_at(p)[k][j]

    def sp_is_str(self, n, env, old):
        return isinstance(self.ev(n.args[0], env, old), str)

    def sp_is_int(self, n, env, old):
        return isinstance(self.ev(n.args[0], env, old), (int, np.integer))

    def sp_is_num(self, n, env, old):
        return isinstance(self.ev(n.args[0], env, old), numbers.Number)

    def sp_fresh(self, n, env, old):
        return id(self.ev(n.args[0], env, old)) not in self.old.items

    def sp_allocated(self, n, env, old):
        return self.ev(n.args[0], env, old) is not None

    def sp_indom(self, n, env, old):
        return self.ev(n.args[0], env, old) in self.view(self.ev(n.args[1], env, old), old)

    def sp_eqv(self, n, env, old):
        return same(self.view(self.ev(n.args[0], env, old), old), self.view(self.ev(n.args[1], env, old), old))

    def sp_same_row(self, n, env, old):
        a, b = n.args
        x = self.view(self.ev(a, env, old), old or is_old(a))
        y = self.view(self.ev(b, env, old), old or is_old(b))
        return len(x) == len(y) and all(p is q or same(p, q) for p, q in zip(x, y))

    def sp_same_dict(self, n, env, old):
        x, y = (dict(self.view(self.ev(a, env, old), old or is_old(a))) for a in n.args[:2])
        if len(n.args) > 2:
            k = self.ev(n.args[2], env, old)
            x.pop(k, None), y.pop(k, None)
        return x.keys() == y.keys() and all(x[k] is y[k] or same(x[k], y[k]) for k in x)

    def sp_is_a(self, n, env, old):
        return isinstance(self.ev(n.args[0], env, old), tuple(self.ev(c, env, old) for c in n.args[1:]))

    def sp_has_setting(self, n, env, old):
        ss = self.classes["SimulationSettings"]
        return self.ev(n.args[1], env, old) in self.view(self.attr(ss, self.ev(n.args[0], env, old), old), old)

    def sp_at_place(self, n, env, old):
        L, xs, k = (self.ev(a, env, old) for a in n.args)
        xs = self.view(xs, old)
        return sum(1 for a in list(xs)[:max(k, 0)] if self.attr(a, "location", old) is L)

    def sp_distinct(self, n, env, old):
        xs = self.view(self.ev(n.args[0], env, old), old)
        ids = [x if isinstance(x, str) else id(x) for x in xs]
        return len(set(ids)) == len(ids)

    def sp_pw(self, n, env, old):
        return float(self.ev(n.args[0], env, old)) ** float(self.ev(n.args[1], env, old))

    def sp_int_of(self, n, env, old):
        v = self.ev(n.args[0], env, old)
        if isinstance(v, str):
            return int(v)
        if not sharp(v, round(v)):
            raise NotEvaluable("decided by rounding")
        return int(v)

    def sp_total(self, n, env, old):
        g = n.args[0]
        return sum(self.ev(g.elt, e, old) for e in self.gens(g.generators, env, old))

    def sp_count(self, n, env, old):
        g = n.args[0]
        return sum(1 for e in self.gens(g.generators, env, old) if self.ev(g.elt, e, old))


def is_old(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "old"
