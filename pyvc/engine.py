"""Verification-condition generator for a Python subset (symbolic execution with state merging).

Every function is executed symbolically against its contract; calls to functions under contract
are replaced by the contract, calls to other repository functions are inlined from the current
source.  Everything the execution could do wrong (undefined names, missing attributes, None
dereferences, out-of-range subscripts, missing keys, division by zero, failed asserts) is an
obligation of its own.
"""
import ast
import fractions
import itertools
import os
import sys
import time
import z3

from .types import *
from .types import Val
from . import types as T
from .dsl import Contract, Hint
from .source import (FuncInfo, ClassInfo, ModuleInfo, ExtMod, Ext, Program)


DUMP = os.environ.get("PYVC_DUMP")


_SK = [0]


def with_terms(goal):
    """The negated goal with its outer universals opened, and the ground terms under the quantifiers that remain
    made known to the solver (as arguments of a predicate about which nothing is known).  Empty: nothing to add."""
    out, touch = [], {}

    def ground(t, depth):
        """Collects maximal ground selects under the quantifiers of t; says whether t itself is ground."""
        if z3.is_var(t):
            return False
        if z3.is_quantifier(t):
            ground(t.body(), depth + 1)
            return False
        if t.num_args() == 0:
            return True
        kids = [(c, ground(c, depth)) for c in t.children()]
        if all(g for _, g in kids):
            return True
        if depth:
            for c, g in kids:
                note(c, g)
        return False

    def note(c, g):
        if g and z3.is_app(c) and c.num_args() and c.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
            if c.decl().kind() == z3.Z3_OP_SELECT:
                touch[c.get_id()] = c
            else:
                for x in c.children():
                    note(x, True)

    def neg(g):
        if z3.is_quantifier(g) and g.is_forall():
            xs = []
            for i in range(g.num_vars()):
                _SK[0] += 1
                xs.append(z3.Const("sk!%d" % _SK[0], g.var_sort(i)))
            neg(z3.substitute_vars(g.body(), *reversed(xs)))
        elif z3.is_implies(g):
            out.append(g.arg(0))
            neg(g.arg(1))
        elif z3.is_or(g):
            for x in g.children():
                neg(x)
        elif z3.is_not(g) and z3.is_not(g.arg(0)):
            neg(g.arg(0).arg(0))
        elif z3.is_not(g) and z3.is_and(g.arg(0)):
            out.extend(g.arg(0).children())
        else:
            out.append(z3.Not(g))
            ground(g, 0)
    neg(goal)
    if not touch:
        return []
    return out + [z3.Function("Known_" + t.sort().name(), t.sort(), z3.BoolSort())(t) for t in touch.values()]


class Unsupported(Exception):
    """The construct is outside the verified subset."""


class V:
    __slots__ = ("ty", "t", "meta")

    def __init__(self, ty, t=None, meta=None):
        self.ty, self.t, self.meta = ty, t, meta

    def __repr__(self):
        return "V(%s,%s)" % (tkey(self.ty) if not isinstance(self.ty, tuple) or self.ty[0] != "py" else "py", self.t)


I = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def clean(name):
    return name.replace("|", "/")


def is_true(x):
    return z3.is_true(x)


def is_false(x):
    return z3.is_false(x)


def And_(*xs):
    ys = [x for x in xs if not is_true(x)]
    if any(is_false(y) for y in ys):
        return FALSE
    return TRUE if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)


def Or_(*xs):
    ys = [x for x in xs if not is_false(x)]
    if any(is_true(y) for y in ys):
        return TRUE
    return FALSE if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not_(x):
    return FALSE if is_true(x) else TRUE if is_false(x) else z3.Not(x)


def Imp_(a, b):
    return TRUE if is_false(a) or is_true(b) else b if is_true(a) else z3.Implies(a, b)


def If_(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class State:
    __slots__ = ("env", "heap", "alloc", "pc", "eng")

    def __init__(self, eng, env=None, heap=None, alloc=None, pc=None):
        self.eng = eng
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.alloc = alloc
        self.pc = pc if pc is not None else []

    def fork(self):
        return State(self.eng, dict(self.env), dict(self.heap), self.alloc, list(self.pc))

    def assume(self, c):
        if not is_true(c):
            self.pc.append(c)

    def h(self, key, srt=None):
        t = self.heap.get(key)
        if t is None:
            t = self.eng.base(key)
        if self.eng._hlog is not None:
            self.eng._hlog.add(key)
        return t


class Obl:
    """One proof obligation: pc |- goal."""
    __slots__ = ("fn", "kind", "name", "line", "src", "pc", "goal", "props", "status", "detail", "secs", "backend", "expect")

    def __init__(self, fn, kind, name, line, src, pc, goal, props=None, expect="valid"):
        self.fn, self.kind, self.name, self.line, self.src = fn, kind, name, line, src
        self.pc, self.goal, self.props = pc, goal, props
        self.status, self.detail, self.secs, self.backend, self.expect = None, "", 0.0, "", expect

    def label(self):
        return "%s/%s/%s" % (self.fn, self.kind, self.name)


class Frame:
    def __init__(self, fi, module, cls, depth, spec=False):
        self.fi, self.module, self.cls, self.depth = fi, module, cls, depth
        self.spec = spec
        self.rets, self.excs = [], []
        self.brks, self.conts = [], []
        self.trystack = []
        self.globals_decl = set()
        self.excsinks = []


_QN = itertools.count()
_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT}


def patok(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return True
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        return False
    if z3.is_app(t) and t.decl().kind() in _BADPAT:
        return False
    return all(patok(x, seen) for x in t.children())


def ForAll_(vs, body, patterns=()):
    """A quantifier with the given patterns when the solver can use them."""
    ps = [p for p in patterns if isinstance(p, z3.PatternRef) or patok(p)]
    qid = "q%d_%d" % (sys._getframe(1).f_lineno, next(_QN)) if DUMP else ""
    return z3.ForAll(vs, body, patterns=ps, qid=qid) if ps else z3.ForAll(vs, body, qid=qid)


_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD}


def triggers(ks, body):
    """Patterns for a quantifier over ks: the smallest selections and applications mentioning the variables
    (never the class of an object alone: every reference has one, and matching on it does not terminate)."""
    ids = [k.get_id() for k in ks]
    has, seen = {}, set()

    def vars_of(t):
        i = t.get_id()
        if i not in has:
            if i in ids:
                has[i] = frozenset([ids.index(i)])
            elif z3.is_var(t):
                has[i] = frozenset([-1])
            elif z3.is_quantifier(t):
                has[i] = vars_of(t.body()) | frozenset([-1])
            else:
                out = frozenset()
                for c in t.children():
                    out |= vars_of(c)
                has[i] = out
        return has[i]
    found = {}

    def noarith(t):
        if not vars_of(t):
            return True
        if z3.is_app(t) and t.decl().kind() in _ARITH:
            return False
        return all(noarith(c) for c in t.children())

    def walk(t):
        i = t.get_id()
        if i in seen:
            return False
        seen.add(i)
        if z3.is_quantifier(t):
            walk(t.body())
            return
        if not z3.is_app(t):
            return
        for c in t.children():
            walk(c)
        v = vars_of(t)
        if not v or -1 in v:
            return
        k = t.decl().kind()
        if (k == z3.Z3_OP_SELECT or (k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and t.decl().name() != "ClassOf")) and patok(t) and noarith(t):
            # minimal: no smaller candidate mentions the same variables
            if not any(vars_of(x) >= v and _inside(x, t) for x in found.values()):
                found[i] = t
    walk(body)
    # a sum up to the bound variable is no trigger if there is another one: each step of a sum makes the next
    plain = {i: t for i, t in found.items() if t.decl().name() not in ("SumI", "SumR")}
    if all(any(i in vars_of(t) for t in plain.values()) for i in range(len(ks))):
        found = plain
    if len(ks) == 1:
        return [t for t in found.values()][:8]
    full = [t for t in found.values() if len(vars_of(t)) == len(ks)]
    if full:
        return full[:6]
    per = [[t for t in found.values() if vars_of(t) == frozenset([i])] for i in range(len(ks))]
    if all(per):
        combos = list(itertools.islice(itertools.product(*[q[:3] for q in per]), 4))
        return [z3.MultiPattern(*c) for c in combos]
    return []


def _inside(x, t):
    if any(x.eq(c) for c in t.children()):
        return True
    return any(_inside(x, c) for c in t.children())


def array_eq(t, seen=None):
    """Does the formula compare whole arrays (list rows)?"""
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        return array_eq(t.body(), seen)
    if z3.is_eq(t) and z3.is_array(t.arg(0)):
        return True
    return any(array_eq(c, seen) for c in t.children())


def Forall(ks, body):
    """A quantified contract clause, with patterns chosen here."""
    return ForAll_(ks, body, patterns=triggers(ks, body))


def Exists(ks, body):
    ps = triggers(ks, body)
    return z3.Exists(ks, body, patterns=ps) if ps else z3.Exists(ks, body)


PYCMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
         ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}


def cvc5_unsat(solver, timeout):
    """cvc5's verdict on what the z3 solver holds."""
    import subprocess
    import tempfile
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    try:
        f.write("(set-logic ALL)\n" + solver.to_smt2())
        f.close()
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return p.stdout.strip().startswith("unsat")
    except (OSError, subprocess.SubprocessError):
        return False
    finally:
        os.unlink(f.name)


class Engine:
    def __init__(self, prog, schema, contracts, macros=None):
        self.prog, self.schema, self.contracts = prog, schema, contracts
        self.macros = macros or {}
        self.effort = 1
        self.case = None
        self._hlog, self._opaque_keys, self._opaque_hold = None, {}, {}
        self.strs, self.codes = {}, {}
        self.cnt = itertools.count()
        self.base_heap = {}
        self.axioms = []            # global axioms (type invariants of base heap, literals, spec functions)
        self.axiom_names = set()
        self.ranges = []            # [from, to) of the references that calls and loops allocated
        self.rows = []
        self.obls = []
        self.quiet = 0
        self.wlog = None
        self.fn = None
        self.used_contracts, self.inlined, self.trusted_used = set(), set(), set()
        self.dynfields = {}
        self.quick_time, self.quick_calls = 0.0, 0
        self.specfuns = {}
        self.classtags = {}
        self.call_stack = []
        self.notes = []
        self.keyty, self._ptypes, self._parsed = {}, {}, {}
        self.alog, self.allowed, self.joins = set(), None, None
        self.alloc0 = z3.Int("alloc0")
        self.contract, self.debug, self.entry, self.entry_binds, self.spec_module = None, False, None, None, None
        self._specnames = None
        self.trusted_ext = set()
        self.hint_use = []
        self.pow = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        self.ClassOf = z3.Function("ClassOf", z3.IntSort(), z3.IntSort())
        self.str2real = z3.Function("str2real", z3.IntSort(), z3.RealSort())
        self.strnum = z3.Function("strnum", z3.IntSort(), z3.BoolSort())
        self.strint = z3.Function("strint", z3.IntSort(), z3.BoolSort())
        self.strlen = z3.Function("strlen", z3.IntSort(), z3.IntSort())
        self.contains = z3.Function("contains", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.ufs = {}

    # ------------------------------------------------------------------ basics
    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]

    def fresh(self, name, srt):
        return z3.Const("%s!%d" % (clean(name), next(self.cnt)), srt)

    def global_axiom(self, name, ax):
        if name not in self.axiom_names:
            self.axiom_names.add(name)
            self.axioms.append(ax)

    def lit(self, s):
        if s not in self.strs:
            c = -(len(self.strs) + 10)
            self.strs[s] = c
            self.codes[c] = s
            t = I(c)
            if s == "":       # the only text of no length
                x = z3.Int("s?")
                self.global_axiom("strlen", z3.ForAll([x], z3.And(self.strlen(x) >= 0, z3.Implies(self.strlen(x) == 0, x == t)), patterns=[self.strlen(x)]))
            self.axioms.append(self.strlen(t) == len(s))
            try:
                fl = float(s)
                if fl == fl and abs(fl) != float("inf"):
                    self.axioms.append(z3.And(self.strnum(t), self.str2real(t) == z3.RealVal(str(fractions.Fraction(fl).limit_denominator(10**9)))))
                else:
                    self.axioms.append(self.strnum(t))
            except ValueError:
                self.axioms.append(z3.Not(self.strnum(t)))
            try:
                int(s)
                self.axioms.append(self.strint(t))
            except ValueError:
                self.axioms.append(z3.Not(self.strint(t)))
        return V(STR, I(self.strs[s]))

    def litval(self, v):
        """Python string of a literal STR value, or None."""
        if prune(v.ty) == STR and z3.is_int_value(v.t) and v.t.as_long() in self.codes:
            return self.codes[v.t.as_long()]
        return None

    def tag(self, name):
        if name not in self.classtags:
            self.classtags[name] = len(self.classtags) + 1
        return I(self.classtags[name])

    def reftags(self, ty):
        ty = prune(ty)
        if ty[0] == "opt":
            ty = prune(ty[1])
        if ty[0] == "ref":
            return [self.tag(c) for c in ty[1]]
        return [self.tag(tkey(ty))]

    # ------------------------------------------------------------------ heap
    def key_sort(self, key):
        IS = z3.IntSort()
        k = key[0]
        if k == "f":
            return z3.ArraySort(IS, sort_of(self.keyty[key]))
        if k == "len":
            return z3.ArraySort(IS, IS)
        if k == "elt":
            return z3.ArraySort(IS, z3.ArraySort(IS, sort_of(self.keyty[key])))
        if k == "dom":
            return z3.ArraySort(IS, z3.ArraySort(IS, z3.BoolSort()))
        if k == "dval":
            return z3.ArraySort(IS, z3.ArraySort(IS, sort_of(self.keyty[key])))
        if k == "rec":
            return z3.ArraySort(IS, sort_of(self.keyty[key]))
        if k == "g":
            return sort_of(self.keyty[key])
        raise Unsupported("heap key %r" % (key,))

    def fkey(self, name, ty):
        k = ("f", name, tkey(ty))
        self.keyty[k] = ty
        return k

    def ekey(self, ty):
        ty = prune(ty)
        if isinstance(ty, TVar) or not resolved(ty):
            raise Unsupported("element type of a list is not determined")
        k = ("elt", tkey(ty))
        self.keyty[k] = ty
        return k

    def dvkey(self, ty):
        ty = prune(ty)
        if not resolved(ty):
            raise Unsupported("value type of a dict is not determined")
        k = ("dval", tkey(ty))
        self.keyty[k] = ty
        return k

    def rkey(self, ty, i):
        k = ("rec", tkey(ty), i)
        self.keyty[k] = prune(ty)[1][i]
        return k

    def gkey(self, name, ty):
        k = ("g", name)
        self.keyty[k] = ty
        return k

    def base(self, key):
        if key not in self.base_heap:
            nm = clean("H0_" + "_".join(str(x) for x in key))
            t = z3.Const(nm, self.key_sort(key))
            self.base_heap[key] = t
            self.axioms.extend(self.key_axioms(key, t, self.alloc0))
            if key[0] in ("rec", "elt", "dval"):
                # nothing has been written here so far: well-typed also where callees and earlier rounds allocated
                for lo, a in self.ranges:
                    self.axioms.extend(self.key_axioms(key, t, a, lo))
        return self.base_heap[key]

    def typed(self, ty, t, alloc):
        """Type invariant of a stored value."""
        ty = prune(ty)
        if isinstance(ty, TVar):
            return TRUE
        nullable = False
        if ty[0] == "opt":
            inner = prune(ty[1])
            if not is_reflike(inner):
                if inner[0] == "int":
                    return z3.Or(Val.is_VNone(t), Val.is_VInt(t))
                if inner[0] == "float":
                    return z3.Or(Val.is_VNone(t), Val.is_VReal(t))
                if inner[0] == "str":
                    return z3.Or(Val.is_VNone(t), Val.is_VStr(t))
                if inner[0] == "bool":
                    return z3.Or(Val.is_VNone(t), Val.is_VBool(t))
                return TRUE
            ty, nullable = inner, True
        if is_reflike(ty):
            if not resolved(ty):
                c = z3.And(t > 0, t < alloc)
            else:
                tags = self.reftags(ty)
                c = z3.And(t > 0, t < alloc, z3.Or(*[self.ClassOf(t) == g for g in tags]) if len(tags) > 1 else self.ClassOf(t) == tags[0])
            return z3.Or(t == 0, c) if nullable else c
        return TRUE

    def key_axioms(self, key, t, alloc, lo=None):
        r, k = z3.Int("r?"), z3.Int("k?")
        rng = r < alloc if lo is None else z3.And(r >= lo, r < alloc)
        if key[0] == "len":
            return [ForAll_([r], t[r] >= 0, patterns=[t[r]])]
        if key[0] == "g":
            x = self.typed(self.keyty[key], t, alloc)
            return [] if is_true(x) else [x]
        if key[0] in ("f", "rec"):
            x = self.typed(self.keyty[key], t[r], alloc)
            return [] if is_true(x) else [ForAll_([r], z3.Implies(rng, x), patterns=[t[r]])]
        if key[0] in ("elt", "dval"):
            x = self.typed(self.keyty[key], t[r][k], alloc)
            return [] if is_true(x) else [ForAll_([r, k], z3.Implies(rng, x), patterns=[t[r][k]])]
        return []

    def hset(self, st, key, term, refs=None):
        st.heap[key] = term
        if self.wlog is not None:
            self.wlog.setdefault(key, []).append(refs)

    def hstore(self, st, key, r, v):
        self.hset(st, key, z3.Store(st.h(key), r, v), r)

    def alloc(self, st, ty):
        r = st.alloc
        st.alloc = z3.simplify(st.alloc + 1)
        if resolved(ty):
            st.assume(self.ClassOf(r) == self.reftags(ty)[0])
        else:
            st.assume(z3.And(*[self.ClassOf(r) != g for g in self.obj_tags()]))
        if prune(ty)[0] == "ref":
            self.alog.update(prune(ty)[1])
        return r

    def obj_tags(self, but=()):
        return [self.tag(q) for q in sorted(set(self.schema.CLASSES.values())) if q not in but]

    def no_objects(self, st, lo, hi, but=()):
        """Nothing but containers (and objects of the given classes) was created in [lo, hi)."""
        r = z3.Int("r?")
        st.assume(z3.ForAll([r], z3.Implies(z3.And(r >= lo, r < hi), z3.And(*[self.ClassOf(r) != g for g in self.obj_tags(but)])), patterns=[self.ClassOf(r)]))

    # list helpers
    def llen(self, st, v):
        return z3.Select(st.h(("len",)), v.t)

    def lget(self, st, v, i):
        return z3.Select(z3.Select(st.h(self.ekey(prune(v.ty)[1])), v.t), i)

    def lrow(self, st, v):
        return z3.Select(st.h(self.ekey(prune(v.ty)[1])), v.t)

    def new_list(self, st, ety, elems, kind="list"):
        ty = (kind, ety)
        r = self.alloc(st, ty)
        self.hstore(st, ("len",), r, I(len(elems)))
        if elems:
            k = self.ekey(ety)
            row = z3.Select(st.h(k), r)
            for i, e in enumerate(elems):
                row = z3.Store(row, I(i), self.coerce(e, ety, st).t)
            self.hstore(st, k, r, row)
        return V(ty, r)

    def new_list_fn(self, st, ety, n, fn, kind="list", extra_pats=None):
        """Fresh list of length n with elt[k] = fn(k); fn maps a z3 Int to a term."""
        ty = (kind, ety)
        r = self.alloc(st, ty)
        self.hstore(st, ("len",), r, n)
        k = self.ekey(ety)
        row = self.fresh("row", z3.ArraySort(z3.IntSort(), sort_of(ety)))
        j = z3.Int("j?%d" % next(self.cnt))
        x = fn(j)
        back = [x] if z3.is_select(x) and x.arg(1).eq(j) and x.arg(0).decl().name() == "dkeys" else []
        st.assume(ForAll_([j], z3.Implies(z3.And(j >= 0, j < n), row[j] == x), patterns=[row[j]] + back))
        self.hstore(st, k, r, row)
        return V(ty, r)

    # ------------------------------------------------------------------ obligations
    def ob(self, st, cond, kind, node=None, detail="", exc=None, fr=None):
        """The execution goes wrong unless cond."""
        if is_true(cond):
            return
        cond = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
        if is_true(cond):
            return
        if fr is not None and fr.spec:
            return
        if exc and fr is not None:
            for f in fr.excsinks[::-1]:
                if f.accepts(exc):
                    s2 = st.fork()
                    s2.assume(Not_(cond))
                    f.add(s2, exc)
                    st.assume(cond)
                    return
        if not self.quiet:
            line = getattr(node, "lineno", 0)
            try:
                src = ast.unparse(node) if node is not None else ""
            except Exception:
                src = ""
            self.obls.append(Obl(self.fn, kind, "%s%s" % (src[:70], (" " + detail) if detail else ""), line, src, list(st.pc), cond))
        st.assume(cond)

    def dead(self, st, kind, node, detail="", exc=None, fr=None):
        self.ob(st, FALSE, kind, node, detail, exc, fr)
        return V(OPAQUE, self.fresh("dead", z3.IntSort()))

    # ------------------------------------------------------------------ values
    def num(self, x):
        if isinstance(x, bool):
            return V(BOOL, z3.BoolVal(x))
        if isinstance(x, int):
            return V(INT, I(x))
        return V(FLOAT, z3.RealVal(str(fractions.Fraction(str(x)))))

    NONEV = None

    def none(self):
        return V(NONE, I(0))

    def box(self, v):
        ty = prune(v.ty)
        k = ty[0]
        if k == "val":
            return v.t
        if k == "int":
            return Val.VInt(v.t)
        if k == "float":
            return Val.VReal(v.t)
        if k == "bool":
            return Val.VBool(v.t)
        if k == "str":
            return Val.VStr(v.t)
        if k == "none":
            return Val.VNone
        if is_reflike(ty):
            return Val.VRef(v.t)
        if k == "opt":
            if is_reflike(ty[1]):
                return z3.If(v.t == 0, Val.VNone, Val.VRef(v.t))
            return v.t
        if k == "opaque":
            return self.uf("boxop", z3.IntSort(), Val)(v.t)
        raise Unsupported("box %s" % tkey(ty))

    def val_real(self, t):
        return z3.If(Val.is_VInt(t), z3.ToReal(Val.vint(t)), z3.If(Val.is_VReal(t), Val.vreal(t),
               z3.If(Val.is_VBool(t), z3.If(Val.vbool(t), z3.RealVal(1), z3.RealVal(0)), self.str2real(Val.vstr(t)))))

    def val_isnum(self, t):
        return z3.Or(Val.is_VInt(t), Val.is_VReal(t), Val.is_VBool(t))

    def trunc(self, r):
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))

    def coerce(self, v, ty, st, node=None, fr=None, spec=False):
        a, b = prune(v.ty), prune(ty)
        if isinstance(b, TVar):
            b.b = a
            return v
        if isinstance(a, TVar):
            a.b = b
            return V(b, v.t, v.meta)
        if same(a, b):
            return v
        ka, kb = a[0], b[0]
        if kb == "opaque":
            return V(OPAQUE, self.fresh("op", z3.IntSort()))
        if ka == "opaque":
            t = self.fresh("unop", sort_of(b))
            st.assume(self.typed(b, t, st.alloc))
            return V(b, t)
        if ka == "py" or kb == "py":
            raise Unsupported("cannot use %r as a value" % (v.meta,))
        if kb == "val":
            return V(VAL, self.box(v))
        if ka == "val":
            return self.unbox(v, b, st, node, fr)
        if kb == "opt":
            inner = prune(b[1])
            if ka == "none":
                return V(b, I(0) if is_reflike(inner) else Val.VNone)
            if ka == "opt":
                if is_reflike(inner) and is_reflike(a[1]):
                    unify(a[1], inner)
                    return V(b, v.t)
                return V(b, v.t)
            c = self.coerce(v, inner, st, node, fr)
            return V(b, c.t if is_reflike(inner) else self.box(c))
        if ka == "opt":
            inner = prune(a[1])
            if is_reflike(inner):
                self.ob(st, v.t != 0, "not-none", node, exc="TypeError", fr=fr)
                return self.coerce(V(inner, v.t), b, st, node, fr)
            self.ob(st, Not_(Val.is_VNone(v.t)), "not-none", node, exc="TypeError", fr=fr)
            return self.coerce(self.unbox(V(VAL, v.t), inner, st, node, fr, quiet=True), b, st, node, fr)
        if ka in ("bool", "int") and kb == "float":
            t = z3.If(v.t, I(1), I(0)) if ka == "bool" else v.t
            return V(FLOAT, z3.simplify(z3.ToReal(t)) if z3.is_int_value(t) else z3.ToReal(t))
        if ka == "bool" and kb == "int":
            return V(INT, z3.If(v.t, I(1), I(0)))
        if ka == "ref" and kb == "ref":
            if set(a[1]) <= set(b[1]):
                return V(b, v.t)
            self.ob(st, z3.Or(*[self.ClassOf(v.t) == self.tag(c) for c in b[1]]), "type", node, fr=fr)
            return V(b, v.t)
        if ka in ("list", "arr") and kb in ("list", "arr"):
            ea, eb = prune(a[1]), prune(b[1])
            if isinstance(ea, TVar):
                unify(ea, eb)
                if resolved((ka, ea)):
                    st.assume(self.ClassOf(v.t) == self.reftags((ka, ea))[0])
                return V(b if kb == ka else (ka, eb), v.t, v.meta)
            if isinstance(eb, TVar):
                unify(ea, eb)
                return V((ka, ea), v.t, v.meta)
            if same(ea, eb):
                return V((ka, ea), v.t, v.meta)
            # element-wise conversion of a fresh list
            n = self.llen(st, v)
            old = self.lrow(st, v)
            conv = lambda j: self.coerce(V(ea, old[j]), eb, st, node, fr).t
            if ka == "list" and not (v.meta and v.meta.get("fresh")):
                raise Unsupported("list[%s] used as list[%s]" % (tkey(ea), tkey(eb)))
            if v.meta and "elems" in v.meta:
                return self.new_list(st, eb, v.meta["elems"], kb)
            return self.new_list_fn(st, eb, n, conv, kb)
        if ka == "dict" and kb == "dict":
            unify(a, b)
            return V(b, v.t)
        if ka in ("rec", "tuple", "list") and kb in ("rec", "list"):
            el = v.meta.get("elems") if isinstance(v.meta, dict) else (v.t if ka == "tuple" else None)
            if el is not None:
                if kb == "rec" and len(el) == len(b[1]):
                    return self.new_rec(st, b, el, node, fr)
                if kb == "list":
                    return self.new_list(st, b[1], el)
        if ka == "tuple" and kb == "tuple" and len(a[1]) == len(b[1]):
            return V(b, [self.coerce(x, t, st, node, fr) for x, t in zip(v.t, b[1])])
        if ka == "float" and kb == "int":
            raise Unsupported("float used as int")
        raise Unsupported("cannot use %s as %s" % (tkey(a), tkey(b)))

    def new_rec(self, st, ty, elems, node=None, fr=None):
        r = self.alloc(st, ty)
        for i, (e, t) in enumerate(zip(elems, ty[1])):
            self.hstore(st, self.rkey(ty, i), r, self.coerce(e, t, st, node, fr).t)
        self.hstore(st, ("len",), r, I(len(elems)))
        return V(ty, r, {"elems": elems, "fresh": True})

    def unbox(self, v, ty, st, node=None, fr=None, quiet=False):
        ty = prune(ty)
        t, k = v.t, ty[0]
        def ob(c):
            if not quiet:
                self.ob(st, c, "value-type", node, exc="TypeError", fr=fr)
        if k == "int":
            ob(z3.Or(Val.is_VInt(t), Val.is_VBool(t)))
            return V(INT, z3.If(Val.is_VBool(t), z3.If(Val.vbool(t), I(1), I(0)), Val.vint(t)))
        if k == "float":
            ob(self.val_isnum(t))
            return V(FLOAT, self.val_real(t))
        if k == "bool":
            ob(Val.is_VBool(t))
            return V(BOOL, Val.vbool(t))
        if k == "str":
            ob(Val.is_VStr(t))
            return V(STR, Val.vstr(t))
        if k == "opt":
            if is_reflike(ty[1]):
                ob(z3.Or(Val.is_VNone(t), Val.is_VRef(t)))
                st.assume(z3.Implies(Val.is_VRef(t), Val.vref(t) > 0))
                r = z3.If(Val.is_VNone(t), I(0), Val.vref(t))
                st.assume(self.typed(ty, r, st.alloc))
                return V(ty, r)
            return V(ty, t)
        if is_reflike(ty):
            ob(Val.is_VRef(t))
            st.assume(self.typed(ty, Val.vref(t), st.alloc))
            return V(ty, Val.vref(t))
        if k == "opaque":
            return V(OPAQUE, self.fresh("op", z3.IntSort()))
        raise Unsupported("unbox to %s" % tkey(ty))

    def truth(self, v, st):
        ty = prune(v.ty)
        k = ty[0] if not isinstance(ty, TVar) else "?"
        if k == "bool":
            return v.t
        if k == "int":
            return v.t != 0
        if k == "float":
            return v.t != 0
        if k == "str":
            return self.strlen(v.t) > 0
        if k == "none":
            return FALSE
        if k == "ref":
            return TRUE
        if k in ("list", "arr"):
            return self.llen(st, v) > 0
        if k == "rec":
            return TRUE
        if k == "tuple":
            return z3.BoolVal(len(v.t) > 0)
        if k == "opt":
            inner = prune(ty[1])
            if is_reflike(inner):
                if inner[0] in ("list", "arr"):
                    return And_(v.t != 0, self.llen(st, V(inner, v.t)) > 0)
                return v.t != 0
            return self.val_truth(v.t)
        if k == "val":
            return self.val_truth(v.t)
        if k == "opaque":
            return self.fresh("truth", z3.BoolSort())
        if k == "py":
            return TRUE
        if k == "dict":
            kk = z3.Int("k?")
            return z3.Exists([kk], z3.Select(z3.Select(st.h(("dom",)), v.t), kk))
        raise Unsupported("truth of %s" % tkey(ty))

    def val_truth(self, t):
        return z3.And(Not_(Val.is_VNone(t)), z3.Implies(Val.is_VInt(t), Val.vint(t) != 0),
                      z3.Implies(Val.is_VReal(t), Val.vreal(t) != 0), z3.Implies(Val.is_VBool(t), Val.vbool(t)),
                      z3.Implies(Val.is_VStr(t), self.strlen(Val.vstr(t)) > 0),
                      z3.Implies(Val.is_VRef(t), self.uf("reftruth", z3.IntSort(), z3.BoolSort())(Val.vref(t))))

    # ------------------------------------------------------------------ merging
    def merge_val(self, c, a, b, sa, sb):
        """If c then a (in state sa) else b (in state sb)."""
        ta, tb = prune(a.ty), prune(b.ty)
        if a is b:
            return a
        if not isinstance(ta, TVar) and ta[0] == "py" or not isinstance(tb, TVar) and tb[0] == "py":
            if ta == tb and a.meta == b.meta:
                return a
            return V(OPAQUE, I(0), "poison")
        try:
            ty = unify(ta, tb)
        except TypeErr:
            # a fresh literal may still be converted
            try:
                if isinstance(b.meta, dict) and b.meta.get("elems") is not None:
                    b2 = self.coerce(b, ta, sb)
                    return self.merge_val(c, a, b2, sa, sb)
                if isinstance(a.meta, dict) and a.meta.get("elems") is not None:
                    a2 = self.coerce(a, tb, sa)
                    return self.merge_val(c, a2, b, sa, sb)
            except (Unsupported, TypeErr):
                pass
            return V(OPAQUE, I(0), "poison")
        ty = prune(ty)
        if not isinstance(ty, TVar) and ty[0] == "tuple":
            return V(ty, [self.merge_val(c, x, y, sa, sb) for x, y in zip(a.t, b.t)])
        try:
            a2, b2 = self.coerce(a, ty, sa), self.coerce(b, ty, sb)
        except Unsupported:
            return V(OPAQUE, I(0), "poison")
        ty = prune(a2.ty) if isinstance(ty, TVar) else ty
        if a2.t.eq(b2.t):
            return V(ty, a2.t, a2.meta if a2.meta == b2.meta else None)
        t = If_(c, a2.t, b2.t)
        return V(ty, self.named("v", t) if t.sort() in (z3.IntSort(), z3.RealSort()) else t)

    def named(self, name, t):
        """A name for a joined value (keeps terms small and usable as quantifier patterns)."""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and self.joins is not None:
            x = self.fresh(name, t.sort())
            self.joins.append(x == t)
            return x
        return t

    def merge2(self, c, s1, s2, nbase, extra=None):
        """Both states extend a common pc prefix of length nbase; c selects s1.
        extra: list of (V1, V2) pairs to merge along."""
        out = State(self, {}, {}, None, [])
        heap, joins = {}, []
        self.joins = joins
        vals = [self.merge_val(c, a, b, s1, s2) for a, b in (extra or [])]
        env = {}
        for n in list(s1.env) + [n for n in s2.env if n not in s1.env]:
            a, b = s1.env.get(n), s2.env.get(n)
            if a is not None and b is not None:
                va, da = a
                vb, db = b
                env[n] = (self.merge_val(c, va, vb, s1, s2), da if da.eq(db) else z3.simplify(If_(c, da, db)))
            elif a is not None:
                env[n] = (a[0], z3.simplify(And_(c, a[1])))
            else:
                env[n] = (b[0], z3.simplify(And_(Not_(c), b[1])))
        for k in sorted(set(s1.heap) | set(s2.heap), key=str):
            a, b = s1.h(k), s2.h(k)
            if a.eq(b) or is_true(c) or is_false(c) or k[0] == "g":
                heap[k] = If_(c, a, b)
            else:
                # a name for the joined heap keeps terms small and usable as quantifier patterns
                t = self.fresh("J_" + str(k[1]) if len(k) > 1 else "J_" + k[0], a.sort())
                joins.append(t == z3.If(c, a, b))
                heap[k] = t
        out.env, out.heap = env, heap
        out.alloc = self.named("alloc", If_(c, s1.alloc, s2.alloc))
        pc = list(s1.pc[:nbase])
        for f in s1.pc[nbase:]:
            pc.append(Imp_(c, f))
        nc = Not_(c)
        for f in s2.pc[nbase:]:
            pc.append(Imp_(nc, f))
        out.pc = pc + joins
        self.joins = None
        return out, vals

    def common_prefix(self, a, b):
        n = 0
        for x, y in zip(a, b):
            if x is y or x.eq(y):
                n += 1
            else:
                break
        return n

    def merge_many(self, items):
        """items: list of (state, [V...]); merged with fresh selectors."""
        cur, vals = items[0]
        for st, vs in items[1:]:
            sel = self.fresh("sel", z3.BoolSort())
            n = self.common_prefix(cur.pc, st.pc)
            cur, vals = self.merge2(sel, cur, st, n, list(zip(vals, vs)))
        return cur, vals

    # ------------------------------------------------------------------ quick solver (Houdini)
    def quick(self, pc, goal, timeout=1500, strong=False):
        if is_true(goal):
            return True
        t0 = time.time()
        r = z3.unknown
        if self.effort == 0:
            timeout, strong = min(timeout, 1500), False
        for ext, rel, tmo in [(False, 2, timeout), (None, 2, timeout)] + ([(True, 2, timeout)] if array_eq(goal) else []) + ([(False, 0, 2000)] if strong else []):
            terms = ()
            if ext is None:
                ext, terms = False, with_terms(goal)
                if not terms:
                    continue
            s = z3.SimpleSolver()
            s.set("timeout", tmo)
            s.set("smt.mbqi", False)
            s.set("smt.auto_config", False)
            s.set("smt.relevancy", rel)
            s.set("smt.array.extensional", ext)
            s.add(*self.axioms)
            s.add(*pc)
            s.add(*(terms or [z3.Not(goal)]))
            r = s.check()
            if r == z3.unsat:
                break
        # z3 can get lost where cvc5 sees it at once
        if r == z3.unknown and self.effort and time.time() - t0 > 0.3 and cvc5_unsat(s, 3000 if strong else 400):
            r = z3.unsat
        self.quick_time += time.time() - t0
        self.quick_calls += 1
        if DUMP and r != z3.unsat:
            open("%s/q%d.smt2" % (DUMP, self.quick_calls), "w").write(s.to_smt2())
            print("   [dump %d %s %.1fs] %s" % (self.quick_calls, r, time.time() - t0, str(goal)[:150].replace("\n", " ")))
        return r == z3.unsat
