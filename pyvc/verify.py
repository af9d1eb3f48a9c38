"""Verification of one function against its contract, and discharge of the obligations."""
import ast
import os
import subprocess
import tempfile
import time
import z3
from .types import *
from .engine import *
from .engine import DUMP, V, cvc5_unsat, State, Frame, Unsupported, Obl, I, TRUE, FALSE, And_, Or_, Not_, Imp_, If_
from .exprs import ExprMixin
from .stmts import StmtMixin, EXIT
from .calls import CallMixin
from .spec import SpecMixin
from .source import Program, FuncInfo


class Verifier(ExprMixin, StmtMixin, CallMixin, SpecMixin, Engine):
    def verify(self, c, case=None):
        """Generates the obligations of one function (in one of its cases)."""
        self.case = case
        fi = self.prog.func(c.qual)
        if fi is None:
            raise Unsupported("function %s not found" % c.qual)
        self.contract, self.fn = c, c.qual
        self.spec_module = fi.module
        self.axioms.append(self.alloc0 > 0)
        st = State(self, {}, {}, self.alloc0, [])
        binds = {}
        params = fi.params
        for i, p in enumerate(params):
            t = self.ctype(c, p)
            if t is None:
                if i == 0 and fi.cls is not None and not fi.static:
                    t = ref(c.cls or fi.cls.qual)
                else:
                    raise Unsupported("contract of %s gives no type for %s" % (c.qual, p))
            if prune(t) == NONE:
                binds[p] = self.none()
                continue
            x = z3.Const("in_" + p, sort_of(t))
            st.assume(self.typed(t, x, self.alloc0))
            binds[p] = V(t, x)
        self.entry_binds = binds
        for nm, e in c.requires + ([("case", case)] if case else []):
            facts, x = self.spec_eval(e, st, binds, None, fi.module)
            for f in facts:
                st.assume(f)
            st.assume(x)
        self.allowed = {}
        for m in c.modifies:
            for key, r, tags in self.parse_mod(m, binds, st, fi.module):
                self.allowed.setdefault(key, []).append((r, tags))
        isctor = fi.name == "__init__"
        self.entry = st.fork()
        st.env = {p: (v, TRUE) for p, v in binds.items()}
        self.entry_pc = list(st.pc)
        fr = Frame(fi, fi.module, fi.cls, 0)
        fr.specenv = {}
        self.call_stack.append(fi.qual)
        end = self.block(fi.node.body, st, fr)
        outs = list(fr.rets)
        if end is not None:
            outs.append((end, self.none()))
        rty = self.contract_ret(c)
        self.exit_pcs = []
        for k, (s, v) in enumerate(outs):
            line = 0
            try:
                v = self.coerce(v, rty, s)
            except Unsupported:
                if prune(rty) != NONE:
                    # a result of another type: allowed only where the path cannot be taken
                    self.obls.append(Obl(self.fn, "post", "result-type", line, "", list(s.pc), FALSE))
                    continue
                v = self.none()
            self.exit_pcs.append(list(s.pc))
            b = dict(binds)
            b["result"] = v
            for nm, props, e in c.ensures:
                nm2 = nm[5:] if nm.startswith("goal:") else nm
                facts, x = self.spec_eval(e, s, b, self.entry, fi.module)
                self.obls.append(Obl(self.fn, "post", nm2, line, e, list(s.pc) + list(facts), x, props))
            # frame
            r = z3.Int("r?")
            for key, t in s.heap.items():
                base = self.base_heap.get(key)
                if base is None:
                    base = self.base(key)
                if t.eq(base):
                    continue
                if key[0] == "g":
                    if key not in self.allowed:
                        self.obls.append(Obl(self.fn, "frame", str(key[1]), line, "", list(s.pc), t == base))
                    continue
                cond = [r < self.alloc0, r > 0]
                for q, tags in self.allowed.get(key, []):
                    if q is not None:
                        cond.append(r != q)
                    else:
                        cond.extend(self.ClassOf(r) != g for g in tags)
                self.obls.append(Obl(self.fn, "frame", "/".join(str(x) for x in key), line, "", list(s.pc),
                                     z3.ForAll([r], z3.Implies(z3.And(*cond), t[r] == base[r]))))
        self.nexits = len(outs)
        more = self.alog - self.alloc_classes(c)
        if more:
            self.obls.append(Obl(self.fn, "frame", "creates " + ",".join(sorted(more)), 0, "", list(self.entry_pc), FALSE))

    def declared_field(self, name):
        """A frame obligation matters if some contract can speak about the field."""
        f = name.split("/")[1]
        return any(f in d for d in self.schema.FIELDS.values())

    # ------------------------------------------------------------------ discharge
    def relevant(self, o):
        return o.pc

    def discharge(self, timeout=20000, props=None):
        for o in self.obls:
            if o.status is None:
                self.solve(o, timeout)

    def solve(self, o, timeout):
        t0 = time.time()
        if is_true(o.goal):
            o.status, o.backend = "proved", "trivial"
            return
        o.status, o.detail = "unknown", ""
        ver = z3.get_version_string()
        ext = array_eq(o.goal)
        # e-matching without and with array extensionality, the default configuration, then cvc5
        plans = [("z3-%s e-matching" % ver, {"smt.mbqi": False, "smt.auto_config": False, "smt.array.extensional": False}, timeout // 2)]
        terms = with_terms(o.goal)
        if terms:
            plans.append(("z3-%s e-matching terms" % ver, dict(plans[0][1]), timeout // 2))
        if ext:
            plans.append(("z3-%s e-matching+ext" % ver, {"smt.mbqi": False, "smt.auto_config": False}, timeout // 2))
        plans.append(("z3-%s e-matching all" % ver, {"smt.mbqi": False, "smt.auto_config": False, "smt.relevancy": 0}, timeout // 2))
        plans.append(("cvc5", None, timeout))
        plans.append(("z3-%s" % ver, {}, timeout))
        for name, opts, tmo in plans:
            if opts is None:
                if cvc5_unsat(s, tmo):
                    o.status, o.backend, o.secs = "proved", name, time.time() - t0
                    return
                continue
            s = z3.SimpleSolver()
            s.set("timeout", tmo)
            for k, v in opts.items():
                s.set(k, v)
            s.add(*self.axioms)
            s.add(*o.pc)
            s.add(*(terms if name.endswith("terms") else [z3.Not(o.goal)]))
            r = s.check()
            if r == z3.unsat:
                o.status, o.backend, o.secs = "proved", name, time.time() - t0
                return
            if r == z3.sat:
                o.status, o.backend, o.secs = "failed", name, time.time() - t0
                try:
                    o.detail = self.model_text(s.model())
                except Exception:
                    o.detail = ""
                return
            o.detail = s.reason_unknown()
            if DUMP:
                open("%s/o%d.smt2" % (DUMP, self.obls.index(o)), "w").write(s.to_smt2())
                print("   [dump o%d %s %.1fs] %s" % (self.obls.index(o), name, time.time() - t0, o.label()))
        o.secs = time.time() - t0

    def model_text(self, m):
        out = []
        for d in m.decls():
            if d.arity() == 0 and d.name().startswith("in_"):
                out.append("%s = %s" % (d.name()[3:], m[d]))
        for c, s in list(self.codes.items()):
            pass
        return "; ".join(out)[:800]

    def vacuity(self, timeout=3000):
        """Is the precondition or every exit provably unreachable?"""
        def unsat(pc):
            s = z3.SimpleSolver()
            s.set("timeout", timeout)
            s.set("smt.mbqi", False)
            s.set("smt.auto_config", False)
            s.set("smt.array.extensional", False)
            s.add(*self.axioms)
            s.add(*pc)
            return s.check() == z3.unsat
        if unsat(self.entry_pc):
            return "precondition unsatisfiable"
        if self.exit_pcs and all(unsat(p) for p in self.exit_pcs):
            return "no exit reachable"
        return None

