"""Specification language: Python expressions with old(), pre(), all/any over sequences and objects."""
import ast
import z3
from .types import *
from .types import Val
from .engine import *
from .engine import ForAll_, V, State, Frame, Unsupported, I, TRUE, FALSE, And_, Or_, Not_, Imp_, If_
from .exprs import consts_of
from .stmts import Iter
from .source import FuncInfo, ClassInfo, ModuleInfo, ExtMod, Ext

SPEC = {"old", "pre", "all", "any", "implies", "iff", "objects", "total", "count", "fresh", "is_a", "has_setting", "int_of", "eqv",
        "allocated", "indom", "truth", "numeric", "parses", "same_dict", "yaml", "has_yaml", "csv_rows", "csv_len", "csv_cell", "same_row", "ite", "is_str", "is_num", "is_int", "at_place", "pw", "distinct", "seen"}


class SpecMixin:
    def spec_names(self):
        if self._specnames is None:
            self._specnames = SPEC | set(self.macros)
        return self._specnames

    def spec_class(self, x):
        q = self.schema.CLASSES.get(x)
        if q is None:
            if x in ("math", "np", "os", "random"):
                return ExtMod({"np": "numpy"}.get(x, x))
            return None
        return self.prog.cls(q)

    def spec_frame(self, binds, old, module, pre):
        f = Frame(None, module or self.spec_module, None, 0, spec=True)
        f.specenv = binds
        f.old = old if old is not None else self.entry
        f.pre = pre
        return f

    def spec_eval(self, cond, st, binds, old, module, pre=None):
        if cond not in self._parsed:
            self._parsed[cond] = ast.parse(cond.strip().replace("\n", " "), mode="eval").body
        return self.spec_eval_ast(self._parsed[cond], st, binds, old, module, pre=pre)

    def spec_eval_ast(self, tree, st, binds, old, module, pre=None):
        b = dict(self.entry_binds or {}) if old is None else {}
        b.update(binds)
        fr = self.spec_frame(b, old, module, pre)
        s = State(self, {}, dict(st.heap), st.alloc, [])
        v = self.ev(tree, s, fr)
        return s.pc, self.truth(v, s)

    def spec_value(self, tree, st, binds, old, module):
        b = dict(self.entry_binds or {}) if old is None else {}
        b.update(binds)
        fr = self.spec_frame(b, old, module, None)
        s = State(self, {}, dict(st.heap), st.alloc, [])
        return self.ev(tree, s, fr)

    # ------------------------------------------------------------------
    def spec_call(self, name, n, st, fr):
        if name in self.macros:
            params, body = self.macros[name][:2]
            vals = [self.ev(a, st, fr) for a in n.args]
            if len(self.macros[name]) > 2:
                return self.opaque(name, params, body, self.macros[name][2], vals, st, fr)
            b = dict(zip(params, vals))
            f2 = self.spec_frame(b, fr.old, fr.module, fr.pre)
            f2.specenv = b
            if body not in self._parsed:
                self._parsed[body] = ast.parse(body.strip().replace("\n", " "), mode="eval").body
            return self.ev(self._parsed[body], st, f2)
        if name in ("old", "pre"):
            s0 = fr.old if name == "old" else fr.pre
            if s0 is None:
                raise Unsupported("%s() without such a state" % name)
            s2 = State(self, {}, dict(s0.heap), s0.alloc, [])
            f2 = Frame(None, fr.module, None, 0, spec=True)
            f2.specenv, f2.old, f2.pre = fr.specenv, fr.old, fr.pre
            v = self.ev(n.args[0], s2, f2)
            st.pc.extend(s2.pc)
            return v
        if name in ("all", "any"):
            return self.spec_quant(name, n.args[0], st, fr)
        if name in ("total", "count"):
            return self.spec_total(name, n.args[0], st, fr)
        a = [self.ev(x, st, fr) for x in n.args] if name not in ("is_a",) else [self.ev(n.args[0], st, fr)]
        if name == "implies":
            return V(BOOL, Imp_(self.truth(a[0], st), self.truth(a[1], st)))
        if name == "iff":
            return V(BOOL, self.truth(a[0], st) == self.truth(a[1], st))
        if name == "ite":
            return self.merge_val(self.truth(a[0], st), a[1], a[2], st, st)
        if name == "truth":
            return V(BOOL, self.truth(a[0], st))
        if name == "numeric":
            return V(FLOAT, self.val_real(a[0].t)) if prune(a[0].ty) == VAL else a[0]
        if name == "parses":
            # float(x) does not fail
            t = a[0].t
            if prune(a[0].ty) == STR:
                return V(BOOL, self.strnum(t))
            return V(BOOL, z3.Or(self.val_isnum(t), z3.And(Val.is_VStr(t), self.strnum(Val.vstr(t)))))
        if name == "is_str":
            return V(BOOL, Val.is_VStr(a[0].t))
        if name == "is_int":
            return V(BOOL, z3.Or(Val.is_VInt(a[0].t), Val.is_VBool(a[0].t)) if prune(a[0].ty)[0] == "val" else TRUE if prune(a[0].ty)[0] in ("int", "bool") else FALSE)
        if name == "is_num":
            return V(BOOL, self.val_isnum(a[0].t))
        if name == "fresh":
            return V(BOOL, a[0].t >= fr.old.alloc)
        if name == "allocated":
            return V(BOOL, z3.And(a[0].t > 0, a[0].t < st.alloc))
        if name == "indom":
            return V(BOOL, self.contains_(a[1], a[0], st, fr, n))
        if name == "eqv":
            return V(BOOL, self.eq(a[0], a[1], st, fr, n))
        if name == "same_row":
            # same_row(xs, old(ys)): the elements now against the elements then
            sts = [{"old": fr.old, "pre": fr.pre}.get(x.func.id, st) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) else st for x in n.args]
            return V(BOOL, z3.And(self.llen(sts[0], a[0]) == self.llen(sts[1], a[1]), self.lrow(sts[0], a[0]) == self.lrow(sts[1], a[1])))
        if name == "same_dict":
            # same_dict(d, old(d)): the entries now against the entries then, but for the key named
            sts = [{"old": fr.old, "pre": fr.pre}.get(x.func.id, st) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) else st for x in n.args[:2]]
            dv = [self.dvkey(prune(prune(x.ty)[2])) for x in a[:2]]
            D = [z3.Select(s.h(("dom",)), x.t) for s, x in zip(sts, a)]
            W = [z3.Select(s.h(k), x.t) for s, x, k in zip(sts, a, dv)]
            if len(a) == 2:
                return V(BOOL, z3.And(D[0] == D[1], W[0] == W[1]))
            kt = self.dict_key(a[0], a[2], st, n, fr)
            k_ = z3.Int("key?%d" % next(self.cnt))
            return V(BOOL, ForAll_([k_], z3.Implies(k_ != kt, z3.And(D[0][k_] == D[1][k_], W[0][k_] == W[1][k_])), patterns=[D[0][k_], W[0][k_], D[1][k_], W[1][k_]]))
        if name == "is_a":
            cls = [x.id for x in n.args[1:]]
            al = self.schema.ALIASES.get(fr.module.name, {}) if fr.module else {}
            return V(BOOL, Or_(*[self.ClassOf(a[0].t) == self.tag(al.get(c) or self.schema.CLASSES[c]) for c in cls]))
        if name in ("csv_rows", "csv_len", "csv_cell"):
            # what a CSV file holds: how many rows, how many cells in a row, a cell
            u = self.csv_ufs()[("csv_rows", "csv_len", "csv_cell").index(name)]
            return V(STR if name == "csv_cell" else INT, u(self.uf("file_at", z3.IntSort(), z3.IntSort())(a[0].t), *[self.to_int(x, st, n, fr).t for x in a[1:]]))
        if name in ("yaml", "has_yaml"):
            # yaml(file, "section", ..., "key"): the entry of a YAML file; has_yaml: is there one (all sections given and not empty)
            cur = self.yaml_doc(self.uf("file_at", z3.IntSort(), z3.IntSort())(a[0].t))
            have = TRUE
            for k in a[1:]:
                have = And_(have, Not_(Val.is_VNone(cur)))
                d = V(DOCDICT, Val.vref(cur))
                kt = self.dict_key(d, k, st, n, fr)
                have = And_(have, z3.Select(z3.Select(st.h(("dom",)), d.t), kt))
                cur = self.dict_val(d, kt, k, st).t
            return V(BOOL, have) if name == "has_yaml" else V(VAL, cur)
        if name == "has_setting":
            d, k = self.litval(a[0]), self.litval(a[1])
            c = self.ss_cell(d, k)
            if c is None:
                return V(BOOL, FALSE)
            return V(BOOL, st.h(self.gkey("SSP.%s.%s" % (d, k), BOOL)) if c[1] else TRUE)
        if name == "at_place":
            # at_place(L, xs, n): how many of the first n people in xs are at L
            L, xs, nn = a
            lk = self.fkey("location", self.ptype("Location|Link?", self.schema.ALIASES.get(fr.module.name) if fr.module else None))
            C, loc, row = self.atplace(), st.h(lk), self.lrow(st, xs)

            def at(loc, row, m, depth=0):
                if depth < 3 and z3.is_app_of(m, z3.Z3_OP_ITE):
                    cnd = m.arg(0)
                    pick = lambda x, i: x.arg(i) if z3.is_app_of(x, z3.Z3_OP_ITE) and x.arg(0).eq(cnd) else x
                    return z3.If(cnd, at(pick(loc, 1), pick(row, 1), m.arg(1), depth + 1), at(pick(loc, 2), pick(row, 2), m.arg(2), depth + 1))
                t = C(loc, row, m, L.t)
                st.assume(z3.Implies(m <= 0, t == 0))
                m1 = z3.simplify(m - 1)
                if not (z3.is_const(m) and not z3.is_int_value(m)):
                    st.assume(z3.Implies(m >= 1, t == C(loc, row, m1, L.t) + z3.If(loc[row[m1]] == L.t, I(1), I(0))))
                return t
            sim = lambda x: z3.simplify(x, expand_select_ite=True)
            m = sim(nn.t)
            if z3.is_app_of(m, z3.Z3_OP_ITE):
                loc, row = sim(loc), sim(row)
            return V(INT, at(loc, row, m))
        if name == "seen":
            # (loop invariants over a dict) the key has had its turn
            _, place, kk = fr.specenv["_place"].meta
            return V(BOOL, place(a[0].t) < kk)
        if name == "distinct":
            # no element of the list occurs twice
            xs = a[0]
            row, ln = self.lrow(st, xs), self.llen(st, xs)
            D = self.uf("Distinct", row.sort(), z3.IntSort(), z3.BoolSort())
            P = self.uf("PosIn", row.sort(), z3.IntSort(), row.sort().range(), z3.IntSort())
            r_, n_, i_, j_ = z3.Const("row?", row.sort()), z3.Int("n?"), z3.Int("i?"), z3.Int("j?")
            self.global_axiom("Distinct %s" % row.sort(), ForAll_([r_, n_, j_], z3.Implies(z3.And(D(r_, n_), j_ >= 0, j_ < n_), P(r_, n_, r_[j_]) == j_),
                              patterns=[z3.MultiPattern(D(r_, n_), r_[j_])]))
            self.global_axiom("Distinct2 %s" % row.sort(), ForAll_([r_, n_], z3.Or(D(r_, n_), z3.Exists([i_, j_], z3.And(i_ >= 0, i_ < j_, j_ < n_, r_[i_] == r_[j_]))),
                              patterns=[D(r_, n_)]))
            return V(BOOL, D(row, ln))
        if name == "pw":
            x, y = self.to_float(a[0], st, fr, n), self.to_float(a[1], st, fr, n)
            return self.power(x, y, st, fr, n)
        if name == "int_of":
            x = a[0]
            if prune(x.ty) == STR:        # what int() makes of it: the same function of the text as in the code
                return V(INT, z3.ToInt(self.str2real(x.t)))
            if prune(x.ty)[0] not in ("int", "float", "bool"):
                x = self.to_float(x, st, fr, n)
            return V(INT, self.trunc(x.t) if prune(x.ty) == FLOAT else self.to_int(x, st, n, fr).t)
        raise Unsupported("spec function %s" % name)

    def but_new(self, t, alloc):
        """A heap row without what was stored at references allocated since."""
        while z3.is_app_of(t, z3.Z3_OP_STORE):
            d = z3.simplify(t.arg(1) - alloc)
            if not (z3.is_int_value(d) and d.as_long() >= 0):
                break
            t = t.arg(0)
        return t

    def opaque(self, name, params, body, intro, vals, st, fr):
        """A predicate known only by its introduction rule: what is proved holds for the least such predicate, the body."""
        keys = self._opaque_keys.get(name)
        if keys is None:
            log = self._hlog = set()
            s2 = State(self, {}, dict(st.heap), st.alloc, [])
            f2 = self.spec_frame(dict(zip(params, vals)), fr.old, fr.module, fr.pre)
            if body not in self._parsed:
                self._parsed[body] = ast.parse(body.strip().replace("\n", " "), mode="eval").body
            self.ev(self._parsed[body], s2, f2)
            self._hlog = None
            keys = self._opaque_keys[name] = sorted(log, key=str)
        hs = [st.h(k) for k in keys]
        args = [v.t for v in vals]
        F = self.uf("Op_" + name, z3.IntSort(), *[a.sort() for a in args], z3.BoolSort())
        seen = self._opaque_hold.setdefault(name, [])
        for ver, (hs1, st1) in enumerate(seen):
            if st1.alloc.eq(st.alloc) and all(x.eq(y) for x, y in zip(hs1, hs)):
                return V(BOOL, F(I(ver), *args))
            more = z3.simplify(st.alloc - st1.alloc)
            if z3.is_int_value(more) and more.as_long() > 0 and all(x.eq(self.but_new(y, st1.alloc) if k == ("len",) else y) for k, x, y in zip(keys, hs1, hs)):
                # nothing but new lists in between
                return V(BOOL, F(I(ver), *args))
        ver = len(seen)
        now = State(self, {}, dict(st.heap), st.alloc, [])
        seen.append((hs, now))
        rule, keep = intro

        def fact(e, old):
            f2 = Frame(None, fr.module, None, 0, spec=True)
            f2.specenv, f2.old, f2.pre = {}, old, old
            if e not in self._parsed:
                self._parsed[e] = ast.parse(e.strip().replace("\n", " "), mode="eval").body
            s2 = State(self, {}, dict(now.heap), now.alloc, [])
            x = self.truth(self.ev(self._parsed[e], s2, f2), s2)
            return s2.pc, x
        pc, x = fact(rule, fr.old)
        self.axioms.extend(pc + [x])
        xs = [z3.Const("p%d?" % i, a.sort()) for i, a in enumerate(args)]
        for v1, (hs1, st1) in enumerate(seen[:-1]):
            pc, x = fact(keep, st1)
            self.axioms.append(z3.Implies(z3.And(st1.alloc <= now.alloc, *pc, x),
                                          ForAll_(xs, z3.Implies(F(I(v1), *xs), F(I(ver), *xs)), patterns=[F(I(ver), *xs)])))
        return V(BOOL, F(I(ver), *args))

    def state_of(self, node, st, fr):
        """The state whose elements `for x in old(xs)` ranges over: those then."""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            return {"old": fr.old, "pre": fr.pre}.get(node.func.id, st)
        return st

    def spec_iter(self, node, st, fr):
        """-> (bound variable, element V, guard, pattern)"""
        k = self.fresh("q", z3.IntSort())
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "objects":
            tys = []
            al = self.schema.ALIASES.get(fr.module.name, {}) if fr.module else {}
            for a in node.args:
                tys.append(al.get(a.id) or self.schema.CLASSES[a.id])
            ty = ref(*tys)
            return k, V(ty, k), z3.And(k > 0, k < st.alloc, Or_(*[self.ClassOf(k) == self.tag(q) for q in tys])), None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "range":
            a = [self.to_int(self.ev(x, st, fr), st, node, fr).t for x in node.args]
            lo, hi = (I(0), a[0]) if len(a) == 1 else (a[0], a[1])
            return k, V(INT, k), z3.And(k >= lo, k < hi), None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "enumerate":
            v = self.ev(node.args[0], st, fr)
            st = self.state_of(node.args[0], st, fr)
            e = V(prune(prune(v.ty)[1]), z3.Select(self.lrow(st, v), k))
            return k, V(("tuple", (INT, e.ty)), [V(INT, k), e]), z3.And(k >= 0, k < self.llen(st, v)), e.t
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "zip":
            vs = [self.ev(x, st, fr) for x in node.args]
            sts = [self.state_of(x, st, fr) for x in node.args]
            es = [V(prune(prune(v.ty)[1]), z3.Select(self.lrow(s_, v), k)) for v, s_ in zip(vs, sts)]
            return k, V(("tuple", tuple(e.ty for e in es)), es), z3.And(k >= 0, *[k < self.llen(s_, v) for v, s_ in zip(vs, sts)]), es[0].t
        v = self.ev(node, st, fr)
        ty = prune(v.ty)
        if ty[0] == "opt":
            v = V(prune(ty[1]), v.t)
            ty = prune(v.ty)
        st = self.state_of(node, st, fr)
        if ty[0] in ("list", "arr"):
            e = V(prune(ty[1]), z3.Select(self.lrow(st, v), k))
            return k, e, z3.And(k >= 0, k < self.llen(st, v)), e.t
        if ty[0] == "dict":
            dom = z3.Select(st.h(("dom",)), v.t)
            return k, V(prune(ty[1]), k), dom[k], dom[k]
        if ty[0] == "py" and isinstance(v.meta, tuple) and v.meta[0] == "dictvalues":
            d = v.meta[1]
            dom = z3.Select(st.h(("dom",)), d.t)
            e = self.dict_val(d, k, None, st)
            return k, e, dom[k], e.t
        if ty[0] == "tuple" or (ty[0] == "py" and v.meta[0] == "elems"):
            raise Unsupported("spec iteration over a tuple")
        raise Unsupported("spec iteration over %s" % tkey(ty))

    def spec_quant(self, name, g, st, fr):
        if not isinstance(g, (ast.GeneratorExp, ast.ListComp)):
            raise Unsupported("all()/any() needs a generator")
        # tuples of constants are unrolled
        if len(g.generators) == 1 and isinstance(g.generators[0].iter, (ast.Tuple, ast.List)):
            out = []
            for e in g.generators[0].iter.elts:
                f2 = self.sub_frame(fr)
                self.spec_bind(g.generators[0].target, self.ev(e, st, fr), f2)
                c = And_(*[self.truth(self.ev(x, st, f2), st) for x in g.generators[0].ifs])
                b = self.truth(self.ev(g.elt, st, f2), st)
                out.append(Imp_(c, b) if name == "all" else And_(c, b))
            return V(BOOL, And_(*out) if name == "all" else Or_(*out))
        f2 = self.sub_frame(fr)
        s2 = State(self, {}, st.heap, st.alloc, [])
        ks, guards, pats = [], [], []
        for gen in g.generators:
            k, e, gd, pat = self.spec_iter(gen.iter, s2, f2)
            self.spec_bind(gen.target, e, f2)
            ks.append(k)
            guards.append(gd)
            pats.append(pat)
            for c in gen.ifs:
                guards.append(self.truth(self.ev(c, s2, f2), s2))
        body = self.truth(self.ev(g.elt, s2, f2), s2)
        names = {str(k) for k in ks}
        for f in s2.pc:
            used = consts_of([f]) & names
            if not used:
                st.pc.append(f)
            else:
                vs = [k for k in ks if str(k) in used]
                st.pc.append(Forall(ks, z3.Implies(And_(*guards), f)))
        if name == "all":
            q = Imp_(And_(*guards), body)
            if is_true(q):
                return V(BOOL, TRUE)
            return V(BOOL, Forall(ks, q))
        return V(BOOL, Exists(ks, And_(*guards, body)))

    def atplace(self):
        IS = z3.IntSort()
        A = z3.ArraySort(IS, IS)
        C = self.uf("AtPlace", A, A, IS, IS, IS)
        if "AtPlace" not in self.axiom_names:
            l1, l2, x1, x2 = z3.Const("l1?", A), z3.Const("l2?", A), z3.Const("x1?", A), z3.Const("x2?", A)
            m, k, L = z3.Ints("m? k? L?")
            S = self.uf("SamePlaces", A, A, A, A, IS, z3.BoolSort())
            # lemmas (by induction on m; proved by pyvc.lemmas)
            self.global_axiom("SamePlaces", ForAll_([l1, x1, l2, x2, m], z3.Implies(
                z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), l1[x1[k]] == l2[x2[k]])), S(l1, x1, l2, x2, m)), patterns=[S(l1, x1, l2, x2, m)]))
            self.global_axiom("AtPlace", ForAll_([l1, x1, l2, x2, m, L], z3.Implies(S(l1, x1, l2, x2, m), C(l1, x1, m, L) == C(l2, x2, m, L)),
                patterns=[z3.MultiPattern(C(l1, x1, m, L), C(l2, x2, m, L))]))
        return C

    def sub_frame(self, fr):
        f2 = Frame(None, fr.module, None, 0, spec=True)
        f2.specenv, f2.old, f2.pre = dict(fr.specenv), fr.old, fr.pre
        return f2

    def spec_bind(self, target, v, f2):
        if isinstance(target, ast.Name):
            f2.specenv[target.id] = v
        elif isinstance(target, ast.Tuple):
            for t, x in zip(target.elts, v.t):
                self.spec_bind(t, x, f2)
        else:
            raise Unsupported("spec target")

    def row_of(self, k, t):
        """The array of the values of t over k: a named one where t has no other bound variable."""
        same = z3.Int("row?k")            # one name for the bound variable: the same values, the same array
        t, k = z3.substitute(t, (k, same)), same
        lam = z3.Lambda([k], t)
        todo, seen, at = [t], set(), []
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_var(x) or z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(x).startswith(("q!", "r?", "sk!")) and not x.eq(k):
                return lam
            if z3.is_quantifier(x):
                return lam
            if z3.is_select(x) and x.arg(1).eq(k):
                at.append(x)
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(y.eq(k) for y in x.children()) and x.decl().name() != "ClassOf":
                at.append(x)
            todo.extend(x.children())
        for l2, a in self.rows:
            if l2.eq(lam):
                return a
        a = self.fresh("row", lam.sort())
        self.rows.append((lam, a))
        self.global_axiom("row%d" % len(self.rows), ForAll_([k], a[k] == t, patterns=[a[k]] + at))
        return a

    def spec_total(self, name, g, st, fr):
        """total(e for x in xs [if c]) over a list or range(n): sum of e; count(c for x in xs): how many."""
        gen = g.generators[0]
        f2 = self.sub_frame(fr)
        s2 = State(self, {}, st.heap, st.alloc, [])
        if isinstance(gen.iter, ast.Call) and isinstance(gen.iter.func, ast.Name) and gen.iter.func.id == "range":
            k = self.fresh("q", z3.IntSort())
            hi = self.to_int(self.ev(gen.iter.args[0], st, fr), st, g, fr).t
            e, row = V(INT, k), None
        else:
            sub = gen.iter
            hi = None
            if isinstance(sub, ast.Subscript) and isinstance(sub.slice, ast.Slice) and sub.slice.lower is None and sub.slice.step is None:
                hi = self.to_int(self.ev(sub.slice.upper, st, fr), st, g, fr).t
                sub = sub.value
            v = self.ev(sub, st, fr)
            ty = prune(v.ty)
            sx = self.state_of(sub, st, fr)
            k = self.fresh("q", z3.IntSort())
            row = self.lrow(sx, v)
            e = V(prune(ty[1]), row[k])
            hi = self.llen(sx, v) if hi is None else hi
        self.spec_bind(gen.target, e, f2)
        x = self.ev(g.elt, s2, f2)
        c = And_(*[self.truth(self.ev(y, s2, f2), s2) for y in gen.ifs])
        if name == "count":
            t, real = z3.If(And_(c, self.truth(x, s2)), I(1), I(0)), False
        else:
            x = self.numeric(x, s2, g, f2)
            real = prune(x.ty) == FLOAT
            t = x.t if is_true(c) else z3.If(c, x.t, z3.RealVal(0) if real else I(0))
        if row is not None and t.eq(row[k]):
            arr = row
        else:
            arr = self.row_of(k, t)
        return V(FLOAT if real else INT, self.sumfun(real)(arr, hi))
