"""Statement execution, loops with inferred invariants (Houdini over candidates)."""
import ast
import itertools
import z3
from .types import *
from .types import Val
from .engine import *
from .engine import ForAll_, V, State, Frame, Unsupported, Hint, I, TRUE, FALSE, And_, Or_, Not_, Imp_, If_
from .exprs import consts_of, conj
from .source import FuncInfo, ClassInfo, ModuleInfo, ExtMod, Ext


class Sink:
    def __init__(self, names):
        self.names, self.items = names, []

    def accepts(self, exc):
        if self.names is None:
            return True
        sup = {"IndexError": "LookupError", "KeyError": "LookupError", "ZeroDivisionError": "ArithmeticError"}
        return exc in self.names or "Exception" in self.names and exc != "SystemExit" or sup.get(exc) in self.names

    def add(self, st, exc):
        self.items.append((st, exc))


class Iter:
    """A sequence to iterate over: length (possibly re-read from the current state) and elements."""

    def __init__(self, length, at, seq=None, const=None, live=False):
        self._len, self.at, self.seq, self.const, self.live = length, at, seq, const, live
        self.place = None   # of a dict: key -> place in the enumeration

    def length(self, st):
        return self._len(st)


def assigned_names(body):
    out = []

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_ListComp(self, n):
            pass

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_Lambda = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)
    for s in body:
        W().visit(s)
    return out


class StmtMixin:
    def block(self, body, st, fr):
        """Runs statements; returns the normal end state or None. Other outcomes go to fr.*"""
        for s in body:
            st = self.stmt(s, st, fr)
            if st is None:
                return None
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        return m(s, st, fr)

    def st_Pass(self, s, st, fr):
        return st

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        v = self.ev(s.value, st, fr)
        if v is EXIT:
            return None
        return st

    def st_Import(self, s, st, fr):
        return st

    st_ImportFrom = st_Import

    def st_Global(self, s, st, fr):
        fr.globals_decl |= set(s.names)
        return st

    def st_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        self.ob(st, c, "assert", s.test, exc="AssertionError", fr=fr)
        return st

    def st_Return(self, s, st, fr):
        v = self.none() if s.value is None else self.ev(s.value, st, fr)
        if v is EXIT:
            return None
        if prune(v.ty) == PY and isinstance(v.meta, tuple) and v.meta[0] == "exit":
            return None
        fr.rets.append((st, v))
        return None

    def st_Raise(self, s, st, fr):
        name = "Exception"
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        for sk in fr.excsinks[::-1]:
            if sk.accepts(name):
                sk.add(st, name)
                return None
        if self.contract and name in (self.contract.raises or ()):
            return None
        self.ob(st, FALSE, "raise", s, name)
        return None

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                k = prune(b.ty)[0]
                if k == "list":
                    i = self.to_int(self.ev(t.slice, st, fr), st, t, fr)
                    self.list_del(b, i.t, st, t, fr)
                elif k == "dict":
                    kt = self.dict_key(b, self.ev(t.slice, st, fr), st, t, fr)
                    dom = z3.Select(st.h(("dom",)), b.t)
                    self.ob(st, dom[kt], "key", t, exc="KeyError", fr=fr)
                    self.hstore(st, ("dom",), b.t, z3.Store(dom, kt, FALSE))
                elif k != "opaque":
                    raise Unsupported("del")
            else:
                raise Unsupported("del")
        return st

    def list_del(self, b, i, st, n, fr):
        """del b[i] (or pop): later elements move down by one."""
        ln = self.llen(st, b)
        self.ob(st, z3.And(i < ln, i >= -ln), "index", n, exc="IndexError", fr=fr)
        i = z3.simplify(z3.If(i < 0, i + ln, i)) if not (z3.is_int_value(i) and i.as_long() >= 0) else i
        ety = prune(prune(b.ty)[1])
        k = self.ekey(ety)
        old = self.lrow(st, b)
        row = self.fresh("row", z3.ArraySort(z3.IntSort(), sort_of(ety)))
        j = z3.Int("j?%d" % next(self.cnt))
        st.assume(ForAll_([j], row[j] == z3.If(j < i, old[j], old[j + 1]), patterns=[row[j]]))
        # the same, usable from the old row's side
        st.assume(ForAll_([j], z3.And(z3.Implies(j < i, row[j] == old[j]), z3.Implies(j > i, row[j - 1] == old[j])), patterns=[old[j]]))
        self.hstore(st, k, b.t, row)
        self.hstore(st, ("len",), b.t, ln - 1)

    # ------------------------------------------------------------------ assignment
    def st_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        if v is EXIT:
            return None
        for t in s.targets:
            self.bind(t, v, st, fr, s)
        return st

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, st, fr), st, fr, s)
        return st

    def bind(self, t, v, st, fr, n):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                self.write_global(st, fr, t.id, v, n)
                return
            if isinstance(v.meta, dict) and v.meta.get("elems") is not None and prune(v.ty)[0] == "list":
                v = V(v.ty, v.t, {"fresh": True, "elems": v.meta["elems"]} if len(v.meta["elems"]) == 0 else {"fresh": True, "elems0": v.meta["elems"]})
            st.env[t.id] = (v, TRUE)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.set_attr(b, self.mangle(t.attr, fr), v, st, fr, n)
        elif isinstance(t, ast.Subscript):
            self.set_sub(t, v, st, fr, n)
        elif isinstance(t, (ast.Tuple, ast.List)):
            ty = prune(v.ty)
            if ty[0] == "opaque":
                for e in t.elts:
                    self.bind(e, V(OPAQUE, self.fresh("op", z3.IntSort())), st, fr, n)
                return
            if ty[0] == "tuple":
                if len(v.t) != len(t.elts):
                    raise Unsupported("tuple unpacking")
                for e, x in zip(t.elts, v.t):
                    self.bind(e, x, st, fr, n)
                return
            if ty[0] == "rec":
                for i, e in enumerate(t.elts):
                    self.bind(e, V(ty[1][i], z3.Select(st.h(self.rkey(ty, i)), v.t)), st, fr, n)
                return
            if ty[0] in ("list", "arr"):
                self.ob(st, self.llen(st, v) == len(t.elts), "unpack", n, exc="ValueError", fr=fr)
                for i, e in enumerate(t.elts):
                    self.bind(e, self.lget_v(st, v, I(i)), st, fr, n)
                return
            raise Unsupported("unpacking %s" % tkey(ty))
        else:
            raise Unsupported("assignment target")

    def lget_v(self, st, v, i):
        ety = prune(prune(v.ty)[1])
        return V(ety, z3.Select(z3.Select(st.h(self.ekey(ety)), v.t), i))

    def write_global(self, st, fr, name, v, n):
        key = fr.module.name + "." + name
        ts = self.schema.GLOBALS.get(key)
        if ts is None:
            raise Unsupported("assignment to global %s" % key)
        ty = self.ptype(ts)
        if ty == OPAQUE:
            return
        self.hset(st, self.gkey(key, ty), self.coerce(v, ty, st, n, fr).t)

    def set_sub(self, t, v, st, fr, n):
        b = self.ev(t.value, st, fr)
        ty = prune(b.ty)
        if isinstance(ty, TVar):
            raise Unsupported("subscript assignment")
        if ty[0] == "opt":
            self.ob(st, b.t != 0, "not-none", n, exc="TypeError", fr=fr)
            b = V(prune(ty[1]), b.t)
            ty = prune(b.ty)
        k = ty[0]
        if k == "py" and isinstance(b.meta, tuple) and b.meta[0] == "ss":
            key = self.litval(self.ev(t.slice, st, fr))
            if key is None:
                raise Unsupported("settings key")
            c = self.ss_cell(b.meta[1], key)
            if c is None:
                return      # a setting nobody under contract reads
            cty, optional = c
            if optional:
                self.hset(st, self.gkey("SSP.%s.%s" % (b.meta[1], key), BOOL), TRUE)
            if prune(cty) == OPAQUE:
                return
            self.hset(st, self.gkey("SS.%s.%s" % (b.meta[1], key), cty), self.coerce(v, cty, st, n, fr).t)
            return
        if k in ("list", "arr"):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            if isinstance(t.slice, ast.Tuple):
                cur = b
                for e in t.slice.elts[:-1]:
                    cur = self.index(cur, self.ev(e, st, fr), st, fr, n)
                self.store_elem(cur, self.ev(t.slice.elts[-1], st, fr), v, st, fr, n)
                return
            self.store_elem(b, self.ev(t.slice, st, fr), v, st, fr, n)
            return
        if k == "dict":
            self.dict_set(b, self.ev(t.slice, st, fr), v, st, n, fr)
            return
        if k == "rec":
            c = z3.simplify(self.ev(t.slice, st, fr).t)
            if not z3.is_int_value(c):
                raise Unsupported("subscript assignment")
            j = c.as_long() % len(ty[1])
            self.hstore(st, self.rkey(ty, j), b.t, self.coerce(v, ty[1][j], st, n, fr).t)
            return
        if k == "opaque":
            self.ev(t.slice, st, fr)
            return
        raise Unsupported("subscript assignment on %s" % tkey(ty))

    def store_elem(self, b, i, v, st, fr, n):
        ety = prune(prune(b.ty)[1])
        if isinstance(ety, TVar):
            unify(ety, v.ty)
            ety = prune(ety)
        i = self.to_int(i, st, n, fr)
        ln = self.llen(st, b)
        self.ob(st, z3.And(i.t < ln, i.t >= -ln), "index", n, exc="IndexError", fr=fr)
        c = z3.simplify(i.t)
        if z3.is_int_value(c):
            idx = c if c.as_long() >= 0 else ln + c
        else:
            idx = i.t if self.quick_nonneg(st, i.t) else z3.If(i.t < 0, i.t + ln, i.t)
        cv = self.coerce(v, ety, st, n, fr)
        k = self.ekey(ety)
        self.hstore(st, k, b.t, z3.Store(z3.Select(st.h(k), b.t), idx, cv.t))

    def st_AugAssign(self, s, st, fr):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.ev(load, st, fr)
        ty = prune(cur.ty)
        if not isinstance(ty, TVar) and ty[0] == "list" and isinstance(s.op, ast.Add) and isinstance(s.value, ast.List) \
                and not any(isinstance(x, ast.Starred) for x in s.value.elts):
            for v in [self.ev(x, st, fr) for x in s.value.elts]:
                self.append(cur, v, st, s, fr)
            if isinstance(t, ast.Name):
                st.env[t.id] = (V(cur.ty, cur.t), TRUE)
            elif isinstance(t, ast.Attribute):
                self.set_attr(self.ev(t.value, st, fr), self.mangle(t.attr, fr), V(cur.ty, cur.t), st, fr, s)
            return st
        v = self.ev(s.value, st, fr)
        if not isinstance(ty, TVar) and ty[0] == "list" and isinstance(s.op, ast.Add):
            tv = prune(v.ty)
            if not isinstance(tv, TVar) and tv[0] in ("ref", "int", "float", "none"):
                self.ob(st, FALSE, "operand-type", s, "'%s' object is not iterable" % tkey(tv), exc="TypeError", fr=fr)
                return st
            r = self.extend(cur, v, st)
            if isinstance(t, ast.Name):
                st.env[t.id] = (V(r.ty, r.t), TRUE)
            elif isinstance(t, ast.Attribute):
                self.set_attr(self.ev(t.value, st, fr), self.mangle(t.attr, fr), V(r.ty, r.t), st, fr, s)
            return st
        r = self.binop(s.op, cur, v, st, fr, s)
        self.bind(t, r, st, fr, s)
        return st

    # ------------------------------------------------------------------ control
    def st_If(self, s, st, fr):
        c = z3.simplify(self.truth(self.ev(s.test, st, fr), st))
        if is_true(c):
            return self.block(s.body, st, fr)
        if is_false(c):
            return self.block(s.orelse, st, fr)
        if self.case and fr.depth == 0:
            if self.quick(st.pc, c, 300):
                st.assume(c)
                return self.block(s.body, st, fr)
            if self.quick(st.pc, Not_(c), 300):
                st.assume(Not_(c))
                return self.block(s.orelse, st, fr)
        s1, s2 = st.fork(), st.fork()
        nb = len(st.pc)
        s1.assume(c)
        s2.assume(Not_(c))
        o1 = self.block(s.body, s1, fr)
        if o1 is not None:      # an empty list so far takes the type of the list the first branch replaces it with
            for x, e in s2.env.items():
                t = prune(e[0].ty)
                if not isinstance(t, TVar) and t[0] in ("list", "dict") and not resolved(t) and x in o1.env:
                    t1 = prune(o1.env[x][0].ty)
                    if not isinstance(t1, TVar) and t1[0] == t[0] and resolved(t1):
                        unify(t, t1)
        o2 = self.block(s.orelse, s2, fr)
        if o1 is None:
            return o2
        if o2 is None:
            return o1
        return self.merge2(c, o1, o2, nb)[0]

    def st_Break(self, s, st, fr):
        fr.brks[-1].append(st)
        return None

    def st_Continue(self, s, st, fr):
        fr.conts[-1].append(st)
        return None

    def st_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, st, fr, s)
        return self.block(s.body, st, fr)

    def st_Try(self, s, st, fr):
        names = set()
        for h in s.handlers:
            if h.type is None:
                names = None
                break
            for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                names.add(e.id if isinstance(e, ast.Name) else getattr(e, "attr", "?"))
        sink = Sink(names)
        fr.excsinks.append(sink)
        try:
            out = self.block(s.body, st, fr)
        finally:
            fr.excsinks.remove(sink)
        outs = []
        if out is not None:
            out = self.block(s.orelse, out, fr)
            if out is not None:
                outs.append(out)
        for es, exc in sink.items:
            for h in s.handlers:
                hn = None if h.type is None else {e.id if isinstance(e, ast.Name) else getattr(e, "attr", "?")
                                                  for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
                if hn is None or Sink(hn).accepts(exc):
                    if h.name:
                        es.env[h.name] = (V(OPAQUE, self.fresh("exc", z3.IntSort())), TRUE)
                    o = self.block(h.body, es, fr)
                    if o is not None:
                        outs.append(o)
                    break
        if not outs:
            return None
        m = self.merge_many([(o, []) for o in outs])[0]
        return self.block(s.finalbody, m, fr)

    # ------------------------------------------------------------------ iterables
    def iterable(self, node, st, fr):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id not in st.env:
            f = node.func.id
            if f == "range":
                a = [self.to_int(self.ev(x, st, fr), st, node, fr).t for x in node.args]
                lo, hi, step = (I(0), a[0], 1) if len(a) == 1 else (a[0], a[1], 1)
                if len(a) == 3:
                    c = z3.simplify(a[2])
                    if not z3.is_int_value(c) or c.as_long() not in (1, -1):
                        raise Unsupported("range step")
                    step = c.as_long()
                n = hi - lo if step == 1 else lo - hi
                n = z3.simplify(z3.If(n > 0, n, I(0)))
                it = Iter(lambda s: n, lambda s, k: V(INT, (z3.simplify(lo + k) if step == 1 else lo - k)))
                it.lo = lo
                it.step = step
                return it
            if f == "enumerate":
                it = self.iterable(node.args[0], st, fr)
                off = self.to_int(self.ev(node.args[1], st, fr), st, node, fr).t if len(node.args) > 1 else I(0)
                r = Iter(it._len, lambda s, k: V(("tuple", (INT, TVar())), [V(INT, z3.simplify(k + off)), it.at(s, k)]), it.seq, None, it.live)
                return r
            if f == "zip":
                its = [self.iterable(x, st, fr) for x in node.args]

                def ln(s):
                    n = its[0].length(s)
                    for i in its[1:]:
                        m = i.length(s)
                        n = z3.If(m < n, m, n)
                    return n

                def at(s, k):
                    vs = [i.at(s, k) for i in its]
                    return V(("tuple", tuple(v.ty for v in vs)), vs)
                return Iter(ln, at, its[0].seq)
            if f == "reversed":
                it = self.iterable(node.args[0], st, fr)
                return Iter(it._len, lambda s, k: it.at(s, it.length(s) - 1 - k), it.seq)
            if f in ("list", "tuple") and len(node.args) == 1:
                inner = self.iterable(node.args[0], st, fr)
                return inner if not inner.live else self.iter_value(self.copy_list(inner.seq, st), st, fr, node)
        if isinstance(node, (ast.List, ast.Tuple)) and node.elts:
            els = [self.ev(x, st, fr) for x in node.elts]
            return Iter(lambda s: I(len(els)), None, const=els)
        return self.iter_value(self.ev(node, st, fr), st, fr, node)

    def copy_list(self, v, st):
        ety = prune(prune(v.ty)[1])
        ty = ("list", ety)
        r = self.alloc(st, ty)
        self.hstore(st, ("len",), r, self.llen(st, v))
        if resolved(ety):
            self.hstore(st, self.ekey(ety), r, self.lrow(st, v))
        return V(ty, r, {"fresh": True})

    def iter_value(self, v, st, fr, node):
        ty = prune(v.ty)
        if isinstance(ty, TVar):
            raise Unsupported("iteration over an undetermined value")
        if ty[0] == "opt":
            self.ob(st, v.t != 0, "not-none", node, exc="TypeError", fr=fr)
            v = V(prune(ty[1]), v.t)
            ty = prune(v.ty)
        if ty[0] in ("list", "arr"):
            if isinstance(prune(ty[1]), TVar):
                return Iter(lambda s: I(0), None, const=[])
            return Iter(lambda s: self.llen(s, v), lambda s, k: self.lget_v(s, v, k), v, live=True)
        if ty[0] == "dict":
            return self.iter_dict(v, st, "keys")
        if ty[0] == "py" and isinstance(v.meta, tuple) and v.meta[0] in ("dictkeys", "dictitems", "dictvalues"):
            return self.iter_dict(v.meta[1], st, v.meta[0][4:])
        if ty[0] == "opaque":
            n = self.fresh("oplen", z3.IntSort())
            st.assume(n >= 0)
            if isinstance(v.meta, tuple) and v.meta[0] == "stream":
                ety = v.meta[1]

                def at(s, k):
                    t = self.fresh("row", sort_of(ety))
                    s.assume(self.typed(ety, t, s.alloc))
                    return V(ety, t)
                return Iter(lambda s: n, at)
            return Iter(lambda s: n, lambda s, k: V(OPAQUE, self.fresh("op", z3.IntSort())))
        if ty[0] == "tuple":
            return Iter(lambda s: I(len(v.t)), None, const=list(v.t))
        if ty[0] == "rec":
            els = [V(t, z3.Select(st.h(self.rkey(ty, i)), v.t)) for i, t in enumerate(ty[1])]
            return Iter(lambda s: I(len(els)), None, const=els)
        raise Unsupported("iteration over %s" % tkey(ty))

    def iter_dict(self, d, st, what):
        """Keys of a dict in some order: a duplicate-free enumeration of its domain."""
        ty = prune(d.ty)
        if isinstance(prune(ty[1]), TVar):
            return Iter(lambda s: I(0), None, const=[])
        dom = z3.Select(st.h(("dom",)), d.t)
        n = self.uf("dkn", dom.sort(), z3.IntSort())(dom)
        row = self.uf("dkeys", dom.sort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))(dom)
        pos = self.uf("dkpos", dom.sort(), z3.IntSort(), z3.IntSort())
        j = z3.Int("j?%d" % next(self.cnt))
        st.assume(n >= 0)
        st.assume(ForAll_([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(dom[row[j]], pos(dom, row[j]) == j)), patterns=[row[j]]))
        st.assume(ForAll_([j], z3.Implies(dom[j], z3.And(pos(dom, j) >= 0, pos(dom, j) < n, row[pos(dom, j)] == j)), patterns=[dom[j]]))
        kty = prune(ty[1])
        vty = prune(ty[2])

        def at(s, k):
            kv = V(kty, row[k])
            if what == "keys":
                return kv
            vv = V(vty, z3.Select(z3.Select(s.h(self.dvkey(vty)), d.t), row[k]))
            if what == "values":
                return vv
            return V(("tuple", (kty, vty)), [kv, vv])
        it = Iter(lambda s: n, at)
        it.place = lambda key: pos(dom, key)
        return it

    # ------------------------------------------------------------------ loops
    def st_For(self, s, st, fr):
        it = self.iterable(s.iter, st, fr)
        if it.const is None:
            n = z3.simplify(it.length(st))
            if z3.is_int_value(n) and n.as_long() <= 8 and not it.live:
                m = n.as_long()
                it = Iter(it._len, None, const=[it.at(st, I(i)) for i in range(m)])
        if it.const is not None:
            return self.unrolled(s, it, st, fr)
        return self.loop(s, it, st, fr)

    def unrolled(self, s, it, st, fr):
        fr.brks.append([])
        cur = st
        for v in it.const:
            fr.conts.append([])
            self.bind(s.target, v, cur, fr, s)
            cur = self.block(s.body, cur, fr)
            cs = fr.conts.pop()
            outs = ([cur] if cur is not None else []) + cs
            cur = self.merge_many([(o, []) for o in outs])[0] if outs else None
            if cur is None:
                break
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, fr)
        outs = ([cur] if cur is not None else []) + fr.brks.pop()
        return self.merge_many([(o, []) for o in outs])[0] if outs else None

    def st_While(self, s, st, fr):
        return self.loop(s, None, st, fr)

    def loop(self, s, it, st, fr):
        isfor = it is not None
        names = assigned_names(s.body + ([ast.Assign([s.target], s.iter)] if isfor else []))
        # ---- dry runs: discover types of the locals and the heap keys written
        marker = next(self.cnt)
        entry = st
        cur_env_types = {}
        self.quiet += 1
        saved_a, self.alog = self.alog, set(self.schema.CLASSES.values()) if False else set()
        self.loop_allocs = None
        saved_w = self.wlog
        saved_sinks = fr.excsinks
        wkeys = {}
        try:
            probe = st.fork()
            for rnd in range(4):
                self.wlog = {}
                ps = probe.fork()
                hd = self.loop_head(ps, names, wkeys, st, fr, s)
                k = self.fresh("k", z3.IntSort())
                ends = self.loop_body(s, it, hd, k, fr, dry=True)
                changed = False
                for key, refs in self.wlog.items():
                    if key not in wkeys:
                        wkeys[key] = []
                        changed = True
                    for r in refs:
                        if not any(r is q or (r is not None and q is not None and r.eq(q)) for q in wkeys[key]):
                            wkeys[key].append(r)
                # widen the entry types of the locals by what the body leaves in them
                for e in ends:
                    for x in names:
                        if x in e.env and x in probe.env:
                            v0, v1 = probe.env[x][0], e.env[x][0]
                            try:
                                u = unify(v0.ty, v1.ty)
                            except TypeErr:
                                u = None
                            if u is None:
                                if isinstance(v0.meta, dict) and v0.meta.get("elems") is not None:
                                    probe.env[x] = (V(v1.ty, v0.t, v0.meta), probe.env[x][1])
                                    changed = True
                                else:
                                    cur_env_types[x] = OPAQUE
                            elif not isinstance(prune(u), TVar) and (isinstance(prune(v0.ty), TVar) or not same(u, v0.ty)) and prune(u)[0] != "py":
                                probe.env[x] = (self.coerce(v0, u, probe), probe.env[x][1])
                                changed = True
                if not changed:
                    break
        finally:
            self.quiet -= 1
            self.wlog = saved_w
            but = set(self.alog)
            self.alog = saved_a | but
        # apply widened types to the entry state
        for x in names:
            if x in st.env and x in probe.env:
                v0, v1 = st.env[x][0], probe.env[x][0]
                if prune(v1.ty) == PY:
                    continue
                if x in cur_env_types:
                    st.env[x] = (V(OPAQUE, I(0), "poison"), st.env[x][1])
                elif not same(v0.ty, v1.ty):
                    st.env[x] = (self.coerce(v0, v1.ty, st), st.env[x][1])
        # a list made before its element type was known: it is of that type now
        for x in sorted(st.env):
            if st.env[x] is not None:
                v = st.env[x][0]
                ty = prune(v.ty)
                if not isinstance(ty, TVar) and ty[0] in ("list", "dict", "set") and resolved(ty) and z3.is_expr(v.t):
                    st.assume(self.ClassOf(v.t) == self.reftags(ty)[0])
        st0 = st.fork()
        if self.wlog is not None:
            for key, refs in wkeys.items():
                self.wlog.setdefault(key, []).extend(refs)
        # ---- candidates
        head = self.loop_head(st.fork(), names, wkeys, st0, fr, s, but)
        k = self.fresh("k", z3.IntSort())
        if isfor:
            head.assume(k >= 0)
            head.assume(k <= it.length(head)) if not it.live else None
        cands = self.loop_candidates(s, it, st0, head, k, names, wkeys, fr, marker)
        # initially true?
        live = []
        for c in cands:
            try:
                g = c(st0, I(0))
            except (Unsupported, TypeErr, z3.Z3Exception) as ex:
                if self.debug:
                    print("  [loop %s:%d] not meaningful: %s %r" % (self.fn, s.lineno, c.name, ex))
                continue
            if g is None:
                continue
            facts, x = g
            if self.quick(st0.pc + list(facts), x, c.timeout, c.strong):
                live.append(c)
            elif self.debug:
                print("  [loop %s:%d] not initially: %s" % (self.fn, s.lineno, c.name))
        # ---- Houdini
        self.quiet += 1
        try:
            for rnd in range(12):
                h2 = head.fork()
                self.assume_cands(live, h2, k)
                nrets = len(fr.rets)
                ends = self.loop_body(s, it, h2, k, fr)
                drop = []
                for c in live:
                    ok = True
                    for e in ends:
                        try:
                            g = c(e, z3.simplify(k + 1))
                        except (Unsupported, TypeErr, z3.Z3Exception):
                            g = None
                        if g is None or not self.quick(e.pc + list(g[0]), g[1], c.timeout, c.strong):
                            ok = False
                            break
                    if not ok:
                        drop.append(c)
                        if self.debug:
                            print("  [loop %s:%d] dropped: %s" % (self.fn, s.lineno, c.name))
                if not drop:
                    break
                live = [c for c in live if c not in drop]
            else:
                live = []
        finally:
            self.quiet -= 1
        if self.debug:
            print("  [loop %s:%d] kept: %s" % (self.fn, s.lineno, [c.name for c in live]))
        # ---- final pass: obligations of the body, exits
        hf = head.fork()
        self.assume_cands(live, hf, k)
        breaks = []
        self.loop_body(s, it, hf.fork(), k, fr, final=True, breaks=breaks)
        # exit by exhausted condition
        ex = hf.fork()
        if isfor:
            n = it.length(ex)
            # a list that shrinks while it is iterated over may leave the counter beyond its end
            ex.assume(k == n if not it.live or any(c.name == "within" for c in live) else k >= n)
        else:
            c = self.truth(self.ev(s.test, ex, fr), ex)
            ex.assume(Not_(c))
        out = ex
        if s.orelse:
            out = self.block(s.orelse, ex, fr)
        outs = ([out] if out is not None and not any(is_false(f) for f in out.pc[-2:]) else []) + breaks
        if not outs:
            return None
        return self.merge_many([(o, []) for o in outs])[0]

    def assume_cands(self, live, st, k):
        for c in live:
            try:
                g = c(st, k)
            except (Unsupported, TypeErr, z3.Z3Exception):
                continue
            if g is None:
                continue
            for f in g[0]:
                st.assume(f)
            st.assume(g[1])

    def havoc_local(self, v, d, st, x):
        ty = prune(v.ty)
        if isinstance(ty, TVar):
            return V(ty, v.t)
        if ty[0] == "py" or v.meta == "poison":
            return v
        if ty[0] == "tuple":
            return V(ty, [self.havoc_local(y, d, st, x) for y in v.t])
        if ty[0] == "none":
            return v
        t = self.fresh(x, sort_of(ty))
        st.assume(self.typed(ty, t, st.alloc))
        return V(ty, t)

    def loop_head(self, st, names, wkeys, st0, fr, s, but=None):
        """Arbitrary state at the loop head: modified locals and heap keys unknown."""
        a = self.fresh("alloc", z3.IntSort())
        st.assume(a >= st.alloc)
        if but is not None:
            self.no_objects(st, st.alloc, a, but)
        st.alloc = a
        self.ranges.append((self.alloc0, a))
        if ("len",) in wkeys or ("dom",) in wkeys:
            # what earlier rounds allocated is well-typed also where the loop writes nothing
            for key in sorted(set(st.heap) | set(self.base_heap), key=str):
                if key[0] in ("rec", "elt", "dval") and key not in wkeys:
                    for ax in self.key_axioms(key, st.h(key), a, self.alloc0):
                        st.assume(ax)
        for key in wkeys:
            t = self.fresh("H_" + str(key[1]) if len(key) > 1 else "H_" + key[0], self.key_sort(key))
            st.heap[key] = t
            for ax in self.key_axioms(key, t, a):
                st.assume(ax)
        for x in names:
            if x in st.env:
                v, d = st.env[x]
                st.env[x] = (self.havoc_local(v, d, st, x), d)
        return st

    def loop_body(self, s, it, st, k, fr, dry=False, final=False, breaks=None):
        """One arbitrary iteration; returns the states reaching the next head."""
        isfor = it is not None
        fr.brks.append([])
        fr.conts.append([])
        nr = len(fr.rets)
        sinks = [(x, len(x.items)) for x in fr.excsinks]
        if isfor:
            st.assume(k < it.length(st))
            st.assume(k >= 0)
            self.bind(s.target, it.at(st, k), st, fr, s)
        else:
            c = self.truth(self.ev(s.test, st, fr), st)
            st.assume(c)
        out = self.block(s.body, st, fr)
        conts = fr.conts.pop()
        br = fr.brks.pop()
        if final:
            breaks.extend(br)
        else:
            del fr.rets[nr:]
            for x, n in sinks:
                del x.items[n:]
        ends = ([out] if out is not None else []) + conts
        return ends

    # ------------------------------------------------------------------ candidates
    def loop_candidates(self, s, it, st0, head, k, names, wkeys, fr, marker):
        out = []

        def cand(name, fn, timeout=2000):
            fn_ = fn
            c = _Cand(name, fn_, timeout)
            out.append(c)
        alloc0 = st0.alloc
        r = z3.Int("r?")
        for key in wkeys:
            if key[0] == "g":
                cand("same %s" % key[1], lambda st, kk, key=key: ([], st.h(key) == st0.h(key)))
                continue
            old = st0.h(key)
            stable = []
            for q in wkeys[key]:
                if q is None:
                    stable = None
                    break
                cs = consts_of([q])
                if all(self._birth(c) < marker for c in cs):
                    # allocated before the loop?
                    if not any(q.eq(x) for x in stable):
                        stable.append(q)
            if self.allowed is not None:
                al = self.allowed.get(key, [])
                rows = [q for q, tags in al if q is not None]
                tags = [g for q, tags in al if q is None for g in tags]
                cand("frame %s as declared" % (key,), lambda st, kk, key=key, old=old, rows=rows, tags=tags: ([], ForAll_([r], z3.Implies(
                    z3.And(r < self.alloc0, r > 0, *([r != q for q in rows] + [self.ClassOf(r) != g for g in tags])), st.h(key)[r] == old[r]), patterns=[st.h(key)[r]])))
            if stable is None:
                continue
            cand("frame %s" % (key,), lambda st, kk, key=key, old=old: ([], ForAll_([r], z3.Implies(
                r < alloc0, st.h(key)[r] == old[r]), patterns=[st.h(key)[r]])))
            if stable:
                cand("frame %s except %s" % (key, stable), lambda st, kk, key=key, old=old, stable=stable: ([], ForAll_([r], z3.Implies(
                    z3.And(r < alloc0, *[r != q for q in stable]), st.h(key)[r] == old[r]), patterns=[st.h(key)[r]])))
        for x in names:
            if x in st0.env and x in head.env:
                v0 = st0.env[x][0]
                ty = prune(v0.ty)
                if not isinstance(ty, TVar) and (is_reflike(ty)) and ty[0] != "ref":
                    def f(st, kk, x=x, v0=v0):
                        t = st.env[x][0].t
                        return [], z3.Or(t == v0.t, t >= alloc0)
                    cand("fresh-or-same %s" % x, f)
        if it is not None and it.live:
            cand("within", lambda st, kk: ([], kk <= it.length(st)))
        # lists that grow: by at most (or exactly) one entry per round
        if k is not None:
            for x in sorted(appended(s)):
                if x in st0.env and x in head.env and not isinstance(prune(st0.env[x][0].ty), TVar) and prune(st0.env[x][0].ty)[0] == "list":
                    n0 = st0.h(("len",))[st0.env[x][0].t]
                    cand("grows %s" % x, lambda st, kk, x=x, n0=n0: ([], st.h(("len",))[st.env[x][0].t] == n0 + kk))
                    cand("grows at most %s" % x, lambda st, kk, x=x, n0=n0: ([], st.h(("len",))[st.env[x][0].t] <= n0 + kk))
        hints = list(self.contract.loops) if self.contract else []
        for h in hints:
            if h.on is not None and self.case in self.contract.cases and self.contract.cases.index(self.case) not in h.on:
                continue
            for c in self.hint_instances(h, s, it, st0, head, k, names, fr):
                out.append(c)
        return out

    def _birth(self, name):
        if "!" in name:
            try:
                return int(name.rsplit("!", 1)[1])
            except ValueError:
                return 0
        return 0

    def hint_instances(self, h, s, it, st0, head, k, names, fr):
        pools = []
        for vn, ts in h.vars.items():
            ty = self.ptype(ts)
            pool = []
            if ty == INT and vn.startswith("i"):
                pool.append(("_k", None))
                if it is not None and hasattr(it, "lo"):
                    pool.append(("_i", None))
            order = [x for x in names if x in head.env] + [x for x in head.env if x not in names]
            for x in order:
                if x in head.env:
                    v = head.env[x][0]
                    tv = prune(v.ty)
                    if not isinstance(tv, TVar) and tv[0] != "py" and same(tv, ty) and v.meta != "poison":
                        if vn.startswith("m") and x not in names:
                            continue
                        pool.append((x, None))
            pools.append(pool)
        res = []
        used_names = {n.id for n in ast.walk(h.tree) if isinstance(n, ast.Name)}
        if "_seq" in used_names and (it is None or it.seq is None):
            return []
        if "_k" in used_names and it is None or "seen" in used_names and (it is None or it.place is None):
            return []
        for combo in itertools.islice(itertools.product(*pools), 40):
            cs = [x for x, _ in combo]
            if len(set(cs)) != len(cs):
                continue
            bind = dict(zip(h.vars, cs))

            def fn(st, kk, bind=bind):
                b = {}
                for vn, x in bind.items():
                    if x == "_k":
                        b[vn] = V(INT, kk)
                    elif x == "_i":
                        b[vn] = V(INT, z3.simplify(it.lo + kk) if it.step == 1 else it.lo - kk)
                    else:
                        if x not in st.env:
                            return None
                        b[vn] = st.env[x][0]
                b["_k"] = V(INT, kk)
                if it is not None and it.seq is not None:
                    b["_seq"] = it.seq
                if it is not None and it.place is not None:
                    b["_place"] = V(PY, None, ("place", it.place, kk))
                return self.spec_eval_ast(h.tree, st, b, None, None, pre=st0)
            res.append(_Cand("%s %s" % (h.inv.strip()[:100], bind or ""), fn, 4000, True))
        return res


class _Cand:
    def __init__(self, name, fn, timeout, strong=False):
        self.name, self.fn, self.timeout, self.strong = name, fn, timeout, strong

    def __call__(self, st, k):
        return self.fn(st, k)


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for x in ast.walk(t2):
        if hasattr(x, "lineno"):
            x.lineno = t.lineno
    return t2


EXIT = V(("py",), None, ("exit",))


def appended(s):
    """Names of the lists that are appended to directly in the loop."""
    return {x.func.value.id for b in s.body for x in ast.walk(b)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and isinstance(x.func.value, ast.Name)}
