"""Calls: contracts, inlining, constructors, builtins and trusted externals."""
import ast
import z3
from .types import *
from .types import Val
from .engine import *
from .engine import ForAll_, V, State, Frame, Unsupported, I, TRUE, FALSE, And_, Or_, Not_, Imp_, If_
IS = z3.IntSort()
from .stmts import EXIT, Iter
from .source import FuncInfo, ClassInfo, ModuleInfo, ExtMod, Ext

BUILTINS = {"len", "range", "float", "int", "max", "min", "abs", "sum", "str", "print", "isinstance", "list", "bool",
            "round", "sorted", "enumerate", "zip", "dict", "set", "tuple", "any", "all", "open", "super", "type", "reversed",
            "ValueError", "Exception", "KeyError", "TypeError", "iter", "next", "hasattr", "getattr", "id", "map", "filter"}


class ProxySink:
    """Exceptions escaping an inlined callee reach the caller's handler with the caller's locals."""

    def __init__(self, sink, env):
        self.sink, self.env = sink, env

    def accepts(self, exc):
        return self.sink.accepts(exc)

    @property
    def items(self):
        return self.sink.items

    def add(self, st, exc):
        s2 = st.fork()
        s2.env = dict(self.env)
        self.sink.add(s2, exc)


class CallMixin:
    MAXDEPTH = 14

    def builtin_names(self):
        return BUILTINS

    def csv_table(self, f, st):
        """The rows of a CSV file as new lists; what the file holds is csv_rows, csv_len and csv_cell."""
        rows, ln, cell = self.csv_ufs()
        n, base, r = rows(f), st.alloc, z3.Int("r?")
        st.assume(n >= 0)
        st.alloc = z3.simplify(base + n)
        within = z3.And(r >= base, r < base + n)
        idx = z3.Function("csv_row!%d" % next(self.cnt), IS, IS)
        st.assume(z3.ForAll([r], z3.Implies(within, self.ClassOf(r) == self.reftags(("list", STR))[0]), patterns=[self.ClassOf(r)]))
        old, new = st.h(("len",)), self.fresh("H_csvlen", z3.ArraySort(IS, IS))
        st.assume(z3.ForAll([r], new[r] == z3.If(within, ln(f, idx(r)), old[r]), patterns=[new[r]]))
        x, y = z3.Int("x?"), z3.Int("y?")
        self.global_axiom("csv_len", z3.ForAll([x, y], ln(x, y) >= 0, patterns=[ln(x, y)]))
        self.hset(st, ("len",), new)
        key = self.ekey(STR)
        old = st.h(key)
        new, j = self.fresh("H_csv", old.sort()), z3.Int("j?")
        st.assume(z3.ForAll([r], z3.Implies(Not_(within), new[r] == old[r]), patterns=[new[r]]))
        st.assume(z3.ForAll([r, j], z3.Implies(within, new[r][j] == cell(f, idx(r), j)), patterns=[new[r][j]]))
        self.hset(st, key, new)
        out = self.new_list_fn(st, ("list", STR), n, lambda k: base + k)
        row = self.lrow(st, out)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), idx(row[j]) == j), patterns=[row[j]]))
        return out

    def csv_ufs(self):
        return self.uf("csv_rows", IS, IS), self.uf("csv_len", IS, IS, IS), self.uf("csv_cell", IS, IS, IS, IS)

    def yaml_doc(self, f):
        """What a YAML file holds (a fixed, already existing document)."""
        return self.uf("yaml_document", z3.IntSort(), Val)(f)

    def opq(self):
        return V(OPAQUE, self.fresh("op", z3.IntSort()))

    # ------------------------------------------------------------------ dispatch
    def ev_Call(self, n, st, fr):
        f = n.func
        if fr.spec and isinstance(f, ast.Name) and f.id in self.spec_names() and f.id not in fr.specenv:
            return self.spec_call(f.id, n, st, fr)
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in st.env:
            if n.args:
                c = self.ev(n.args[0], st, fr).meta
                sv = self.ev(n.args[1], st, fr)
            else:
                c = fr.cls
                sv = st.env[fr.fi.params[0]][0]
            return V(PY, None, ("super", c, sv))
        if isinstance(f, ast.Name) and f.id == "isinstance" and f.id not in st.env:
            return self.isinstance_(n, st, fr)
        if isinstance(f, ast.Name) and f.id == "print" and f.id not in st.env:
            for a in n.args:
                self.ev(a, st, fr)
            return self.none()
        fv = self.ev(f, st, fr)
        return self.call_value(fv, n, st, fr)

    def call_value(self, fv, n, st, fr):
        if fv is EXIT:
            return fv
        if prune(fv.ty) != PY:
            for a in n.args:
                self.ev(a, st, fr)
            if prune(fv.ty)[0] == "opaque":
                for k in n.keywords:
                    self.ev(k.value, st, fr)
                return self.opq()
            raise Unsupported("call of a %s" % tkey(fv.ty))
        m = fv.meta
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                raise Unsupported("starred argument")
            args.append(self.ev(a, st, fr))
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported("** argument")
            kw[k.arg] = self.ev(k.value, st, fr)
        if isinstance(m, FuncInfo):
            return self.call_func(m, args, kw, st, fr, n)
        if isinstance(m, ClassInfo):
            return self.construct(m, args, kw, st, fr, n)
        if isinstance(m, (Ext, ExtMod)):
            return self.call_ext(m.name, args, kw, st, fr, n)
        if isinstance(m, tuple):
            if m[0] == "bound":
                return self.call_method(m[1], m[2], args, kw, st, fr, n)
            if m[0] == "builtin":
                return self.call_builtin(m[1], args, kw, st, fr, n)
            if m[0] == "superm":
                return self.call_super(m[1], m[2], m[3], args, kw, st, fr, n)
            if m[0] == "lambda":
                lam, env = m[1], m[2]
                saved = st.env
                st.env = dict(env)
                for p, a in zip(lam.args.args, args):
                    st.env[p.arg] = (a, TRUE)
                v = self.ev(lam.body, st, fr)
                st.env = saved
                return v
        raise Unsupported("call of %r" % (m,))

    def isinstance_(self, n, st, fr):
        v = self.ev(n.args[0], st, fr)
        t = n.args[1]
        nm = t.id if isinstance(t, ast.Name) else ast.unparse(t)
        ty = prune(v.ty)
        k = ty[0] if not isinstance(ty, TVar) else "list"
        if k in ("opaque", "val", "opt"):
            if k == "val" or (k == "opt" and not is_reflike(ty[1])):
                d = {"int": Val.is_VInt, "float": Val.is_VReal, "bool": Val.is_VBool, "str": Val.is_VStr}.get(nm)
                if d:
                    return V(BOOL, d(v.t))
            return V(BOOL, self.fresh("isinst", z3.BoolSort()))
        tbl = {"int": ("int", "bool"), "float": ("float",), "str": ("str",), "list": ("list", "rec"), "dict": ("dict",), "bool": ("bool",)}
        if nm in tbl:
            return V(BOOL, z3.BoolVal(k in tbl[nm]))
        c = self.ev(t, st, fr).meta
        if isinstance(c, ClassInfo) and k == "ref":
            sub = [q for q in ty[1] if self.prog.cls(q) is not None and c in self.prog.cls(q).mro(self.prog)]
            if len(sub) == len(ty[1]):
                return V(BOOL, TRUE)
            return V(BOOL, Or_(*[self.ClassOf(v.t) == self.tag(q) for q in sub]))
        return V(BOOL, self.fresh("isinst", z3.BoolSort()))

    # ------------------------------------------------------------------ functions
    def call_method(self, b, name, args, kw, st, fr, n):
        ty = prune(b.ty)
        if not isinstance(ty, TVar) and ty[0] == "opt":
            b = self.coerce(b, ty[1], st, n, fr)
            ty = prune(b.ty)
        if isinstance(ty, TVar):
            raise Unsupported("method of an undetermined value")
        if ty[0] == "ref":
            cases = []
            for c in ty[1]:
                m = self.method_of(c, name)
                if m is None:
                    self.ob(st, self.ClassOf(b.t) != self.tag(c), "attr", n, "no method %s" % name, exc="AttributeError", fr=fr)
                    continue
                cases.append((c, m))
            if not cases:
                return self.opq()
            quals = {m.qual for _, m in cases}
            if len(quals) == 1:
                return self.call_func(cases[0][1], args, kw, st, fr, n, V(ref(*[c for c, _ in cases]), b.t))
            outs = []
            for c, m in cases:
                s2 = st.fork()
                cond = self.ClassOf(b.t) == self.tag(c)
                s2.assume(cond)
                v = self.call_func(m, args, kw, s2, fr, n, V(ref(c), b.t))
                if v is EXIT:
                    continue
                outs.append((cond, s2, v))
            if not outs:
                st.assume(FALSE)
                return EXIT
            nb = len(st.pc)
            cond, cur, v = outs[-1]
            for c2, s2, v2 in outs[-2::-1]:
                cur, (v,) = self.merge2(c2, s2, cur, nb, [(v2, v)])
            self.become(st, cur)
            return v
        if ty[0] == "py" and isinstance(b.meta, tuple) and b.meta[0] == "ss":
            return self.ss_method(b, name, args, kw, st, fr, n)
        return self.data_method(b, ty, name, args, kw, st, fr, n)

    def call_super(self, cls, sv, name, args, kw, st, fr, n):
        for c in cls.mro(self.prog)[1:]:
            if name in c.methods:
                return self.call_func(c.methods[name], args, kw, st, fr, n, sv)
        if name == "__init__":
            return self.none()
        return self.dead(st, "attr", n, exc="AttributeError", fr=fr)

    def construct(self, ci, args, kw, st, fr, n):
        if ci.name in ("Exception",):
            return self.opq()
        ty = ref(ci.qual)
        r = self.alloc(st, ty)
        v = V(ty, r)
        init = ci.find_method(self.prog, "__init__")
        if init is not None:
            out = self.call_func(init, args, kw, st, fr, n, v)
            if out is EXIT:
                return EXIT
        return v

    def bind_args(self, fi, args, kw, st, fr, n, selfv=None):
        params = fi.params
        a = fi.node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Unsupported("variadic function %s" % fi.qual)
        vals = {}
        pos = list(args)
        if fi.cls is not None and not fi.static and selfv is not None:
            pos = [selfv] + pos
        if len(pos) > len(params):
            self.dead(st, "arguments", n, exc="TypeError", fr=fr)
            pos = pos[:len(params)]
        for p, v in zip(params, pos):
            vals[p] = v
        for k, v in kw.items():
            if k not in params or k in vals:
                self.dead(st, "arguments", n, "keyword %s" % k, exc="TypeError", fr=fr)
                continue
            vals[k] = v
        defs = a.defaults
        off = len(params) - len(defs)
        for i, p in enumerate(params):
            if p in vals:
                continue
            if i < off:
                self.dead(st, "arguments", n, "missing %s" % p, exc="TypeError", fr=fr)
                vals[p] = self.opq()
                continue
            vals[p] = self.default_value(fi, p, defs[i - off], st)
        return vals

    def default_value(self, fi, p, d, st):
        if isinstance(d, (ast.Dict, ast.List)):
            ty = ("dict", STR, VAL) if isinstance(d, ast.Dict) else ("list", VAL)
            c = z3.Const("default_%s_%s" % (fi.qual, p), z3.IntSort())
            self.global_axiom("default %s %s" % (fi.qual, p), self.typed(ty, c, self.alloc0))
            return V(ty, c)
        f2 = Frame(None, fi.module, fi.cls, 0)
        f2.specenv = {}
        return self.ev(d, st, f2)

    def call_func(self, fi, args, kw, st, fr, n, selfv=None):
        vals = self.bind_args(fi, args, kw, st, fr, n, selfv)
        c = self.contracts.get(fi.qual)
        if fr.spec and c is None:
            return self.inline(fi, vals, st, fr, n)
        if c is not None and not getattr(c, "inline", False):
            return self.apply_contract(c, fi, vals, st, fr, n)
        return self.inline(fi, vals, st, fr, n)

    def inline(self, fi, vals, st, fr, n):
        if fi.qual in self.call_stack:
            raise Unsupported("recursive call of %s, which has no contract" % fi.qual)
        if len(self.call_stack) > self.MAXDEPTH:
            raise Unsupported("call depth")
        for s in ast.walk(fi.node):
            if isinstance(s, (ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal)):
                raise Unsupported("generator function %s" % fi.qual)
        self.inlined.add(fi.qual)
        self.call_stack.append(fi.qual)
        f2 = Frame(fi, fi.module, fi.cls, fr.depth + 1, spec=fr.spec)
        f2.specenv = {}
        caller_env = st.env
        f2.excsinks = [ProxySink(s, caller_env) for s in fr.excsinks]
        s2 = st.fork()
        s2.env = {p: (v, TRUE) for p, v in vals.items()}
        try:
            end = self.block(fi.node.body, s2, f2)
        finally:
            self.call_stack.pop()
        outs = list(f2.rets)
        if end is not None:
            outs.append((end, self.none()))
        if not outs:
            st.assume(FALSE)
            return EXIT
        for s, _ in outs:
            s.env = {}
        m, (v,) = self.merge_many([(s, [v]) for s, v in outs])
        m.env = caller_env
        self.become(st, m)
        if v.meta == "poison":
            v = self.opq()
        return v

    # ------------------------------------------------------------------ contracts
    def contract_ret(self, c):
        return self.ptype(c.ret, self.schema.ALIASES.get(c.qual.split(":")[0])) if c.ret else NONE

    def ctype(self, c, p):
        t = c.types.get(p)
        return self.ptype(t, self.schema.ALIASES.get(c.qual.split(":")[0])) if t else None

    def apply_contract(self, c, fi, vals, st, fr, n):
        self.used_contracts.add(c.qual)
        if c.trusted:
            self.trusted_used.add(c.qual)
        if any(prune(v.ty)[0] == "opaque" if not isinstance(prune(v.ty), TVar) else False for v in vals.values()):
            pass
        binds = {}
        for p, v in vals.items():
            t = self.ctype(c, p)
            binds[p] = self.coerce(v, t, st, n, fr) if t is not None else v
        mod = fi.module
        for nm, e in c.requires:
            facts, x = self.spec_eval(e, st, binds, None, mod)
            for f in facts:
                st.assume(f)
            self.ob(st, x, "pre", n, "%s requires %s" % (c.qual.split(":")[1], nm), fr=fr)
        old = st.fork()
        rty = self.contract_ret(c)
        if c.modifies or c.allocs or is_reflike(rty) or prune(rty)[0] == "opt":
            a = self.fresh("alloc", z3.IntSort())
            st.assume(a >= st.alloc)
            lo = st.alloc
            st.alloc = a
            self.ranges.append((self.alloc0, a))
            but = self.alloc_classes(c)
            self.alog.update(but)
            self.no_objects(st, lo, a, but)
            for key in sorted(set(st.heap) | set(self.base_heap), key=str):
                if key[0] in ("f", "rec", "elt", "dval"):
                    for ax in self.key_axioms(key, st.h(key), a, lo):
                        st.assume(ax)
        if self.wlog is not None:
            for m in c.modifies:
                pass
        self.havoc_mods(c, binds, old, st, mod)
        res = None
        if prune(rty) == NONE:
            res = self.none()
        elif prune(rty)[0] == "tuple":
            res = V(rty, [V(t, self.fresh("res", sort_of(t))) for t in rty[1]])
            for x in res.t:
                st.assume(self.typed(x.ty, x.t, st.alloc))
        else:
            t = self.fresh("res_" + fi.name, sort_of(rty))
            st.assume(self.typed(rty, t, st.alloc))
            res = V(rty, t)
        b2 = dict(binds)
        b2["result"] = res
        for nm, props, e in c.ensures:
            if nm.startswith("goal:"):
                continue
            facts, x = self.spec_eval(e, st, b2, old, mod)
            for f in facts:
                st.assume(f)
            st.assume(x)
        for exc in c.raises:
            for sk in fr.excsinks[::-1]:
                if sk.accepts(exc):
                    s2 = st.fork()
                    sk.add(s2, exc)
                    break
            else:
                if not (self.contract and exc in self.contract.raises):
                    s2 = st.fork()
                    self.ob(s2, FALSE, "raise", n, exc, fr=fr)
        if c.exits == "always":
            st.assume(FALSE)
            return EXIT
        return res

    def alloc_classes(self, c):
        al = self.schema.ALIASES.get(c.qual.split(":")[0], {})
        return {al.get(x) or self.schema.CLASSES[x] for x in (c.allocs if isinstance(c.allocs, (tuple, list)) else ())}

    def parse_mod(self, m, binds, old, mod):
        """A modifies entry -> list of (heap key, ref term or None, row-filter tags or None)."""
        out = []
        m = m.strip()
        if m.startswith("@"):
            # @Class.field : that field of every object of the class; @list[T]/@dict[..]: every such list
            body = m[1:]
            if body.startswith(("list[", "arr[", "dict[", "set[", "rec[")):
                ty = self.ptype(body, self.schema.ALIASES.get(mod.name) if mod else None)
                tag = self.reftags(ty)
                if ty[0] == "dict":
                    out += [(("dom",), None, tag), (self.dvkey(ty[2]), None, tag)]
                elif ty[0] == "rec":
                    out += [(self.rkey(ty, i), None, tag) for i in range(len(ty[1]))]
                else:
                    out += [(("len",), None, tag), (self.ekey(ty[1]), None, tag)]
                return out
            cn, f = body.rsplit(".", 1)
            ty = self.ptype(cn, self.schema.ALIASES.get(mod.name) if mod else None)
            for cq in ty[1]:
                ft = self.field_type(cq, f)
                if ft is None or prune(ft) == OPAQUE:
                    continue
                out.append((self.fkey(f, ft), None, [self.tag(cq)]))
            return out
        if m.startswith("SS."):
            parts = m.split(".")
            if len(parts) == 3:
                c = self.ss_cell(parts[1], parts[2])
                if c is None:
                    return []
                ty, optional = c
                if optional:
                    out.append((self.gkey("SSP.%s.%s" % (parts[1], parts[2]), BOOL), None, None))
                if prune(ty) != OPAQUE:
                    out.append((self.gkey("SS.%s.%s" % (parts[1], parts[2]), ty), None, None))
                return out
            ty = self.ptype(self.schema.SSATTRS[parts[1]])
            if prune(ty) != OPAQUE:
                out.append((self.gkey("SS." + parts[1], ty), None, None))
            return out
        if m.startswith("global "):
            key = m[7:].strip()
            ty = self.ptype(self.schema.GLOBALS[key])
            if ty != OPAQUE:
                out.append((self.gkey(key, ty), None, None))
            return out
        cont = None
        if m.endswith("[:]"):
            cont, m = "list", m[:-3]
        elif m.endswith("{}"):
            cont, m = "dict", m[:-2]
        tree = ast.parse(m, mode="eval").body
        if cont:
            v = self.spec_value(tree, old, binds, None, mod)
            ty = prune(v.ty)
            if ty[0] == "opt":
                ty = prune(ty[1])
            if ty[0] == "dict":
                return [(("dom",), v.t, None), (self.dvkey(ty[2]), v.t, None)]
            if ty[0] == "rec":
                return [(self.rkey(ty, i), v.t, None) for i in range(len(ty[1]))]
            return [(("len",), v.t, None), (self.ekey(ty[1]), v.t, None)]
        assert isinstance(tree, ast.Attribute), m
        v = self.spec_value(tree.value, old, binds, None, mod)
        ty = prune(v.ty)
        if ty[0] == "opt":
            ty = prune(ty[1])
        name = tree.attr
        for cq in ty[1]:
            nm = name
            if nm.startswith("__"):
                nm = "_%s%s" % (cq.rsplit(".", 1)[1].lstrip("_"), nm)
            ft = self.field_type(cq, nm)
            if ft is None or prune(ft) == OPAQUE:
                continue
            k = self.fkey(nm, ft)
            if not any(o[0] == k for o in out):
                out.append((k, v.t, None))
        return out

    def havoc_mods(self, c, binds, old, st, mod):
        whole, cells = {}, {}
        for m in c.modifies:
            for key, r, tags in self.parse_mod(m, binds, old, mod):
                if key[0] == "g":
                    t = self.fresh("g", self.key_sort(key))
                    self.hset(st, key, t, None)
                    for ax in self.key_axioms(key, t, st.alloc):
                        st.assume(ax)
                elif r is None:
                    whole.setdefault(key, []).extend(tags)
                else:
                    cells.setdefault(key, []).append(r)
        for key in sorted(set(whole) | set(cells), key=str):
            if key in whole:
                cur = st.h(key)
                t = self.fresh("H_call", self.key_sort(key))
                rr = z3.Int("r?")
                tags = whole[key]
                cond = [self.ClassOf(rr) != g for g in {str(x): x for x in tags}.values()] + [rr != q for q in cells.get(key, [])]
                st.assume(ForAll_([rr], z3.Implies(z3.And(*cond), t[rr] == cur[rr]), patterns=[t[rr]]))
                for ax in self.key_axioms(key, t, st.alloc):
                    st.assume(ax)
                self.hset(st, key, t, None)
            else:
                cur = st.h(key)
                for r in cells[key]:
                    x = self.fresh("hv", self.key_sort(key).range())
                    cur = z3.Store(cur, r, x)
                    if self.wlog is not None:
                        self.wlog.setdefault(key, []).append(r)
                    if key[0] in ("f", "rec"):
                        a = self.typed(self.keyty[key], x, st.alloc)
                        st.assume(a)
                    elif key[0] in ("elt", "dval"):
                        kk = z3.Int("k?")
                        a = self.typed(self.keyty[key], x[kk], st.alloc)
                        if not is_true(a):
                            st.assume(ForAll_([kk], a, patterns=[x[kk]]))
                    elif key[0] == "len":
                        st.assume(x >= 0)
                st.heap[key] = cur

    # ------------------------------------------------------------------ settings dictionaries
    def ss_method(self, b, name, args, kw, st, fr, n):
        d = b.meta[1]
        if name == "get":
            key = self.litval(args[0])
            if key is None:
                raise Unsupported("settings key")
            dv = args[1] if len(args) > 1 else self.none()
            c = self.ss_cell(d, key)
            if c is None:
                return dv
            ty, optional = c
            v = self.ss_read(st, d, key, Frame_spec(), n)
            if not optional:
                return v
            return self.merge_val(st.h(self.gkey("SSP.%s.%s" % (d, key), BOOL)), v, dv, st, st)
        if name == "keys":
            return V(PY, None, ("ss", d))
        return self.opq()

    # ------------------------------------------------------------------ data methods
    def data_method(self, b, ty, name, args, kw, st, fr, n):
        k = ty[0]
        if k in ("list", "arr", "set"):
            return self.list_method(b, ty, name, args, kw, st, fr, n)
        if k == "dict":
            return self.dict_method(b, ty, name, args, kw, st, fr, n)
        if k == "str":
            return self.str_method(b, name, args, kw, st, fr, n)
        if k == "opaque":
            return self.opq()
        if k == "val":
            if name in ("lower", "upper", "split", "strip", "replace", "startswith", "endswith"):
                return self.str_method(self.coerce(b, STR, st, n, fr), name, args, kw, st, fr, n)
            raise Unsupported("method %s of a dynamic value" % name)
        if k == "rec" and name == "append":
            raise Unsupported("append to a heterogeneous list")
        if k == "none":
            return self.dead(st, "not-none", n, exc="AttributeError", fr=fr)
        raise Unsupported("method %s of %s" % (name, tkey(ty)))

    def list_method(self, b, ty, name, args, kw, st, fr, n):
        ety = prune(ty[1])
        if name == "append":
            self.append(b, args[0], st, n, fr)
            return self.none()
        if name == "extend":
            self.extend(b, args[0], st)
            return self.none()
        if name == "copy":
            return self.copy_list(b, st)
        if name == "clear":
            self.hstore(st, ("len",), b.t, I(0))
            return self.none()
        if name in ("remove", "index"):
            if isinstance(ety, TVar):
                return self.dead(st, "value", n, exc="ValueError", fr=fr)
            row, ln = self.lrow(st, b), self.llen(st, b)
            p = self.fresh("pos", z3.IntSort())
            j = z3.Int("j?%d" % next(self.cnt))
            same_ = lambda i: self.eq(V(ety, row[i]), args[0], st, fr, n)
            ex = Exists([j], z3.And(j >= 0, j < ln, same_(j)))
            self.ob(st, ex, "value", n, "element present", exc="ValueError", fr=fr)
            st.assume(z3.And(p >= 0, p < ln, same_(p)))
            st.assume(ForAll_([j], z3.Implies(z3.And(j >= 0, j < p), Not_(same_(j))), patterns=[row[j]]))
            if name == "index":
                return V(INT, p)
            self.list_del(b, p, st, n, fr)
            return self.none()
        if name == "pop":
            ln = self.llen(st, b)
            i = self.to_int(args[0], st, n, fr).t if args else ln - 1
            self.ob(st, z3.And(i < ln, i >= -ln), "index", n, exc="IndexError", fr=fr)
            v = V(ety, z3.Select(self.lrow(st, b), z3.If(i < 0, i + ln, i)))
            self.list_del(b, i, st, n, fr)
            return v
        if name == "insert":
            i = self.to_int(args[0], st, n, fr).t
            unify(ety, args[1].ty)
            ety = prune(ety)
            v = self.coerce(args[1], ety, st, n, fr)
            ln, old = self.llen(st, b), self.lrow(st, b)
            i = z3.If(i < 0, z3.If(i + ln < 0, I(0), i + ln), z3.If(i > ln, ln, i))
            row = self.fresh("row", z3.ArraySort(z3.IntSort(), sort_of(ety)))
            j = z3.Int("j?%d" % next(self.cnt))
            st.assume(ForAll_([j], row[j] == z3.If(j < i, old[j], z3.If(j == i, v.t, old[j - 1])), patterns=[row[j]]))
            self.hstore(st, self.ekey(ety), b.t, row)
            self.hstore(st, ("len",), b.t, ln + 1)
            return self.none()
        if name == "count":
            row, ln = self.lrow(st, b), self.llen(st, b)
            r = self.fresh("count", z3.IntSort())
            st.assume(z3.And(r >= 0, r <= ln))
            return V(INT, r)
        if name in ("sort", "reverse"):
            raise Unsupported("list.%s" % name)
        if name in ("tolist", "flatten"):
            return self.copy_list(b, st)
        raise Unsupported("list method %s" % name)

    def dict_method(self, b, ty, name, args, kw, st, fr, n):
        if name in ("keys", "values", "items"):
            return V(PY, None, ("dict" + name, b))
        if name == "get":
            kty = prune(ty[1])
            dv = args[1] if len(args) > 1 else self.none()
            if isinstance(kty, TVar):
                return dv
            kt = self.dict_key(b, args[0], st, n, fr)
            dom = z3.Select(z3.Select(st.h(("dom",)), b.t), kt)
            v = self.dict_val(b, kt, args[0], st, guard=dom)
            if isinstance(prune(dv.ty), tuple) and prune(dv.ty)[0] == "dict" and isinstance(dv.meta, dict):
                unify(prune(dv.ty), prune(v.ty))
            if prune(v.ty) == VAL or prune(dv.ty) == VAL:
                # keep the dynamic view
                if is_reflike(dv.ty) and not is_reflike(v.ty):
                    return V(VAL, z3.If(dom, v.t, self.box(dv)))
            if prune(v.ty)[0] == "rec" and prune(dv.ty)[0] == "rec" and len(prune(v.ty)[1]) != len(prune(dv.ty)[1]):
                return V(PY, None, ("either", dom, v, dv))
            return self.merge_val(dom, v, dv, st, st)
        if name == "copy":
            r = self.alloc(st, ty)
            self.hstore(st, ("dom",), r, z3.Select(st.h(("dom",)), b.t))
            if resolved(ty[2]):
                k = self.dvkey(ty[2])
                self.hstore(st, k, r, z3.Select(st.h(k), b.t))
            return V(ty, r, {"fresh": True})
        if name == "pop":
            kt = self.dict_key(b, args[0], st, n, fr)
            dom = z3.Select(st.h(("dom",)), b.t)
            if len(args) < 2:
                self.ob(st, dom[kt], "key", n, exc="KeyError", fr=fr)
                v = self.dict_val(b, kt, args[0], st)
            else:
                v = self.merge_val(dom[kt], self.dict_val(b, kt, args[0], st, guard=dom[kt]), args[1], st, st)
            self.hstore(st, ("dom",), b.t, z3.Store(dom, kt, FALSE))
            return v
        if name == "setdefault":
            kt = self.dict_key(b, args[0], st, n, fr)
            dom = z3.Select(st.h(("dom",)), b.t)
            v = self.merge_val(dom[kt], self.dict_val(b, kt, args[0], st, guard=dom[kt]), args[1], st, st)
            self.dict_set(b, args[0], v, st, n, fr)
            return v
        if name == "clear":
            self.hstore(st, ("dom",), b.t, z3.K(z3.IntSort(), FALSE))
            return self.none()
        raise Unsupported("dict method %s" % name)

    def str_method(self, b, name, args, kw, st, fr, n):
        s = self.litval(b)
        IS, BS = z3.IntSort(), z3.BoolSort()
        if name in ("lower", "upper", "strip", "title", "rstrip", "lstrip", "capitalize"):
            if s is not None and not args:
                return self.lit(getattr(s, name)())
            if name == "lower":
                # lower-casing a literal is known; lower of anything else is a function of the string
                pass
            extra = "".join(str(a.t) for a in args)
            return V(STR, self.uf("str_" + name + extra, IS, IS)(b.t))
        if name in ("startswith", "endswith"):
            return V(BOOL, self.uf("str_" + name, IS, IS, BS)(b.t, self.coerce(args[0], STR, st, n, fr).t))
        if name in ("isdigit", "isalpha", "isnumeric"):
            return V(BOOL, self.uf("str_" + name, IS, BS)(b.t))
        if name == "split":
            ln = self.fresh("nsplit", IS)
            st.assume(ln >= 1 if args else ln >= 0)
            v = self.new_list_fn(st, STR, ln, lambda j: self.uf("split_item", IS, IS, IS)(b.t, j))
            v.meta = {"fresh": True}
            return v
        if name == "format":
            return V(STR, self.fresh("fmt", IS))
        if name in ("join", "replace"):
            return V(STR, self.fresh("str", IS))
        if name == "count":
            r = self.fresh("count", IS)
            st.assume(r >= 0)
            return V(INT, r)
        raise Unsupported("str method %s" % name)

    # ------------------------------------------------------------------ builtins
    def to_float(self, v, st, fr, n):
        ty = prune(v.ty)
        k = ty[0]
        if k == "opt":
            v = self.coerce(v, ty[1], st, n, fr)
            return self.to_float(v, st, fr, n)
        if k in ("int", "float", "bool"):
            return self.coerce(v, FLOAT, st, n, fr)
        if k == "str":
            self.ob(st, self.strnum(v.t), "float-parse", n, exc="ValueError", fr=fr)
            return V(FLOAT, self.str2real(v.t))
        if k == "val":
            self.ob(st, z3.Or(self.val_isnum(v.t), z3.And(Val.is_VStr(v.t), self.strnum(Val.vstr(v.t)))), "float-parse", n, exc="ValueError", fr=fr)
            return V(FLOAT, self.val_real(v.t))
        if k == "opaque":
            return V(FLOAT, self.fresh("opf", z3.RealSort()))
        if k == "none":
            return self.dead(st, "float-parse", n, exc="TypeError", fr=fr)
        raise Unsupported("float() of %s" % tkey(ty))

    def to_int_builtin(self, v, st, fr, n):
        ty = prune(v.ty)
        k = ty[0]
        if k == "opt":
            return self.to_int_builtin(self.coerce(v, ty[1], st, n, fr), st, fr, n)
        if k in ("int", "bool"):
            return self.coerce(v, INT, st, n, fr)
        if k == "float":
            return V(INT, self.trunc(v.t))
        if k == "str":
            self.ob(st, self.strint(v.t), "int-parse", n, exc="ValueError", fr=fr)
            return V(INT, z3.ToInt(self.str2real(v.t)))
        if k == "val":
            self.ob(st, z3.Or(self.val_isnum(v.t), z3.And(Val.is_VStr(v.t), self.strint(Val.vstr(v.t)))), "int-parse", n, exc="ValueError", fr=fr)
            return V(INT, self.trunc(self.val_real(v.t)))
        if k == "opaque":
            return V(INT, self.fresh("opi", z3.IntSort()))
        if k == "none":
            return self.dead(st, "int-parse", n, exc="TypeError", fr=fr)
        raise Unsupported("int() of %s" % tkey(ty))

    def sumfun(self, real=True):
        """Sum of the first n entries of a row."""
        IS = z3.IntSort()
        srt = z3.RealSort() if real else IS
        A = z3.ArraySort(IS, srt)
        S = self.uf("SumR" if real else "SumI", A, IS, srt)
        nm = "sum" + str(real)
        if nm not in self.axiom_names:
            a, b = z3.Const("a?", A), z3.Const("b?", A)
            m, k, j = z3.Ints("m? k? j?")
            self.global_axiom(nm, z3.And(
                ForAll_([a], S(a, 0) == 0, patterns=[S(a, 0)]),
                ForAll_([a, m], z3.Implies(m >= 0, S(a, m + 1) == S(a, m) + a[m]), patterns=[z3.MultiPattern(S(a, m), a[m])]),
                # lemmas (by induction on m; proved by pyvc.lemmas)
                ForAll_([a, m], z3.Implies(z3.And(m >= 0, ForAll_([k], z3.Implies(z3.And(k >= 0, k < m), a[k] >= 0))), S(a, m) >= 0), patterns=[S(a, m)]),
                ForAll_([a, m], z3.Implies(z3.And(m >= 0, ForAll_([k], z3.Implies(z3.And(k >= 0, k < m), a[k] <= 0))), S(a, m) <= 0), patterns=[S(a, m)]),
                ForAll_([a, m, j], z3.Implies(z3.And(j >= 0, j < m, ForAll_([k], z3.Implies(z3.And(k >= 0, k < m), a[k] >= 0))), S(a, m) >= a[j]),
                        patterns=[z3.MultiPattern(S(a, m), a[j])]),
                z3.ForAll([a, b, m], z3.Implies(z3.And(m >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), a[k] == b[k]))), S(a, m) == S(b, m)),
                          patterns=[z3.MultiPattern(S(a, m), S(b, m))])))
        return S

    def call_builtin(self, name, args, kw, st, fr, n):
        if name == "len":
            v = args[0]
            ty = prune(v.ty)
            if isinstance(ty, TVar):
                raise Unsupported("len")
            if ty[0] == "opt":
                v = self.coerce(v, ty[1], st, n, fr)
                ty = prune(v.ty)
            if ty[0] in ("list", "arr"):
                return V(INT, self.llen(st, v))
            if ty[0] == "rec":
                return V(INT, I(len(ty[1])))
            if ty[0] == "tuple":
                return V(INT, I(len(v.t)))
            if ty[0] == "str":
                return V(INT, self.strlen(v.t))
            if ty[0] == "dict":
                if isinstance(prune(ty[1]), TVar):
                    return V(INT, I(0))
                it = self.iter_dict(v, st, "keys")
                return V(INT, it.length(st))
            if ty[0] == "py" and isinstance(v.meta, tuple) and v.meta[0].startswith("dict"):
                return V(INT, self.iter_dict(v.meta[1], st, "keys").length(st))
            if ty[0] == "none":
                return self.dead(st, "not-none", n, "len(None)", exc="TypeError", fr=fr)
            if ty[0] in ("int", "float", "bool", "ref"):
                return self.dead(st, "operand-type", n, "len", exc="TypeError", fr=fr)
            r = self.fresh("len", z3.IntSort())
            st.assume(r >= 0)
            return V(INT, r)
        if name == "float":
            return self.to_float(args[0], st, fr, n) if args else self.num(0.0)
        if name == "int":
            return self.to_int_builtin(args[0], st, fr, n)
        if name == "bool":
            return V(BOOL, self.truth(args[0], st))
        if name == "str":
            v = args[0]
            if prune(v.ty) == STR:
                return v
            try:
                return V(STR, self.uf("tostr", Val, z3.IntSort())(self.box(v)))
            except Unsupported:
                return V(STR, self.fresh("str", z3.IntSort()))
        if name == "abs":
            x = self.numeric(args[0], st, n, fr)
            if x is None:
                return self.dead(st, "operand-type", n, exc="TypeError", fr=fr)
            return V(x.ty, z3.If(x.t >= 0, x.t, -x.t))
        if name in ("max", "min"):
            return self.maxmin(name, args, st, fr, n)
        if name == "sum":
            return self.sum_(args[0], st, fr, n)
        if name == "round":
            x = self.numeric(args[0], st, n, fr)
            if len(args) > 1:
                return V(FLOAT, self.fresh("round", z3.RealSort()))
            r = self.fresh("round", z3.IntSort())
            st.assume(z3.And(z3.ToReal(r) - x.t <= z3.RealVal("1/2"), x.t - z3.ToReal(r) <= z3.RealVal("1/2")))
            return V(INT, r)
        if name in ("list", "tuple"):
            if not args:
                return self.mk_list([], st, n, fr)
            v = args[0]
            ty = prune(v.ty)
            if ty[0] in ("list", "arr"):
                return self.copy_list(v, st)
            if ty[0] == "opaque":
                return self.opq()
            if ty[0] == "dict" or ty[0] == "py":
                d, what = (v, "keys") if ty[0] == "dict" else (v.meta[1], v.meta[0][4:])
                it = self.iter_dict(d, st, what)
                ety = prune(prune(d.ty)[1 if what == "keys" else 2])
                r = self.new_list_fn(st, ety, it.length(st), lambda j: it.at(st, j).t)
                r.meta = {"fresh": True}
                return r
            raise Unsupported("list()")
        if name == "dict":
            if not args:
                ty = ("dict", TVar(), TVar())
                r = self.alloc(st, ty)
                self.hstore(st, ("dom",), r, z3.K(z3.IntSort(), FALSE))
                return V(ty, r, {"fresh": True})
            return self.dict_method(args[0], prune(args[0].ty), "copy", [], {}, st, fr, n)
        if name in ("any", "all"):
            v = args[0]
            ty = prune(v.ty)
            if ty[0] not in ("list", "arr"):
                raise Unsupported(name)
            j = z3.Int("j?%d" % next(self.cnt))
            row, ln = self.lrow(st, v), self.llen(st, v)
            c = self.truth(V(prune(ty[1]), row[j]), st)
            if name == "any":
                return V(BOOL, Exists([j], z3.And(j >= 0, j < ln, c)))
            return V(BOOL, ForAll_([j], z3.Implies(z3.And(j >= 0, j < ln), c), patterns=[row[j]]))
        if name in ("sorted", "set", "reversed", "enumerate", "zip", "range", "map", "filter", "iter", "next"):
            if name == "sorted" and not kw:
                return self.sorted_(args[0], st, fr, n)
            raise Unsupported("%s() as a value" % name)
        if name == "open" and args and prune(args[0].ty) == STR and (len(args) == 1 or self.litval(args[1]) in ("r", "rt")):
            return V(OPAQUE, self.uf("file_at", z3.IntSort(), z3.IntSort())(args[0].t), ("file",))
        if name in ("open", "type", "hasattr", "getattr", "id", "ValueError", "Exception", "KeyError", "TypeError"):
            return self.opq()
        raise Unsupported("builtin %s" % name)

    def sorted_(self, v, st, fr, n):
        ty = prune(v.ty)
        if ty[0] == "py" and isinstance(v.meta, tuple) and v.meta[0].startswith("dict"):
            v = self.call_builtin("list", [v], {}, st, fr, n)
            ty = prune(v.ty)
        if ty[0] != "list":
            raise Unsupported("sorted")
        # some permutation of the elements (the order itself is not used)
        ety = prune(ty[1])
        ln, row = self.llen(st, v), self.lrow(st, v)
        p = self.uf("perm!%d" % next(self.cnt), z3.IntSort(), z3.IntSort())
        q = self.uf("perm!%d" % next(self.cnt), z3.IntSort(), z3.IntSort())
        j = z3.Int("j?%d" % next(self.cnt))
        r = self.new_list_fn(st, ety, ln, lambda j: row[p(j)])
        st.assume(ForAll_([j], z3.Implies(z3.And(j >= 0, j < ln), z3.And(p(j) >= 0, p(j) < ln, q(p(j)) == j)), patterns=[p(j)]))
        st.assume(ForAll_([j], z3.Implies(z3.And(j >= 0, j < ln), z3.And(q(j) >= 0, q(j) < ln, p(q(j)) == j)), patterns=[q(j)]))
        r.meta = {"fresh": True}
        return r

    def maxmin(self, name, args, st, fr, n):
        if len(args) >= 2:
            cur = None
            for a in args:
                x = self.numeric(a, st, n, fr)
                if x is None:
                    raise Unsupported(name)
                if cur is None:
                    cur = x
                    continue
                p, q = self.numpair(cur, x)
                cond = q.t > p.t if name == "max" else q.t < p.t
                cur = V(p.ty, z3.If(cond, q.t, p.t))
            return cur
        v = args[0]
        ty = prune(v.ty)
        if isinstance(ty, TVar):
            raise Unsupported(name)
        if ty[0] == "opt":
            v = self.coerce(v, ty[1], st, n, fr)
            ty = prune(v.ty)
        if ty[0] == "opaque":
            return self.opq()
        if ty[0] not in ("list", "arr"):
            raise Unsupported("%s of %s" % (name, tkey(ty)))
        ety = prune(ty[1])
        if isinstance(ety, TVar):
            return self.dead(st, "empty", n, name, exc="ValueError", fr=fr)
        if ety[0] not in ("int", "float", "val"):
            raise Unsupported("%s of %s" % (name, tkey(ty)))
        ln, row = self.llen(st, v), self.lrow(st, v)
        self.ob(st, ln > 0, "empty", n, "%s() of an empty sequence" % name, exc="ValueError", fr=fr)
        val = (lambda t: t) if ety[0] != "val" else self.val_real
        srt = sort_of(ety) if ety[0] != "val" else z3.RealSort()
        # the greatest element: a function of the row and the length
        F = self.uf(name + "of", row.sort(), z3.IntSort(), srt)
        A = self.uf(name + "at", row.sort(), z3.IntSort(), z3.IntSort())
        m, p = F(row, ln), A(row, ln)
        j = z3.Int("j?%d" % next(self.cnt))
        st.assume(z3.Implies(ln > 0, z3.And(p >= 0, p < ln, val(row[p]) == m)))
        st.assume(ForAll_([j], z3.Implies(z3.And(j >= 0, j < ln), val(row[j]) <= m if name == "max" else val(row[j]) >= m), patterns=[row[j]]))
        return V(FLOAT if srt == z3.RealSort() else INT, m)

    def sum_(self, v, st, fr, n):
        ty = prune(v.ty)
        if isinstance(ty, TVar):
            raise Unsupported("sum")
        if ty[0] == "opt":
            v = self.coerce(v, ty[1], st, n, fr)
            ty = prune(v.ty)
        if ty[0] == "opaque":
            return V(FLOAT, self.fresh("opsum", z3.RealSort()))
        if ty[0] == "py" and isinstance(v.meta, tuple) and v.meta[0] == "dictvalues":
            v = self.call_builtin("list", [v], {}, st, fr, n)
            ty = prune(v.ty)
        if ty[0] not in ("list", "arr"):
            raise Unsupported("sum of %s" % tkey(ty))
        ety = prune(ty[1])
        if isinstance(ety, TVar):
            return self.num(0)
        if ety[0] == "bool":
            v = self.coerce(V(ty, v.t, {"fresh": True}), (ty[0], INT), st)
            ety = INT
        if ety[0] == "val":
            v = self.coerce(V(ty, v.t, {"fresh": True}), (ty[0], FLOAT), st, n, fr)
            ety = FLOAT
        if ety[0] not in ("int", "float"):
            raise Unsupported("sum of %s" % tkey(ty))
        S = self.sumfun(ety[0] == "float")
        return V(ety, S(self.lrow(st, v), self.llen(st, v)))

    # ------------------------------------------------------------------ trusted externals
    def real_uf(self, nm, *xs):
        return V(FLOAT, self.uf(nm, *([z3.RealSort()] * (len(xs) + 1)))(*[x.t for x in xs]))

    def call_ext(self, name, args, kw, st, fr, n):
        name = name.replace("numpy.", "np.", 1) if name.startswith("numpy.") else name
        IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        fl = lambda v: self.to_float(v, st, fr, n)
        self.trusted_ext.add(name)
        if name in ("random.random", "np.random.random", "np.random.rand"):
            r = self.fresh("random", RS)
            st.assume(z3.And(r >= 0, r < 1))
            return V(FLOAT, r)
        if name in ("random.seed", "np.random.seed"):
            return self.none()
        if name in ("math.sqrt", "np.sqrt"):
            x = fl(args[0])
            self.ob(st, x.t >= 0, "math-domain", n, exc="ValueError", fr=fr)
            v = self.real_uf("sqrt", x)
            st.assume(z3.Implies(x.t >= 0, z3.And(v.t >= 0, v.t * v.t == x.t)))
            return v
        if name in ("math.sin", "math.cos", "math.radians", "math.exp", "math.atan2", "math.asin", "math.acos", "math.atan", "math.tan",
                    "np.sin", "np.cos", "np.radians", "np.exp", "math.fabs"):
            b = name.split(".")[1]
            if b == "fabs":
                x = fl(args[0])
                return V(FLOAT, z3.If(x.t >= 0, x.t, -x.t))
            v = self.real_uf(b, *[fl(a) for a in args])
            a = z3.Real("a?")
            if b in ("sin", "cos"):
                f = v.t.decl()
                self.global_axiom(b, ForAll_([a], z3.And(f(a) <= 1, f(a) >= -1), patterns=[f(a)]))
            if b == "radians":
                f = v.t.decl()
                self.global_axiom(b, ForAll_([a], f(a) == a * z3.Const("pi", RS) / 180, patterns=[f(a)]))
                self.global_axiom("pi", z3.And(z3.Const("pi", RS) > z3.RealVal("3.14159"), z3.Const("pi", RS) < z3.RealVal("3.1416")))
            if b == "exp":
                f = v.t.decl()
                self.global_axiom(b, ForAll_([a], f(a) > 0, patterns=[f(a)]))
            return v
        if name == "math.log":
            x = fl(args[0])
            self.ob(st, x.t > 0, "math-domain", n, exc="ValueError", fr=fr)
            return self.real_uf("log", x)
        if name in ("math.pow", "np.power"):
            return self.power(fl(args[0]), fl(args[1]), st, fr, n)
        if name in ("math.floor",):
            return V(INT, z3.ToInt(fl(args[0]).t))
        if name in ("math.ceil",):
            return V(INT, -z3.ToInt(-fl(args[0]).t))
        if name in ("np.abs", "np.absolute"):
            return self.call_builtin("abs", args, kw, st, fr, n)
        if name in ("np.random.poisson",):
            x = fl(args[0])
            self.ob(st, x.t >= 0, "poisson-rate", n, "rate is not negative", exc="ValueError", fr=fr)
            r = self.fresh("poisson", IS)
            st.assume(r >= 0)
            return V(INT, r)
        if name in ("np.random.randint", "random.randint", "random.randrange"):
            lo, hi = (I(0), self.to_int(args[0], st, n, fr).t) if len(args) == 1 else (self.to_int(args[0], st, n, fr).t, self.to_int(args[1], st, n, fr).t)
            if name == "random.randint":
                hi = hi + 1
            self.ob(st, lo < hi, "randint-range", n, exc="ValueError", fr=fr)
            r = self.fresh("randint", IS)
            st.assume(z3.And(r >= lo, r < hi))
            return V(INT, r)
        if name in ("random.choices", "np.random.choice", "random.choice"):
            return self.choice(name, args, kw, st, fr, n)
        if name in ("np.array", "np.asarray"):
            v = args[0]
            ty = prune(v.ty)
            if ty[0] == "opaque":
                return self.opq()
            ety = prune(ty[1])
            if isinstance(ety, TVar):
                unify(ety, FLOAT)
                ety = FLOAT
            r = self.copy_list(V(("list", ety), v.t), st)
            at = ("arr", ety)
            st.assume(TRUE)
            r2 = self.alloc(st, at)
            self.hstore(st, ("len",), r2, self.llen(st, v))
            self.hstore(st, self.ekey(ety), r2, self.lrow(st, V(("list", ety), v.t)))
            return V(at, r2, {"fresh": True})
        if name in ("np.zeros", "np.ones"):
            if prune(args[0].ty)[0] != "int":
                return self.opq()
            c = z3.RealVal(0 if name == "np.zeros" else 1)
            v = self.new_list_fn(st, FLOAT, args[0].t, lambda j: c, "arr")
            v.meta = {"fresh": True}
            return v
        if name == "np.append":
            a, b = args[0], args[1]
            ety = prune(prune(a.ty)[1])
            el = b.meta.get("elems") if isinstance(b.meta, dict) else None
            if prune(b.ty)[0] in ("int", "float"):
                el = [b]
            if el is None:
                if prune(b.ty)[0] == "list" and isinstance(prune(prune(b.ty)[1]), TVar):
                    el = []
                elif isinstance(b.meta, dict) and b.meta.get("elems0") is not None:
                    el = [self.lget_v(st, b, I(i)) for i in range(len(b.meta["elems0"]))]
                else:
                    raise Unsupported("np.append")
            at = ("arr", ety)
            row, ln = self.lrow(st, a), self.llen(st, a)
            for i, e in enumerate(el):
                row = z3.Store(row, ln + i, self.coerce(e, ety, st, n, fr).t)
            r = self.alloc(st, at)
            self.hstore(st, ("len",), r, z3.simplify(ln + len(el)))
            self.hstore(st, self.ekey(ety), r, row)
            return V(at, r, {"fresh": True})
        if name in ("np.sum",):
            return self.sum_(args[0], st, fr, n)
        if name in ("np.max", "np.min", "np.amax", "np.amin"):
            return self.maxmin(name[-3:], args, st, fr, n)
        if name == "np.mean":
            v = args[0]
            s = self.sum_(v, st, fr, n)
            ln = self.llen(st, v)
            s = self.to_float(s, st, fr, n)
            return V(FLOAT, s.t / z3.ToReal(ln))
        if name in ("copy.copy",):
            return self.shallow_copy(args[0], st, fr, n)
        if name in ("sys.exit", "exit", "os._exit"):
            st.assume(FALSE)
            return EXIT
        if name in ("os.path.exists", "os.path.isfile", "os.path.isdir"):
            return V(BOOL, self.fresh("exists", BS))
        if name in ("os.getenv",):
            return self.opq()
        if name in ("yaml.safe_load", "yaml.full_load") and args and args[0].meta == ("file",):
            return V(VAL, self.yaml_doc(args[0].t))
        if name in ("os.path.join", "os.path.basename", "os.path.dirname"):
            return V(STR, self.fresh("path", IS))
        if name == "csv.reader" and args and args[0].meta == ("file",) and not kw:
            return self.csv_table(args[0].t, st)
        if name == "csv.reader":
            return V(OPAQUE, self.fresh("op", IS), ("stream", ("list", STR)))
        return self.opq()

    def shallow_copy(self, v, st, fr, n):
        ty = prune(v.ty)
        if ty[0] in ("list", "arr"):
            return self.copy_list(v, st)
        if ty[0] == "dict":
            return self.dict_method(v, ty, "copy", [], {}, st, fr, n)
        if ty[0] == "ref" and len(ty[1]) == 1:
            cq = ty[1][0]
            r = self.alloc(st, ty)
            ci = self.prog.cls(cq)
            names = set(self.schema.FIELDS.get(cq, {}))
            for c in ci.mro(self.prog):
                names |= set(self.schema.FIELDS.get(c.qual, {}))
                names |= {f for (q, f) in self.dynfields if q == c.qual}
            for f in sorted(names):
                ft = self.field_type(cq, f)
                if prune(ft) == OPAQUE:
                    continue
                k = self.fkey(f, ft)
                self.hstore(st, k, r, z3.Select(st.h(k), v.t))
            return V(ty, r)
        raise Unsupported("copy.copy")

    def choice(self, name, args, kw, st, fr, n):
        seq = args[0]
        w = kw.get("weights") or kw.get("p") or (args[1] if name == "random.choices" and len(args) > 1 else None)
        ty = prune(seq.ty)
        multi = name == "random.choices"
        if ty[0] == "opaque" or ty[0] == "int":
            return self.opq()
        if ty[0] == "opt":
            seq = self.coerce(seq, ty[1], st, n, fr)
            ty = prune(seq.ty)
        if ty[0] == "py" and isinstance(seq.meta, tuple) and seq.meta[0].startswith("dict"):
            seq = self.call_builtin("list", [seq], {}, st, fr, n)
            ty = prune(seq.ty)
        if ty[0] not in ("list", "arr"):
            raise Unsupported("choice from %s" % tkey(ty))
        ln = self.llen(st, seq)
        self.ob(st, ln > 0, "empty", n, "choice from an empty sequence", exc="IndexError", fr=fr)
        p = self.fresh("chosen", z3.IntSort())
        st.assume(z3.And(p >= 0, p < ln))
        if w is not None and prune(w.ty)[0] in ("list", "arr"):
            wt = prune(prune(w.ty)[1])
            if wt[0] in ("int", "float"):
                wr = self.lrow(st, w)
                self.ob(st, self.llen(st, w) == ln, "shape", n, "as many weights as choices", exc="ValueError", fr=fr)
                S = self.sumfun(wt[0] == "float")
                tot = S(wr, ln)
                self.ob(st, tot > 0, "weights", n, "total of weights must be greater than zero", exc="ValueError", fr=fr)
                # with non-negative weights the choice has a positive weight (an entry of weight zero is never taken)
                j = z3.Int("j?%d" % next(self.cnt))
                nonneg = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), wr[j] >= 0))
                st.assume(z3.Implies(nonneg, wr[p] > 0))
        ety = prune(ty[1])
        size = kw.get("size") or (args[1] if name == "np.random.choice" and len(args) > 1 else None)
        if size is not None:
            # an array of that many choices, each as above
            num = self.to_int(size, st, n, fr).t
            self.ob(st, num >= 0, "size", n, "number of choices is not negative", exc="ValueError", fr=fr)
            f = z3.Function("chosen!%d" % next(self.cnt), z3.IntSort(), z3.IntSort())
            q = z3.Int("q?%d" % next(self.cnt))
            r = self.alloc(st, ("arr", ety))
            row = self.fresh("choices", self.lrow(st, seq).sort())
            self.hstore(st, ("len",), r, num)
            self.hstore(st, self.ekey(ety), r, row)
            facts = [f(q) >= 0, f(q) < ln, row[q] == self.lrow(st, seq)[f(q)]]
            if w is not None and prune(w.ty)[0] in ("list", "arr") and prune(prune(w.ty)[1])[0] in ("int", "float"):
                facts.append(z3.Implies(nonneg, wr[f(q)] > 0))
            st.assume(ForAll_([q], z3.Implies(z3.And(q >= 0, q < num), z3.And(*facts)), patterns=[row[q]]))
            return V(("arr", ety), r, {"fresh": True})
        e = V(ety, z3.Select(self.lrow(st, seq), p))
        if multi:
            v = self.new_list(st, ety, [e])
            v.meta = {"fresh": True, "elems": [e]}
            return v
        return e


def Frame_spec():
    f = Frame(None, None, None, 0, spec=True)
    f.specenv = {}
    return f
