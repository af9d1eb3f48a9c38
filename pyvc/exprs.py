"""Expression evaluation."""
import ast
import z3
from .types import *
from .types import Val
from .engine import *
from .engine import ForAll_, V, State, Frame, Unsupported, I, TRUE, FALSE, And_, Or_, Not_, Imp_, If_
from .source import FuncInfo, ClassInfo, ModuleInfo, ExtMod, Ext

SSDICTS = ("move_rules", "spawn_rules", "log_levels", "optimisations")


def conj(f):
    return And_(*f)


class ExprMixin:
    # ------------------------------------------------------------------ entry
    def ev(self, n, st, fr):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s: %s" % (type(n).__name__, ast.unparse(n)[:60]))
        return m(n, st, fr)

    def ev_Constant(self, n, st, fr):
        v = n.value
        if v is None:
            return self.none()
        if isinstance(v, (bool, int, float)):
            return self.num(v)
        if isinstance(v, str):
            return self.lit(v)
        raise Unsupported("constant %r" % (v,))

    def ev_Name(self, n, st, fr):
        x = n.id
        if x in st.env and x not in fr.globals_decl:
            v, d = st.env[x]
            if isinstance(v.meta, str) and v.meta == "poison":
                raise Unsupported("variable %s has different kinds of value on different paths" % x)
            if not is_true(d):
                self.ob(st, d, "defined", n, exc="UnboundLocalError", fr=fr)
            return v
        if fr.spec:
            if x in fr.specenv:
                return fr.specenv[x]
            if x in self.spec_names():
                return V(PY, None, ("spec", x))
        r = self.prog.lookup(fr.module, x)
        if r is not None:
            if isinstance(r, tuple) and r[0] == "global":
                return self.read_global(st, r[1], x)
            return V(PY, None, r)
        if fr.spec:
            c = self.spec_class(x)
            if c is not None:
                return V(PY, None, c)
        if x in self.builtin_names():
            return V(PY, None, ("builtin", x))
        if fr.spec:
            raise Unsupported("unknown name %s in specification" % x)
        return self.dead(st, "name", n, "undefined name", exc="NameError", fr=fr)

    def read_global(self, st, mod, x):
        key = mod.name + "." + x
        ts = self.schema.GLOBALS.get(key)
        if ts is None:
            node = mod.globals[x]
            if isinstance(node, ast.Constant):
                return self.ev_Constant(node, st, None)
            return V(OPAQUE, self.fresh("glob", z3.IntSort()))
        ty = self.ptype(ts)
        if ty == OPAQUE:
            return V(OPAQUE, self.fresh("glob", z3.IntSort()), ("global", key))
        return V(ty, st.h(self.gkey(key, ty)))

    def ptype(self, s, aliases=None):
        k = (s, id(aliases))
        if k not in self._ptypes:
            self._ptypes[k] = T.parse(s, lambda n: (aliases or {}).get(n) or self.schema.CLASSES.get(n) or (_ for _ in ()).throw(TypeErr("unknown class " + n)))
        return self._ptypes[k]

    # ------------------------------------------------------------------ attributes
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr is not None and fr.cls is not None:
            return "_%s%s" % (fr.cls.name.lstrip("_"), name)
        return name

    def ev_Attribute(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        return self.get_attr(b, self.mangle(n.attr, fr), st, fr, n)

    def get_attr(self, b, name, st, fr, n):
        ty = prune(b.ty)
        if isinstance(ty, TVar):
            return V(PY, None, ("bound", b, name))
        k = ty[0]
        if k == "opt":
            if not is_reflike(ty[1]):
                inner = prune(ty[1])
                b = self.coerce(b, inner, st, n, fr)
            else:
                self.ob(st, b.t != 0, "not-none", n, exc="AttributeError", fr=fr)
                b = V(prune(ty[1]), b.t)
            return self.get_attr(b, name, st, fr, n)
        if k == "none":
            return self.dead(st, "not-none", n, exc="AttributeError", fr=fr)
        if k == "py":
            m = b.meta
            if isinstance(m, ModuleInfo):
                r = self.prog.lookup(m, name)
                if r is None:
                    s = self.prog.module(m.name + "." + name)
                    if s is not None:
                        return V(PY, None, s)
                    return self.dead(st, "attr", n, "no such name in module", exc="AttributeError", fr=fr)
                if isinstance(r, tuple):
                    return self.read_global(st, r[1], name)
                return V(PY, None, r)
            if isinstance(m, (ExtMod, Ext)):
                full = m.name + "." + name
                if full in ("math.pi", "np.pi", "numpy.pi"):
                    return V(FLOAT, z3.Const("pi", z3.RealSort()))
                if full in ("sys.stderr", "sys.stdout", "os.sep"):
                    return self.lit(full)
                return V(PY, None, Ext(full))
            if isinstance(m, ClassInfo):
                return self.class_attr(m, name, st, fr, n)
            if isinstance(m, tuple) and m[0] == "ss":
                return V(PY, None, ("bound", b, name))
            if isinstance(m, tuple) and m[0] == "super":
                return V(PY, None, ("superm", m[1], m[2], name))
            raise Unsupported("attribute %s of %r" % (name, m))
        if k == "ref":
            return self.field(b, ty, name, st, fr, n)
        if k == "opaque":
            return V(OPAQUE, self.fresh("op", z3.IntSort()))
        return V(PY, None, ("bound", b, name))

    def class_attr(self, ci, name, st, fr, n):
        if ci.name == "SimulationSettings":
            if name in SSDICTS:
                return V(PY, None, ("ss", name))
            ts = self.schema.SSATTRS.get(name)
            if ts is not None:
                ty = self.ptype(ts)
                return V(ty, st.h(self.gkey("SS." + name, ty)))
        m = ci.find_method(self.prog, name)
        if m is not None:
            return V(PY, None, m)
        if name in ci.class_assigns:
            return self.ev(ci.class_assigns[name], st, fr)
        return self.dead(st, "attr", n, "class has no such attribute", exc="AttributeError", fr=fr)

    def field_type(self, cq, name):
        """Type of a field of class cq, or None."""
        ci = self.prog.cls(cq)
        mro = [c.qual for c in ci.mro(self.prog)] if ci is not None else [cq]
        for c in mro:
            t = self.schema.FIELDS.get(c, {}).get(name)
            if t is not None:
                return self.ptype(t, self.schema.ALIASES.get(cq.rsplit(".", 1)[0]))
        if (cq, name) in self.dynfields:
            return self.dynfields[(cq, name)]
        # a field the class itself initialises with a literal
        for c in (ci.mro(self.prog) if ci is not None else []):
            init = c.methods.get("__init__")
            if init is None:
                continue
            for s in ast.walk(init.node):
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self":
                            if isinstance(s.value, ast.Constant) and isinstance(s.value.value, (bool, int, float, str)):
                                ty = {bool: BOOL, int: FLOAT, float: FLOAT, str: STR}[type(s.value.value)]
                                self.dynfields[(cq, name)] = ty
                                return ty
                            self.dynfields[(cq, name)] = OPAQUE
                            return OPAQUE
        return None

    def method_of(self, cq, name):
        ci = self.prog.cls(cq)
        return ci.find_method(self.prog, name) if ci is not None else None

    def field(self, b, ty, name, st, fr, n):
        tys = [self.field_type(c, name) for c in ty[1]]
        if all(t is None for t in tys):
            if all(self.method_of(c, name) is not None for c in ty[1]):
                return V(PY, None, ("bound", b, name))
        if any(t is None for t in tys):
            if any(self.method_of(c, name) is not None for c in ty[1]):
                return V(PY, None, ("bound", b, name))
            bad = [c for c, t in zip(ty[1], tys) if t is None]
            if len(bad) == len(ty[1]):
                return self.dead(st, "attr", n, "no attribute %s" % name, exc="AttributeError", fr=fr)
            self.ob(st, z3.And(*[self.ClassOf(b.t) != self.tag(c) for c in bad]), "attr", n, exc="AttributeError", fr=fr)
            keep = tuple(c for c, t in zip(ty[1], tys) if t is not None)
            return self.field(V(ref(*keep), b.t), ref(*keep), name, st, fr, n)
        if not fr.spec:
            for c in ty[1]:
                cond = self.schema.FIELD_COND.get((c, name))
                if cond is not None and not (fr.fi is not None and fr.fi.name == "__init__" and fr.depth == 0):
                    f, x = self.spec_eval(cond, st, {}, None, fr.module)
                    self.ob(st, Imp_(conj(f), x), "attr-set", n, exc="AttributeError", fr=fr)
        t0 = tys[0]
        if all(same(t, t0) for t in tys):
            if prune(t0) == OPAQUE:
                return V(OPAQUE, self.fresh("op", z3.IntSort()))
            return V(t0, z3.Select(st.h(self.fkey(name, t0)), b.t))
        cur = None
        for c, t in zip(ty[1], tys):
            x = V(OPAQUE, self.fresh("op", z3.IntSort())) if prune(t) == OPAQUE else V(t, z3.Select(st.h(self.fkey(name, t)), b.t))
            cur = x if cur is None else self.merge_val(self.ClassOf(b.t) == self.tag(c), x, cur, st, st)
        return cur

    def set_attr(self, b, name, v, st, fr, n):
        ty = prune(b.ty)
        if ty[0] == "opt":
            self.ob(st, b.t != 0, "not-none", n, exc="AttributeError", fr=fr)
            b = V(prune(ty[1]), b.t)
            ty = prune(b.ty)
        if ty[0] == "py" and isinstance(b.meta, ClassInfo):
            ts = self.schema.SSATTRS.get(name) if b.meta.name == "SimulationSettings" else None
            if ts is None:
                raise Unsupported("assignment to class attribute %s" % name)
            cty = self.ptype(ts)
            self.hset(st, self.gkey("SS." + name, cty), self.coerce(v, cty, st, n, fr).t)
            return
        if ty[0] == "opaque":
            return
        if ty[0] != "ref":
            raise Unsupported("attribute assignment on %s" % tkey(ty))
        tys = [self.field_type(c, name) for c in ty[1]]
        for c, t in zip(ty[1], tys):
            if t is None:
                if not resolved(v.ty):
                    raise Unsupported("new attribute %s of undetermined type" % name)
                self.dynfields[(c, name)] = FLOAT if prune(v.ty) == INT else prune(v.ty)
        tys = [self.field_type(c, name) for c in ty[1]]
        if all(same(t, tys[0]) for t in tys):
            if prune(tys[0]) == OPAQUE:
                return
            cv = self.coerce(v, tys[0], st, n, fr)
            self.hstore(st, self.fkey(name, tys[0]), b.t, cv.t)
            return
        for c, t in zip(ty[1], tys):
            if prune(t) == OPAQUE:
                continue
            k = self.fkey(name, t)
            cv = self.coerce(v, t, st, n, fr)
            self.hset(st, k, z3.If(self.ClassOf(b.t) == self.tag(c), z3.Store(st.h(k), b.t, cv.t), st.h(k)), b.t)

    # ------------------------------------------------------------------ subscripts
    def ss_cell(self, d, key):
        ts = self.schema.SS.get(d, {}).get(key)
        if ts is None:
            return None
        optional = ts.endswith("!opt")
        return self.ptype(ts[:-4] if optional else ts), optional

    def ss_read(self, st, d, key, fr, n):
        c = self.ss_cell(d, key)
        if c is None:
            return self.dead(st, "key", n, "no setting %s[%r]" % (d, key), exc="KeyError", fr=fr)
        ty, optional = c
        if optional and not fr.spec:
            self.ob(st, st.h(self.gkey("SSP.%s.%s" % (d, key), BOOL)), "key", n, exc="KeyError", fr=fr)
        if prune(ty) == OPAQUE:
            return V(OPAQUE, self.fresh("op", z3.IntSort()))
        return V(ty, st.h(self.gkey("SS.%s.%s" % (d, key), ty)))

    def ev_Subscript(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        return self.subscript(b, n.slice, st, fr, n)

    def subscript(self, b, sl, st, fr, n):
        ty = prune(b.ty)
        if isinstance(ty, TVar):
            raise Unsupported("subscript of undetermined value")
        k = ty[0]
        if k == "opt":
            self.ob(st, b.t != 0 if is_reflike(ty[1]) else Not_(Val.is_VNone(b.t)), "not-none", n, exc="TypeError", fr=fr)
            b = V(prune(ty[1]), b.t)
            return self.subscript(b, sl, st, fr, n)
        if k == "py" and isinstance(b.meta, tuple) and b.meta[0] == "ss":
            key = self.litval(self.ev(sl, st, fr))
            if key is None:
                raise Unsupported("settings subscript is not a literal")
            return self.ss_read(st, b.meta[1], key, fr, n)
        if k == "py" and isinstance(b.meta, tuple) and b.meta[0] == "either":
            # one of two records of different shapes
            _, c, x, y = b.meta
            if fr.spec:
                return self.merge_val(c, self.subscript(x, sl, st, fr, n), self.subscript(y, sl, st, fr, n), st, st)
            s1, s2, nb = st.fork(), st.fork(), len(st.pc)
            s1.assume(c)
            s2.assume(Not_(c))
            m, (v,) = self.merge2(c, s1, s2, nb, [(self.subscript(x, sl, s1, fr, n), self.subscript(y, sl, s2, fr, n))])
            self.become(st, m)
            return v
        if k in ("list", "arr"):
            if isinstance(sl, ast.Slice):
                return self.slice(b, sl, st, fr, n)
            if isinstance(sl, ast.Tuple):
                cur = b
                for e in sl.elts:
                    cur = self.index(cur, self.ev(e, st, fr), st, fr, n)
                return cur
            return self.index(b, self.ev(sl, st, fr), st, fr, n)
        if k == "rec":
            i = self.ev(sl, st, fr)
            i = self.to_int(i, st, n, fr)
            c = z3.simplify(i.t)
            if not z3.is_int_value(c):
                raise Unsupported("non-constant subscript of a heterogeneous list")
            j = c.as_long()
            m = len(ty[1])
            if not -m <= j < m:
                return self.dead(st, "index", n, exc="IndexError", fr=fr)
            j %= m
            return V(ty[1][j], z3.Select(st.h(self.rkey(ty, j)), b.t))
        if k == "tuple":
            if isinstance(sl, ast.Slice):
                raise Unsupported("tuple slice")
            c = z3.simplify(self.ev(sl, st, fr).t)
            if not z3.is_int_value(c):
                raise Unsupported("tuple subscript")
            j = c.as_long()
            if not -len(b.t) <= j < len(b.t):
                return self.dead(st, "index", n, exc="IndexError", fr=fr)
            return b.t[j]
        if k == "dict":
            key = self.ev(sl, st, fr)
            kt = self.dict_key(b, key, st, n, fr)
            self.ob(st, z3.Select(z3.Select(st.h(("dom",)), b.t), kt), "key", n, exc="KeyError", fr=fr)
            return self.dict_val(b, kt, key, st)
        if k == "val":
            # a dynamic value used as a list of dynamic values, or (with a string) as a mapping
            i = self.ev(sl, st, fr)
            if prune(i.ty) == STR:
                dv = self.unbox(b, DOCDICT, st, n, fr)
                kt = self.dict_key(dv, i, st, n, fr)
                self.ob(st, z3.Select(z3.Select(st.h(("dom",)), dv.t), kt), "key", n, exc="KeyError", fr=fr)
                return self.dict_val(dv, kt, i, st)
            lv = self.unbox(b, ("list", VAL), st, n, fr)
            return self.index(lv, i, st, fr, n)
        if k == "opaque":
            if not isinstance(sl, ast.Slice):
                self.ev(sl, st, fr)
            return V(OPAQUE, self.fresh("op", z3.IntSort()))
        if k == "str":
            if isinstance(sl, ast.Slice):
                return V(STR, self.fresh("substr", z3.IntSort()))
            i = self.to_int(self.ev(sl, st, fr), st, n, fr)
            ln = self.strlen(b.t)
            self.ob(st, z3.And(i.t < ln, i.t >= -ln), "index", n, exc="IndexError", fr=fr)
            return V(STR, self.uf("charat", z3.IntSort(), z3.IntSort(), z3.IntSort())(b.t, i.t))
        raise Unsupported("subscript of %s" % tkey(ty))

    def to_int(self, v, st, n, fr):
        ty = prune(v.ty)
        if ty[0] in ("int", "bool", "val", "opt", "opaque"):
            return self.coerce(v, INT, st, n, fr)
        raise Unsupported("index of type %s" % tkey(ty))

    def index(self, b, i, st, fr, n):
        ty = prune(b.ty)
        if ty[0] == "opt":
            self.ob(st, b.t != 0, "not-none", n, exc="TypeError", fr=fr)
            b = V(prune(ty[1]), b.t)
            ty = prune(b.ty)
        if ty[0] == "rec" or ty[0] == "tuple":
            c = z3.simplify(i.t)
            if ty[0] == "rec" and z3.is_int_value(c):
                return V(ty[1][c.as_long()], z3.Select(st.h(self.rkey(ty, c.as_long())), b.t))
            raise Unsupported("index")
        if ty[0] not in ("list", "arr"):
            raise Unsupported("index of %s" % tkey(ty))
        i = self.to_int(i, st, n, fr)
        ln = self.llen(st, b)
        idx = i.t
        c = z3.simplify(idx)
        if z3.is_int_value(c):
            if c.as_long() < 0:
                self.ob(st, ln >= -c.as_long(), "index", n, exc="IndexError", fr=fr)
                idx = ln + c
            else:
                self.ob(st, ln > c, "index", n, exc="IndexError", fr=fr)
                idx = c
        else:
            if fr.spec:
                pass
            else:
                self.ob(st, z3.And(idx < ln, idx >= -ln), "index", n, exc="IndexError", fr=fr)
                if not self.quick_nonneg(st, idx):
                    idx = z3.If(idx < 0, idx + ln, idx)
        ety = prune(ty[1])
        return V(ety, z3.Select(z3.Select(st.h(self.ekey(ety)), b.t), idx))

    def quick_nonneg(self, st, idx):
        """Syntactic search: is idx >= 0 among the facts?"""
        for f in st.pc[::-1]:
            if z3.is_and(f):
                for g in f.children():
                    if self._ge0(g, idx):
                        return True
            elif self._ge0(f, idx):
                return True
        return self.quick([f for f in st.pc if not z3.is_quantifier(f)], idx >= 0, 200)

    def _ge0(self, f, idx):
        return z3.is_ge(f) and f.arg(0).eq(idx) and z3.is_int_value(f.arg(1)) and f.arg(1).as_long() >= 0

    def slice(self, b, sl, st, fr, n):
        ety = prune(prune(b.ty)[1])
        kind = prune(b.ty)[0]
        ln = self.llen(st, b)
        step = 1
        if sl.step is not None:
            c = z3.simplify(self.ev(sl.step, st, fr).t)
            if not z3.is_int_value(c) or c.as_long() not in (1, -1):
                raise Unsupported("slice step")
            step = c.as_long()

        def norm(e, default):
            if e is None:
                return default
            t = self.to_int(self.ev(e, st, fr), st, n, fr).t
            t = z3.simplify(t)
            if z3.is_int_value(t):
                c = t.as_long()
                if c >= 0:
                    return z3.If(ln < c, ln, I(c)) if step == 1 else z3.If(ln - 1 < c, ln - 1, I(c))
                lo = 0 if step == 1 else -1
                return z3.If(ln + c < lo, I(lo), ln + c)
            if step == -1:
                raise Unsupported("reverse slice bounds")
            t = z3.If(t < 0, t + ln, t)
            return z3.If(t < 0, I(0), z3.If(t > ln, ln, t))
        row = self.lrow(st, b) if resolved(ety) else None
        if step == 1:
            lo, hi = norm(sl.lower, I(0)), norm(sl.upper, ln)
            m = z3.simplify(z3.If(hi > lo, hi - lo, I(0)))
            fn = lambda j: row[lo + j]
        else:
            if sl.upper is not None:
                raise Unsupported("reverse slice with an upper bound")
            lo = norm(sl.lower, ln - 1)
            m = z3.simplify(z3.If(lo >= 0, lo + 1, I(0)))
            fn = lambda j: row[lo - j]
        if row is None:
            return self.new_list(st, ety, [], kind)
        v = self.new_list_fn(st, ety, m, fn, kind)
        v.meta = {"fresh": True}
        return v

    # dicts
    def dict_key(self, d, key, st, n, fr):
        ty = prune(d.ty)
        kt = prune(ty[1])
        if isinstance(kt, TVar):
            unify(kt, key.ty)
            kt = prune(ty[1])
        k = self.coerce(key, kt, st, n, fr)
        if prune(kt)[0] not in ("str", "int"):
            raise Unsupported("dict keys of type %s" % tkey(kt))
        return k.t

    def dict_val(self, d, kt, key, st, guard=None):
        vt = prune(prune(d.ty)[2])
        t = z3.Select(z3.Select(st.h(self.dvkey(vt)), d.t), kt)
        if vt == VAL:
            s = self.litval(key) if key is not None else None
            at = self.schema.ATTR_KEYS.get(s) if s else None
            if at is not None:
                ty = self.ptype(at)
                if is_reflike(ty):
                    st.assume(self.typed(ty, Val.vref(t), st.alloc) if guard is None else Imp_(guard, self.typed(ty, Val.vref(t), st.alloc)))
                    return V(ty, Val.vref(t))
        return V(vt, t)

    def dict_set(self, d, key, v, st, n, fr):
        ty = prune(d.ty)
        kt = self.dict_key(d, key, st, n, fr)
        vt = prune(ty[2])
        if isinstance(vt, TVar):
            unify(vt, v.ty)
            vt = prune(vt)
        cv = self.coerce(v, vt, st, n, fr)
        dk = self.dvkey(vt)
        dom = z3.Select(st.h(("dom",)), d.t)
        self.hstore(st, ("dom",), d.t, z3.Store(dom, kt, TRUE))
        self.hstore(st, dk, d.t, z3.Store(z3.Select(st.h(dk), d.t), kt, cv.t))

    # ------------------------------------------------------------------ literals
    def ev_List(self, n, st, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            raise Unsupported("starred list")
        els = [self.ev(e, st, fr) for e in n.elts]
        return self.mk_list(els, st, n, fr)

    def mk_list(self, els, st, n, fr):
        if not els:
            v = self.new_list(st, TVar(), [])
            v.meta = {"fresh": True, "elems": []}
            return v
        ety = els[0].ty
        try:
            kinds = set()
            for e in els:
                p = prune(e.ty)
                kinds.add("?" if isinstance(p, TVar) else "num" if p[0] in ("int", "float", "bool") else p[0])
            if len(kinds) > 1 and kinds != {"none", "ref"}:
                raise TypeErr("mixed")
            for e in els[1:]:
                ety = unify(ety, e.ty)
            v = self.new_list(st, ety, els)
            v.meta = {"fresh": True, "elems": els}
            return v
        except TypeErr:
            ty = ("rec", tuple(e.ty for e in els))
            return self.new_rec(st, ty, els, n, fr)

    def ev_Tuple(self, n, st, fr):
        els = [self.ev(e, st, fr) for e in n.elts]
        return V(("tuple", tuple(e.ty for e in els)), els)

    def ev_Dict(self, n, st, fr):
        ty = ("dict", TVar(), TVar())
        r = self.alloc(st, ty)
        self.hstore(st, ("dom",), r, z3.K(z3.IntSort(), FALSE))
        d = V(ty, r, {"fresh": True})
        for k, v in zip(n.keys, n.values):
            self.dict_set(d, self.ev(k, st, fr), self.ev(v, st, fr), st, n, fr)
        return d

    def ev_Set(self, n, st, fr):
        return self.ev_List(n, st, fr)

    def ev_JoinedStr(self, n, st, fr):
        for p in n.values:
            if isinstance(p, ast.FormattedValue):
                self.ev(p.value, st, fr)
        return V(STR, self.fresh("fstr", z3.IntSort()))

    def ev_FormattedValue(self, n, st, fr):
        self.ev(n.value, st, fr)
        return V(STR, self.fresh("fstr", z3.IntSort()))

    # ------------------------------------------------------------------ operators
    def ev_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return V(BOOL, Not_(self.truth(v, st)))
        ty = prune(v.ty)
        if ty[0] in ("opt", "val", "opaque"):
            v = self.coerce(v, FLOAT if ty[0] != "opt" else prune(ty[1]), st, n, fr)
            ty = prune(v.ty)
        if ty[0] == "bool":
            v = self.coerce(v, INT, st)
            ty = INT
        if isinstance(n.op, ast.USub) and ty[0] in ("int", "float"):
            return V(ty, z3.simplify(-v.t) if z3.is_int_value(v.t) or z3.is_rational_value(v.t) else -v.t)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def ev_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        if fr.spec:
            ts = [self.truth(self.ev(e, st, fr), st) for e in n.values]
            return V(BOOL, And_(*ts) if isand else Or_(*ts))
        v = self.ev(n.values[0], st, fr)
        for i, e in enumerate(n.values[1:]):
            c = self.truth(v, st)
            # evaluate the rest only when needed
            go = c if isand else Not_(c)
            if is_false(z3.simplify(go)):
                return v
            s2 = st.fork()
            nb = len(st.pc)
            s2.assume(go)
            v2 = self.ev(e, s2, fr)
            s1 = st.fork()
            s1.assume(Not_(go))
            m, (mv,) = self.merge2(go, s2, s1, nb, [(v2 if prune(v2.ty) == prune(v.ty) else V(BOOL, self.truth(v2, s2)),
                                                     v if prune(v2.ty) == prune(v.ty) else V(BOOL, self.truth(v, s1)))])
            self.become(st, m)
            if prune(v.ty) == BOOL and prune(v2.ty) == BOOL:
                v = V(BOOL, And_(c, v2.t) if isand else Or_(c, v2.t))
            else:
                v = mv
        return v

    def become(self, st, m):
        st.env, st.heap, st.alloc, st.pc = m.env, m.heap, m.alloc, m.pc

    def ev_IfExp(self, n, st, fr):
        c = self.truth(self.ev(n.test, st, fr), st)
        if fr.spec:
            a, b = self.ev(n.body, st, fr), self.ev(n.orelse, st, fr)
            return self.merge_val(c, a, b, st, st)
        s1, s2 = st.fork(), st.fork()
        nb = len(st.pc)
        s1.assume(c)
        s2.assume(Not_(c))
        a, b = self.ev(n.body, s1, fr), self.ev(n.orelse, s2, fr)
        m, (v,) = self.merge2(c, s1, s2, nb, [(a, b)])
        self.become(st, m)
        return v

    def ev_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st, fr)
            s2 = self.state_of(r, st, fr) if fr.spec and isinstance(op, (ast.In, ast.NotIn)) else st
            out.append(self.compare(op, left, right, s2, fr, n))
            left = right
        return V(BOOL, And_(*out))

    def compare(self, op, a, b, st, fr, n):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains_(a, b, st, fr, n)
            return c if isinstance(op, ast.In) else Not_(c)
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.is_(a, b, st, fr, n)
            return c if isinstance(op, ast.Is) else Not_(c)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.eq(a, b, st, fr, n)
            return c if isinstance(op, ast.Eq) else Not_(c)
        x, y = self.numeric(a, st, n, fr), self.numeric(b, st, n, fr)
        if x is None or y is None:
            ta, tb = prune(a.ty), prune(b.ty)
            if ta == STR and tb == STR:
                lt = self.uf("strlt", z3.IntSort(), z3.IntSort(), z3.BoolSort())
                return {ast.Lt: lt(a.t, b.t), ast.Gt: lt(b.t, a.t), ast.LtE: Not_(lt(b.t, a.t)), ast.GtE: Not_(lt(a.t, b.t))}[type(op)]
            if ta[0] == "none" or tb[0] == "none" or ta == STR or tb == STR:
                self.dead(st, "compare", n, exc="TypeError", fr=fr)
                return self.fresh("cmp", z3.BoolSort())
            raise Unsupported("comparison of %s and %s" % (tkey(ta), tkey(tb)))
        x, y = self.numpair(x, y)
        return PYCMP[type(op)](x.t, y.t)

    def numeric(self, v, st, n, fr):
        """Numeric view of a value, or None."""
        ty = prune(v.ty)
        k = ty[0] if not isinstance(ty, TVar) else "?"
        if k in ("int", "float"):
            return v
        if k == "bool":
            return V(INT, z3.If(v.t, I(1), I(0)))
        if k == "val":
            self.ob(st, self.val_isnum(v.t), "value-type", n, exc="TypeError", fr=fr)
            return V(FLOAT, self.val_real(v.t))
        if k == "opt" and not is_reflike(ty[1]):
            inner = prune(ty[1])
            if inner[0] in ("int", "float", "bool"):
                return self.numeric(self.coerce(v, inner, st, n, fr), st, n, fr)
            return None
        if k == "opaque":
            return V(FLOAT, self.fresh("opnum", z3.RealSort()))
        return None

    def numpair(self, x, y):
        if x.ty == y.ty:
            return x, y
        f = lambda v: v if v.ty == FLOAT else V(FLOAT, z3.simplify(z3.ToReal(v.t)) if z3.is_int_value(v.t) else z3.ToReal(v.t))
        return f(x), f(y)

    def eq(self, a, b, st, fr, n):
        ta, tb = prune(a.ty), prune(b.ty)
        if isinstance(ta, TVar) or isinstance(tb, TVar):
            raise Unsupported("equality of undetermined values")
        ka, kb = ta[0], tb[0]
        if ka == "opaque" or kb == "opaque":
            return self.fresh("eqop", z3.BoolSort())
        if ka == "none" or kb == "none":
            return self.is_(a, b, st, fr, n)
        num = ("int", "float", "bool")
        if ka in num and kb in num:
            if ka == "bool" and kb == "bool":
                return a.t == b.t
            x, y = self.numpair(self.numeric(a, st, n, fr), self.numeric(b, st, n, fr))
            return x.t == y.t
        if ka == "str" and kb == "str":
            return a.t == b.t
        if ka == "val" or kb == "val":
            v, o = (a, b) if ka == "val" else (b, a)
            ko = prune(o.ty)[0]
            if ko in num:
                x = self.numeric(o, st, n, fr)
                x = self.numpair(x, V(FLOAT, z3.RealVal(0)))[0]
                return z3.And(self.val_isnum(v.t), self.val_real(v.t) == x.t)
            return v.t == self.box(o)
        if ka == "opt" or kb == "opt":
            if ka == "opt" and is_reflike(ta[1]) or kb == "opt" and is_reflike(tb[1]):
                ia = prune(ta[1]) if ka == "opt" else ta
                ib = prune(tb[1]) if kb == "opt" else tb
                if ia[0] == "ref" and ib[0] == "ref":
                    return a.t == b.t
                return z3.Or(z3.And(a.t == 0, b.t == 0),
                             z3.And(a.t != 0, b.t != 0, self.eq(V(ia, a.t), V(ib, b.t), st, fr, n)))
            if ka == "opt" and kb == "opt":
                return a.t == b.t
            o, x = (a, b) if ka == "opt" else (b, a)
            inner = prune(prune(o.ty)[1])
            kx = prune(x.ty)[0]
            if inner[0] in num and kx in num:
                u = self.unbox(V(VAL, o.t), inner, st, quiet=True)
                return z3.And(Not_(Val.is_VNone(o.t)), self.eq(u, x, st, fr, n))
            return o.t == self.box(x)
        if ka in ("list", "arr") and kb in ("list", "arr"):
            ea, eb = prune(ta[1]), prune(tb[1])
            if isinstance(ea, TVar) or isinstance(eb, TVar):
                lens = self.llen(st, a) == self.llen(st, b)
                if isinstance(ea, TVar) and isinstance(eb, TVar):
                    return lens
                unify(ea, eb)
                ea = eb = prune(ea)
            j = z3.Int("j?%d" % next(self.cnt))
            ra, rb = self.lrow(st, a), self.lrow(st, b)
            if is_reflike(ea) and prune(ea)[0] in ("list", "arr"):
                body = self.eq(V(ea, ra[j]), V(eb, rb[j]), st, fr, n)
            elif same(ea, eb):
                body = ra[j] == rb[j]
            else:
                body = self.eq(V(ea, ra[j]), V(eb, rb[j]), st, fr, n)
            return z3.And(self.llen(st, a) == self.llen(st, b),
                          Forall([j], z3.Implies(z3.And(j >= 0, j < self.llen(st, a)), body)))
        if ka == "ref" and kb == "ref":
            return a.t == b.t
        if ka == "tuple" and kb == "tuple":
            return And_(*[self.eq(x, y, st, fr, n) for x, y in zip(a.t, b.t)]) if len(a.t) == len(b.t) else FALSE
        if ka == "rec" and kb == "rec" and len(ta[1]) == len(tb[1]):
            return And_(*[self.eq(V(x, z3.Select(st.h(self.rkey(ta, i)), a.t)), V(y, z3.Select(st.h(self.rkey(tb, i)), b.t)), st, fr, n)
                          for i, (x, y) in enumerate(zip(ta[1], tb[1]))])
        if {ka, kb} & set(num) and {ka, kb} & {"str", "list", "dict", "ref"}:
            return FALSE
        if {ka, kb} & {"str"} and {ka, kb} & {"list", "dict", "ref"}:
            return FALSE
        if ka == "dict" and kb == "dict":
            return a.t == b.t
        raise Unsupported("equality of %s and %s" % (tkey(ta), tkey(tb)))

    def is_(self, a, b, st, fr, n):
        ta, tb = prune(a.ty), prune(b.ty)
        ka, kb = ta[0], tb[0]
        if ka == "none" or kb == "none":
            o = b if ka == "none" else a
            ko = prune(o.ty)[0]
            if ko == "none":
                return TRUE
            if ko == "opt":
                return o.t == 0 if is_reflike(prune(o.ty)[1]) else Val.is_VNone(o.t)
            if ko == "val":
                return Val.is_VNone(o.t)
            if ko == "opaque":
                return self.fresh("isnone", z3.BoolSort())
            return FALSE
        if ka == "bool" and kb == "bool":
            return a.t == b.t
        if ka == "bool" or kb == "bool":
            o, x = (a, b) if kb == "bool" else (b, a)
            ko = prune(o.ty)[0]
            if ko == "val":
                return o.t == Val.VBool(x.t)
            if ko == "opt":
                return o.t == Val.VBool(x.t) if not is_reflike(prune(o.ty)[1]) else FALSE
            if ko == "opaque":
                return self.fresh("isb", z3.BoolSort())
            return FALSE
        if fr.spec:
            return self.eq(a, b, st, fr, n) if ka == "str" else a.t == b.t
        if ka == "str" and kb == "str" or ka in ("int", "float") and kb in ("int", "float"):
            # object identity of immutable values: implies equality, nothing more
            s = self.fresh("same", z3.BoolSort())
            st.assume(z3.Implies(s, self.eq(a, b, st, fr, n)))
            return s
        if (is_reflike(ta) or ka == "opt") and (is_reflike(tb) or kb == "opt"):
            return a.t == b.t
        if ka == "opaque" or kb == "opaque":
            return self.fresh("isop", z3.BoolSort())
        raise Unsupported("identity of %s and %s" % (tkey(ta), tkey(tb)))

    def contains_(self, a, b, st, fr, n):
        tb = prune(b.ty)
        if isinstance(tb, TVar):
            raise Unsupported("in")
        kb = tb[0]
        if kb == "str":
            x = self.coerce(a, STR, st, n, fr)
            la, lb = self.litval(x), self.litval(b)
            if la is not None and lb is not None:
                return z3.BoolVal(la in lb)
            return self.contains(x.t, b.t)
        if kb == "dict":
            kt = prune(tb[1])
            if isinstance(kt, TVar):
                return FALSE if not self.wrote_dict(b) else FALSE
            return z3.Select(z3.Select(st.h(("dom",)), b.t), self.dict_key(b, a, st, n, fr))
        if kb in ("list", "arr"):
            ety = prune(tb[1])
            if isinstance(ety, TVar):
                return FALSE
            if isinstance(b.meta, dict) and b.meta.get("elems") is not None:
                return Or_(*[self.eq(a, e, st, fr, n) for e in b.meta["elems"]])
            j = z3.Int("j?%d" % next(self.cnt))
            row = self.lrow(st, b)
            return Exists([j], z3.And(j >= 0, j < self.llen(st, b), self.eq(V(ety, row[j]), a, st, fr, n)))
        if kb == "tuple":
            return Or_(*[self.eq(a, e, st, fr, n) for e in b.t])
        if kb == "py" and isinstance(b.meta, tuple) and b.meta[0] in ("ss", "sskeys"):
            key = self.litval(a)
            c = self.ss_cell(b.meta[1], key) if key is not None else None
            if key is None:
                raise Unsupported("settings membership")
            if c is None:
                return FALSE
            return st.h(self.gkey("SSP.%s.%s" % (b.meta[1], key), BOOL)) if c[1] else TRUE
        if kb == "opaque":
            return self.fresh("inop", z3.BoolSort())
        if kb == "val" and prune(a.ty) == STR:
            return self.contains_(a, self.unbox(b, DOCDICT, st, n, fr), st, fr, n)
        if kb == "opt":
            self.ob(st, b.t != 0, "not-none", n, exc="TypeError", fr=fr)
            return self.contains_(a, V(prune(tb[1]), b.t), st, fr, n)
        if kb == "py" and isinstance(b.meta, tuple) and b.meta[0] == "dictkeys":
            return self.contains_(a, b.meta[1], st, fr, n)
        raise Unsupported("membership in %s" % tkey(tb))

    def wrote_dict(self, b):
        return False

    def ev_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.binop(n.op, a, b, st, fr, n)

    def binop(self, op, a, b, st, fr, n):
        ta, tb = prune(a.ty), prune(b.ty)
        ka = ta[0] if not isinstance(ta, TVar) else "?"
        kb = tb[0] if not isinstance(tb, TVar) else "?"
        if ka == "opt" and is_reflike(ta[1]):
            a = self.coerce(a, ta[1], st, n, fr)
            return self.binop(op, a, b, st, fr, n)
        if kb == "opt" and is_reflike(tb[1]):
            b = self.coerce(b, tb[1], st, n, fr)
            return self.binop(op, a, b, st, fr, n)
        if ka == "opaque" or kb == "opaque":
            return V(OPAQUE, self.fresh("op", z3.IntSort()))
        if isinstance(op, ast.Add) and ka == "list" and kb in ("list",):
            return self.concat(a, b, st)
        if isinstance(op, ast.Mult) and ka == "list" and kb in ("int", "val"):
            return self.repeat(a, self.to_int(b, st, n, fr), st)
        if ka == "arr" or kb == "arr":
            return self.arr_op(op, a, b, st, fr, n)
        if isinstance(op, ast.Mod) and ka == "str":
            return V(STR, self.fresh("fmt", z3.IntSort()))
        if isinstance(op, ast.Add) and ka == "str":
            y = self.coerce(b, STR, st, n, fr)
            return V(STR, self.uf("concat", z3.IntSort(), z3.IntSort(), z3.IntSort())(a.t, y.t))
        x, y = self.numeric(a, st, n, fr), self.numeric(b, st, n, fr)
        if x is None or y is None:
            if ka == "none" or kb == "none" or "str" in (ka, kb):
                self.dead(st, "operand-type", n, exc="TypeError", fr=fr)
                return V(FLOAT, self.fresh("bad", z3.RealSort()))
            if {ka, kb} & {"ref", "list", "dict"}:
                self.dead(st, "operand-type", n, exc="TypeError", fr=fr)
                return V(OPAQUE, self.fresh("bad", z3.IntSort()))
            raise Unsupported("operator on %s and %s" % (tkey(ta), tkey(tb)))
        return self.arith(op, x, y, st, fr, n)

    def arith(self, op, x, y, st, fr, n):
        if isinstance(op, ast.Div):
            z = V(FLOAT, z3.RealVal(0))
            x, y = self.numpair(x, z)[0], self.numpair(y, z)[0]
            self.ob(st, y.t != 0, "div-zero", n, exc="ZeroDivisionError", fr=fr)
            return V(FLOAT, x.t / y.t)
        if isinstance(op, ast.Pow):
            return self.power(x, y, st, fr, n)
        x, y = self.numpair(x, y)
        if isinstance(op, ast.Add):
            return V(x.ty, x.t + y.t)
        if isinstance(op, ast.Sub):
            return V(x.ty, x.t - y.t)
        if isinstance(op, ast.Mult):
            return V(x.ty, x.t * y.t)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            self.ob(st, y.t != 0, "div-zero", n, exc="ZeroDivisionError", fr=fr)
            if x.ty == INT:
                # z3 div/mod is Euclidean; Python floors
                q = z3.If(y.t > 0, x.t / y.t, (-x.t) / (-y.t))
                if z3.is_int_value(y.t) and y.t.as_long() > 0:
                    q = x.t / y.t
                return V(INT, q) if isinstance(op, ast.FloorDiv) else V(INT, x.t - y.t * q)
            q = z3.ToReal(z3.ToInt(x.t / y.t))
            return V(FLOAT, q) if isinstance(op, ast.FloorDiv) else V(FLOAT, x.t - y.t * q)
        raise Unsupported("operator %s" % type(op).__name__)

    def power(self, x, y, st, fr, n):
        c = z3.simplify(y.t)
        if z3.is_int_value(c) or z3.is_rational_value(c):
            e = c.as_fraction() if z3.is_rational_value(c) and not z3.is_int_value(c) else c.as_long()
            if e == 2:
                return V(x.ty, x.t * x.t)
            if e == 1:
                return x
            if e == 0:
                return self.numpair(self.num(1), x)[0]
        z = V(FLOAT, z3.RealVal(0))
        x, y = self.numpair(x, z)[0], self.numpair(y, z)[0]
        self.ob(st, z3.Or(x.t != 0, y.t >= 0), "div-zero", n, exc="ZeroDivisionError", fr=fr)
        if self.schema.POW_NONNEG:
            self.ob(st, z3.Or(x.t >= 0, y.t == z3.ToReal(z3.ToInt(y.t))), "complex-power", n, exc="TypeError", fr=fr)
        a, b = z3.Reals("a? b?")
        P = self.pow
        self.global_axiom("pow", ForAll_([a, b], z3.And(z3.Implies(a > 0, P(a, b) > 0), z3.Implies(b == 0, P(a, b) == 1),
                          z3.Implies(b == 1, P(a, b) == a), z3.Implies(a >= 0, P(a, b) >= 0), z3.Implies(z3.And(a == 0, b > 0), P(a, b) == 0),
                          z3.Implies(a == 1, P(a, b) == 1)), patterns=[P(a, b)]))
        return V(FLOAT, P(x.t, y.t))

    def concat(self, a, b, st):
        ea, eb = prune(prune(a.ty)[1]), prune(prune(b.ty)[1])
        ety = prune(unify(ea, eb))
        if isinstance(ety, TVar):
            v = self.new_list(st, ety, [])
            v.meta = {"fresh": True, "elems": []}
            return v
        if not (isinstance(ea, TVar) or isinstance(eb, TVar)) and not same(ea, eb):
            a, b = self.coerce(a, ("list", ety), st), self.coerce(b, ("list", ety), st)
        a, b = V(("list", ety), a.t, a.meta), V(("list", ety), b.t, b.meta)
        la, lb = self.llen(st, a), self.llen(st, b)
        ra, rb = self.lrow(st, a), self.lrow(st, b)
        ty = ("list", ety)
        r = self.alloc(st, ty)
        k = self.ekey(ety)
        if isinstance(b.meta, dict) and b.meta.get("elems") is not None and len(b.meta["elems"]) <= 4:
            row = ra
            for i, e in enumerate(b.meta["elems"]):
                row = z3.Store(row, la + i, self.coerce(e, ety, st).t)
            self.hstore(st, k, r, row)
        elif isinstance(a.meta, dict) and a.meta.get("elems") is not None and len(a.meta["elems"]) == 0:
            self.hstore(st, k, r, rb)
        else:
            row = self.fresh("row", z3.ArraySort(z3.IntSort(), sort_of(ety)))
            j = z3.Int("j?%d" % next(self.cnt))
            st.assume(ForAll_([j], z3.Implies(z3.And(j >= 0, j < la), row[j] == ra[j]), patterns=[row[j]]))
            st.assume(ForAll_([j], z3.Implies(z3.And(j >= la, j < la + lb), row[j] == rb[j - la]), patterns=[row[j]]))
            j2 = z3.Int("j?%d" % next(self.cnt))
            st.assume(ForAll_([j2], z3.Implies(z3.And(j2 >= 0, j2 < lb), row[la + j2] == rb[j2]), patterns=[rb[j2]]))
            st.assume(ForAll_([j2], z3.Implies(z3.And(j2 >= 0, j2 < la), row[j2] == ra[j2]), patterns=[ra[j2]]))
            self.hstore(st, k, r, row)
        self.hstore(st, ("len",), r, la + lb)
        return V(ty, r, {"fresh": True})

    def extend(self, a, b, st):
        """a += b, in place."""
        ea, eb = prune(prune(a.ty)[1]), prune(prune(b.ty)[1])
        ety = prune(unify(ea, eb))
        if isinstance(ety, TVar):
            return a
        kind = prune(a.ty)[0]
        if not (isinstance(ea, TVar) or isinstance(eb, TVar)) and not same(ea, eb):
            b = self.coerce(b, ("list", ea), st)
            ety = ea
        a, b = V((kind, ety), a.t), V(("list", ety), b.t, b.meta)
        la, lb = self.llen(st, a), self.llen(st, b)
        ra, rb = self.lrow(st, a), self.lrow(st, b)
        k = self.ekey(ety)
        if isinstance(b.meta, dict) and b.meta.get("elems") is not None and len(b.meta["elems"]) <= 4:
            row = ra
            for i, e in enumerate(b.meta["elems"]):
                row = self.put(row, la + i, self.coerce(e, ety, st).t, st)
        else:
            row = self.fresh("row", z3.ArraySort(z3.IntSort(), sort_of(ety)))
            j = z3.Int("j?%d" % next(self.cnt))
            st.assume(ForAll_([j], z3.Implies(j < la, row[j] == ra[j]), patterns=[row[j]]))
            st.assume(ForAll_([j], z3.Implies(z3.And(j >= la, j < la + lb), row[j] == rb[j - la]), patterns=[row[j]]))
            j2 = z3.Int("j?%d" % next(self.cnt))
            st.assume(ForAll_([j2], z3.Implies(z3.And(j2 >= 0, j2 < lb), row[la + j2] == rb[j2]), patterns=[rb[j2]]))
            st.assume(ForAll_([j2], z3.Implies(z3.And(j2 >= 0, j2 < la), row[j2] == ra[j2]), patterns=[ra[j2]]))
        self.hstore(st, k, a.t, row)
        self.hstore(st, ("len",), a.t, la + lb)
        return a

    def append(self, a, v, st, n=None, fr=None):
        ety = prune(prune(a.ty)[1])
        if isinstance(ety, TVar):
            unify(ety, v.ty)
            ety = prune(ety)
        elif isinstance(v.meta, dict) or not same(ety, v.ty):
            try:
                unify(ety, v.ty)
            except TypeErr:
                pass
        cv = self.coerce(v, ety, st, n, fr)
        a = V((prune(a.ty)[0], ety), a.t)
        la = self.llen(st, a)
        k = self.ekey(ety)
        self.hstore(st, k, a.t, self.put(self.lrow(st, a), la, cv.t, st))
        self.hstore(st, ("len",), a.t, la + 1)

    def put(self, row, i, x, st):
        """The row with x at i, under a name of its own: quantifiers can match on it."""
        new = self.fresh("row", row.sort())
        j = z3.Int("j?%d" % next(self.cnt))
        st.assume(new == z3.Store(row, i, x))
        st.assume(ForAll_([j], z3.Implies(j != i, new[j] == row[j]), patterns=[new[j], row[j]]))
        st.assume(new[i] == x)
        return new

    def repeat(self, a, cnt, st):
        el = a.meta.get("elems") if isinstance(a.meta, dict) else None
        if el is None or len(el) != 1:
            raise Unsupported("list repetition")
        ety = prune(el[0].ty)
        m = z3.If(cnt.t > 0, cnt.t, I(0))
        v = self.new_list_fn(st, ety, m, lambda j: el[0].t)
        v.meta = {"fresh": True}
        return v

    def arr_op(self, op, a, b, st, fr, n):
        A = prune(a.ty)[0] in ("arr", "list")
        B = prune(b.ty)[0] in ("arr", "list")
        ln = self.llen(st, a if A else b)
        if A and B:
            self.ob(st, self.llen(st, a) == self.llen(st, b), "shape", n, exc="ValueError", fr=fr)
        ra = self.lrow(st, a) if A else None
        rb = self.lrow(st, b) if B else None
        ea, eb = (prune(prune(a.ty)[1]) if A else None), (prune(prune(b.ty)[1]) if B else None)
        sa = None if A else self.numeric(a, st, n, fr)
        sb = None if B else self.numeric(b, st, n, fr)
        if isinstance(op, ast.Div) and not B:
            pass    # numpy: a warning, not an exception

        def fn(j):
            x = V(ea, ra[j]) if A else sa
            y = V(eb, rb[j]) if B else sb
            s2 = State(self, {}, {}, None, [])
            f2 = Frame(None, None, None, 0, spec=True)
            return self.arith(op, self.numeric(x, s2, n, f2), self.numeric(y, s2, n, f2), s2, f2, n).t
        probe = fn(z3.IntVal(0))
        ety = FLOAT if probe.sort() == z3.RealSort() else INT
        v = self.new_list_fn(st, ety, ln, fn, "arr")
        v.meta = {"fresh": True}
        return v

    # ------------------------------------------------------------------ comprehensions
    def ev_ListComp(self, n, st, fr):
        if len(n.generators) != 1:
            raise Unsupported("nested comprehension")
        g = n.generators[0]
        if g.ifs or not self.simple_elt(n.elt):
            return self.comp_loop(n, g, st, fr)
        it = self.iterable(g.iter, st, fr)
        nlen = it.length(st)
        k = self.fresh("ck", z3.IntSort())
        # evaluate the element for an arbitrary position
        s2 = st.fork()
        s2.assume(z3.And(k >= 0, k < nlen))
        npc = len(s2.pc)
        self.bind(g.target, it.at(s2, k), s2, fr, n)
        heap0 = dict(s2.heap)
        w, self.wlog = self.wlog, {}
        v = self.ev(n.elt, s2, fr)
        wrote, self.wlog = self.wlog, w
        if wrote or not z3.is_expr(v.t):
            return self.comp_loop(n, g, st, fr)
        extra = s2.pc[npc:]
        ety = prune(v.ty)
        if extra:
            kk = z3.Int("k?%d" % next(self.cnt))
            body = z3.substitute(z3.And(*extra), (k, kk))
            if any(str(c).split("!")[0] in ("op", "sel") for c in []):
                pass
            st.assume(Forall([kk], z3.Implies(z3.And(kk >= 0, kk < nlen), body))) if self.safe_to_generalise(extra, k, s2, st) else None
        res = self.new_list_fn(st, ety, nlen, lambda j: z3.substitute(v.t, (k, j)))
        res.meta = {"fresh": True}
        return res

    def safe_to_generalise(self, extra, k, s2, st):
        # fresh constants introduced while evaluating would need to depend on k
        known = consts_of(st.pc) | {str(k)}
        new = consts_of(extra) - known - {str(x) for x in self.base_heap.values()}
        return not any("!" in x for x in new)

    def simple_elt(self, e):
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name) and f.id in ("float", "int", "str", "abs", "len", "sum", "min", "max", "bool"):
                    continue
                return False
            if isinstance(x, (ast.ListComp, ast.List, ast.Dict, ast.IfExp, ast.BoolOp)):
                return False
        return True

    def comp_loop(self, n, g, st, fr):
        nm = "__comp%d" % n.lineno
        src = ast.parse("%s = []\nfor X in Y:\n    if C:\n        %s.append(E)\n" % (nm, nm)).body
        loop = src[1]
        loop.target, loop.iter = g.target, g.iter
        app = loop.body[0].body[0]
        app.value.args = [n.elt]
        if g.ifs:
            loop.body[0].test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
        else:
            loop.body = [app]
        for s in src:
            for x in ast.walk(s):
                if not hasattr(x, "lineno"):
                    x.lineno = n.lineno
            ast.fix_missing_locations(s)
        saved = {x.id: st.env.get(x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        out = self.block(src, st, fr)
        if out is None:
            raise Unsupported("comprehension does not end normally")
        self.become(st, out)
        for x, v in saved.items():
            if v is None:
                st.env.pop(x, None)
            else:
                st.env[x] = v
        v = st.env.pop(nm)[0]
        v.meta = {"fresh": True}
        return v

    def ev_GeneratorExp(self, n, st, fr):
        return self.ev_ListComp(n, st, fr)

    def ev_Lambda(self, n, st, fr):
        return V(PY, None, ("lambda", n, dict(st.env)))

    def ev_Starred(self, n, st, fr):
        raise Unsupported("starred expression")


def n_ty(v):
    return v.ty


def consts_of(exprs):
    out, seen = set(), set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        stack.extend(e.children())
    return out
