"""Static types of the verified Python subset, and their SMT sorts."""
import z3


class TVar:
    """Element type of a list/dict literal that is not known yet."""
    n = 0

    def __init__(self):
        TVar.n += 1
        self.id = TVar.n
        self.b = None

    def __repr__(self):
        return "?%d" % self.id if self.b is None else repr(prune(self.b))


def prune(t):
    while isinstance(t, TVar) and t.b is not None:
        t = t.b
    return t


INT, FLOAT, BOOL, STR, NONE, VAL, OPAQUE, PY = (
    ("int",), ("float",), ("bool",), ("str",), ("none",), ("val",), ("opaque",), ("py",))

Val = z3.Datatype("Val")
Val.declare("VNone")
Val.declare("VInt", ("vint", z3.IntSort()))
Val.declare("VReal", ("vreal", z3.RealSort()))
Val.declare("VBool", ("vbool", z3.BoolSort()))
Val.declare("VStr", ("vstr", z3.IntSort()))
Val.declare("VRef", ("vref", z3.IntSort()))
Val = Val.create()


DOCDICT = ("dict", STR, VAL)    # a mapping inside a dynamic value (a YAML document)


class TypeErr(Exception):
    pass


def ref(*classes):
    return ("ref", tuple(sorted(classes)))


def opt(t):
    t = prune(t)
    if isinstance(t, tuple) and t[0] in ("opt", "none", "val", "opaque"):
        return t
    return ("opt", t)


def is_reflike(t):
    t = prune(t)
    return isinstance(t, tuple) and t[0] in ("ref", "list", "arr", "dict", "rec", "set")


def sort_of(t):
    t = prune(t)
    if isinstance(t, TVar):
        raise TypeErr("unresolved type")
    k = t[0]
    if k == "int" or k == "str" or k in ("ref", "list", "arr", "dict", "rec", "set"):
        return z3.IntSort()
    if k == "float":
        return z3.RealSort()
    if k == "bool":
        return z3.BoolSort()
    if k == "val":
        return Val
    if k == "opt":
        return z3.IntSort() if is_reflike(t[1]) else Val
    if k == "none":
        return z3.IntSort()
    if k == "opaque":
        return z3.IntSort()
    raise TypeErr("no sort for %r" % (t,))


def tkey(t):
    t = prune(t)
    if isinstance(t, TVar):
        return "?%d" % t.id
    k = t[0]
    if k == "ref":
        return "|".join(t[1])
    if k in ("list", "arr", "opt", "set"):
        return "%s[%s]" % (k, tkey(t[1]))
    if k == "dict":
        return "dict[%s,%s]" % (tkey(t[1]), tkey(t[2]))
    if k in ("rec", "tuple"):
        return "%s[%s]" % (k, ",".join(tkey(x) for x in t[1]))
    return k


def resolved(t):
    t = prune(t)
    if isinstance(t, TVar):
        return False
    if t[0] in ("list", "arr", "opt", "set"):
        return resolved(t[1])
    if t[0] == "dict":
        return resolved(t[1]) and resolved(t[2])
    if t[0] in ("rec", "tuple"):
        return all(resolved(x) for x in t[1])
    return True


def same(a, b):
    return tkey(a) == tkey(b)


def unify(a, b, bind=True):
    """Least common type; binds type variables."""
    a, b = prune(a), prune(b)
    if a is b:
        return a
    if isinstance(a, TVar):
        if bind:
            if occurs(a, b):
                raise TypeErr("occurs check")
            a.b = b
        return b
    if isinstance(b, TVar):
        if bind:
            if occurs(b, a):
                raise TypeErr("occurs check")
            b.b = a
        return a
    if same(a, b):
        return a
    ka, kb = a[0], b[0]
    if ka == "opaque" or kb == "opaque":
        return OPAQUE
    if ka == "none":
        return opt(b)
    if kb == "none":
        return opt(a)
    if ka == "opt" or kb == "opt":
        ia = a[1] if ka == "opt" else a
        ib = b[1] if kb == "opt" else b
        return opt(unify(ia, ib, bind))
    if ka == "val" or kb == "val":
        o = b if ka == "val" else a
        return VAL
    if ka == "ref" and kb == "ref":
        return ref(*(set(a[1]) | set(b[1])))
    num = {"bool": 0, "int": 1, "float": 2}
    if ka in num and kb in num:
        return a if num[ka] >= num[kb] else b
    if ka in ("list", "arr") and kb in ("list", "arr"):
        ia, ib = prune(a[1]), prune(b[1])
        e = unify(ia, ib, bind)
        if isinstance(ia, TVar) or isinstance(ib, TVar) or same(ia, ib) or same(prune(a[1]), prune(b[1])):
            return (ka if ka == kb else "arr", prune(e))
        raise TypeErr("list element types differ: %s vs %s" % (tkey(a), tkey(b)))
    if ka == "dict" and kb == "dict":
        k = unify(a[1], b[1], bind)
        v = unify(a[2], b[2], bind)
        if not (same(a[1], b[1]) and same(a[2], b[2])):
            raise TypeErr("dict types differ %s %s" % (tkey(a), tkey(b)))
        return ("dict", k, v)
    if ka == kb and ka in ("rec", "tuple") and len(a[1]) == len(b[1]):
        return (ka, tuple(unify(x, y, bind) for x, y in zip(a[1], b[1])))
    if ka in ("int", "float", "bool", "str") and kb in ("int", "float", "bool", "str"):
        return VAL
    raise TypeErr("cannot unify %s and %s" % (tkey(a), tkey(b)))


def occurs(v, t):
    t = prune(t)
    if t is v:
        return True
    if isinstance(t, TVar):
        return False
    for x in t[1:]:
        if isinstance(x, (tuple, TVar)):
            if isinstance(x, tuple) and x and not isinstance(x[0], str):
                if any(occurs(v, y) for y in x):
                    return True
            elif occurs(v, x):
                return True
    return False


def parse(s, resolve=lambda n: n):
    """'list[str]', 'Location|Link', 'opt[int]', 'Location?', 'dict[str,val]' ..."""
    s = s.strip()
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] == " ":
            pos += 1

    def ident():
        nonlocal pos
        ws()
        st = pos
        while pos < len(s) and (s[pos].isalnum() or s[pos] in "_."):
            pos += 1
        return s[st:pos]

    def ty():
        nonlocal pos
        a = atom()
        ws()
        while pos < len(s) and s[pos] == "|":
            pos += 1
            b = atom()
            a = unify(a, b)
            ws()
        if pos < len(s) and s[pos] == "?":
            pos += 1
            a = opt(a)
        return a

    def args():
        nonlocal pos
        out = []
        ws()
        assert s[pos] == "[", s
        pos += 1
        while True:
            out.append(ty())
            ws()
            if s[pos] == ",":
                pos += 1
                continue
            assert s[pos] == "]", s
            pos += 1
            return out

    def atom():
        n = ident()
        if n in ("int", "float", "bool", "str", "none", "val", "opaque", "py"):
            return (n,)
        if n == "None":
            return NONE
        if n in ("list", "arr", "set"):
            return (n, args()[0])
        if n == "opt":
            return opt(args()[0])
        if n == "dict":
            k, v = args()
            return ("dict", k, v)
        if n in ("rec", "tuple"):
            return (n, tuple(args()))
        if not n:
            raise TypeErr("bad type %r" % s)
        return ref(resolve(n))

    r = ty()
    ws()
    if pos != len(s):
        raise TypeErr("bad type %r" % s)
    return r
