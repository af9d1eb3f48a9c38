"""Parses /repo's current source: modules, classes, functions, imports."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class FuncInfo:
    def __init__(self, node, module, cls):
        self.node, self.module, self.cls = node, module, cls
        self.name = node.name
        self.qual = "%s:%s%s" % (module.name, cls.name + "." if cls else "", node.name)
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        self.params = [a.arg for a in node.args.args]

    def __repr__(self):
        return "<fn %s>" % self.qual


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.class_assigns = {}
        self.slots = None
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(s, module, self)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.class_assigns[s.targets[0].id] = s.value

    def bases(self, prog):
        out = []
        for b in self.node.bases:
            c = prog.resolve_static(self.module, b)
            if isinstance(c, ClassInfo):
                out.append(c)
        return out

    def mro(self, prog):
        out = [self]
        for b in self.bases(prog):
            for c in b.mro(prog):
                if c not in out:
                    out.append(c)
        return out

    def find_method(self, prog, name):
        for c in self.mro(prog):
            if name in c.methods:
                return c.methods[name]
        return None

    def __repr__(self):
        return "<class %s>" % self.qual


class ExtMod:
    """A module outside /repo (numpy, os, ...)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class Ext:
    """A name of an external module."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class ModuleInfo:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.functions, self.classes, self.imports, self.globals = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.functions[s.name] = FuncInfo(s, self, None)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", s.module, a.name, s.level)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, "handlers", []):
                    self._scan(h.body)
                if isinstance(s, ast.If):
                    # the check_args_type switch: both definitions only pass the call on
                    self._scan([x for x in s.orelse if not (isinstance(x, ast.FunctionDef) and x.name == "check_args_type")])
                else:
                    self._scan(s.orelse)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.globals[s.target.id] = s.value


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.repo, *name.split("."))
        m = None
        if os.path.isfile(p + ".py"):
            m = ModuleInfo(name, p + ".py")
        elif os.path.isfile(os.path.join(p, "__init__.py")):
            m = ModuleInfo(name, os.path.join(p, "__init__.py"))
        self.mods[name] = m
        return m

    def lookup(self, mod, name):
        """What a module-level name denotes: FuncInfo, ClassInfo, ModuleInfo, ExtMod, Ext,
        ('global', mod, name) or None."""
        if name in mod.functions:
            return mod.functions[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == "mod":
                m = self.module(imp[1])
                return m if m is not None else ExtMod(imp[1])
            _, src, nm, level = imp
            if src is None:
                src = ""
            if level:
                base = mod.name.split(".")[:-level]
                src = ".".join(base + ([src] if src else []))
            sub = self.module(src + "." + nm) if src else None
            m = self.module(src)
            if m is not None:
                r = self.lookup(m, nm)
                if r is not None:
                    return r
            if sub is not None:
                return sub
            if m is None:
                return Ext(src + "." + nm)
            return None
        if name in mod.globals:
            return ("global", mod, name)
        return None

    def resolve_static(self, mod, node):
        if isinstance(node, ast.Name):
            return self.lookup(mod, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_static(mod, node.value)
            if isinstance(b, ModuleInfo):
                return self.lookup(b, node.attr)
            if isinstance(b, ExtMod):
                return Ext(b.name + "." + node.attr)
            if isinstance(b, ClassInfo):
                return b.find_method(self, node.attr)
        return None

    def func(self, qual):
        mod, rest = qual.split(":")
        m = self.module(mod)
        if m is None:
            return None
        if "." in rest:
            c, f = rest.split(".")
            ci = m.classes.get(c)
            return ci.methods.get(f) if ci else None
        return m.functions.get(rest)

    def cls(self, qual):
        mod, c = qual.rsplit(".", 1)
        m = self.module(mod)
        return m.classes.get(c) if m else None
