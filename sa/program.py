"""Parses a source tree into modules, classes and functions, and resolves the names used in them."""

import ast
import os


class Func:
    __slots__ = ("name", "node", "cls", "module", "kind", "qual", "decorators", "nested")

    def __init__(self, name, node, cls, module, kind, decorators):
        self.name = name
        self.node = node
        self.cls = cls
        self.module = module
        self.kind = kind  # inst, static, class, prop, func
        self.decorators = decorators
        self.qual = f"{module.name}:{cls.name + '.' if cls else ''}{name}"
        self.nested = False

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    __slots__ = ("name", "module", "bases", "methods", "consts", "node")

    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.bases = node.bases
        self.methods = {}
        self.consts = {}


class Module:
    __slots__ = ("name", "path", "rel", "tree", "classes", "funcs", "consts", "imports", "stmts")

    def __init__(self, name, path, rel, tree):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.classes = {}
        self.funcs = {}
        self.consts = {}
        self.imports = {}
        self.stmts = []


def _deco(d):
    try:
        return ast.unparse(d)
    except Exception:
        return "?"


class Program:
    def __init__(self, root, package="pybbn", overlay=None):
        self.root = root
        self.local_classes = {}
        self.package = package
        self.modules = {}
        self.errors = []
        self.files = []
        base = os.path.join(root, package)
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(x for x in dn if x != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                if overlay and rel in overlay:
                    src = overlay[rel]
                else:
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                self.files.append(rel)
                tree = ast.parse(src, rel)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                short = name.split(".")[-1]
                if f == "__init__.py":
                    short = name
                if short in self.modules:
                    short = name
                self._module(short, name, p, rel, tree)
        self.by_dotted = {self.dotted[m.name]: m for m in self.modules.values()}
        self.class_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.class_by_name.setdefault(c.name, []).append(c)
        self.func_by_name = {}
        self.meth_by_name = {}
        self.funcs = {}
        for m in self.modules.values():
            for f in m.funcs.values():
                self.func_by_name.setdefault(f.name, []).append(f)
                self.funcs[f.qual] = f
            for c in m.classes.values():
                for f in c.methods.values():
                    self.meth_by_name.setdefault(f.name, []).append(f)
                    self.funcs[f.qual] = f

    dotted = None

    def _module(self, short, name, p, rel, tree):
        if self.dotted is None:
            self.dotted = {}
        m = Module(short, p, rel, tree)
        self.dotted[short] = name
        self.modules[short] = m
        pkg = name if rel.endswith("__init__.py") else name.rsplit(".", 1)[0]
        self._body(m, tree.body, pkg)
        return m

    def _body(self, m, body, pkg):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = ("mod", a.name)
                    else:
                        m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ""
                if st.level:
                    parts = pkg.split(".")
                    parts = parts[: len(parts) - (st.level - 1)]
                    mod = ".".join(parts + ([mod] if mod else []))
                for a in st.names:
                    m.imports[a.asname or a.name] = ("from", mod, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.funcs[st.name] = Func(st.name, st, None, m, "func", [_deco(d) for d in st.decorator_list])
            elif isinstance(st, ast.ClassDef):
                self._class(m, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.consts[t.id] = st.value
                m.stmts.append(st)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.consts[st.target.id] = st.value
                m.stmts.append(st)
            elif isinstance(st, (ast.If, ast.Try)):
                # conditional imports and definitions
                self._body(m, st.body, pkg)
                if isinstance(st, ast.Try):
                    for h in st.handlers:
                        self._body(m, h.body, pkg)
                self._body(m, st.orelse, pkg)
            else:
                m.stmts.append(st)

    def _class(self, m, node):
        c = Class(node.name, m, node)
        m.classes[node.name] = c
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decos = [_deco(d) for d in st.decorator_list]
                kind = "inst"
                rest = []
                for d in decos:
                    if d == "staticmethod":
                        kind = "static"
                    elif d == "classmethod":
                        kind = "class"
                    elif d == "property":
                        kind = "prop"
                    else:
                        rest.append(d)
                c.methods[st.name] = Func(st.name, st, c, m, kind, rest)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                c.consts[st.target.id] = st.value

    # ------------------------------------------------------------ resolution
    def resolve(self, m, name):
        """What a global name means in module m: ('cls', Class) ('func', Func) ('const', m, expr) ('ext', dotted)
        ('pkgmod', Module) or None."""
        if name in m.classes:
            return ("cls", m.classes[name])
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.consts:
            return ("const", m, name)
        imp = m.imports.get(name)
        if imp is None:
            return None
        if imp[0] == "mod":
            dm = self.by_dotted.get(imp[1])
            if dm is not None:
                return ("pkgmod", dm)
            if imp[1] == self.package:
                return ("pkgroot", imp[1])
            return ("ext", imp[1])
        _, mod, nm = imp
        dm = self.by_dotted.get(mod)
        if dm is not None:
            r = self.resolve(dm, nm)
            if r is not None:
                return r
        dm = self.by_dotted.get(mod + "." + nm)
        if dm is not None:
            return ("pkgmod", dm)
        return ("ext", mod + "." + nm)

    def base_classes(self, c):
        out = []
        for b in c.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(c.module, b.id)
            if r and r[0] == "cls":
                out.append(r[1])
        return out

    def mro(self, c):
        out = [c]
        for b in self.base_classes(c):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in k.bases:
                if isinstance(b, ast.Name):
                    r = self.resolve(k.module, b.id)
                    if r is None or r[0] == "ext":
                        out.append(r[1] if r else b.id)
        return out

    def is_enum(self, c):
        return any(x in ("enum.Enum", "Enum", "enum.IntEnum") for x in self.ext_bases(c))

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_const(self, c, name):
        for k in self.mro(c):
            if name in k.consts:
                return k, k.consts[name]
        return None

    def subclasses(self, c):
        return [k for ks in self.class_by_name.values() for k in ks if c in self.mro(k) and k is not c]

    def get_class(self, name, prefer=None):
        ks = self.class_by_name.get(name) or []
        if prefer is not None:
            for k in ks:
                if k.module.name == prefer:
                    return k
        return ks[0] if ks else None
