"""Class-level and module-level facts: bases, enumerations, which method a class ends up with, decorators, import-time
statements, and names that shadow built-ins."""

import ast
import builtins

from . import once
from .compare import DUNDER, internal
from .model import summarise

# special methods whose appearance changes what existing operations on the objects do
TRAPS = {"__eq__", "__hash__", "__lt__", "__le__", "__gt__", "__ge__", "__ne__", "__bool__", "__len__", "__getattr__", "__getattribute__",
         "__setattr__", "__delattr__", "__new__", "__copy__", "__deepcopy__", "__reduce__", "__reduce_ex__", "__getstate__",
         "__setstate__", "__contains__", "__init_subclass__", "__missing__", "__setitem__", "__getitem__", "__delitem__"}

HARMLESS_DECO = {"override", "typing.override", "typing.no_type_check", "no_type_check", "functools.wraps", "abstractmethod", "abc.abstractmethod",
                 "overload", "typing.overload", "final", "typing.final"}
CACHES = ("lru_cache", "cache", "cached_property", "memoize", "singledispatch")


class Fact:
    __slots__ = ("rule", "where", "file", "line", "text", "funcs", "classes")

    def __init__(self, rule, where, file, line, text, funcs=(), classes=()):
        self.rule, self.where, self.file, self.line, self.text = rule, where, file, line, text
        self.funcs, self.classes = set(funcs), set(classes)


def cid(c):
    return f"{c.module.name}.{c.name}"


def enum_members(c):
    out = []
    for st in c.node.body:
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    out.append((t.id, ast.dump(st.value), ast.unparse(st.value)))
    return out


def structure(C):
    """Violated facts of the program C.P against the contracts C.spec.P."""
    A, B, spec = C.spec.P, C.P, C.spec
    out = []
    n = 0
    for ma in A.modules.values():
        mb = B.by_dotted.get(A.dotted[ma.name])
        if mb is None:
            continue
        for name, ca in ma.classes.items():
            cb = mb.classes.get(name)
            n += 1
            if cb is None:
                r = B.resolve(mb, name)
                if r is None or r[0] != "cls":
                    continue
                cb = r[1]
            funcs = [f.qual for f in ca.methods.values()]
            # an enumeration: its members exist and are distinct
            if A.is_enum(ca):
                if not B.is_enum(cb):
                    out.append(Fact("enum", cid(cb), mb.rel, cb.node.lineno, f"{name} is no longer an enumeration", funcs, [cid(ca)]))
                    continue
                eb = enum_members(cb)
                have = {x[0] for x in eb}
                for m, _, _ in enum_members(ca):
                    n += 1
                    if m not in have:
                        out.append(Fact("enum", cid(cb), mb.rel, cb.node.lineno, f"{name} has no member {m}", funcs, [cid(ca)]))
                vals = {}
                for m, v, s in eb:
                    if v in vals and "auto" not in s:
                        out.append(Fact("enum", cid(cb), mb.rel, cb.node.lineno, f"{name}.{m} and {name}.{vals[v]} are the same value {s}", funcs, [cid(ca)]))
                    vals[v] = m
                continue
            # what it inherits from
            pa = {x.name for x in A.mro(ca)}
            pb = {x.name for x in B.mro(cb)}
            if not pa <= pb:
                out.append(Fact("bases", cid(cb), mb.rel, cb.node.lineno, f"{name} no longer inherits from {', '.join(sorted(pa - pb))}", funcs, [cid(ca)]))
                continue
            # which function each method name ends up with
            names = {m for x in A.mro(ca) for m in x.methods}
            names |= {m for x in B.mro(cb) for m in x.methods if m in TRAPS}
            for m in sorted(names):
                n += 1
                fa, fb = A.find_method(ca, m), B.find_method(cb, m)
                if fa is not None and fb is not None:
                    if fa.qual == fb.qual:
                        continue
                    if fb.qual in A.funcs and fa.qual in C.gone and internal(fa.qual):
                        continue
                    sa, _ = C.A.get(fa.qual)
                    sb, ib = C.B.get(fb.qual)
                    if sa is None or sb is None:
                        continue
                    from .compare import same

                    if same(sa, sb):
                        continue
                    if isinstance(ib, str) or ib.opaque_notes:
                        continue
                    if fa.qual in C.gone and C.verdicts[fa.qual].status == "absorbed" and internal(fa.qual):
                        continue
                    if delegating(fb, m):
                        continue
                    out.append(Fact("override", f"{cid(cb)}.{m}", fb.module.rel, fb.node.lineno,
                                    f"{name}.{m} is now {fb.qual}, which does not do what {fa.qual} does", [fa.qual, *funcs], [cid(ca)]))
                elif fa is None and m in TRAPS:
                    out.append(Fact("special method", f"{cid(cb)}.{m}", fb.module.rel, fb.node.lineno,
                                    f"{name} gains {m}, which changes what existing operations on its objects do", funcs, [cid(ca)]))
                elif fb is None and m in TRAPS:
                    out.append(Fact("special method", f"{cid(cb)}.{m}", mb.rel, cb.node.lineno, f"{name} loses {m}", [fa.qual, *funcs], [cid(ca)]))
        # names that now mean something else
        bad = [x for x in list(mb.funcs) + list(mb.classes) + list(mb.consts) if x in BUILTINS and x not in ma.funcs and x not in ma.classes and x not in ma.consts]
        for x in bad:
            n += 1
    for q, fa in A.funcs.items():
        fb = B.funcs.get(q)
        if fb is None:
            continue
        n += 1
        for d in fb.decorators:
            if d in fa.decorators:
                continue
            base = d.split("(")[0].split(".")[-1]
            if base in CACHES:
                if pure_of_state(C, q):
                    continue
                out.append(Fact("cache", q, fb.module.rel, fb.node.lineno,
                                f"{q} is decorated with {d} although its result is or depends on state that can change", [q]))
        if fa.kind == "prop" and fb.kind in ("inst", "static", "class") and not internal(q) or fb.kind == "prop" and fa.kind != "prop" and not internal(q):
            if "cached_property" not in " ".join(fb.decorators):
                out.append(Fact("kind", q, fb.module.rel, fb.node.lineno, f"{q} is {'' if fb.kind == 'prop' else 'no longer '}a property", [q]))
    # import-time statements that act on the package or on the random generator
    for mb in B.modules.values():
        ma = next((m for m in A.modules.values() if A.dotted[m.name] == B.dotted[mb.name]), None)
        have = {ast.dump(s) for s in ma.stmts} if ma else set()
        for s in mb.stmts:
            n += 1
            if ast.dump(s) in have:
                continue
            why = import_time(s, mb, B)
            if why:
                out.append(Fact("import time", mb.name, mb.rel, s.lineno, why, [q for q in B.funcs if q.startswith(mb.name + ":")]))
    for q, kind, line, text in once.new_findings(C):
        users = [u for u, v in C.verdicts.items() if v.b is not None and not isinstance(v.b, str) and q in v.b.inlined]
        out.append(Fact(kind if kind in ("resized", "shared") else "iterator", q, B.funcs[q].module.rel, line, text, [q, *users]))
    n += len(B.funcs)
    return out, n


BUILTINS = set(dir(builtins))


def delegating(f, name):
    """The method only calls the one it overrides with the same arguments."""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1:
        return False
    s = body[0]
    v = s.value if isinstance(s, (ast.Return, ast.Expr)) else None
    if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == name):
        return False
    if not (isinstance(v.func.value, ast.Call) and isinstance(v.func.value.func, ast.Name) and v.func.value.func.id == "super"):
        return False
    ps = [a.arg for a in f.node.args.args][1:]
    return [ast.unparse(a) for a in v.args] == ps and not v.keywords


def pure_of_state(C, q):
    """The function reads and returns only immutable values, so that remembering its results is safe."""
    s, it = C.A.get(q)
    if s is None:
        return True
    if it.read or it.wrote:
        return False
    ret = s[0]
    if ret.op in ("cat", "dict", "set", "new", "sorted", "setop", "opaque"):
        return False
    from .terms import subterms

    return not any(t.op in ("attr", "call", "mcall", "v", "xcall", "field", "new") for t in subterms(ret))


RNG = ("random.", "np.random.", "numpy.random.")


def import_time(s, m, B):
    for x in ast.walk(s):
        if isinstance(x, ast.Call):
            t = ast.unparse(x.func)
            if t.startswith(RNG) or ".seed" in t:
                return f"calls {t} when the module is imported"
            if t in ("setattr", "delattr") and x.args:
                return f"calls {t} on {ast.unparse(x.args[0])} when the module is imported"
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)) and x is s:
            for t in (x.targets if not isinstance(x, ast.AugAssign) else [x.target]):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                    r = B.resolve(m, t.value.id)
                    if r and r[0] in ("cls", "pkgmod", "ext", "func"):
                        if t.attr in ("__doc__", "__name__", "__qualname__"):
                            continue
                        return f"replaces {ast.unparse(t)} when the module is imported"
    return None
