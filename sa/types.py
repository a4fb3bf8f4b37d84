"""Static types of terms, read off the annotations in the contracts."""

import ast

from .terms import LISTS, T

PRIM = {
    "int": "num", "float": "num", "bool": "num", "str": "str", "Any": None, "object": None, "None": None,
    "DiGraph": "nx", "Graph_": "nx", "NxGraph": "nx", "DataFrame": "df", "ndarray": "np", "Array": "np", "File": "file",
}


def parse(node):
    """A type from an annotation."""
    if node is None:
        return None
    if isinstance(node, ast.Constant):
        if isinstance(node.value, str):
            return parse(ast.parse(node.value, mode="eval").body)
        return None
    if isinstance(node, ast.Name):
        if node.id in PRIM:
            return PRIM[node.id]
        if node.id in ("list", "List"):
            return ("list", None)
        if node.id in ("dict", "Dict"):
            return ("dict", None, None)
        if node.id in ("set", "Set", "frozenset"):
            return ("set", None)
        if node.id in ("tuple", "Tuple"):
            return ("tuple",)
        return node.id
    if isinstance(node, ast.Attribute):
        return PRIM.get(node.attr)
    if isinstance(node, ast.BinOp):
        a, b = parse(node.left), parse(node.right)
        return a if b is None else b if a is None else (a if a == b else None)
    if isinstance(node, ast.Subscript):
        h = node.value.id if isinstance(node.value, ast.Name) else getattr(node.value, "attr", None)
        sl = node.slice
        args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        if h in ("list", "List", "Iterable", "Iterator", "Sequence", "Generator"):
            return ("list", parse(args[0]))
        if h in ("set", "Set", "frozenset", "FrozenSet"):
            return ("set", parse(args[0]))
        if h in ("dict", "Dict"):
            return ("dict", parse(args[0]), parse(args[1]))
        if h in ("tuple", "Tuple"):
            return ("tuple",) + tuple(parse(x) for x in args)
        if h == "Optional":
            return parse(args[0])
    return None


def parse_s(s):
    return parse(ast.parse(s, mode="eval").body)


class Types:
    def __init__(self, spec, table=None):
        self.spec = spec
        table = table or {"attrs": {}, "params": {}, "returns": {}}
        self.params = {}
        self.rets = {}
        self.arity = {}
        self.byname = {}
        self.attrs = {}
        self.anyattr = {}
        self._fluent = {}
        for q, f in spec.funcs.items():
            a = f.node.args
            names = a.posonlyargs + a.args
            self.params[q] = {i: parse(x.annotation) for i, x in enumerate(names) if x.annotation is not None}
            self.rets[q] = parse(f.node.returns)
            tab = dict(table["params"].get("*", {}))
            tab.update(table["params"].get(f.module.name, {}))
            for i, x in enumerate(names):
                if i not in self.params[q] and x.arg in tab:
                    self.params[q][i] = parse_s(tab[x.arg])
            if self.rets[q] is None and q in table["returns"]:
                self.rets[q] = parse_s(table["returns"][q])
            self.arity[q] = len(names)
        for m in spec.modules.values():
            for c in m.classes.values():
                d = {}
                for st in c.node.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                        d[st.target.id] = parse(st.annotation)
                for nm in (c.name, m.name + "." + c.name):
                    for k, v in table["attrs"].get(nm, {}).items():
                        d[k] = parse_s(v)
                self.attrs[m.name + "." + c.name] = d
                self.attrs[c.name] = d
                for k, v in d.items():
                    self.anyattr.setdefault(k, set()).add(v)
        LISTS.update(k for k, vs in self.anyattr.items()
                     if all(isinstance(v, tuple) and v and v[0] == "list" for v in vs))

    def fluent(self, quals):
        for q in quals:
            if q not in self._fluent:
                f = self.spec.funcs.get(q)
                r = False
                if f is not None and f.kind == "inst" and f.node.args.args:
                    me = f.node.args.args[0].arg
                    rs = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
                    r = bool(rs) and all(isinstance(n.value, ast.Name) and n.value.id == me for n in rs)
                self._fluent[q] = r
        return bool(quals) and all(self._fluent[q] for q in quals)

    freshk = {}
    retp = {}

    def returned(self, quals):
        """The parameter all of these functions return."""
        ks = {self.retp.get(q) for q in quals}
        return ks.pop() if len(ks) == 1 else None

    def fresh(self, quals):
        """Kind of the container these functions build and return, when they all do."""
        ks = {self.freshk.get(q) for q in quals}
        return next(iter(ks)) if len(ks) == 1 else None

    def own(self, c, it):
        out = set()
        for k in it.P.mro(c):
            d = self.attrs.get(k.module.name + "." + k.name)
            if d:
                out |= set(d)
            for m in k.methods.values():
                if m.name == "__init__":
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                            out.add(n.attr)
        return out

    def exact(self, recv, interp):
        return False

    # ------------------------------------------------------------------
    def typeof(self, t, it):
        memo = it.__dict__.setdefault("_ty", {})
        if t in memo:
            return memo[t]
        memo[t] = None
        r = self._typeof(t, it)
        memo[t] = r
        return r

    def attr(self, cls, name, it):
        c = it.P.get_class(cls.split(".")[-1], cls.split(".")[0] if "." in cls else None)
        if c is not None:
            for k in it.P.mro(c):
                d = self.attrs.get(k.module.name + "." + k.name) or self.attrs.get(k.name)
                if d and name in d:
                    return d[name]
        d = self.attrs.get(cls)
        return d.get(name) if d else None

    def elem(self, ty):
        if isinstance(ty, tuple):
            if ty[0] in ("list", "set"):
                return ty[1]
            if ty[0] == "dict":
                return ty[1]
            if ty[0] == "items":
                return ("tuple", ty[1], ty[2])
            if ty[0] == "tuple" and len(ty) > 1 and all(x == ty[1] for x in ty[1:]):
                return ty[1]
        if ty == "str" or ty == "file":
            return "str"
        return None

    def _stream(self, s, it):
        while s.op in ("seq", "for"):
            if s.op == "seq":
                if not s.a:
                    return None
                for p in s.a:
                    r = self._stream(p, it)
                    if r is not None:
                        return r
                return None
            s = s.a[1]
        if s.op in ("yield", "guarded"):
            return self.typeof(s.a[1], it) if s.op == "yield" else self._stream(s.a[1], it)
        return None

    def _typeof(self, t, it):
        o, a = t.op, t.a
        if o == "p":
            return it.ptypes.get(a[0]) if isinstance(a[0], int) else None
        if o == "c":
            return {"n": "num", "s": "str", "b": "num"}.get(a[0])
        if o in ("fmt", "join", "str", "fileread"):
            return "str"
        if o in ("add", "mul", "sub", "div", "neg", "sum", "prod", "len", "floordiv", "mod", "pow", "int", "float"):
            if o in ("mul", "add", "div"):
                ts = {self.typeof(x, it) for x in a if isinstance(x, T)}
                if "np" in ts:
                    return "np"
            return "num"
        if o == "v":
            return self.typeof(a[0], it)
        if o == "attr":
            b = self.typeof(a[0], it)
            if isinstance(b, str):
                r = self.attr(b, a[1], it)
                if r is not None:
                    return r
            vs = self.anyattr.get(a[1])
            if vs and len(vs) == 1 and not isinstance(b, tuple) and b not in ("str", "num", "nx", "df", "np"):
                return next(iter(vs))
            return None
        if o in ("item", "index"):
            b = self.typeof(a[0], it)
            if isinstance(b, tuple):
                if b[0] == "list":
                    return b[1]
                if b[0] == "dict":
                    return b[2]
                if b[0] == "tuple":
                    from .terms import is_num

                    if is_num(a[1]) and isinstance(a[1].a[1], int) and 0 <= a[1].a[1] < len(b) - 1:
                        return b[1 + a[1].a[1]]
                    return self.elem(b)
            if b == "str":
                return "str"
            return None
        if o == "at":
            return self.elem(self.typeof(a[0], it))
        if o in ("popped", "best"):
            return self.elem(self.typeof(a[0], it))
        if o in ("first", "last"):
            return self._stream(a[0], it)
        if o == "call":
            if isinstance(a[0], str):
                if a[0].startswith("virtual."):
                    n = a[0][8:]
                    rs = {r for q, r in self.rets.items() if q.rsplit(".", 1)[-1] == n}
                    rs.discard(None)
                    return next(iter(rs)) if len(rs) == 1 else None
                return self.rets.get(a[0])
            return None
        if o == "memo":
            return self.rets.get(a[0])
        if o in ("new", "obj"):
            return a[0]
        if o in ("cat",):
            return ("list", self._stream(a[0], it) if a else None)
        if o in ("sorted", "reversed", "slice"):
            b = self.typeof(a[0], it)
            if b == "str":
                return "str"
            return ("list", self.elem(b))
        if o in ("range", "enum", "zip", "product", "comb2", "values", "keys"):
            if o in ("values", "keys"):
                b = self.typeof(a[0], it)
                if isinstance(b, tuple) and b[0] == "dict":
                    return ("list", b[2] if o == "values" else b[1])
            return ("list", None)
        if o == "items":
            b = self.typeof(a[0], it)
            return ("items", b[1], b[2]) if isinstance(b, tuple) and b[0] == "dict" else ("list", None)
        if o in ("set", "toset"):
            return ("set", self._stream(a[0], it))
        if o == "setop":
            return self.typeof(a[1], it) or ("set", None)
        if o == "dict":
            e = self._stream(a[0], it)
            return ("dict", e[1], e[2]) if isinstance(e, tuple) and e[0] == "tuple" and len(e) == 3 else ("dict", None, None)
        if o == "tuple":
            return ("tuple",) + tuple(self.typeof(x, it) for x in a)
        if o == "ite":
            return self.typeof(a[1], it) or self.typeof(a[2], it)
        if o in ("min2", "max2"):
            return "num"
        if o in ("enter", "open"):
            return "file"
        if o == "xcall":
            n = str(a[0])
            if n in ("networkx.DiGraph", "networkx.Graph", "networkx.MultiGraph"):
                return "nx"
            if n == "copy.deepcopy":
                return self.typeof(a[1].a[0], it)
            if n == "collections.defaultdict":
                return ("dict", None, None)
            if n.startswith("numpy."):
                return "np"
            if n in ("pandas.DataFrame", "pandas.read_csv"):
                return "df"
            return None
        if o == "mcall":
            if a[1] in ("strip", "format", "lower", "upper", "replace", "rstrip", "lstrip") and self.typeof(a[0], it) == "str":
                return "str"
            if a[1] in ("split", "splitlines") and self.typeof(a[0], it) == "str":
                return ("list", "str")
            if a[1] == "copy":
                return self.typeof(a[0], it)
            return None
        return None
