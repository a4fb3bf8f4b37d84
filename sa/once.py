"""Iterators are used once, and containers are not resized while they are walked.

A value made by a generator expression, a generator function, map, filter, zip, enumerate, reversed, iter, itertools or a
walk of networkx gives its elements to the first reader only.  The abstract interpreter reads such a value as the sequence of
its elements; this analysis finds the places where that reading is wrong: where a name bound to one is read again, read
within a loop that it was made outside of, asked for its length, an index or its truth, kept in an attribute, handed to a
function that reads its parameter again, or given back where a container was given back.
"""

import ast

BUILTIN = {"map", "filter", "zip", "enumerate", "reversed", "iter"}
NOT_ITER = {"itertools.tee"}
NX = {"all_simple_paths", "topological_sort", "connected_components", "weakly_connected_components", "strongly_connected_components",
      "dfs_edges", "bfs_edges", "all_neighbors", "simple_cycles", "all_topological_sorts", "dfs_preorder_nodes", "dfs_postorder_nodes", "non_edges",
      "all_shortest_paths", "find_cliques"}
NXM = {"successors", "predecessors", "neighbors"}
PARTIAL = {"next"}
LENGTHS = {"len"}
KEEPS = {"isinstance", "id", "type", "print", "iter", "repr", "callable", "hasattr", "getattr"}


class Once:
    def __init__(self, P):
        self.P = P
        self.out = []
        self.gives = {}   # qual -> whether the function gives back an iterator
        self.param = {}
        self.by_name = {}
        for f in P.funcs.values():
            self.by_name.setdefault(f.name, []).append(f)
        for _ in range(4):
            before = dict(self.gives)
            for q, f in P.funcs.items():
                self.gives[q] = self.gives_iterator(f)
            if before == self.gives:
                break

    # ------------------------------------------------------------ what makes an iterator
    def ext(self, f, e):
        """Dotted name of a library function."""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.insert(0, e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        r = self.P.resolve(f.module, e.id)
        if r and r[0] == "ext":
            return ".".join([r[1], *parts])
        return None

    def callee(self, f, c):
        """Package functions a call can reach."""
        fn = c.func
        if isinstance(fn, ast.Name):
            r = self.P.resolve(f.module, fn.id)
            if r and r[0] == "func":
                return [r[1]]
            if r and r[0] == "cls":
                m = self.P.find_method(r[1], "__init__")
                return [m] if m else []
            return []
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name):
                r = self.P.resolve(f.module, fn.value.id)
                if r and r[0] == "cls":
                    m = self.P.find_method(r[1], fn.attr)
                    return [m] if m else []
                if r and r[0] in ("ext", "pkgroot"):
                    return []
                if r and r[0] == "pkgmod":
                    m = r[1].funcs.get(fn.attr)
                    return [m] if m else []
                if fn.value.id in ("self", "cls") and f.cls is not None:
                    m = self.P.find_method(f.cls, fn.attr)
                    return [m] if m else []
            return [m for m in self.by_name.get(fn.attr, []) if m.cls is not None]
        return []

    def makes(self, f, e, local):
        """Whether the expression makes an iterator of its own."""
        if isinstance(e, ast.GeneratorExp):
            return True
        if isinstance(e, ast.IfExp):
            return self.makes(f, e.body, local) and self.makes(f, e.orelse, local)
        if not isinstance(e, ast.Call):
            return False
        fn = e.func
        if isinstance(fn, ast.Name):
            if fn.id in local:
                d = local[fn.id]
                return isinstance(d, ast.FunctionDef) and gen(d)
            if fn.id in BUILTIN and self.P.resolve(f.module, fn.id) is None:
                return True
        d = self.ext(f, fn)
        if d:
            if d.startswith("itertools.") and d not in NOT_ITER:
                return True
            return d.startswith("networkx.") and d.split(".")[-1] in NX
        if isinstance(fn, ast.Attribute) and fn.attr in NXM and not any(m.cls is not None for m in self.by_name.get(fn.attr, [])):
            return True
        cs = self.callee(f, e)
        return bool(cs) and all(self.gives.get(c.qual) for c in cs) and not any(c.name == "__init__" for c in cs)

    def gives_iterator(self, f):
        if gen(f.node):
            return True
        local = nested(f.node)
        rs = [n.value for n in own(f.node) if isinstance(n, ast.Return)]
        if not rs:
            return False
        last = {}
        for n in own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                last[n.targets[0].id] = n.value
        for r in rs:
            if isinstance(r, ast.Name) and r.id in last:
                r = last[r.id]
            if r is None or not self.makes(f, r, local):
                return False
        return True

    def holds_iterator(self, f):
        """An iterator inside of what the function gives back."""
        local = nested(f.node)
        last = {}
        for n in own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                last[n.targets[0].id] = None if n.targets[0].id in last else n.value
        for n in own(f.node):
            if not isinstance(n, ast.Return):
                continue
            r = n.value
            if isinstance(r, ast.Name):
                r = last.get(r.id)
            st = [r] if isinstance(r, (ast.Dict, ast.List, ast.Tuple, ast.Set)) else []
            while st:
                x = st.pop()
                for y in x.values if isinstance(x, ast.Dict) else x.elts:
                    if isinstance(y, ast.Name) and last.get(y.id) is not None:
                        y = last[y.id]
                    if isinstance(y, (ast.Dict, ast.List, ast.Tuple, ast.Set)):
                        st.append(y)
                    elif y is not None and self.makes(f, y, local):
                        return y
        return None

    # ------------------------------------------------------------ reading twice
    def findings(self):
        res = []
        for q in sorted(self.P.funcs):
            f = self.P.funcs[q]
            for g in [f, *inner(f)]:
                for kind, line, text in Walk(self, g).run():
                    res.append((q, kind, line, text))
            for kind, line, text in resized(f.node) + one_object(f.node):
                res.append((q, kind, line, text))
        return res

    def reads_param(self, m, i):
        """Why handing an iterator to parameter i of m goes wrong, or None."""
        k = (m.qual, i)
        if k not in self.param:
            self.param[k] = None
            a = m.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if i < len(names):
                w = Walk(self, m, {names[i]})
                fs = w.run()
                self.param[k] = fs[0][2] if fs else None
        return self.param[k]


def inner(f):
    """The functions within a function."""
    from .program import Func

    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.FunctionDef) and n is not f.node:
            out.append(Func(n.name, n, f.cls, f.module, "static", []))
    return out


def gen(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f))


def own(f):
    """Nodes of a function without those of the functions in it."""
    st = list(f.body) if not isinstance(f.body, ast.AST) else [f.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def nested(f):
    return {n.name: n for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f}


FRESH, READ, PART = 0, 1, 2


class Walk:
    """One function: which names hold an iterator, and whether it has been read."""

    def __init__(self, once, f, params=()):
        self.o, self.f = once, f
        self.local = nested(f.node)
        self.params = set(params)
        self.seen = {}
        self.depth = 0

    def run(self):
        st = {p: FRESH for p in self.params}
        self.block(self.f.node.body, st)
        return [(k[0], line, text) for k, (line, text) in sorted(self.seen.items())]

    def say(self, kind, name, node, text):
        if self.params and name not in self.params:
            return
        self.seen.setdefault((kind, name), (getattr(node, "lineno", 0), text))

    def block(self, body, st):
        """Returns whether control leaves the block."""
        for s in body:
            if self.stmt(s, st):
                return True
        return False

    def stmt(self, s, st):
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st, back=isinstance(s, ast.Return))
            return True
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.Assign):
            self.value(s.value, st, s.targets)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.value(s.value, st, [s.target])
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                st.pop(s.target.id, None)
        elif isinstance(s, ast.If):
            self.truth(s.test, st)
            a, b = dict(st), dict(st)
            la = self.block(s.body, a)
            lb = self.block(s.orelse, b)
            self.join(st, a, b, la, lb)
            return la and lb
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, st, "loop")
            self.bind(s.target, st)
            for _ in range(2):
                x = dict(st)
                self.block(s.body, x)
                for k in list(st):
                    st[k] = max(st[k], x.get(k, st[k]))
            # leaving the loop early leaves the rest
            if isinstance(s.iter, ast.Name) and s.iter.id in st and any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b)):
                st[s.iter.id] = PART
            self.block(s.orelse, st)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.truth(s.test, st)
                x = dict(st)
                self.block(s.body, x)
                for k in list(st):
                    st[k] = max(st[k], x.get(k, st[k]))
            self.block(s.orelse, st)
        elif isinstance(s, ast.Try):
            self.block(s.body, st)
            for h in s.handlers:
                x = dict(st)
                self.block(h.body, x)
            self.block(s.orelse, st)
            self.block(s.finalbody, st)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, st)
            return self.block(s.body, st)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.later(s, st)
        elif isinstance(s, ast.Expr):
            self.expr(s.value, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.pop(t.id, None)
                else:
                    self.expr(t, st)
        elif isinstance(s, ast.Assert):
            self.truth(s.test, st)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.expr(c, st)
        return False

    def join(self, st, a, b, la, lb):
        if la and not lb:
            a = b
        elif lb and not la:
            b = a
        for k in set(st) | set(a) | set(b):
            if k in a and k in b:
                # read on one side only: what is left depends
                st[k] = a[k] if a[k] == b[k] else PART if PART in (a[k], b[k]) else READ
            else:
                st.pop(k, None)

    def bind(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                st.pop(n.id, None)

    def value(self, v, st, targets):
        t = targets[0]
        alias = isinstance(v, ast.Name) and v.id in st
        made = self.o.makes(self.f, v, self.local) and not self.params
        if not alias:
            self.expr(v, st)
        if len(targets) == 1 and isinstance(t, ast.Name):
            if alias:
                st[t.id] = st[v.id]
                st.pop(v.id) if t.id != v.id else None
                if v.id in self.params:
                    self.params.add(t.id)
            elif made:
                st[t.id] = FRESH
            else:
                st.pop(t.id, None)
            return
        for t in targets:
            if isinstance(t, ast.Attribute) and (made or alias):
                self.say("kept", v.id if alias else "", v, f"{ast.unparse(t)} is given an iterator, which only its first reader sees")
            self.bind(t, st) if isinstance(t, (ast.Name, ast.Tuple, ast.List)) else self.expr(t, st)
        if alias:
            st.pop(v.id, None)

    def truth(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.truth(e.operand, st)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.truth(x, st)
            return
        if isinstance(e, ast.Name):
            if e.id in st:
                self.say("truth", e.id, e, f"the iterator {e.id} is tested, which is true even when it has no elements")
            return
        if self.o.makes(self.f, e, self.local) and not self.params:
            self.say("truth", "", e, f"the iterator {ast.unparse(e)[:60]} is tested, which is true even when it has no elements")
        self.expr(e, st)

    def later(self, d, st):
        """A function or lambda made here: what it reads, it may read each time it is called."""
        for n in ast.walk(d):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in st:
                st[n.id] = PART

    def read(self, n, st, many=False):
        k = n.id
        if st[k] == READ:
            self.say("again", k, n, f"the iterator {k} is read again after its elements have been read")
        elif many and st[k] == FRESH:
            self.say("again", k, n, f"the iterator {k} is read once for every element of a loop it was made outside of")
        if st[k] != PART:
            st[k] = READ

    def expr(self, e, st, how=None, many=False, back=False):
        """how: what the context does with the value."""
        if e is None or not isinstance(e, ast.AST):
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in st:
                self.read(e, st, many)
            return
        if isinstance(e, (ast.Lambda,)):
            return self.later(e, st)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            g = e.generators
            self.expr(g[0].iter, st, "loop", many)
            x = st
            hidden = {}
            for i, c in enumerate(g):
                if i:
                    self.expr(c.iter, x, "loop", True)
                for n in ast.walk(c.target):
                    if isinstance(n, ast.Name) and n.id in x:
                        hidden[n.id] = x.pop(n.id)
                for t in c.ifs:
                    self.expr(t, x, None, True)
            for y in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(y, x, None, True)
            st.update(hidden)
            return
        if isinstance(e, ast.IfExp):
            self.truth(e.test, st)
            a, b = dict(st), dict(st)
            self.expr(e.body, a, how, many)
            self.expr(e.orelse, b, how, many)
            self.join(st, a, b, False, False)
            return
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                if isinstance(x, ast.Name):
                    self.truth(x, st)
                else:
                    self.expr(x, st, None, many)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.truth(e.operand, st)
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id in st:
            self.say("index", e.value.id, e, f"the iterator {e.value.id} is indexed")
            self.expr(e.slice, st, None, many)
            return
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in st:
            if e.attr not in ("__next__", "send", "close", "throw"):
                self.say("method", e.value.id, e, f"the iterator {e.value.id} has no {e.attr}") if not self.params else None
            st[e.value.id] = PART
            return
        if isinstance(e, ast.Call):
            return self.call(e, st, many)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, st, None, many)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, st, None, many)

    def call(self, e, st, many):
        fn = e.func
        name = fn.id if isinstance(fn, ast.Name) and self.o.P.resolve(self.f.module, fn.id) is None else None
        if not isinstance(fn, ast.Name):
            self.expr(fn, st, None, many)
        for i, a in enumerate(e.args):
            x = a.value if isinstance(a, ast.Starred) else a
            held = isinstance(x, ast.Name) and x.id in st
            made = not held and self.o.makes(self.f, x, self.local) and not self.params
            if name in LENGTHS and (held or made):
                self.say("length", x.id if held else "", e, f"the length of the iterator {ast.unparse(x)[:60]} is asked for")
                continue
            if name in PARTIAL and held:
                st[x.id] = PART
                continue
            if name in KEEPS and held:
                if name == "iter":
                    st[x.id] = PART
                continue
            if (held or made) and not isinstance(a, ast.Starred):
                cs = self.o.callee(self.f, e)
                if cs and len(cs) == 1:
                    m = cs[0]
                    j = i
                    if m.kind in ("inst", "class") and (m.name == "__init__" or not self.unbound(fn)):
                        j += 1
                    why = self.o.reads_param(m, j)
                    if why:
                        self.say("handed", x.id if held else "", e, f"{ast.unparse(x)[:60]}, an iterator, is handed to {m.qual}: {why}")
            if not held and not made:
                self.expr(a, st, None, many)
            elif made:
                self.expr(x, st, None, many)
            else:
                self.read(x, st, many)
        for k in e.keywords:
            self.expr(k.value, st, None, many)

    def unbound(self, fn):
        """A method reached through its class."""
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            r = self.o.P.resolve(self.f.module, fn.value.id)
            return bool(r and r[0] == "cls")
        return False


# ---------------------------------------------------------------- resizing what is walked
SHRINK = {"remove", "pop", "popitem", "discard", "clear"}


def resized(f):
    """Loops over a container whose own body takes elements out of it."""
    out = []
    for n in ast.walk(f):
        if not isinstance(n, ast.For):
            continue
        it = n.iter
        view = False
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys", "values") and not it.args:
            it = it.func.value
            view = True
        if not isinstance(it, (ast.Name, ast.Attribute)):
            continue
        d = ast.dump(it).replace("Store()", "Load()")

        def block(body):
            for i, s in enumerate(body):
                if hit(s):
                    rest = body[i + 1:]
                    if not any(isinstance(r, (ast.Break, ast.Return, ast.Raise)) for r in rest) and not isinstance(s, ast.Return):
                        return s
                if isinstance(s, ast.Assign) and any(ast.dump(t).replace("Store()", "Load()") == d for t in s.targets):
                    return None
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(s, fld, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        if any(isinstance(r, (ast.Break, ast.Return, ast.Raise)) for r in body[i + 1:]):
                            continue
                        r = block(b)
                        if r is not None:
                            return r
            return None

        def hit(s):
            if isinstance(s, ast.Delete):
                return any(isinstance(t, ast.Subscript) and ast.dump(t.value) == d for t in s.targets)
            if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
                c = s.value
                return c.func.attr in SHRINK and ast.dump(c.func.value) == d
            return False

        s = block(n.body)
        if s is not None:
            out.append(("resized", s.lineno, f"{ast.unparse(s)[:60]} takes elements out of {ast.unparse(it)} while it is walked"))
    return out


MAKERS = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter"}


def one_object(f):
    """Attributes that are made to hold one and the same new container."""
    out = []
    holds = set()

    def new(v):
        if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
        return isinstance(v, ast.Call) and (getattr(v.func, "id", None) or getattr(v.func, "attr", None)) in MAKERS

    for s in sorted((n for n in own(f) if isinstance(n, ast.Assign)), key=lambda n: n.lineno):
        ts = [ast.unparse(t) for t in s.targets if isinstance(t, (ast.Attribute, ast.Name))]
        fresh = new(s.value)
        source = ast.unparse(s.value) if isinstance(s.value, (ast.Attribute, ast.Name)) else None
        at = [t for t in ts if "." in t]
        if fresh and len(at) > 1:
            out.append(("shared", s.lineno, f"{' and '.join(sorted(at))} are one object"))
        if source in holds and at and "." in source and source not in at:
            out.append(("shared", s.lineno, f"{' and '.join(sorted([*at, source]))} are one object"))
        for t in ts:
            holds.discard(t)
            if fresh:
                holds.add(t)
    return out


def new_findings(C):
    """Findings of the program that its contracts do not have, with the functions they concern."""
    A, B = Once(C.spec.P), Once(C.P)
    have = {(q, k, t) for q, k, _, t in A.findings()}
    out = []
    from .compare import internal

    for q, k, line, text in B.findings():
        if (q, k, text) in have:
            continue
        out.append((q, k, line, text))
    for q, g in B.gives.items():
        if g and q in A.gives and not A.gives[q] and not internal(q) and A.P.funcs[q].kind == B.P.funcs[q].kind:
            if any(isinstance(n, ast.Return) for n in own(A.P.funcs[q].node)):
                out.append((q, "given back", B.P.funcs[q].node.lineno, f"{q} gives back an iterator, which can be read once, where a container is required"))
    for q in sorted(B.P.funcs):
        if q in A.P.funcs and not internal(q):
            y = B.holds_iterator(B.P.funcs[q])
            if y is not None and A.holds_iterator(A.P.funcs[q]) is None:
                out.append((q, "given back", y.lineno, f"{q} gives back an iterator, which can be read once, inside of its result: {ast.unparse(y)[:60]}"))
    return out
