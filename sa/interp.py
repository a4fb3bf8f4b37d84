"""Gated value numbering of a function: evaluates its body once, over terms, and yields a summary.

No path is enumerated and nothing is run: a branch is evaluated on both sides and joined into gated values, a loop body
is evaluated once for a generic element (to a fixpoint over the variables it carries), and a call is either expanded
or kept as an uninterpreted value, together with the state it may read and write.
"""

import ast
from collections import namedtuple

from .terms import (
    FALSE, NONE, NORET, ONE, SEQ0, T, TRUE, UNDEF, ZERO, _mk, _identity_stream, assume, band, bnot, bor, bv, close,
    const, guard_stream, is_bool, is_const, is_num, is_str, is_strish, ite, key, le, members, mentions, merge_do, mk, open_, rebuild,
    restrict, seq, subst, subterms, truth, as_splice, deep_assume, implied_lits, is_add, counts,
)

Obj = namedtuple("Obj", "kind cls content fields args log")

MUTATORS = {
    "append", "add", "extend", "remove", "discard", "pop", "update", "clear", "insert", "sort", "setdefault",
    "popitem", "reverse", "appendleft", "popleft", "intersection_update", "difference_update",
    "symmetric_difference_update",
}
INPLACE = {"BitOr": "update", "BitAnd": "intersection_update", "Sub": "difference_update",
           "BitXor": "symmetric_difference_update"}
CONTAINER_METHODS = MUTATORS | {
    "items", "keys", "values", "get", "copy", "index", "count", "union", "intersection", "difference", "issubset",
    "issuperset", "isdisjoint", "symmetric_difference",
}
STR_METHODS = {"split", "strip", "join", "format", "endswith", "startswith", "replace", "lower", "upper", "lstrip",
               "rstrip", "encode", "splitlines", "isdigit"}
NEW_GRAPH = {"networkx.Graph", "networkx.DiGraph", "networkx.classes.graph.Graph", "networkx.classes.digraph.DiGraph"}
NX_MUT = {"add_node", "add_edge", "add_edges_from", "add_nodes_from", "remove_edge", "remove_node",
          "remove_edges_from", "remove_nodes_from"}
IGNORED_EXT = ("logging.", "warnings.")
MAX_INLINE = 14


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("frames", "heap", "store", "ver", "pc", "ret", "brk", "cont")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.store = {}
        self.ver = {}
        self.pc = TRUE
        self.ret = NORET
        self.brk = FALSE
        self.cont = FALSE

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.store = dict(self.store)
        s.ver = dict(self.ver)
        s.pc = self.pc
        s.ret = self.ret
        s.brk = self.brk
        s.cont = self.cont
        return s

    def become(self, o):
        for k in State.__slots__:
            setattr(self, k, getattr(o, k))


def map_leaves(t, f):
    if t.op == "ite":
        return ite(t.a[0], map_leaves(t.a[1], f), map_leaves(t.a[2], f))
    return f(t)


def noret_cond(t):
    return map_leaves(t, lambda x: TRUE if x is NORET else FALSE)


def fmtspec_parts(fmt, args, kwargs):
    """Parts of a str.format() template; None when it is not understood."""
    import string

    out = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                return None
            if conv == "r":
                v = mk("repr", v)
            if spec:
                v = mk("fmtspec", v, const(spec))
            out.append(v)
    except Exception:
        return None
    return out


class Interp:
    def __init__(self, program, types, is_opaque, maywrite, mayread, cname=None):
        self.P = program
        self.types = types
        self.is_opaque = is_opaque
        self.maywrite = maywrite
        self.mayread = mayread
        self.eff = {}
        self.level = 0
        self.stack = []
        self.clos = {}
        self.nrid = 0
        self.nfid = 0
        self.opaque_notes = []
        self.budget = 400000
        self.called = set()
        self.inlined = set()
        self.ticks = 0
        self.wrote = set()
        self.read = set()
        self.clo_stack = []
        self.lam_active = set()
        self.local_classes = program.local_classes

    # ============================================================ entry
    def summarise(self, func, selfcls=None, param_types=None):
        """(return value, effects) of func, over its parameters."""
        st = State()
        fid = self.new_frame(st, None, func)
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        ptypes = self.types.params.get(func.qual, {})
        env = st.frames[fid]
        defaults = a.defaults
        nreq = len(names) - len(defaults)
        maxp = self.types.arity.get(func.qual)
        for i, n in enumerate(names):
            if maxp is not None and i >= maxp and i >= nreq:
                env[n] = self.default_value(defaults[i - nreq], func, st)
                continue
            p = mk("p", i)
            env[n] = p
        for x in a.kwonlyargs:
            env[x.arg] = mk("p", "kw:" + x.arg)
        if a.vararg:
            env[a.vararg.arg] = mk("p", "*")
        if a.kwarg:
            env[a.kwarg.arg] = mk("p", "**")
        self.cur = func
        self.ptypes = {}
        for i, n in enumerate(names):
            t = ptypes.get(n) or (ptypes.get(i))
            if i == 0 and func.cls is not None and func.kind == "inst":
                t = func.cls.name
            elif i == 0 and func.kind == "class":
                t = None
                env[n] = mk("cls", self.cname(func.cls))
            if t is None:
                t = self.types.byname.get(n)
            self.ptypes[i] = t
        init_self = None
        if func.name == "__init__" and func.cls is not None:
            init_self = self.alloc(st, Obj("inst", func.cls, None, {}, (), SEQ0))
            env[names[0]] = init_self
        self.stack.append(func)
        is_gen = self.has_yield(func.node)
        if is_gen:
            env["$yield"] = self.alloc(st, Obj("list", None, SEQ0, None, None, None))
        self.exec_block(func.node.body, st)
        self.stack.pop()
        ret = map_leaves(st.ret, lambda x: NONE if x is NORET else x)
        if is_gen:
            ret = env_get(st, fid, "$yield")
        shared = self.shared(ret, init_self, st)
        ret = self.freeze(ret, st)
        effs = {c: [self.freeze(e, st) for e in es] for c, es in self.eff.items()}
        if init_self is not None:
            o = st.heap[init_self.a[0]]
            for k in sorted(o.fields):
                effs.setdefault("f:" + k, []).append(
                    mk("do", TRUE, mk("eff", "setattr", mk("p", 0), k, self.freeze(o.fields[k], st))))
            if o.log is not SEQ0:
                effs.setdefault("log", []).append(self.freeze(o.log, st))
        effs = {c: seq(*es) for c, es in effs.items()}
        effs = {c: e for c, e in effs.items() if e is not SEQ0}
        if shared:
            effs["shared"] = seq(*[mk("do", TRUE, mk("eff", "one object", *[const(h) for h in hs])) for hs in shared])
        dv = []
        for d in defaults:
            dv.append(self.freeze(self.default_value(d, func, st), st))
        kwd = []
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            kwd.append(mk("tuple", const(x.arg), self.freeze(self.default_value(d, func, st), st) if d else UNDEF))
        return ret, effs, (nreq, tuple(dv), tuple(kwd))

    def shared(self, ret, init_self, st):
        """Which places end up holding one and the same new list, set or dict."""
        held = {}

        def walk(path, t, depth):
            if not isinstance(t, T) or depth > 12 or len(path) > 200:
                return
            if t.op == "ref":
                o = st.heap.get(t.a[0])
                if o is None:
                    return
                if o.kind in ("list", "set", "dict"):
                    if path in held.setdefault(t.a[0], []):
                        held[t.a[0]].append(path + "'")
                        return
                    held[t.a[0]].append(path)
                    walk(path + "[]", o.content, depth + 1)
                elif o.kind == "inst" and isinstance(o.fields, dict):
                    for k in sorted(o.fields):
                        walk(path + "." + k, o.fields[k], depth + 1)
                return
            if t.op == "for":
                # what is made outside the loop is one object in every round
                walk(path + "*", t.a[1], depth + 1)
                return
            if t.op in ("seq", "tuple", "ite", "yield", "guarded"):
                for x in t.a:
                    if isinstance(x, T):
                        walk(path, x, depth + 1)

        if init_self is not None:
            for k, v in sorted(st.heap[init_self.a[0]].fields.items()):
                walk("." + k, v, 0)
        walk("result", ret, 0)
        for c, es in sorted(self.eff.items()):
            for d in es:
                if d.op == "do" and d.a[1].op == "eff" and d.a[1].a[0] in ("setattr", "setitem", "append", "add", "setfield"):
                    x = d.a[1].a[-1]
                    if isinstance(x, T):
                        walk("." + (d.a[1].a[2] if d.a[1].a[0] == "setattr" and isinstance(d.a[1].a[2], str) else c), x, 0)
        return sorted(sorted(set(hs)) for hs in held.values() if len(hs) > 1 or any("*" in h for h in hs))

    def default_value(self, d, func, st):
        try:
            return self.eval_const_expr(d, func.module)
        except Unsupported:
            return mk("opaque", "default")

    def has_yield(self, node):
        for st in node.body:
            for x in ast.walk(st):
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    return self._owner_is(node, x)
        return False

    def _owner_is(self, node, y):
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if c is y:
                    return True
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                    continue
                if walk(c):
                    return True
            return False

        return walk(node)

    # ============================================================ helpers
    def cname(self, c):
        ks = self.P.class_by_name.get(c.name, [])
        return c.name if len(ks) == 1 else f"{c.module.name}.{c.name}"

    def new_frame(self, st, parent, func, cls=None):
        self.nfid += 1
        fid = self.nfid
        st.frames[fid] = {"$parent": parent, "$func": func}
        self.fid = fid
        return fid

    def alloc(self, st, obj):
        self.nrid += 1
        st.heap[self.nrid] = obj
        return _mk("ref", (self.nrid,))

    def note(self, what, node=None):
        line = getattr(node, "lineno", 0)
        self.opaque_notes.append((what, self.stack[-1].qual if self.stack else "?", line))
        return mk("opaque", what)

    def typ(self, t):
        return self.types.typeof(t, self)

    def klass(self, t):
        """Package class of the value t, or None."""
        if t.op == "ref":
            o = self.st_heap_obj(t)
            return o.cls if o is not None and o.kind == "inst" else None
        ty = self.typ(t)
        if isinstance(ty, str):
            return self.P.get_class(ty.split(".")[-1], ty.split(".")[0] if "." in ty else None)
        return None

    def st_heap_obj(self, t):
        return self.cur_state.heap.get(t.a[0]) if self.cur_state else None

    cur_state = None

    # ------------------------------------------------------------ freezing
    def freeze(self, t, st, since=0):
        """Replace references to fresh objects by their contents."""
        memo = {}
        active = set()

        def go(t):
            if t in memo:
                return memo[t]
            if t.op == "ref":
                rid = t.a[0]
                if rid < since or rid in active or rid not in st.heap:
                    return t if rid not in active else mk("self_ref")
                active.add(rid)
                r = self.content(st.heap[rid], go, lambda x: self.freeze(x, st))
                active.discard(rid)
            elif not any(isinstance(x, T) for x in t.a):
                r = t
            else:
                r = rebuild(t, go)
            memo[t] = r
            return r

        return go(t)

    def content(self, o, go=lambda x: x, full=None):
        if o.kind == "list":
            return mk("cat", go(o.content))
        if o.kind == "set":
            return mk("set", go(o.content))
        if o.kind == "dict":
            return mk("dict", go(o.content))
        if o.kind == "inst":
            args = tuple(go(x) for x in o.args)
            mod = []
            for k in sorted(o.fields):
                v = o.fields[k]
                if isinstance(v, tuple):
                    if len(v) < 2 or full is None or full(v[0]) is v[1]:
                        continue
                    # changed in place since the constructor made it
                    v = v[0]
                mod.append(mk("field", k, go(v)))
            return mk("new", self.cname(o.cls), mk("tuple", *args), mk("tuple", *mod), go(o.log))
        raise AssertionError(o.kind)

    def truth(self, v, st):
        """Truth value of v, as it is now."""
        if is_bool(v):
            return v
        if v.op == "ite":
            return ite(v.a[0], self.truth(v.a[1], st), self.truth(v.a[2], st))
        if v.op == "ref":
            v = self.freeze(v, st)
        if v.op in ("attr", "item", "at", "p", "call", "v", "values", "keys", "items"):
            ty = self.typ(v)
            v = self.cread(v, st)
            if isinstance(ty, tuple) or ty == "str":
                return mk("nonempty", v)
        return truth(v)

    # ------------------------------------------------------------ versions
    def rootcls(self, t):
        """Class of the mutable container that the term t denotes."""
        while True:
            if t.op == "attr":
                return "c:" + t.a[1]
            if t.op in ("item", "at"):
                t = t.a[0]
                continue
            if t.op == "v":
                t = t.a[0]
                continue
            if t.op in ("keys", "values", "items", "sorted", "best", "first", "last"):
                t = t.a[0]
                continue
            if t.op == "for":
                t = t.a[0]
                continue
            if t.op == "p":
                return f"c:p{t.a[0]}"
            if t.op == "g":
                return "c:g:" + t.a[0]
            if t.op == "call":
                return "c:call:" + str(t.a[0])
            if t.op == "xcall":
                return "c:x:" + str(t.a[0])
            if t.op == "ite":
                return self.rootcls(t.a[1])
            if t.op in ("bv", "b"):
                return "c:loop"
            return "c:" + t.op

    def loc(self, t, st):
        """The place of a container inside another one, as it is now."""
        if t.op != "item":
            return t
        if t.a[0].op == "v" and t.a[0].a[1] is st.ver.get(self.rootcls(t.a[0].a[0])):
            # a place of what is there now
            return mk("item", t.a[0].a[0], *t.a[1:])
        if t.a[0].op == "v":
            cur = st.ver.get(self.rootcls(t.a[0].a[0]))
            while cur is not None and cur.op == "ver" and cur is not t.a[0].a[1] and inner_only(cur.a[1]):
                cur = cur.a[0]
            if cur is t.a[0].a[1]:
                return mk("item", t.a[0].a[0], *t.a[1:])
        return self.cread(t, st)

    def cread(self, t, st):
        """The container t, as it is now."""
        if t.op in ("ref", "tuple", "cat", "c", "set", "dict", "bv", "b"):
            return t
        if t.op in ("values", "items", "keys", "enum", "reversed", "comb2", "range"):
            return rebuild(t, lambda x: self.cread(x, st))
        if t.op == "item" and isinstance(t.a[1], T):
            # the containers inside a container change with it
            if isinstance(self.typ(t), str):
                return t
            b = self.cread(t.a[0].a[0] if t.a[0].op == "v" else t.a[0], st)
            return t if b is t.a[0] else mk("item", b, t.a[1])
        if t.op in ("at", "item") and self.typ(t) in ("str", "int", "float", "bool"):
            return t
        rc = self.rootcls(t)
        self.read.add(rc)
        v = st.ver.get(rc)
        if v is not None and v.op == "ite":
            # only the paths that get here
            for a, val in implied_lits(band(st.pc, self.live(st))):
                v = assume(v, a, val)
        if v is not None and v.op == "ver":
            lits = implied_lits(band(st.pc, self.live(st)))
            while lits and v.op == "ver" and v.a[1].op == "do" and _fails(v.a[1].a[0], lits):
                v = v.a[0]
        if v is None or v is NONE:
            return t
        b = t
        while b.op in ("attr", "item", "at", "v"):
            if b.op == "v" and b.a[1] is v:
                return t
            b = b.a[0]
        return mk("v", t, v)

    def bump(self, st, cls, eff):
        old = st.ver.get(cls)
        old = old if old is not None else NONE
        if old.op == "ver" and old.a[1].op == eff.op == "do":
            m = merge_do(old.a[1], eff)
            if m is not None:
                old, eff = old.a[0], m
        st.ver[cls] = ver(old, eff)

    def emit(self, st, eff, classes):
        g = st.pc
        c = choice(eff)
        if c is not None:
            # what is done to one thing or to another, as two steps of which one is taken
            for val in (True, False):
                st.pc = band(g, c if val else bnot(c))
                if st.pc is not FALSE:
                    self.emit(st, chosen(eff, c, val), classes)
            st.pc = g
            return
        if eff.op == "eff" and eff.a[0] == "delx":
            # taking out what is there, or an error
            lit = mk("in", self.freeze(eff.a[2], st), self.cread(self.freeze(eff.a[1], st), st))
            if lit is TRUE or g is not TRUE and not is_const(lit) and restrict(lit, g) is TRUE:
                eff = mk("eff", "del", *eff.a[1:])
        if g is not TRUE and eff.op == "eff" and eff.a[0] in ("del", "add") and len(eff.a) == 3 and classes and all(
                _steps(st.ver.get(c, NONE)) == len(self.eff.get(c, ())) for c in classes):
            # removing what is not there, or adding to a set what is, changes nothing
            rd = self.cread(self.freeze(eff.a[1], st), st)
            lit = mk("in", self.freeze(eff.a[2], st), rd)
            if not is_const(lit) and lit.op != "ite":
                g = assume(g, lit, eff.a[0] == "del")
            elif lit.op == "ite" and len(lit.a) == 3 and is_const(lit.a[1]) and is_const(lit.a[2]):
                g = assume(g, lit.a[0], (lit.a[1] is TRUE) == (eff.a[0] == "del"))
        d = mk("do", g, eff)
        if d is SEQ0:
            return
        tgt = eff.a[1] if eff.op == "eff" and len(eff.a) > 1 and isinstance(eff.a[1], T) else None
        mine = tgt is not None and tgt.op == "xcall" and tgt.a[0] in NEW_GRAPH
        # what happens to an object made here is nobody else's business
        self.wrote.update(c for c in classes if not (mine and c == "nx" or c.startswith("c:x:networkx.")))
        fz = self.freeze(d, st)
        making = eff.op == "eff" and eff.a[0] == "setattrdyn" and tgt is not None and tgt.op == "mcall" and tgt.a[1] == "__new__"
        for c in classes or ("?",):
            self.eff.setdefault(c, []).append(d)
            if not making:
                # (filling in an object made here changes no other)
                self.bump(st, c, fz)

    # ============================================================ statements
    def live(self, st):
        l = noret_cond(st.ret)
        if st.brk is not FALSE:
            l = band(l, bnot(st.brk))
        if st.cont is not FALSE:
            l = band(l, bnot(st.cont))
        return l

    def exec_block(self, stmts, st):
        for i, s in enumerate(stmts):
            live = self.live(st)
            if live is FALSE:
                return
            if live is TRUE:
                self.exec_stmt(s, st)
            else:
                s2 = st.copy()
                s2.pc = band(st.pc, live)
                s2.ret, s2.brk, s2.cont = NORET, FALSE, FALSE
                self.exec_block(stmts[i:], s2)
                pc = st.pc
                self.merge_into(st, live, s2, st)
                st.pc = pc
                return

    def merge_into(self, dst, c, s1, s2):
        r = State()
        for fid in set(s1.frames) | set(s2.frames):
            e1, e2 = s1.frames.get(fid), s2.frames.get(fid)
            if e1 is None or e2 is None:
                r.frames[fid] = e1 or e2
                continue
            e = {}
            for k in list(e1) + [k for k in e2 if k not in e1]:
                a, b = e1.get(k, UNDEF), e2.get(k, UNDEF)
                if a is b or k.startswith("$") and not isinstance(a, T):
                    e[k] = a
                elif a is UNDEF or b is UNDEF:
                    e[k] = b if a is UNDEF else a
                else:
                    e[k] = ite(c, a, b)
            r.frames[fid] = e
        for rid in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(rid), s2.heap.get(rid)
            if a is None or b is None or a is b:
                r.heap[rid] = a if a is not None else b
                continue
            r.heap[rid] = self.merge_obj(c, a, b)
        for k in set(s1.store) & set(s2.store):
            a, b = s1.store[k], s2.store[k]
            r.store[k] = ite(c, a, b)
        for k in set(s1.store) ^ set(s2.store):
            v = s1.store.get(k, s2.store.get(k))
            other = mk("attr", k[0], k[1])
            if k in s1.store:
                r.store[k] = ite(c, v, other)
            else:
                r.store[k] = ite(c, other, v)
        for k in set(s1.ver) | set(s2.ver):
            a, b = s1.ver.get(k, NONE), s2.ver.get(k, NONE)
            r.ver[k] = merge_ver(c, a, b)
        r.ret = ite(c, s1.ret, s2.ret)
        r.brk = ite(c, s1.brk, s2.brk)
        r.cont = ite(c, s1.cont, s2.cont)
        dst.become(r)

    def merge_stream(self, c, a, b):
        if a is b:
            return a
        pa = a.a if a.op == "seq" else (a,)
        pb = b.a if b.op == "seq" else (b,)
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        m = 0
        while m < min(len(pa), len(pb)) - n and pa[-1 - m] is pb[-1 - m]:
            m += 1
        ra, rb = seq(*pa[n:len(pa) - m]), seq(*pb[n:len(pb) - m])
        return seq(*pa[:n], guard_stream(ra, c), guard_stream(rb, bnot(c)), *pa[len(pa) - m:])

    def merge_obj(self, c, a, b):
        if a.kind in ("list", "set", "dict"):
            return a._replace(content=self.merge_stream(c, a.content, b.content))
        f = {}
        la, lb = a.log, b.log
        for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
            x, y = a.fields.get(k), b.fields.get(k)
            if (x is None or y is None) and (la is not SEQ0 or lb is not SEQ0):
                # one side handed the object to a call that writes the field: read through the log from here on
                v = x if x is not None else y
                if not isinstance(v, tuple):
                    e = mk("do", TRUE, mk("eff", "setattr", mk("itself"), k, v))
                    if x is not None:
                        la = seq(la, e)
                    else:
                        lb = seq(lb, e)
                continue
            if x is y:
                f[k] = x
                continue
            if isinstance(x, tuple) and isinstance(y, tuple):
                f[k] = (ite(c, x[0], y[0]),)
                continue
            x = x[0] if isinstance(x, tuple) else x
            y = y[0] if isinstance(y, tuple) else y
            if x is None or y is None:
                f[k] = ite(c, x if x is not None else UNDEF, y if y is not None else UNDEF)
            else:
                f[k] = ite(c, x, y)
        return a._replace(fields=f, log=self.merge_stream(c, la, lb))

    def branch(self, c, st, then, other):
        c = truth(c)
        # what the path condition already decides
        cc = restrict(c, st.pc) if st.pc is not TRUE else c
        if cc is TRUE:
            then(st)
            return
        if cc is FALSE:
            other(st)
            return
        pc = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = band(pc, c), band(pc, bnot(c))
        then(s1)
        other(s2)
        self.merge_into(st, c, s1, s2)
        st.pc = pc

    def exec_stmt(self, s, st):
        self.ticks += 1
        if self.ticks > self.budget:
            raise Unsupported("budget")
        self.cur_state = st
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.emit(st, mk("eff", "opaque", self.note("stmt " + type(s).__name__, s)), [])
            return
        m(s, st)

    def x_Pass(self, s, st):
        pass

    def x_Import(self, s, st):
        env = st.frames[self.fid]
        for a in s.names:
            dm = self.P.by_dotted.get(a.name)
            env[a.asname or a.name.split(".")[0]] = mk("pkgmod", dm.name) if dm and a.asname else mk(
                "ext", a.name if a.asname else a.name.split(".")[0])

    def x_ImportFrom(self, s, st):
        env = st.frames[self.fid]
        mod = s.module or ""
        for a in s.names:
            dm = self.P.by_dotted.get(mod)
            r = self.P.resolve(dm, a.name) if dm else ("ext", mod + "." + a.name)
            env[a.asname or a.name] = self.global_value(r, st)

    def x_Assert(self, s, st):
        pass

    def x_Global(self, s, st):
        st.frames[self.fid].setdefault("$globals", frozenset())
        st.frames[self.fid]["$globals"] = st.frames[self.fid]["$globals"] | set(s.names)

    def x_Nonlocal(self, s, st):
        st.frames[self.fid].setdefault("$nonlocals", frozenset())
        st.frames[self.fid]["$nonlocals"] = st.frames[self.fid]["$nonlocals"] | set(s.names)

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def stopping_loop(self, e, st):
        """`any(f(x) for x in xs)` where f changes something, as the loop it is: it stops at the first that holds."""
        neg = isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)
        c = e.operand if neg else e
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("any", "all") and len(c.args) == 1 and not c.keywords
                and isinstance(c.args[0], ast.GeneratorExp) and len(c.args[0].generators) == 1 and not c.args[0].generators[0].is_async):
            return None
        g = c.args[0].generators[0]
        if not any(isinstance(n, ast.Call) for n in ast.walk(c.args[0].elt)):
            return None
        st2 = st.copy()
        eff0, n0 = self.eff, len(self.opaque_notes)
        self.eff = {k: list(v) for k, v in eff0.items()}
        try:
            self.eval(c, st2)
        finally:
            self.eff, self.cur_state = eff0, st
            del self.opaque_notes[n0:]
        if all(v is st.ver.get(k) for k, v in st2.ver.items()):
            return None
        test = c.args[0].elt if c.func.id == "any" else ast.UnaryOp(ast.Not(), c.args[0].elt)
        hit = ast.Return(ast.Constant((c.func.id == "any") != neg))
        miss = ast.Return(ast.Constant((c.func.id != "any") != neg))
        body = ast.If(test, [hit], [])
        for t in reversed(g.ifs):
            body = ast.If(t, [body], [])
        out = [ast.For(g.target, g.iter, [body], []), miss]
        for n in out:
            ast.copy_location(n, e)
            ast.fix_missing_locations(n)
        return out

    def x_Return(self, s, st):
        loop = self.stopping_loop(s.value, st)
        if loop:
            return self.exec_block(loop, st)
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.ret is NORET:
            st.ret = v
        else:  # an exception leaf was set while evaluating v
            st.ret = map_leaves(st.ret, lambda x: v if x is NORET else x)

    def x_Raise(self, s, st):
        name = "Exception"
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        r = mk("raise", name)
        st.ret = map_leaves(st.ret, lambda x: r if x is NORET else x)

    def x_Break(self, s, st):
        st.brk = TRUE

    def x_Continue(self, s, st):
        st.cont = TRUE

    def x_If(self, s, st):
        c = self.truth(self.eval(s.test, st), st)
        self.branch(c, st, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x))

    def x_FunctionDef(self, s, st):
        st.frames[self.fid][s.name] = self.closure(s, st)

    def closure(self, node, st):
        k = (id(node), self.fid)
        c = _mk("clo", (len(self.clos),))
        self.clos[c.a[0]] = (node, self.fid, st.frames[self.fid]["$func"])
        return c

    def x_ClassDef(self, s, st):
        from .program import Class

        f = st.frames[self.fid]["$func"]
        name = s.name
        c = self.local_classes.get(id(s))
        if c is None:
            c = Class(name, f.module, s)
            self.P_local_class(c, s, f.module)
            self.local_classes[id(s)] = c
            self.P.class_by_name.setdefault(name, [])
            if c not in self.P.class_by_name[name]:
                self.P.class_by_name[name].append(c)
        st.frames[self.fid][name] = mk("cls", self.cname(c))


    def P_local_class(self, c, node, module):
        from .program import Func, _deco

        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                decos = [_deco(d) for d in st.decorator_list]
                kind = "inst"
                for d in decos:
                    kind = {"staticmethod": "static", "classmethod": "class", "property": "prop"}.get(d, kind)
                c.methods[st.name] = Func(st.name, st, c, module, kind, [])

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.container_op(b, "delitem", [k], {}, st, t)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.emit(st, mk("eff", "delattr", b, t.attr), ["f:" + t.attr])
            elif isinstance(t, ast.Name):
                st.frames[self.fid].pop(t.id, None)

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            old = self.getattr(b, t.attr, st, t)
        else:
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            old = self.getitem(b, k, st)
        v = self.eval(s.value, st)
        # on a container the operator changes the object every other name for it sees
        name = type(s.op).__name__
        if isinstance(s.op, ast.Add) and (self.is_list(old, st) or self.untyped(old) and self.is_list(v, st)):
            self.container_op(old, "extend", [v], {}, st, s)
            return
        if name in INPLACE and (self.is_setlike(old, st) or self.is_dict(old, st) and name == "BitOr"
                                or self.untyped(old) and (name != "Sub" or self.is_setlike(v, st))):
            self.container_op(old, INPLACE[name], [v], {}, st, s)
            return
        r = self.binop(s.op, old, v, st, s)
        if isinstance(t, ast.Name):
            self.assign(t, r, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(b, t.attr, r, st)
        else:
            self.setitem(b, k, r, st, s)

    def untyped(self, t):
        """What a caller hands in or a library gives back, and no declaration says what it is."""
        return t.op in ("bv", "item", "attr", "enter", "first", "popped", "mcall") and self.typ(t) is None

    def is_list(self, t, st):
        if t.op == "ref":
            return st.heap[t.a[0]].kind == "list"
        if t.op == "cat":
            return True
        ty = self.typ(t)
        return isinstance(ty, tuple) and ty[0] == "list"

    def is_dict(self, t, st):
        if t.op == "attr" and t.a[-1] == "__dict__":
            return True
        ty = self.typ(t)
        return isinstance(ty, tuple) and ty[0] == "dict"

    def is_setlike(self, t, st):
        if t.op == "ref":
            return st.heap[t.a[0]].kind == "set"
        if t.op in ("set", "setop"):
            return True
        ty = self.typ(t)
        return isinstance(ty, tuple) and ty[0] == "set"

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            env = st.frames[self.fid]
            if t.id in env.get("$globals", ()):
                self.emit(st, mk("eff", "setglobal", t.id, v), ["c:g:" + t.id])
                return
            if t.id in env.get("$nonlocals", ()):
                fid = env["$parent"]
                while fid is not None and t.id not in st.frames.get(fid, {}):
                    fid = st.frames[fid]["$parent"] if fid in st.frames else None
                if fid is not None:
                    st.frames[fid][t.id] = v
                return
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                for j, e in enumerate(t.elts):
                    if j < i:
                        self.assign(e, self.getitem(v, const(j), st), st)
                    elif j == i:
                        self.assign(e.value, mk("slice", self.freeze(v, st), const(i),
                                                const(i - len(t.elts) + 1) if i < len(t.elts) - 1 else NONE, NONE), st)
                    else:
                        self.assign(e, self.getitem(v, const(j - len(t.elts)), st), st)
                return
            for j, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, const(j), st), st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.setattr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.setitem(b, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.note("assign", t)

    def x_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("enter", self.freeze(v, st)), st)
        self.exec_block(s.body, st)

    def no_path(self, s, st):
        """Whether there is a path, for a search of which no path is the only thing that is caught."""
        if len(s.handlers) != 1 or s.handlers[0].type is None or s.handlers[0].name or s.orelse or s.finalbody:
            return None
        if not ast.unparse(s.handlers[0].type).split(".")[-1] == "NetworkXNoPath":
            return None
        cs = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Call)]
        if len(cs) != 1 or any(isinstance(n, (ast.For, ast.While, ast.If, ast.Lambda, ast.comprehension)) for b in s.body for n in ast.walk(b)):
            return None
        f = self.eval(cs[0].func, st)
        if f.op != "ext" or f.a[0].split(".")[0] not in ("networkx", "nx") or f.a[0].split(".")[-1] != "shortest_path":
            return None
        args = [self.eval(a, st) for a in cs[0].args]
        kw = {k.arg: self.eval(k.value, st) for k in cs[0].keywords if k.arg}
        return self.truth(self.call_ext("networkx.has_path", args, kw, st, cs[0]), st)

    def no_key(self, s, st):
        """Whether the key is there, for one look-up of which a missing key is the only thing that is caught."""
        if len(s.handlers) != 1 or s.handlers[0].type is None or s.handlers[0].name or s.orelse or s.finalbody or len(s.body) != 1:
            return None
        if ast.unparse(s.handlers[0].type) != "KeyError":
            return None
        b = s.body[0]
        if not (isinstance(b, ast.Return) or isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name)):
            return None
        e = b.value
        if not isinstance(e, ast.Subscript) or isinstance(e.slice, ast.Slice):
            return None
        parts = [e.value, e.slice]
        if any(isinstance(n, (ast.Call, ast.Subscript, ast.Lambda, ast.comprehension)) for p in parts for n in ast.walk(p)):
            return None
        if isinstance(e.value, ast.Attribute) and e.value.attr in ("edge_map", "neighbors", "parent_info"):
            return None  # these make up what is missing
        return self.truth(self.compare(ast.In(), self.eval(e.slice, st), self.eval(e.value, st), st), st)

    def x_Try(self, s, st):
        c = self.no_path(s, st)
        if c is None:
            c = self.no_key(s, st)
        if c is not None:
            self.branch(c, st, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.handlers[0].body, x))
            return
        names = []
        for h in s.handlers:
            names.append(ast.unparse(h.type) if h.type is not None else "*")
        pre = st.copy()
        c = mk("atomb", "raises", mk("c", "s", "|".join(names)))
        s1 = st.copy()
        pc = st.pc
        self.exec_block(s.body, s1)
        if s.orelse:
            self.exec_block(s.orelse, s1)
        c = mk("atomb", "raises", const("|".join(names)))
        out = s1
        for h in s.handlers:
            s2 = pre.copy()
            s2.pc = band(pc, c)
            if h.name:
                s2.frames[self.fid][h.name] = mk("exc")
            self.exec_block(h.body, s2)
            st2 = State()
            self.merge_into(st2, c, s2, out)
            out = st2
        st.become(out)
        st.pc = pc
        if s.finalbody:
            self.exec_block(s.finalbody, st)

    def x_For(self, s, st):
        it = self.eval(s.iter, st)

        def body(elem, x):
            self.assign(s.target, elem, x)
            self.exec_block(s.body, x)

        anyb = self.iterate(it, st, body, s)
        if s.orelse:
            if anyb is FALSE:
                self.exec_block(s.orelse, st)
            else:
                live = self.live(st)
                self.branch(bnot(anyb), st, lambda x: self.exec_block(s.orelse, x), lambda x: None)

    def x_While(self, s, st):
        def body(level, x):
            c = self.truth(self.eval(s.test, x), x)
            if c is not TRUE:
                x.brk = bor(x.brk, bnot(c))
            # the body runs where the test held
            if c is FALSE:
                return
            if c is TRUE:
                self.exec_block(s.body, x)
            else:
                s2 = x.copy()
                s2.pc = band(x.pc, c)
                s2.brk = FALSE
                self.exec_block(s.body, s2)
                pc = x.pc
                s1 = x.copy()
                self.merge_into(x, c, s2, s1)
                x.pc = pc

        anyb = self.push_loop(_mk("forever", ()), st, body, s)
        if s.orelse:
            self.note("while-else", s)

    # ============================================================ loops
    def iterate(self, it, st, body, node):
        """Run body(elem, state) for every element; returns whether the loop is left by a break."""
        self.cur_state = st
        if it.op == "ref":
            src = self.freeze(it, st) if False else self.content(st.heap[it.a[0]])
        else:
            src = self.cread(it, st)
        if src.op in ("enum", "items", "keys", "values", "reversed") and src.a[0].op == "ite":
            i = src.a[0]
            src = ite(i.a[0], mk(src.op, i.a[1], *src.a[1:]), mk(src.op, i.a[2], *src.a[1:]))
        if src.op == "ite":
            # the refs inside are resolved branch by branch
            res = []

            def side(t):
                return lambda x: res.append(self.iterate(t, x, body, node))

            c = src.a[0]
            self.branch(c, st, side(src.a[1]), side(src.a[2]))
            if len(res) == 2:
                return ite(c, res[0], res[1])
            return res[0]
        s = self.stream_of(src)
        return self.iter_stream(s, st, body, node)

    def stream_of(self, src):
        """The elements of an iterable term, as a stream."""
        return as_splice(src)

    def iter_stream(self, s, st, body, node):
        if s.op == "seq":
            parts = s.a
            if len(parts) > 12:
                return self.push_loop(mk("cat", s), st, lambda L, x: body(mk("at", mk("cat", s), bv(L)), x), node)
            anyb = FALSE
            for p in parts:
                if anyb is FALSE:
                    live = noret_cond(st.ret)
                    if live is FALSE:
                        return anyb
                    if live is TRUE:
                        anyb = self.iter_stream(p, st, body, node)
                    else:
                        r = []
                        self.under(live, st, lambda x: r.append(self.iter_stream(p, x, body, node)))
                        anyb = band(live, r[0]) if r else FALSE
                else:
                    r = []
                    self.under(bnot(anyb), st, lambda x: r.append(self.iter_stream(p, x, body, node)))
                    anyb = bor(anyb, r[0] if r else FALSE)
            return anyb
        if s.op == "yield":
            g, v = s.a
            out = []

            def one(x):
                body(v, x)
                b = x.brk
                x.brk = FALSE
                x.cont = FALSE
                out.append(b)

            if g is TRUE:
                one(st)
                return out[0]
            self.under(g, st, one)
            return band(g, out[0]) if out else FALSE
        if s.op == "for":
            dom, inner = s.a

            def run(L, x):
                b = self.iter_stream(open_(inner, L), x, body, node)
                x.brk = bor(x.brk, b)

            return self.push_loop(dom, st, run, node)
        if s.op == "guarded":
            out = []
            self.under(s.a[0], st, lambda x: out.append(self.iter_stream(s.a[1], x, body, node)))
            return band(s.a[0], out[0]) if out else FALSE
        d = mk("streamdom", s)
        return self.push_loop(d, st, lambda L, x: body(mk("at", d, bv(L)), x), node)

    def under(self, g, st, f):
        """Run f where g holds."""
        self.branch(g, st, f, lambda x: None)

    def cells(self, st):
        out = {}
        for fid, env in st.frames.items():
            for k, v in env.items():
                if isinstance(v, T):
                    out[("v", fid, k)] = v
        for rid, o in st.heap.items():
            if o.kind == "inst":
                for k, v in o.fields.items():
                    out[("f", rid, k)] = v[0] if isinstance(v, tuple) else v
                out[("l", rid)] = o.log
            else:
                out[("h", rid)] = o.content
        for k, v in st.store.items():
            out[("s", k)] = v
        return out

    def set_cell(self, st, c, v):
        if c[0] == "v":
            st.frames[c[1]][c[2]] = v
        elif c[0] == "h":
            st.heap[c[1]] = st.heap[c[1]]._replace(content=v)
        elif c[0] == "l":
            st.heap[c[1]] = st.heap[c[1]]._replace(log=v)
        elif c[0] == "f":
            o = st.heap[c[1]]
            f = dict(o.fields)
            f[c[2]] = v
            st.heap[c[1]] = o._replace(fields=f)
        elif c[0] == "s":
            st.store[c[1]] = v

    def told(self, o, names, st):
        """The object with what was stored in some fields since its construction in its log instead."""
        log, keep = o.log, {}
        for k, v in o.fields.items():
            if k not in names:
                keep[k] = v
            elif not isinstance(v, tuple) or len(v) == 2 and self.freeze(v[0], st) is not v[1]:
                v = v[0] if isinstance(v, tuple) else v
                log = seq(log, mk("do", TRUE, mk("eff", "setattr", mk("itself"), k, self.freeze(v, st))))
        return o._replace(log=log, fields=keep)

    def push_loop(self, dom, st, run, node):
        """Evaluate a loop over dom; run(level, state) evaluates its body for the generic position bv(level)."""
        L = self.level
        self.level += 1
        if self.level > 9:
            self.level -= 1
            raise Unsupported("loop depth")
        carried, cver = [], []
        saved_eff = self.eff
        base_cells = self.cells(st)
        rid0 = self.nrid + 1
        try:
            for rnd in range(8):
                x = st.copy()
                x.pc = TRUE
                x.ret, x.brk, x.cont = NORET, FALSE, FALSE
                for c in carried:
                    r = bv(L, self.slot(c))
                    self.set_cell(x, c, _mk("rseg", (r,)) if c[0] in ("h", "l") else r)
                for v in cver:
                    x.ver[v] = bv(L, "v:" + v)
                    if v.startswith("f:"):
                        for kk in [kk for kk in x.store if kk[1] == v[2:] and ("s", kk) not in carried]:
                            del x.store[kk]
                self.eff = {}
                rid0 = self.nrid + 1
                run(L, x)
                now = self.cells(x)
                ch = []
                for c, v in now.items():
                    if c in base_cells:
                        start = base_cells[c]
                        if c in carried:
                            continue
                        if v is not start:
                            ch.append(c)
                gone = [c for c in base_cells if c[0] == "f" and c not in now]
                if gone:
                    # fields that calls in the loop set are told by the object's log from here on
                    for c in gone:
                        st.heap[c[1]] = self.told(st.heap[c[1]], {c[2]}, st)
                    base_cells = self.cells(st)
                    carried = [c for c in carried if c in base_cells]
                    continue
                nv = [k for k, v in x.ver.items() if k not in cver and v is not st.ver.get(k)]
                if not ch and not nv:
                    break
                carried += ch
                cver += nv
            else:
                raise Unsupported("loop fixpoint")
        finally:
            body_eff = self.eff
            self.eff = saved_eff
            self.level = L
        # ---------------------------------------------------- conclude
        fz = lambda t: self.freeze(t, x, rid0)
        N = {}
        for c in carried:
            N[c] = fz(now[c])
        newvars = {}
        for c, v in now.items():
            if c[0] == "v" and c not in base_cells and c[1] in st.frames and not c[2].startswith("$"):
                newvars[c] = fz(v)
        effs = {cl: [fz(e) for e in es] for cl, es in body_eff.items()}
        ret = fz(x.ret)
        b_ret = bnot(noret_cond(ret))
        b_brk = x.brk
        B = bor(b_ret, b_brk)
        inits = {c: base_cells[c] for c in carried}
        settled = set()
        if B is not FALSE and dom.op != "forever":
            # what only the last iteration changes is what it was before, until then
            while True:
                m = {}
                for c in carried:
                    if c in settled:
                        continue
                    rr = bv(L, self.slot(c))
                    if c[0] in ("h", "l"):
                        rr = _mk("rseg", (rr,))
                    if N[c] is not rr and self.freeze(inits[c], st) is inits[c] and restrict_any(N[c], bnot(B)) is rr:
                        m[rr] = inits[c]
                        settled.add(c)
                if not m:
                    break
                sb = lambda t: subst(t, m)
                N = {c: sb(v) for c, v in N.items()}
                newvars = {c: sb(v) for c, v in newvars.items()}
                effs = {cl: [e for e in (sb(e) for e in es) if e is not SEQ0] for cl, es in effs.items()}
                ret, b_brk = sb(ret), sb(b_brk)
                b_ret = bnot(noret_cond(ret))
                B = bor(b_ret, b_brk)
        lp = Loop(self, L, dom, inits, N, B, st)
        lp.settled = settled
        # a counter that runs over a range makes a while loop a for loop
        if dom.op == "forever":
            lp = lp.as_for(effs, ret) or lp
            if lp.renamed is not None:
                effs, ret, N, newvars = lp.apply(effs), lp.retsub(ret), lp.N, {k: lp.sub(v) for k, v in newvars.items()}
                b_brk = lp.sub(b_brk) if False else lp.brk_rest
                b_ret = bnot(noret_cond(ret))
                B = bor(b_ret, b_brk)
                lp.B = B
        anyB = lp.anystop()
        # effects
        for cl, parts in effs.items():
            if all(inner_only(p) for p in parts):
                parts = [unversion_places(p, bv(L, "v:" + cl)) for p in parts]
            es = lp.mkfor(seq(*parts), with_stop=True)
            g = guard_do(es, st.pc)
            if g is SEQ0:
                continue
            self.eff.setdefault(cl, []).append(g)
            self.bump(st, cl, self.freeze(g, st))
        # cells
        for c in carried:
            v = lp.final(c, N[c], anyB)
            self.set_cell(st, c, v)
        for c, v in newvars.items():
            if c[1] in st.frames:
                if c[1] == self.fid or True:
                    st.frames[c[1]][c[2]] = lp.final_new(v)
        # objects allocated inside and still referenced
        for rid, o in x.heap.items():
            if rid not in st.heap:
                st.heap[rid] = o
        # returns
        if b_ret is not FALSE:
            if lp.dom.op == "forever":
                rv = lp.exitval(ret)
                st.ret = map_leaves(st.ret, lambda z: rv if z is NORET else z)
                brk_any = bnot(lp.exitcond(b_ret)) if b_brk is not FALSE else FALSE
                if b_brk is not FALSE:
                    st.ret = ite(lp.exitcond(b_ret), rv, NORET)
                return FALSE
            # each leaf of the returned value at the first iteration that stops
            rv = lp.first(B, ret)
            st.ret = ite(anyB, rv, NORET)
            if b_brk is not FALSE:
                bb = lp.first(B, b_brk)
                return band(anyB, bb)
            return FALSE
        if lp.dom.op == "forever":
            return TRUE
        return anyB

    def slot(self, c):
        if c[0] == "s":
            return "s:" + key(c[1][0]) + c[1][1]
        return ":".join(str(z) for z in c)

    # ============================================================ expressions
    def eval(self, e, st):
        self.ticks += 1
        if self.ticks > self.budget:
            raise Unsupported("budget")
        self.cur_state = st
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.note("expr " + type(e).__name__, e)
        r = m(e, st)
        self.cur_state = st
        return r

    def e_Slice(self, e, st):
        f = lambda x: self.freeze(self.eval(x, st), st) if x is not None else NONE
        lo, hi, step = f(e.lower), f(e.upper), f(e.step)
        return mk("range_of", NONE if lo is ZERO else lo, hi, NONE if step is ONE else step)

    def e_Constant(self, e, st):
        return const(e.value)

    def lookup(self, name, st):
        fid = self.fid
        first = True
        while fid is not None:
            env = st.frames.get(fid)
            if env is None:
                break
            if name in env and not (name in env.get("$globals", ())):
                v = env[name]
                return v
            fid = env["$parent"]
        f = st.frames[self.fid]["$func"]
        return self.global_lookup(name, f.module, st)

    def global_lookup(self, name, module, st):
        r = self.P.resolve(module, name)
        if r is None:
            return mk("bi", name)
        return self.global_value(r, st)

    def global_value(self, r, st):
        if r is None:
            return self.note("global")
        if r[0] == "cls":
            return mk("cls", self.cname(r[1]))
        if r[0] == "func":
            return mk("fn", r[1].qual)
        if r[0] == "ext":
            return mk("ext", r[1])
        if r[0] == "pkgmod":
            return mk("pkgmod", r[1].name)
        if r[0] == "pkgroot":
            return mk("pkgroot", r[1])
        if r[0] == "const":
            m, name = r[1], r[2]
            ex = m.consts[name]
            try:
                v = self.eval_const_expr(ex, m)
                if v.op in ("cat", "dict", "set"):
                    g = mk("g", name)
                    if ("g", name) in self.mutated_globals():
                        return g
                return v
            except Unsupported:
                return mk("g", name)
        return self.note("global")

    _mg = None

    def mutated_globals(self):
        """Module-level containers which some function mutates or rebinds."""
        if self._mg is None:
            out = set()
            for f in self.P.funcs.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Global):
                        out.update(("g", x) for x in n.names)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                        if isinstance(n.func.value, ast.Name):
                            out.add(("g", n.func.value.id))
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in ts:
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                                out.add(("g", t.value.id))
            self._mg = out
        return self._mg

    def eval_const_expr(self, ex, module):
        """A module-level or default-value expression."""
        if isinstance(ex, ast.Constant):
            return const(ex.value)
        st = State()
        from .program import Func

        save = (self.fid, self.cur_state, self.eff, list(self.stack)) if self.stack else None
        dummy = Func("<const>", ex, None, module, "func", [])
        if isinstance(ex, ast.Call):
            ok = isinstance(ex.func, ast.Name) and ex.func.id in (
                "dict", "list", "set", "frozenset", "tuple", "namedtuple", "float", "int", "str")
            if isinstance(ex.func, ast.Name) and ex.func.id == "namedtuple":
                return mk("namedtuple", ast.unparse(ex))
            if not ok:
                raise Unsupported("const")
        fid0 = getattr(self, "fid", None)
        cs0 = self.cur_state
        eff0 = self.eff
        self.eff = {}
        try:
            self.new_frame(st, None, dummy)
            self.stack.append(dummy)
            v = self.eval(ex, st)
            v = self.freeze(v, st)
        finally:
            self.stack.pop()
            self.fid = fid0
            self.cur_state = cs0
            self.eff = eff0
        return v

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.freeze(self.listlit(e.elts, st), st)
        return mk("tuple", *[self.eval(x, st) for x in e.elts])

    def listlit(self, elts, st):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                parts.append(self.elements(v, st))
            else:
                parts.append(mk("yield", TRUE, self.eval(x, st)))
        return self.alloc(st, Obj("list", None, seq(*parts), None, None, None))

    def elements(self, v, st):
        """Stream of the elements of the iterable value v."""
        if v.op == "ref":
            o = st.heap[v.a[0]]
            if o.kind == "list" or o.kind == "set" and self.distinct(o.content):
                return o.content
            v = self.content(o)
        v = self.cread(v, st)
        if v.op in ("enum", "items", "keys", "values", "reversed") and v.a[0].op == "ite":
            i = v.a[0]
            v = ite(i.a[0], mk(v.op, i.a[1], *v.a[1:]), mk(v.op, i.a[2], *v.a[1:]))
        if v.op == "ite":
            return seq(guard_stream(self.elements(v.a[1], st), v.a[0]),
                       guard_stream(self.elements(v.a[2], st), bnot(v.a[0])))
        return self.stream_of(v)

    def distinct(self, s):
        """Whether the stream s yields nothing twice."""
        if s is SEQ0 or s.op == "yield":
            return True
        if s.op == "for" and s.a[1].op == "yield":
            d = s.a[0]
            v = s.a[1].a[1]
            if v.op == "at" and v.a[1] is _mk("b", (0, 0)) and v.a[0] is d:
                ty = self.typ(d)
                return d.op in ("set", "dict", "setop", "keys", "toset", "range") or isinstance(ty, tuple) and ty[0] in ("set", "dict")
        return False

    def e_List(self, e, st):
        return self.listlit(e.elts, st)

    def e_Set(self, e, st):
        parts = [self.elements(self.eval(x.value, st), st) if isinstance(x, ast.Starred) else mk("yield", TRUE, self.eval(x, st)) for x in e.elts]
        return self.alloc(st, Obj("set", None, seq(*parts), None, None, None))

    def e_Dict(self, e, st):
        parts = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, st)
                parts.append(self.dict_stream(d, st))
            else:
                kk = self.eval(k, st)
                parts.append(mk("yield", TRUE, mk("tuple", kk, self.eval(v, st))))
        return self.alloc(st, Obj("dict", None, seq(*parts), None, None, None))

    def dict_stream(self, d, st):
        if d.op == "ref" and st.heap[d.a[0]].kind == "dict":
            return st.heap[d.a[0]].content
        d = self.cread(self.freeze(d, st), st)
        if d.op == "dict":
            return d.a[0]
        if d.op == "ite":
            return seq(guard_stream(self.dict_stream(d.a[1], st), d.a[0]),
                       guard_stream(self.dict_stream(d.a[2], st), bnot(d.a[0])))
        if d.op in ("cat", "sorted", "enum", "zip", "items", "tuple") or self.is_list(d, st):
            # pairs
            return as_splice(d)
        return as_splice(mk("items", d))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st)
                x = self.freeze(x, st)
                x = self.to_str(x, st)
                if v.conversion == 114:
                    x = mk("repr", x)
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, st)
                    x = mk("fmtspec", x, sp)
                parts.append(x)
        return mk("fmt", *parts) if parts else const("")

    def to_str(self, x, st):
        """str(x): expands the package's own __str__."""
        if x.op == "ref" or self.klass(x) is not None:
            c = self.klass(x)
            if c is not None:
                m = self.P.find_method(c, "__str__")
                if m is not None:
                    return self.call_method(x, "__str__", [], {}, st, None)
        return x

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def e_IfExp(self, e, st):
        c = self.truth(self.eval(e.test, st), st)
        out = {}

        def a(x):
            out[0] = self.eval(e.body, x)

        def b(x):
            out[1] = self.eval(e.orelse, x)

        self.branch(c, st, a, b)
        if 0 not in out:
            return out[1]
        if 1 not in out:
            return out[0]
        return ite(c, out[0], out[1])

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(vals, x):
            v = self.eval(vals[0], x)
            if len(vals) == 1:
                return v
            c = self.truth(v, x)
            out = {}

            def t(y):
                out[0] = go(vals[1:], y)

            if isand:
                self.branch(c, x, t, lambda y: None)
                if c is FALSE or 0 not in out:
                    return v
                if c is TRUE:
                    return out[0]
                r = out[0]
                if is_bool(v) or True:
                    if is_bool(v) and not is_bool(r):
                        return ite(c, r, FALSE)
                    if is_bool(v):
                        return band(v, r)
                    return ite(c, r, v)
            else:
                self.branch(c, x, lambda y: None, t)
                if c is TRUE or 0 not in out:
                    return v
                if c is FALSE:
                    return out[0]
                r = out[0]
                if is_bool(v):
                    return ite(c, TRUE, r)
                return ite(c, v, r)

        return go(e.values, st)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            return mk("neg", self.freeze(v, st))
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", self.freeze(v, st))

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        n = type(op).__name__
        if n == "Add":
            if self.is_list(a, st) or self.is_list(b, st):
                return self.alloc(st, Obj("list", None, seq(self.elements(a, st), self.elements(b, st)), None, None, None))
            a, b = self.freeze(a, st), self.freeze(b, st)
            if is_strish(a) or is_strish(b) or self.typ(a) == "str" or self.typ(b) == "str":
                return mk("fmt", a, b)
            return mk("add", a, b)
        a, b = self.freeze(a, st), self.freeze(b, st)
        if n == "Mult":
            return mk("mul", a, b)
        if n == "Sub":
            if self.is_setlike(a, st) or self.is_setlike(b, st):
                return self.newset(mk("setop", "diff", a, b), st)
            return mk("sub", a, b)
        if n == "Div":
            return mk("div", a, b)
        if n == "Mod" and is_str(a) and b.op == "ite" and not is_bool(b):
            return ite(b.a[0], self.binop(op, a, b.a[1], st, node), self.binop(op, a, b.a[2], st, node))
        if n == "Mod" and is_str(a):
            args = list(b.a) if b.op == "tuple" else [b]
            parts = a.a[1].split("%s")
            if len(parts) == len(args) + 1 and "%" not in "".join(parts):
                out = []
                for i, p in enumerate(parts):
                    if p:
                        out.append(const(p))
                    if i < len(args):
                        out.append(args[i])
                return mk("fmt", *out)
        if n == "LShift" and b.op == "c" and b.a[0] == "n" and isinstance(b.a[1], int) and 0 <= b.a[1] < 64:
            return self.binop(ast.Mult(), a, const(1 << b.a[1]), st, node)
        if n == "BitOr" and (a is ZERO or b is ZERO):
            return b if a is ZERO else a
        if n == "BitOr":
            return self.newset(mk("setop", "union", a, b), st)
        if n == "BitAnd":
            return self.newset(mk("setop", "inter", a, b), st)
        names = {"FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "LShift": "shl", "RShift": "shr",
                 "BitXor": "xor", "MatMult": "matmul"}
        if n == "MatMult":
            return mk("mcall", a, "dot", mk("tuple", b), mk("tuple"))
        return mk(names.get(n, n), a, b)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            out = band(out, truth(self.compare(op, left, right, st)))
            left = right
        return out

    def compare(self, op, a, b, st):
        n = type(op).__name__
        if n in ("In", "NotIn"):
            x = self.freeze(a, st)
            s = self.freeze(b, st)
            s = self.cread(s, st)
            if s.op == "ite":
                r = map_leaves(s, lambda z: mk("in", x, z))
            else:
                r = mk("in", x, s)
            return r if n == "In" else bnot(r)
        if a.op == "ref" and b.op == "ref" and n in ("Is", "IsNot"):
            r = TRUE if a is b else FALSE
            return r if n == "Is" else bnot(r)
        if a.op == "ref" and b is NONE or b.op == "ref" and a is NONE:
            return FALSE if n in ("Is", "Eq") else TRUE
        a, b = self.freeze(a, st), self.freeze(b, st)
        a, b = self.cread(a, st), self.cread(b, st)
        if (a is NONE or b is NONE) and n in ("Eq", "Is", "NotEq", "IsNot"):
            o = b if a is NONE else a
            if o.op == "ite":
                r = map_leaves(o, self.isnone)
                return r if n in ("Eq", "Is") else bnot(r)
            r = self.isnone(o)
            return r if n in ("Eq", "Is") else bnot(r)
        if n in ("Is", "IsNot") and not any(self.single(x) for x in (a, b)):
            # two equal values need not be one object
            r = TRUE if a is b else mk("atomb", "Is", *sorted((a, b), key=lambda t: repr(t)))
            return r if n == "Is" else bnot(r)
        if n in ("Eq", "Is"):
            return self.eq(a, b)
        if n in ("NotEq", "IsNot"):
            return bnot(self.eq(a, b))
        if n in ("GtE", "LtE") and (self.is_setlike(a, st) or self.is_setlike(b, st)):
            # a set compares with nothing but a set
            if n == "GtE":
                return mk("subset", b, a)
            if n == "LtE":
                return mk("subset", a, b)
        if n == "Lt":
            return mk("lt", a, b)
        if n == "Gt":
            return mk("lt", b, a)
        if n == "LtE":
            return le(a, b)
        if n == "GtE":
            return le(b, a)
        return mk("atomb", n, a, b)

    def single(self, x):
        """Whether nothing but x itself equals x: truth values, members of enumerations, classes, objects that compare by
        identity."""
        if is_bool(x) or x is TRUE or x is FALSE or x.op in ("member", "cls", "enum"):
            return True
        k = self.klass(x)
        return k is not None and self.P.find_method(k, "__eq__") is None

    def isnone(self, o):
        """Whether a value is None; the objects collected in a list or under a key are there."""
        if o.op == "at" and o.a[0].op in ("attr", "call", "values") or o.op == "item" and o.a[0].op == "dict":
            if isinstance(self.typ(o), str) and self.typ(o)[:1].isupper():
                return FALSE
        return mk("eq", o, NONE)

    def eq(self, a, b):
        # [] == x  /  {} == x
        for p, q in ((a, b), (b, a)):
            if p.op in ("cat", "dict", "set") and (p.a == () or p.a == (SEQ0,)) and q.op not in ("cat", "dict", "set"):
                return bnot(mk("nonempty", q))
        return mk("eq", a, b)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        if isinstance(e.slice, ast.Slice):
            f = lambda x: self.freeze(self.eval(x, st), st) if x is not None else NONE
            lo, hi, step = f(e.slice.lower), f(e.slice.upper), f(e.slice.step)
            src = self.cread(self.freeze(b, st), st)
            if lo is ZERO:
                lo = NONE
            if step is ONE:
                step = NONE
            if lo is NONE and hi is NONE and step is NONE:
                if self.typ(src) == "str":
                    return src
                return self.alloc(st, Obj("list", None, self.elements(src, st), None, None, None))
            if lo is NONE and hi is NONE and step.op == "c" and step.a == ("n", -1):
                return mk("reversed", src)
            return mk("slice", src, lo, hi, step)
        k = self.eval(e.slice, st)
        return self.getitem(b, k, st)

    def getitem(self, b, k, st):
        if b.op == "ite":
            return map_leaves(b, lambda z: self.getitem(z, k, st))
        if b.op == "tuple" and is_num(k):
            return mk("item", b, k)
        if k.op == "ref":
            k = self.freeze(k, st)
        if b.op == "ref":
            o = st.heap[b.a[0]]
            if o.kind == "inst":
                m = self.P.find_method(o.cls, "__getitem__")
                if m:
                    return self.call_func(m, [b, k], {}, st, None)
            b2 = self.content(o)
            r = mk("item", b2, k)
            if r.op == "item" and r.a[0] is b2:
                b2 = self.freeze(b, st)
                r = self.index(b2, k)
            return r
        b2 = self.cread(self.freeze(b, st), st)
        # a store to the same place in this function
        return self.index(b2, k)

    def index(self, b, k):
        # position in a map over a loop
        if b.op == "cat" and len(b.a) == 1 and b.a[0].op == "for" and b.a[0].a[1].op == "yield":
            g, v = b.a[0].a[1].a
            if g is TRUE and (k.op in ("bv",) or is_num(k) and k.a[1] >= 0 or k.op == "add"):
                return inst_at(b.a[0], k)
            if is_num(k) and k.a[1] == 0:
                return mk("first", b.a[0])
            if is_num(k) and k.a[1] == -1:
                return mk("last", b.a[0], UNDEF)
        if b.op == "slice" and b.a[2] is NONE and b.a[3] is NONE and counts(b.a[1]) and (k.op in ("bv", "add") or is_num(k) and k.a[1] >= 0):
            return self.index(b.a[0], mk("add", b.a[1], k))
        if b.op == "sorted" and is_num(k) and k.a[1] == 0:
            return mk("best", b.a[0], b.a[1])
        if b.op == "sorted" and is_num(k) and k.a[1] in (1, -1) and b.a[1] is NONE and b.a[0].op == "cat" and len(b.a[0].a) == 2 \
                and all(p.op == "yield" and p.a[0] is TRUE for p in b.a[0].a):
            return mk("max2", b.a[0].a[0].a[1], b.a[0].a[1].a[1])
        if k.op == "bv" and k.a[1] == 0 and not (b.op == "tuple"):
            ty = self.typ(b)
            return mk("item" if isinstance(ty, tuple) and ty[0] == "dict" else "at", b, k)
        return mk("item", b, k)

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, name, st, node=None):
        if b.op == "ite":
            return map_leaves(b, lambda z: self.getattr(z, name, st, node))
        if b.op == "ext":
            return mk("ext", b.a[0] + "." + name)
        if b.op == "bi":
            return mk("bim", b.a[0], name)
        if b.op == "pkgmod":
            m = self.P.modules.get(b.a[0])
            r = self.P.resolve(m, name) if m else None
            if r:
                return self.global_value(r, st)
            dm = self.P.by_dotted.get(self.P.dotted[m.name] + "." + name)
            if dm:
                return mk("pkgmod", dm.name)
            return self.note("module attr " + name, node)
        if b.op == "pkgroot":
            for dn, dm in self.P.by_dotted.items():
                if dn == b.a[0] + "." + name:
                    return mk("pkgmod", dm.name)
            return mk("pkgroot", b.a[0] + "." + name)
        if b.op == "cls":
            c = self.class_of(b)
            if c is None:
                return mk("attr", b, name)
            m = self.P.find_method(c, name)
            if m is not None:
                if m.kind == "class":
                    return mk("bound", b, m.qual)
                return mk("fn", m.qual)
            kc = self.P.find_const(c, name)
            if kc is not None:
                if self.P.is_enum(c):
                    return mk("member", self.cname(c), self.enum_canon(c, name))
                try:
                    v = self.eval_const_expr(kc[1], kc[0].module)
                    if v.op in ("cat", "dict", "set"):
                        return mk("g", self.cname(kc[0]) + "." + name)
                    return v
                except Unsupported:
                    return mk("g", self.cname(kc[0]) + "." + name)
            return mk("attr", b, name)
        if b.op == "ref":
            o = st.heap[b.a[0]]
            if o.kind == "inst":
                if name in o.fields:
                    v = o.fields[name]
                    v = v[0] if isinstance(v, tuple) else v
                    if o.log is not SEQ0 and not isinstance(v, T):
                        pass
                    return v
                r = self.class_attr(o.cls, b, name, st, node)
                if r is not None:
                    return r
            return mk("attr", self.freeze(b, st), name)
        if b.op == "new":
            for f in b.a[2].a:
                if f.a[0] == name:
                    return f.a[1]
            if b.a[3] is SEQ0:
                v = self.ctor_field(b, name, st)
                if v is not None:
                    return v
        c = self.klass(b)
        if c is not None:
            r = self.class_attr(c, b, name, st, node)
            if r is not None:
                return r
        elif not (isinstance(self.typ(b), (tuple,)) or self.typ(b) in ("str", "num", "nx", "df", "np")):
            ms = [m for m in self.P.meth_by_name.get(name, []) if m.kind == "prop"]
            if len(ms) == 1:
                return self.call_func(ms[0], [b], {}, st, node)
        if (b, name) in st.store:
            return st.store[(b, name)]
        self.read.add("f:" + name)
        v = st.ver.get("f:" + name)
        if v is not None:
            return mk("attr", mk("v", b, v), name)
        return mk("attr", b, name)

    def enum_canon(self, c, name):
        """Enum members with equal values are one member."""
        ex = c.consts.get(name)
        for n, e in c.consts.items():
            if n == name:
                break
            if ast.dump(e) == ast.dump(ex) and not isinstance(ex, ast.Call):
                return n
        return name

    def class_of(self, t):
        n = t.a[0]
        if "." in n:
            m, k = n.split(".")
            return self.P.get_class(k, m)
        return self.P.get_class(n)

    def class_attr(self, c, b, name, st, node):
        m = self.P.find_method(c, name)
        if m is not None:
            if m.kind == "prop":
                return self.call_func(m, [b], {}, st, node)
            if m.kind == "static":
                return mk("fn", m.qual)
            return mk("bound", b, m.qual)
        kc = self.P.find_const(c, name)
        if kc is not None and not self.P.is_enum(c):
            if self.field_assigned(c, name):
                return None
            try:
                v = self.eval_const_expr(kc[1], kc[0].module)
                if v.op in ("cat", "dict", "set"):
                    return mk("g", self.cname(kc[0]) + "." + name)
                return v
            except Unsupported:
                return mk("g", self.cname(kc[0]) + "." + name)
        return None

    def field_assigned(self, c, name):
        for k in self.P.mro(c):
            for m in k.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def ctor_field(self, b, name, st):
        c = self.P.get_class(b.a[0].split(".")[-1], b.a[0].split(".")[0] if "." in b.a[0] else None)
        if c is None or len(self.stack) > MAX_INLINE:
            return None
        s2 = State()
        eff0, fid0, cs0 = self.eff, self.fid, self.cur_state
        self.eff = {}
        try:
            s2.frames = {k: dict(v) for k, v in st.frames.items()}
            s2.heap = dict(st.heap)
            r = self.construct(c, list(b.a[1].a), {}, s2, None, raw=True)
            o = s2.heap[r.a[0]]
            v = o.fields.get(name)
            if v is None:
                return None
            v = v[0] if isinstance(v, tuple) else v
            return self.freeze(v, s2)
        except Unsupported:
            return None
        finally:
            self.eff, self.fid, self.cur_state = eff0, fid0, cs0

    def setattr(self, b, name, v, st):
        if b.op == "ite":
            self.branch(b.a[0], st, lambda x: self.setattr(b.a[1], name, v, x), lambda x: self.setattr(b.a[2], name, v, x))
            return
        if b.op == "ref":
            o = st.heap[b.a[0]]
            if o.kind == "inst":
                was = o.fields.get(name)
                if isinstance(was, tuple) and len(was) == 1 and was[0].op == "c" and was[0] is v:
                    return  # the value that the constructor gave it
                f = dict(o.fields)
                f[name] = v
                st.heap[b.a[0]] = o._replace(fields=f)
                return
        b = self.freeze(b, st)
        e = mk("eff", "setattr", b, name, v)
        for k in [k for k in st.store if k[1] == name]:
            del st.store[k]
        self.emit(st, e, ["f:" + name])
        st.store[(b, name)] = v

    def setitem(self, b, k, v, st, node):
        if b.op == "ite":
            self.branch(b.a[0], st, lambda x: self.setitem(b.a[1], k, v, x, node),
                        lambda x: self.setitem(b.a[2], k, v, x, node))
            return
        if b.op == "ref":
            o = st.heap[b.a[0]]
            if o.kind == "dict":
                k = self.freeze(k, st)
                st.heap[b.a[0]] = o._replace(content=self.dict_put(o.content, k, v))
                return
            if o.kind == "list":
                st.heap[b.a[0]] = o._replace(content=seq(_mk("put", (mk("cat", o.content), self.freeze(k, st), self.freeze(v, st)))))
                return
            if o.kind == "inst":
                m = self.P.find_method(o.cls, "__setitem__")
                if m:
                    self.call_func(m, [b, k, v], {}, st, node)
                    return
        b = self.loc(self.freeze(b, st), st)
        k = self.freeze(k, st)
        if b.op == "attr" and b.a[1] == "__dict__":
            # the attributes of an object
            self.b_setattr([b.a[0], k, v], {}, st, node)
            return
        self.emit(st, mk("eff", "setitem", b, k, v), [self.rootcls(b)])

    def dict_put(self, content, k, v):
        """Append a store; a store to the same key right before is overwritten in place."""
        parts = list(content.a) if content.op == "seq" else [content]
        for i, p in enumerate(parts):
            if p.op == "yield" and p.a[0] is TRUE and p.a[1].op == "tuple":
                kk = p.a[1].a[0]
                if kk is k:
                    rest = parts[i + 1:]
                    if all(r.op == "yield" and r.a[1].op == "tuple" and mk("eq", r.a[1].a[0], k) is FALSE for r in rest):
                        parts[i] = mk("yield", TRUE, mk("tuple", k, v))
                        return seq(*parts)
        return seq(content, mk("yield", TRUE, mk("tuple", k, v)))

    # ------------------------------------------------------------ comprehensions
    def comp(self, e, st, kind):
        out = self.alloc(st, Obj(kind, None, SEQ0, None, None, None))
        rid = out.a[0]
        fid0 = self.fid
        fid = self.new_frame(st, fid0, st.frames[fid0]["$func"])

        def gen(i, x):
            self.fid = fid
            if i == len(e.generators):
                if kind == "dict":
                    k = self.eval(e.key, x)
                    v = mk("tuple", self.freeze(k, x), self.eval(e.value, x))
                else:
                    v = self.eval(e.elt, x)
                o = x.heap[rid]
                x.heap[rid] = o._replace(content=seq(o.content, mk("yield", TRUE, v)))
                return
            g = e.generators[i]
            if i == 0:
                self.fid = fid0
            it = self.eval(g.iter, x)
            self.fid = fid

            def body(elem, y):
                self.fid = fid
                self.assign(g.target, elem, y)
                conds(0, y)

            def conds(j, y):
                if j == len(g.ifs):
                    gen(i + 1, y)
                    return
                c = self.truth(self.eval(g.ifs[j], y), y)
                self.branch(c, y, lambda z: conds(j + 1, z), lambda z: None)

            self.iterate(it, x, body, e)

        gen(0, st)
        self.fid = fid0
        st.frames.pop(fid, None)
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value else NONE
        fid = self.fid
        while fid is not None and "$yield" not in st.frames.get(fid, {}):
            fid = st.frames[fid]["$parent"]
        if fid is None:
            return self.note("yield", e)
        r = st.frames[fid]["$yield"]
        o = st.heap[r.a[0]]
        st.heap[r.a[0]] = o._replace(content=seq(o.content, mk("yield", TRUE, v)))
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        fid = self.fid
        while fid is not None and "$yield" not in st.frames.get(fid, {}):
            fid = st.frames[fid]["$parent"]
        if fid is None:
            return self.note("yield", e)
        r = st.frames[fid]["$yield"]
        o = st.heap[r.a[0]]
        st.heap[r.a[0]] = o._replace(content=seq(o.content, self.elements(v, st)))
        return NONE

    def e_Starred(self, e, st):
        return self.note("starred", e)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        args = []
        kw = {}
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            return mk("super")
        if isinstance(f, ast.Attribute):
            recv = self.eval(f.value, st)
            fn = None
        else:
            recv = None
            fn = self.eval(f, st)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                els = self.elements(v, st)
                ps = els.a if els.op == "seq" else (els,)
                if all(p.op == "yield" and p.a[0] is TRUE for p in ps):
                    args.extend(p.a[1] for p in ps)
                else:
                    z = self.freeze(v, st)
                    n = self.width(z)
                    if n is not None:
                        # one of several tuples of one length
                        args.extend(each(z, i) if width(z) is not None else self.getitem(v, const(i), st) for i in range(n))
                    else:
                        args.append(mk("star", z))
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                d = self.freeze(v, st)
                if d.op == "dict" and all(p.op == "yield" and is_str(p.a[1].a[0]) for p in (d.a[0].a if d.a[0].op == "seq" else (d.a[0],))):
                    for p in (d.a[0].a if d.a[0].op == "seq" else (d.a[0],)):
                        kw[p.a[1].a[0].a[1]] = p.a[1].a[1]
                else:
                    kw["**"] = d
            else:
                kw[k.arg] = v
        self.cur_state = st
        if recv is not None:
            return self.call_method(recv, f.attr, args, kw, st, e)
        return self.call_value(fn, args, kw, st, e)

    def width(self, z):
        """How many members the tuple has that this is."""
        if z.op == "call" and z.a[0] in self.P.funcs:
            rs = [r.value for r in ast.walk(self.P.funcs[z.a[0]].node) if isinstance(r, ast.Return)]
            if rs and all(isinstance(r, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.elts) for r in rs) and len({len(r.elts) for r in rs}) == 1:
                return len(rs[0].elts)
            return None
        return width(z)

    def call_method(self, recv, name, args, kw, st, node):
        self.cur_state = st
        if recv.op == "super":
            f = st.frames[self.fid]["$func"]
            for b in self.P.mro(f.cls)[1:]:
                if name in b.methods:
                    me = self.lookup(f.node.args.args[0].arg, st)
                    return self.call_func(b.methods[name], [me] + args, kw, st, node)
            return NONE
        if recv.op == "ite":
            out = {}
            c = recv.a[0]
            self.branch(c, st, lambda x: out.__setitem__(0, self.call_method(recv.a[1], name, args, kw, x, node)),
                        lambda x: out.__setitem__(1, self.call_method(recv.a[2], name, args, kw, x, node)))
            if 0 in out and 1 in out:
                return ite(c, out[0], out[1])
            return out.get(0, out.get(1))
        if recv.op in ("ext", "pkgmod", "pkgroot", "cls", "bi"):
            if recv.op == "bi":
                return self.call_bim(recv.a[0], name, args, kw, st, node)
            return self.call_value(self.getattr(recv, name, st, node), args, kw, st, node)
        if recv.op == "ref" and st.heap[recv.a[0]].kind != "inst":
            return self.container_op(recv, name, args, kw, st, node)
        c = self.klass(recv)
        if c is not None:
            m = self.P.find_method(c, name)
            if m is not None:
                if m.kind == "static":
                    return self.call_func(m, args, kw, st, node)
                if m.kind == "class":
                    return self.call_func(m, [mk("cls", self.cname(c))] + args, kw, st, node)
                # overridden below the static type: the call is virtual
                if m.kind != "prop":
                    exact = recv.op == "ref"
                    if not exact and self.overridden(c, name, recv):
                        return self.virtual_call(c, m, recv, name, args, kw, st, node)
                    return self.call_func(m, [recv] + args, kw, st, node)
            below = [k.methods[name] for k in self.P.subclasses(c) if name in k.methods]
            if len(below) == 1 and below[0].kind == "inst":
                return self.call_func(below[0], [recv] + args, kw, st, node)
            if below:
                return self.virtual_call(None, below[0], recv, name, args, kw, st, node)
            v = self.getattr(recv, name, st, node)
            if v.op in ("clo", "fn", "bound", "cls"):
                return self.call_value(v, args, kw, st, node)
            if self.P.ext_bases(c) and name not in CONTAINER_METHODS and False:
                pass
            r = self.freeze(recv, st)
            return mk("mcall", self.cread(r, st), name, mk("tuple", *[self.frz(a, st) for a in args]), self.kwt(kw, st))
        ty = self.typ(recv)
        if recv.op == "enter" or ty == "file":
            return self.file_op(recv, name, args, kw, st, node)
        if ty == "str" or is_strish(recv) or (name in STR_METHODS and not self.P.meth_by_name.get(name) and name != "update"):
            return self.str_op(recv, name, args, kw, st, node)
        if ty == "nx":
            return self.nx_op(recv, name, args, kw, st, node)
        if ty in ("np", "df", "num"):
            r = self.freeze(recv, st)
            return mk("mcall", r, name, mk("tuple", *[self.frz(a, st) for a in args]), self.kwt(kw, st))
        if isinstance(ty, tuple) or name in CONTAINER_METHODS and not (
            self.P.meth_by_name.get(name) and ty is None and recv.op in ("p",) and name in ("add", "update")
        ):
            if name in CONTAINER_METHODS or isinstance(ty, tuple):
                return self.container_op(recv, name, args, kw, st, node)
        ms = self.P.meth_by_name.get(name, [])
        if ms:
            roots = {self.root_def(m) for m in ms}
            if len(ms) == 1:
                return self.call_func(ms[0], ([recv] if ms[0].kind != "static" else []) + args, kw, st, node)
            if name in NX_MUT or ty == "nx":
                return self.nx_op(recv, name, args, kw, st, node)
            return self.virtual_call(None, ms[0], recv, name, args, kw, st, node)
        v = self.getattr(recv, name, st, node)
        if v.op in ("clo", "fn", "bound"):
            return self.call_value(v, args, kw, st, node)
        if name in NX_MUT:
            return self.nx_op(recv, name, args, kw, st, node)
        return mk("mcall", self.cread(self.freeze(recv, st), st), name, mk("tuple", *[self.frz(a, st) for a in args]),
                  self.kwt(kw, st))

    def root_def(self, m):
        if m.cls is None:
            return m
        r = m
        for k in self.P.mro(m.cls):
            if m.name in k.methods:
                r = k.methods[m.name]
        return r

    def overridden(self, c, name, recv):
        if self.types.exact(recv, self):
            return False
        return any(name in k.methods for k in self.P.subclasses(c))

    def virtual_call(self, c, m, recv, name, args, kw, st, node):
        ms = [k for k in self.P.meth_by_name.get(name, []) if c is None or c in self.P.mro(k.cls) or k.cls in self.P.mro(c)]
        quals = [k.qual for k in ms]
        a = self.bind_flat(m, [recv] + args, kw, st)
        return self.opaque_call("virtual." + name, a, quals, st, node, recv, self.bind_raw(m, [recv] + args, kw, st))

    def frz(self, a, st):
        """An argument of a call which is not expanded."""
        a = self.freeze(a, st)
        if a.op == "clo":
            return self.lam(a, st)
        if a.op in ("items", "values"):
            return a
        return self.cread(a, st)

    def lam(self, clo, st, nargs=None):
        """A function value as a term: its body over bound arguments."""
        if clo.op == "clo":
            node, fid, func = self.clos[clo.a[0]]
            n = len(node.args.args)
            if clo in self.lam_active:
                return mk("fnval", n)
            self.lam_active.add(clo)
            L = self.level
            self.level += 1
            s = st.copy()
            s.pc = TRUE
            eff0 = self.eff
            self.eff = {}
            try:
                r = self.call_closure(clo, [bv(L, i) for i in range(n)], {}, s, None)
                r = self.freeze(r, s)
                effs = [mk("efs", c, self.freeze(seq(*es), s)) for c, es in sorted(self.eff.items())]
            finally:
                self.eff = eff0
                self.level = L
                self.lam_active.discard(clo)
            if effs:
                r = mk("tuple", r, *effs)
            return mk("lam", close(r, L))
        if clo.op == "fn":
            f = self.P.funcs.get(clo.a[0])
            if f is not None:
                return self.lam_fn(lambda xs, s: self.call_func(f, xs, {}, s, None), len(f.node.args.args), st)
        if clo.op == "ext" and clo.a[0].startswith("operator."):
            return self.lam_fn(lambda xs, s: self.call_value(clo, xs, {}, s, None), 2, st)
        if nargs and (clo.op in ("bi", "ext", "bim", "cls", "xcall", "mcall") or clo.op == "attr" and clo.a[1] in PLAIN_METHODS):
            return self.lam_fn(lambda xs, s: self.call_value(clo, xs, {}, s, None), nargs, st)
        if clo.op == "bound":
            f = self.P.funcs.get(clo.a[1])
            if f is not None:
                return self.lam_fn(lambda xs, s: self.call_value(clo, xs, {}, s, None), len(f.node.args.args) - 1, st)
        return clo


    def lam_fn(self, call, n, st):
        L = self.level
        self.level += 1
        s = st.copy()
        s.pc = TRUE
        eff0 = self.eff
        self.eff = {}
        try:
            r = call([bv(L, i) for i in range(n)], s)
            r = self.freeze(r, s)
        finally:
            self.eff = eff0
            self.level = L
        return mk("lam", close(r, L))

    def kwt(self, kw, st):
        return mk("tuple", *[mk("kw", k, self.frz(kw[k], st)) for k in sorted(kw)])

    def call_value(self, f, args, kw, st, node):
        self.cur_state = st
        if f.op == "ite":
            out = {}
            c = f.a[0]
            self.branch(c, st, lambda x: out.__setitem__(0, self.call_value(f.a[1], args, kw, x, node)),
                        lambda x: out.__setitem__(1, self.call_value(f.a[2], args, kw, x, node)))
            if 0 in out and 1 in out:
                return ite(c, out[0], out[1])
            return out.get(0, out.get(1))
        if f.op == "fn":
            fn = self.P.funcs.get(f.a[0])
            if fn is None:
                return self.note("fn")
            if fn.kind == "class":
                return self.call_func(fn, [mk("cls", self.cname(fn.cls))] + args, kw, st, node)
            return self.call_func(fn, args, kw, st, node)
        if f.op == "bound":
            fn = self.P.funcs.get(f.a[1])
            return self.call_func(fn, [f.a[0]] + args, kw, st, node)
        if f.op == "cls":
            c = self.class_of(f)
            if c is None:
                return self.note("class")
            return self.construct(c, args, kw, st, node)
        if f.op == "clo":
            return self.call_closure(f, args, kw, st, node)
        if f.op == "bi":
            return self.call_builtin(f.a[0], args, kw, st, node)
        if f.op == "bim":
            return self.call_bim(f.a[0], f.a[1], args, kw, st, node)
        if f.op == "ext":
            return self.call_ext(f.a[0], args, kw, st, node)
        if f.op == "attr":
            if f.a[1] in PLAIN_METHODS and self.klass(f.a[0]) is None:
                return self.call_method(f.a[0], f.a[1], args, kw, st, node)
            return mk("ucall", self.freeze(f, st), mk("tuple", *[self.frz(a, st) for a in args]), self.kwt(kw, st))
        if f.op == "namedtuple":
            return mk("ntup", f.a[0], *[self.frz(a, st) for a in self.nt_args(f.a[0], args, kw)])
        if f.op == "xcall" and f.a[0] in ("operator.attrgetter", "operator.itemgetter"):
            ns = f.a[1].a
            rs = []
            for n in ns:
                if f.a[0].endswith("attrgetter") and is_str(n):
                    r = args[0]
                    for part in n.a[1].split("."):
                        r = self.getattr(r, part, st, node)
                    rs.append(r)
                else:
                    rs.append(self.getitem(args[0], n, st))
            return rs[0] if len(rs) == 1 else mk("tuple", *rs)
        if f.op == "partial":
            return self.call_value(f.a[0], list(f.a[1].a) + args, kw, st, node)
        return mk("ucall", self.freeze(f, st), mk("tuple", *[self.frz(a, st) for a in args]), self.kwt(kw, st))

    def nt_args(self, text, args, kw):
        """The arguments of a named tuple in the order of its fields."""
        if not kw:
            return args
        try:
            c = ast.parse(text, mode="eval").body
            fs = ast.literal_eval(c.args[1])
        except (SyntaxError, ValueError, IndexError, AttributeError):
            fs = None
        if fs is None:
            return args + [mk("kw", k, v) for k, v in sorted(kw.items())]
        fs = fs.replace(",", " ").split() if isinstance(fs, str) else list(fs)
        rest = fs[len(args):]
        if set(rest) != set(kw):
            return args + [mk("kw", k, v) for k, v in sorted(kw.items())]
        return args + [kw[k] for k in rest]

    def bind(self, func, args, kw, st):
        """Map of parameter names to values."""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = list(args)
        for n in names:
            if rest:
                env[n] = rest.pop(0)
        if rest and a.vararg is None:
            raise Unsupported("arity of " + func.qual)
        if a.vararg is not None:
            env[a.vararg.arg] = mk("tuple", *rest)
        for k, v in kw.items():
            if k in names or any(x.arg == k for x in a.kwonlyargs):
                env[k] = v
            elif a.kwarg is None:
                raise Unsupported("keyword of " + func.qual)
        nreq = len(names) - len(a.defaults)
        for i, n in enumerate(names):
            if n not in env:
                if i >= nreq:
                    env[n] = self.dflt(a.defaults[i - nreq], func, st)
                else:
                    raise Unsupported("missing argument of " + func.qual)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.dflt(d, func, st) if d is not None else UNDEF
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, Obj("dict", None, SEQ0, None, None, None))
        return names, env

    def dflt(self, d, func, st):
        # a mutable default is shared between the calls; it is only ever read in an honest program
        try:
            return self.eval_const_expr(d, func.module)
        except Unsupported:
            return mk("opaque", "default")

    def bind_flat(self, func, args, kw, st):
        """Arguments in parameter order, defaults filled in, for a call which is not expanded."""
        try:
            names, env = self.bind(func, args, kw, st)
        except Unsupported:
            return [self.frz(a, st) for a in args] + [mk("kw", k, self.frz(v, st)) for k, v in sorted(kw.items())]
        maxp = self.types.arity.get(func.qual)
        if maxp is not None:
            names = names[:maxp]
        out = [self.frz(env[n], st) for n in names]
        return out

    def bind_raw(self, func, args, kw, st):
        try:
            names, env = self.bind(func, args, kw, st)
        except Unsupported:
            return list(args)
        return [env[n] for n in names]

    def call_func(self, func, args, kw, st, node):
        self.called.add(func.qual)
        stars = [i for i, a in enumerate(args) if a.op == "star"]
        if len(stars) == 1 and not kw:
            fa = func.node.args
            n = len(fa.posonlyargs) + len(fa.args) - (len(args) - 1)
            i = stars[0]
            if not fa.vararg and (not fa.defaults or i + 1 < len(args)) and n >= 0:
                # as many as are left
                args = args[:i] + [self.getitem(args[i].a[0], const(j), st) for j in range(n)] + args[i + 1:]
        if func.decorators and any("cache" in d for d in func.decorators):
            # memoised: the value of an earlier call with equal arguments
            return mk("memo", func.qual, mk("tuple", *[self.frz(a, st) for a in args]))
        if self.is_opaque(func) or func in self.stack or len(self.stack) > MAX_INLINE:
            a = self.bind_flat(func, args, kw, st)
            recv = args[0] if (func.kind == "inst" and args) else None
            return self.opaque_call(func.qual, a, [func.qual], st, node, recv, self.bind_raw(func, args, kw, st))
        try:
            names, env = self.bind(func, args, kw, st)
        except Unsupported:
            self.note("arity", node)
            return mk("call", func.qual, *[self.frz(a, st) for a in args])
        self.inlined.add(func.qual)
        return self.run_body(func, func.node, env, None, st)

    def run_body(self, func, node, env, parent, st):
        fid0 = self.fid
        fid = self.new_frame(st, parent, func)
        st.frames[fid].update(env)
        self.stack.append(func)
        ret0, brk0, cont0 = st.ret, st.brk, st.cont
        st.ret, st.brk, st.cont = NORET, FALSE, FALSE
        try:
            if isinstance(node, ast.Lambda):
                r = self.eval(node.body, st)
            else:
                gen = self.has_yield(node)
                if gen:
                    st.frames[fid]["$yield"] = self.alloc(st, Obj("list", None, SEQ0, None, None, None))
                self.exec_block(node.body, st)
                r = map_leaves(st.ret, lambda x: NONE if x is NORET else x)
                if gen:
                    r = st.frames[fid]["$yield"]
        finally:
            self.stack.pop()
            self.fid = fid0
        raised = map_leaves(st.ret, lambda x: TRUE if x.op == "raise" else FALSE)
        if raised is not FALSE:
            st.ret = ite(raised, map_leaves(st.ret, lambda x: x if x.op == "raise" else NORET), ret0)
            r = restrict(r, bnot(raised)) if r.op == "ite" else r
        else:
            st.ret = ret0
        st.brk, st.cont = brk0, cont0
        st.frames.pop(fid, None) if not self.captured(fid) else None
        self.cur_state = st
        return r

    def captured(self, fid):
        return any(c[1] == fid for c in self.clos.values())

    def call_closure(self, clo, args, kw, st, node):
        n, fid, func = self.clos[clo.a[0]]
        if self.stack.count(("clo", clo)) or sum(1 for s in self.clo_stack if s is clo) > 0:
            return mk("call", "closure", *[self.frz(a, st) for a in args])
        from .program import Func

        f = Func(getattr(n, "name", "<lambda>"), n, None, func.module, "func", [])
        f.cls = func.cls
        try:
            names, env = self.bind(f, args, kw, st)
        except Unsupported:
            self.note("closure arity", node)
            return mk("opaque", "closure arity")
        self.clo_stack.append(clo)
        if fid not in st.frames:
            st.frames[fid] = {"$parent": None, "$func": func}
        try:
            return self.run_body(f, n, env, fid, st)
        finally:
            self.clo_stack.pop()


    def opaque_call(self, name, args, quals, st, node, recv, raw=None):
        """A call kept as a value; the state it may read and write is part of it."""
        for q in quals:
            self.called.add(q)
        rd, wr = set(), set()
        for q in quals:
            rd |= self.mayread.get(q, set())
            wr |= self.maywrite.get(q, set())
        fr = [self.freeze(a, st) for a in args]
        hit = []  # fresh arguments the callee mutates

        def tr(cs):
            out = set()
            for c in cs:
                if c.startswith("c:p") and c[3:].isdigit():
                    i = int(c[3:])
                    if i < len(args):
                        a = args[i] if args[i].op == "ref" else raw[i] if i < len(raw) and raw[i].op == "ref" else args[i]
                        if a.op == "ref":
                            if cs is wr:
                                hit.append((i, a))
                        elif a.op not in ("c", "cat", "tuple"):
                            out.add(self.rootcls(a))
                else:
                    out.add(c)
            return out

        raw = raw or []
        rd2, wr2 = tr(rd), tr(wr)
        self.read |= rd2
        vers = []
        for c in sorted((rd2 | wr2) & set(st.ver)):
            v = st.ver[c]
            if v is not NONE:
                vers.append(mk("verof", c, v))
        val = mk("call", name, mk("tuple", *fr), mk("tuple", *vers))
        for i, a in hit:
            o = st.heap[a.a[0]]
            if o.kind != "inst":
                st.heap[a.a[0]] = o._replace(content=seq(_mk("mutby", (val, i, self.freeze(o.content, st)))))
        fields = {c[2:] for c in wr if c.startswith(("f:", "c:"))}
        for i, a in enumerate(raw):
            if a.op == "ref" and st.heap.get(a.a[0]) is not None and st.heap[a.a[0]].kind == "inst" and wr:
                o = self.told(st.heap[a.a[0]], fields, st)
                me = [mk("itself") if j == i else x for j, x in enumerate(fr)]
                log = seq(o.log, mk("do", st.pc, mk("eff", "call", name, mk("tuple", *me))))
                st.heap[a.a[0]] = o._replace(log=log)
        isref = recv is not None and recv.op == "ref" and st.heap.get(recv.a[0]) is not None \
            and st.heap[recv.a[0]].kind == "inst"
        if wr2 and isref:
            own = self.types.own(st.heap[recv.a[0]].cls, self)
            wr2 = {c for c in wr2 if not (c.startswith(("f:", "c:")) and c[2:] in own)}
        if wr2:
            self.emit(st, mk("eff", "call", name, mk("tuple", *fr)), sorted(wr2))
        # fluent interfaces return the receiver
        if (wr or wr2) and recv is not None and self.types.fluent(quals):
            return recv
        i = self.types.returned(quals)
        if isinstance(i, int) and i < len(raw):
            return raw[i]
        kind = self.types.fresh(quals)
        if kind == "dict":
            return self.alloc(st, Obj("dict", None, as_splice(mk("items", val)), None, None, None))
        if kind in ("list", "set"):
            return self.alloc(st, Obj(kind, None, as_splice(val), None, None, None))
        return val

    def construct(self, c, args, kw, st, node, raw=False):
        if self.P.is_enum(c):
            return mk("xcall", "enum:" + c.name, mk("tuple", *args))
        init = self.P.find_method(c, "__init__")
        flat = []
        if init is not None:
            if len(self.stack) > MAX_INLINE:
                raise Unsupported("depth")
            f0 = Obj("inst", c, None, {}, (), SEQ0)
            r = self.alloc(st, f0)
            try:
                flat = self.bind_flat(init, [mk("p", "self")] + args, kw, st)[1:]
                names, env = self.bind(init, [r] + args, kw, st)
            except Unsupported:
                self.note("constructor", node)
                return mk("new", self.cname(c), mk("tuple", *[self.frz(a, st) for a in args]), mk("tuple"), SEQ0)
            self.called.add(init.qual)
            self.run_body(init, init.node, env, None, st)
            o = st.heap[r.a[0]]
            # what the constructor set is implied by its arguments
            fields = {k: (v if isinstance(v, tuple) else (v, self.freeze(v, st)) if v.op == "ref" else (v,)) for k, v in o.fields.items()}
            st.heap[r.a[0]] = o._replace(fields=fields, args=tuple(flat))
            return r
        return self.alloc(st, Obj("inst", c, None, {}, tuple(self.frz(a, st) for a in args), SEQ0))

    # ------------------------------------------------------------ containers
    def container_op(self, recv, name, args, kw, st, node):
        if recv.op == "ite":
            out = {}
            c = recv.a[0]
            self.branch(c, st, lambda x: out.__setitem__(0, self.container_op(recv.a[1], name, args, kw, x, node)),
                        lambda x: out.__setitem__(1, self.container_op(recv.a[2], name, args, kw, x, node)))
            if 0 in out and 1 in out:
                return ite(c, out[0], out[1])
            return out.get(0, out.get(1))
        if recv.op == "ref":
            return self.fresh_op(recv, name, args, kw, st, node)
        t = self.loc(self.freeze(recv, st), st)
        fa = [self.frz(a, st) if a.op != "ref" or name not in ("append", "add") else a for a in args]
        cls = self.rootcls(t)
        if name in ("items", "keys", "values"):
            t2 = self.cread(t, st)
            return mk(name, t2)
        rd = self.cread(t, st)
        if name == "get":
            d = fa[1] if len(fa) > 1 else NONE
            return ite(mk("in", fa[0], rd), self.index(rd, fa[0]), d)
        if name == "copy":
            ty = self.typ(t)
            kind = ty[0] if isinstance(ty, tuple) else None
            if kind in ("list", "set"):
                return self.alloc(st, Obj(kind, None, self.elements(t, st), None, None, None))
            if kind == "dict":
                return self.alloc(st, Obj("dict", None, self.dict_stream(t, st), None, None, None))
            return mk("mcall", rd, "copy", mk("tuple"), mk("tuple"))
        if name in ("issuperset", "issubset", "isdisjoint", "union", "intersection", "difference"):
            return self.set_method(rd, name, args, st)
        if name == "count" and len(args) == 1 and self.is_list(t, st):
            return self.occurrences(t, args[0], st)
        if name in ("index", "count"):
            return mk("mcall", rd, name, mk("tuple", *fa), mk("tuple"))
        if name == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            k = fa[0]
            c = mk("in", k, rd)
            out = {}

            def put(x):
                self.setitem(t, k, d, x, node)
                out[0] = d

            self.branch(c, st, lambda x: out.__setitem__(1, self.index(rd, k)), put)
            r2 = self.index(self.cread(t, st), k)
            return out[1] if c is TRUE else r2
        if name == "pop":
            if len(fa) == 2:
                val = ite(mk("in", fa[0], rd), self.index(rd, fa[0]), fa[1])
                self.emit(st, mk("eff", "del", t, fa[0]), [cls])
                return val
            if len(fa) == 1 and self.is_dict(t, st):
                self.emit(st, mk("eff", "delx", t, fa[0]), [cls])
                return self.index(rd, fa[0])
            val = mk("popped", rd, *fa)
            self.emit(st, mk("eff", "pop", t, *fa), [cls])
            return val
        if name in ("remove", "discard", "delitem"):
            self.emit(st, mk("eff", "del" if name == "discard" else "delx", t, fa[0]), [cls])
            return NONE
        if name == "update" and not kw and len(args) == 1 and self.is_setlike(t, st):
            self.iterate(args[0], st, lambda x, s: self.container_op(recv, "add", [x], {}, s, node), node)
            return NONE
        if name == "update" and not kw and len(args) == 1 and (self.is_dict(t, st)):
            self.iter_stream(self.dict_stream(args[0], st), st, lambda x, s: self.setitem(recv, self.getitem(x, ZERO, s), self.getitem(x, const(1), s), s, node), node)
            return NONE
        if name == "update" and not kw and len(args) == 1:
            self.emit(st, mk("eff", "update", t, self.frz(args[0], st)), [cls])
            return NONE
        if name == "extend":
            self.iterate(args[0], st, lambda x, s: self.container_op(recv, "append", [x], {}, s, node), node)
            return NONE
        if name in MUTATORS:
            self.emit(st, mk("eff", name, t, *fa, *[mk("kw", k, self.frz(v, st)) for k, v in sorted(kw.items())]), [cls])
            return NONE
        return mk("mcall", rd, name, mk("tuple", *fa), self.kwt(kw, st))

    def set_method(self, rd, name, args, st):
        a = [self.frz(x, st) for x in args]
        if name == "issuperset":
            return mk("subset", a[0], rd)
        if name == "issubset":
            return mk("subset", rd, a[0])
        if name == "isdisjoint":
            return mk("disjoint", rd, a[0])
        o = {"union": "union", "intersection": "inter", "difference": "diff"}[name]
        r = rd
        for x in a:
            r = mk("setop", o, r, x)
        return self.newset(r, st)

    def newset(self, t, st):
        return self.alloc(st, Obj("set", None, members(t), None, None, None))

    def occurrences(self, recv, x, st):
        x = self.freeze(x, st)
        n = [ZERO]
        out = self.alloc(st, Obj("list", None, SEQ0, None, None, None))

        def body(y, s):
            c = truth(self.compare(ast.Eq(), y, x, s))
            self.branch(c, s, lambda z: self.container_op(out, "append", [ONE], {}, z, None), lambda z: None)

        self.iterate(recv, st, body, None)
        return sum_stream(self.freeze(st.heap[out.a[0]].content, st))

    def fresh_op(self, recv, name, args, kw, st, node):
        rid = recv.a[0]
        o = st.heap[rid]
        if o.kind == "list" and name == "count" and len(args) == 1:
            return self.occurrences(recv, args[0], st)
        put = lambda c: st.heap.__setitem__(rid, st.heap[rid]._replace(content=c))
        if o.kind == "list":
            if name == "append":
                put(seq(o.content, mk("yield", TRUE, args[0])))
                return NONE
            if name == "extend":
                put(seq(o.content, self.elements(args[0], st)))
                return NONE
            if name == "insert" and args[0] is ZERO:
                put(seq(mk("yield", TRUE, args[1]), o.content))
                return NONE
            if name == "sort":
                k = self.sortkey(kw, st)
                put(as_splice(mk("sorted", mk("cat", self.freeze(o.content, st)), k)))
                return NONE
            if name == "reverse":
                put(as_splice(mk("reversed", mk("cat", self.freeze(o.content, st)))))
                return NONE
            if name == "copy":
                return self.alloc(st, Obj("list", None, o.content, None, None, None))
            if name == "clear":
                put(SEQ0)
                return NONE
            if name in ("pop", "popleft"):
                c = mk("cat", self.freeze(o.content, st))
                a = [self.frz(x, st) for x in args]
                put(seq(_mk("after", (c, mk("tuple", *a), const(name)))))
                return mk("popped", c, *a)
            if name in ("remove", "delitem"):
                c = mk("cat", self.freeze(o.content, st))
                put(seq(_mk("without", (c, self.frz(args[0], st), const(name)))))
                return NONE
        elif o.kind == "set":
            if name == "add":
                put(seq(o.content, mk("yield", TRUE, args[0])))
                return NONE
            if name in ("update",):
                put(seq(o.content, *[self.elements(a, st) for a in args]))
                return NONE
            if name in ("intersection_update", "difference_update"):
                c = mk("set", self.freeze(o.content, st))
                for a in args:
                    c = mk("setop", "inter" if name[0] == "i" else "diff", c, mk("set", self.freeze(self.elements(a, st), st)))
                put(as_splice(c))
                return NONE
            if name in ("remove", "discard"):
                c = mk("set", self.freeze(o.content, st))
                x = self.frz(args[0], st)
                put(as_splice(mk("setop", "diff", c, mk("set", mk("yield", TRUE, x)))))
                return NONE
            if name == "copy":
                return self.alloc(st, Obj("set", None, o.content, None, None, None))
            if name in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint"):
                return self.set_method(self.freeze(recv, st), name, args, st)
        elif o.kind == "dict":
            fr = lambda: self.freeze(recv, st)
            if name in ("items", "keys", "values"):
                return mk(name, fr())
            if name == "get":
                d = fr()
                k = self.frz(args[0], st)
                v = mk("item", d, k)
                df = args[1] if len(args) > 1 else NONE
                return ite(mk("in", k, d), v, self.freeze(df, st))
            if name == "update":
                if args:
                    put(seq(o.content, self.dict_stream(args[0], st)))
                for k, v in kw.items():
                    put(seq(st.heap[rid].content, mk("yield", TRUE, mk("tuple", const(k), v))))
                return NONE
            if name == "copy":
                return self.alloc(st, Obj("dict", None, o.content, None, None, None))
            if name == "setdefault":
                d = fr()
                k = self.frz(args[0], st)
                c = mk("in", k, d)
                df = args[1] if len(args) > 1 else NONE
                self.branch(c, st, lambda x: None, lambda x: self.setitem(recv, k, df, x, node))
                return self.getitem(recv, k, st)
            if name in ("pop", "delitem"):
                d = fr()
                k = self.frz(args[0], st)
                put(seq(_mk("without", (d, k, const("key")))))
                v = mk("item", d, k)
                return ite(mk("in", k, d), v, self.frz(args[1], st)) if len(args) > 1 else v
            if name == "clear":
                put(SEQ0)
                return NONE
        if name in MUTATORS:
            self.note("mutator " + name, node)
            c = self.freeze(recv, st)
            put(seq(_mk("mutated", (c, const(name), mk("tuple", *[self.frz(a, st) for a in args])))))
            return mk("popped", c)
        t = self.freeze(recv, st)
        if name == "transpose" and not args and not kw:
            return mk("attr", t, "T")
        return mk("mcall", t, name, mk("tuple", *[self.frz(a, st) for a in args]), self.kwt(kw, st))

    def file_op(self, recv, name, args, kw, st, node):
        a = [self.frz(x, st) for x in args]
        if name == "write":
            self.emit(st, mk("eff", "write", recv, mk("fmt", *a)), ["io"])
            return NONE
        if name == "writelines":
            self.iterate(args[0], st, lambda x, s: self.emit(s, mk("eff", "write", recv, mk("fmt", x)), ["io"]), node)
            return NONE
        if name in ("read",):
            return mk("fileread", recv)
        if name == "readlines":
            return recv
        if name == "close":
            return NONE
        return mk("mcall", recv, name, mk("tuple", *a), self.kwt(kw, st))

    def str_op(self, recv, name, args, kw, st, node):
        t = self.freeze(recv, st)
        if name == "join":
            return self.join(t, args[0], st)
        if name == "format" and is_str(t):
            fa = [self.to_str(self.freeze(a, st), st) for a in args]
            fk = {k: self.freeze(v, st) for k, v in kw.items()}
            p = fmtspec_parts(t.a[1], fa, fk)
            if p is not None:
                return mk("fmt", *p) if p else const("")
        if name == "strip" and not args:
            pass
        return mk("mcall", t, name, mk("tuple", *[self.frz(a, st) for a in args]), self.kwt(kw, st))

    def join(self, sep, xs, st):
        s = self.elements(xs, st)
        s = self.freeze(s, st)
        return mk("join", sep, mk("cat", s))

    def nx_op(self, recv, name, args, kw, st, node):
        t = self.freeze(recv, st)
        a = [self.frz(x, st) for x in args]
        if name in NX_MUT:
            # add_edge(a, b) and add_edges_from([(a, b, {})]) are the same edge
            if name == "add_edges_from" and a and (a[0].op in ("cat", "tuple") or a[0].op == "attr" and a[0].a[1] == "edges"):
                s = as_splice(a[0])
                ps = s.a if s.op == "seq" else (s,)
                if all(p.op == "yield" and p.a[0] is TRUE and p.a[1].op == "tuple" for p in ps):
                    for p in ps:
                        u, v = p.a[1].a[0], p.a[1].a[1]
                        rest = p.a[1].a[2:]
                        rest = [r for r in rest if not (r.op == "dict" and r.a[0] is SEQ0)]
                        self.emit(st, mk("eff", "nx.add_edge", t, u, v, *rest), ["nx"])
                    return NONE
                if s.op == "for" or a[0].op == "attr" and a[0].a[1] == "edges":
                    def one(x, y):
                        u = self.getitem(x, ZERO, y)
                        v = self.getitem(x, ONE, y)
                        self.emit(y, mk("eff", "nx.add_edge", t, self.freeze(u, y), self.freeze(v, y)), ["nx"])

                    self.iterate(args[0], st, one, node)
                    return NONE
            if name == "add_nodes_from" and a:
                self.iterate(args[0], st, lambda x, y: self.emit(y, mk("eff", "nx.add_node", t, self.freeze(x, y)), ["nx"]), node)
                return NONE
            self.emit(st, mk("eff", "nx." + name, t, *a, *[mk("kw", k, self.frz(v, st)) for k, v in sorted(kw.items())]), ["nx"])
            return NONE
        if name in ("nodes", "edges") and not a:
            return mk("attr", self.vnx(t, st), name)
        return mk("mcall", self.vnx(t, st), name, mk("tuple", *a), self.kwt(kw, st))

    def vnx(self, t, st):
        self.read.add("nx")
        v = st.ver.get("nx")
        return mk("v", t, v) if v is not None else t

    # ------------------------------------------------------------ builtins and libraries
    def sortkey(self, kw, st):
        k = kw.get("key")
        rev = kw.get("reverse")
        kt = self.lam(k, st, 1) if k is not None and k is not NONE else NONE
        if kt.op == "lam":
            b = kt.a[0]
            if b.op == "b" and b.a == (0, 0):
                kt = NONE
            elif b.op == "tuple" and len(b.a) == 1:
                kt = mk("lam", b.a[0])
        if rev is not None and rev is not FALSE:
            kt = mk("rev", kt, self.freeze(rev, st))
        return kt

    def call_builtin(self, name, args, kw, st, node):
        f = getattr(self, "b_" + name, None)
        if f is not None:
            return f(args, kw, st, node)
        a = [self.frz(x, st) for x in args]
        if name == "print":
            f = kw.get("file")
            sep, end = kw.get("sep", const(" ")), kw.get("end", const("\n"))
            if f is not None and is_str(sep) and is_str(end):
                t = [self.to_str(x, st) for x in a]
                for i in range(len(t) - 1, 0, -1):
                    t.insert(i, sep)
                return self.call_method(f, "write", [mk("fmt", *t, end)], {}, st, node)
            return NONE
        if name in ("abs", "round", "id", "hash", "type", "iter", "ord", "chr", "bytes", "divmod", "pow", "repr",
                    "callable", "vars", "dir", "object", "slice", "frozenset", "complex", "bytearray", "memoryview"):
            if name == "frozenset":
                return self.b_set(args, kw, st, node)
            if name == "repr":
                return mk("repr", a[0])
            if name == "vars" and len(args) == 1:
                return self.getattr(args[0], "__dict__", st, node)
            if name == "type" and len(args) == 1:
                return self.getattr(args[0], "__class__", st, node)
            if name == "iter":
                return a[0] if a else NONE
            if name == "round" and len(a) == 1:
                return mk("xcall", "round", mk("tuple", *a))
            return mk("xcall", name, mk("tuple", *a), self.kwt(kw, st))
        if name in ("Exception", "ValueError", "KeyError", "TypeError", "RuntimeError", "IndexError"):
            return mk("xcall", name, mk("tuple"))
        return mk("xcall", name, mk("tuple", *a), self.kwt(kw, st))

    def b_len(self, args, kw, st, node):
        v = args[0]
        if v.op == "ref":
            o = st.heap[v.a[0]]
            if o.kind == "inst":
                m = self.P.find_method(o.cls, "__len__")
                if m:
                    return self.call_func(m, [v], {}, st, node)
        t = self.cread(self.freeze(v, st), st)
        if t.op in ("items", "values", "keys"):
            t = t.a[0]
        return map_leaves(t, lambda x: mk("len", x))

    def b_list(self, args, kw, st, node):
        if not args:
            return self.alloc(st, Obj("list", None, SEQ0, None, None, None))
        return self.alloc(st, Obj("list", None, self.elements(args[0], st), None, None, None))

    b_tuple = b_list

    def b_set(self, args, kw, st, node):
        if not args:
            return self.alloc(st, Obj("set", None, SEQ0, None, None, None))
        return self.alloc(st, Obj("set", None, self.elements(args[0], st), None, None, None))

    def b_dict(self, args, kw, st, node):
        parts = []
        if args:
            a = args[0]
            fa = self.freeze(a, st)
            ty = self.typ(fa)
            if fa.op == "dict" or (isinstance(ty, tuple) and ty[0] == "dict"):
                parts.append(self.dict_stream(a, st))
            else:
                parts.append(self.elements(a, st))
        for k, v in kw.items():
            parts.append(mk("yield", TRUE, mk("tuple", const(k), v)))
        return self.alloc(st, Obj("dict", None, seq(*parts), None, None, None))

    def b_str(self, args, kw, st, node):
        if not args:
            return const("")
        return mk("fmt", self.to_str(self.freeze(args[0], st), st))

    def b_int(self, args, kw, st, node):
        a = self.freeze(args[0], st) if args else ZERO
        if is_num(a):
            return const(int(a.a[1]))
        return mk("int", a)

    def b_float(self, args, kw, st, node):
        a = self.freeze(args[0], st) if args else ZERO
        if is_num(a):
            return a
        if is_bool(a):
            return ite(a, ONE, ZERO)
        return mk("float", a)

    def b_bool(self, args, kw, st, node):
        return self.truth(args[0], st)

    def b_range(self, args, kw, st, node):
        a = [self.freeze(x, st) for x in args]
        if len(a) == 1:
            return mk("range", ZERO, a[0])
        if len(a) == 2 or a[2] is ONE:
            return mk("range", a[0], a[1])
        return mk("range3", *a)

    def b_enumerate(self, args, kw, st, node):
        s = args[1] if len(args) > 1 else kw.get("start", ZERO)
        return mk("enum", self.cread(self.freeze(args[0], st), st), self.freeze(s, st))

    def b_zip(self, args, kw, st, node):
        return mk("zip", *[self.cread(self.freeze(a, st), st) for a in args])

    def b_reversed(self, args, kw, st, node):
        return mk("reversed", self.cread(self.freeze(args[0], st), st))

    def b_sorted(self, args, kw, st, node):
        k = self.sortkey(kw, st)
        s = self.freeze(self.elements(args[0], st), st)
        d = _identity_stream(s)
        r = mk("sorted", d if d is not None else mk("cat", s), k)
        return self.alloc(st, Obj("list", None, as_splice(r), None, None, None))

    def _best(self, args, kw, st, mx):
        if len(args) == 1:
            k = self.sortkey({x: y for x, y in kw.items() if x == "key"}, st)
            if mx:
                k = mk("rev", k, TRUE)
            s = self.freeze(self.elements(args[0], st), st)
            d = _identity_stream(s)
            r = mk("best", d if d is not None else mk("cat", s), k)
            if "default" in kw:
                return ite(mk("nonempty", d if d is not None else mk("cat", s)), r, self.freeze(kw["default"], st))
            return r
        if "key" in kw:
            return mk("xcall", "min" if not mx else "max", mk("tuple", *[self.frz(a, st) for a in args]), self.kwt(kw, st))
        a = [self.freeze(x, st) for x in args]
        r = a[0]
        for x in a[1:]:
            r = mk("max2" if mx else "min2", r, x)
        return r

    def b_min(self, args, kw, st, node):
        return self._best(args, kw, st, False)

    def b_max(self, args, kw, st, node):
        return self._best(args, kw, st, True)

    def b_sum(self, args, kw, st, node):
        s = self.freeze(self.elements(args[0], st), st)
        start = self.freeze(args[1], st) if len(args) > 1 else self.freeze(kw["start"], st) if "start" in kw else ZERO
        if start.op == "cat":
            return self.flatten(args[0], st, start)
        return mk("add", start, sum_stream(s))

    def flatten(self, xs, st, start=None):
        out = self.alloc(st, Obj("list", None, as_splice(start) if start is not None else SEQ0, None, None, None))
        self.iterate(xs, st, lambda x, s: self.fresh_op(out, "extend", [x], {}, s, None), None)
        return out

    def b_any(self, args, kw, st, node):
        s = self.freeze(self.elements(args[0], st), st)
        return mk("any", truth_stream(s))

    def b_all(self, args, kw, st, node):
        s = self.freeze(self.elements(args[0], st), st)
        return bnot(mk("any", truth_stream(s, True)))

    def b_map(self, args, kw, st, node):
        out = self.alloc(st, Obj("list", None, SEQ0, None, None, None))
        src = args[1] if len(args) == 2 else mk("zip", *[self.cread(self.freeze(a, st), st) for a in args[1:]])

        def body(x, s):
            xs = [x] if len(args) == 2 else [self.getitem(x, const(i), s) for i in range(len(args) - 1)]
            v = self.call_value(args[0], xs, {}, s, node)
            self.fresh_op(out, "append", [v], {}, s, node)

        self.iterate(src, st, body, node)
        return out

    def b_filter(self, args, kw, st, node):
        out = self.alloc(st, Obj("list", None, SEQ0, None, None, None))

        def body(x, s):
            c = truth(self.freeze(self.call_value(args[0], [x], {}, s, node), s)) if args[0] is not NONE else truth(x)
            self.branch(c, s, lambda y: self.fresh_op(out, "append", [x], {}, y, node), lambda y: None)

        self.iterate(args[1], st, body, node)
        return out

    def b_next(self, args, kw, st, node):
        if node is not None and isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Name):
            # what is left of the iterator is read later
            self.note("next of a named iterator", node)
        s = self.freeze(self.elements(args[0], st), st)
        d = self.freeze(args[1], st) if len(args) > 1 else None
        v = first_stream(s)
        if d is None:
            return v
        return ite(nonempty_stream(s), v, d)

    def b_isinstance(self, args, kw, st, node):
        x = args[0]
        cs = args[1]
        if cs.op == "ref" or cs.op == "cat":
            cs = self.freeze(cs, st)
        cl = list(cs.a) if cs.op == "tuple" else [cs]
        r = FALSE
        for c in cl:
            if c.op == "cls" and x.op in ("ref", "new"):
                k = st.heap[x.a[0]].cls if x.op == "ref" else self.klass(x)
                if k is not None:
                    target = self.class_of(c)
                    r = bor(r, TRUE if target in self.P.mro(k) else FALSE)
                    continue
            r = bor(r, mk("isinst", self.freeze(x, st), c))
        return r

    def b_hasattr(self, args, kw, st, node):
        return mk("hasattr", *[self.frz(a, st) for a in args])

    def b_getattr(self, args, kw, st, node):
        if is_str(args[1]):
            return self.getattr(args[0], args[1].a[1], st, node)
        o, k = self.frz(args[0], st), self.frz(args[1], st)
        d = mk("attr", o, "__dict__")
        if len(args) == 2 and k.op == "at" and k.a[0] is d:
            # the name of a field of its own
            return mk("item", d, k)
        return mk("getattr", *[self.frz(a, st) for a in args])

    def b_setattr(self, args, kw, st, node):
        if is_str(args[1]):
            self.setattr(args[0], args[1].a[1], args[2], st)
            return NONE
        self.emit(st, mk("eff", "setattrdyn", *[self.frz(a, st) for a in args]), ["f:*"])
        return NONE

    def b_open(self, args, kw, st, node):
        a = [self.frz(x, st) for x in args]
        mode = kw.pop("mode", None)
        if mode is not None:
            a = a[:1] + [mode]
        if len(a) == 1:
            a.append(const("r"))
        kw.pop("encoding", None)
        kw.pop("newline", None)
        if a[1].op == "c" and a[1].a[1] == "rt":
            a[1] = const("r")
        r = mk("open", *a)
        return r

    def b_super(self, args, kw, st, node):
        return mk("super")

    def call_bim(self, typ, name, args, kw, st, node):
        """Methods taken from a builtin type: str.join(sep, xs), dict.fromkeys(...)."""
        if typ == "str" and name == "join":
            return self.join(self.freeze(args[0], st), args[1], st)
        if typ == "str" and name == "format":
            return self.str_op(args[0], "format", args[1:], kw, st, node)
        if typ in ("list", "set", "dict") and name in CONTAINER_METHODS:
            return self.container_op(args[0], name, args[1:], kw, st, node)
        if typ == "dict" and name == "fromkeys":
            out = self.alloc(st, Obj("dict", None, SEQ0, None, None, None))
            v = args[1] if len(args) > 1 else NONE
            self.iterate(args[0], st, lambda x, s: self.setitem(out, x, v, s, node), node)
            return out
        if typ == "object" and name == "__new__" and len(args) == 1:
            c = self.freeze(args[0], st)
            return mk("mcall", c, name, mk("tuple", c), mk("tuple"))
        if typ == "object" and name in ("__new__", "__init__"):
            return mk("xcall", "object." + name, mk("tuple", *[self.frz(a, st) for a in args]))
        return mk("xcall", typ + "." + name, mk("tuple", *[self.frz(a, st) for a in args]), self.kwt(kw, st))

    RNG = ("numpy.random.", "random.", "scipy.stats.")

    def call_ext(self, name, args, kw, st, node):
        n = {"np": "numpy"}.get(name, name)
        if n.startswith("networkx.algorithms."):
            n = "networkx." + n.split(".")[-1]
        n = ALIASES.get(n, n)
        if n == "json.dumps":
            for k, v in kw.items():
                if v.op == "ite" and not is_bool(v):
                    # one option or another: one call or another
                    return ite(v.a[0], self.call_ext(n, args, {**kw, k: v.a[1]}, st, node), self.call_ext(n, args, {**kw, k: v.a[2]}, st, node))
        args, kw = usual_args(n, args, kw)
        if n in ("functools.reduce",):
            return self.reduce(args, st, node)
        if n == "math.prod" or n == "numpy.prod" and len(args) == 1:
            s = self.freeze(self.elements(args[0], st), st)
            st_ = args[1] if len(args) > 1 else kw.get("start", ONE)
            return mk("mul", self.freeze(st_, st), prod_stream(s))
        if n == "math.fsum":
            return self.b_sum(args, kw, st, node)
        if n == "itertools.product" and "repeat" not in kw:
            if len(args) == 1 and args[0].op == "star":
                return mk("product", args[0].a[0])
            return mk("product", mk("cat", *[mk("yield", TRUE, self.frz(a, st)) for a in args]))
        if n == "itertools.combinations" and args[1].op == "c" and args[1].a[1] == 2:
            return mk("comb2", self.cread(self.freeze(args[0], st), st))
        if n == "itertools.chain":
            if len(args) == 1 and args[0].op == "star":
                return self.flatten(args[0].a[0], st)
            return self.alloc(st, Obj("list", None, seq(*[self.elements(a, st) for a in args]), None, None, None))
        if n == "itertools.chain.from_iterable":
            return self.flatten(args[0], st)
        if n == "itertools.starmap":
            out = self.alloc(st, Obj("list", None, SEQ0, None, None, None))

            def body(x, s):
                self.note("starmap", node)

            self.iterate(args[1], st, body, node)
            return out
        if n.startswith("operator."):
            o = n.split(".")[1]
            ops = {"mul": ast.Mult, "add": ast.Add, "sub": ast.Sub, "truediv": ast.Div, "or_": ast.BitOr,
                   "and_": ast.BitAnd}
            if o in ops and len(args) == 2:
                return self.binop(ops[o](), args[0], args[1], st, node)
            if o == "itemgetter" or o == "attrgetter":
                return mk("xcall", n, mk("tuple", *args))
            if o == "getitem":
                return self.getitem(args[0], args[1], st)
            if o in ("eq",):
                return self.compare(ast.Eq(), args[0], args[1], st)
        if n == "functools.partial":
            return mk("partial", args[0], mk("tuple", *args[1:]))
        if n == "collections.defaultdict":
            return self.alloc(st, Obj("dict", None, SEQ0, None, None, None)) if not args else \
                self.defaultdict(args, st)
        if n in ("collections.OrderedDict",):
            return self.b_dict(args, kw, st, node)
        if n in ("collections.deque",):
            return self.b_list(args, kw, st, node)
        if n in ("collections.namedtuple",):
            return mk("namedtuple", "local")
        if n == "copy.deepcopy":
            a = [self.frz(x, st) for x in args]
            # what is copied is the object as it is now
            vers = []
            for c in sorted(st.ver):
                if c.startswith(("f:", "c:")) and st.ver[c] is not NONE:
                    vers.append(mk("verof", c, st.ver[c]))
            return mk("xcall", "copy.deepcopy", mk("tuple", *a), mk("tuple", *vers))
        if n == "json.load":
            return mk("xcall", "json.loads", mk("tuple", mk("fileread", self.frz(args[0], st))), self.kwt(kw, st))
        if n == "json.dump":
            v = mk("xcall", "json.dumps", mk("tuple", self.frz(args[0], st)), self.kwt(kw, st))
            self.emit(st, mk("eff", "write", self.frz(args[1], st), v), ["io"])
            return NONE
        if any(n.startswith(p) for p in IGNORED_EXT):
            return mk("xcall", n, mk("tuple"), mk("tuple"))
        a = [self.frz(x, st) for x in args]
        if n in ("numpy.dot", "numpy.matmul") and len(a) == 2 and not kw:
            return mk("mcall", a[0], "dot", mk("tuple", a[1]), mk("tuple"))
        if n == "numpy.cumsum" and len(a) == 1 and not kw:
            x = a[0] if a[0].op in ("xcall", "mcall") else mk("xcall", "numpy.array", mk("tuple", a[0]), mk("tuple"))
            return mk("mcall", x, "cumsum", mk("tuple"), mk("tuple"))
        if n == "numpy.transpose" and len(a) == 1 and not kw:
            return mk("attr", a[0], "T")
        k = self.kwt(kw, st)
        if any(n.startswith(p) for p in self.RNG):
            v = st.ver.get("rng")
            val = mk("xcall", n, mk("tuple", *a), k, mk("tuple", v if v is not None else NONE))
            self.emit(st, mk("eff", "rng", n, mk("tuple", *a), k), ["rng"])
            return val
        if n in ("networkx.descendants", "networkx.ancestors") or n.startswith("networkx.algorithms.dag.") and n.endswith(("descendants", "ancestors")):
            a = [self.vnx(x, st) if self.typ(x) == "nx" else x for x in a]
            return self.alloc(st, Obj("set", None, as_splice(mk("xcall", n, mk("tuple", *a), k)), None, None, None))
        if n.startswith("networkx."):
            a = [self.vnx(x, st) if self.typ(x) == "nx" else x for x in a]
            if n in ("networkx.DiGraph", "networkx.Graph"):
                self.ngraph = getattr(self, "ngraph", 0)
                return mk("xcall", n, mk("tuple", *a), k)
        return mk("xcall", n, mk("tuple", *a), k)

    def defaultdict(self, args, st):
        f = args[0]
        return mk("xcall", "collections.defaultdict", mk("tuple", self.freeze(f, st) if f.op != "clo" else self.lam(f, st)), mk("tuple"))

    def reduce(self, args, st, node):
        f = args[0]
        if len(args) > 2:
            # what a loop over the elements leaves behind
            fid0 = self.fid
            fid = self.new_frame(st, fid0, st.frames[fid0]["$func"])
            st.frames[fid]["$acc"] = args[2]
            self.fid = fid

            def body(x, s):
                s.frames[fid]["$acc"] = self.call_value(f, [s.frames[fid]["$acc"], x], {}, s, node)

            try:
                self.iterate(args[1], st, body, node)
                return st.frames[fid]["$acc"]
            finally:
                self.fid = fid0
        lam = self.lam(f, st, 2)
        s = self.freeze(self.elements(args[1], st), st)
        init = self.freeze(args[2], st) if len(args) > 2 else None
        x, y = _mk("b", (0, 0)), _mk("b", (0, 1))
        if lam.op == "lam":
            b = lam.a[0]
            if b is mk("mul", x, y):
                r = prod_stream(s)
                return mk("mul", init, r) if init is not None else r
            if b is mk("add", x, y):
                r = sum_stream(s)
                return mk("add", init, r) if init is not None else r
        return mk("reduce", lam, mk("cat", s), init if init is not None else NONE)


# Parameters of library functions and what they are when they are not given.
NO = object()
USUAL = {
    "numpy.random.uniform": (("low", 0.0), ("high", 1.0), ("size", None)),
    "numpy.random.normal": (("loc", 0.0), ("scale", 1.0), ("size", None)),
    "numpy.random.random": (("size", None),),
    "numpy.random.randint": (("low", NO), ("high", None), ("size", None)),
    "numpy.random.seed": (("seed", None),),
    "numpy.linalg.inv": (("a", NO),),
    "numpy.sqrt": (("x", NO),),
    "numpy.dot": (("a", NO), ("b", NO)),
    "numpy.cumsum": (("a", NO), ("axis", None)),
    "numpy.array": (("object", NO),),
    "pandas.Series": (("data", None),),
    "networkx.all_simple_paths": (("G", NO), ("source", NO), ("target", NO), ("cutoff", None)),
    "networkx.shortest_path": (("G", NO), ("source", None), ("target", None)),
    "networkx.has_path": (("G", NO), ("source", NO), ("target", NO)),
    "networkx.descendants": (("G", NO), ("source", NO)),
    "networkx.ancestors": (("G", NO), ("source", NO)),
    "networkx.topological_sort": (("G", NO),),
    "networkx.is_connected": (("G", NO),),
    "networkx.is_directed_acyclic_graph": (("G", NO),),
    "scipy.stats.dirichlet.rvs": (("alpha", NO), ("size", 1), ("random_state", None)),
    "json.loads": (("s", NO),),
    "json.load": (("fp", NO),),
    "copy.deepcopy": (("x", NO), ("memo", None)),
    "copy.copy": (("x", NO),),
    "bisect.bisect_right": (("a", NO), ("x", NO), ("lo", 0), ("hi", None)),
    "bisect.bisect": (("a", NO), ("x", NO), ("lo", 0), ("hi", None)),
    "bisect.bisect_left": (("a", NO), ("x", NO), ("lo", 0), ("hi", None)),
}
LEFT_OUT = {
    "json.dumps": {"indent": None, "sort_keys": False, "ensure_ascii": True, "skipkeys": False, "check_circular": True,
                   "allow_nan": True, "cls": None, "separators": None, "default": None},
}
LEFT_OUT["json.dump"] = LEFT_OUT["json.dumps"]


def usual_args(n, args, kw):
    """The arguments of a library call by position, without those that say what holds anyway."""
    out = LEFT_OUT.get(n)
    if out:
        return args, {k: v for k, v in kw.items() if not (k in out and v is const(out[k]))}
    ps = USUAL.get(n)
    if not ps or any(a.op == "star" for a in args) or "**" in kw or len(args) > len(ps):
        return args, kw
    names = [k for k, _ in ps]
    if any(k not in names for k in kw):
        return args, kw
    full = list(args) + [None] * (len(ps) - len(args))
    for k, v in kw.items():
        i = names.index(k)
        if full[i] is not None:
            return args, kw
        full[i] = v
    for i, (_, d) in enumerate(ps):
        if full[i] is None and d is not NO:
            full[i] = const(d)
    if any(a is None for a in full):
        return args, kw
    while full and ps[len(full) - 1][1] is not NO and full[-1] is const(ps[len(full) - 1][1]):
        full.pop()
    if n == "numpy.random.randint" and len(full) == 1:
        full = [ZERO, full[0]]
    return full, {}


def inner_only(p):
    """Steps that only change containers held in containers, not which containers these are."""
    if p.op == "seq":
        return all(inner_only(x) for x in p.a)
    if p.op in ("do", "for"):
        return inner_only(p.a[1])
    return p.op == "eff" and isinstance(p.a[1], T) and p.a[1].op == "item" and p.a[0] in INNER


ALIASES = {
    "bisect.bisect": "bisect.bisect_right", "bisect.insort": "bisect.insort_right", "networkx.topological_sort": "networkx.topological_sort",
    "numpy.product": "numpy.prod", "numpy.absolute": "numpy.abs", "numpy.random.random_sample": "numpy.random.random",
    "numpy.concat": "numpy.concatenate", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.row_stack": "numpy.vstack",
}
INNER = {"add", "append", "del", "delx", "discard", "setitem", "pop", "clear", "update", "extend"}


def unversion_places(p, v):
    """Steps with the places they change taken as they were, where what holds them is v."""
    if p.op in ("seq", "do", "for"):
        return rebuild_steps(p, lambda x: unversion_places(x, v))
    a = p.a[1]
    if a.a[0].op == "v" and a.a[0].a[1] is v:
        return mk("eff", p.a[0], mk("item", a.a[0].a[0], *a.a[1:]), *p.a[2:])
    return p


def rebuild_steps(p, f):
    if p.op == "seq":
        return seq(*[f(x) for x in p.a])
    return mk(p.op, p.a[0], f(p.a[1]))


def _fails(g, lits):
    for a, val in lits:
        g = assume(g, a, val)
    return g is FALSE


# methods of containers, texts and graphs, which may be handed around as functions
PLAIN_METHODS = {
    "get", "append", "add", "extend", "discard", "remove", "pop", "update", "setdefault", "__getitem__", "__contains__", "index", "count",
    "strip", "lower", "upper", "format", "join", "startswith", "endswith", "split", "add_edge", "add_node", "has_edge", "has_node",
    "successors", "predecessors", "remove_edge", "remove_node", "write", "dot", "issubset", "issuperset", "intersection", "union", "difference",
}


def width(t):
    """How many members a tuple, or each of the tuples that it may be, has."""
    if t.op == "ite":
        n = width(t.a[1])
        return n if n is not None and n == width(t.a[2]) else None
    return len(t.a) if t.op == "tuple" else None


def each(t, i):
    return ite(t.a[0], each(t.a[1], i), each(t.a[2], i)) if t.op == "ite" else t.a[i]


def choice(eff):
    """What decides about the object or the arguments of an operation on a graph."""
    if eff.op != "eff" or eff.a[0] not in ("nx.add_edge", "nx.remove_edge", "nx.add_node", "nx.remove_node"):
        return None
    st = [x for x in eff.a[1:] if isinstance(x, T)]
    while st:
        x = st.pop()
        if x.op == "ite":
            return x.a[0]
        if x.op in ("tuple", "cat", "yield"):
            st.extend(y for y in x.a if isinstance(y, T))
    return None


def chosen(t, c, val):
    """The operation t, when c decides what it is about."""
    if t.op == "ite" and t.a[0] is c:
        return chosen(t.a[1] if val else t.a[2], c, val)
    if t.op in ("eff", "tuple", "cat", "yield"):
        return rebuild(t, lambda x: chosen(x, c, val))
    return t


def ver(old, eff):
    """The history old followed by one step; additions to sets commute."""
    if is_add(eff) and old.op == "ver" and is_add(old.a[1]):
        if old.a[1] is eff:
            return old
        if key(eff) < key(old.a[1]):
            return mk("ver", ver(old.a[0], eff), old.a[1])
    elif eff.op == "do" and old.op == "ver" and old.a[1].op == "do" and eff.a[0] is not TRUE and old.a[1].a[0] is not TRUE \
            and key(eff) < key(old.a[1]) and band(eff.a[0], old.a[1].a[0]) is FALSE:
        # the order of steps which exclude each other is immaterial
        return mk("ver", ver(old.a[0], eff), old.a[1])
    return mk("ver", old, eff)


def merge_ver(c, a, b):
    """The history of a place after a branch: the steps of one side carry the branch's condition already."""
    if a is b:
        return a
    up = []
    z = a
    while True:
        up.append(z)
        if z.op != "ver" or z.a[1].op != "do":
            break
        z = z.a[0]
    steps = []
    z = b
    while z not in up:
        if z.op != "ver" or z.a[1].op != "do":
            return ite(c, a, b)
        steps.append(z.a[1])
        z = z.a[0]
    r = a
    for e in reversed(steps):
        if r.op == "ver" and r.a[1].op == "do":
            m = merge_do(r.a[1], e)
            if m is not None:
                r = mk("ver", r.a[0], m)
                continue
        r = ver(r, e)
    return r


def _steps(v):
    n = 0
    while v.op == "ver":
        n += 1
        v = v.a[0]
    return n if v is NONE or v.op == "bv" else -1


def env_get(st, fid, name):
    return st.frames[fid][name]


def guard_do(s, g):
    if g is TRUE:
        return s
    return guard_stream(s, g)


def inst_at(fornode, k):
    """Body of `for dom {yield v}` at position k (levels or constants only)."""
    v = fornode.a[1].a[1]

    def go(t, d):
        if t.mi <= d:
            return t
        if t.op == "b":
            if t.a[0] == d:
                return k if t.a[1] == 0 else t
            return _mk("b", (t.a[0] - 1, t.a[1])) if t.a[0] > d else t
        args = []
        for i, x in enumerate(t.a):
            if isinstance(x, T):
                dd = d + 1 if (t.op == "for" and i >= 1 or t.op == "lam" or t.op == "fix" and i >= 2) else d
                args.append(go(x, dd))
            else:
                args.append(x)
        return mk(t.op, *args)

    return go(v, 0)


def sum_stream(s):
    if s.op == "seq":
        return mk("add", *[sum_stream(p) for p in s.a]) if s.a else ZERO
    return mk("sum", s)


def prod_stream(s):
    if s.op == "seq":
        return mk("mul", *[prod_stream(p) for p in s.a]) if s.a else ONE
    return mk("prod", s)


def truth_stream(s, negate=False):
    """Stream that yields where an element is true (or false)."""
    if s.op == "yield":
        c = truth(s.a[1])
        return mk("yield", band(s.a[0], bnot(c) if negate else c), TRUE)
    if s.op == "seq":
        ps = [truth_stream(p, negate) for p in s.a]
        return seq(*ps)
    if s.op == "for":
        return mk("for", s.a[0], truth_stream(s.a[1], negate))
    return _mk("tstream", (s, const(negate)))


def nonempty_stream(s):
    return mk("any", truth_stream(_all_true(s)))


def _all_true(s):
    if s.op == "yield":
        return mk("yield", s.a[0], TRUE)
    if s.op == "seq":
        return seq(*[_all_true(p) for p in s.a])
    if s.op == "for":
        return mk("for", s.a[0], _all_true(s.a[1]))
    return s


def first_stream(s):
    if s.op == "yield":
        return s.a[1]
    if s.op == "seq" and s.a:
        return ite(nonempty_stream(s.a[0]), first_stream(s.a[0]), first_stream(seq(*s.a[1:])))
    if s.op == "for":
        return mk("first", s)
    return mk("first", s)


class Loop:
    """Closed forms for what a loop leaves behind."""

    def __init__(self, it, L, dom, inits, N, B, st):
        self.it = it
        self.L = L
        self.dom = dom
        self.inits = inits
        self.N = N
        self.B = B
        self.st = st
        self.renamed = None
        self.settled = ()
        self.R = {}
        for c in inits:
            r = bv(L, it.slot(c))
            self.R[c] = r
        self.byslot = {r.a[1]: c for c, r in self.R.items()}

    # ---------------------------------------------------------------- slots
    def slots_in(self, t):
        out = set()
        if self.L not in t.fv:
            return out
        for x in subterms(t):
            if x.op == "bv" and x.a[0] == self.L and x.a[1] in self.byslot:
                out.add(x.a[1])
        return out

    def step(self, c):
        n = self.N[c]
        if self.B is FALSE:
            return n
        return restrict_any(n, bnot(self.B))

    def stream_init(self, c):
        v = self.inits[c]
        return v

    def closure_slots(self, ts):
        todo = set()
        for t in ts:
            todo |= self.slots_in(t)
        seen = []
        work = sorted(todo)
        while work:
            s = work.pop(0)
            if s in seen:
                continue
            seen.append(s)
            for z in sorted(self.slots_in(self.step(self.byslot[s]))):
                if z not in seen:
                    work.append(z)
        return seen

    def mkfor(self, body, with_stop=False):
        """for-node over the loop, defining the carried variables which body mentions."""
        L = self.L
        extra = [body]
        stop = None
        if with_stop and self.B is not FALSE:
            stop = self.B
            extra.append(stop)
        slots = self.closure_slots(extra)
        dom = self.dom
        if not slots:
            if stop is not None:
                body = seq(_mk("stop", (stop,)), body)
            if body is SEQ0:
                return SEQ0
            return mk("for", dom, close(body, L))
        m, order = self.canon_slots(slots)
        inits = [self.it.freeze(self.inits[self.byslot[s]], self.st) for s in order]
        steps = [subst(self.step(self.byslot[s]), m) for s in order]
        body = subst(body, m)
        parts = [_mk("steps", tuple(steps))]
        if stop is not None:
            parts.append(_mk("stop", (subst(stop, m),)))
        d = mk("loopdom", dom, mk("tuple", *inits))
        return mk("for", d, close(seq(*parts, body), L))

    def canon_slots(self, slots):
        L = self.L
        hole = _mk("hole", ())
        mask = {bv(L, s): hole for s in self.byslot}
        sig = {}
        for s in slots:
            c = self.byslot[s]
            i = self.it.freeze(self.inits[c], self.st)
            sig[s] = (key(i), key(close(subst(self.step(c), mask), L)))
        order = sorted(slots, key=lambda s: sig[s])
        m = {bv(L, s): bv(L, ("k", i)) for i, s in enumerate(order)}
        return m, order

    # ---------------------------------------------------------------- stops
    def anystop(self):
        if self.B is FALSE:
            return FALSE
        if self.dom.op == "forever":
            return TRUE
        if not self.slots_in(self.B):
            return mk("any", mk("for", self.dom, close(mk("yield", self.B, TRUE), self.L)))
        return mk("any", self.mkfor(mk("yield", self.B, TRUE)))

    def first(self, B, v):
        """Value of v at the first iteration where B holds."""
        v = restrict_any(v, B)
        # constant leaves need no search
        if self.L not in v.fv:
            return v
        if v.op == "ite" and self.L not in v.a[0].fv:
            return ite(v.a[0], self.first(B, v.a[1]), self.first(B, v.a[2]))
        if v.op == "ite" and not any(self.slots_in(x) for x in (v, B)):
            # leaves separated: which leaf is taken at the first stop
            pass
        return mk("first", self.mkfor(mk("yield", B, v)))

    # ---------------------------------------------------------------- results
    def final(self, c, n, anyB):
        R = self.R[c]
        init = self.inits[c]
        streamy = c[0] in ("h", "l")
        rr = _mk("rseg", (R,)) if streamy else R
        if n is rr:
            return init
        if self.dom.op == "forever":
            return self.generic(c, n, streamy)
        if self.B is FALSE:
            return self.full(c, n, streamy, init)
        if c in self.settled:
            nb = restrict_any(n, self.B)
            if not streamy:
                return ite(anyB, self.first(self.B, nb), init)
            return seq(guard_stream(as_splice(self.first(self.B, mk("cat", nb))), anyB), guard_stream(init, bnot(anyB)))
        nf = restrict_any(n, bnot(self.B))
        nb = restrict_any(n, self.B)
        full = self.full(c, nf, streamy, init, stepped=True)
        if streamy:
            if nb is rr and nf is rr:
                return init
            brk = seq(_mk("taken", (self.mkfor(seq(_mk("stop", (self.B,)), _mk("exit", (nb,)), _mk("steps1", (nf,)))), init)))
            full2 = full
            return self.it.merge_stream(anyB, brk, full2)
        if nb is R:
            if nf is R:
                return init
            brk = self.generic(c, n, streamy, exitv=nb)
        elif not self.slots_in(nb):
            brk = self.first(self.B, nb)
        else:
            brk = self.generic(c, n, streamy, exitv=nb)
        return ite(anyB, brk, full)

    def full(self, c, n, streamy, init, stepped=False):
        R = self.R[c]
        L = self.L
        if streamy:
            rr = _mk("rseg", (R,))
            if n is rr:
                return init
            ps = n.a if n.op == "seq" else (n,)
            if ps and ps[0] is rr and not any(R in set(subterms(p)) for p in ps[1:]):
                s = seq(*ps[1:])
                return seq(init, self.mkfor(s))
            if not any(R in set(subterms(p)) for p in ps):
                return self.generic(c, n, streamy)
            return self.generic(c, n, streamy)
        if n is R:
            return init
        if not mentions_t(n, R):
            if L not in n.fv:
                d = mk("nonempty", self.dom)
                return ite(d, n, init)
            return mk("last", self.mkfor(mk("yield", TRUE, n)), self.it.freeze(init, self.st))
        # gated: leaves R / R + e / R * e / independent
        leaves = []

        def walk(t, g):
            if t.op == "ite" and not mentions_t(t.a[0], R):
                walk(t.a[1], band(g, t.a[0]))
                walk(t.a[2], band(g, bnot(t.a[0])))
            else:
                leaves.append((g, t))

        walk(n, TRUE)
        kinds = set()
        items = []
        for g, t in leaves:
            if t is R:
                continue
            if t.op == "add" and R in t.a and list(t.a).count(R) == 1:
                rest = [z for z in t.a if z is not R]
                if not any(mentions_t(z, R) for z in rest):
                    kinds.add("add")
                    items.append((g, mk("add", *rest) if len(rest) > 1 else rest[0]))
                    continue
            if t.op == "mul" and R in t.a and list(t.a).count(R) == 1:
                rest = [z for z in t.a if z is not R]
                if not any(mentions_t(z, R) for z in rest):
                    kinds.add("mul")
                    items.append((g, mk("mul", *rest) if len(rest) > 1 else rest[0]))
                    continue
            if t.op == "cat" and t.a and _identity_stream(t.a[0]) is R and not any(mentions_t(z, R) for z in t.a[1:]):
                kinds.add("cat")
                items.append((g, seq(*t.a[1:])))
                continue
            if t.op == "fmt" and t.a and t.a[0] is R and not any(mentions_t(z, R) for z in t.a[1:]):
                kinds.add("fmt")
                items.append((g, mk("fmt", *t.a[1:])))
                continue
            if not mentions_t(t, R):
                kinds.add("set")
                items.append((g, t))
                continue
            kinds.add("other")
        if kinds == {"add"}:
            s = seq(*[mk("yield", g, v) for g, v in items])
            r = mk("add", self.fr(init), sum_stream_one(self.mkfor(s)))
            return r
        if kinds == {"mul"}:
            s = seq(*[mk("yield", g, v) for g, v in items])
            return mk("mul", self.fr(init), mk("prod", self.mkfor(s)))
        if kinds == {"cat"}:
            s = seq(*[guard_stream(v, g) for g, v in items])
            i = self.fr(init)
            return mk("cat", as_splice(i), self.mkfor(s))
        if kinds == {"fmt"}:
            s = seq(*[mk("yield", g, v) for g, v in items])
            return mk("fmt", self.fr(init), mk("join", const(""), mk("cat", self.mkfor(s))))
        if kinds == {"set"}:
            vals = {v for _, v in items}
            g = FALSE
            for gg, _ in items:
                g = bor(g, gg)
            if not self.slots_in(g) and all(L not in v.fv for v in vals):
                if len(vals) == 1:
                    v = items[0][1]
                    c2 = mk("any", mk("for", self.dom, close(mk("yield", g, TRUE), L)))
                    return ite(c2, v, init)
            s = seq(*[mk("yield", gg, v) for gg, v in items])
            return mk("last", self.mkfor(s), self.fr(init))
        # booleans: R and c / R or c
        if is_boolish(n, R):
            n1 = assume(n, R, True) if R.op in () else subst(n, {truth(R): TRUE, R: TRUE})
            n0 = subst(n, {truth(R): FALSE, R: FALSE})
            if n0 is FALSE and not mentions_t(n1, R):  # conjunction
                c2 = mk("any", self.mkfor(mk("yield", bnot(n1), TRUE)))
                return band(truth(self.fr(init)), bnot(c2)) if init is not TRUE else bnot(c2)
            if n1 is TRUE and not mentions_t(n0, R):
                c2 = mk("any", self.mkfor(mk("yield", n0, TRUE)))
                return bor(truth(self.fr(init)), c2) if init is not FALSE else c2
        return self.generic(c, n, streamy)

    def fr(self, t):
        return self.it.freeze(t, self.st)

    def generic(self, c, n, streamy, exitv=None):
        """No closed form: the least fixpoint, written down."""
        slots = self.closure_slots([self.R[c], n, self.B])
        slot = self.R[c].a[1]
        if slot not in slots:
            slots.append(slot)
        m, order = self.canon_slots(slots)
        inits = [self.fr(self.inits[self.byslot[s]]) for s in order]
        steps = [subst(self.step(self.byslot[s]), m) for s in order]
        me = order.index(slot)
        ex = []
        if self.B is not FALSE:
            ex = [subst(self.B, m), subst(exitv if exitv is not None else restrict_any(n, self.B), m)]
        body = close(_mk("tuple", tuple([_mk("steps", tuple(steps))] + ex)), self.L)
        r = mk("fix", me, mk("tuple", self.dom, *inits), body)
        if streamy:
            return _mk("fixs", (r,))
        return r

    def exitval(self, v):
        b = bnot(noret_cond(v))
        v = restrict_any(v, b)
        if self.L not in v.fv:
            return v
        slots = self.closure_slots([v, self.B])
        m, order = self.canon_slots(slots)
        inits = [self.fr(self.inits[self.byslot[s]]) for s in order]
        steps = [subst(self.step(self.byslot[s]), m) for s in order]
        body = close(_mk("tuple", (_mk("steps", tuple(steps)), subst(self.B, m), subst(v, m))), self.L)
        return mk("fix", "exit", mk("tuple", self.dom, *inits), body)

    def exitcond(self, b):
        slots = self.closure_slots([b, self.B])
        m, order = self.canon_slots(slots)
        inits = [self.fr(self.inits[self.byslot[s]]) for s in order]
        steps = [subst(self.step(self.byslot[s]), m) for s in order]
        body = close(_mk("tuple", (_mk("steps", tuple(steps)), subst(self.B, m), subst(b, m))), self.L)
        return mk("atomb", "exit", mk("fix", "exit", mk("tuple", self.dom, *inits), body))

    def final_new(self, v):
        """A variable first assigned in the loop, afterwards."""
        if self.L not in v.fv:
            return v
        if self.dom.op == "forever":
            return mk("opaque", "while-local")
        return mk("last", self.mkfor(mk("yield", TRUE, v)), UNDEF)

    # ---------------------------------------------------------------- while -> for
    def as_for(self, effs, ret):
        for c, r in self.R.items():
            n = self.N[c]
            if c[0] != "v":
                continue
            i = self.inits[c]
            # stop condition: not (r < bound)
            if not is_num(i) and i.op not in ("len", "p"):
                pass
            B = self.B
            lt = None
            # B as a BDD: atom lt(r, bound) false => stop
            for x in bool_atoms(B):
                if x.op == "lt" and x.a[0] is r and self.L not in x.a[1].fv:
                    if assume(B, x, False) is TRUE:
                        lt = x
                        break
            if lt is None:
                continue
            nn = restrict_any(n, lt)
            restB = assume(B, lt, True)
            if nn is not mk("add", r, ONE):
                nn2 = restrict_any(nn, bnot(restB))
                if nn2 is not mk("add", r, ONE):
                    continue
            bound = lt.a[1]
            lp = Loop.__new__(Loop)
            dom = mk("range", self.fr(i), bound)
            s = as_splice(dom)
            if s.op != "for":
                continue
            gd, elem = open_(s.a[1], self.L).a
            m = {r: elem}
            lt2 = subst(lt, m)

            def sub(t):
                u = reindex(deep_true(subst(t, m), lt2), elem, self.it)
                return deep_assume(u, gd, True) if gd is not TRUE else u

            lp.it, lp.L, lp.st = self.it, self.L, self.st
            lp.dom = s.a[0]
            lp.inits = {k: v for k, v in self.inits.items() if k != c}
            lp.N = {k: sub(v) for k, v in self.N.items() if k != c}
            if gd is not TRUE:
                for k, v in lp.N.items():
                    if k[0] in ("h", "l"):
                        lp.N[k] = self.it.merge_stream(gd, v, _mk("rseg", (self.R[k],)))
                    else:
                        lp.N[k] = ite(gd, v, self.R[k])
            lp.gd = gd
            lp.R = {k: v for k, v in self.R.items() if k != c}
            lp.byslot = {v.a[1]: k for k, v in lp.R.items()}
            lp.sub = sub
            lp.apply = lambda d: {cl: [guard_do(sub(e), gd) for e in es] for cl, es in d.items()}
            lp.retsub = lambda t: ite(gd, sub(t), NORET)
            lp.renamed = c
            lp.brk_rest = band(gd, sub(assume(self.brk_only(ret), lt, True)))
            lp.B = lp.brk_rest
            # what the counter itself is afterwards
            self.it.set_cell(self.st, c, self.after_counter(i, bound, lp))
            _orig_final = lp.final
            lp.counter = c
            lp.final = lambda cc, nn, anyB: (
                self.after_counter(i, bound, lp) if cc == c else _orig_final(cc, lp.N[cc], anyB)
            )
            lp.N[c] = n
            return lp
        return None

    def after_counter(self, i, bound, lp):
        return mk("max2", self.fr(i), bound)

    def brk_only(self, ret):
        b_ret = bnot(noret_cond(ret))
        return band(self.B, bnot(b_ret)) if b_ret is not FALSE else self.B


def reindex(t, elem, it):
    """Subscripts at the position of the loop, now that the position is known to be one."""
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        if not any(isinstance(x, T) for x in t.a):
            r = t
        else:
            r = rebuild(t, go)
            if r.op == "item" and (r.a[1] is elem or r.a[1].op == "bv" and r.a[1].a[1] == 0):
                r = it.index(r.a[0], r.a[1])
        memo[t] = r
        return r

    return go(t)


def deep_true(t, lit):
    from .terms import deep_assume

    if is_const(lit):
        return t
    return deep_assume(t, lit, True)


def bool_atoms(b):
    out = []
    st = [b]
    while st:
        x = st.pop()
        if x.op == "ite":
            out.append(x.a[0])
            st += [x.a[1], x.a[2]]
        elif is_bool(x) and x.op != "c":
            out.append(x)
    return out


def is_boolish(n, R):
    leaves = []

    def w(t):
        if t.op == "ite":
            w(t.a[1])
            w(t.a[2])
        else:
            leaves.append(t)

    w(n)
    return all(is_bool(l) or l is R for l in leaves)


def sum_stream_one(s):
    return mk("sum", s) if s is not SEQ0 else ZERO


def mentions_t(t, r):
    if r.op == "bv" and r.a[0] not in t.fv:
        return False
    return mentions(t, lambda x: x is r)


def restrict_any(t, g):
    if g is TRUE or g is FALSE:
        return t
    if t.op in ("seq", "yield", "for", "do"):
        if t.op == "seq":
            return seq(*[restrict_any(x, g) for x in t.a])
        if t.op == "yield":
            gg = restrict(t.a[0], g)
            if band(g, bnot(t.a[0])) is FALSE:
                gg = TRUE
            return mk("yield", gg, restrict(t.a[1], g))
        return restrict(t, g)
    return restrict(t, g)
