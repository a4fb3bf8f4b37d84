"""Decides what a difference between a function and its contract means.

A difference is a violation when the two summaries part in something a rewriting of the code could not change: a
constant, a field, a call, a comparison, a guard, an effect, an operand.  When they differ in how a loop or a
container is expressed and in nothing else, or when the analysis met a construct it has no model for, nothing is
decided.
"""

from collections import Counter

from .compare import differing, parts, tdiff
from .terms import T, is_bool, key, rebuild, shift, show, stream, mk, _bound

# how elements are enumerated and accumulated
LOOPY = {
    "for", "fix", "fixs", "forever", "steps", "steps1", "stop", "loopdom", "streamdom", "first", "best", "taken",
    "popped", "after", "range", "range3", "range_of", "rank", "enum", "zip", "reduce", "itself", "product", "rseg", "slice",
    "take", "while", "ones", "sum", "prod", "any", "pos", "guarded", "values", "keys", "items", "rev", "without", "last",
}
BLIND = {"opaque", "mutby", "noret", "havoc"}


def feats(t):
    """What is said by a term, apart from how it iterates."""
    out = Counter()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, T):
            continue
        if x in seen:
            continue
        seen.add(x)
        o = x.op
        if o == "c":
            out[("const", x.a)] += 1
        elif o in ("attr", "field"):
            out[("attr", [y for y in x.a if isinstance(y, str)][-1] if any(isinstance(y, str) for y in x.a) else "")] += 1
        elif o in ("call", "xcall", "mcall", "new", "cls", "member", "fn", "isinst"):
            n = x.a[0]
            out[(o, n if isinstance(n, str) else getattr(n, "op", str(n)))] += 1
        elif o == "eff":
            out[("eff", x.a[0], *[y for y in x.a[1:] if isinstance(y, str)][:1])] += 1
        else:
            out[("op", o)] += 1
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
    return out


def ops_of(t, which):
    out = Counter()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in which:
            out[x.op] += 1
        st.extend(y for y in x.a if isinstance(y, T))
    return out


def size(t):
    return t.size if isinstance(t, T) else 1


class Finding:
    __slots__ = ("q", "part", "a", "b", "kind")

    def __init__(self, q, part, a, b, kind):
        self.q, self.part, self.a, self.b, self.kind = q, part, a, b, kind

    def aliasing(self):
        """One side is a fresh container where the other is shared."""
        fresh = ("cat", "set", "dict", "sorted", "setop", "new")
        a, b = self.a, self.b
        return isinstance(a, T) and isinstance(b, T) and (a.op in fresh) != (b.op in fresh)


def describe(x):
    def s(v):
        return "nothing" if v is None else show(v)[:600] if isinstance(v, T) else str(v)[:600]

    return f"{x.part}: required {s(x.a)}, found {s(x.b)} ({x.kind})"


def pair_kind(x, y):
    """violation / undecided for one pair of differing values, with the reason."""
    if not isinstance(x, T) or not isinstance(y, T):
        return "violation", "signature"
    blind = ops_of(y, BLIND) - ops_of(x, BLIND)
    if blind:
        return "undecided", "not modelled: " + ",".join(blind)
    lx, ly = ops_of(x, LOOPY), ops_of(y, LOOPY)
    if lx == ly:
        return "violation", "same loops"
    return "undecided", "loops " + str(dict(lx - ly)) + str(dict(ly - lx))


def givens(P):
    """The fields that a constructor sets to a constant, with the constant."""
    import ast

    out = set()
    for f in P.funcs.values():
        if f.name == "__init__":
            for n in f.node.body:
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                    out |= {(t.attr, n.value.value) for t in n.targets if isinstance(t, ast.Attribute)}
    return out


def mentioned(nodes, given=()):
    """The fields, classes, texts, numbers and keywords a piece of source mentions."""
    import ast
    import re

    out = set()
    called = set()
    skip = {id(m) for top in nodes for n in ast.walk(top) if isinstance(n, (ast.Raise, ast.Assert)) for m in ast.walk(n)}
    if given:
        # giving a field what its constructor gave it may say nothing
        skip |= {id(t) for top in nodes for n in ast.walk(top) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant)
                 for t in n.targets if isinstance(t, ast.Attribute) and (t.attr, n.value.value) in given}
    for top in nodes:
        for n in ast.walk(top):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Call):
                called.add(id(n.func))
                for k in n.keywords:
                    if k.arg not in (None, "key", "default", "start", "reverse") and not (isinstance(k.value, ast.Constant) and k.value.value in (None, False)):
                        out.add(("keyword", k.arg))
                if isinstance(n.func, ast.Name) and n.func.id[:1].isupper():
                    out.add(("class", n.func.id))
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, str):
                    out |= {("text", w) for w in re.findall(r"[A-Za-z]{2,}", v)}
                elif isinstance(v, (int, float)) and not isinstance(v, bool) and v not in (0, 1, 2, -1):
                    out.add(("number", float(v)))
            elif isinstance(n, ast.Attribute) and not (n.attr.startswith("__") and n.attr.endswith("__")):
                out.add(("field", n.attr, id(n)))
    return {k[:2] for k in out if k[0] != "field" or k[2] not in called}


def strong(C, q):
    """What one text says and the other does not, counting what each says through functions only it calls."""
    v = C.verdicts[q]
    f, g = C.spec.P.funcs[q], C.P.funcs[q]
    ca, cb = v.a.called | v.a.inlined, v.b.called | v.b.inlined
    new = [C.P.funcs[x] for x in C.new]

    def closure(P, qs):
        seen, st = set(), list(qs)
        while st:
            c = st.pop()
            if c in seen or c not in P.funcs:
                continue
            seen.add(c)
            s = C.spec.sums.get(c)
            if s and s[0] is not None:
                st.extend(s[1].called | s[1].inlined)
        return [P.funcs[c].node for c in seen]

    from .edits import clean

    known = {x.split(":")[1].split(".")[-1] for P in (C.spec.P, C.P) for x in P.funcs}

    given = givens(C.spec.P)

    def said(ns):
        # an operation named without being called
        return {k for k in mentioned(ns, given) if k[0] != "field" or k[1] not in known}

    fa, fb = said([clean(f.node)]), said([clean(g.node)])
    xa = said([clean(n) for n in closure(C.spec.P, ca - cb)])
    xb = said([clean(n) for n in closure(C.P, cb - ca) + [h.node for h in new]])
    return fa - fb - xb, fb - fa - xa


def loops(x):
    """The ways of iterating a piece of source uses."""
    import ast

    out = Counter()
    for top in x if isinstance(x, list) else [x]:
        if not isinstance(top, ast.AST):
            continue
        for n in ast.walk(top):
            if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                out[type(n).__name__] += 1
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    "range", "enumerate", "zip", "map", "filter", "next", "iter", "reduce"):
                out[n.func.id] += 1
    return out


class Local:
    """Whether the text of a function was edited in few and small places only."""

    def __init__(self, C, q):
        self.ok = self.part = False
        self.empty = True
        self.regions = []
        self.rewritten = False
        f, g = C.spec.P.funcs.get(q), C.P.funcs.get(q)
        if f is None or g is None:
            return
        from .edits import Edit, dump, nodes

        e = Edit(f.node, g.node)
        self.empty = not e.regions
        self.regions = e.text()
        w = 0
        names = set()
        for a, b in e.regions:
            n = nodes(a) + nodes(b)
            if not a or not b:
                n = min(n, 8)
            elif not isinstance(a, list) and not isinstance(b, list):
                # part of what was there, or what was there with something around it
                da, db = dump(a), dump(b)
                if da in db or db in da:
                    n = abs(nodes(a) - nodes(b))
            w += n
        import ast

        new = {x.split(":")[1].split(".")[-1] for x in C.new}
        for n in ast.walk(e.g):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if nm in new:
                names.add(nm)
        for x in C.new:
            if x.split(":")[1].split(".")[-1] in names:
                w += nodes(C.P.funcs[x].node)
        self.weight, self.total, self.count = w, e.total, len(e.regions)
        # a loop written another way
        self.rewritten = any(loops(a) != loops(b) for a, b in e.regions)
        # some of the function was left as it was, or there is little of it
        self.part = len(e.regions) <= 3 and w <= 0.7 * e.total or e.total <= 12
        self.ok = 0 < len(e.regions) <= 5 and w <= max(min(16, 0.7 * e.total), 0.35 * e.total)


def judge(C, q):
    """(status, findings, reason) for a function whose summary differs from its contract."""
    v = C.verdicts[q]
    if v.status in ("same", "absorbed", "gone", "inherited"):
        return v.status, [], ""
    if v.status == "unknown":
        return "undecided", [], v.why
    bn = Counter(n[0] for n in v.b.opaque_notes)
    an = Counter(n[0] for n in v.a.opaque_notes)
    if bn - an:
        return "undecided", [], "not modelled: " + ", ".join(map(str, bn - an))
    loc = Local(C, q)
    out = []
    why = []
    clear = True
    for part, a, b in v.diffs:
        if not isinstance(a, T) or not isinstance(b, T):
            out.append(Finding(q, part, a, b, "only on one side"))
            continue
        for x, y in tdiff(a, b):
            k, w = pair_kind(x, y)
            why.append(w)
            if k == "violation" or not w.startswith("not modelled"):
                out.append(Finding(q, part, x, y, w))
            if k != "violation":
                clear = False
            if w.startswith("not modelled"):
                return "undecided", [], w
    why = "; ".join(why)
    told = [] if loc.empty else marks(C, q)
    if told:
        return "violation", out, "; ".join(told)
    told = [] if loc.empty else loc.part and vocabulary(C, q) or definite(C, q)
    if loc.ok and loc.rewritten and any(x.kind.startswith("loops") for x in out) and not onesided(out):
        if told:
            return "violation", out, "; ".join(told)
        da, db = strong(C, q)
        if da or db:
            return "violation", out, "lost %s gained %s" % (sorted(map(str, da)), sorted(map(str, db)))
        return "undecided", [], "a loop written another way; " + why
    if loc.ok:
        return "violation", out, "local edit %d/%d/%d %s" % (loc.count, loc.weight, loc.total, why)
    if loc.empty:
        if clear and not culprit(C, q):
            return "violation", out, "text unchanged; " + why
        return "undecided", [], "only through what it uses; " + why
    da, db = strong(C, q)
    if da or db:
        return "violation", out, "lost %s gained %s" % (sorted(map(str, da)), sorted(map(str, db)))
    if told:
        return "violation", out, "; ".join(told)
    if loc.count <= 8 and loc.weight <= 0.15 * loc.total and clear and unlike(v):
        return "violation", out, "a small part of a function, not written in an equivalent way; " + why
    if loc.total <= 45 and clear and unlike(v):
        return "violation", out, "a small function, not written in an equivalent way; " + why
    return "undecided", [], "large edit %d/%d/%d; " % (loc.count, loc.weight, loc.total) + why


def onesided(out):
    """Whether every difference only adds a way of iterating to what is required, or only leaves one out."""
    for x in out:
        if x.kind.startswith("loops"):
            lx, ly = ops_of(x.a, LOOPY), ops_of(x.b, LOOPY)
            if lx - ly and ly - lx or set((lx - ly) + (ly - lx)) - PLAIN:
                return False
    return True


PLAIN = {"for", "any", "itself"}


def unlike(v):
    """Whether the summaries differ in more than when what is stored is read."""
    memo = {}
    for part, a, b in v.diffs:
        if not isinstance(a, T) or not isinstance(b, T):
            return True
        if unversioned(a, memo) is not unversioned(b, memo):
            return True
    return False


# what a rewriting of the code has no reason to change: operators, and functions of libraries with a meaning of their own
MARKED = {"pow", "mod", "floordiv", "shl", "shr", "neg", "div", "xor_", "inv", "fmtspec", "join", "fmt", "str"}
MEANING = ("copy.deepcopy", "copy.copy", "numpy.random", "scipy.", "round", "abs", "hash", "id", "math.isclose", "numpy.linalg", "random.")
METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "casefold", "title", "capitalize", "degree", "in_degree", "out_degree",
           "round", "startswith", "swapcase", "dropna", "fillna", "drop_duplicates", "shuffle"}
STREAMS = ("numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "random.Random")


ENUM = {"sorted", "best", "fix", "fixs", "steps", "forever", "first"}


def marks(C, q):
    """Where the two summaries, with what only one side calls expanded, part in more than how they are written."""
    if q not in C.spec.P.funcs or q not in C.P.funcs:
        return []
    ex = frozenset()
    for _ in range(4):
        a, ia = C.A.get(q, ex)
        b, ib = C.B.get(q, ex)
        if a is None or b is None:
            return []
        more = {c for c in (ia.called ^ ib.called) if c != q} - ex
        if not more:
            break
        ex = ex | more
    pa, pb = parts(a), parts(b)
    out = []
    places = lambda p: {k.split(" ", 1)[1][2:] for k in p if k.startswith(("effect c:", "effect f:"))}
    na, nb = places(pa), places(pb)
    for k in sorted(set(pb) - set(pa)):
        if k.startswith(("effect c:", "effect f:")) and k.split(" ", 1)[1][2:] not in na and not k.endswith(":*"):
            out.append("a new " + k)
    for k in sorted(set(pa) - set(pb)):
        if k.startswith(("effect c:", "effect f:")) and k.split(" ", 1)[1][2:] not in nb and not k.endswith(":*"):
            out.append("no " + k)
    ta, tb = terms_of(pa), terms_of(pb)
    fa, fb = said_by(ta), said_by(tb)
    if any(k[1].startswith(STREAMS) for k in fa ^ fb):
        # the same stream of numbers from another generator
        fa, fb = [{k for k in f if not k[1].startswith(("numpy.random", "random."))} for f in (fa, fb)]
    for k in sorted(fb - fa, key=str):
        out.append("new %s %s" % k)
    for k in sorted(fa - fb, key=str):
        out.append("no %s %s" % k)
    xa, xb = [{t.a[0] for t in ts if t.op in ("xcall", "call") and str(t.a[0]).startswith("networkx.") and str(t.a[0]).split(".")[-1].islower()} for ts in (ta, tb)]
    if xa - xb and not xb - xa:
        out.append("no function " + ", ".join(sorted(xa - xb)))
    na, nb = [Counter(t.op for t in ts if t.op in ENUM) for ts in (ta, tb)]
    if na["sorted"] != nb["sorted"] and na["best"] == nb["best"] and (nb["sorted"] > na["sorted"] or not +(nb - na)):
        out.append("sorts %d times where %d are required" % (nb["sorted"], na["sorted"]))
    if any(byid(t) for t in tb) and not any(t.op in ("lt", "min2", "max2", "sorted", "best") for t in ta):
        out.append("which id is smaller matters")
    if any(ends(t) for t in tb) and not any(ends(t) for t in ta):
        out.append("iterates a set")
    if any(t.op in ("first", "taken") for t in tb) and not any(t.op in SEARCH for t in ta):
        out.append("stops at the first that is found")
    for k in sorted(set(pa) & set(pb)):
        if (k == "result" or k.startswith("effect f:")) and isinstance(pa[k], T) and isinstance(pb[k], T) and pa[k] is not pb[k]:
            out += ["%s itself where a copy is required" % show(y)[:100] for x, y in tdiff(pa[k], pb[k]) if copied(x, y)]
    return out


# what looks for one thing among several
SEARCH = {"first", "any", "best", "stop", "guarded", "taken", "in", "subset", "forever", "steps", "steps1", "fix", "fixs", "popped", "rseg", "last"}


def copied(x, y):
    """Whether x is a new container with what is in the container y, which belongs to something else."""
    if not isinstance(x, T) or not isinstance(y, T) or y.op not in ("attr", "v", "p", "item") or x.op not in ("cat", "dict", "set"):
        return False
    if len(x.a) != 1 or x.a[0].op != "for" or x.a[0].a[0] is not y:
        return False
    e = x.a[0].a[1]
    if e.op != "yield" or e.a[0].op != "c" or e.a[0].a[1] is not True:
        return False
    e = e.a[1]
    if x.op == "dict":
        return e.op == "tuple" and len(e.a) == 2 and e.a[1].op == "item" and e.a[1].a[0] is shift(y, 1) and e.a[1].a[1] is e.a[0] and e.a[0].op == "at"
    return e.op == "at" and e.a[0] is shift(y, 1)


def expanded(C, q):
    """The parts of both summaries with what only one side calls expanded."""
    ex = frozenset()
    for _ in range(6):
        a, ia = C.A.get(q, ex)
        b, ib = C.B.get(q, ex)
        if a is None or b is None:
            return None
        more = {c for c in (ia.called ^ ib.called) if c != q} - ex
        if not more:
            return parts(a), parts(b)
        ex = ex | more
    return None


def vocabulary(C, q):
    """Fields, functions and numbers that only one of the two expanded summaries depends on."""
    r = expanded(C, q)
    if r is None:
        return []
    fa, fb = [vocab_of(terms_of(p), q) for p in r]
    return ["new %s %s" % k for k in sorted(fb - fa, key=str)] + ["no %s %s" % k for k in sorted(fa - fb, key=str)]


def vocab_of(ts, q):
    out = set()
    for t in ts:
        if t.op == "attr":
            out.add(("field", t.a[1]))
        elif t.op == "call" and isinstance(t.a[0], str):
            if t.a[0] != q:
                out.add(("call", t.a[0]))
        elif t.op == "c" and isinstance(t.a[1], (int, float)) and not isinstance(t.a[1], bool) and t.a[1] not in (0, 1, 2, -1):
            out.add(("number", t.a[1]))
    return out


# operators under which the operands of two values are compared one by one
SCALAR = {"ite", "eq", "lt", "add", "mul", "div", "max2", "min2", "neg", "c", "member"}
UNCERTAIN = {"rseg", "popped", "fix", "fixs", "steps", "steps1", "loopdom", "streamdom", "stop", "opaque", "taken", "after"}


def unversioned(t, memo):
    r = memo.get(t)
    if r is None:
        r = memo[t] = unversioned(t.a[0], memo) if t.op == "v" else rebuild(t, lambda x: unversioned(x, memo))
    return r


def operands(t):
    st, seen, out = [t], set(), set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in SCALAR:
            st.extend(x.a)
        else:
            out.add(x)
    return out


def certain(t):
    return not ops_of(t, UNCERTAIN)


def definite(C, q):
    """The one place in each part where the summaries differ, when both values there are computed from the same operands
    and are not the same function of them."""
    r = expanded(C, q)
    if r is None:
        return []
    pa, pb = r
    memo = {}
    out = []
    for part in sorted(set(pa) | set(pb)):
        a, b = pa.get(part), pb.get(part)
        if a is b or a == b:
            continue
        if not isinstance(a, T) or not isinstance(b, T):
            return []
        ds = aligned(unversioned(a, memo), unversioned(b, memo))
        if len(ds) != 1:
            return []
        x, y = ds[0]
        if not isinstance(x, T) or not isinstance(y, T) or not certain(x) or not certain(y):
            return []
        p, q = operands(x), operands(y)
        if not p or not (p <= q or q <= p) or not (scalar(x) and scalar(y)) or not apart(x, y, sorted(p | q, key=key)):
            return []
        out.append("%s: %s where %s is required" % (part, show(y)[:200], show(x)[:200]))
    return out


def scalar(t):
    return is_bool(t) or t.op in ("add", "mul", "div", "max2", "min2", "neg", "c", "member") or t.op == "ite" and scalar(t.a[1]) and scalar(t.a[2])


class Unknown(Exception):
    pass


def apart(x, y, atoms):
    """Whether two values differ as functions of their operands."""
    texts = sorted({t.a[1] for z in (x, y) for t in subterms(z) if t.op == "c" and t.a[0] == "s"})
    rnd = 12345
    diff = tried = 0
    for trial in range(400):
        env = {}
        for t in atoms:
            rnd = (rnd * 1103515245 + 12345) % 2**31
            k = rnd >> 8
            if is_bool(t):
                env[t] = bool(k % 2)
            elif t.op == "len":
                env[t] = k % 5
            else:
                dom = [0, 0, 1, 2, 3, 0.5, 0.25, 7] + texts
                env[t] = dom[k % len(dom)]
        try:
            u, v = value(x, env), value(y, env)
        except (Unknown, ZeroDivisionError, TypeError):
            continue
        tried += 1
        diff += u != v and not (isinstance(u, float) and isinstance(v, (int, float)) and abs(u - v) < 1e-9)
    return tried >= 20 and diff >= 0.01 * tried and diff > 0


def subterms(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            st.extend(x.a)


def value(t, env):
    """A scalar term evaluated over values of its operands."""
    if t in env:
        return env[t]
    o, a = t.op, t.a
    if o == "c":
        if a[0] == "n" or a[0] == "b" or a[0] == "s":
            return a[1]
        return t
    if o == "member":
        return t
    if o == "ite":
        return value(a[1] if truth(value(a[0], env)) else a[2], env)
    v = [value(x, env) for x in a]
    if o == "eq":
        return v[0] == v[1]
    if o == "lt":
        return v[0] < v[1]
    if o == "add":
        return sum(v)
    if o == "mul":
        r = 1
        for z in v:
            r *= z
        return r
    if o == "div":
        return v[0] / v[1]
    if o == "neg":
        return -v[0]
    if o in ("max2", "min2"):
        return (max if o == "max2" else min)(v)
    raise Unknown(o)


def truth(v):
    if isinstance(v, T):
        raise Unknown("truth")
    return bool(v)


KEEP = mk("member", "as before", "as before")


def stored_value(e):
    """(where, value) of an effect that stores a value."""
    if e.op == "eff" and isinstance(e.a[-1], T) and e.a[0] in ("setattr", "setitem", "setfield", "set"):
        return e.a[:-1], e.a[-1]
    return None


def aligned(a, b):
    out = []
    seen = set()

    def go(x, y):
        if x is y or (x, y) in seen:
            return
        seen.add((x, y))
        if not isinstance(x, T) or not isinstance(y, T):
            if x != y:
                out.append((x, y))
            return
        if x.op == y.op and x.op in ("yield", "do") and x.a[0] is not y.a[0] and x.a[1] is not y.a[1]:
            # a value under one condition, and another value under another
            u, w = stored_value(x.a[1]), stored_value(y.a[1])
            if u is not None and w is not None and u[0] == w[0]:
                out.append((mk("ite", x.a[0], u[1], KEEP), mk("ite", y.a[0], w[1], KEEP)))
                return
        if x.op in SCALAR or y.op in SCALAR or is_bool(x) or is_bool(y):
            if not (x.op == y.op and x.op in ("any", "tuple")):
                out.append((x, y))
                return
        named = x.op in ("call", "xcall", "mcall")
        if x.op == y.op and len(x.a) == len(y.a) and x.op not in ("c", "p", "b", "bv") and (
                x.a[0] == y.a[0] if named else all(isinstance(p, T) == isinstance(q, T) and (isinstance(p, T) or p == q) for p, q in zip(x.a, y.a))):
            for p, q in zip(x.a, y.a):
                go(p, q)
            return
        out.append((x, y))

    go(a, b)
    return out


def terms_of(p):
    st = [t for t in p.values() if isinstance(t, T)]
    seen = set()
    while st:
        x = st.pop()
        if x not in seen and x.op != "raise":
            seen.add(x)
            st.extend(y for y in x.a if isinstance(y, T))
    return seen


def said_by(ts):
    out = set()
    for t in ts:
        if t.op in MARKED:
            out.add(("operator", t.op))
        elif t.op in ("xcall", "call") and isinstance(t.a[0], str) and t.a[0].startswith(MEANING):
            out.add(("function", t.a[0]))
        elif t.op == "mcall" and t.a[1] in METHODS:
            out.add(("method", t.a[1]))
    return out


def byid(t):
    """Whether t asks which of two ids is the smaller one."""
    return t.op == "lt" and all(isinstance(x, T) and x.op == "attr" and x.a[1] in ("id", "node_id") for x in t.a)


def ends(t):
    return t.op == "for" and isinstance(t.a[0], T) and t.a[0].op in ("set", "setop")


def culprit(C, q):
    """A function with a difference of its own that q's summary depends on."""
    v = C.verdicts[q]
    return any(C.verdicts.get(c) is not None and C.verdicts[c].status in ("differs", "unknown", "gone", "absorbed", "inherited") for c in (v.a.called | v.a.inlined | v.b.called | v.b.inlined) - {q})
