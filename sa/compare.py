"""Compares the functions of a source tree with their contracts, summary by summary."""

import ast
import time

from . import model
from .model import summarise
from .program import Program
from .relax import Relax, applies
from .terms import TRUE, T, deep_assume, key, show


class Side:
    """Summaries of one program, with some of the contract functions expanded into their callers."""

    def __init__(self, P, spec):
        self.P = P
        self.spec = spec
        self.memo = {}

    def get(self, q, expand=frozenset()):
        k = (q, expand)
        if k not in self.memo:
            if not expand and self.P is self.spec.P:
                s = self.spec.sums[q]
            else:
                s = summarise(self.P, self.spec, self.P.funcs[q], expand)
            self.memo[k] = relaxed(q, s)
        return self.memo[k]


def relaxed(q, s):
    """The summary with the ways to read one value identified that the classes keep equal."""
    if s[0] is None or not applies(q):
        return s
    r = Relax(s[1])
    ret, effs, sig = s[0]
    try:
        ret, effs = r(ret), {c: r(e) for c, e in effs.items()}
        if q.endswith(":PathDetector.__find__") and ret.op == "ite" and ret.a[1] is TRUE and ret.a[0].op == "in" and "c:seen" in effs:
            # once it has found the target the search is over: what it had marked by then is read by nobody
            effs["c:seen"] = deep_assume(effs["c:seen"], ret.a[0], False)
        return (ret, effs, sig), s[1]
    except Exception:
        return s


def parts(s):
    """Named parts of a summary."""
    ret, effs, sig = s
    out = {"result": ret, "parameters": sig}
    for c, e in effs.items():
        out["effect " + c] = e
    return out


def same(a, b):
    if a is None or b is None:
        return False
    return a[0] is b[0] and a[1] == b[1] and a[2] == b[2]


def differing(a, b):
    pa, pb = parts(a), parts(b)
    out = []
    for k in sorted(set(pa) | set(pb)):
        if pa.get(k) is not pb.get(k) and pa.get(k) != pb.get(k):
            out.append((k, pa.get(k), pb.get(k)))
    return out


def internal(q):
    n = q.split(":")[1].split(".")[-1]
    return n.startswith("_") and not (n.startswith("__") and n.endswith("__") and n in DUNDER)


DUNDER = {
    "__init__", "__str__", "__repr__", "__eq__", "__hash__", "__copy__", "__deepcopy__", "__lt__", "__len__", "__iter__",
    "__contains__", "__getitem__", "__setitem__", "__enter__", "__exit__", "__call__", "__new__", "__ne__", "__le__",
    "__gt__", "__ge__", "__bool__", "__getattr__", "__setattr__", "__getattribute__", "__del__", "__reduce__",
    "__getstate__", "__setstate__", "__add__", "__mul__", "__sub__", "__missing__", "__format__", "__delattr__",
    "__init_subclass__", "__class_getitem__", "__delitem__", "__next__", "__reversed__", "__getnewargs__", "__bytes__",
    "__int__", "__float__", "__index__", "__radd__", "__iadd__", "__reduce_ex__", "__post_init__", "__slots__",
}


class Verdict:
    __slots__ = ("q", "status", "diffs", "why", "a", "b", "expand")

    def __init__(self, q, status, diffs=(), why="", a=None, b=None, expand=frozenset()):
        self.q, self.status, self.diffs, self.why = q, status, list(diffs), why
        self.a, self.b, self.expand = a, b, expand

    def __repr__(self):
        return f"<{self.q} {self.status} {self.why}>"


def callers_of(side, qs, funcs):
    out = set()
    for q in funcs:
        s, it = side.get(q)
        if s is not None and (it.called & qs or it.inlined & qs):
            out.add(q)
    return out


def calls(s):
    """The calls of each package function in a summary."""
    out = {}
    seen = set()
    st = [s[0], *s[1].values()]
    while st:
        t = st.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        st.extend(t.a)
        if t.op == "call":
            out.setdefault(t.a[0], set()).add(t.a[1])
        elif t.op == "eff" and t.a[0] == "call":
            out.setdefault(t.a[1], set()).add(t.a[2])
    return out


class Comparison:
    def __init__(self, spec, P):
        self.spec = spec
        self.P = P
        self.A = Side(spec.P, spec)
        self.B = Side(P, spec)
        self.verdicts = {}
        model.START = time.time()
        self.run()

    def absorbed(self, q, res, bad):
        """All of the callers of q agree once q is expanded into them."""
        into = set()
        for c in res:
            if c == q:
                continue
            ok, a, ia, b, ib = res[c]
            if a is None or b is None:
                return False
            if q in ia.called or q in ib.called:
                return False
            if q in ia.inlined or q in ib.inlined:
                into.add(c)
        return bool(into) and not (into & bad)

    def small(self, q):
        """A function of a few plain statements, in both programs."""
        for P in (self.spec.P, self.P):
            f = P.funcs.get(q)
            if f is None:
                return False
            body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(body) > 3 or not all(isinstance(s, (ast.Assign, ast.Expr, ast.Return)) for s in body):
                return False
        return True

    def align(self, q):
        """Expands the functions that only one side calls; True when the two sides then agree."""
        for start in (frozenset(), self.expand):
            ex = start
            for rnd in range(4):
                a, ia = self.A.get(q, ex)
                b, ib = self.B.get(q, ex)
                if a is None or b is None:
                    break
                if same(a, b):
                    return True
                more = {c for c in (ia.called ^ ib.called) if c != q} - ex
                if not more:
                    # small functions that the two sides do not call alike
                    ca, cb = calls(a), calls(b)
                    more = {c for c in ia.called & ib.called if c != q and ca.get(c) != cb.get(c) and self.small(c)} - ex
                if not more:
                    break
                ex = ex | more
        return False

    def run(self):
        spec, P = self.spec, self.P
        sq = set(spec.P.funcs)
        bq = set(P.funcs)
        self.gone = sorted(sq - bq)
        self.new = sorted(bq - sq)
        D = set(self.gone)
        V = self.verdicts
        for q in sorted(sq & bq):
            a, ia = self.A.get(q)
            b, ib = self.B.get(q)
            if same(a, b):
                V[q] = Verdict(q, "same", a=ia, b=ib)
            else:
                D.add(q)
        for q in self.gone:
            V[q] = Verdict(q, "gone")
        # expand what changed into its callers
        base = set(D)
        expand = frozenset(D)
        for rnd in range(4):
            changed = False
            res = {}
            todo = set(D)
            # callers, in either program, of what changed
            cal = set()
            for q in sq & bq:
                for side in (self.A, self.B):
                    s, it = side.get(q)
                    if s is not None and (it.called & expand):
                        cal.add(q)
            for q in sorted((D & bq) | cal):
                a, ia = self.A.get(q, expand)
                b, ib = self.B.get(q, expand)
                res[q] = (same(a, b), a, ia, b, ib)
            bad = {q for q in res if not res[q][0]}
            grow = (bad & {q for q in bad if internal(q)}) - expand
            if not grow:
                break
            expand = expand | grow
        self.expand = expand
        for q, (ok, a, ia, b, ib) in res.items() if D else ():
            if ok:
                V[q] = Verdict(q, "same" if q not in base else "absorbed", a=ia, b=ib, expand=expand)
        bad = {q for q in (res if D else {}) if not res[q][0]}
        pub = {q for q in bad if not internal(q)}
        for q in bad:
            ok, a, ia, b, ib = res[q]
            a0, ia0 = self.A.get(q)
            b0, ib0 = self.B.get(q)
            if q not in base:
                # only differs because something it calls does
                V[q] = Verdict(q, "inherited", a=ia, b=ib, expand=expand)
                continue
            if internal(q):
                if self.absorbed(q, res, bad):
                    V[q] = Verdict(q, "absorbed", a=ia, b=ib, expand=expand)
                    continue
            # what one side does by a call and the other in place
            ex = self.align(q)
            if ex is True:
                V[q] = Verdict(q, "absorbed", a=ia0, b=ib0)
                continue
            # the smaller of the two ways to see the difference
            if a0 is None or b0 is None:
                V[q] = Verdict(q, "unknown", why="%s %s" % (ia0 if a0 is None else "", ib0 if b0 is None else ""))
                continue
            cand = [(differing(a0, b0), ia0, ib0, frozenset())]
            if a is not None and b is not None:
                cand.append((differing(a, b), ia, ib, expand))
            V[q] = Verdict(q, "differs", cand[0][0], a=cand[0][1], b=cand[0][2])
            V[q].why = cand
        for q in self.gone:
            if self.absorbed(q, res, bad):
                V[q] = Verdict(q, "absorbed", expand=expand)


def compare(spec, root):
    return Comparison(spec, Program(root))


def tdiff(a, b, limit=200):
    """The smallest differing pairs of subterms, outermost operators aligned."""
    out = []
    seen = set()

    def go(x, y):
        if x is y or len(out) > limit or (x, y) in seen:
            return
        seen.add((x, y))
        if not isinstance(x, T) or not isinstance(y, T):
            if x != y:
                out.append((x, y))
            return
        if x.op == y.op and len(x.a) == len(y.a) and x.op not in ("c", "call", "xcall", "mcall", "p", "b", "bv") and \
                all(isinstance(p, T) == isinstance(q, T) and (isinstance(p, T) or p == q) for p, q in zip(x.a, y.a)):
            for p, q in zip(x.a, y.a):
                go(p, q)
            return
        if x.op == y.op and len(x.a) == len(y.a) and x.op in ("call", "xcall", "mcall") and x.a[0] == y.a[0]:
            for p, q in zip(x.a, y.a):
                go(p, q)
            return
        if x.op == y.op == "seq":
            # align the common prefix and suffix
            p, q = list(x.a), list(y.a)
            while p and q and p[0] is q[0]:
                p.pop(0)
                q.pop(0)
            while p and q and p[-1] is q[-1]:
                p.pop()
                q.pop()
            if len(p) == len(q):
                for u, v in zip(p, q):
                    go(u, v)
            else:
                out.append((_seq(p), _seq(q)))
            return
        out.append((x, y))

    go(a, b)
    return out


def _seq(p):
    from .terms import _mk

    return p[0] if len(p) == 1 else _mk("seq", tuple(p))


def show_diff(a, b, width=300):
    def s(x):
        r = show(x) if isinstance(x, T) else str(x)
        return r if len(r) <= width else r[:width] + "..."

    if not isinstance(a, T) or not isinstance(b, T):
        return [("%s" % s(a), "%s" % s(b))]
    return [(s(x), s(y)) for x, y in tdiff(a, b)]
