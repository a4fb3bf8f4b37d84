"""Hash-consed value terms with normalising constructors.

A term denotes the value an expression has, expressed over the inputs of the analysed function: parameters, the
state reachable from them, the results of the calls that are not expanded, and the current element of an enclosing
loop.  Two expressions with the same term have the same value on every input; this is value numbering, extended with
gated values (an `ite` node per branch) and with closed forms for the usual loops (map/filter, sum, any, first ...).
"""

import hashlib

_INTERN = {}


class T:
    __slots__ = ("op", "a", "fv", "mi", "_k", "size", "ne")

    def __repr__(self):
        return show(self)


def _mk(op, a):
    key = (op, a)
    t = _INTERN.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        fv = frozenset()
        mi = 0  # 1 + the largest loose index
        size = 1
        ne = op == "nonempty" or op == "truthy"
        if op == "bv":
            fv = frozenset([a[0]])
        elif op == "b":
            mi = a[0] + 1
        for i, x in enumerate(a):
            if isinstance(x, T):
                if x.fv:
                    fv = fv | x.fv if fv else x.fv
                d = x.mi - (1 if _bound(op, i) else 0)
                if d > mi:
                    mi = d
                size += x.size
                ne = ne or x.ne
        t.ne = ne
        t.fv = fv
        t.mi = mi
        t.size = min(size, 10**9)
        t._k = None
        _INTERN[key] = t
    return t


def _bound(op, i):
    """Whether the i-th argument of op lies under the binder of op."""
    if op == "for":
        return i >= 1
    if op == "lam":
        return True
    if op == "fix":
        return i >= 2
    return False


def key(t):
    if t._k is None:
        h = hashlib.md5()
        h.update(t.op.encode())
        for x in t.a:
            if isinstance(x, T):
                h.update(key(x).encode())
            else:
                h.update(repr(x).encode())
            h.update(b",")
        t._k = h.hexdigest()
    return t._k


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return _mk("c", ("b", v))
    if v is None:
        return _mk("c", ("none", None))
    if isinstance(v, (int, float)):
        if isinstance(v, float) and v == v and abs(v) < 1e15 and v == int(v):
            v = int(v)
        return _mk("c", ("n", v))
    if isinstance(v, str):
        return _mk("c", ("s", v))
    return _mk("c", (type(v).__name__, repr(v)))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
NORET = _mk("noret", ())
UNDEF = _mk("undef", ())


def reset_memo():
    """Forget the normal forms: the table of constructors has changed."""
    _ITE.clear()
    _EMPTY.clear()
    _ASSUME.clear()
    _DEEP.clear()


def is_const(t):
    return t.op == "c"


def is_num(t):
    return t.op == "c" and t.a[0] == "n"


def is_str(t):
    return t.op == "c" and t.a[0] == "s"


def bv(level, slot=0):
    return _mk("bv", (level, slot))


# ---------------------------------------------------------------- booleans
BOOL_ATOMS = {
    "eq", "lt", "in", "any", "isinst", "nonempty", "truthy", "subset", "disjoint", "callb", "hasattr", "atomb",
}


def is_bool(t):
    if t.op in BOOL_ATOMS:
        return True
    if t.op == "c":
        return t.a[0] == "b"
    if t.op == "ite":
        return is_bool(t.a[1]) and is_bool(t.a[2])
    if t.op == "xcall":
        return t.a[0].split(".")[-1] in BOOL_NX and t.a[0].startswith("networkx.")
    if t.op == "mcall":
        return t.a[1] in BOOL_METH
    if t.op == "call":
        return t.a[0] in BOOLEAN
    return False


BOOL_NX = {"is_connected", "is_directed_acyclic_graph", "is_tree", "is_forest", "has_path", "is_weakly_connected", "is_dag"}
BOOL_METH = {"has_edge", "has_node", "is_directed", "is_multigraph", "startswith", "endswith", "isdigit", "isupper", "islower"}
RANGE = {}  # functions which answer one of a few constants
BOOLEAN = set()  # functions which answer yes or no


def _top(*ts):
    best = None
    for t in ts:
        if t.op == "ite":
            k = _ord(t.a[0])
            if best is None or k < best[0]:
                best = (k, t.a[0])
        elif is_bool(t) and t.op != "c":
            k = _ord(t)
            if best is None or k < best[0]:
                best = (k, t)
    return best[1] if best else None


_RANK = {"nonempty": 0, "isinst": 1, "eq": 2, "in": 3, "lt": 4}


def _ord(atom):
    return (_RANK.get(atom.op, 5), key(atom))


def _split(t, atom):
    """Cofactors of t with respect to a boolean atom."""
    if t is atom:
        return TRUE, FALSE
    if t.op == "ite" and t.a[0] is atom:
        return t.a[1], t.a[2]
    return t, t


_ITE = {}


def ite(c, a, b):
    """Gated value: a if c else b.  Ordered, reduced: canonical up to propositional equivalence of the guards."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if not is_bool(c):
        c = truth(c)
        return ite(c, a, b)
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ITE.get(k)
    if r is not None:
        return r
    v = _top(c, a, b)
    c1, c0 = _split(c, v)
    a1, a0 = _split(a, v)
    b1, b0 = _split(b, v)
    if c1 is c and a1 is a and b1 is b:
        hi, lo = a, b  # cannot happen
    else:
        hi = assume(ite(c1, assume(a1, v, True), assume(b1, v, True)), v, True)
        lo = assume(ite(c0, assume(a0, v, False), assume(b0, v, False)), v, False)
    r = _node(v, hi, lo)
    _ITE[k] = r
    return r


def _node(v, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    r = _special(v, hi, lo)
    if r is not None:
        return r
    if v.op == "eq" and (v.a[0].op in ("c", "member") or v.a[1].op in ("c", "member")):
        # what else the value could be equal to
        if (lo.op == "ite" or lo.op == "eq") and assume(lo, v, True) is hi:
            return lo
        if (hi.op == "ite" or hi.op == "eq") and assume(hi, v, False) is lo:
            return hi
    if hi.op in ("cat", "set") and lo.op == hi.op:
        # the same container with other content
        r = joined(v, hi, lo)
        if r is not None:
            return r
    if hi.op == lo.op == "tuple" and len(hi.a) == len(lo.a):
        d = [i for i in range(len(hi.a)) if hi.a[i] is not lo.a[i]]
        if len(d) == 1 and hi.a[d[0]].op in ("cat", "set") and lo.a[d[0]].op == hi.a[d[0]].op:
            r = joined(v, hi.a[d[0]], lo.a[d[0]])
            if r is not None:
                return _mk("tuple", tuple(r if i == d[0] else x for i, x in enumerate(hi.a)))
    return _mk("ite", (v, hi, lo))


def joined(v, hi, lo):
    a = hi.a if hi.op == "cat" else hi.a[0].a if hi.a[0].op == "seq" else hi.a
    b = lo.a if lo.op == "cat" else lo.a[0].a if lo.a[0].op == "seq" else lo.a
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]:
        n += 1
    m = 0
    while m < min(len(a), len(b)) - n and a[-1 - m] is b[-1 - m]:
        m += 1
    y = seq(*a[:n], guard_stream(seq(*a[n:len(a) - m]), v), guard_stream(seq(*b[n:len(b) - m]), bnot(v)), *a[len(a) - m:])
    if any(z.op == "guarded" for z in (y.a if y.op == "seq" else (y,))):
        return None
    return mk(hi.op, *y.a) if hi.op == "cat" and y.op == "seq" else mk(hi.op, y)


def _content(x):
    return x.a if x.op == "cat" else x.a[0] is not SEQ0


def _special(v, hi, lo):
    if v.op == "lt" and not is_bool(hi) and not is_bool(lo):
        x, y = v.a
        # min / max
        if hi is x and lo is y:
            return mk("min2", x, y)
        if hi is y and lo is x:
            return mk("max2", x, y)
        # x < c0 ? c0 : min(x, c1)   and   c1 < x ? c1 : max(x, c0)
        if is_num(y) and hi is y and lo.op == "min2" and x in lo.a:
            return mk("max2", y, lo)
        if is_num(x) and hi is x and lo.op == "max2" and y in lo.a:
            o = lo.a[0] if lo.a[1] is y else lo.a[1]
            if is_num(o) and o.a[1] <= x.a[1]:
                return mk("max2", o, mk("min2", y, x))
        if is_num(y) and hi is y and lo.op == "ite":
            pass
    if v.op == "eq":
        # x == y ? f(x) : f(y) -- replaced by the common value
        x, y = v.a
        if (hi is x and lo is y) or (hi is y and lo is x):
            return lo
    if v.op == "nonempty" and not (hi.op == "c" and lo.op == "c"):
        d = v.a[0]
        e = when_empty(hi, d)
        if e is lo:
            return hi
    if v.op == "any" and v.a[0].op == "for" and not (hi.op == "c" and lo.op == "c"):
        e = when_none(hi, v.a[0])
        if e is lo:
            return hi
    if v.op == "isinst":
        # a class and one of its bases
        if assume(lo, v, True) is hi:
            return lo
        if assume(hi, v, False) is lo:
            return hi
    if v.op == "in":
        # x in s ? s - x : s    is discard
        x, s = v.a
        if hi.op == "setminus1" and hi.a[0] is s and hi.a[1] is x and lo is s:
            return hi
    return None


_EMPTY = {}


def when_empty(t, d):
    """The value t has when the iterable d is empty."""
    k = (t, d)
    r = _EMPTY.get(k)
    if r is not None:
        return r
    if t is d:
        r = t
    elif t.op == "ite" and t.a[0].op == "nonempty" and t.a[0].a[0] is d:
        r = when_empty(t.a[2], d)
    elif t.op == "nonempty" and t.a[0] is d:
        r = FALSE
    elif t.op == "len" and t.a[0] is d:
        r = ZERO
    elif t.op == "for" and t.a[0] is d:
        r = SEQ0
    elif t.op == "fix" and isinstance(t.a[0], int) and t.a[1].a[0] is d:
        r = when_empty(t.a[1].a[1 + t.a[0]], d)
    elif not any(isinstance(x, T) for x in t.a):
        r = t
    else:
        r = rebuild(t, lambda x: when_empty(x, d))
    _EMPTY[k] = r
    return r


def when_none(t, s):
    """The value t has when no element of the stream s is there."""
    g = {x.a[0] for x in (s.a[1].a if s.a[1].op == "seq" else (s.a[1],)) if x.op == "yield"}
    memo = {}

    def go(t, d):
        k = (t, d)
        if k not in memo:
            if t.op == "for" and t.a[1].op == "yield" and t.a[0] is (shift(s.a[0], d) if d else s.a[0]) \
                    and any(t.a[1].a[0] is (_shift1(x, d) if d else x) for x in g):
                memo[k] = SEQ0
            elif not any(isinstance(x, T) for x in t.a):
                memo[k] = t
            else:
                a = [go(x, d + 1 if _bound(t.op, i) else d) if isinstance(x, T) else x for i, x in enumerate(t.a)]
                memo[k] = t if all(p is q for p, q in zip(a, t.a)) else mk(t.op, *a)
        return memo[k]

    return go(t, 0)


def _shift1(t, n):
    return shift(t, n, 1)


def implied(atom, lit, val):
    """What atom is worth once the literal (lit is val) is known; None when undetermined."""
    if atom is lit:
        return val
    if lit.op == "eq" and val and atom.op == "eq":
        # the same value compared with two different constants
        for x, c in ((lit.a[0], lit.a[1]), (lit.a[1], lit.a[0])):
            for y, d in ((atom.a[0], atom.a[1]), (atom.a[1], atom.a[0])):
                if x is y and c is not d and is_distinct(c, d):
                    return False
    if lit.op == "eq" and val and atom.op == "lt":
        s = {lit.a[0], lit.a[1]}
        if atom.a[0] in s and atom.a[1] in s:
            return False
        # x == c, atom compares x with a constant
        for x, c in ((lit.a[0], lit.a[1]), (lit.a[1], lit.a[0])):
            if is_num(c):
                if atom.a[0] is x and is_num(atom.a[1]):
                    return c.a[1] < atom.a[1].a[1]
                if atom.a[1] is x and is_num(atom.a[0]):
                    return atom.a[0].a[1] < c.a[1]
    if lit.op == "eq" and val and atom.op in ("truthy", "nonempty"):
        for x, c in ((lit.a[0], lit.a[1]), (lit.a[1], lit.a[0])):
            if atom.a[0] is x and c is NONE:
                return False
    if lit.op == "lt" and val and atom.op == "eq":
        s = {lit.a[0], lit.a[1]}
        if atom.a[0] in s and atom.a[1] in s:
            return False
        for x, c in ((atom.a[0], atom.a[1]), (atom.a[1], atom.a[0])):
            if is_num(c):
                if lit.a[0] is x and is_num(lit.a[1]) and c.a[1] >= lit.a[1].a[1]:
                    return False
                if lit.a[1] is x and is_num(lit.a[0]) and c.a[1] <= lit.a[0].a[1]:
                    return False
    if lit.op == "lt" and atom.op == "lt":
        (x, y), (p, q) = lit.a, atom.a
        if val and p is y and q is x:
            return False
        if is_num(y) and is_num(q) and p is x:  # x<c known, x<d asked
            if val and y.a[1] <= q.a[1]:
                return True
            if not val and q.a[1] <= y.a[1]:
                return False
        if is_num(x) and is_num(p) and q is y:  # c<x known, d<x asked
            if val and p.a[1] <= x.a[1]:
                return True
            if not val and x.a[1] <= p.a[1]:
                return False
        if is_num(y) and is_num(p) and q is x and val:  # x<c known, d<x asked
            if y.a[1] <= p.a[1]:
                return False
        if is_num(x) and is_num(q) and p is y and val:  # c<x known, x<d asked
            if q.a[1] <= x.a[1]:
                return False
        if is_num(y) and is_num(p) and q is x and not val:  # x>=c known, d<x asked
            if p.a[1] < y.a[1]:
                return True
        if is_num(x) and is_num(q) and p is y and not val:  # x<=c known, x<d asked
            if x.a[1] < q.a[1]:
                return True
    if lit.op == "in" and val and atom.op == "nonempty" and atom.a[0] is lit.a[1]:
        return True
    if lit.op == "isinst" and atom.op == "isinst" and atom.a[0] is lit.a[0]:
        c, d = lit.a[1].a[0], atom.a[1].a[0]
        if val and d in SUPERS.get(c, ()):
            return True
        if not val and c in SUPERS.get(d, ()):
            return False
    if lit.op == "nonempty" and not val and atom.op == "in" and atom.a[1] is lit.a[0]:
        return False
    if lit.op == "nonempty" and not val and atom.op == "any":
        w = when_empty(atom, lit.a[0])
        if w is FALSE:
            return False
    if lit.op == "any" and val and atom.op == "nonempty":
        w = when_empty(lit, atom.a[0])
        if w is FALSE:
            return True
    return None


def is_distinct(c, d):
    if c.op == "c" and d.op == "c":
        return c is not d
    if c.op == "member" and d.op == "member":
        return c is not d
    return False


# the bases of every class
SUPERS = {}

_ASSUME = {}


def assume(t, lit, val):
    """Simplify the gates of t knowing that the atom lit is val."""
    if t.op != "ite" and not (is_bool(t) and t.op != "c"):
        return t
    k = (t, lit, val)
    r = _ASSUME.get(k)
    if r is not None:
        return r
    if t.op == "ite":
        v = implied(t.a[0], lit, val)
        if v is True:
            r = assume(t.a[1], lit, val)
        elif v is False:
            r = assume(t.a[2], lit, val)
        else:
            hi = assume(t.a[1], lit, val)
            lo = assume(t.a[2], lit, val)
            r = t if hi is t.a[1] and lo is t.a[2] else _node(t.a[0], hi, lo)
    else:
        v = implied(t, lit, val)
        r = t if v is None else (TRUE if v else FALSE)
    _ASSUME[k] = r
    return r


def bnot(t):
    if not is_bool(t):
        t = truth(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    return ite(t, FALSE, TRUE)


def band(*ts):
    r = TRUE
    for t in ts:
        r = ite(t, r, FALSE) if is_bool(t) else ite(truth(t), r, FALSE)
    return r


def bor(*ts):
    r = FALSE
    for t in ts:
        r = ite(t, TRUE, r) if is_bool(t) else ite(truth(t), TRUE, r)
    return r


def restrict(t, g):
    """Simplify t (anywhere in it) under the assumption that the guard g holds."""
    lits = implied_lits(g)
    for a, v in lits:
        t = deep_assume(t, a, v)
    # cofactor by disjunctive guards at the top
    if t.op == "ite" and g.op == "ite":
        t = _constrain(t, g)
    return t


def _constrain(t, g):
    if t.op != "ite":
        return t
    v, hi, lo = t.a
    if ite(g, v, FALSE) is FALSE:
        return _constrain(lo, g)
    if ite(g, bnot(v), FALSE) is FALSE:
        return _constrain(hi, g)
    return _node(v, _constrain(hi, band(g, v)), _constrain(lo, band(g, bnot(v))))


def implied_lits(g):
    out = []
    while g.op == "ite":
        v, hi, lo = g.a
        if hi is FALSE:
            out.append((v, False))
            g = lo
        elif lo is FALSE:
            out.append((v, True))
            g = hi
        else:
            break
    else:
        if g.op != "c" and is_bool(g):
            out.append((g, True))
    return out


_DEEP = {}


def deep_assume(t, lit, val):
    k = (t, lit, val)
    r = _DEEP.get(k)
    if r is not None:
        return r
    if t is lit:
        r = TRUE if val else FALSE
    elif t.op in ("for", "lam", "fix") and t.mi == 0 and False:
        r = t
    else:
        v = implied(t, lit, val) if (is_bool(t) and t.op not in ("ite", "c")) else None
        if v is not None:
            r = TRUE if v else FALSE
        elif lit.op == "eq" and val and is_num_or_enum(lit) is t:
            r = const_side(lit)
        elif not any(isinstance(x, T) for x in t.a):
            r = t
        elif lit.mi and any(_bound(t.op, i) for i in range(len(t.a))):
            up = shift(lit, 1)
            args = [deep_assume(x, up if _bound(t.op, i) else lit, val) if isinstance(x, T) else x for i, x in enumerate(t.a)]
            r = t if all(x is y for x, y in zip(args, t.a)) else mk(t.op, *args)
        else:
            r = rebuild(t, lambda x: deep_assume(x, lit, val))
    _DEEP[k] = r
    return r


def is_num_or_enum(lit):
    a, b = lit.a
    if a.op in ("c", "member") and a is not NONE:
        return b
    if b.op in ("c", "member") and b is not NONE:
        return a
    return None


def const_side(lit):
    a, b = lit.a
    return a if a.op in ("c", "member") else b


# ---------------------------------------------------------------- generic rebuild / binders
def rebuild(t, f):
    args = []
    ch = False
    for x in t.a:
        if isinstance(x, T):
            y = f(x)
            ch |= y is not x
            args.append(y)
        else:
            args.append(x)
    if not ch:
        return t
    return mk(t.op, *args)


def close(t, level, d=0):
    """Replace the variables of the loop `level` by bound indices."""
    if level not in t.fv:
        return t
    memo = {}

    def go(t, d):
        if level not in t.fv:
            return t
        k = (t, d)
        r = memo.get(k)
        if r is not None:
            return r
        if t.op == "bv":
            r = _mk("b", (d, t.a[1]))
        else:
            r = _rb(t, go, d)
        memo[k] = r
        return r

    return go(t, d)


def _rb(t, go, d):
    args = []
    for i, x in enumerate(t.a):
        if isinstance(x, T):
            args.append(go(x, d + 1 if _bound(t.op, i) else d))
        else:
            args.append(x)
    return mk(t.op, *args)


def open_(t, level, d=0):
    """Inverse of close: the outermost loose index becomes the variables of loop `level`."""
    memo = {}

    def go(t, d):
        if t.mi <= d:
            return t
        k = (t, d)
        r = memo.get(k)
        if r is not None:
            return r
        if t.op == "b":
            r = bv(level, t.a[1]) if t.a[0] == d else t
        else:
            r = _rb(t, go, d)
        memo[k] = r
        return r

    return go(t, d)


def subst(t, m):
    """Replace terms (keys of m) by terms; keys hold no loose indices."""
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        if not any(isinstance(x, T) for x in t.a):
            r = t
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r

    return go(t)


def mentions(t, pred):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        stack.extend(y for y in x.a if isinstance(y, T))
    return False


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(y for y in x.a if isinstance(y, T))


# ---------------------------------------------------------------- sequences of yields
# A "stream" is a tree of: seq(parts...), for(dom, stream), yield(guard, value)
SEQ0 = _mk("seq", ())


def seq(*parts):
    out = []
    for p in parts:
        if p.op == "seq":
            out.extend(p.a)
        else:
            out.append(p)
    # merge adjacent yields with exclusive guards
    res = []
    for p in out:
        if p.op == "yield" and p.a[0] is FALSE:
            continue
        if res and p.op == "do" and res[-1].op == "do":
            q = res[-1]
            m = merge_do(q, p)
            if m is not None and m.op == "do":
                res[-1] = m
                continue
            m = _put_into(q, p)
            if m is not None:
                res[-1] = m[0]
                if m[1] is not SEQ0:
                    res.append(m[1])
                continue
            # past steps which exclude this one
            k = len(res) - 1
            while k > 0 and p.a[0] is not TRUE and band(guard_of(res[k]), p.a[0]) is FALSE:
                k -= 1
                m = merge_do(res[k], p) if res[k].op == "do" and res[k].a[1] is p.a[1] else None
                if m is not None and m.op == "do":
                    break
            else:
                m = None
            if m is not None:
                res[k] = m
                continue
            # text written in pieces
            e, f = q.a[1], p.a[1]
            if q.a[0] is p.a[0] and e.op == f.op == "eff" and e.a[0] == f.a[0] == "write" and e.a[1] is f.a[1]:
                w = mk("do", p.a[0], mk("eff", "write", e.a[1], mk("fmt", e.a[2], f.a[2])))
                if w.op == "do":
                    res[-1] = w
                    continue
        if res and p.op == "yield" and res[-1].op == "yield":
            q = res[-1]
            if not (p.a[0] is TRUE and q.a[0] is TRUE) and band(p.a[0], q.a[0]) is FALSE:
                g = bor(p.a[0], q.a[0])
                v = ite(q.a[0], q.a[1], p.a[1])
                res[-1] = mk("yield", g, v)
                continue
        if p.op == "do" and is_add(p):
            k = len(res)
            while k and is_add(res[k - 1]) and key(p) < key(res[k - 1]):
                k -= 1
            if not (k and res[k - 1] is p):
                res.insert(k, p)
            continue
        res.append(p)
    if len(res) > 1:
        res = _order_exclusive(res)
    if len(res) == 1:
        return res[0]
    return _mk("seq", tuple(res))


VALUED = {"setitem": 3, "setattr": 3, "append": 2, "add": 2, "write": 2}


def merge_do(p, q):
    """One step for two which exclude each other and differ in the value they store, or None."""
    e, f = p.a[1], q.a[1]
    if p.a[0] is TRUE and q.a[0] is TRUE:
        return None
    if e is f and e.op == "eff":
        return mk("do", bor(p.a[0], q.a[0]), e) if band(p.a[0], q.a[0]) is FALSE else None
    if e.op != "eff" or f.op != "eff" or len(e.a) != len(f.a) or e.a[0] != f.a[0] or e.a[0] not in VALUED:
        return None
    n = VALUED[e.a[0]]
    if len(e.a) != n + 1 or any(x is not y and x != y for x, y in zip(e.a[:n], f.a[:n])):
        return None
    if band(p.a[0], q.a[0]) is not FALSE:
        return None
    g = bor(p.a[0], q.a[0])
    v = ite(p.a[0], e.a[n], f.a[n])
    return mk("do", g, mk("eff", *e.a[:n], restrict(v, g)))


def is_add(p):
    """An addition to a set."""
    return p.op == "do" and p.a[1].op == "eff" and p.a[1].a[0] == "add" and len(p.a[1].a) == 3


def _put_into(p, q):
    """A container stored in a dictionary and then added to, as stored with what is added."""
    e, f = p.a[1], q.a[1]
    if e.op != "eff" or f.op != "eff" or e.a[0] != "setitem" or f.a[0] not in ("append", "add") or len(e.a) != 4 or len(f.a) != 3:
        return None
    c = e.a[3]
    if c.op != ("cat" if f.a[0] == "append" else "set") or f.a[1].op != "item":
        return None
    if f.a[1].a[0] is not e.a[1] or f.a[1].a[1] is not e.a[2]:
        return None
    g1, g2 = p.a[0], q.a[0]
    if band(g1, g2) is FALSE:
        return None
    y = mk("yield", restrict(g2, g1) if g1 is not TRUE else g2, f.a[2])
    c2 = mk("cat", *c.a, y) if c.op == "cat" else mk("set", seq(c.a[0], y))
    return mk("do", g1, mk("eff", "setitem", e.a[1], e.a[2], c2)), mk("do", band(bnot(g1), g2), f)


def _order_exclusive(ps):
    """The order of parts which exclude each other is immaterial: the least of the equivalent orders."""
    out, run = [], []

    def flush():
        n = len(run)
        if n > 1:
            gs = [g for _, g in run]
            pred = [{i for i in range(j) if band(gs[i], gs[j]) is not FALSE} for j in range(n)]
            left = list(range(n))
            while left:
                j = min((j for j in left if not any(i in pred[j] for i in left)), key=lambda j: key(run[j][0]))
                out.append(run[j][0])
                left.remove(j)
        else:
            out.extend(p for p, _ in run)
        run.clear()

    for p in ps:
        g = guard_of(p)
        if g is TRUE:
            flush()
            out.append(p)
        else:
            run.append((p, g))
    flush()
    return out


def guard_of(s):
    """A condition without which the stream s is empty."""
    if s.op in ("yield", "do", "guarded"):
        return s.a[0]
    if s.op == "for":
        g = guard_of(s.a[1])
        return g if g.mi == 0 else closed_part(g)
    if s.op == "seq":
        return bor(*[guard_of(x) for x in s.a])
    return TRUE


def lower(t):
    """What t, under one binder, is outside of it; None when it depends on the binder."""
    def go(t, d):
        if t.mi <= d:
            return t
        if t.op == "b":
            if t.a[0] == d:
                raise KeyError
            return _mk("b", (t.a[0] - 1, t.a[1])) if t.a[0] > d else t
        return mk(t.op, *[go(x, d + 1 if _bound(t.op, i) else d) if isinstance(x, T) else x for i, x in enumerate(t.a)])

    if t.mi == 0:
        return t
    try:
        return go(t, 0)
    except KeyError:
        return None


def closed_part(g):
    """The part of the guard g which does not depend on the loop."""
    return band(*[v if val else bnot(v) for v, val in implied_lits(g) if v.mi == 0])


def guard_stream(s, g):
    if g is TRUE:
        return s
    if g is FALSE:
        return SEQ0
    if s.op == "yield":
        gg = band(g, s.a[0])
        return mk("yield", gg, s.a[1])
    if s.op == "do":
        return mk("do", band(g, s.a[0]), s.a[1])
    if s.op == "seq":
        return seq(*[guard_stream(x, g) for x in s.a])
    if s.op == "for":
        return mk("for", s.a[0], guard_stream(s.a[1], shift(g, 1) if g.mi else g))
    return mk("guarded", g, s)




def map_stream(s, f):
    """Apply f(guard, value) -> stream to every yield; under binders f sees loose indices, so callers open first."""
    if s.op == "yield":
        return f(s.a[0], s.a[1])
    if s.op == "seq":
        return seq(*[map_stream(x, f) for x in s.a])
    raise ValueError(s.op)


# ---------------------------------------------------------------- normalising constructor
COMM = {"mul", "add", "eq", "min2", "max2", "and_", "or_", "xor_"}


def mk(op, *a):
    r = _simp(op, a)
    if r is not None:
        return r
    return _mk(op, a)


LISTY = {"list", "cat", "comp", "sorted", "reversed", "product", "slice"}


def is_listy(t):
    if t.op in ("cat", "sorted", "reversed", "slice"):
        return True
    return False


STR_RESULT = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "zfill", "capitalize", "swapcase", "removeprefix", "removesuffix"}


def is_strish(t):
    return is_str(t) or t.op in ("fmt", "join", "str") or t.op == "mcall" and t.a[1] in STR_RESULT or t.op == "call" and t.a[0] == "virtual.__str__"


def numval(t):
    return t.a[1]


# operators through which a gated argument is hoisted
LIFT = {
    "add", "mul", "div", "neg", "eq", "lt", "in", "len", "attr", "item", "at", "sub", "mod", "floordiv", "pow", "str",
    "fmt", "truthy", "nonempty", "isinst", "tuple", "xcall", "mcall", "call",
}


def _simp(op, a):
    if op == "ite":
        return ite(*a)
    if op == "seq":
        return seq(*a)
    if op == "yield":
        if a[0] is FALSE:
            return SEQ0
        v = restrict(a[1], a[0]) if a[0] is not TRUE else a[1]
        return _mk("yield", (a[0], v))
    if op == "do":
        if a[0] is FALSE:
            return SEQ0
        v = restrict(a[1], a[0]) if a[0] is not TRUE else a[1]
        return _mk("do", (a[0], v))
    if op == "for":
        if a[1] is SEQ0 or a[0].op in ("set", "cat", "dict") and len(a[0].a) == 1 and a[0].a[0] is SEQ0:
            return SEQ0
        if a[0].op == "range" and a[0].a[0] is ZERO:
            return _shifted(a[0].a[1], a[1])
        if a[1].ne:
            # within the loop there is something to loop over
            d = mk("truthy", shift(a[0], 1))
            if d.op == "truthy" and mentions(a[1], lambda x: x is d):
                b = deep_assume(a[1], d, True)
                return mk("for", a[0], guard_stream(b, bnot(mk("eq", NONE, d.a[0]))))
            d = mk("nonempty", shift(a[0], 1))
            if d.op == "nonempty" and mentions(a[1], lambda x: x is d):
                b = a[1]
                for _ in range(3):
                    b = deep_assume(b, d, True)
                    if b is SEQ0:
                        return SEQ0
                    if not mentions(b, lambda x: x is d):
                        break
                return _mk("for", (a[0], b))
        return None
    if op in LIFT:
        for i, x in enumerate(a):
            if isinstance(x, T) and x.op == "ite" and x.size < 4000:
                c, hi, lo = x.a
                A = [assume(y, c, True) if isinstance(y, T) else y for y in a]
                A[i] = hi
                h = mk(op, *A)
                A = [assume(y, c, False) if isinstance(y, T) else y for y in a]
                A[i] = lo
                l = mk(op, *A)
                return ite(c, h, l)
    f = _RULES.get(op)
    if f is not None:
        return f(*a)
    return None


def _shifted(n, s):
    """A loop over range(n) which skips the first k: over range(n - k)."""
    g = guard_of(s)
    if g is TRUE:
        return None
    for a, val in implied_lits(g):
        if a.op == "lt" and a.a[0] is B0 and not val and is_num(a.a[1]) and isinstance(a.a[1].a[1], int) and a.a[1].a[1] > 0:
            k = a.a[1]
            return mk("for", mk("range", ZERO, mk("add", n, mk("neg", k))), subst_b0(deep_assume(s, a, False), mk("add", B0, k)))
        if a.op == "lt" and a.a[1] is B0 and val and is_num(a.a[0]) and isinstance(a.a[0].a[1], int) and a.a[0].a[1] >= 0:
            k = const(a.a[0].a[1] + 1)
            return mk("for", mk("range", ZERO, mk("add", n, mk("neg", k))), subst_b0(deep_assume(s, a, True), mk("add", B0, k)))
    return None


_RULES = {}


def rule(*ops):
    def d(f):
        for o in ops:
            _RULES[o] = f
        return f

    return d


@rule("eq")
def _eq(x, y):
    if x is y:
        return TRUE
    if is_distinct(x, y):
        return FALSE
    if is_bool(x) and y.op == "c" and y.a[0] == "b":
        return x if y is TRUE else bnot(x)
    if is_bool(y) and x.op == "c" and x.a[0] == "b":
        return y if x is TRUE else bnot(y)
    if x is NONE or y is NONE:
        o = y if x is NONE else x
        if o.op in NONNONE or o.op == "xcall" and (o.a[0] == "copy.deepcopy" or o.a[0].startswith(("networkx.", "numpy."))):
            return FALSE
    # len(x) == 0
    for p, q in ((x, y), (y, x)):
        if q is ZERO and p.op == "len":
            return bnot(mk("nonempty", p.a[0]))
        if q is ZERO and p.op == "sum" and _is_count(p):
            return bnot(mk("any", p.a[0]))
        if q.op == "c" and q.a == ("s", "") and (p.op == "mcall" and p.a[1] in STR_RESULT or p.op in ("join", "str")):
            return bnot(mk("nonempty", p))
        if is_num(q) and p.op == "len" and q.a[1] < 0:
            return FALSE
        if q.op == "tuple" and len(q.a) == 0 and p.op == "cat":
            return bnot(mk("nonempty", p))
    if x.op == "tuple" and y.op == "tuple" and len(x.a) == len(y.a):
        return band(*[mk("eq", p, q) for p, q in zip(x.a, y.a)])
    for p, q in ((x, y), (y, x)):
        if p.op == "call" and p.a[0] in RANGE and q.op == "c":
            vs = RANGE[p.a[0]]
            if q not in vs:
                return FALSE
            if q is vs[-1]:
                return band(*[bnot(mk("eq", p, v)) for v in vs[:-1]])
    for p, q in ((x, y), (y, x)):
        # whole numbers: no negative number is added on a side
        if p.op == "add" and is_int(q) and all(is_int(z) for z in p.a):
            k = [z for z in p.a if is_num(z)]
            if len(k) == 1 and (k[0].a[1] < 0 or is_num(q)):
                return mk("eq", mk("add", *[z for z in p.a if z is not k[0]]), mk("add", q, const(-k[0].a[1])))
    if key(y) < key(x):
        x, y = y, x
    return _mk("eq", (x, y))


NONNONE = {"cat", "fmt", "new", "obj", "dict", "set", "sum", "len", "tuple", "member", "product", "sorted", "join",
           "str", "add", "mul", "div", "ref", "lam", "cls", "fn"}


def _is_count(s):
    """Whether a sum adds up the constant one (a count)."""
    return s.op == "sum" and _all_yield_one(s.a[0])


def _all_yield_one(s):
    if s.op == "yield":
        return s.a[1] is ONE
    if s.op == "seq":
        return all(_all_yield_one(x) for x in s.a)
    if s.op == "for":
        return _all_yield_one(s.a[1])
    return False


def is_int(t):
    return t.op in ("len", "int") or t.op == "sum" and _ones(t.a[0]) is t.a[0] or t.op == "add" and all(is_int(x) for x in t.a) or t.op in ("b", "bv") and t.a[1] == 0 or is_num(t) and isinstance(t.a[1], int)


def _plus1(t):
    """u when t is u + 1 over integers."""
    if t.op == "add" and ONE in t.a:
        rest = list(t.a)
        rest.remove(ONE)
        if all(is_int(x) for x in rest):
            return rest[0] if len(rest) == 1 else mk("add", *rest)
    return None


@rule("lt")
def _lt(x, y):
    if x is y:
        return FALSE
    u = _plus1(y)
    if u is not None and is_int(x):
        return bnot(mk("lt", u, x))
    if is_num(x) and is_num(y):
        return TRUE if x.a[1] < y.a[1] else FALSE
    for p, q in ((x, y), (y, x)):
        # whole numbers: what is added goes to the side of the number
        if p.op == "add" and is_int(q) and is_num(q):
            ks = [z for z in p.a if is_num(z)]
            rest = [z for z in p.a if not is_num(z)]
            if len(ks) == 1 and rest and is_int(ks[0]) and all(is_int(z) for z in rest):
                r = rest[0] if len(rest) == 1 else mk("add", *rest)
                k = const(q.a[1] - ks[0].a[1])
                return mk("lt", r, k) if p is x else mk("lt", k, r)
    if y.op == "sum" and x is ZERO and _ones(y.a[0]) is y.a[0]:
        return mk("any", y.a[0])
    if x.op == "sum" and y is ONE and _ones(x.a[0]) is x.a[0]:
        return bnot(mk("any", x.a[0]))
    if y.op == "len" and is_num(x):
        if x.a[1] == 0:
            return mk("nonempty", y.a[0])
        if x.a[1] < 0:
            return TRUE
    if x.op == "len" and is_num(y):
        if y.a[1] == 1:
            return bnot(mk("nonempty", x.a[0]))
        if y.a[1] <= 0:
            return FALSE
        if isinstance(y.a[1], int):  # len < n  ->  not (n-1 < len)
            return bnot(mk("lt", const(y.a[1] - 1), x))
    if y.op == "sum" and _is_count(y) and is_num(x):
        if x.a[1] == 0:
            return mk("any", y.a[0])
        if x.a[1] < 0:
            return TRUE
    if x.op == "sum" and _is_count(x) and is_num(y):
        if y.a[1] == 1:
            return bnot(mk("any", x.a[0]))
        if y.a[1] <= 0:
            return FALSE
        if isinstance(y.a[1], int):
            return bnot(mk("lt", const(y.a[1] - 1), x))
    return None


def le(x, y):
    return bnot(mk("lt", y, x))


@rule("guarded")
def _guarded(g, s):
    if g is TRUE or s is SEQ0:
        return s
    if g is FALSE:
        return SEQ0
    if s.op == "guarded":
        return mk("guarded", band(g, s.a[0]), s.a[1])
    if s.op in ("yield", "do", "seq", "for"):
        return guard_stream(s, g)
    return None


@rule("nonempty")
def _nonempty(x):
    if x.op == "cat":
        return bor(*[_nonempty_stream(s) for s in x.a])
    if x.op in ("set", "dict"):
        return _nonempty_stream(x.a[0])
    if x.op == "tuple":
        return TRUE if x.a else FALSE
    if x.op in ("sorted", "reversed"):
        return mk("nonempty", x.a[0])
    if x.op in ("keys", "values", "items", "enum"):
        return mk("nonempty", x.a[0])
    if x.op == "v" and x.a[0].op in ("keys", "values", "items"):
        return mk("nonempty", mk("v", x.a[0].a[0], x.a[1]))
    if x.op == "range":
        return mk("lt", x.a[0], x.a[1])
    if x.op == "setop" and x.a[0] == "inter":
        return bnot(mk("disjoint", x.a[1], x.a[2]))
    if x.op == "setop" and x.a[0] == "diff":
        return bnot(mk("subset", x.a[1], x.a[2]))
    if is_str(x):
        return TRUE if x.a[1] else FALSE
    if x is NONE:
        return FALSE
    return None


def _nonempty_stream(s):
    if s.op == "yield":
        return s.a[0]
    if s.op == "seq":
        return bor(*[_nonempty_stream(x) for x in s.a])
    if s.op == "for":
        return mk("any", s)
    if s.op == "splice":
        return band(s.a[0], mk("nonempty", s.a[1]))
    return mk("any", s)


def bind(s, body, e):
    """The stream which does, for each element v that s yields, what body does for e; body is under one binder."""
    def put(t, v, n, d=0):
        if t is (shift(e, d) if d else e):
            return shift(v, d)
        if t.mi <= d:
            return t
        if t.op == "b":
            if t.a[0] == d:
                raise KeyError
            return _mk("b", (t.a[0] - 1 + n, t.a[1])) if t.a[0] > d else t
        return mk(t.op, *[put(x, v, n, d + 1 if _bound(t.op, i) else d) if isinstance(x, T) else x for i, x in enumerate(t.a)])

    def go(s, n):
        if s.op == "yield":
            return guard_stream(put(body, s.a[1], n), s.a[0]) if body.op != "for" or s.a[0].mi == 0 or s.a[0] is TRUE else _guard_under(put(body, s.a[1], n), s.a[0])
        if s.op == "seq":
            return seq(*[go(x, n) for x in s.a])
        if s.op == "for":
            return mk("for", s.a[0], go(s.a[1], n + 1))
        raise KeyError

    try:
        return go(s, 0)
    except KeyError:
        return None


def _guard_under(s, g):
    if s.op == "for":
        return mk("for", s.a[0], _guard_under(s.a[1], shift(g, 1)))
    if s.op == "seq":
        return seq(*[_guard_under(x, g) for x in s.a])
    if s.op in ("yield", "do"):
        return guard_stream(s, g)
    raise KeyError


def _through_set(s):
    """A loop over a collected set whose body only collects again, as a loop over what was collected."""
    if s.op == "for" and s.a[0].op == "set":
        d = s.a[0]
        return bind(d.a[0], s.a[1], _mk("at", (shift(d, 1) if d.mi else d, B0)))
    return None


def _flat(s):
    """A stream whose order and multiplicity do not matter, with the loops over collected sets as loops over what was collected."""
    if s.op == "seq":
        ps = [_flat(x) for x in s.a]
        return seq(*ps) if any(p is not x for p, x in zip(ps, s.a)) else s
    if s.op == "for":
        b = _flat(s.a[1])
        if b is not s.a[1]:
            s = mk("for", s.a[0], b)
            return _flat(s) if s.op == "for" else s
        r = _through_set(s)
        if r is not None:
            return _flat(r)
    if s.op == "splice" and s.a[1].op == "set":
        try:
            return _flat(_guard_under(s.a[1].a[0], s.a[0]))
        except KeyError:
            return s
    return s


@rule("any")
def _any(s):
    r = _flat(s)
    if r is not s:
        return mk("any", r)
    if s.op == "ones":
        return mk("any", s.a[0])
    """any(stream of guarded yields): whether some yield happens."""
    if s.op == "yield":
        return s.a[0]
    if s.op == "seq":
        return bor(*[mk("any", x) for x in s.a])
    if s.op == "for":
        b = s.a[1]
        b = _strip_yield(b)
        if b.op == "yield" and b.a[0] is TRUE:
            return _dom_nonempty(s.a[0])
        if b.op == "yield":
            # factors of the guard which do not depend on the binder
            g = b.a[0]
            gl = lower(g)
            if gl is not None:
                return band(gl, _dom_nonempty(s.a[0]))
            e = _mk("at", (shift(s.a[0], 1) if s.a[0].mi else s.a[0], B0))
            if g.op == "ite":
                outs = [(v, val, lower(v)) for v, val in implied_lits(g)]
                outs = [x for x in outs if x[2] is not None]
                if outs:
                    gg = g
                    for v, val, l in outs:
                        gg = assume(gg, v, val)
                    r = mk("any", _mk("for", (s.a[0], mk("yield", gg, TRUE))))
                    return band(r, *[(l if val else bnot(l)) for v, val, l in outs])
            # membership: any(x == elt and ...)
            if g.op == "ite":
                for v, val in implied_lits(g):
                    if val and v.op == "eq":
                        for p, q in ((v.a[0], v.a[1]), (v.a[1], v.a[0])):
                            ql = lower(q) if p is e else None
                            if ql is not None:
                                rest = assume(g, v, True)
                                r = bind(_mk("yield", (TRUE, ql)), _mk("yield", (rest, TRUE)), e)
                                if r is not None and r.op == "yield":
                                    return band(mk("in", ql, s.a[0]), r.a[0])
                                if r is SEQ0:
                                    return FALSE
            if g.op == "eq":
                for p, q in ((g.a[0], g.a[1]), (g.a[1], g.a[0])):
                    ql = lower(q) if p is e else None
                    if ql is not None:
                        return mk("in", ql, s.a[0])
            if g.op == "in" and g.a[0] is e:
                ql = lower(g.a[1])
                if ql is not None:
                    return bnot(mk("disjoint", s.a[0], ql))
            if g.op == "ite" and g.a[1] is FALSE and g.a[2] is TRUE and g.a[0].op == "in" and g.a[0].a[0] is e:
                ql = lower(g.a[0].a[1])
                if ql is not None:
                    return bnot(mk("subset", s.a[0], ql))
        if b is not s.a[1]:
            return mk("any", mk("for", s.a[0], b))
    return None


def _dom_nonempty(d):
    return mk("nonempty", d)


def _strip_yield(b):
    if b.op == "yield":
        return mk("yield", b.a[0], TRUE)
    if b.op == "seq":
        gs = [_strip_yield(x) for x in b.a]
        if all(x.op == "yield" for x in gs):
            return mk("yield", bor(*[x.a[0] for x in gs]), TRUE)
        return seq(*gs)
    if b.op == "for":
        return mk("for", b.a[0], _strip_yield(b.a[1]))
    return b


@rule("disjoint")
def _disjoint(x, y):
    x, y = asset(x), asset(y)
    if key(y) < key(x):
        x, y = y, x
    for p, q in ((x, y), (y, x)):
        if p.op == "set":
            r = _filter(p.a[0], lambda v, d: mk("in", v, shift(q, d) if q.mi else q))
            if r is not None:
                return bnot(mk("nonempty", mk("set", r)))
    return _mk("disjoint", (x, y))


def asset(x):
    """The underlying collection, when only membership matters."""
    while x.op in ("set", "sorted", "reversed", "keys", "toset") or (x.op == "cat" and len(x.a) == 1):
        if x.op in ("sorted", "reversed", "keys", "toset"):
            x = x.a[0]
            continue
        s = x.a[0]
        d = _identity_stream(s)
        if d is None:
            break
        x = d
    if x.op == "cat":
        return mk("set", seq(*[y for y in x.a]))
    return x


def _identity_stream(s):
    """dom when the stream yields exactly the elements of dom."""
    if s.op == "for" and s.a[1].op == "yield" and s.a[1].a[0] is TRUE:
        if s.a[1].a[1] is _mk("at", (s.a[0], _mk("b", (0, 0)))):
            return s.a[0]
    if s.op == "splice" and s.a[0] is TRUE:
        return s.a[1]
    return None


@rule("subset")
def _subset(x, y):
    x, y = asset(x), asset(y)
    if x is y:
        return TRUE
    return _mk("subset", (x, y))


def stored(t):
    """What is in a dictionary under the key it was last stored with."""
    if t.op == "item" and t.a[0].op == "v" and t.a[0].a[1].op == "ver" and isinstance(t.a[1], T):
        d, (old, e) = t.a[0].a[0], t.a[0].a[1].a
        if e.op == "do" and e.a[1].op == "eff" and e.a[1].a[0] == "setitem" and len(e.a[1].a) == 4 and e.a[1].a[1] is d \
                and e.a[1].a[2] is t.a[1] and e.a[1].a[3].op in ("cat", "set", "dict"):
            before = mk("item", d if old is NONE else mk("v", d, old), t.a[1])
            return ite(e.a[0], e.a[1].a[3], before)
    return None


@rule("in")
def _in(x, s):
    w = stored(s)
    if w is not None:
        return mk("in", x, w)
    if s.op in ("sorted", "reversed", "keys", "toset"):
        return mk("in", x, s.a[0])
    if s.op == "tuple":
        return bor(*[mk("eq", x, y) for y in s.a])
    if s.op in ("cat",):
        return bor(*[_in_stream(x, p) for p in s.a])
    if s.op in ("set",):
        return _in_stream(x, s.a[0])
    if s.op == "dict":
        return _in_stream(x, s.a[0], True)
    if s.op == "setop":
        o, p, q = s.a
        if o == "union":
            return bor(mk("in", x, p), mk("in", x, q))
        if o == "inter":
            return band(mk("in", x, p), mk("in", x, q))
        if o == "diff":
            return band(mk("in", x, p), bnot(mk("in", x, q)))
    if s.op == "mcall" and len(s.a[2].a) == 1 and s.a[1] in ("successors", "neighbors", "predecessors"):
        # an edge of a graph
        u = s.a[2].a[0]
        p = (x, u) if s.a[1] == "predecessors" else (u, x)
        return mk("mcall", s.a[0], "has_edge", mk("tuple", *p), *s.a[3:])
    if s.op == "at" or s.op == "item":
        return None
    if x.op == "at" and x.a[0] is s:
        return TRUE
    return None


def _in_stream(x, s, dic=False):
    if s.op == "yield":
        v = s.a[1]
        if dic:
            v = v.a[0] if v.op == "tuple" else mk("item", v, ZERO)
        return band(s.a[0], mk("eq", x, v))
    if s.op == "seq":
        return bor(*[_in_stream(x, p, dic) for p in s.a])
    if s.op == "for":
        return mk("any", mk("for", s.a[0], _in_body(x, s.a[1], dic)))
    if s.op == "splice":
        return band(s.a[0], mk("in", x, s.a[1]))
    return mk("atomb", "in", x, s)


def _in_body(x, s, dic):
    if s.op == "yield":
        v = s.a[1]
        if dic:
            v = v.a[0] if v.op == "tuple" else mk("item", v, ZERO)
        return mk("yield", band(s.a[0], mk("eq", shift(x, 1), v)), TRUE)
    if s.op == "seq":
        return seq(*[_in_body(x, p, dic) for p in s.a])
    if s.op == "for":
        return mk("for", s.a[0], _in_body(shift(x, 1), s.a[1], dic))
    if s.op == "splice":
        return mk("yield", band(s.a[0], mk("in", shift(x, 1), s.a[1])), TRUE)
    return mk("yield", mk("atomb", "in", shift(x, 1), s), TRUE)


def shift(t, n, d=0):
    if t.mi <= d:
        return t
    if t.op == "b":
        return _mk("b", (t.a[0] + n, t.a[1])) if t.a[0] >= d else t
    args = []
    for i, x in enumerate(t.a):
        if isinstance(x, T):
            args.append(shift(x, n, d + 1 if _bound(t.op, i) else d))
        else:
            args.append(x)
    return mk(t.op, *args)


@rule("len")
def _len(x):
    if x.op == "tuple":
        return const(len(x.a))
    if x.op in ("reversed", "keys", "values", "items", "enum"):
        return mk("len", x.a[0])
    if x.op == "cat":
        return mk("add", *[_len_stream(s) for s in x.a]) if x.a else ZERO
    if x.op == "dict" and False:
        return None
    if is_str(x):
        return const(len(x.a[1]))
    if x.op == "range":
        if x.a[0] is ZERO:
            return x.a[1]
        return mk("sub", x.a[1], x.a[0])
    return None


def _len_stream(s):
    if s.op == "yield":
        return ONE if s.a[0] is TRUE else ite(s.a[0], ONE, ZERO)
    if s.op == "seq":
        return mk("add", *[_len_stream(p) for p in s.a]) if s.a else ZERO
    if s.op == "splice" and s.a[0] is TRUE:
        return mk("len", s.a[1])
    return mk("sum", _ones(s))


def _ones(s):
    if s.op == "yield":
        return mk("yield", s.a[0], ONE)
    if s.op == "seq":
        return seq(*[_ones(p) for p in s.a])
    if s.op == "for":
        return mk("for", s.a[0], _ones(s.a[1]))
    if s.op == "ones":
        return s
    return _mk("ones", (s,))


def closed_atom(t):
    """A condition that t branches on and that does not depend on the loop around it."""
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == "ite":
            if x.a[0].mi == 0:
                return x.a[0]
            todo += [x.a[1], x.a[2]]
        elif x is t and is_bool(x) and not is_const(x) and x.mi == 0:
            return x
        elif is_bool(x) and not is_const(x) and x.mi == 0:
            return x
    return None


@rule("sum")
def _sum(s):
    if s.op == "yield":
        return ite(s.a[0], s.a[1], ZERO)
    if s.op == "seq":
        return mk("add", *[mk("sum", p) for p in s.a]) if s.a else ZERO
    if s.op == "for" and s.a[1].op == "yield":
        g, v = s.a[1].a
        if g is TRUE and v is ONE:
            return mk("len", s.a[0])
        if v.op == "c" and v is ZERO:
            return ZERO
        # cases which do not depend on the element
        at = closed_atom(g) or closed_atom(v)
        if at is not None:
            return ite(at, *[mk("sum", mk("for", s.a[0], mk("yield", assume(g, at, w), assume(v, at, w)))) for w in (True, False)])
        # a gated summand: zero where the gate is closed
        if v.op == "ite":
            c, hi, lo = v.a
            if lo is ZERO:
                return mk("sum", mk("for", s.a[0], mk("yield", band(g, c), hi)))
            if hi is ZERO:
                return mk("sum", mk("for", s.a[0], mk("yield", band(g, bnot(c)), lo)))
    return None


@rule("prod")
def _prod(s):
    if s.op == "yield":
        return ite(s.a[0], s.a[1], ONE)
    if s.op == "seq":
        return mk("mul", *[mk("prod", p) for p in s.a]) if s.a else ONE
    if s.op == "for" and s.a[1].op == "yield":
        g, v = s.a[1].a
        if v is ONE:
            return ONE
        if v.op == "ite":
            c, hi, lo = v.a
            if lo is ONE:
                return mk("prod", mk("for", s.a[0], mk("yield", band(g, c), hi)))
            if hi is ONE:
                return mk("prod", mk("for", s.a[0], mk("yield", band(g, bnot(c)), lo)))
    return None


@rule("add")
def _add(*a):
    if any(is_strish(x) for x in a):
        return mk("fmt", *a)
    if any(is_listy(x) for x in a):
        return mk("cat", *[as_splice(x) for x in a])
    flat = []
    n = 0
    for x in a:
        if x.op == "add":
            flat.extend(x.a)
        else:
            flat.append(x)
    out = []
    for x in flat:
        if is_num(x):
            n += x.a[1]
        else:
            out.append(x)
    # cancel x + -x
    for x in list(out):
        if x.op == "neg" and x.a[0] in out and x in out:
            out.remove(x)
            out.remove(x.a[0])
    # k * x - x is a multiple of x
    for x in list(out):
        if x.op == "neg" and x in out:
            for y in out:
                if y.op == "mul" and len(y.a) == 2 and x.a[0] in y.a and any(is_num(z) for z in y.a):
                    k = y.a[0] if is_num(y.a[0]) else y.a[1]
                    out.remove(x)
                    out.remove(y)
                    out.append(mk("mul", const(k.a[1] - 1), x.a[0]))
                    break
    if n != 0:
        out.append(const(n))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    out.sort(key=key)
    return _mk("add", tuple(out))


def as_splice(x):
    if x.op == "cat":
        return seq(*x.a) if x.a else SEQ0
    if x.op == "tuple":
        return seq(*[mk("yield", TRUE, y) for y in x.a])
    return mk("splice", TRUE, x)


B0 = _mk("b", (0, 0))


FRESH = {}  # functions that build the container they return


@rule("dict")
def _dict(s):
    if s.op == "for" and s.a[1].op == "yield" and s.a[1].a[0] is TRUE:
        d = s.a[0]
        if d.op == "call" and d.a[0] in FRESH and mk("items", d) is not None:
            k = pos_of(d)
            if s.a[1].a[1] is mk("tuple", k, mk("item", d, k)):
                return d
    if s.op == "seq" and len(s.a) > 1:
        # a record: the order in which its fields are named says nothing
        ks = [p.a[1].a[0] if p.op == "yield" and p.a[0] is TRUE and p.a[1].op == "tuple" else None for p in s.a]
        if all(k is not None and k.op == "c" and isinstance(k.a[1], str) for k in ks):
            last = {k: p for k, p in zip(ks, s.a)}
            order = [last[k] for k in sorted(last, key=key)]
            if order != list(s.a):
                return mk("dict", seq(*order))
    return None


@rule("cat")
def _cat(*a):
    """A list: the concatenation of streams."""
    s = seq(*a)
    parts = s.a if s.op == "seq" else (s,)
    if len(parts) == 1 and parts[0].op == "splice" and parts[0].a[0] is TRUE:
        if parts[0].a[1].op in ("cat", "sorted", "product", "slice", "reversed"):
            return parts[0].a[1]
    # the identity map is the list itself; kept as a splice to tell a copy from the original only by the heap
    if len(parts) == 1:
        d = _identity_stream(parts[0])
        if d is not None and (d.op in ("cat", "sorted", "product") or d.op == "call" and d.a[0] in FRESH):
            return d
        x = parts[0]
        if x.op == "for" and x.a[0].op in ("sorted", "product") and guard_of(x) is not TRUE:
            # a new list, or nothing at all
            g = closed_part(guard_of(x))
            if g is not TRUE:
                y = restrict(x, g)
                if _identity_stream(y) is not None:
                    return ite(g, x.a[0], _mk("cat", ()))
    r = _mk("cat", tuple(parts))
    return r


@rule("splice")
def _splice(g, x):
    if g is FALSE:
        return SEQ0
    if x.op == "cat":
        return guard_stream(seq(*x.a), g)
    if x.op == "tuple":
        return guard_stream(seq(*[mk("yield", TRUE, y) for y in x.a]), g)
    if x.op == "ite":
        return seq(mk("splice", band(g, x.a[0]), x.a[1]), mk("splice", band(g, bnot(x.a[0])), x.a[2]))
    return guard_stream(stream(x), g)


def pos_of(x):
    """Element of the iterable x at the innermost bound position."""
    return _mk("at", (x, _mk("b", (0, 0))))


def rank(d, g):
    """Number of the earlier positions of d where g (over the innermost binder) holds."""
    c = mk("for", d, mk("yield", g, ONE))
    return mk("rank", shift(c, 1), B0)


def counts(t):
    """A whole number which is not negative."""
    if is_num(t):
        return isinstance(t.a[1], int) and t.a[1] >= 0
    if t.op in ("bv", "b"):
        return t.a[1] == 0
    return t.op == "len" or t.op == "add" and all(counts(x) for x in t.a)


def elem_at(x):
    """Element of x (free of loose indices) at the innermost bound position, written through x where x is a map."""
    if x.op == "range" and x.a[0] is ZERO:
        return B0
    if x.op == "cat" and len(x.a) == 1 and x.a[0].op == "for":
        b = x.a[0].a[1]
        if b.op == "yield" and b.a[0] is TRUE:
            return b.a[1]
    if x.op == "slice" and x.a[2] is NONE and x.a[3] is NONE and counts(x.a[1]):
        e = elem_at(x.a[0])
        return subst_b0(e, mk("add", B0, shift(x.a[1], 1)))
    if x.op in VIEWS:
        s = stream(x)
        if s.op == "for" and s.a[1].op == "yield" and s.a[1].a[0] is TRUE:
            return s.a[1].a[1]
    return pos_of(x)


VIEWS = ("values", "items", "keys", "enum", "zip")


def subst_b0(t, v):
    def go(t, d):
        if t.mi <= d:
            return t
        if t.op == "b":
            return shift(v, d) if t.a == (d, 0) else t
        args = []
        for i, x in enumerate(t.a):
            if isinstance(x, T):
                args.append(go(x, d + 1 if _bound(t.op, i) else d))
            else:
                args.append(x)
        return mk(t.op, *args)

    return go(t, 0)


def dom_of(x):
    """The iterable whose positions a map over x runs through."""
    while True:
        if x.op == "cat" and len(x.a) == 1 and x.a[0].op == "for":
            b = x.a[0].a[1]
            if b.op == "yield" and b.a[0] is TRUE:
                x = x.a[0].a[0]
                continue
        if x.op in VIEWS:
            s = stream(x)
            if s.op == "for" and s.a[1].op == "yield" and s.a[1].a[0] is TRUE and s.a[0] is not x:
                x = s.a[0]
                continue
        break
    if x.op == "range" and x.a[0] is ZERO and x.a[1].op == "len":
        return dom_of(x.a[1].a[0])
    return x


def map_yields(s, f, d=0):
    """Apply f(value) to every yielded value; None when the stream is not made of yields."""
    if s.op == "yield":
        v = f(s.a[1])
        return None if v is None else mk("yield", s.a[0], v)
    if s.op == "seq":
        ps = [map_yields(p, f) for p in s.a]
        return None if any(p is None for p in ps) else seq(*ps)
    if s.op == "for":
        if s.a[1].op not in ("yield", "seq", "for"):
            return None
        b = map_yields(s.a[1], f)
        return None if b is None else mk("for", s.a[0], b)
    return None


LISTS = set()  # attributes that hold lists, which may hold one value twice


def one_each(s):
    """Whether the stream s of pairs has no key twice."""
    if s.op == "seq":
        ks = []
        for p in s.a:
            if p.op != "yield" or p.a[1].op != "tuple":
                return False
            ks.append(p.a[1].a[0])
        return all(mk("eq", x, y) is FALSE for i, x in enumerate(ks) for y in ks[:i])
    if s.op == "splice":
        return s.a[1].op in ("items", "sorted", "reversed") and s.a[1].a[0].op != "cat" and (
            s.a[1].op == "items" or s.a[1].a[0].op == "items")
    ds = []
    while s.op == "for":
        ds.append(s.a[0])
        s = s.a[1]
    if s.op != "yield" or s.a[1].op != "tuple":
        return False
    n = len(ds)
    seen = set()

    def told(k):
        """The loops whose position the key k tells."""
        if k.op in ("tuple", "fmt", "enum"):
            for x in k.a:
                told(x)
        elif k.op == "b" and k.a[1] == 0 and k.a[0] < n:
            seen.add(k.a[0])
        elif k.op == "at" and k.a[1].op == "b" and k.a[1].a[1] == 0 and k.a[1].a[0] < n:
            i = k.a[1].a[0]
            d = ds[n - 1 - i]
            if shift(d, i + 1) is k.a[0] and (
                    d.op in ("set", "dict", "setop", "keys", "toset", "range", "range3", "call", "bv", "item", "enter")
                    or d.op == "attr" and d.a[1] not in LISTS):
                seen.add(i)
        elif k.op == "add":
            vs = [x for x in k.a if x.mi]
            if len(vs) == 1:
                told(vs[0])
        elif k.op == "attr" and k.a[1] == "id" or k.op == "item" and k.a[1] is ZERO:
            told(k.a[0])
        elif k.op == "item" and k.a[0].op == "attr" and k.a[0].a[1] == "nodes":
            told(k.a[1])

    told(s.a[1].a[0])
    return len(seen) == n


def stream(x):
    """The elements of the iterable x, in order."""
    o = x.op
    if o == "v" and x.a[0].op in ("values", "items", "keys", "enum"):
        i = x.a[0]
        return stream(mk(i.op, mk("v", i.a[0], x.a[1]), *i.a[1:]))
    if o == "items":
        d = x.a[0]
        if d.op == "dict" and one_each(d.a[0]):
            return d.a[0]
        k = pos_of(d)
        return mk("for", d, mk("yield", TRUE, mk("tuple", k, mk("item", d, k))))
    if o == "values":
        d = x.a[0]
        if d.op == "dict" and one_each(d.a[0]):
            r = map_yields(d.a[0], lambda v: v.a[1] if v.op == "tuple" else mk("item", v, ONE))
            if r is not None:
                return r
        return mk("for", d, mk("yield", TRUE, mk("item", d, pos_of(d))))
    if o == "keys":
        return stream(x.a[0])
    if o == "dict" and one_each(x.a[0]):
        r = map_yields(x.a[0], lambda v: v.a[0] if v.op == "tuple" else mk("item", v, ZERO))
        if r is not None:
            return r
    if o == "enum":
        y = x.a[0]
        if y.op == "cat" and len(y.a) == 1 or y.op in ("range", "zip") or y.op in ("values", "items") and y.a[0].op == "dict":
            f = y.a[0] if y.op == "cat" else stream(y)
            if f.op == "for" and f.a[1].op == "yield" and f.a[1].a[0] is not TRUE:
                g, e = f.a[1].a
                return mk("for", f.a[0], mk("yield", g, mk("tuple", mk("add", rank(f.a[0], g), x.a[1]), e)))
        if y.op == "cat" and (len(y.a) != 1 or y.a[0].op == "for" and y.a[0].a[1].op != "yield"):
            # numbered by all the positions of the nested loops
            def number(s, d, k):
                if s.op == "yield":
                    n = _mk("nth", (shift(y, d), const(k), *[_mk("b", (j, 0)) for j in range(d)]))
                    return mk("yield", s.a[0], mk("tuple", mk("add", n, x.a[1]), s.a[1]))
                if s.op == "seq":
                    return seq(*[number(p, d, k * 10 + i) for i, p in enumerate(s.a)])
                if s.op == "for":
                    return mk("for", s.a[0], number(s.a[1], d + 1, k))
                raise KeyError

            try:
                return seq(*[number(p, 0, i) for i, p in enumerate(y.a)])
            except KeyError:
                pass
        d = dom_of(x.a[0])
        return mk("for", d, mk("yield", TRUE, mk("tuple", mk("add", B0, x.a[1]), elem_at(x.a[0]))))
    if o == "zip" and len(x.a) > 1 and all(y.op == "cat" and len(y.a) == 1 and y.a[0].op == "for"
                                           and y.a[0].a[1].op == "yield" for y in x.a):
        f0 = x.a[0].a[0]
        if f0.a[1].a[0] is not TRUE and all(
                y.a[0].a[0] is f0.a[0] and y.a[0].a[1].a[0] is f0.a[1].a[0] for y in x.a):
            return mk("for", f0.a[0], mk("yield", f0.a[1].a[0], mk("tuple", *[y.a[0].a[1].a[1] for y in x.a])))
    if o == "zip" and x.a and all(isinstance(y, T) for y in x.a):
        d = dom_of(x.a[0])
        g = TRUE
        for y in x.a[1:]:
            # shorter than the first by what is cut off
            if y.op == "slice" and is_num(y.a[1]) and y.a[1].a[1] > 0 and y.a[2] is NONE and y.a[3] is NONE and d is dom_of(y.a[0]):
                g = band(g, mk("lt", mk("add", B0, y.a[1]), shift(mk("len", y.a[0]), 1)))
        return mk("for", d, mk("yield", g, mk("tuple", *[elem_at(y) for y in x.a])))
    if o == "comb2":
        d = dom_of(x.a[0])
        e = elem_at(x.a[0])
        return mk("for", d, mk("for", d, mk("yield", mk("lt", _mk("b", (1, 0)), B0), mk("tuple", shift(e, 1), e))))
    if o == "product" and x.a[0].op == "cat" and x.a[0].a and all(
            p.op == "yield" and p.a[0] is TRUE for p in x.a[0].a) and len(x.a[0].a) <= 4:
        xs = [p.a[1] for p in x.a[0].a]
        n = len(xs)
        r = mk("yield", TRUE, mk("tuple", *[shift(elem_at(y), n - 1 - i) for i, y in enumerate(xs)]))
        for y in reversed(xs):
            r = mk("for", dom_of(y), r)
        return r
    if o == "range":
        lo, hi = x.a
        if hi.op == "sum" and lo is ZERO and hi.a[0].op == "for" and hi.a[0].a[1].op == "yield" \
                and hi.a[0].a[1].a[1] is ONE and hi.a[0].a[1].a[0] is not TRUE:
            d, g = hi.a[0].a[0], hi.a[0].a[1].a[0]
            return mk("for", d, mk("yield", g, rank(d, g)))
        if lo is ZERO and hi.op == "add" and len(hi.a) == 2:
            for c, n in (hi.a, hi.a[::-1]):
                if is_num(c) and isinstance(c.a[1], int) and c.a[1] < 0 and n.op == "len":
                    d = dom_of(n.a[0])
                    return mk("for", d, mk("yield", mk("lt", mk("add", B0, const(-c.a[1])), shift(n, 1)), B0))
        d = hi.a[0] if hi.op == "len" else mk("range", ZERO, hi)
        if hi.op == "len":
            d = dom_of(d)
        if lo is ZERO:
            return mk("for", d, mk("yield", TRUE, B0))
        return mk("for", d, mk("yield", bnot(mk("lt", B0, shift(lo, 1))), B0))
    if o == "slice" and x.a[2] is NONE and x.a[3] is NONE and counts(x.a[1]):
        d = dom_of(x.a[0])
        return mk("for", d, mk("yield", bnot(mk("lt", B0, shift(x.a[1], 1))), elem_at(x.a[0])))
    if o == "slice" and x.a[1] in (NONE, ZERO) and x.a[3] is NONE and counts(x.a[2]):
        d = dom_of(x.a[0])
        return mk("for", d, mk("yield", mk("lt", B0, shift(x.a[2], 1)), elem_at(x.a[0])))
    if o == "slice" and x.a[1] in (NONE, ZERO) and x.a[3] is NONE and is_num(x.a[2]) and x.a[2].a[1] < 0:
        d = dom_of(x.a[0])
        return mk("for", d, mk("yield", mk("lt", mk("add", B0, const(-x.a[2].a[1])), shift(mk("len", x.a[0]), 1)), elem_at(x.a[0])))
    # the identity loop
    return mk("for", x, mk("yield", TRUE, pos_of(x)))


@rule("best")
def _best(x, k):
    if x.op == "cat" and len(x.a) == 2 and all(p.op == "yield" and p.a[0] is TRUE for p in x.a):
        if k is NONE:
            return mk("min2", x.a[0].a[1], x.a[1].a[1])
        if k.op == "rev" and k.a[0] is NONE and k.a[1] is TRUE:
            return mk("max2", x.a[0].a[1], x.a[1].a[1])
    r = k.a[0] if k.op == "rev" else k
    if x.op == "cat" and len(x.a) == 1 and x.a[0].op == "for" and x.a[0].a[1].op == "yield" and x.a[0].a[1].a[0] is TRUE and r.op == "lam":
        # the best of what is made of the elements: made of the best element
        d, v = x.a[0].a[0], x.a[0].a[1].a[1]
        e = pos_of(d)
        b = _inst_key(r.a[0], v)
        if d.mi == 0 and _only_through(v, e) and _only_through(b, e):
            n = mk("lam", _replace(b, e, B0))
            best = mk("best", d, mk("rev", n, k.a[1]) if k.op == "rev" else n)
            return inst0(_replace(v, e, B0), best)
    if r.op == "lam" and x.mi == 0 and x.op not in ("cat", "tuple"):
        n = deep_assume(r.a[0], mk("in", B0, x), True)
        if n is not r.a[0]:
            return mk("best", x, mk("rev", mk("lam", n), k.a[1]) if k.op == "rev" else mk("lam", n))
    return None


@rule("first")
def _first(s):
    if s.op == "for":
        v = _constant_stream(s)
        if v is not None:
            return v
    if s.op == "for" and s.a[1].op == "yield":
        g, v = s.a[1].a
        if v.op == "tuple" or v.op == "cat" and v.a and all(p.op == "yield" and p.a[0] is TRUE for p in v.a):
            f = lambda e: mk("first", mk("for", s.a[0], mk("yield", g, e))) if e.mi else e
            return mk("tuple", *[f(e) for e in v.a]) if v.op == "tuple" else mk("cat", *[mk("yield", TRUE, f(p.a[1])) for p in v.a])
    return None


def _constant_stream(s):
    """What every element of the stream is, where they are all one constant."""
    if s.op == "yield":
        return s.a[1] if s.a[1].op == "c" else None
    if s.op == "for":
        return _constant_stream(s.a[1])
    if s.op == "seq":
        vs = {_constant_stream(x) for x in s.a}
        return vs.pop() if len(vs) == 1 else None
    return None


@rule("set")
def _set(s):
    r = _flat(s)
    if r is not s:
        return mk("set", r)
    # order and multiplicity do not matter
    if s.op == "seq":
        parts = sorted(set(s.a), key=key)
        r = _mk("seq", tuple(parts)) if len(parts) != 1 else parts[0]
        if r is not s:
            return mk("set", r)
    if s.op == "for" and s.a[1].op == "yield" and s.a[1].a[0].op == "in" and s.a[1].a[1] is _mk("at", (s.a[0], B0)) \
            and s.a[1].a[0].a[0] is s.a[1].a[1] and s.a[1].a[0].a[1].mi == 0 and s.a[0].mi == 0:
        return mk("setop", "inter", s.a[0], s.a[1].a[0].a[1])
    d = _identity_stream(s)
    if d is not None and d.op in ("set", "sorted", "toset", "keys", "setop"):
        if d.op in ("set", "setop"):
            return d
        return mk("set", mk("splice", TRUE, d.a[0]))
    if d is not None and d.op == "call" and FRESH.get(d.a[0]) == "set":
        return d
    if d is not None and d.op == "cat":
        return mk("set", seq(*d.a))
    return None


@rule("setop")
def _setop(o, x, y):
    def ss(t):
        return t

    if o == "union":
        return mk("set", seq(members(x), members(y)))
    if o == "diff":
        r = _filter(members(x), lambda v, d: bnot(mk("in", v, shift(y, d) if y.mi else y)))
        if r is not None:
            return mk("set", r)
    if o == "inter":
        if x is y:
            return x
        if key(y) < key(x):
            x, y = y, x
    return _mk("setop", (o, x, y))


def members(x):
    """The elements of x in any order, and as often as you like."""
    while x.op in ("sorted", "reversed", "toset", "keys") and isinstance(x.a[0], T):
        x = x.a[0]
    return x.a[0] if x.op == "set" else as_splice(x)


def _filter(s, f, d=0):
    """The elements of a stream for which f holds."""
    if s.op == "yield":
        return guard_stream(s, f(s.a[1], d))
    if s.op == "seq":
        ps = [_filter(p, f, d) for p in s.a]
        return None if any(p is None for p in ps) else seq(*ps)
    if s.op == "for":
        b = _filter(s.a[1], f, d + 1)
        return None if b is None else mk("for", s.a[0], b)
    return None


@rule("mul")
def _mul(*a):
    flat = []
    for x in a:
        if x.op == "mul":
            flat.extend(x.a)
        else:
            flat.append(x)
    n = 1
    out = []
    neg = False
    for x in flat:
        if is_num(x):
            n *= x.a[1]
        elif x.op == "neg":
            neg = not neg
            out.append(x.a[0])
        else:
            out.append(x)
    if neg:
        n = -n
    if n == 0:
        return ZERO
    for x in out:
        if x.op == "prod" and x.a[0].op == "for" and x.a[0].a[1].op == "yield" and x.a[0].a[1].a[0] is bnot(mk("lt", B0, ONE)):
            # the first element, and the others
            y = inst0(x.a[0].a[1].a[1], ZERO)
            d = x.a[0].a[0]
            if y not in out:
                y = subst(y, {mk("at", d, ZERO): mk("item", d, ZERO)})
            if y in out:
                out.remove(x)
                out.remove(y)
                return mk("mul", const(n), mk("prod", mk("for", x.a[0].a[0], mk("yield", TRUE, x.a[0].a[1].a[1]))), *out)
    if n == -1 and out:
        out.sort(key=key)
        return mk("neg", out[0] if len(out) == 1 else _mk("mul", tuple(out)))
    if n != 1:
        out.append(const(n))
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    out.sort(key=key)
    return _mk("mul", tuple(out))


@rule("neg")
def _neg(x):
    if is_num(x):
        return const(-x.a[1])
    if x.op == "neg":
        return x.a[0]
    return None


@rule("sub")
def _sub(x, y):
    if is_num(x) and is_num(y):
        return const(x.a[1] - y.a[1])
    if y is ZERO:
        return x
    if x is y and x.op in ("c", "bv", "b", "len"):
        return ZERO
    return mk("add", x, mk("neg", y))


@rule("div")
def _div(x, y):
    if is_num(x) and is_num(y) and y.a[1] != 0:
        return const(x.a[1] / y.a[1])
    if y is ONE:
        return x
    return None


@rule("min2", "max2")
def _mm(x, y):
    return None


def _minmax(op, x, y):
    if x is y:
        return x
    if is_num(x) and is_num(y):
        return const(min(x.a[1], y.a[1]) if op == "min2" else max(x.a[1], y.a[1]))
    # clamp: min(c1, max(c0, v)) -> max(c0, min(c1, v))
    if op == "min2":
        for p, q in ((x, y), (y, x)):
            if is_num(p) and q.op == "max2":
                for u, v in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                    if is_num(u) and u.a[1] <= p.a[1]:
                        return mk("max2", u, mk("min2", v, p))
    if key(y) < key(x):
        x, y = y, x
    return _mk(op, (x, y))


_RULES["min2"] = lambda x, y: _minmax("min2", x, y)
_RULES["max2"] = lambda x, y: _minmax("max2", x, y)


@rule("str")
def _str(x):
    if is_str(x):
        return x
    if x.op in ("fmt", "join", "str"):
        return x
    if is_num(x) and isinstance(x.a[1], int):
        return None
    return None


@rule("fmt")
def _fmt(*a):
    """String concatenation of the str() of its arguments."""
    out = []
    for x in a:
        if x.op == "fmt":
            parts = x.a
        elif x.op == "str":
            parts = (x.a[0],)
        else:
            parts = (x,)
        for p in parts:
            if p.op == "fmt":
                qs = p.a
            else:
                qs = (p,)
            for q in qs:
                if is_str(q) and out and is_str(out[-1]):
                    out[-1] = const(out[-1].a[1] + q.a[1])
                elif is_str(q) and q.a[1] == "":
                    continue
                else:
                    out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_strish(out[0]):
        return out[0]
    if len(out) == 1:
        return mk("str", out[0])
    if tuple(out) == a:
        return None
    return _mk("fmt", tuple(out))


@rule("join")
def _join(sep, xs):
    if xs.op == "tuple" or (xs.op == "cat" and all(s.op == "yield" and s.a[0] is TRUE for s in xs.a)):
        items = xs.a if xs.op == "tuple" else [s.a[1] for s in xs.a]
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(sep)
            out.append(x)
        return mk("fmt", *out) if out else const("")
    if xs.op == "ite":
        return ite(xs.a[0], mk("join", sep, xs.a[1]), mk("join", sep, xs.a[2]))
    if sep.op == "ite":
        return ite(sep.a[0], mk("join", sep.a[1], xs), mk("join", sep.a[2], xs))
    if xs.op == "cat" and len(xs.a) > 1 and all(s.op == "yield" for s in xs.a):
        g = next((s.a[0] for s in xs.a if s.a[0] is not TRUE), None)
        if g is not None and all(s.a[0] in (TRUE, g, bnot(g)) for s in xs.a):
            # one list or another
            return ite(g, mk("join", sep, restrict(xs, g)), mk("join", sep, restrict(xs, bnot(g))))
    if xs.op == "cat":
        # the elements are strings: str() of an element is the element
        ys = tuple(_unstr(s) for s in xs.a)
        if ys != xs.a:
            return mk("join", sep, mk("cat", *ys))
    return None


def _unstr(s):
    if s.op == "yield":
        v = s.a[1]
        if v.op == "str":
            return mk("yield", s.a[0], v.a[0])
        return s
    if s.op == "for":
        return mk("for", s.a[0], _unstr(s.a[1]))
    if s.op == "seq":
        return seq(*[_unstr(x) for x in s.a])
    return s


@rule("truthy")
def _truthy(x):
    if is_bool(x):
        return x
    if x.op == "c":
        return TRUE if x.a[1] else FALSE
    if x.op in ("cat", "set", "dict", "sorted", "tuple", "range", "keys", "product", "setop", "toset"):
        return mk("nonempty", x)
    if x.op == "len":
        return mk("nonempty", x.a[0])
    if x.op in ("sum", "add", "mul", "div", "neg"):
        return bnot(mk("eq", x, ZERO))
    if x.op in ("new", "obj", "lam", "fn", "cls", "ref", "member"):
        return TRUE
    if is_strish(x):
        return mk("nonempty", x)
    return None


def truth(x):
    if is_bool(x):
        return x
    if x.op == "ite":
        return ite(x.a[0], truth(x.a[1]), truth(x.a[2]))
    return mk("truthy", x)


@rule("item")
def _item(b, k):
    if b.op == "tuple" and is_num(k) and isinstance(k.a[1], int) and -len(b.a) <= k.a[1] < len(b.a):
        return b.a[k.a[1]]
    if b.op == "cat" and is_num(k) and isinstance(k.a[1], int):
        ss = b.a
        if all(s.op == "yield" and s.a[0] is TRUE for s in ss) and -len(ss) <= k.a[1] < len(ss):
            return ss[k.a[1]].a[1]
        if k.a[1] >= 0 and len(ss) > k.a[1] and all(s.op == "yield" and s.a[0] is TRUE for s in ss[: k.a[1] + 1]):
            return ss[k.a[1]].a[1]
    if b.op == "slice" and is_num(k) and k.a[1] >= 0 and b.a[3] is NONE:
        # an element of the part taken
        lo, hi = b.a[1], b.a[2]
        lo = 0 if lo is NONE else lo.a[1] if is_num(lo) and lo.a[1] >= 0 else None
        if lo is not None and (hi is NONE or is_num(hi) and hi.a[1] > lo + k.a[1]):
            return mk("item", b.a[0], const(lo + k.a[1]))
    if b.op == "sorted" and k is ZERO:
        return mk("best", b.a[0], b.a[1])
    if b.op == "sorted" and is_num(k) and k.a[1] == -1:
        return None
    if k.op == "rank":
        return _at_rank(b, k)
    if b.op == "v":
        r = _read_back(b, k)
        if r is not None:
            return r
    if b.op == "dict":
        r = _dict_lookup(b.a[0], k)
        if r is not None:
            return r
    return None


def _read_back(b, k):
    """What was stored last under the key that is read."""
    d, ver = b.a
    if ver.op != "ver" or ver.a[1].op != "do" or ver.a[1].a[1].op != "eff":
        return None
    g, e = ver.a[1].a
    if e.a[0] == "setitem" and len(e.a) == 4 and e.a[1] is d and e.a[2] is k:
        # a list made here is followed through the place it is in
        x = e.a[3] if e.a[3].op not in ("cat", "set", "dict") else None
    elif e.a[0] == "call" and e.a[1] == "node:Node.add_metadata" and d.op == "attr" and d.a[1] == "metadata" \
            and len(e.a[2].a) == 3 and e.a[2].a[0] is d.a[0] and e.a[2].a[1] is k:
        x = e.a[2].a[2]
    else:
        return None
    if x is None:
        return None
    old = ver.a[0]
    return ite(g, x, mk("item", d if old is NONE else mk("v", d, old), k))


def _dict_lookup(s, k):
    if s.op == "yield" and s.a[0] is TRUE and s.a[1].op == "tuple":
        if s.a[1].a[0] is k:
            return s.a[1].a[1]
    if s.op == "seq" and s.a:
        for p in reversed(s.a):
            if p.op == "yield" and p.a[1].op == "tuple":
                e = mk("eq", p.a[1].a[0], k)
                if e is TRUE and p.a[0] is TRUE:
                    return p.a[1].a[1]
                if e is FALSE:
                    continue
                return None
            return None
    if s.op == "for" and s.a[1].op == "yield" and s.a[1].a[1].op == "tuple":
        d1 = shift(s.a[0], 1)
        e = _mk("at", (d1, _mk("b", (0, 0))))
        kk, v = s.a[1].a[1].a
        if k.op == "at" and k.a[0] is s.a[0] and kk is e and _only_through(v, e):
            return inst0(v, k.a[1])
        # the key of the entry made at some position in scope
        if kk.mi and k.op == kk.op and k.size == kk.size:
            for p in positions(k):
                if inst0(kk, p) is k:
                    return inst0(v, p)
    return None


def positions(t):
    """Positions of enclosing loops that t mentions."""
    out = []

    def go(t, d):
        if t.op == "bv":
            if t.a[1] == 0 and t not in out:
                out.append(t)
        elif t.op == "b":
            if t.a[0] >= d and t.a[1] == 0:
                x = _mk("b", (t.a[0] - d, 0))
                if x not in out:
                    out.append(x)
        elif t.mi > d or t.fv:
            for i, x in enumerate(t.a):
                if isinstance(x, T):
                    go(x, d + 1 if _bound(t.op, i) else d)

    go(t, 0)
    return out


def _only_through(v, e):
    """Whether v depends on the innermost position only through the element e."""
    def go(t, d):
        if t.mi <= d:
            return True
        if t.op == "b":
            return t.a[0] != d
        if t is (shift(e, d) if d else e):
            return True
        return all(go(x, d + 1 if _bound(t.op, i) else d) for i, x in enumerate(t.a) if isinstance(x, T))

    return go(v, 0)


def _at_rank(b, k):
    """An element of a filtered map, by the number of the elements kept before it."""
    c, i = k.a
    if b.op == "cat" and len(b.a) == 1 and b.a[0].op == "for" and b.a[0].a[1].op == "yield":
        f = b.a[0]
        if f.a[0] is c.a[0] and f.a[1].a[0] is c.a[1].a[0]:
            return inst0(f.a[1].a[1], i)
    return None


def inst0(t, v):
    """The body t of a binder, at position v: the binder is gone."""
    def go(t, d):
        if t.mi <= d:
            return t
        if t.op == "b":
            if t.a[0] == d:
                return shift(v, d) if t.a[1] == 0 else t
            return _mk("b", (t.a[0] - 1, t.a[1]))
        return mk(t.op, *[go(x, d + 1 if _bound(t.op, i) else d) if isinstance(x, T) else x for i, x in enumerate(t.a)])

    return go(t, 0)


@rule("at")
def _at(d, p):
    if p.op == "rank":
        return _at_rank(d, p)
    if d.op == "range" and p.op in ("bv", "b"):
        if d.a[0] is ZERO:
            return p
        return mk("add", d.a[0], p)
    return None


@rule("range")
def _range(lo, hi):
    return None


@rule("sorted")
def _sorted(x, k):
    if x.op in ("sorted",) and x.a[1] is k:
        return x
    if k is NONE and x.op == "cat" and len(x.a) == 2 and all(s.op == "yield" and s.a[0] is TRUE for s in x.a):
        p, q = x.a[0].a[1], x.a[1].a[1]
        return mk("cat", mk("yield", TRUE, mk("min2", p, q)), mk("yield", TRUE, mk("max2", p, q)))
    if k is NONE and x.op == "tuple" and len(x.a) == 2:
        return mk("cat", mk("yield", TRUE, mk("min2", *x.a)), mk("yield", TRUE, mk("max2", *x.a)))
    if x.op == "cat" and len(x.a) == 1:
        d = _identity_stream(x.a[0])
        if d is not None:
            return mk("sorted", d, k)
        g = guard_of(x.a[0])
        if g is not TRUE:
            g = g if g.mi == 0 else closed_part(g)
            if g is not TRUE:
                s = restrict(x.a[0], g)
                if s is not x.a[0]:
                    return ite(g, mk("sorted", mk("cat", s), k), mk("cat", SEQ0))
        s = x.a[0]
        if s.op == "for" and s.a[1].op == "yield" and s.a[1].a[0] is TRUE and s.a[0].mi == 0 and s.a[0].op != "sorted":
            # sorting what is made of the elements, by the elements themselves
            d, v = s.a[0], s.a[1].a[1]
            e = pos_of(d)
            if k.op == "lam" and _inst_key(k.a[0], v) is e and _only_through(v, e):
                o = mk("sorted", d, NONE)
                return mk("cat", mk("for", o, mk("yield", TRUE, _replace(v, e, pos_of(o)))))
    if x.op in ("toset",):
        return None
    return None


@rule("product")
def _product(x):
    """All choices out of lists made of other lists, from all choices out of those."""
    if x.op != "cat" or len(x.a) != 1 or x.a[0].op != "for":
        return None
    d, y = x.a[0].a
    if y.op != "yield" or y.a[0] is not TRUE or y.a[1].op != "cat" or len(y.a[1].a) != 1:
        return None
    f = y.a[1].a[0]
    if f.op != "for" or f.a[1].op != "yield" or f.a[1].a[0] is not TRUE:
        return None
    v, w = f.a[0], f.a[1].a[1]
    e = pos_of(shift(v, 1))
    if w is e or not _only_through(w, e):
        return None
    p = mk("product", mk("cat", mk("for", d, mk("yield", TRUE, v))))
    if p.op != "product":
        return None
    hole = _mk("p", ("the choice",))
    w = shift(inst0(_replace(w, e, hole), ZERO), 1, 1)
    w = _replace(w, hole, mk("at", mk("at", shift(p, 2), _mk("b", (1, 0))), B0))
    return mk("cat", mk("for", p, mk("yield", TRUE, mk("cat", mk("for", shift(d, 1), mk("yield", TRUE, w))))))


def _inst_key(body, v):
    """The sorting key of v, a term over the position of the element."""
    # the key's own binder is replaced by v, which stays under the binder of the element
    return inst0(shift(body, 1, 1), v)


def _replace(t, e, v):
    def go(t, d):
        if t.mi <= d and e.mi:
            return t
        if t is (shift(e, d) if d else e):
            return shift(v, d) if d else v
        return mk(t.op, *[go(x, d + 1 if _bound(t.op, i) else d) if isinstance(x, T) else x for i, x in enumerate(t.a)])

    return go(t, 0)


@rule("toset")
def _toset(x):
    return mk("set", mk("splice", TRUE, x))


# ---------------------------------------------------------------- display
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 40:
        return "..."
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "c":
        return repr(a[1])
    if o == "p":
        return str(a[0])
    if o == "bv":
        return f"L{a[0]}" + (f".{a[1]}" if a[1] != 0 else "")
    if o == "b":
        return f"#{a[0]}" + (f".{a[1]}" if a[1] != 0 else "")
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "at":
        return f"{s(a[0])}<{s(a[1])}>"
    if o == "ite":
        if a[1] is FALSE and a[2] is TRUE:
            return f"!{s(a[0])}"
        if a[2] is FALSE and is_bool(a[1]):
            return f"({s(a[0])} & {s(a[1])})"
        if a[1] is FALSE and is_bool(a[2]):
            return f"(!{s(a[0])} & {s(a[2])})"
        if a[1] is TRUE and is_bool(a[2]):
            return f"({s(a[0])} | {s(a[2])})"
        return f"({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    if o == "eq":
        return f"{s(a[0])}=={s(a[1])}"
    if o == "lt":
        return f"{s(a[0])}<{s(a[1])}"
    if o == "in":
        return f"{s(a[0])} in {s(a[1])}"
    if o in ("add", "mul"):
        return "(" + (" + " if o == "add" else " * ").join(s(x) for x in a) + ")"
    if o == "for":
        return f"for {s(a[0])} {{ {s(a[1])} }}"
    if o == "yield":
        return ("" if a[0] is TRUE else f"when {s(a[0])} ") + f"=> {s(a[1])}"
    if o == "do":
        return ("" if a[0] is TRUE else f"when {s(a[0])} ") + f"do {s(a[1])}"
    if o == "seq":
        return "; ".join(s(x) for x in a)
    if o == "cat":
        return "[" + "; ".join(s(x) for x in a) + "]"
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    return o + "(" + ", ".join(s(x) for x in a) + ")"
