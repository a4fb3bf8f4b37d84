"""What the classes of the package keep true of their objects, used to identify two ways of reading one value.

    graph.nodes[k].id          is  k                      add_node is the one writer of nodes
    node.variable.id           is  node.id                BbnNode.__init__
    node.weight                is  len(node.variable.values)
    edge.sep_set.left, .right  is  edge.i, edge.j         JtEdge.__init__
    table.parent_ids           is  the ids of table.parents, which is never None
    sampler.tables             has the keys that sampler.nodes lists
    H.index(name)              is  I[name]                GaussianInference.__init__
    E.shape, len(M)            is  len(H) in both directions
    clique.node_ids            is  the set of the ids of clique.nodes

Each is established by the constructor or writer named, whose own summary is compared with its contract, and no
other function writes the fields; the constructors themselves are compared without them.
"""

from .terms import FALSE, NONE, SEQ0, T, TRUE, ZERO, assume, bnot, mk, _bound, key, shift, subst, subst_b0, _filter

KEEPERS = {"Node", "BbnNode", "Clique", "SepSet", "JtEdge", "Edge", "Table", "LogicSampler", "GaussianInference", "NodeClique"}
ATTRS = {"id", "weight", "left", "right", "parent_ids", "name", "node_ids"}


def applies(q):
    c = q.split(":")[1].split(".")
    return not (c[-1] == "__init__")


def loose(t):
    """Whether t mentions the innermost loop variable."""
    st = [(t, 0)]
    while st:
        x, d = st.pop()
        if x.op == "b" and x.a[0] == d:
            return True
        st.extend((y, d + 1 if _bound(x.op, i) else d) for i, y in enumerate(x.a) if isinstance(y, T) and y.mi > d)
    return False


def swap(t, d=0):
    """The two innermost loop variables exchanged."""
    if t.mi <= d:
        return t
    if t.op == "b":
        k = t.a[0] - d
        return mk("b", d + 1 - k, *t.a[1:]) if k in (0, 1) else t
    return mk(t.op, *[swap(x, d + 1 if _bound(t.op, i) else d) if isinstance(x, T) else x for i, x in enumerate(t.a)])


def me_at(d, n=1):
    return mk("attr", mk("at", shift(d, n), mk("b", 0, 0)), "id")


def within(t, op):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == op:
            yield x
        st.extend(y for y in x.a if isinstance(y, T))


def chosen_index(t, d, n=0):
    """In a loop over the range d: whether its index is among those of the range that a condition picks, is the condition."""
    if t.mi <= n:
        return t
    if t.op == "any" and t.a[0].op == "for" and t.a[0].a[0] is shift(d, n + 1) and t.a[0].a[1].op == "yield" and t.a[0].a[1].a[1] is TRUE:
        g = t.a[0].a[1].a[0]
        e = mk("eq", mk("b", 0, 0), mk("b", n + 1, 0))
        if assume(g, e, False) is FALSE:
            return shift(subst_b0(assume(g, e, True), mk("b", n + 1, 0)), -1)
    return mk(t.op, *[chosen_index(x, d, n + 1 if _bound(t.op, i) else n) if isinstance(x, T) else x for i, x in enumerate(t.a)])


class Relax:
    def __init__(self, it):
        self.it = it
        self.memo = {}

    def ty(self, t):
        return self.it.types.typeof(t, self.it)

    def is_a(self, t, *names):
        c = self.ty(t)
        if not isinstance(c, str):
            return False
        k = self.it.P.get_class(c.split(".")[-1])
        if k is None:
            return False
        return any(b.name in names for b in self.it.P.mro(k))

    def __call__(self, t):
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        args = []
        ch = False
        for x in t.a:
            y = self(x) if isinstance(x, T) else x
            ch |= y is not x
            args.append(y)
        r = mk(t.op, *args) if ch else t
        n = self.step(r)
        k = 0
        while n is not r and k < 6:
            r, k = n, k + 1
            n = self.step(r)
        self.memo[t] = r
        return r

    def step(self, t):
        o, a = t.op, t.a
        if o == "attr":
            b, n = a
            if n == "id":
                i = self.bare(b)
                if i.op == "item" and i.a[0].op == "attr" and i.a[0].a[1] == "nodes" and self.graph(i.a[0]):
                    return i.a[1]
                if i.op == "attr" and i.a[1] == "variable":
                    return self(mk("attr", i.a[0], "id"))
            elif n == "name":
                # the name of the variable with the id of that name
                i = self.bare(b)
                if i.op == "attr" and i.a[1] == "variable":
                    i = self.bare(i.a[0])
                    if i.op == "item" and i.a[0].op == "attr" and i.a[0].a[1] == "nodes":
                        k = i.a[1]
                        if k.op == "item" and k.a[0].op == "call" and k.a[0].a[0] == "dag:Dag.get_n2i" and k.a[0].a[1].a and \
                                self.bare(k.a[0].a[1].a[0]) is self.bare(i.a[0].a[0]):
                            return k.a[1]
            elif n == "weight":
                if self.is_a(b, "BbnNode"):
                    return mk("len", mk("attr", mk("attr", b, "variable"), "values"))
            elif n in ("left", "right"):
                i = self.bare(b)
                if i.op == "attr" and i.a[1] == "sep_set":
                    return mk("attr", i.a[0], "i" if n == "left" else "j")
            elif n == "parent_ids":
                if self.is_a(b, "Table"):
                    return self.ids(mk("attr", b, "parents"))
            elif n == "node_ids":
                if self.is_a(b, "Clique"):
                    return mk("set", self.ids(mk("attr", b, "nodes")).a[0])
        elif o == "eq":
            for p in a:
                if p.op == "attr" and p.a[1] == "parents" and self.is_a(p.a[0], "Table") and any(x is NONE for x in a):
                    return FALSE
            for p, q in (a, a[::-1]):
                if q is FALSE and self.flag(p):
                    return bnot(mk("eq", p, TRUE))
                if q is NONE and p.op == "item" and p.a[1].op == "c" and p.a[1].a[1] == "parent.clique" and p.a[0].op == "attr" and p.a[0].a[1] == "metadata":
                    return FALSE
        elif o == "len":
            x = a[0]
            if x.op == "attr" and x.a[1] == "tables" and self.is_a(x.a[0], "LogicSampler"):
                return mk("len", mk("attr", x.a[0], "nodes"))
            if x.op == "attr" and x.a[1] == "M" and self.gauss(x.a[0]):
                return mk("len", mk("attr", x.a[0], "H"))
            if x.op == "attr" and x.a[1] == "E" and self.gauss(x.a[0]):
                return mk("len", mk("attr", x.a[0], "H"))
        elif o == "truthy":
            if self.flag(a[0]):
                return mk("eq", a[0], TRUE)
        elif o == "for":
            d = a[0]
            if d.op == "attr" and d.a[1] == "M" and self.gauss(d.a[0]):
                return self(mk("for", mk("range", ZERO, mk("len", mk("attr", d.a[0], "H"))), a[1]))
            if d.op == "range" and d.a[0] is ZERO:
                b = chosen_index(a[1], d)
                if b is not a[1]:
                    return mk("for", d, b)
        elif o == "any":
            # two loops that do not depend on each other, in either order
            s = a[0]
            if s.op == "for" and s.a[1].op == "yield" and s.a[1].a[0].op == "any" and s.a[1].a[1] is TRUE:
                i = s.a[1].a[0].a[0]
                if i.op == "for" and i.a[1].op == "yield" and i.a[1].a[1] is TRUE and not loose(i.a[0]):
                    d = shift(i.a[0], -1)
                    if key(d) < key(s.a[0]):
                        return mk("any", mk("for", d, mk("yield", mk("any", mk("for", shift(s.a[0], 1), mk("yield", swap(i.a[1].a[0]), TRUE))), TRUE)))
        elif o == "ite":
            c = a[0]
            m = {}
            for x in within(a[2], "setop"):
                if x.a[0] == "inter" and not x.mi and self(mk("nonempty", x)) is c:
                    m[x] = mk("set", SEQ0)
            for x in within(a[2], "cat"):
                if c.op == "any" and len(x.a) == 1 and not x.mi and x.a[0].op == "for" and mk("nonempty", x) is c:
                    m[x] = mk("cat")
            if m:
                return mk("ite", c, a[1], self(subst(a[2], m)))
        elif o == "sorted" and a[1] is NONE:
            # the ids of a clique are different from each other
            x = a[0]
            if x.op == "setop" and x.a[0] == "inter":
                for p, q in sorted(((x.a[1], x.a[2]), (x.a[2], x.a[1])), key=lambda z: key(z[0])):
                    if p.op == "set" and self.distinct(p.a[0]):
                        r = _filter(p.a[0], lambda v, d: mk("in", v, shift(q, d) if q.mi else q))
                        if r is not None:
                            return mk("sorted", mk("cat", r), NONE)
            if x.op == "set" and self.distinct(x.a[0]):
                return mk("sorted", mk("cat", x.a[0]), NONE)
            if x.op == "cat" and len(x.a) == 1:
                s = self.common(x.a[0])
                if s is not None and key(s) < key(x.a[0]):
                    return mk("sorted", mk("cat", s), NONE)
        elif o == "item":
            x = a[0]
            if x.op == "attr" and x.a[1] == "shape" and x.a[0].op == "attr" and x.a[0].a[1] in ("E", "M") and self.gauss(x.a[0].a[0]):
                return mk("len", mk("attr", x.a[0].a[0], "H"))
        elif o == "mcall":
            x = a[0]
            if a[1] == "index" and x.op == "attr" and x.a[1] == "H" and self.gauss(x.a[0]) and len(a[2].a) == 1:
                return mk("item", mk("attr", x.a[0], "I"), a[2].a[0])
        return t

    def flag(self, t):
        """A yes or no in what get_paths says of a path."""
        if t.op != "item" or t.a[1].op != "c" or t.a[1].a[1] not in ("is_active", "backdoor", "frontdoor"):
            return False
        x = t.a[0]
        return x.op in ("at", "item") and x.a[0].op == "call" and x.a[0].a[0] == "do:get_paths"

    def bare(self, t):
        return t.a[0] if t.op == "v" else t

    def gauss(self, t):
        return self.is_a(t, "GaussianInference")

    def graph(self, t):
        y = self.ty(t)
        return isinstance(y, tuple) and y[0] == "dict"

    def distinct(self, s):
        """The stream of the ids of a clique's nodes."""
        if s.op != "for" or s.a[1].op != "yield":
            return False
        d, v = s.a[0], s.a[1].a[1]
        return d.op == "attr" and d.a[1] == "nodes" and self.is_a(d.a[0], "Clique") and \
            v.op == "attr" and v.a[1] == "id" and v.a[0].op == "at" and v.a[0].a[0] is d

    def common(self, s):
        """The ids that two cliques share, taken from the other of the two."""
        if s.op != "for" or s.a[1].op != "yield" or s.a[1].a[0].op != "any" or not self.distinct(mk("for", s.a[0], mk("yield", TRUE, s.a[1].a[1]))):
            return None
        i = s.a[1].a[0].a[0]
        if i.op != "for" or i.a[1].op != "yield" or i.a[1].a[1] is not TRUE or loose(i.a[0]):
            return None
        c = i.a[1].a[0]
        d = shift(i.a[0], -1)
        me = self.ids(d).a[0]
        if not self.distinct(me) or c.op != "eq":
            return None
        if {c.a[0], c.a[1]} != {shift(s.a[1].a[1], 1), me_at(i.a[0])}:
            return None
        return mk("for", d, mk("yield", mk("any", mk("for", shift(s.a[0], 1), mk("yield", swap(c), TRUE))), me_at(d, 1)))

    def ids(self, xs):
        s = mk("for", xs, mk("yield", TRUE, mk("attr", mk("at", shift(xs, 1), mk("b", 0, 0)), "id")))
        return mk("cat", s)
