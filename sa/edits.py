"""How the text of a function was edited: the smallest regions in which two syntax trees part."""

import ast
from difflib import SequenceMatcher


class Strip(ast.NodeTransformer):
    """Drops what does not count: docstrings, annotations, statements that do nothing."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        n.body = self.block(n.body)
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return None
        return ast.Assign([n.target], n.value)

    def block(self, b):
        out = [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
        return out


def clean(f):
    import copy

    g = Strip().visit(copy.deepcopy(f))
    for n in ast.walk(g):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                setattr(n, fld, [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)])
    return g


_dump = {}


def dump(n):
    if not isinstance(n, ast.AST):
        return repr(n)
    r = _dump.get(id(n))
    if r is None or r[0] is not n:
        r = (n, ast.dump(n))
        _dump[id(n)] = r
    return r[1]


def nodes(x):
    if isinstance(x, list):
        return sum(nodes(y) for y in x)
    if isinstance(x, ast.AST):
        return sum(1 for n in ast.walk(x) if not isinstance(n, (ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)))
    return 1


def regions(a, b):
    """Pairs (old, new) of differing subtrees, as small as they get."""
    if dump(a) == dump(b):
        return []
    if isinstance(a, ast.AST) and isinstance(b, ast.AST) and type(a) is type(b):
        out = []
        whole = False
        for f in a._fields:
            x, y = getattr(a, f, None), getattr(b, f, None)
            if isinstance(x, list) or isinstance(y, list):
                out += lists(x or [], y or [])
            elif isinstance(x, ast.AST) and isinstance(y, ast.AST):
                if dump(x) != dump(y):
                    if isinstance(x, (ast.operator, ast.cmpop, ast.boolop, ast.unaryop)):
                        out.append((a, b))
                        whole = True
                        break
                    out += regions(x, y)
            elif x != y:
                if f in ("ctx", "type_comment", "lineno", "kind"):
                    continue
                out.append((a, b))
                whole = True
                break
        return out
    return [(a, b)]


def lists(x, y):
    dx, dy = [dump(i) for i in x], [dump(i) for i in y]
    out = []
    for tag, i1, i2, j1, j2 in SequenceMatcher(None, dx, dy, autojunk=False).get_opcodes():
        if tag == "equal":
            continue
        p, q = x[i1:i2], y[j1:j2]
        if len(p) == len(q):
            for u, v in zip(p, q):
                out += regions(u, v)
        elif p and q:
            out += uneven(p, q)
        else:
            out.append((p, q))
    return out


def uneven(p, q):
    """Aligns runs of different length by the likeness of their members."""
    best = None
    # dynamic programming over alignments
    n, m = len(p), len(q)
    if n * m > 400:
        return [(p, q)]
    INF = 10**9
    C = [[INF] * (m + 1) for _ in range(n + 1)]
    B = [[None] * (m + 1) for _ in range(n + 1)]
    C[0][0] = 0
    rg = {}
    for i in range(n + 1):
        for j in range(m + 1):
            if i and C[i - 1][j] + nodes(p[i - 1]) < C[i][j]:
                C[i][j], B[i][j] = C[i - 1][j] + nodes(p[i - 1]), "d"
            if j and C[i][j - 1] + nodes(q[j - 1]) < C[i][j]:
                C[i][j], B[i][j] = C[i][j - 1] + nodes(q[j - 1]), "i"
            if i and j:
                r = regions(p[i - 1], q[j - 1])
                rg[i, j] = r
                c = C[i - 1][j - 1] + sum(nodes(u) + nodes(v) for u, v in r)
                if c <= C[i][j]:
                    C[i][j], B[i][j] = c, "r"
    out = []
    i, j = n, m
    while i or j:
        k = B[i][j]
        if k == "r":
            out += rg[i, j]
            i, j = i - 1, j - 1
        elif k == "d":
            out.append(([p[i - 1]], []))
            i -= 1
        else:
            out.append(([], [q[j - 1]]))
            j -= 1
    return out[::-1]


class Edit:
    def __init__(self, f, g):
        self.f, self.g = clean(f), clean(g)
        self.g.name = self.f.name
        self.regions = regions(self.f, self.g)
        self.size = sum(nodes(a) + nodes(b) for a, b in self.regions)
        self.total = nodes(self.f)

    def text(self):
        def s(x):
            if isinstance(x, list):
                return "; ".join(s(y) for y in x)
            try:
                return ast.unparse(x)
            except Exception:
                return str(x)

        return [(s(a), s(b)) for a, b in self.regions]
