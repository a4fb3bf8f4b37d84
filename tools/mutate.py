"""Small changes of behaviour, one at a time, to measure what the checks detect.  Used by the thorough tier only."""

import ast
import copy
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def parents(fn):
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        yield x, n, f, j
            elif isinstance(v, ast.AST):
                yield v, n, f, None


def put(n, f, j, y):
    if j is None:
        setattr(n, f, y)
    else:
        getattr(n, f)[j] = y


CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.MatMult: ast.Mult}
ATTR = {"i": "j", "j": "i", "left": "right", "right": "left", "id": "name", "name": "id", "nodes": "edges"}


def mutations(fn):
    for x, n, f, j in list(parents(fn)):
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            for o in CMP.get(type(x.ops[0]), []):
                yield "cmp", (lambda x=x, o=o: x.ops.__setitem__(0, o()))
        if isinstance(x, ast.BoolOp):
            yield "bool", (lambda x=x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            for k in range(len(x.values)):
                def go(x=x, k=k, n=n, f=f, j=j):
                    del x.values[k]
                    if len(x.values) == 1:
                        put(n, f, j, x.values[0])
                yield "boolterm", go
        if isinstance(x, ast.If):
            yield "iftrue", (lambda x=x: setattr(x, "test", ast.Constant(True)))
            yield "iffalse", (lambda x=x: setattr(x, "test", ast.Constant(False)))
        if isinstance(x, ast.comprehension) and x.ifs:
            yield "compif", (lambda x=x: setattr(x, "ifs", x.ifs[1:]))
        if isinstance(x, ast.BinOp) and type(x.op) in BIN:
            yield "arith", (lambda x=x: setattr(x, "op", BIN[type(x.op)]()))
        if isinstance(x, ast.Constant) and not isinstance(n, (ast.JoinedStr, ast.Expr)):
            v = x.value
            if isinstance(v, bool):
                yield "const", (lambda x=x, v=v: setattr(x, "value", not v))
            elif isinstance(v, (int, float)):
                yield "const", (lambda x=x, v=v: setattr(x, "value", v + 1))
            elif isinstance(v, str) and v:
                yield "str", (lambda x=x, v=v: setattr(x, "value", v + "_"))
        if isinstance(x, ast.stmt) and j is not None and isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign)) and f in ("body", "orelse"):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and not any(
                    isinstance(y, ast.Name) and y.id == x.targets[0].id and isinstance(y.ctx, ast.Store) and y is not x.targets[0] for y in ast.walk(fn)):
                continue
            yield "delete", (lambda n=n, f=f, j=j: put(n, f, j, ast.Pass()))
        if isinstance(x, ast.Break):
            yield "break", (lambda n=n, f=f, j=j: put(n, f, j, ast.Pass()))
        if isinstance(x, ast.Call):
            if len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args):
                yield "swapargs", (lambda x=x: x.args.__setitem__(slice(0, 2), [x.args[1], x.args[0]]))
            nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
            if nm in ("sorted", "set", "list", "deepcopy", "reversed", "copy", "abs", "str", "int", "float") and len(x.args) >= 1 \
                    and isinstance(x.func, (ast.Name, ast.Attribute)):
                yield "unwrap", (lambda x=x, n=n, f=f, j=j: put(n, f, j, x.args[0]))
            if nm == "copy" and not x.args:
                yield "unwrap", (lambda x=x, n=n, f=f, j=j: put(n, f, j, x.func.value))
            if nm in ("max", "min", "any", "all") and isinstance(x.func, ast.Name):
                o = {"max": "min", "min": "max", "any": "all", "all": "any"}[nm]
                yield "minmax", (lambda x=x, o=o: setattr(x.func, "id", o))
            for k in range(len(x.keywords)):
                yield "dropkw", (lambda x=x, k=k: x.keywords.__delitem__(k))
        if isinstance(x, ast.Attribute) and x.attr in ATTR:
            yield "attr", (lambda x=x: setattr(x, "attr", ATTR[x.attr]))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub)):
            yield "unary", (lambda x=x, n=n, f=f, j=j: put(n, f, j, x.operand))
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int):
            pass
        if isinstance(x, ast.For):
            def first(x=x):
                x.body.append(ast.Break())
            yield "firstonly", first
            yield "slice1", (lambda x=x: setattr(x, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [x.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())))
        if isinstance(x, ast.Return) and x.value is not None and isinstance(x.value, ast.Name) and False:
            yield "retnone", (lambda x=x: setattr(x, "value", ast.Constant(None)))


def variants(root, only=None, kinds=None):
    from tools.refactor import functions

    for dp, dn, fs in sorted(os.walk(os.path.join(root, "pybbn"))):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            rel = os.path.relpath(os.path.join(dp, f), root)
            tree = ast.parse(open(os.path.join(root, rel)).read())
            base = ast.unparse(tree)
            for idx, (fn, _) in enumerate(functions(tree)):
                if only and only not in rel + ":" + fn.name:
                    continue
                n = len(list(mutations(fn)))
                for site in range(n):
                    t2 = copy.deepcopy(tree)
                    kind, go = list(mutations(list(functions(t2))[idx][0]))[site]
                    if kinds and kind not in kinds:
                        continue
                    go()
                    ast.fix_missing_locations(t2)
                    try:
                        new = ast.unparse(t2)
                        compile(new, rel, "exec")
                    except Exception:
                        continue
                    if new == base:
                        continue
                    import difflib

                    d = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=0) if l[0] in "+-" and l[:3] not in ("+++", "---")]
                    yield rel, kind, fn.name, site, new, d


if __name__ == "__main__":
    import random

    root = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    vs = list(variants(root))
    print(len(vs))
