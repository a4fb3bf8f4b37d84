"""Behaviour-preserving rewrites of single functions, to measure how quiet the checks are.  Not used by any check."""

import ast
import copy
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def blocks(fn):
    """All statement lists of fn, not those of nested functions."""
    todo = [fn]
    while todo:
        n = todo.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        todo.append(s)
        for h in getattr(n, "handlers", []):
            todo.append(h)


def N(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def assign(x, v):
    return ast.Assign([N(x, True)], v)


def neg(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    return ast.UnaryOp(ast.Not(), c)


def exits(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Rewrites:
    """Each method takes a deep copy of a function and a counter of sites; it rewrites site k and returns True, or
    returns False when there is no such site."""

    def __init__(self):
        self.extra = []

    # -------------------------------------------------------------- branches
    def r_invert_if(self, fn):
        for b in blocks(fn):
            for s in b:
                if isinstance(s, ast.If) and s.orelse:
                    def go(s=s):
                        s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
                    yield go

    def r_guard_to_else(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and exits(s.body) and i + 1 < len(b):
                    def go(b=b, i=i, s=s):
                        s.orelse = b[i + 1:]
                        del b[i + 1:]
                    yield go

    def r_unnest_else(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and s.orelse and exits(s.body):
                    def go(b=b, i=i, s=s):
                        b[i + 1:i + 1] = s.orelse
                        s.orelse = []
                    yield go

    def r_invert_guard(self, fn):
        # if c: return A; rest(returning)  ->  if not c: rest; return A
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and i + 1 < len(b) \
                        and isinstance(b[-1], ast.Return):
                    def go(b=b, i=i, s=s):
                        rest = b[i + 1:]
                        s.test = neg(s.test)
                        b[i + 1:] = s.body
                        s.body = rest
                    yield go

    def r_merge_ifs(self, fn):
        for b in blocks(fn):
            for s in b:
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) \
                        and not s.body[0].orelse:
                    def go(s=s):
                        t = s.body[0]
                        s.test = ast.BoolOp(ast.And(), [s.test, t.test])
                        s.body = t.body
                    yield go

    def r_split_and(self, fn):
        for b in blocks(fn):
            for s in b:
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                    def go(s=s):
                        vs = s.test.values
                        s.body = [ast.If(ast.BoolOp(ast.And(), vs[1:]) if len(vs) > 2 else vs[1], s.body, [])]
                        s.test = vs[0]
                    yield go

    def r_split_or(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) \
                        and exits(s.body):
                    def go(s=s, b=b, i=i):
                        vs = s.test.values
                        b[i:i + 1] = [ast.If(v, copy.deepcopy(s.body), []) for v in vs]
                    yield go

    def r_demorgan(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and isinstance(n.test, ast.BoolOp):
                def go(n=n):
                    t = n.test
                    op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in t.values]))
                yield go

    def r_ternary_to_if(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                    def go(b=b, i=i, s=s):
                        t = s.value
                        x, y = copy.deepcopy(s), copy.deepcopy(s)
                        x.value, y.value = t.body, t.orelse
                        b[i] = ast.If(t.test, [x], [y])
                    yield go

    def r_if_to_ternary(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                    x, y = s.body[0], s.orelse[0]
                    if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                        def go(b=b, i=i, s=s, x=x, y=y):
                            b[i] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                        yield go
                    if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                        def go(b=b, i=i, s=s, x=x, y=y):
                            b[i] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                        yield go

    def r_bool_return(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.Return) and (isinstance(s.value, ast.Compare) or isinstance(s.value, ast.UnaryOp)
                                                  and isinstance(s.value.op, ast.Not)):
                    def go(b=b, i=i, s=s):
                        b[i:i + 1] = [ast.If(s.value, [ast.Return(ast.Constant(True))], []),
                                      ast.Return(ast.Constant(False))]
                    yield go

    def r_single_return(self, fn):
        # result variable, assigned before a single return
        b = fn.body
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Return) \
                    and i + 2 == len(b) and isinstance(b[-1], ast.Return) and s.body[0].value and b[-1].value:
                def go(b=b, i=i, s=s):
                    x = s.body[0].value
                    y = b[-1].value
                    b[i:] = [ast.If(s.test, [assign("_res", x)], [assign("_res", y)]), ast.Return(N("_res"))]
                yield go

    # -------------------------------------------------------------- comparisons
    def r_flip_compare(self, fn):
        F = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in F:
                def go(n=n):
                    n.left, n.comparators, n.ops = n.comparators[0], [n.left], [F[type(n.ops[0])]()]
                yield go

    def r_not_compare(self, fn):
        F = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.Is: ast.IsNot, ast.Eq: ast.NotEq}
        for n in ast.walk(fn):
            for f, v in ast.iter_fields(n):
                vs = v if isinstance(v, list) else [v]
                for j, x in enumerate(vs):
                    if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in F:
                        def go(n=n, f=f, v=v, j=j, x=x):
                            y = ast.UnaryOp(ast.Not(), ast.Compare(x.left, [F[type(x.ops[0])]()], x.comparators))
                            if isinstance(v, list):
                                v[j] = y
                            else:
                                setattr(n, f, y)
                        yield go

    def r_len_truth(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Call) \
                    and isinstance(n.test.left.func, ast.Name) and n.test.left.func.id == "len" \
                    and isinstance(n.test.comparators[0], ast.Constant) and len(n.test.ops) == 1:
                c, op = n.test.comparators[0].value, n.test.ops[0]
                x = n.test.left.args[0]
                if c == 0 and isinstance(op, (ast.Gt, ast.NotEq)):
                    def go(n=n, x=x):
                        n.test = x
                    yield go
                if c == 0 and isinstance(op, ast.Eq):
                    def go(n=n, x=x):
                        n.test = ast.UnaryOp(ast.Not(), x)
                    yield go
                if c == 1 and isinstance(op, ast.GtE):
                    def go(n=n, x=x):
                        n.test = x
                    yield go

    # -------------------------------------------------------------- loops
    def _comp_loop(self, c, out, kind):
        if kind == "list":
            put = ast.Expr(ast.Call(ast.Attribute(N(out), "append", ast.Load()), [c.elt], []))
        elif kind == "set":
            put = ast.Expr(ast.Call(ast.Attribute(N(out), "add", ast.Load()), [c.elt], []))
        else:
            put = ast.Assign([ast.Subscript(N(out), c.key, ast.Store())], c.value)
        body = [put]
        for g in reversed(c.generators):
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        init = {"list": ast.List([], ast.Load()), "set": ast.Call(N("set"), [], []), "dict": ast.Dict([], [])}[kind]
        return [assign(out, init)] + body

    def r_comp_to_loop(self, fn):
        k = {ast.ListComp: "list", ast.SetComp: "set", ast.DictComp: "dict"}
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.Return)) and type(s.value) in k:
                    def go(b=b, i=i, s=s):
                        pre = self._comp_loop(s.value, "_acc", k[type(s.value)])
                        s.value = N("_acc")
                        b[i:i] = pre
                    yield go
                v = getattr(s, "value", None)
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and len(v.args) == 1 and \
                        isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) and isinstance(v.func, ast.Name):
                    def go(b=b, i=i, s=s, v=v):
                        pre = self._comp_loop(v.args[0], "_acc", "list")
                        v.args[0] = N("_acc")
                        b[i:i] = pre
                    yield go

    def r_gen_list(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("set", "sorted", "sum", "any", "all", "max", "min", "tuple", "list", "dict") and len(n.args) == 1:
                a = n.args[0]
                if isinstance(a, ast.ListComp):
                    def go(n=n, a=a):
                        n.args[0] = ast.GeneratorExp(a.elt, a.generators)
                    yield go
                elif isinstance(a, ast.GeneratorExp):
                    def go(n=n, a=a):
                        n.args[0] = ast.ListComp(a.elt, a.generators)
                    yield go

    def r_loop_to_comp(self, fn):
        for b in blocks(fn):
            for i in range(len(b) - 1):
                s, f = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) \
                        and isinstance(f, ast.For) and len(f.body) == 1:
                    x = s.targets[0].id
                    t, ifs = f.body[0], []
                    while isinstance(t, ast.If) and not t.orelse and len(t.body) == 1:
                        ifs.append(t.test)
                        t = t.body[0]
                    if isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Attribute) \
                            and t.value.func.attr == "append" and isinstance(t.value.func.value, ast.Name) and t.value.func.value.id == x:
                        def go(b=b, i=i, s=s, f=f, t=t, ifs=ifs):
                            s.value = ast.ListComp(t.value.args[0], [ast.comprehension(f.target, f.iter, ifs, 0)])
                            del b[i + 1]
                        yield go

    def r_agg_to_loop(self, fn):
        """any/all/sum over a generator -> loop."""
        for b in blocks(fn):
            for i, s in enumerate(b):
                v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Return)) else s.test if isinstance(s, ast.If) else None
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all", "sum") and len(v.args) == 1 \
                        and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) and len(v.args[0].generators) == 1:
                    def go(b=b, i=i, s=s, v=v):
                        c, g = v.args[0], v.args[0].generators[0]
                        k = v.func.id
                        if k == "sum":
                            body = [ast.AugAssign(N("_r", True), ast.Add(), c.elt)]
                            init = ast.Constant(0)
                        else:
                            init = ast.Constant(k == "all")
                            body = [ast.If(c.elt if k == "any" else neg(c.elt), [assign("_r", ast.Constant(k == "any")), ast.Break()], [])]
                        for t in reversed(g.ifs):
                            body = [ast.If(t, body, [])]
                        if isinstance(s, ast.If):
                            s.test = N("_r")
                        else:
                            s.value = N("_r")
                        b[i:i] = [assign("_r", init), ast.For(g.target, g.iter, body, [])]
                    yield go

    def r_continue(self, fn):
        for b in blocks(fn):
            for s in b:
                if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                    def go(s=s):
                        t = s.body[0]
                        s.body = [ast.If(neg(t.test), [ast.Continue()], [])] + t.body
                    yield go

    def r_uncontinue(self, fn):
        for b in blocks(fn):
            for s in b:
                if isinstance(s, ast.For):
                    for i, t in enumerate(s.body):
                        if isinstance(t, ast.If) and not t.orelse and len(t.body) == 1 and isinstance(t.body[0], ast.Continue) and s.body[i + 1:]:
                            def go(s=s, t=t, i=i):
                                s.body[i:] = [ast.If(neg(t.test), s.body[i + 1:], [])]
                            yield go

    def r_while(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.For) and not s.orelse:
                    def go(b=b, i=i, s=s):
                        b[i:i + 1] = [
                            assign("_xs", ast.Call(N("list"), [s.iter], [])), assign("_i", ast.Constant(0)),
                            ast.While(ast.Compare(N("_i"), [ast.Lt()], [ast.Call(N("len"), [N("_xs")], [])]),
                                      [ast.Assign([s.target], ast.Subscript(N("_xs"), N("_i"), ast.Load())),
                                       ast.AugAssign(N("_i", True), ast.Add(), ast.Constant(1))] + s.body, [])]
                    yield go

    def r_index_loop(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.For) and not s.orelse:
                    def go(b=b, i=i, s=s):
                        b[i:i + 1] = [
                            assign("_xs", ast.Call(N("list"), [s.iter], [])),
                            ast.For(N("_i", True), ast.Call(N("range"), [ast.Call(N("len"), [N("_xs")], [])], []),
                                    [ast.Assign([s.target], ast.Subscript(N("_xs"), N("_i"), ast.Load()))] + s.body, [])]
                    yield go

    def r_enumerate(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.For) and not s.orelse:
                    def go(s=s):
                        s.iter = ast.Call(N("enumerate"), [s.iter], [])
                        s.target = ast.Tuple([N("_i", True), s.target], ast.Store())
                    yield go

    def r_range_to_while(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) \
                        and s.iter.func.id == "range" and isinstance(s.target, ast.Name) and len(s.iter.args) <= 2 \
                        and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                    def go(b=b, i=i, s=s):
                        a = s.iter.args
                        lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
                        x = s.target.id
                        b[i:i + 1] = [assign("_hi", hi), assign(x, lo),
                                      ast.While(ast.Compare(N(x), [ast.Lt()], [N("_hi")]),
                                                s.body + [ast.AugAssign(N(x, True), ast.Add(), ast.Constant(1))], [])]
                    yield go

    def r_items(self, fn):
        for b in blocks(fn):
            for s in b:
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) \
                        and s.iter.func.attr == "items" and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                    def go(s=s):
                        d = s.iter.func.value
                        k, v = s.target.elts
                        s.iter, s.target = d, k
                        s.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), N(k.id), ast.Load())))
                    yield go

    def r_map_lambda(self, fn):
        for n in ast.walk(fn):
            for f, v in ast.iter_fields(n):
                vs = v if isinstance(v, list) else [v]
                for j, x in enumerate(vs):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("map", "filter") and len(x.args) == 2 \
                            and isinstance(x.args[0], ast.Lambda):
                        def go(n=n, f=f, v=v, j=j, x=x):
                            l = x.args[0]
                            a = l.args.args[0].arg
                            if x.func.id == "map":
                                y = ast.GeneratorExp(l.body, [ast.comprehension(N(a, True), x.args[1], [], 0)])
                            else:
                                y = ast.GeneratorExp(N(a), [ast.comprehension(N(a, True), x.args[1], [l.body], 0)])
                            if isinstance(v, list):
                                v[j] = y
                            else:
                                setattr(n, f, y)
                        yield go

    def r_lambda_def(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
                    for n in ast.walk(s):
                        for f, v in ast.iter_fields(n):
                            vs = v if isinstance(v, list) else [v]
                            for j, x in enumerate(vs):
                                if isinstance(x, ast.Lambda) and not isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.Lambda)):
                                    bound = {a.arg for y in ast.walk(s) if isinstance(y, ast.Lambda) and y is not x for a in y.args.args}
                                    bound |= {t.id for y in ast.walk(s) if isinstance(y, ast.comprehension) for t in ast.walk(y.target) if isinstance(t, ast.Name)}
                                    if names(x) & bound - {a.arg for a in x.args.args}:
                                        continue
                                    def go(b=b, i=i, n=n, f=f, v=v, j=j, x=x):
                                        d = ast.FunctionDef("_lam", x.args, [ast.Return(x.body)], [], None, None)
                                        if isinstance(v, list):
                                            v[j] = N("_lam")
                                        else:
                                            setattr(n, f, N("_lam"))
                                        b.insert(i, d)
                                    yield go

    # -------------------------------------------------------------- temporaries
    def r_temps(self, fn):
        """Hoist the arguments of the outermost call, in order."""
        for b in blocks(fn):
            for i, s in enumerate(b):
                v = getattr(s, "value", None)
                if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call):
                    f = v.func
                    while isinstance(f, ast.Attribute):
                        f = f.value
                    if isinstance(f, ast.Name) and v.args and not any(isinstance(a, (ast.Starred, ast.GeneratorExp)) for a in v.args):
                        def go(b=b, i=i, v=v):
                            pre = []
                            for j, a in enumerate(v.args):
                                pre.append(assign("_t%d" % j, a))
                                v.args[j] = N("_t%d" % j)
                            for j, k in enumerate(v.keywords):
                                pre.append(assign("_k%d" % j, k.value))
                                k.value = N("_k%d" % j)
                            b[i:i] = pre
                        yield go

    def r_test_temp(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If):
                    def go(b=b, i=i, s=s):
                        t = s.test
                        s.test = N("_cond")
                        b.insert(i, assign("_cond", t))
                    if not any(isinstance(p, ast.If) and p.orelse == [s] for bb in blocks(fn) for p in bb):
                        yield go

    def r_return_temp(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                    def go(b=b, i=i, s=s):
                        b.insert(i, assign("_out", s.value))
                        s.value = N("_out")
                    yield go

    def r_inline(self, fn):
        for b in blocks(fn):
            for i in range(len(b) - 1):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    x = s.targets[0].id
                    uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x]
                    if len(uses) != 2 or not isinstance(t, (ast.Assign, ast.Return, ast.Expr, ast.For, ast.If)):
                        continue
                    head = t.iter if isinstance(t, ast.For) else t.test if isinstance(t, ast.If) else t.value
                    if head is None or not any(n is u for n in ast.walk(head) for u in uses):
                        continue
                    # nothing that is evaluated before the use may have an effect
                    ok = True
                    for n in ast.walk(head):
                        if isinstance(n, (ast.Call, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.IfExp, ast.BoolOp, ast.SetComp, ast.DictComp)) \
                                and not any(m is u for m in ast.walk(n) for u in uses):
                            ok = False
                        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.IfExp, ast.BoolOp, ast.SetComp, ast.DictComp)) \
                                and any(m is u for m in ast.walk(n) for u in uses):
                            ok = False
                    if not ok:
                        continue
                    def go(b=b, i=i, s=s, x=x, t=t):
                        class R(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return s.value if n.id == x and isinstance(n.ctx, ast.Load) else n
                        b[i + 1] = R().visit(t)
                        del b[i]
                    yield go

    def r_swap(self, fn):
        PURE = {"len", "set", "list", "dict", "sorted", "range", "str", "int", "float", "tuple", "min", "max"}
        def pure(e):
            for n in ast.walk(e):
                if isinstance(n, ast.Call):
                    if not (isinstance(n.func, ast.Name) and n.func.id in PURE) and not (
                            isinstance(n.func, ast.Attribute) and n.func.attr in ("keys", "items", "values", "copy")):
                        return False
                if isinstance(n, (ast.Yield, ast.Await)):
                    return False
            return True
        for b in blocks(fn):
            for i in range(len(b) - 1):
                s, t = b[i], b[i + 1]
                if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s, t)):
                    if not (names(s, ast.Store) & names(t)) and not (names(t, ast.Store) & names(s)) and (pure(s.value) or pure(t.value)) and \
                            not (isinstance(s.value, (ast.Yield,))):
                        def go(b=b, i=i):
                            b[i], b[i + 1] = b[i + 1], b[i]
                        yield go
                # attribute assignments in constructors
                if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) for x in (s, t)):
                    a, c = s.targets[0], t.targets[0]
                    if a.attr != c.attr and pure(s.value) and pure(t.value) and not any(
                            isinstance(n, ast.Attribute) and n.attr in (a.attr, c.attr) for x in (s, t) for n in ast.walk(x.value)):
                        def go(b=b, i=i):
                            b[i], b[i + 1] = b[i + 1], b[i]
                        yield go

    def r_rename(self, fn):
        loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        loc -= {a.arg for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args}
        if loc and not any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
            def go():
                for n in ast.walk(fn):
                    if isinstance(n, ast.Name) and n.id in loc:
                        n.id = "_v_" + n.id
            yield go

    def r_split_chain(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                v = getattr(s, "value", None)
                if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                        and isinstance(v.func.value, ast.Call):
                    def go(b=b, i=i, v=v):
                        b.insert(i, assign("_o", v.func.value))
                        v.func.value = N("_o")
                    yield go

    def r_fstring(self, fn):
        for n in ast.walk(fn):
            for f, v in ast.iter_fields(n):
                vs = v if isinstance(v, list) else [v]
                for j, x in enumerate(vs):
                    if isinstance(x, ast.JoinedStr) and all(not isinstance(p, ast.FormattedValue) or (p.conversion == -1 and p.format_spec is None) for p in x.values):
                        def go(n=n, f=f, v=v, j=j, x=x):
                            s, args = "", []
                            for p in x.values:
                                if isinstance(p, ast.Constant):
                                    s += p.value.replace("{", "{{").replace("}", "}}")
                                else:
                                    s += "{}"
                                    args.append(p.value)
                            y = ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, [])
                            if isinstance(v, list):
                                v[j] = y
                            else:
                                setattr(n, f, y)
                        yield go

    def r_aug(self, fn):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and not isinstance(s.value, (ast.List, ast.ListComp)) \
                        and isinstance(s.op, (ast.Mult, ast.Sub)) or isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                    def go(b=b, i=i, s=s):
                        b[i] = ast.Assign([s.target], ast.BinOp(N(s.target.id), s.op, s.value))
                    yield go
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.left, ast.Name) \
                        and s.value.left.id == s.targets[0].id and isinstance(s.value.op, (ast.Add, ast.Mult)):
                    def go(b=b, i=i, s=s):
                        b[i] = ast.AugAssign(s.targets[0], s.value.op, s.value.right)
                    yield go

    # -------------------------------------------------------------- helpers
    def _free(self, stmts, fn):
        """Local names of fn read by stmts."""
        loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        if fn.args.vararg:
            loc.add(fn.args.vararg.arg)
        if fn.args.kwarg:
            loc.add(fn.args.kwarg.arg)
        loc |= {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        loc |= {n.name for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn}
        return loc

    def _extract(self, fn, b, i, j, style):
        seg = b[i:j]
        loc = self._free(seg, fn)
        used = set().union(*[names(s, ast.Load) for s in seg])
        used |= {s.target.id for s in seg for s in ast.walk(s) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)}
        stored = set().union(*[names(s, ast.Store) for s in seg])
        inside = {id(n) for s in seg for n in ast.walk(s)}
        later = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and id(n) not in inside and isinstance(n.ctx, (ast.Load,))}
        outs = sorted(stored & later)
        ins = sorted(used & loc)
        return seg, ins, outs

    def r_extract(self, fn):
        """Move statements into a helper."""
        for b in list(blocks(fn)):
            n = len(b)
            for i in range(n):
                for j in (i + 1, i + 2, i + 3, n):
                    if j > n or (j == n and n - i in (1, 2, 3) and j != i + n - i):
                        continue
                    seg = b[i:j]
                    if j - i == 1 and not isinstance(seg[0], (ast.For, ast.If, ast.While, ast.Assign)):
                        continue
                    if len(seg) == len(fn.body) and b is fn.body:
                        continue
                    bad = False
                    for s in seg:
                        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                            bad = True
                        lp = isinstance(s, (ast.For, ast.While))
                        for x in ast.walk(s):
                            if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Lambda, ast.Nonlocal, ast.Raise)):
                                bad = True
                            if isinstance(x, (ast.Break, ast.Continue)) and not lp:
                                bad = True
                            if isinstance(x, ast.Name) and x.id == "super":
                                bad = True
                    if bad:
                        continue
                    seg, ins, outs = self._extract(fn, b, i, j, 0)
                    # every output has to be assigned, and every input defined before
                    inside = {id(x) for s in seg for x in ast.walk(s)}
                    params = {a.arg for a in fn.args.args}
                    # definitely assigned at the start of seg: straight-line prefix assignments
                    pre = set(params)
                    def prefix(bb):
                        for s in bb:
                            if s in seg:
                                return True
                            if isinstance(s, ast.Assign):
                                pre.update(names(s, ast.Store))
                            if isinstance(s, ast.FunctionDef):
                                pre.add(s.name)
                            for f in ("body", "orelse"):
                                c = getattr(s, f, None)
                                if isinstance(c, list) and any(x in ast.walk(y) for y in c for x in seg[:1]):
                                    if isinstance(s, ast.For):
                                        pre.update(names(s.target))
                                    return prefix(c)
                        return True
                    prefix(fn.body)
                    first_def = set()
                    need = set()
                    for s in seg:
                        if isinstance(s, ast.Assign):
                            need |= (names(s.value) | {x for t in s.targets if not isinstance(t, ast.Name) for x in names(t, ast.Load)}) - first_def
                            first_def |= names(s, ast.Store)
                        elif isinstance(s, ast.For):
                            need |= names(s) - first_def - names(s, ast.Store)
                            need |= {n for n in names(s, ast.Store) if n in pre} - first_def
                        else:
                            need |= names(s) - first_def
                    loc = self._free(seg, fn)
                    need &= loc
                    if not need <= pre:
                        continue
                    must = set(need)
                    okout = all(o in first_def or o in need for o in outs)
                    # loop variables leak out of the block
                    if not okout:
                        continue
                    def go(b=b, i=i, j=j, seg=seg, need=sorted(need), outs=outs):
                        body = list(seg)
                        if outs:
                            body.append(ast.Return(N(outs[0]) if len(outs) == 1 else ast.Tuple([N(o) for o in outs], ast.Load())))
                        self.extra.append(ast.FunctionDef("_helper", ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), body, [], None, None))
                        call = ast.Call(N("_helper"), [N(x) for x in need], [])
                        if not outs:
                            b[i:j] = [ast.Expr(call)]
                        else:
                            b[i:j] = [ast.Assign([N(outs[0], True) if len(outs) == 1 else ast.Tuple([N(o, True) for o in outs], ast.Store())], call)]
                    yield go

    def r_extract_cond(self, fn):
        loc = self._free([], fn) | {a.arg for y in ast.walk(fn) if isinstance(y, (ast.Lambda, ast.FunctionDef)) for a in y.args.args}
        for n in ast.walk(fn):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, (ast.Name, ast.Constant)) \
                    and not any(isinstance(x, (ast.NamedExpr,)) or isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(n.test)):
                comp = {t.id for y in ast.walk(n.test) if isinstance(y, ast.comprehension) for t in ast.walk(y.target) if isinstance(t, ast.Name)}
                comp |= {a.arg for y in ast.walk(n.test) if isinstance(y, ast.Lambda) for a in y.args.args}
                def go(n=n, comp=comp):
                    ins = sorted((names(n.test) & loc) - comp)
                    self.extra.append(ast.FunctionDef("_helper", ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), [ast.Return(n.test)], [], None, None))
                    n.test = ast.Call(N("_helper"), [N(x) for x in ins], [])
                yield go

    def r_extract_elt(self, fn):
        loc = self._free([], fn) | {a.arg for y in ast.walk(fn) if isinstance(y, (ast.Lambda, ast.FunctionDef)) for a in y.args.args}
        for n in ast.walk(fn):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and not isinstance(n.elt, (ast.Name, ast.Constant)):
                comp = {t.id for y in ast.walk(n.elt) if isinstance(y, ast.comprehension) for t in ast.walk(y.target) if isinstance(t, ast.Name)}
                comp |= {a.arg for y in ast.walk(n.elt) if isinstance(y, ast.Lambda) for a in y.args.args}
                def go(n=n, comp=comp):
                    ins = sorted((names(n.elt) & loc) - comp)
                    self.extra.append(ast.FunctionDef("_helper", ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), [ast.Return(n.elt)], [], None, None))
                    n.elt = ast.Call(N("_helper"), [N(x) for x in ins], [])
                yield go

    def r_extract_method(self, fn):
        """The whole body moves to a private function."""
        if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn)) or fn.args.vararg or fn.args.kwarg:
            return
        if fn.name.startswith("__") and fn.name.endswith("__") and fn.name != "__init__" and len(fn.body) < 1:
            return
        def go():
            a = [x.arg for x in fn.args.args]
            self.extra.append(ast.FunctionDef("_impl", ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, []), fn.body, [], None, None))
            fn.body = [ast.Return(ast.Call(N("_impl"), [N(x) for x in a], []))]
        yield go

    # -------------------------------------------------------------- expressions
    def r_isinstance_flag(self, fn):
        return iter(())

    def r_list_ctor(self, fn):
        for n in ast.walk(fn):
            for f, v in ast.iter_fields(n):
                vs = v if isinstance(v, list) else [v]
                for j, x in enumerate(vs):
                    y = None
                    if isinstance(x, ast.List) and not x.elts and isinstance(x.ctx, ast.Load):
                        y = ast.Call(N("list"), [], [])
                    elif isinstance(x, ast.Dict) and not x.keys:
                        y = ast.Call(N("dict"), [], [])
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "dict") and not x.args and not x.keywords:
                        y = ast.List([], ast.Load()) if x.func.id == "list" else ast.Dict([], [])
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "set" and len(x.args) == 1 and isinstance(x.args[0], (ast.ListComp, ast.GeneratorExp)):
                        y = ast.SetComp(x.args[0].elt, x.args[0].generators)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "list" and len(x.args) == 1:
                        y = ast.ListComp(N("_e"), [ast.comprehension(N("_e", True), x.args[0], [], 0)])
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "keys" and not x.args and isinstance(n, (ast.For, ast.comprehension)):
                        y = x.func.value
                    elif isinstance(x, ast.SetComp):
                        y = ast.Call(N("set"), [ast.ListComp(x.elt, x.generators)], [])
                    elif isinstance(x, ast.DictComp):
                        y = ast.Call(N("dict"), [ast.GeneratorExp(ast.Tuple([x.key, x.value], ast.Load()), x.generators)], [])
                    if y is not None:
                        def go(n=n, f=f, v=v, j=j, y=y):
                            if isinstance(v, list):
                                v[j] = y
                            else:
                                setattr(n, f, y)
                        yield go

    def r_fission(self, fn):
        """for x in xs: a; b  ->  two loops, when a and b are single calls on different receivers with no shared names
        but x."""
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.For) and len(s.body) == 2 and all(
                        isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Attribute)
                        and isinstance(t.value.func.value, ast.Name) and t.value.func.attr in ("append", "add") for t in s.body):
                    x, y = s.body
                    if x.value.func.value.id != y.value.func.value.id and y.value.func.value.id not in names(x.value.args[0]) and \
                            x.value.func.value.id not in names(y.value.args[0]):
                        def go(b=b, i=i, s=s, x=x, y=y):
                            b[i:i + 1] = [ast.For(s.target, s.iter, [x], []), ast.For(copy.deepcopy(s.target), copy.deepcopy(s.iter), [y], [])]
                        yield go

    def r_noop(self, fn):
        def go():
            fn.body.insert(0, ast.Pass())
            fn.body.insert(0, assign("_unused", ast.Constant(0)))
        yield go


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n, tree.body
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield m, n.body


def variants(root, only=None, kinds=None):
    """(rel, kind, function, site, source)"""
    for dp, dn, fs in sorted(os.walk(os.path.join(root, "pybbn"))):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            rel = os.path.relpath(os.path.join(dp, f), root)
            src = open(os.path.join(root, rel)).read()
            tree = ast.parse(src)
            for idx, (fn, _) in enumerate(functions(tree)):
                if only and only not in rel + ":" + fn.name:
                    continue
                for kind in [k for k in dir(Rewrites) if k.startswith("r_")]:
                    if kinds and kind[2:] not in kinds:
                        continue
                    nsites = len(list(getattr(Rewrites(), kind)(fn)))
                    for site in range(nsites):
                        t2 = copy.deepcopy(tree)
                        fn2 = list(functions(t2))[idx][0]
                        r = Rewrites()
                        gos = list(getattr(r, kind)(fn2))
                        gos[site]()
                        t2.body.extend(r.extra)
                        ast.fix_missing_locations(t2)
                        try:
                            new = ast.unparse(t2)
                            compile(new, rel, "exec")
                        except Exception as e:
                            print("BAD", kind, rel, fn.name, e, file=sys.stderr)
                            continue
                        yield rel, kind[2:], fn.name, site, new


def main():
    import argparse
    import multiprocessing

    ap = argparse.ArgumentParser()
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("--kinds")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--sample", type=int, default=1)
    a = ap.parse_args()
    work = list(variants(a.root, a.only, a.kinds.split(",") if a.kinds else None))[:: a.sample]
    print(len(work), "variants")
    from sa import model

    spec = model.Spec(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))
    global RUN
    import gc

    gc.collect()
    gc.freeze()
    gc.disable()
    from sa import compare
    from sa.program import Program
    from sa.terms import show

    def RUN(w):
        rel, kind, fn, site, src = w
        try:
            C = compare.Comparison(spec, Program(a.root, overlay={rel: src}))
        except Exception as e:
            import traceback
            return w, [("crash", traceback.format_exc()[-600:], [])]
        bad = []
        for q, v in C.verdicts.items():
            if v.status not in ("same", "absorbed"):
                bad.append((v.status + " " + str(v.why if isinstance(v.why, str) else ""), q,
                            [(k, p, q) for k, x, y in v.diffs for p, q in compare.show_diff(x, y)[:4]]
                            + [("notes", "", str(v.b.opaque_notes if v.b and not isinstance(v.b, str) else ""))]))
        return w, bad

    from collections import Counter

    tot, bad = Counter(), Counter()
    with multiprocessing.get_context("fork").Pool(a.jobs, maxtasksperchild=4) as pool:
        for w, b in pool.imap_unordered(_run, work, 5):
            rel, kind, fn, site, src = w
            tot[kind] += 1
            if b:
                bad[kind] += 1
                print("!!", kind, rel, fn, site, [(x, y) for x, y, z in b])
                if a.show:
                    for x, y, z in b:
                        if x.startswith("inherited"):
                            continue
                        for k, p, q in z:
                            if k == "notes" and q in ("", "[]"):
                                continue
                            print("    ", k)
                            print("      A", p)
                            print("      B", q)
                sys.stdout.flush()
    for k in sorted(tot):
        print(f"{k:20} {bad[k]:4} / {tot[k]}")
    print("total", sum(bad.values()), "/", sum(tot.values()))


def _run(w):
    return RUN(w)


if __name__ == "__main__":
    main()
