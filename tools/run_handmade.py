"""Runs the comparison on hand-written rewrites (tools/handmade): every one must stay quiet.  Not used by any check."""

import argparse
import ast
import copy
import gc
import glob
import multiprocessing
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def parse(path):
    src = open(path).read()
    target = [l.split(":", 1)[1].strip() for l in src.splitlines() if l.startswith("# target:")][0]
    return target, ast.parse(src)


def variants(root, only):
    for p in sorted(glob.glob(os.path.join(HERE, "tools", "handmade", "*.py"))):
        target, tree = parse(p)
        base = ast.parse(open(os.path.join(root, target)).read())
        groups = [(None, tree.body)] + [(c.name, c.body) for c in tree.body if isinstance(c, ast.ClassDef)]
        for cname, body in groups:
            for f in body:
                if not isinstance(f, ast.FunctionDef):
                    continue
                name = os.path.basename(p)[:-3] + ":" + (cname + "." if cname else "") + f.name
                t2 = copy.deepcopy(base)
                if not put(t2, cname, f):
                    continue
                if only and only not in name:
                    continue
                # the helpers it brings
                for cn, b in groups:
                    for h in b:
                        if isinstance(h, ast.FunctionDef) and not exists(base, cn, h.name):
                            put(t2, cn, h, add=True)
                    if cn is not None and not any(isinstance(c, ast.ClassDef) and c.name == cn for c in base.body):
                        t2.body.append([c for c in tree.body if isinstance(c, ast.ClassDef) and c.name == cn][0])
                k = 0
                while k < len(t2.body) and isinstance(t2.body[k], ast.Expr):
                    k += 1
                imps = ["itertools", "math", "functools", "operator", "collections"]
                t2.body[k:k] = [ast.Import([ast.alias(i)]) for i in imps] + [s for s in tree.body if isinstance(s, (ast.Import, ast.ImportFrom, ast.Assign))]
                ast.fix_missing_locations(t2)
                yield name, target, ast.unparse(t2)


def exists(t, cname, name):
    body = t.body if cname is None else next((c.body for c in t.body if isinstance(c, ast.ClassDef) and c.name == cname), [])
    return any(isinstance(f, ast.FunctionDef) and f.name == name for f in body)


def put(t, cname, f, add=False):
    body = t.body if cname is None else next((c.body for c in t.body if isinstance(c, ast.ClassDef) and c.name == cname), None)
    if body is None:
        return False
    for i, g in enumerate(body):
        if isinstance(g, ast.FunctionDef) and g.name == f.name:
            body[i] = f
            return True
    if add:
        body.append(f)
        return True
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--emit")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--width", type=int, default=300)
    a = ap.parse_args()
    work = list(variants(a.root, a.only))
    if a.emit:
        for name, target, src in work:
            with open(os.path.join(a.emit, name.replace(":", "-") + "@" + target.replace("/", "+")), "w") as fh:
                fh.write(src)
        return
    from sa import compare, judge, model, structure
    from sa.program import Program
    from sa.terms import show

    spec = model.Spec(os.path.join(HERE, "contracts"))
    gc.collect(); gc.freeze(); gc.disable()
    global RUN

    def RUN(w):
        name, target, src = w
        try:
            C = compare.Comparison(spec, Program(a.root, overlay={target: src}))
            facts, _ = structure.structure(C)
        except Exception:
            import traceback
            return w, "crash", [traceback.format_exc()[-800:]]
        st, out = "same", []
        for f in facts:
            st = "violation"
            out.append(f.text)
        for q in C.verdicts:
            s, fs, why = judge.judge(C, q)
            if s in ("same", "absorbed", "inherited") or s == "gone" and compare.internal(q):
                continue
            if s == "violation" or st == "same":
                st = s
            out.append(f"{q} {s} {why[:200]}")
            if a.show:
                v = C.verdicts[q]
                for part, x, y in v.diffs:
                    for p, r in compare.show_diff(x, y, a.width)[:3]:
                        out.append(f"   {part}\n      A {p}\n      B {r}")
                if v.b is not None and not isinstance(v.b, str) and v.b.opaque_notes:
                    out.append("   notes " + str(v.b.opaque_notes))
        return w, st, out

    from collections import Counter

    tot = Counter()
    with multiprocessing.get_context("fork").Pool(a.jobs, maxtasksperchild=3) as pool:
        for w, st, out in pool.imap(_run, work, 1):
            tot[st] += 1
            if st != "same":
                print(st, w[0])
                for o in out:
                    print("    " + o)
    print(dict(tot))


def _run(w):
    return RUN(w)


if __name__ == "__main__":
    main()
