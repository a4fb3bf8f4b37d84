"""Runs the comparison on behaviour-keeping edits described in tools/refs: every one must stay quiet.  Not used by any check."""
import argparse, ast, glob, multiprocessing, os, re, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def read(path):
    for sec in re.split(r"(?m)^=== ", open(path).read())[1:]:
        head, body = sec.split("\n", 1)
        bid = head.split()[0]
        body = body.split("\ndemo:\n", 1)[0]
        edits, f = [], None
        for m in re.finditer(r"(?ms)^--- (\S+)$|^<<<\n(.*?)^===>\n(.*?)^>>>$", body):
            if m.group(1):
                f = m.group(1)
            else:
                edits.append((f, m.group(2), m.group(3)))
        yield bid, edits


def squash(s):
    return [re.sub(r"\s+", " ", l).strip() for l in s.splitlines() if l.strip()]


def replace(src, old, new):
    """Replaces old by new, ignoring blank lines and comment lines."""
    if src.count(old) == 1:
        return src.replace(old, new)
    ls = src.splitlines(keepends=True)
    want = squash(old)
    idx = [i for i, l in enumerate(ls) if l.strip()]
    s = by_tree(src, old, new)
    if s is not None:
        return s
    hits = []
    for p in range(len(idx) - len(want) + 1):
        if [re.sub(r"\s+", " ", ls[i]).strip() for i in idx[p:p + len(want)]] == want:
            hits.append((idx[p], idx[p + len(want) - 1]))
    if len(hits) != 1:
        return None
    a, b = hits[0]
    return "".join(ls[:a]) + new + "".join(ls[b + 1:])


def by_tree(src, old, new):
    """Replaces the statements that parse like old."""
    import textwrap
    try:
        want = ast.parse(textwrap.dedent(old)).body
    except SyntaxError:
        return None
    ls = src.splitlines(keepends=True)
    dumps = [ast.dump(x) for x in want]
    hits = []
    for n in ast.walk(ast.parse(src)):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            for i in range(len(b) - len(want) + 1):
                if [ast.dump(x) for x in b[i:i + len(want)]] == dumps:
                    first = b[i]
                    a = min([first.lineno] + [d.lineno for d in getattr(first, "decorator_list", [])])
                    hits.append((a - 1, b[i + len(want) - 1].end_lineno, first.col_offset))
    if len(hits) != 1:
        return None
    a, b, col = hits[0]
    nl = new.splitlines(keepends=True)
    shift = col - (len(nl[0]) - len(nl[0].lstrip()))
    nl = [(" " * shift + l if shift >= 0 else l[-shift:]) if l.strip() else l for l in nl]
    return "".join(ls[:a]) + "".join(nl) + "".join(ls[b:])


def one(job):
    bid, edits, root, full = job
    from sa import compare, judge
    from sa.program import Program
    import subprocess
    w = f"/tmp/w/refs/{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(os.path.join(root, "pybbn"), os.path.join(w, "pybbn"))
    if full:
        shutil.copytree(os.path.join(root, "tests"), os.path.join(w, "tests"))
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = replace(open(p).read(), old, new)
        if s is None:
            return bid, "BAD", [("does not apply", old[:80])], ""
        open(p, "w").write(s)
        try:
            ast.parse(s)
        except SyntaxError as e:
            return bid, "BAD", [("syntax", str(e))], ""
    C = compare.Comparison(SPEC, Program(w))
    from sa import structure
    facts, _ = structure.structure(C)
    rows = []
    worst = "same"
    for q in sorted(C.verdicts):
        st, fs, why = judge.judge(C, q)
        if st in ("violation", "undecided"):
            rows.append((st, q, why, [judge.describe(x)[:WIDTH] for x in fs[:4]]))
            if st == "violation" or worst == "same":
                worst = st
    for f in facts:
        rows.append(("violation", f.where, f.rule, [f.text]))
        worst = "violation"
    t = ""
    if full:
        r = subprocess.run("/opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -3", shell=True, cwd=w, capture_output=True, text=True)
        t = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:]
    shutil.rmtree(w, ignore_errors=True)
    return bid, worst, rows, t


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="*")
    ap.add_argument("--only")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--width", type=int, default=160)
    ap.add_argument("--quiet", action="store_true")
    a = ap.parse_args()
    WIDTH = a.width
    from sa import model
    SPEC = model.Spec(os.path.join(HERE, "contracts"))
    fs = a.files or sorted(glob.glob(os.path.join(HERE, "tools", "refs", "*.txt")))
    jobs = [(b, e, a.root, a.tests) for f in fs for b, e in read(f) if not a.only or any(x in b for x in a.only.split(","))]
    from collections import Counter
    cnt = Counter()
    with multiprocessing.get_context("fork").Pool(7) as pool:
        for bid, st, rows, t in pool.imap(one, jobs):
            cnt[st] += 1
            if t and " passed" not in t or "failed" in t:
                print("TESTS", bid, t)
            if st == "same" or a.quiet and st == "undecided":
                continue
            print(st, bid)
            for r in rows:
                if a.quiet and r[0] == "undecided":
                    continue
                print("    ", r[0], r[1], r[2] if len(r) > 2 else "")
                for d in (r[3] if len(r) > 3 else []):
                    print("          ", d.replace("\n", " "))
    print(dict(cnt))
