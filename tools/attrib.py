"""For every planted bug in tools/bugs: the properties whose check reports it.  Not used by any check.  Usage: attrib.py FILE..."""
import multiprocessing, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]


def one(job):
    bid, want, edits = job
    from run_refs import replace
    from sa import check, compare, judge, structure
    from sa.known import repaired
    from sa.program import Program
    from sa.props import PROPS
    ov = {}
    for f, old, new in edits:
        src = ov.get(f) or open(os.path.join("/repo", f)).read()
        n = replace(src, old, new)
        if n is None or n == src:
            return bid, want, "BAD", []
        ov[f] = n
    try:
        C = compare.Comparison(SPEC, Program("/repo", overlay=ov))
    except SyntaxError:
        return bid, want, "BAD", []
    facts, _ = structure.structure(C)
    got, und = [], set()
    J = {q: judge.judge(C, q) for q in C.verdicts}
    for p, prop in PROPS.items():
        if p not in CONES:
            continue
        qs = CONES[p]
        hit = False
        for q in qs:
            st, fs, why = J.get(q) or judge.judge(C, q)
            if st == "violation" and [x for x in fs if check.relevant(prop, x, q, why)]:
                hit = True
            if st == "undecided":
                und.add(q)
        for f in facts:
            if f.funcs & qs or any(q.split(":")[1].split(".")[0] == c.split(".")[-1] for c in f.classes for q in qs):
                hit = True
        if hit:
            got.append(p)
    st = "violation" if got else "undecided" if und else "same"
    return bid, want, st, got


def main():
    global SPEC, CONES
    import re, glob
    from run_refs import read
    from sa import check, model
    from sa.props import PROPS
    SPEC = model.Spec(os.path.join(HERE, "contracts"))
    CONES = {p: check.cone(SPEC, prop)[1] for p, prop in PROPS.items() if prop.get("entries")}
    jobs = []
    for fn in sys.argv[1:]:
        want = dict(re.findall(r"(?m)^=== (\S+) (C\d+)", open(fn).read()))
        jobs += [(b, want.get(b), e) for b, e in read(fn)]
    n = 0
    with multiprocessing.get_context("fork").Pool(7) as pool:
        for b, w, st, got in pool.imap(one, jobs):
            ok = w in got
            n += ok
            print("ok  " if ok else "MISS", b, w, st, " ".join(got) if not ok or len(got) < 6 else len(got))
    print(n, "of", len(jobs))


if __name__ == "__main__":
    main()
