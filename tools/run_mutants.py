"""Runs the comparison on mutants and on rewrites and records the differences.  Not used by any check."""

import argparse
import gc
import multiprocessing
import os
import pickle
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("--kinds")
    ap.add_argument("--sample", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--what", default="mutate")
    ap.add_argument("--out", default="/tmp/w/mut.txt")
    a = ap.parse_args()
    if a.what == "mutate":
        from tools.mutate import variants
        work = list(variants(a.root, a.only, a.kinds.split(",") if a.kinds else None))[:: a.sample]
    else:
        from tools.refactor import variants
        work = [(r, k, f, s, src, []) for r, k, f, s, src in variants(a.root, a.only, a.kinds.split(",") if a.kinds else None)][:: a.sample]
    from sa import model
    from sa import compare, judge
    from sa.program import Program
    from sa.terms import show

    spec = model.Spec(os.path.join(HERE, "contracts"))
    gc.collect(); gc.freeze(); gc.disable()
    global RUN

    def RUN(w):
        rel, kind, fn, site, src, d = w
        try:
            C = compare.Comparison(spec, Program(a.root, overlay={rel: src}))
        except Exception:
            import traceback
            return w, "crash", [traceback.format_exc()[-500:]]
        st = "same"
        out = []
        for q in C.verdicts:
            s, fs, why = judge.judge(C, q)
            if s in ("same", "absorbed", "inherited"):
                continue
            if s == "violation" or st == "same":
                st = s
            out.append((q, s, why[:300], [(f.part, str(show(f.a) if hasattr(f.a, "op") else f.a)[:500], str(show(f.b) if hasattr(f.b, "op") else f.b)[:500], f.kind) for f in fs[:6]]))
        return w, st, out

    from collections import Counter

    tot = Counter()
    with open(a.out, "w") as fo, multiprocessing.get_context("fork").Pool(a.jobs, maxtasksperchild=4) as pool:
        for w, st, out in pool.imap_unordered(_run, work, 5):
            tot[(w[1], st)] += 1
            tot[("ALL", st)] += 1
            print("###", st, *w[:4], file=fo)
            for l in w[5]:
                print("   ", l, file=fo)
            for o in out:
                if isinstance(o, str):
                    print(o, file=fo)
                    continue
                print("  =>", o[0], o[1], o[2], file=fo)
                for p, x, y, k in o[3]:
                    print("      ", p, k, "\n        A", x, "\n        B", y, file=fo)
    for k in sorted(tot):
        print(k, tot[k])


def _run(w):
    return RUN(w)


if __name__ == "__main__":
    main()
