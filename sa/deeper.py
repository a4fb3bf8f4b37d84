"""What the thorough tier adds: the functions outside the property's cone, and how sharp the check is on the cone.

Single-point changes of the source of the functions in the cone are analysed (none is run) and it is counted which of them
part the summaries.  A change that keeps the behaviour is counted with those that do not, so the share is a lower bound.
Nothing here decides the property.
"""

import gc
import multiprocessing
import os
import random
from collections import Counter

LIMIT = 160


def deeper(C, spec, out, seed):
    from . import judge
    from tools.mutate import variants

    cone = set(out["functions"])
    outside = Counter(judge.judge(C, q)[0] for q in spec.P.funcs if q not in cone)
    names = {q.split(":")[1].split(".")[-1] for q in cone}
    files = {C.P.funcs[q].module.rel for q in cone if q in C.P.funcs}
    work = [w for w in variants(C.P.root) if w[0] in files and w[2] in names]
    random.Random(seed).shuffle(work)
    total = len(work)
    work = work[:LIMIT]
    global ONE

    def ONE(i):
        from . import compare
        from .program import Program

        rel, kind, fn, site, src = work[i][:5]
        try:
            D = compare.Comparison(spec, Program(C.P.root, overlay={rel: src}))
        except Exception as e:
            return "analysis failed: " + type(e).__name__, None
        st = {judge.judge(D, q)[0] for q in sorted(cone)}
        r = "violation" if st & {"violation", "gone"} else "undecided" if "undecided" in st else "same"
        return r, None if r == "violation" else [r, rel, fn, kind, site]

    gc.collect()
    gc.freeze()
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1), maxtasksperchild=8) as pool:
        rs = pool.map(_one, range(len(work)), 1)
    return {"outside_cone": dict(outside), "changes_possible": total, "changes_analysed": len(work), "changes_by_verdict": dict(Counter(r for r, _ in rs)),
            "changes_not_reported": [w for _, w in rs if w]}


def _one(i):
    return ONE(i)
