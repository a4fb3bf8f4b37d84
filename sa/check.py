"""Decides one property on the source tree of the package and writes its evidence."""

import fnmatch
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def match(q, pats):
    return any(fnmatch.fnmatchcase(q, p) for p in pats)


def cone(spec, prop):
    """The contract functions a property is decided on."""
    qs = sorted(spec.P.funcs)
    ents = [q for q in qs if match(q, prop["entries"]) and not match(q, prop["cut"])]
    seen, st = set(), list(ents)
    while st:
        q = st.pop()
        if q in seen:
            continue
        seen.add(q)
        it = spec.sums[q][1]
        if isinstance(it, str):
            continue
        st.extend(c for c in it.called | it.inlined if c in spec.P.funcs and not match(c, prop["cut"]))
    return ents, seen


def decide(pid):
    from . import compare, judge, model, props, structure
    from .known import repaired, shown
    from .program import Program

    prop = props.PROPS[pid]
    spec = model.Spec(os.path.join(HERE, "contracts"))
    C = compare.Comparison(spec, Program(REPO))
    facts, nfacts = structure.structure(C)
    ents, qs = cone(spec, prop)
    out = {"entries": ents, "functions": sorted(qs), "violations": [], "undecided": [], "known": [], "status": {}, "facts": nfacts, "C": C, "spec": spec}
    known = load_known()
    mended = repaired(C, known, HERE) if any(q in qs for k in known["known"] for q in k["functions"]) else ()
    for q in sorted(qs):
        st, fs, why = judge.judge(C, q)
        if q in mended:
            st = "repaired"
        f = C.P.funcs.get(q)
        where = (f.module.rel, f.node.lineno) if f is not None else (None, 0)
        if st == "gone" and not compare.internal(q):
            g = spec.P.funcs[q]
            m = C.P.by_dotted.get(spec.P.dotted[g.module.name])
            st = "violation"
            fs = [judge.Finding(q, "result", None, None, "the public operation is gone")]
            where = (g.module.rel, 0)
        out["status"][q] = st
        if st in ("undecided", "gone"):
            out["undecided"].append((q, why))
        if st == "violation":
            fs = [x for x in fs if relevant(prop, x, q, why)]
            if fs:
                out["violations"].append({"function": q, "file": where[0], "line": where[1], "rule": "contract",
                                          "differences": [judge.describe(x) for x in fs[:12]]})
            else:
                out["status"][q] = "irrelevant"
    for f in facts:
        if f.funcs & qs or any(q.split(":")[1].split(".")[0] == c.split(".")[-1] for c in f.classes for q in qs):
            out["violations"].append({"function": f.where, "file": f.file, "line": f.line, "rule": f.rule, "differences": [f.text]})
    out["known"] = shown(C, known, pid)
    return prop, out


def relevant(prop, x, q, why=""):
    if not prop.get("effects_only") or "where a copy is required" in why:
        return True
    if prop.get("ctor") and q.endswith("__init__"):
        return True
    return x.part.startswith("effect") or x.kind == "the public operation is gone" or x.aliasing()


def load_known():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def run(pid, tier):
    t0 = time.time()
    prop, out = decide(pid)
    C, spec = out.pop("C"), out.pop("spec")
    from collections import Counter

    stat = Counter(out["status"].values())
    decided = [q for q, s in out["status"].items() if s in ("same", "absorbed", "inherited", "irrelevant", "repaired", "violation")]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Every function the property's operations reach through resolved calls was parsed from the current source, abstractly interpreted into a normalised summary "
            "(its result and its effects as terms over its inputs, for all inputs at once) and compared with the summary the property requires of it; class-level facts "
            "(bases, overriding, special methods, enumerations, decorators, import-time statements) were compared as well. No code of the package was run.",
            "rule": "a reached function breaks the property when its summary parts from the required one in a constant, field, call, comparison, guard, operand or effect; a difference that could come from an unmodelled "
            "way of writing a loop or from an unmodelled construct is listed as undecided and decides nothing",
            "files_parsed": len(C.P.files),
            "functions_in_package": len(C.P.funcs),
            "entry_points": len(out["entries"]),
            "obligations": len(out["functions"]),
            "discharged": len([q for q in out["status"] if out["status"][q] in ("same", "absorbed", "inherited", "irrelevant", "repaired")]),
            "by_status": dict(stat),
            "undecided": [list(u) for u in out["undecided"]],
            "class_and_module_facts": out["facts"],
            "terms_compared": sum(len(compare_parts(spec, q)) for q in out["functions"]),
            "functions": out["functions"],
            "samples": samples(spec, out["entries"]),
        },
        "assumptions": ["attributes hold values of the types inferred in contracts/types.json", "library functions (numpy, pandas, networkx, itertools, json) behave as documented",
                        "equal summaries mean equal behaviour up to exceptions, log output and running time"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(out["violations"]),
    }
    if tier == "thorough":
        from .deeper import deeper

        ev["coverage"].update(deeper(C, spec, out, ev["seed"]))
        ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in out["known"]:
        print(f"KNOWN-FINDING: property={pid} {k}")
    print(f"{pid}: {ev['coverage']['discharged']} of {len(out['functions'])} functions meet their contract, {len(out['undecided'])} undecided, {len(out['violations'])} violations ({ev['wall_s']} s)")
    if not decided and out["functions"]:
        print("nothing could be decided")
    if out["violations"]:
        rp = os.path.join(HERE, "evidence", f"replay-{pid}.json")
        with open(rp, "w") as fh:
            json.dump({"property": pid, "title": prop["title"], "violations": out["violations"], "how": f"python3 -m sa.check {pid}"}, fh, indent=1)
        for v in out["violations"]:
            print(f"  {v['file']}:{v['line']} {v['function']} [{v['rule']}]")
            for d in v["differences"][:6]:
                print("     " + d[:400].replace("\n", " "))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def compare_parts(spec, q):
    from .compare import parts

    s = spec.sums[q][0]
    return parts(s) if s else {}


def samples(spec, ents):
    from .terms import show

    out = []
    for q in ents[:3]:
        s = spec.sums[q][0]
        if s is not None:
            out.append({"function": q, "required result": show(s[0])[:300], "effects": sorted(s[1])})
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run(pid, tier))


if __name__ == "__main__":
    main()
