"""Defects of the package that are recorded rather than repaired.

The contract of such a function records what it does today.  The `repaired` contract states what it should do, so that
a later repair is accepted as well."""

import os

MEETS = ("same", "absorbed", "inherited")


def shown(C, known, pid):
    """Descriptions of the listed findings of a property that the source still shows."""
    out = []
    for k in known.get("known", []):
        if k["property"] != pid:
            continue
        vs = [C.verdicts.get(q) for q in k["functions"]]
        if all(v is not None and v.status in MEETS for v in vs):
            out.append(k["what"] + " at " + ", ".join(k["functions"]))
    return out


def repaired(C, known, here):
    """The functions that meet the contract without the recorded defect."""
    from . import compare, model

    out = set()
    for k in known.get("known", []):
        vs = [C.verdicts.get(q) for q in k["functions"]]
        if "repaired" not in k or all(v is not None and v.status in MEETS for v in vs):
            continue
        with open(os.path.join(here, k["repaired"]["contract"])) as fh:
            src = fh.read()
        spec = model.Spec(os.path.join(here, "contracts"), overlay={k["repaired"]["file"]: src})
        D = compare.Comparison(spec, C.P)
        if all(D.verdicts[q].status in MEETS for q in k["functions"]):
            out |= set(k["functions"])
    return out
