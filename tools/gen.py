"""Writes properties.jsonl and MANIFEST.json from sa/props.py."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.props import NOT_APPLICABLE, PROPS

NOTE = ("For every function the property's operations reach, the current source is abstractly interpreted into a normalised summary of result and effects over all inputs "
        "and compared with the required one; decided up to the listed assumptions. Differences the analysis cannot tell from an equivalent rewrite are reported as undecided in the evidence, not as violations.")


def line(pid, p):
    return {
        "id": pid,
        "title": p["title"],
        "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["qtext"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    }


with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for d in (PROPS, NOT_APPLICABLE):
        for pid, p in sorted(d.items()):
            fh.write(json.dumps(line(pid, p)) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 10)'",
    "checks": [
        {
            "property": pid,
            "quick_cmd": f"python3 -m sa.check {pid} quick",
            "thorough_cmd": f"python3 -m sa.check {pid} thorough",
            "technique": "abstract interpretation to normalised function summaries, compared with contracts over the resolved call graph" + ("; effect analysis" if p.get("effects_only") else ""),
            "level": "other",
            "level_note": p.get("note", NOTE),
        }
        for pid, p in sorted(PROPS.items())
    ],
    "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(NOT_APPLICABLE.items())],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
