"""Writes planted bugs to seeded/<id>/ from descriptions, and confirms each in a scratch copy.  Not used by any check.

A description is a file of sections: "=== id property", then "needs:", "breaks:", "--- file", "<<<" old "===>" new ">>>", and
"demo:" followed by the demonstration."""

import argparse
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def read(path):
    out = []
    for sec in re.split(r"(?m)^=== ", open(path).read())[1:]:
        head, body = sec.split("\n", 1)
        bid, prop = head.split()
        pre, demo = body.split("\ndemo:\n", 1)
        needs = re.search(r"(?m)^needs: (.*)$", pre).group(1)
        breaks = re.search(r"(?m)^breaks: (.*)$", pre).group(1)
        edits = []
        f = None
        for m in re.finditer(r"(?ms)^--- (\S+)$|^<<<\n(.*?)^===>\n(.*?)^>>>$", pre):
            if m.group(1):
                f = m.group(1)
            else:
                edits.append((f, m.group(2), m.group(3)))
        out.append((bid, prop, needs, breaks, edits, demo))
    return out


def sh(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=280)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--only")
    ap.add_argument("--nocheck", action="store_true")
    ap.add_argument("--dest", default=os.path.join(HERE, "seeded"))
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(HERE, "tools"))
    from run_refs import replace
    for fn in a.files:
        for bid, prop, needs, breaks, edits, demo in read(fn):
            if a.only and not any(x in bid for x in a.only.split(",")):
                continue
            w = "/tmp/w/seedcopy"
            shutil.rmtree(w, ignore_errors=True)
            shutil.copytree("/repo", w, symlinks=True)
            d = os.path.join(a.dest, bid)
            bad = None
            for f, old, new in edits:
                p = os.path.join(w, f)
                s = open(p).read()
                s = replace(s, old, new)
                if s is None:
                    bad = f"text not found once in {f}: {old[:60]!r}"
                    break
                open(p, "w").write(s)
            if bad:
                print(bid, "BAD", bad)
                continue
            diff = sh("git diff", w).stdout
            sh("git checkout -- .", w)
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write(demo)
            open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
            r0 = sh(f"bash {d}/demo.sh", w)
            ap_ = sh(f"git apply {d}/patch.diff", w)
            r1 = sh(f"bash {d}/demo.sh", w)
            t = sh(f"PYTHONPATH=. PYTHONHASHSEED=0 {PY} -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3", w)
            ok = r0.returncode == 0 and ap_.returncode == 0 and r1.returncode != 0 and "84 passed" in t.stdout and "failed" not in t.stdout
            det = ""
            if ok and not a.nocheck:
                c = sh(f"python3 -m sa.check {prop}", HERE, {"VERIF_REPO": w})
                det = "caught" if c.returncode == 1 else "MISSED (%d) " % c.returncode + c.stdout[-300:]
                if c.returncode != 1:
                    al = sh("python3 tools/verdicts.py " + w, HERE)
                    det += "\n" + al.stdout
            print(bid, prop, "OK" if ok else "NOT CONFIRMED", det)
            if not ok:
                print("  clean", r0.returncode, r0.stderr[-300:], "patched", r1.returncode, "tests", t.stdout[-300:])
            shutil.rmtree(w, ignore_errors=True)


main()
