"""One edit of tools/refs or tools/bugs: the differences left after expanding what only one side calls.  Not used by any check."""
import glob, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/tools")
from run_refs import read, replace
from sa import compare, model
from sa.program import Program
from sa.terms import show
from sa.compare import tdiff, differing
S = model.Spec(HERE + "/contracts")
W = int(sys.argv[2]) if len(sys.argv) > 2 else 1500
for fn in sorted(glob.glob(HERE + "/tools/refs/*.txt") + glob.glob(HERE + "/tools/bugs/*.txt")):
    for bid, edits in read(fn):
        if sys.argv[1] not in bid:
            continue
        ov = {}
        for f, old, new in edits:
            ov[f] = replace(ov.get(f) or open("/repo/" + f).read(), old, new)
        C = compare.Comparison(S, Program("/repo", overlay=ov))
        for q, v in C.verdicts.items():
            if v.status in ("same", "absorbed"):
                continue
            print(bid, q, v.status, v.why if isinstance(v.why, str) else "")
            if v.status != "differs": continue
            ex = frozenset()
            for r in range(4):
                a, ia = C.A.get(q, ex); b, ib = C.B.get(q, ex)
                more = {c for c in (ia.called ^ ib.called) if c != q} - ex
                if not more: break
                ex |= more
            print("expanded", sorted(ex), "notes", ib.opaque_notes)
            if len(sys.argv) > 3: print("A:", show(a[0])); print("B:", show(b[0]))
            for k, x, y in differing(a, b):
                print("  --", k)
                if not hasattr(x, "op") or not hasattr(y, "op"):
                    print("    A", x if not hasattr(x, "op") else show(x)[:W]); print("    B", y if not hasattr(y, "op") else show(y)[:W]); continue
                for p, r in tdiff(x, y):
                    print("    A", show(p)[:W] if hasattr(p, "op") else p); print("    B", show(r)[:W] if hasattr(r, "op") else r)
