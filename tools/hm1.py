"""One handmade rewrite: the differences left after expanding what only one side calls.  Not used by any check."""
import ast, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/tools")
from run_handmade import variants
from sa import compare, model
from sa.program import Program
from sa.terms import show
from sa.compare import tdiff, differing
S = model.Spec(HERE + "/contracts")
W = int(sys.argv[2]) if len(sys.argv) > 2 else 1500
for name, target, text in variants("/repo", sys.argv[1]):
    C = compare.Comparison(S, Program("/repo", overlay={target: text}))
    for q, v in C.verdicts.items():
        if v.status in ("same", "absorbed"):
            continue
        print(name, q, v.status, v.why if isinstance(v.why, str) else "")
        if v.status != "differs": continue
        ex = frozenset()
        for r in range(4):
            a, ia = C.A.get(q, ex); b, ib = C.B.get(q, ex)
            more = {c for c in (ia.called ^ ib.called) if c != q} - ex
            if not more: break
            ex |= more
        print("expanded", sorted(ex), "notes", ib.opaque_notes)
        for k, x, y in differing(a, b):
            print("  --", k)
            if not hasattr(x, "op") or not hasattr(y, "op"):
                print("    A", x if not hasattr(x, "op") else show(x)[:W]); print("    B", y if not hasattr(y, "op") else show(y)[:W]); continue
            for p, r in tdiff(x, y):
                print("    A", show(p)[:W] if hasattr(p, "op") else p); print("    B", show(r)[:W] if hasattr(r, "op") else r)
