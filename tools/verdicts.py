"""Prints what the comparison says about every function of a source tree that is not like its contract."""

import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import compare, judge, model, structure
from sa.program import Program

spec = model.Spec(os.path.join(HERE, "contracts"))
C = compare.Comparison(spec, Program(sys.argv[1]))
for q in C.verdicts:
    s, fs, why = judge.judge(C, q)
    if s != "same":
        print("  ", q, s, str(why)[:300])
        for f in fs[:4]:
            print("       ", judge.describe(f)[:400])
for f in structure.structure(C)[0]:
    print("   fact", f.rule, f.where, f.text[:200])
