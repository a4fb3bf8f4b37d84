"""Summaries of all the functions of a program, and the effect classes of the contract functions."""

import ast
import json
import os
import signal
import sys
import time

from .interp import Interp, Unsupported
from .program import Program
from .terms import SUPERS, BOOLEAN, FRESH, RANGE, is_bool, key, reset_memo
from .types import Types

sys.setrecursionlimit(20000)


def transparent(f):
    """Single-expression functions are expanded wherever they are called."""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if f.name == "__init__":
        return True
    if len(body) != 1 or not isinstance(body[0], (ast.Return, ast.Pass)):
        return False
    for n in ast.walk(f.node):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
    return True


def fresh_kind(ret):
    if ret.op == "ite":
        k = fresh_kind(ret.a[1])
        return k if k is not None and k == fresh_kind(ret.a[2]) else None
    if ret.op == "call":
        return FRESH.get(ret.a[0])
    return {"cat": "list", "sorted": "list", "set": "set", "dict": "dict", "setop": "set"}.get(ret.op)


def boolean(ret):
    """Whether a function returns True or False whatever happens."""
    if ret.op == "ite":
        return boolean(ret.a[1]) and boolean(ret.a[2])
    return is_bool(ret)


def constants(ret):
    """The texts a function answers with, when these are all of its answers."""
    out = set()
    st = [ret]
    while st:
        t = st.pop()
        if t.op == "ite":
            st += t.a[1:]
        elif t.op == "c" and t.a[0] == "s":
            out.add(t)
        elif t.op != "raise":
            return None
    return sorted(out, key=key) if len(out) > 1 else None


class Spec:
    """The contracts: their functions, types and effects."""

    def __init__(self, root, overlay=None):
        self.P = Program(root, overlay=overlay)
        for ks in self.P.class_by_name.values():
            for k in ks:
                if len(ks) == 1:
                    SUPERS[k.name] = {b.name for b in self.P.mro(k)} - {k.name}
        self.types = Types(self.P, json.load(open(os.path.join(root, "types.json"))))
        self.transparent = {q for q, f in self.P.funcs.items() if transparent(f)}
        self.maywrite = {}
        self.mayread = {}
        self.sums = {}
        self.fixpoint()

    def opaque(self, f, extra=()):
        q = f.qual
        return q in self.P.funcs and q not in self.transparent and q not in extra

    def fixpoint(self):
        for rnd in range(10):
            ch = False
            for q, f in self.P.funcs.items():
                it = Interp(self.P, self.types, self.opaque, self.maywrite, self.mayread)
                try:
                    self.sums[q] = (it.summarise(f), it)
                except (Unsupported, RecursionError) as e:
                    self.sums[q] = (None, str(e))
                if self.sums[q][0] is not None:
                    ret = self.sums[q][0][0]
                    k = fresh_kind(ret)
                    if self.types.freshk.get(q) != k:
                        ch = True
                        self.types.freshk[q] = k
                        if k:
                            FRESH[q] = k
                        else:
                            FRESH.pop(q, None)
                    i = ret.a[0] if ret.op == "p" else None
                    if self.types.retp.get(q) != i:
                        ch = True
                        self.types.retp[q] = i
                    if boolean(ret) != (q in BOOLEAN):
                        ch = True
                        BOOLEAN.discard(q) if q in BOOLEAN else BOOLEAN.add(q)
                    vs = constants(ret)
                    if vs != RANGE.get(q):
                        ch = True
                        if vs:
                            RANGE[q] = vs
                        else:
                            RANGE.pop(q, None)
                w, r = frozenset(it.wrote), frozenset(it.read)
                if self.maywrite.get(q) != w or self.mayread.get(q) != r:
                    ch = True
                self.maywrite[q] = w
                self.mayread[q] = r
            if not ch:
                break
            reset_memo()
        self.rounds = rnd + 1


class Slow(BaseException):
    """The analysis of one function takes too long."""


LIMIT = 25  # seconds for one function
TOTAL = 420  # seconds for all of the functions that are not like their contracts
START = time.time()


def summarise(P, spec, f, expand=()):
    it = Interp(P, spec.types, lambda g: spec.opaque(g, expand), spec.maywrite, spec.mayread)
    if time.time() - START > TOTAL:
        return None, "out of time"

    def slow(*_):
        raise Slow()

    old = signal.signal(signal.SIGALRM, slow)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        return it.summarise(f), it
    except Unsupported as e:
        return None, "unsupported: %s" % e
    except RecursionError:
        return None, "recursion"
    except Slow:
        return None, "out of time"
    except Exception as e:  # a construct the analysis has no model for
        return None, "not modelled: %s %s" % (type(e).__name__, e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
