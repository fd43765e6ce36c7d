#!/usr/bin/env python3-vt
"""C25: the shallow-water solver"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from ref import reference
def body(chk):
    T = []
    sets = [(1, "0", "c", {}), (1, "iga|fct", "c", {}), (1, "abs|fct", "c", {"eps": "1."}), (1, "0", "o", {}), (2, "iga|fct", "c", {}), (2, "abs", "c", {}), (2, "nug|abs", "c", {}), (2, "iga|fct", "c", {"eps": "1."})]
    if chk.tier != "quick": sets += [(1, "iga|tot", "c", {}), (2, "abs|fct|dfl", "c", {}), (2, "iga|tot|fct", "c", {}), (2, "fct", "c", {})]
    T = [(cfgs.swe(nd, o, b, tag="eps" if k else "", **k), k.get("eps")) for nd, o, b, k in sets if b == "c"]
    ok = {c.name for c in chk.usable([t[0] for t in T] + [cfgs.adv(t[0].nd, t[0].opts, ".".join(t[0].bc)) for t in T])}; schemas(chk)
    def one(chk, c, eps):
        for nt in (1, 2, 3) if c.nd == 1 else (1, 2):
            kw = size(c, True); kw["iters"] = 2; kw["nt"] = nt
            reference(chk, c, kw, "depth is advected, momentum is accelerated by -g h grad(h)", scheme="trapez", vel=True, den=c.nd, eps=float(eps) if eps else None, norhs=(c.nd,), force=lambda f: f.swe)
    chk.each([t for t in T if t[0].name in ok], one)
    chk.bounds.append("grids 6 / 4x5, 1-3 steps with constant dt, 2 iterations; momenta, depth, g, time step and grid lengths symbolic; arithmetic over the reals; cyclic boundaries")
    return "the solver and a reference loop (built around the symbolically executed homogeneous step) are terms over the same inputs; z3 decides that all outputs are equal"
if __name__ == "__main__": main(body)
