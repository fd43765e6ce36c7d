#!/usr/bin/env python3-vt
"""C26: the Boussinesq solver couples velocity, temperature and pressure as documented"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from ref import reference
def body(chk):
    T = []; B = cfgs.bous
    sets = [(2, "iga", "c", {}), (2, "iga|fct", "c.r", {}), (2, "abs", "c", {"filt": True}), (2, "iga|fct", "c.r", {"filt": True, "absorb": False}), (2, "nug|iga", "c", {}), (3, "iga", "c.c.r", {}), (3, "abs", "c", {"filt": True, "absorb": False})]
    if chk.tier != "quick": sets += [(3, "iga|fct", "c.c.r", {"filt": True}), (2, "abs|fct", "c.r", {}), (3, "abs", "c", {})]
    for nd, o, b, k in sets:
        T.append((cfgs.phi(B(nd, o, b, tag="f" if k.get("filt") else "", **k)), "expl", None, k))
        if k.get("filt"): continue
        for vab in (None, "impl") if nd < 3 or chk.tier != "quick" else (None,): T.append((cfgs.phi(B(nd, o, b, impl=True, vab=vab, **k)), "impl", vab, k))
    T.append((cfgs.phi(B(2, "iga", "c.r", vab="expl", tag="ve")), "expl", "expl", {}))
    T.append((cfgs.phi(B(2, "iga", "c.r", vab="impl", tag="vi")), "expl", "impl", {}))
    ok = {c.name for c in chk.usable([t[0] for t in T] + [cfgs.adv(t[0].nd, t[0].opts, ".".join(t[0].bc)) for t in T])}; schemas(chk)
    def one(chk, c, kind, vab, k):
        for nt in (1, 2) if c.nd == 2 and not (vab and "fct" in c.optset) or chk.tier != "quick" else (1,):
            kw = size(c, True); kw["iters"] = 2; kw["nt"] = nt
            if kind == "expl": reference(chk, c, kw, "buoyancy and relaxation of temperature are applied by the trapezoidal rule, pressure gradient last", scheme="trapez", vel=True, vab=vab, prs=True, force=lambda f: f.bous(k.get("filt", False), k.get("absorb", True)))
            else: reference(chk, c, kw, "buoyancy, environmental profile and pressure gradient satisfy the implicit equations", scheme="trapez", vel=True, vab=vab, prs=True, force=lambda f: f.bous_impl(vab, k.get("absorb", True)))
    chk.each([t for t in T if t[0].name in ok], one)
    chk.bounds.append("grids 4x5 / 4x4x4, 1-2 steps with constant dt, 2 iterations; all fields, g, reference temperature, coefficients and the pressure found by the elliptic solver symbolic; arithmetic over the reals")
    return "the solver (with an arbitrary pressure field in place of the result of the elliptic solver) and a reference loop (built around the symbolically executed homogeneous step) are terms over the same inputs; z3 decides that all outputs are equal"
if __name__ == "__main__": main(body)
