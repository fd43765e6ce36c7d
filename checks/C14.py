#!/usr/bin/env python3-vt
"""C14: forcings are applied as the chosen time-integration scheme says"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from ref import reference
def body(chk):
    A = cfgs.rhs; T = []
    sets = [(1, "0", "c"), (1, "abs|tot|fct", "c"), (2, "iga|fct", "c"), (2, "nug|fct", "r.c"), (2, "abs|dfl", "c.r"), (3, "0", "c.r.c"), (1, "iga|div_2nd|div_3rd", "c")]
    if chk.tier != "quick": sets += [(2, "iga|tot|fot", "c"), (3, "iga|fct|nug", "r.c.c"), (3, "abs|tot", "c"), (2, "div_2nd|div_3rd", "c"), (1, "khn|nug", "c")]
    for nd, o, b in sets:
        for s in ("euler_a", "euler_b", "trapez"): T.append((A(nd, o, s, b), s, {}, ()))
    NR = "enum { hint_norhs = opts::bit(0) };"
    for s in ("euler_a", "euler_b", "trapez"): T.append((A(1, "iga|fct", s, "c", ctx=NR, tag="norhs0"), s, {}, (0,)))
    T.append((A(2, "0", "trapez", "c", neq=3, ctx="enum { hint_norhs = opts::bit(1) };", tag="norhs1"), "trapez", {}, (1,)))
    ok = {c.name for c in chk.usable([t[0] for t in T] + [cfgs.adv(t[0].nd, t[0].opts, ".".join(t[0].bc)) for t in T])}; schemas(chk)
    def one(chk, c, s, k, nr):
        for nt in ((1, 2, 3) if c.nd == 1 else (1, 2)):
            if nt == 2 and c.nd == 3 and chk.tier == "quick": continue
            kw = size(c, True); kw.update(k); kw["iters"] = 2; kw["nt"] = nt
            reference(chk, c, kw, "the step is the composition the scheme %s stands for" % s, scheme=s, norhs=nr)
    chk.each([t for t in T if t[0].name in ok], one)
    chk.bounds.append("grids 6 / 4x5 / 4x4x4, 1-3 steps, 2 iterations, 2-3 coupled equations with a non-local right-hand side; all values symbolic, arithmetic over the reals; cyclic and rigid boundaries; schemes euler_a, euler_b, trapez")
    return "the solver and a reference loop (built around the symbolically executed homogeneous step) are terms over the same inputs; z3 decides that all outputs are equal"
if __name__ == "__main__": main(body)
