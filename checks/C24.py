#!/usr/bin/env python3-vt
"""C24: the velocity absorber relaxes the velocities and nothing else"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from ref import reference, relax_lemma
def body(chk):
    T = []
    sets = [(1, "iga|fct", "c", {}), (1, "abs", "c", {"den": True}), (2, "iga", "c", {}), (2, "abs|fct", "c", {}), (2, "iga|nug", "c", {}), (3, "iga", "c", {}), (3, "abs|fct", "c", {}), (2, "iga|tot|fct", "c", {"den": True})]
    for nd, o, b, k in sets:
        if nd == 1: continue
        for v in ("expl", "impl"): T.append((cfgs.vip(nd, o, "trapez", b, vab=v, **k), v, nd if k.get("den") else None))
    prs = [cfgs.prs(2, "iga", "cr", "c", vab=v) for v in ("expl", "impl")] + [cfgs.prs(2, "iga|fct", "cr", "c.r", vab=v) for v in ("expl", "impl")] + ([cfgs.prs(3, "iga", "cr", "c.r.c", vab=v) for v in ("expl", "impl")] + [cfgs.prs(2, "abs", "mr", "c", vab="impl")] if chk.tier != "quick" else [])
    no = [cfgs.prs(c.nd, c.opts, "mr" if "_mr_" in c.name else "cr", ".".join(c.bc)) for c in prs]
    ok = {c.name for c in chk.usable([t[0] for t in T] + [cfgs.adv(t[0].nd, t[0].opts, ".".join(t[0].bc)) for t in T] + prs + no)}; schemas(chk); relax_lemma(chk)
    def one(chk, c, v, den):
        if isinstance(v, str):
            for nt in ((1, 2, 3) if c.nd == 1 else (1, 2) if c.nd == 2 or chk.tier != "quick" else (2,) if "fct" not in c.opts else (1,)):
                kw = size(c, True); kw["iters"] = 2; kw["nt"] = nt
                reference(chk, c, kw, "velocities relax to the given state with the given coefficient (%s)" % v, scheme="trapez", vel=True, den=den, vab=v)
            return
        # zero coefficient: as without absorber
        kw = size(c); kw.update(iters=2, nt=2); p = Pool(); what = "an absorber with zero coefficient does nothing"; name = c.name + ": " + what
        zero = {}
        r0 = chk.run(v, p, **kw); 
        r = chk.run(c, p, **kw)
        if r.exc or r0.exc: chk.undec(name, r.exc or r0.exc); return
        enc(chk, c); ns = sorted(r.out)
        # the relaxed state must not matter when the coefficient is zero (control flow of the iterative solver as on the path without absorber)
        z = lambda x: p.const(0) if x.startswith("vab[") else None
        a = p.subst([r.out[n] for n in ns], z, simp=True); b = p.subst([r0.out[n] for n in ns], lambda x: None, simp=True)
        same = [x for x in p.vars_of(a) if x.startswith(("rel", "vab"))]
        prs = list(zip(ns, a, b))
        def concrete(t):
            env = random_inputs(chk, r.witness, t); env = {n: (0. if n.startswith("vab[") else x) for n, x in env.items()}
            return chk.run_double(c, env, **kw)[1], chk.run_double(v, {n: x for n, x in env.items() if not n.startswith(("rel", "vab"))}, **kw)[1], env
        if not same and compare_sweep(chk, name, c, p, prs): return
        compare_nf(chk, name, c, p, prs, concrete, what, {"kw": kw}, tol=1e-7, sweep=False)
    chk.each([t for t in T if t[0].name in ok] + [(c, d, None) for c, d in zip(prs, no) if c.name in ok and d.name in ok], one)
    chk.bounds.append("grids 4x5 / 4x4x4, 1-2 steps with constant dt, 2 iterations; all values symbolic, arithmetic over the reals; cyclic boundaries; with pressure solver: zero coefficient only, iteration counts as on the witness path")
    return "the solver and a reference loop (built around the symbolically executed homogeneous step) are terms over the same inputs; z3 decides that all outputs are equal"
if __name__ == "__main__": main(body)
