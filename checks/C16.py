#!/usr/bin/env python3-vt
"""C16: fields advected together do not influence each other"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
DEL = "enum { delayed_step = opts::bit(0) | opts::bit(%d) };"
def sets(tier):
    A = cfgs.adv
    base = [(1, "iga|tot|fct|nug", "o"), (1, "khn|tot|dfl|fct", "c"), (1, "0", "o"), (2, "abs|tot|fct|dfl", "c.p"), (2, "iga|div_2nd|div_3rd|fct", "c"), (2, "khn|fct|nug", "o.c"), (2, "dfl", "o.r"), (2, "0", "c"),
            (2, "abs|fct", "c.o"), (3, "iga|fct|nug", "c.o.r"), (3, "tot|dfl", "o.c.c"), (3, "fct", "c")]
    return [((nd, o, bc), v) for nd, o, bc in base for v in (["n2"] if nd == 3 else ["n2", "n3"]) + ["del"]]
def cfg(b, v):
    nd, o, bc = b
    if v == "n1": return cfgs.adv(nd, o, bc)
    if v == "del": return cfgs.adv(nd, o, bc, neq=3 if nd < 3 else 2, ctx=DEL % (2 if nd < 3 else 0))
    return cfgs.adv(nd, o, bc, neq=int(v[1]))
def one(chk, b, v):
    c = cfg(b, v); c1 = cfg(b, "n1")
    kw = size(c); kw["nt"] = 2 if c.nd < 3 else 1
    if c.opts == "dfl": kw["iters"] = 3
    p = Pool()
    r = chk.run(c, p, workers=2, **kw); r1 = chk.run(c1, p, workers=2, **kw)
    if r.exc or r1.exc: chk.undec(c.name, r.exc or r1.exc); return
    for e in range(c.neq):
        name = "%s equation %d" % (c.name, e)
        mine = [n for n in r.out if n.startswith("psi%d[" % e)]
        alone = p.subst([r1.out["psi0[" + n.split("[")[1]] for n in mine], lambda x: p.var("psi%d[" % e + x.split("[")[1]) if x.startswith("psi0[") else None)
        def conc(k):
            env = random_inputs(chk, r.witness, k)
            v1 = chk.run_double(c, env, workers=2, **kw)[1]
            e1 = {n: x for n, x in env.items() if not n.startswith("psi")}
            e1.update({"psi0[" + n.split("[")[1]: x for n, x in env.items() if n.startswith("psi%d[" % e)})
            v2 = chk.run_double(c1, e1, workers=2, **kw)[1]
            return {n: v1[n] for n in mine}, {n: v2["psi0[" + n.split("[")[1]] for n in mine}, env
        compare_terms(chk, name, c, p, [(n, r.out[n], a) for n, a in zip(mine, alone)], conc, "a field advected together with others differs from the same field advected alone", {"kw": kw, "alone": c1.code()})
    enc(chk, c, ["solver_common::solve_loop_body/cycle/is_last_eqn"])
def body(chk):
    S = sets(chk.tier)
    ok = {c.name for c in chk.usable([cfg(b, v) for b, v in S] + [cfg(b, "n1") for b in {b for b, v in S}])}
    chk.each([(b, v) for b, v in S if cfg(b, v).name in ok and cfg(b, "n1").name in ok], one)
    chk.bounds.append("2-3 equations (with and without delayed_step), grids 6 / 5x6 / 4x5x4, 1-2 steps, up to 3 iterations, 2 workers; all values symbolic, IEEE operations uninterpreted")
    return "a run with several equations and a run with one are executed symbolically; z3 (equality with uninterpreted functions) decides that each field is computed by the same term"
if __name__ == "__main__": main(body)
