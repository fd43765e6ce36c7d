#!/usr/bin/env python3-vt
"""C06: the number of worker threads never changes a computed value"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from vlib import *
import cfgs

def sets(tier):
    A = cfgs.adv
    L = []
    for nd in (1, 2, 3):
        L += [A(nd, "0"), A(nd, "abs|tot|fct"), A(nd, "iga|fct", "o"), A(nd, "nug|dfl|fct"), A(nd, "iga|div_2nd|div_3rd|fct")]
    L += [A(1, "khn|tot|nug", "o"), A(2, "iga|tot|fct|nug", "r"), A(2, "tot|fct|dfl|nug", "c.p"), A(2, "dfl", "o.r"), A(3, "dfl", "c.o.r") , A(3, "iga|tot|fct", "c.r.o"), A(3, "khn|iga|div_2nd|fct", "o"), A(2, "iga|tot|fot", "c.o"), A(2, "khn|fct|dfl", "o.c"),
          A(3, "tot|dfl|fct|nug", "r.o.c"), A(1, "iga|div_2nd|div_3rd_dt")]
    return L

def one(chk, c):
    kw = dict(nx=7, ny=6, iters=3) if c.nd < 3 else dict(nx=4, ny=6, nz=4, iters=3 if c.opts == "dfl" else 2)
    if "p" in c.bc: kw.update(nx=5, ny=6)
    if "iga" in c.opts: kw["iters"] = 2
    kw["nt"] = 2 if c.nd < 3 else 1
    p = Pool()
    ref = chk.run(c, p, workers=1, ren=lambda n: "A" + n if n.startswith("junk") else None, **kw)
    if ref.exc: raise RuntimeError("%s: %s" % (c, ref.exc))
    for w in ((2, 3) if chk.tier == "quick" else (2, 3, 4, 5)): cmp_runs(chk, c, p, ref, kw, w)
    chk.encoded |= encoded_for(c.opts, c.nd, ["bcond::" + "/".join(c.bc)])

def body(chk):
    L = chk.usable(sets(chk.tier))
    chk.each(L, one)
    chk.bounds.append("grids 7 / 7x6 / 4x6x4, 1-2 steps, up to 3 iterations, workers 1..%d; all field, velocity, G values symbolic; IEEE operations uninterpreted (bitwise claim)" % (3 if chk.tier == "quick" else 5))
    chk.assumptions += ["initial divergence check passes (max_abs_div_eps large)", "workers run as coroutines between barriers (C07 decides schedule independence)"]
    return ("each configuration is executed symbolically with 1 and with w workers; z3 (equality with uninterpreted functions) decides that every output value is the same term")

def cmp_runs(chk, c, p, ref, kw, w):
    name = "%s w=%d" % (c.name, w)
    r = chk.run(c, p, workers=w, ren=lambda n: "B" + n if n.startswith("junk") else None, **kw)
    if r.exc:
        chk.violation(name, "run fails with %d workers: %s" % (w, r.exc), {"cfg": c.code(), "kw": kw, "workers": w}); return
    pairs = [(n, ref.out[n], r.out[n]) for n in ref.out]
    bad = euf_differing(chk, p, pairs)
    if not bad: chk.ok(name, "%d outputs, same terms" % len(pairs)); return
    # counterexample: concrete values on which the two runs of the real code differ
    for t in range(6):
        env = {k: (v if t == 0 else float(rand_env(100 * chk.seed + t, 1)(k)[0])) for k, v in ref.witness.items() if not k.startswith(("junk", "fp!"))}
        _, va, na = chk.run_double(c, env, workers=1, **kw)
        _, vb, nb = chk.run_double(c, env, workers=w, **kw)
        d = [(n, va[n], vb[n]) for n in va if not (va[n] == vb[n] or abs(va[n] - vb[n]) <= 1e-13 * max(abs(va[n]), abs(vb[n])))]
        if d:
            chk.violation(name, "%s differs: %.17g with 1 worker, %.17g with %d" % (d[0][0], d[0][1], d[0][2], w), {"cfg": c.code(), "harness": c.harness, "kw": kw, "workers": w, "inputs": env, "differences": d[:10]}); return
    chk.undec(name, "terms differ structurally but no numerical difference found: %s" % [b[0] for b in bad])
if __name__ == "__main__": main(body)
