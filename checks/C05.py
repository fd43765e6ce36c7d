#!/usr/bin/env python3-vt
"""C05: without flow nothing changes"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
def sets(tier):
    A = cfgs.adv
    L = []
    for o in ("0", "abs|tot|fct", "iga|tot|fct|nug", "nug|dfl|fct", "iga|div_2nd|div_3rd|fct", "khn|dfl|tot|nug", "iga|div_2nd|div_3rd_dt", "npa|nug", "iga|dfl|nug", "pfc|tot|fct", "abs|dfl|nug", "nug|div_2nd|div_3rd", "abs|div_2nd|div_3rd|fct"):
        for nd, bcs in ((1, ("c", "o")), (2, ("c", "r", "o", "c.p", "o.r")), (3, ("c", "c.o.r", "o.r.c"))):
            for bc in bcs:
                if "p" in bc and "div" in o: continue
                if tier == "quick" and nd > 1 and hash_(o, nd, bc) % (3 if nd == 2 else 6): continue
                L.append(A(nd, o, bc))
    return L + [A(2, "fct", "c", neq=2, ctx="enum { delayed_step = opts::bit(0) };"), A(1, "0", neq=3, ctx="static constexpr int hint_scale(const int &e) { return e - 1; }")]
def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())
def one(chk, c):
    kw = size(c); kw["nt"] = 2
    p = Pool(); r = chk.run(c, p, **kw)
    if r.exc: chk.undec(c.name, r.exc); return
    names = sorted(r.out)
    out = p.subst([r.out[n] for n in names], lambda v: p.const(0) if v.startswith("gc") else None)
    n = [kw["n" + x] for x in "xyz"[:c.nd]]
    def src(nm):
        m = IX.match(nm); ix = [int(x) for x in m.group(2).split(",")]
        for d in range(c.nd):
            if c.bc[d] == "c": ix[d] %= n[d] - 1
        return "%s[%s]" % (m.group(1), ",".join(map(str, ix)))
    def concrete(k):
        env = {v: 0. if v.startswith("gc") else x for v, x in random_inputs(chk, r.witness, k).items()}
        return chk.run_double(c, env, **kw)[1], {m: env[src(m)] for m in names}, env
    enc(chk, c)
    compare_nf(chk, c.name, c, p, [(m, x, p.var(src(m))) for m, x in zip(names, out)], concrete, "field after two steps without flow vs before", {"kw": kw}, tol=1e-14)
def body(chk):
    L = chk.usable(sets(chk.tier)); schemas(chk)
    chk.each(L, one)
    chk.bounds.append("grids 6 / 5x6 / 4x5x4, 2 steps, up to 3 iterations; field and G values symbolic, arithmetic over the reals")
    return "all Courant numbers are set to zero in the symbolic outputs; z3 decides that every output equals the initial value of its point"
if __name__ == "__main__": main(body)
