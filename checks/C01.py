#!/usr/bin/env python3-vt
"""C01: advection conserves the G-weighted sum of every field in a closed domain"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
class Lin(NF):
    """sums stay open, products of sums are kept as one atom (fluxes are not expanded); factors G and 1/G are multiplied out"""
    def simple(self, P):
        return len(P) == 1 and all(self.info[a][0] == "var" and self.info[a][1].startswith("G[") for a, _ in next(iter(P)))
    def mul(self, P, Q):
        if not P or not Q: return {}
        if self.simple(P) or self.simple(Q):
            l, self.limit = self.limit, 10**9
            try: return super().mul(P, Q)
            finally: self.limit = l
        return super().mul(P if len(P) == 1 else self.opaque(P), Q if len(Q) == 1 else self.opaque(Q))
def sets(tier):
    A = cfgs.adv
    L = []
    for o in ("0", "abs|tot|fct", "iga|tot|fct|nug", "nug|dfl|fct", "iga|div_2nd|div_3rd|fct", "khn|dfl|tot|nug", "iga|div_2nd|div_3rd_dt", "npa|nug", "iga|dfl|tot|khn", "pfc|tot|fct", "abs|dfl|nug", "nug|div_2nd|div_3rd"):
        for nd, bcs in ((1, ("c",)), (2, ("c", "r", "c.r", "r.c")), (3, ("c", "c.c.r", "r.c.c", "r"))):
            for bc in bcs:
                if tier == "quick" and nd > 1 and hash_(o, nd, bc) % (3 if nd == 2 else 7): continue
                L.append(A(nd, o, bc))
    L += [A(2, "fct", "c", neq=2, ctx="enum { delayed_step = opts::bit(0) };"), A(1, "0", neq=3, ctx="static constexpr int hint_scale(const int &e) { return e - 1; }")]
    return L
def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())
def one(chk, c):
    kw = size(c); kw["nt"] = 2 if c.nd == 1 else 1
    p = Pool(); r = chk.run(c, p, **kw)
    if r.exc: chk.undec(c.name, r.exc); return
    n = [kw["n" + x] for x in "xyz"[:c.nd]]
    def cells():
        """grid points and their weight: the repeated point of a cyclic direction is left out, wall points count half"""
        for ix in itertools.product(*[range(k) for k in n]):
            w = 1.0
            for d in range(c.nd):
                if c.bc[d] == "c" and ix[d] == n[d] - 1: w = 0
                if c.bc[d] == "r" and ix[d] in (0, n[d] - 1): w /= 2
            if w: yield ix + (0,) * (3 - c.nd), w
    def wall(v):
        """velocities through walls are set by the boundary condition"""
        return None
    pairs = []; p0 = p.const(0)
    for e in range(c.neq):
        tot = []
        for b in (0, 1):
            s = p0
            for ix, w in cells():
                nm = "[%s]" % ",".join(map(str, ix))
                x = p.var("psi%d%s" % (e, nm)) if b == 0 else r.out["psi%d%s" % (e, nm)]
                if "nug" in c.optset: x = p.mul(p.var("G" + nm), x)
                s = p.add(s, x if w == 1 else p.mul(p.const(w), x))
            tot.append(s)
        pairs.append(("sum of psi%d" % e, tot[1], tot[0]))
    def concrete(k):
        env = random_inputs(chk, r.witness, k)
        out = chk.run_double(c, env, **kw)[1]
        va, vb = {}, {}
        for e in range(c.neq):
            for dst, src in ((va, out), (vb, env)):
                dst["sum of psi%d" % e] = sum(w * src["psi%d[%s]" % (e, ",".join(map(str, ix)))] * (env.get("G[%s]" % ",".join(map(str, ix)), 1.) if "nug" in c.optset else 1.) for ix, w in cells())
        return va, vb, env
    enc(chk, c)
    compare_nf(chk, c.name, c, p, pairs, concrete, "sum over the domain after the step vs before", {"kw": kw}, cls=Lin, tol=1e-10)
def body(chk):
    L = chk.usable(sets(chk.tier)); schemas(chk)
    chk.each(L, one)
    chk.bounds.append("grids 6 / 5x6 / 4x5x4, 1-2 steps, up to 3 iterations; cyclic directions (the repeated point counted once) and rigid walls (wall points counted half); all values symbolic, arithmetic over the reals")
    return "the G-weighted sum of the outputs is expanded (fluxes stay opaque) and z3 decides that it equals the sum of the inputs, for all real field, Courant-number and G values; every rewriting step is a lemma discharged by z3"
if __name__ == "__main__": main(body)
