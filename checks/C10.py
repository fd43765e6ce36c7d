#!/usr/bin/env python3-vt
"""C10: a problem that does not vary in one dimension is solved as the problem with one dimension less"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())
OPTS = ("0", "abs|tot|fct", "iga|tot|fct|nug", "nug|dfl|fct", "iga|div_2nd|div_3rd|fct", "khn|dfl|tot|nug", "iga|div_2nd|div_3rd_dt", "nug|div_2nd", "abs|div_2nd", "npa|nug", "iga|dfl|tot", "pfc|tot", "abs|dfl|nug")
def pairs(tier):
    A = cfgs.adv; L = []
    for o in OPTS:
        for nd in (2, 3):
            if nd == 2 and "div_3rd_dt" in o: continue # not offered in 1D
            if nd == 3 and "div_2nd" in o and "iga" not in o: continue
            for d in range(nd):
                for rest in (("c",), ("o",)) if nd == 2 else (("c", "c"), ("r", "c"), ("o", "r")):
                    for u in "cr" if "div_3rd_dt" not in o else "c":
                        if tier == "quick" and hash_(o, nd, d, rest, u) % (3 if nd == 2 else 16): continue
                        bc = list(rest); bc.insert(d, u)
                        L.append((A(nd, o, ".".join(bc)), A(nd - 1, o, ".".join(rest)), d))
    return L
def one(chk, c, c1, d):
    name = "%s uniform in dimension %d vs %s" % (c.name, d, c1.name)
    n = ([5] if c.nd == 2 else [4, 5] if hash_(c.name) % 2 else [5, 4])
    it = 2 if c.nd == 3 or "iga" in c.optset or "div_3rd" in c.optset else 3
    full = list(n); full.insert(d, 4)
    kw = {"n" + x: k for x, k in zip("xyz", full)}; kw1 = {"n" + x: k for x, k in zip("xyz", n)}
    for k in (kw, kw1): k.update(iters=it, nt=1)
    p = Pool()
    r = chk.run(c, p, **kw); r1 = chk.run(c1, p, **kw1)
    if r.exc or r1.exc: chk.undec(name, r.exc or r1.exc); return
    keep = [x for x in range(c.nd) if x != d]
    def down(v):
        """name in the smaller problem, or 0 for the velocity along the uniform dimension"""
        m = IX.match(v)
        if not m: return v
        b = m.group(1); ix = [int(x) for x in m.group(2).split(",")]
        if b == "gc%d" % d: return 0
        if b.startswith("gc"): b = "gc%d" % keep.index(int(b[2:]))
        j = [ix[x] for x in keep] + [0] * (3 - len(keep))
        return "%s[%s]" % (b, ",".join(map(str, j)))
    def sub(v):
        if v.startswith(("fp!eps", "fp!tiny")): return p.const(0)
        w = down(v)
        return p.const(0) if w == 0 else p.var(w)
    names = sorted(r.out); names1 = sorted(r1.out)
    out = p.subst([r.out[x] for x in names], sub)
    out1 = dict(zip(names1, p.subst([r1.out[x] for x in names1], lambda v: p.const(0) if v.startswith(("fp!eps", "fp!tiny")) else None)))
    def concrete(k):
        e1 = random_inputs(chk, r1.witness, k)
        e = {v: 0. if down(v) == 0 else e1[down(v)] for v in inputs_of(r.witness)}
        va, vb = chk.run_double(c, e, **kw)[1], chk.run_double(c1, e1, **kw1)[1]
        return va, {x: vb[down(x)] for x in va}, e
    enc(chk, c); enc(chk, c1)
    compare_nf(chk, name, c, p, [(x, t, out1[down(x)]) for x, t in zip(names, out)], concrete, "result with the uniform dimension vs without it", {"kw": kw, "kw of the smaller problem": kw1, "smaller": c1.code()}, tol=1e-9)
def body(chk):
    P = pairs(chk.tier)
    ok = {c.name for c in chk.usable(list({c.name: c for x in P for c in x[:2]}.values()))}; schemas(chk)
    chk.each([x for x in P if x[0].name in ok and x[1].name in ok], one)
    chk.bounds.append("2D vs 1D and 3D vs 2D (div_3rd only with iga and div_2nd in 3D likewise: otherwise their normalising denominators average over cross-flow neighbours too and differ between dimensionalities by design; div_3rd_dt has no 1D version; the uniform dimension is cyclic or rigid: open boundaries redefine the velocity across them), each dimension uniform in turn; 4-5 points per dimension, 1 step, 2-3 iterations; all values symbolic, arithmetic over the reals, regularising epsilon in denominators taken as 0")
    return "both problems are executed symbolically; the inputs of the larger one are replaced by copies of the inputs of the smaller one (velocity along the uniform dimension 0) and z3 decides that all outputs are equal (normal forms, every step a lemma discharged by z3)"
if __name__ == "__main__": main(body)
