#!/usr/bin/env python3-vt
"""C09: the scheme has no preferred direction: mirror images and exchanged axes give mirrored / exchanged results"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
def mirror(c, kw, d):
    n = [kw["n" + x] for x in "xyz"[:c.nd]]
    cyc = c.bc[d] == "c"
    def f(name):          # -> (name, sign)
        m = IX.match(name)
        if not m: return name, 1
        b = m.group(1); ix = [int(x) for x in m.group(2).split(",")]
        face = b == "gc%d" % d
        N = n[d]
        if face: 
            ix[d] = N - 2 - ix[d]            # faces -1/2 .. N-1/2 have indices -1 .. N-1
            if cyc: ix[d] = (ix[d] + N - 1) % (N - 1)
        else:
            ix[d] = N - 1 - ix[d]
            if cyc: ix[d] %= N - 1
        return "%s[%s]" % (b, ",".join(map(str, ix))), -1 if face else 1
    return f
def permute(c, kw, a, b_):
    def f(name):
        m = IX.match(name)
        if not m: return name, 1
        b = m.group(1); ix = [int(x) for x in m.group(2).split(",")]
        ix[a], ix[b_] = ix[b_], ix[a]
        if b == "gc%d" % a: b = "gc%d" % b_
        elif b == "gc%d" % b_: b = "gc%d" % a
        return "%s[%s]" % (b, ",".join(map(str, ix))), 1
    return f
def sets(tier):
    A = cfgs.adv
    L = [A(1, "0", "o"), A(1, "abs|tot|fct"), A(1, "iga|tot|fct|nug", "o"), A(1, "khn|dfl|tot|nug"), A(1, "iga|div_2nd|div_3rd|fct"), A(1, "nug|dfl|fct", "o"),
         A(2, "0"), A(2, "abs|tot|fct", "o"), A(2, "iga|tot|fct|nug", "r"), A(2, "nug|dfl|fct"), A(2, "iga|div_2nd|div_3rd|fct"), A(2, "tot|dfl|nug", "o"), A(2, "khn", "r"), A(2, "iga|div_2nd|div_3rd_dt"), A(2,"iga|dfl|tot"),
         A(3, "0"), A(3, "iga|fct|nug", "r"), A(3, "tot|dfl", "o"), A(3, "nug|abs", "c"), A(3, "iga|tot|dfl|nug", "c"), A(3, "iga|div_2nd|div_3rd|fct")]
    return L
def one(chk, c, what):
    kw = size(c, True); kw.update(nt=1)
    if c.nd == 1: kw.update(nx=6, nt=2)
    kw["iters"] = 2
    if what[0] == "p": 
        k = 4 if c.nd == 2 else 4
        kw.update(nx=k, ny=k, nz=k) if c.nd > 2 else kw.update(nx=k, ny=k)
    f = mirror(c, kw, what[1]) if what[0] == "m" else permute(c, kw, *what[1:])
    name = "%s %s" % (c.name, {"m": "mirrored in dimension %s", "p": "dimensions %s, %s exchanged"}[what[0]] % tuple(what[1:]))
    p = Pool()
    r = chk.run(c, p, **kw)
    if r.exc: chk.undec(name, r.exc); return
    names = sorted(r.out)
    def sub(v):
        m, s = f(v)
        return (p.var(m) if s == 1 else p.neg(p.var(m))) if (m, s) != (v, 1) else None
    img = p.subst([r.out[n] for n in names], sub)
    def concrete(k):
        e1 = random_inputs(chk, r.witness, k)
        e2 = {n: e1[f(n)[0]] * f(n)[1] for n in e1}
        va, vb = chk.run_double(c, e1, **kw)[1], chk.run_double(c, e2, **kw)[1]
        return vb, {n: va[f(n)[0]] for n in vb}, e1
    enc(chk, c)
    compare_nf(chk, name, c, p, [(n, t, r.out[f(n)[0]]) for n, t in zip(names, img)], concrete, "result for transformed inputs vs transformed result", {"kw": kw}, tol=1e-8)
def body(chk):
    L = chk.usable(sets(chk.tier)); schemas(chk)
    T = []
    for c in L:
        for d in range(c.nd): T.append((c, ("m", d)))
        for a in range(c.nd):
            for b in range(a + 1, c.nd):
                if c.bc[a] == c.bc[b] and c.bc[a] != 'o': T.append((c, ("p", a, b)))
    chk.each(T, one)
    chk.bounds.append("grids 6 / 4x5, 4x4 / 4x4x4, 1-2 steps, 2 iterations; all values symbolic, arithmetic over the reals")
    return "the input variables are replaced by their mirror image and z3 decides over the reals that the outputs are the mirrored ones (normal forms; every rewriting step is a lemma discharged by z3, then one query over all outputs of the configuration)"
if __name__ == "__main__": main(body)
