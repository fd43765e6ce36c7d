#!/usr/bin/env python3-vt
"""C08: with cyclic boundaries advection commutes with any grid shift"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from vlib import *
import cfgs, re
IX = re.compile(r"^(.*)\[([-\d,]+)\]$")
def shifter(n, s, nd):
    def f(name):
        m = IX.match(name)
        if not m: return None
        ix = [int(x) for x in m.group(2).split(",")]
        for d in range(nd):
            if s[d]: ix[d] = (ix[d] + s[d]) % (n[d] - 1)   # period n-1
        return "%s[%s]" % (m.group(1), ",".join(map(str, ix)))
    return f
def sets(tier):
    A = cfgs.adv
    L = []
    for nd in (1, 2, 3):
        L += [A(nd, "0"), A(nd, "abs|tot|fct"), A(nd, "nug|dfl|fct"), A(nd, "iga|tot|fct|nug"), A(nd, "iga|div_2nd|div_3rd|fct"), A(nd, "khn|dfl|tot|nug")]
    L += [A(2, "iga|tot|fot"), A(1, "iga|div_2nd|div_3rd_dt"), A(2, "iga|div_2nd|div_3rd_dt"), A(3, "iga|div_2nd|div_3rd_dt"),A(2,"pfc|tot|npa"),A(3,"pfc|fct|npa")]
    # cyclic in some directions only
    L += [A(2, "tot|fct|dfl|nug", "c.o"), A(2, "iga|fct|div_2nd", "c.or"), A(2, "iga|tot|fct", "r.c"), A(2, "dfl", "c.o"), A(2, "dfl|nug", "r.c"),
          A(3, "tot|dfl|fct|nug", "c.c.o"), A(3, "iga|fct", "c.r.c"), A(3, "iga|tot|fct", "r.r.c"), A(3, "dfl", "c.o.r")]
    # open before cyclic: known finding
    L += [A(2, "0", "o.c"), A(3, "0", "c.o.c")]
    return L
def one(chk, c):
    nd = c.nd
    if nd == 1: n = [6]; kw = dict(nx=6)
    elif nd == 2: n = [5, 6]; kw = dict(nx=5, ny=6)
    else: n = [4, 5, 4]; kw = dict(nx=4, ny=5, nz=4)
    kw.update(iters=2 if "iga" in c.opts else 3, nt=2 if nd < 3 else 1)
    if nd == 3 and c.opts != "dfl": kw["iters"] = 2
    if any(c.bc[d][0] == "o" and "c" in [b[0] for b in c.bc[d+1:]] for d in range(nd)): kw.update(iters=1, nt=1)
    for w in ((1, 2) if nd == 2 or chk.tier != "quick" else (1 + len(c.opts) % 2,)):
        p = Pool()
        ref = chk.run(c, p, workers=w, **kw)
        if ref.exc: raise RuntimeError("%s: %s" % (c, ref.exc))
        cyc = [d for d in range(nd) if c.bc[d] == "c"]
        for s in [[int(d == dd) for dd in range(nd)] for d in cyc]:
            name = "%s workers=%d shift=%s" % (c.name, w, s)
            sh = shifter(n, s, nd)
            names = sorted(ref.out)
            new = p.subst([ref.out[m] for m in names], lambda v: (lambda q: None if q is None else p.var(q))(sh(v)))
            # value computed from shifted input at cell i  ==  value computed from the input at cell i+s
            pairs = [(m, new[k], ref.out[sh(m)]) for k, m in enumerate(names)]
            # ... and the two copies of the seam point agree
            pairs += [(m, ref.out[m], ref.out[shifter(n, [n[d] - 1 if s[d] else 0 for d in range(nd)], nd)(m)]) for m in names]
            bad = euf_differing(chk, p, pairs)
            if not bad: chk.ok(name, "%d cells" % len(pairs)); continue
            replay(chk, c, kw, w, sh, name, ref, bad, p)
    chk.encoded |= encoded_for(c.opts, nd, ["bcond::cyclic_%dd (+ %s)" % (nd, "/".join(c.bc))])
def body(chk):
    L = chk.usable(sets(chk.tier))
    chk.each(L, one)
    chk.bounds.append("grids 6 / 5x6 / 4x5x4 (first and last point of a cyclic direction are the same point), shift by one cell in each cyclic direction (generates all shifts), 1-2 steps, up to 3 iterations, 1-2 workers; all values symbolic, IEEE operations uninterpreted")
    chk.assumptions += ["initial divergence check passes (max_abs_div_eps large)"]
    return ("one symbolic execution per configuration; the input variables are renamed by the shift and z3 decides (equality with uninterpreted functions) that the shifted run computes the same terms at shifted cells")
def replay(chk, c, kw, w, sh, name, ref, bad, p):
    for t in range(6):
        env = {k: (v if t == 0 else float(rand_env(100 * chk.seed + t, 1)(k)[0])) for k, v in ref.witness.items() if not k.startswith(("junk", "fp!"))}
        env2 = {k: env[sh(k)] for k in env}
        _, va, _ = chk.run_double(c, env, workers=w, **kw)
        _, vb, _ = chk.run_double(c, env2, workers=w, **kw)
        d = [(n, vb[n], va[sh(n)]) for n in va if not (abs(vb[n] - va[sh(n)]) <= 1e-11 * max(1e-3, abs(vb[n]), abs(va[sh(n)])))]
        if d:
            key = None
            oc = [(a, b) for a in range(c.nd) for b in range(a + 1, c.nd) if c.bc[a] == "o" and c.bc[b] == "c"]
            if oc:
                a, b = oc[0]; N = [kw["n" + x] for x in "xyz"[:c.nd]]
                cells = [[int(x) for x in IX.match(q[0]).group(2).split(",")] for q in d]
                if all(x[a] in (0, N[a] - 1) and x[b] in (0, N[b] - 1, N[b] - 2) for x in cells): key = "open-before-cyclic corner cells " + c.name
            chk.violation(name, "%s = %.17g, expected the shifted value %.17g" % d[0], {"cfg": c.code(), "harness": c.harness, "kw": kw, "workers": w, "inputs": env, "differences": d[:10]}, key); return
    chk.undec(name, "terms differ structurally but no numerical difference found: %s" % [b[0] for b in bad])
if __name__ == "__main__": main(body)
