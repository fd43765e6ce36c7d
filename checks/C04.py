#!/usr/bin/env python3-vt
"""C04: a uniform field stays uniform in every non-divergent flow"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
def potential(c, kw):
    """input name -> list of (sign, potential) whose discrete curl it is: every cell is exactly non-divergent"""
    n = [kw["n" + x] for x in "xyz"[:c.nd]] + [1] * (3 - c.nd)
    def pot(b, ix, half):
        s = 1; ix = list(ix)
        for d in range(c.nd):
            if c.bc[d] == "c": ix[d] %= n[d] - 1
            elif c.bc[d] == "r" and half[d]:          # half levels -1 .. n-1; walls are at 0 and n-1
                if ix[d] == -1: ix[d], s = 0, -s
                if ix[d] == n[d] - 1: ix[d], s = n[d] - 2, -s
        return s, "%s[%d,%d,%d]" % (b, *ix)
    def f(name):
        m = IX.match(name)
        if not m or not m.group(1).startswith("gc"): return None
        d = int(m.group(1)[2:]); ix = [int(x) for x in m.group(2).split(",")]
        t = []
        if c.nd == 1: return [(1, "mean0")]
        if c.bc[d] != "r": t.append((1, "mean%d" % d))
        def add(sg, a, d1):          # potential component along the axis a, difference in the direction d1
            half = [x != a for x in range(3)]
            for k, s in ((0, 1), (-1, -1)):
                j = list(ix); j[d1] += k
                q, nm = pot("pot%d" % a, j, half); t.append((sg * s * q, nm))
        if c.nd == 2:
            add(1 if d == 0 else -1, 2, 1 - d)
        else:
            add(1, (d + 2) % 3, (d + 1) % 3); add(-1, (d + 1) % 3, (d + 2) % 3)
        return t
    return f
KNOWN = ((2, "0", "o.c"), (3, "0", "c.o.r"))
def sets(tier):
    A = cfgs.adv
    L = []
    for o in ("0", "abs|tot|fct", "iga|tot|fct|nug", "nug|dfl|fct", "iga|div_2nd|div_3rd|fct", "khn|dfl|tot|nug", "iga|div_2nd|div_3rd_dt", "npa|nug", "nug|div_2nd", "iga|dfl|nug", "pfc|tot|fct", "abs|dfl|nug", "nug|div_2nd|div_3rd", "abs|div_2nd|div_3rd|fct"):
        for nd, bcs in ((1, ("c", "o")), (2, ("c", "r", "o", "c.r", "r.o", "o.c")), (3, ("c", "c.o.r", "r.c.o", "r", "o"))):
            for bc in bcs:
                ctx = "enum { sptl_intrp = solvers::aver4 };" if "div_3rd" in o else ""
                o1 = bc.split(".") + [bc[-1]] * nd
                if any(o1[d] == "o" and o1[e] != "o" for d in range(nd) for e in range(d, nd)) and (nd, o, bc) not in (KNOWN): continue
                if tier == "quick" and (nd, o, bc) not in KNOWN and nd > 1 and hash_(o, nd, bc) % (3 if nd == 2 else 9): continue
                L.append(A(nd, o, bc, ctx=ctx))
    return L
def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())
def one(chk, c):
    kw = size(c, True); kw["nt"] = 1; kw["iters"] = 2 if c.nd == 3 or "iga" in c.optset else 3
    if c.nd == 1: kw["nt"] = 2
    if (c.nd, c.opts, ".".join(c.bc)) in KNOWN: kw["iters"] = 1
    p = Pool(); r = chk.run(c, p, **kw)
    if r.exc: chk.undec(c.name, r.exc); return
    f = potential(c, kw)
    def sub(v):
        if v.startswith("psi"): return p.var("uniform")
        t = f(v)
        if t is None: return None
        s = p.const(0)
        for sg, nm in t: s = (p.add if sg > 0 else p.sub)(s, p.var(nm))
        return s
    names = sorted(r.out)
    out = p.subst([r.out[n] for n in names], sub, simp=True)
    def concrete(k):
        rng = np.random.default_rng(chk.seed * 77 + k); pv = {}
        u = float(rng.uniform(.5, 2)); env = {}
        for v, w in inputs_of(r.witness).items():
            t = f(v)
            env[v] = u if v.startswith("psi") else w if t is None else sum(sg * pv.setdefault(nm, float(rng.uniform(-.06, .06))) for sg, nm in t)
        return chk.run_double(c, env, **kw)[1], {n: u for n in names}, env
    enc(chk, c)
    corner = lambda n: False
    if (c.nd, c.opts, ".".join(c.bc)) in KNOWN:
        N = [kw["n" + x] for x in "xyz"[:c.nd]]
        oc = [(a, b) for a in range(c.nd) for b in range(a + 1, c.nd) if c.bc[a] == "o" and c.bc[b] != "o"]
        def corner(n):
            x = [int(i) for i in IX.match(n).group(2).split(",")]
            return any(x[a] in (0, N[a] - 1) and x[b] in (0, N[b] - 1, N[b] - 2) for a, b in oc)
    for sel, nm, key in ((False, c.name, c.name), (True, c.name + " corner cells", "open boundary followed by a non-open dimension: corner cells of " + c.name)):
        pairs = [(n, x, p.var("uniform")) for n, x in zip(names, out) if bool(corner(n)) == sel]
        def conc(k):
            va, vb, env = concrete(k)
            return {n: v for n, v in va.items() if bool(corner(n)) == sel}, vb, env
        if pairs: compare_nf(chk, nm, c, p, pairs, conc, "uniform field after the step vs before", {"kw": kw, "key": key}, tol=1e-10, positive=lambda n: n.startswith(("G[", "fp!", "uniform")))
def body(chk):
    L = chk.usable(sets(chk.tier)); schemas(chk)
    chk.each(L, one)
    chk.bounds.append("grids 6 / 4x5 / 4x4x4 (polar boundaries excluded), 1 step (1D: 2), 2-3 iterations; the flow is the discrete curl of an arbitrary potential plus an arbitrary mean flow, G arbitrary positive, the field any positive number; arithmetic over the reals")
    return "Courant numbers are replaced by the discrete curl of a symbolic potential (exactly non-divergent), the field by one symbol; z3 decides that every output value is that symbol (normal forms, every step a lemma discharged by z3)"
if __name__ == "__main__": main(body)
