#!/usr/bin/env python3-vt
"""C02: a non-negative field stays non-negative"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from fractions import Fraction
import z3
import bnd
from bnd import Bnd, NN, POS, ANY
from C03 import Geo, cells
def replay(chk, c, name, kw, gcmax, r, why):
    for k in range(60):
        rng = np.random.default_rng(chk.seed * 1000 + k)
        env = {v: float(rng.uniform(1, 1.2)) if v.startswith("G[") else float(rng.uniform(-gcmax, gcmax)) * (1 if k % 3 else float(rng.choice([0, 1]))) if v.startswith("gc") else float(rng.choice([0., 0., .01, 1., 2.])) for v in inputs_of(r.witness)}
        o = chk.run_double(c, env, **kw)[1]
        for q, x in o.items():
            if q.startswith("psi") and not x >= -1e-12:
                chk.violation(name, "%s becomes %.17g from non-negative values" % (q, x), {"cfg": c.code(), "harness": c.harness, "kw": kw, "inputs": env}); return
    chk.undec(name, why)
def size_(nd, it): 
    kw = {1: dict(nx=6), 2: dict(nx=4, ny=5), 3: dict(nx=4, ny=4, nz=4)}[nd]; kw.update(iters=it, nt=1); return kw
def positive(chk, c, name, kw, p, r, opq, hyp, base, b):
    """all cells of the result are non-negative, given hyp(Bnd, cell)"""
    g = Geo(c, kw); ncase = 0
    for ix in cells(g, chk.tier):
        out = r.out["psi0[%d,%d,%d]" % ix]
        def make(cs):
            B = Bnd(chk, p, base, cs, None); B.opaque = opq; return B
        def work(B):
            T = B.ev(out); return B.prove(T, hyp(B, g, ix))
        why = None
        try: ok, n, case = bnd.cases(make, work, 3000)
        except RuntimeError as e: ok, n, case, why = False, 0, None, repr(e)
        ncase += n
        if not ok: return replay(chk, c, name, kw, b, r, "cell %s not proven (%s)" % (ix, why or case))
    chk.ok(name, "%d sign cases" % ncase)
def first(chk, c):
    kw = size_(c.nd, 1); name = c.name + ": the first pass keeps values non-negative"
    p = Pool(); r = chk.run(c, p, **kw)
    if r.exc: chk.undec(name, r.exc); return
    enc(chk, c)
    # a cell loses no more than it holds
    hyp = lambda B, g, ix: [B.padd(B.ev(p.var(g.cell("G", ix)) if "nug" in c.optset else p.const(1)), B.ev(outflow(p, g, c, ix)), -1)]
    positive(chk, c, name, kw, p, r, {}, hyp, lambda v: ANY if v.startswith("gc") else POS if v.startswith(("fp!", "G[")) else NN, .5 / c.nd)
def corrective(chk, c):
    """arbitrary non-negative values before the pass; Courant numbers of at most b; then the antidiffusive velocities are at most 1/(2 nd)"""
    nd = c.nd; kw = size_(nd, 2); name = c.name + ": a corrective pass keeps values non-negative"
    b, beta = Fraction(1, (2, 4, 8)[nd - 1]), Fraction(1, 2 * nd)
    p = Pool(); r = chk.run(c, p, **kw)
    if r.exc: chk.undec(name, r.exc); return
    enc(chk, c); nug = "nug" in c.optset; g = Geo(c, kw)
    mid = sorted({j for o, j in r.out.items() if o.startswith("mid1")}); cor = sorted({j for o, j in r.out.items() if o.startswith("cor1") and p.op[j] != "const"})
    M = {j: z3.Real("mid%d" % j) for j in mid}; nn = [v >= 0 for v in M.values()]; lem = {}; G = p.var("G")
    def z(j, cut):
        return p.z3term(j, "real", cache=dict(cut))
    # velocities of the faces
    for o in sorted(r.out):
        if not o.startswith("cor1"): continue
        t = r.out[o]
        if ("f", t) in lem or p.op[t] == "const": continue
        d = int(o[4]); f = tuple(int(x) for x in o[o.index("[") + 1:-1].split(","))
        cone = p.cone([t]); mcone = set()
        inner = {}; st = [t]; seen = set()
        has = {}
        for j in sorted(cone):
            has[j] = False if j in M else p.op[j] == "var" and p.k[j].startswith(("gc", "G[")) or any(has[q] for q in p.kids(j))
        while st:
            j = st.pop()
            if j in seen or j in M: continue
            seen.add(j)
            if p.op[j] == "/" and not has[j] and p.op[p.kids(j)[1]] != "const": inner[j] = z3.Real("q%d" % j)
            else: st += p.kids(j)
        for j in inner:
            if j not in lem:
                x = z(j, M); e = [z3.Real(v) > 0 for v in p.vars_of([j]) if v.startswith("fp!")]
                n_, d_ = p.kids(j); N, D = z(n_, M), z(d_, M)
                lem[j] = chk.solve(nn + e + [z3.Or(D <= 0, N > D, -N > D)], 20.) == "unsat"
            if not lem[j]: replay(chk, c, name, kw, float(b), r, "ratio in %s not within [-1, 1]" % o); return
        one = z3.RealVal(1); gv = {}
        cutd = dict(M); cutd.update(inner); T = z(t, cutd)
        V = p.vars_of([t]); cons = [z3.And(q >= -1, q <= 1) for q in inner.values()]
        Gs = sorted(v for v in V if v.startswith("G["))
        j = list(f); j[d] += 1
        ends = [z3.Real(g.cell("G", f)), z3.Real(g.cell("G", tuple(j)))] if nug else [one]
        if nug and any(not (0 <= q[d] < g.n[d] or c.bc[d] == "c") for q in (f, tuple(j))):
            lem["f", t] = True; continue
        cons += [z3.Real(v) > 0 for v in Gs]
        # used[..]: Courant numbers within the bound relative to G at all faces that matter
        for v in sorted(v for v in V if v.startswith("gc")):
            for e in ends if not nug else [z3.Real(w) for w in Gs]: cons.append(z3.And(z3.Real(v) <= z3.Q(b.numerator, b.denominator) * e, z3.Real(v) >= -z3.Q(b.numerator, b.denominator) * e))
        B = z3.Q(beta.numerator, beta.denominator)
        lem["f", t] = chk.solve(cons + [z3.Or([z3.Or(T > B * e, T < -B * e) for e in ends])], 60.) == "unsat"
        if not lem["f", t]: replay(chk, c, name, kw, float(b), r, "antidiffusive velocity %s not bounded" % o); return
    opq = {j: NN for j in mid}; opq.update({j: ANY for j in cor})
    def hyp(B, g, ix):
        H = []
        for nm, d, s in g.faces("cor1", ix):
            j = r.out[nm] if nm in r.out else r.out["cor1%d[%s" % (d, nm[nm.index("[") + 1:])]
            x = B.ev(j); q = B.ev(p.var(g.cell("G", ix))) if nug else B.const(1)
            H += [B.padd(B.pmul(B.const(beta), q), x, -k) for k in (1, -1)]
        return H
    positive(chk, c, name, kw, p, r, opq, hyp, lambda v: ANY if v.startswith("gc") else POS if v.startswith(("fp!", "G[")) else NN, float(b))
def outflow(p, g, c, ix):
    zero = p.const(0); outf = None
    for nm, d, s in g.faces("gc", ix):
        if c.bc[d] == "r" and (s < 0 and ix[d] == 0 or s > 0 and ix[d] == g.n[d] - 1):
            j = list(ix); j[d] += -1 if s > 0 else 0
            v = p.neg(p.var(g.cell("gc%d" % d, j)))
        else: v = p.var(nm)
        o = p.mk("max", zero, v if s > 0 else p.neg(v)); outf = o if outf is None else p.add(outf, o)
    return outf
def sets(tier):
    L = []
    for nd, bcs in ((1, ("c",)), (2, ("c", "r", "c.r")), (3, ("c", "c.r.c"))):
        for b in bcs:
            for o in ("", "nug"): L += [(first, cfgs.adv(nd, o, b)), (corrective, cfgs.adv(nd, o, b, harness="posp"))]
    return L
def run(chk, f, c): f(chk, c)
def body(chk):
    T = sets(chk.tier); ok = {c.name for c in chk.usable([c for f, c in T])}
    chk.each([t for t in T if t[1].name in ok], run)
    chk.bounds.append("first pass: any velocities with outflow of at most the content of the cell; corrective pass: |Courant number| of at most 1/2 (1D), 1/4 (2D), 1/8 (3D) of G; arithmetic over the reals; small grids")
    return "output cells are terms over the inputs (values before a corrective pass: any non-negative numbers). z3 decides that ratios in the antidiffusive velocities are within [-1, 1], that the velocities then are bounded by 1/(2 n_dims) of G, and, sign case by sign case (linear real arithmetic over monomials, products of facts added), that the result is not negative"
if __name__ == "__main__": main(body)
