#!/usr/bin/env python3-vt
"""C29: the pressure projection leaves velocities whose divergence is within the tolerance"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from ref import Ref
import z3
from nf import NF
class Geo(Ref):
    def __init__(self, p, c, kw):
        self.p, self.c, self.kw, self.nd = p, c, kw, c.nd
        self.n = [kw.get("n" + x, 1) if d < c.nd else 1 for d, x in enumerate("xyz")]
        self.cyc = [d < c.nd and c.bc[d] == "c" for d in range(3)]; self.nug = "nug" in c.optset
        self.pts = list(itertools.product(*[range(m) for m in self.n]))
    def div(self, u):
        """divergence of G u over G, centred differences, linear extrapolation beyond walls and open edges"""
        p = self.p; G = self.inputs("G") if self.nug else None; r = None
        for d in range(self.nd):
            f = self.ew("mul", G, u[d]) if G else u[d]; g = self.ddx(f, d, self.ghost)
            r = g if r is None else self.ew("add", r, g)
        return self.ew("div", r, G) if G else r
def names(r, b): return {tuple(int(x) for x in o[len(b) + 1:-1].split(",")): j for o, j in r.items() if o.startswith(b + "[")}
def one(chk, c, tol, nt=1):
    kw = {2: dict(nx=5, ny=4), 3: dict(nx=4, ny=4, nz=4)}[c.nd]; kw.update(nt=nt, iters=1, tol=tol)
    p = Pool(); r = chk.run(c, p, **kw); its = [n for n in r.notes if n.startswith("iterations")]
    tag = "%s, %s iterations" % (c.name, "/".join(n.split()[-1] for n in its))
    if r.exc: chk.undec(c.name, r.exc); return
    enc(chk, c, ("libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp",))
    g = Geo(p, c, kw)
    for call in ("0", "1"):
        err = names(r.out, "err" + call); u = [names(r.out, "vel%s_%d" % (call, d)) for d in range(c.nd)]
        if not err or not all(u): raise RuntimeError("no outputs")
        D = g.div(u); what = "divergence left by the %s projection is the residual" % ("initial" if call == "0" else "step's")
        # the step lengths found by the solver are arbitrary numbers
        cone = p.cone(list(err.values()) + list(D.values())); cut = set()
        dep = {}
        for j in sorted(cone):
            dep[j] = p.op[j] == "var" and p.k[j].startswith(("psi", "ust", "phist")) or any(dep[q] for q in p.kids(j) if q in dep)
            if p.op[j] == "/" and dep.get(p.kids(j)[1]): cut.add(j)
        nf = NF(chk, p, limit=10**6)
        for j in cut: nf.of[j] = nf.intern({((nf.atom(("var", "step%d" % j)), 1),): 1})
        bad = [ix for ix in g.pts if not nf.equal(err[ix], D[ix], -1)]
        name = tag + ": " + what
        if not bad:
            nf.certify(); chk.ok(name, "%d cells, %d step lengths arbitrary" % (len(g.pts), len(cut)))
        def replay():
            for k in range(6):
                env = random_inputs(chk, r.witness, k); o = chk.run_double(c, env, **kw)[1]
                e = names(o, "err" + call); U = [names(o, "vel%s_%d" % (call, d)) for d in range(c.nd)]
                q = Pool(); h = Geo(q, c, kw); DD = h.div([{ix: q.const(x) for ix, x in f.items()} for f in U])
                v = q.evaluate(list(DD.values()), lambda n: np.float64(env[n]), 1); t = o["tol" + call]
                m = max(abs(float(v[j])) for j in DD.values()); sc = max(max(abs(x) for f in U for x in f.values()), 1e-3)
                i = {"cfg": c.code(), "harness": c.harness, "kw": kw, "inputs": env}
                for ix in g.pts:
                    if abs(float(v[DD[ix]]) + e[ix]) > 1e-9 * sc: chk.violation(name, "cell %s: divergence %.17g, residual %.17g" % (ix, float(v[DD[ix]]), e[ix]), i); return True
                if m > t * (1 + 1e-9) + 1e-12: chk.violation(name, "divergence of up to %.17g left, tolerance %.17g" % (m, t), i); return True
        if bad:
            if replay(): return
            chk.undec(name, "cell %s" % (bad[0],)); continue
        # the loop ended only when the residual was within the tolerance: the last values tested are the final ones
        name = tag + ": the %s projection ends within the tolerance" % ("initial" if call == "0" else "step's")
        E = {j: z3.Real("e%d" % n) for n, j in enumerate(sorted(set(err.values())))}; t = r.out["tol" + call]; cache = dict(E); cache[t] = z3.Real("tol")
        pc = []; rel = set(E)
        for j, k in r.path:
            K = p.cone([j])
            if t in K and K & rel:
                # only decisions about the final residual
                z = p.z3term(j, "real", cache=dict(cache)); pc.append(z if k else z3.Not(z))
        V = [v for v in E.values()]
        if chk.solve(pc + [z3.Or([z3.Or(v > cache[t], v < -cache[t]) for v in V])], 60.) == "unsat": chk.ok(name, "%d decisions" % len(pc))
        elif not replay(): chk.undec(name, "not implied by the decisions taken")
def sets(tier):
    L = []
    for sch in ("mr", "cr", "gcrk", "pc"):
        for nd, bcs in ((2, ("c", "r.c", "c.r", "o.r", "o")), (3, ("c.c.r", "o.c.r", "r"))):
            for b in bcs:
                for o in ("iga", "nug|iga"):
                    if tier == "quick" and (nd == 3 or o != "iga") and (len(sch + o) + 3 * nd + len(b)) % 3: continue
                    L.append(cfgs.prs(nd, o, sch, b))
        L.append(cfgs.prs(2, "iga", sch, "c.r", vab="impl"))
    L.append(cfgs.prs(2, "iga", "cr", "o", vab="impl")); L.append(cfgs.prs(2, "iga", "gcrk", "c.r", k=3, tag="k3"))
    L.append(cfgs.bous(2, "iga", "c.r", impl=True)); L.append(cfgs.bous(2, "nug|iga", "c.r", impl=True, vab="impl"))
    return [cfgs.res(c) for c in L]
TOL = {"quick": (".02", ".006"), "thorough": (".05", ".02", ".01", ".006", ".003")}
def body(chk):
    T = sets(chk.tier); ok = {c.name for c in chk.usable(T)}; schemas(chk)
    chk.each([(c, t) for c in T if c.name in ok for t in TOL[chk.tier]], one)
    chk.bounds.append("2D and 3D grids 5x4 / 4x4x4; numbers of iterations as they result from the tolerances on the witness path; step lengths of the iterations, state before the projection, pressure, G, dt, grid lengths symbolic; arithmetic over the reals")
    return "residual and divergence of the velocities left by the real solver are terms over the same inputs; z3-certified normal forms show that they are equal for all inputs and all step lengths; z3 decides that the decisions taken bound the residual by the tolerance"
if __name__ == "__main__": main(body)
