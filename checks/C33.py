#!/usr/bin/env python3-vt
"""C33: the advecting velocity is predicted from the velocity fields"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from ref import reference
def tendencies(chk, c, den, nt):
    """the advecting velocity (extrapolated) and, for the third-order scheme, its first and second differences in time"""
    nd = c.nd; n = [4, 3, 3][:nd]; kw = {"iters": 2}
    for x, m in zip(("nx", "ny", "nz"), n): kw[x] = m
    name = "%s step %d: the third-order scheme is given the first and second differences in time of the advecting velocity" % (c.name, nt)
    p = Pool(); U = []; enc(chk, c)
    nm = lambda b, ix: "%s[%s]" % (b, ",".join(map(str, list(ix) + [0] * (3 - nd)))); wrap = lambda ix: tuple(i % (m - 1) for i, m in zip(ix, n))
    pts = list(itertools.product(*[range(m) for m in n])); r = chk.run(c, p, nt=nt, gcout=1, ndtout=1, **kw)
    if r.exc: chk.undec(name, r.exc); return
    cut = set()
    # velocities at the beginning of the steps
    for t in range(nt):
        s = {}
        if t == 0: f = lambda d, x: p.var(nm("psi%d" % d, wrap(x)))
        else:
            q = chk.run(c, p, nt=t, **kw); f = lambda d, x, q=q: q.out[nm("psi%d" % d, x)]; cut |= {j for v, j in q.out.items() if v.startswith("psi")}
        for d in range(nd):
            for x in pts: s[d, x] = f(d, x) if den is None else p.div(f(d, x), f(den, x))
        U.append(s)
    pairs = []
    for w, e in (("gc", {1: [(1, 0)], 2: [(1.5, 0), (-.5, 1)]}), ("gcndt", {1: [], 2: [(1, 0), (-1, 1)]}), ("gcndtt", {1: [], 2: [], 3: [(1, 0), (-2, 1), (1, 2)]})):
        co = e[min(nt, max(e))]
        for d in range(nd):
            for x in itertools.product(*[range(-1, m) if k == d else range(m) for k, m in enumerate(n)]):
                y = wrap(tuple(i + (k == d) for k, i in enumerate(x))); x0 = wrap(x); T = p.const(0)
                for a, l in co:
                    for z in (x0, y):
                        v = p.mul(p.const(a), U[nt - 1 - l][d, z]); T = p.add(T, p.mul(p.var(nm("G", z)), v) if "nug" in c.optset else v)
                pairs.append((nm("%s%d" % (w, d), x), r.out[nm("%s%d" % (w, d), x)], p.div(p.mul(p.var("dt"), T), p.mul(p.const(2), p.var("d" + "ijk"[d])))))
    def concrete(t):
        env = random_inputs(chk, r.witness, t); va = chk.run_double(c, env, nt=nt, gcout=1, ndtout=1, **kw)[1]
        vals = p.evaluate([b for _, _, b in pairs], lambda v: np.array([env.get(v, 0.)]), 1)
        return {l: va[l] for l, _, _ in pairs}, {l: float(np.asarray(vals[b]).reshape(-1)[0]) for l, _, b in pairs}, env
    compare_nf(chk, name, c, p, pairs, concrete, "tendency of the advecting velocity", {"kw": dict(kw, nt=nt)}, tol=1e-8, floor=1e-6, cut=cut)
def body(chk):
    T = []
    sets = [(1, "0", "c", {}), (1, "abs|fct", "c", {"den": True}), (1, "iga|fct", "c", {"den": True, "eps": "1."}), (2, "iga", "c", {}), (2, "abs|fct", "c", {}), (2, "nug|iga", "c", {}), (2, "abs", "c", {"den": True}),
            (2, "iga|fct", "c", {"den": True, "eps": "1."}), (3, "iga", "c", {}), (3, "abs|nug", "c", {"den": True}), (2, "nug|abs|dfl", "c", {"den": True})]
    if chk.tier != "quick": sets += [(3, "iga|fct", "c", {}), (2, "abs|tot", "c", {}), (2, "iga|tot|fot", "c", {}), (3, "iga|nug", "c", {"den": True, "eps": "1."}), (1, "iga|tot", "c", {})]
    for nd, o, b, k in sets:
        for s in ("trapez", "euler_b") if nd < 3 else ("trapez",): T.append((cfgs.vip(nd, o, s, b, **k), s, nd if k.get("den") else None, float(k["eps"]) if k.get("eps") else None))
    ok = {c.name for c in chk.usable([t[0] for t in T] + [cfgs.adv(t[0].nd, t[0].opts, ".".join(t[0].bc)) for t in T])}; schemas(chk)
    def one(chk, c, s, den, eps):
        for nt in ((1, 2, 3) if c.nd == 1 else (1, 2) if c.nd == 2 or chk.tier != "quick" else (2,)):
            kw = size(c, True); kw["iters"] = 2; kw["nt"] = nt
            reference(chk, c, kw, "all fields are advected with velocities extrapolated to the middle of the step and averaged to the faces", scheme=s, vel=True, den=den, eps=eps)
    chk.each([t for t in T if t[0].name in ok], one)
    D = []
    for nd, o, b, k in ((1, "iga|div_2nd|div_3rd", "c", {}), (2, "iga|div_2nd|div_3rd", "c", {}), (2, "iga|div_2nd|div_3rd_dt", "c", {}), (2, "nug|iga|div_2nd|div_3rd_dt", "c", {}), (3, "iga|div_2nd|div_3rd", "c", {}),
                        (1, "iga|div_2nd|div_3rd", "c", {"den": True}), (2, "iga|div_2nd|div_3rd_dt", "c", {"den": True})):
        D.append((cfgs.vip(nd, o, "trapez", b, **k), nd if k.get("den") else None))
    ok = {c.name for c in chk.usable([c for c, _ in D])}
    chk.each([(c, den, nt) for c, den in D if c.name in ok for nt in ((1, 2, 3, 4) if c.nd == 1 and den is None else (1, 2, 3))], tendencies)
    chk.bounds.append("grids 6 / 4x5 / 4x4x4, 1-3 steps with constant dt, 2 iterations; velocities or momenta with density; all values symbolic, arithmetic over the reals; cyclic boundaries (walls need wall-normal velocities that vanish there, which only the pressure solver ensures)")
    return "the solver and a reference loop (built around the symbolically executed homogeneous step) are terms over the same inputs; z3 decides that all outputs are equal"
if __name__ == "__main__": main(body)
