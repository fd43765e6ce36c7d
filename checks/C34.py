#!/usr/bin/env python3-vt
"""C34: results do not depend on the units the problem is posed in"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
# dimensions: L length, T time, F unit of the transported scalar (temperature, depth), R unit of the density-like factor G
def dims(c, b):
    """dimension of an input or output with base name b: {unit: power}"""
    f = c.family; nd = c.nd; V = {"L": 1, "T": -1}
    m = re.match(r"([a-z_A-Z]+?)(\d*)$", b); s, e = m.group(1), int(m.group(2) or 0)
    if b.startswith("fp!"): return {}
    if s == "psi":
        if f == "rhs": return {"F": 1}
        if e >= nd: return {"F": 1}
        return dict(V, F=1) if f == "swe" or f == "vipden" else V
    if s == "dt": return {"T": 1}
    if s in ("di", "dj", "dk"): return {"L": 1}
    if s == "gc": return {"R": 1}
    if s == "G": return {"R": 1}
    if s == "rb": return {"T": -1}
    if s == "ra":   # R_e = ra_e psi_{e+1}
        ne = nd + 1 if f != "rhs" else 2
        x, y = dims(c, "psi%d" % e), dims(c, "psi%d" % ((e + 1) % ne))
        r = {k: x.get(k, 0) - y.get(k, 0) for k in set(x) | set(y)}; r["T"] = r.get("T", 0) - 1; return r
    if s in ("vab", "tht_abs"): return {"T": -1}
    if s == "rel": return V
    if s == "phi": return {"L": 2, "T": -1}
    if s == "eta": return {"L": 2, "T": -1, "R": 1}   # dynamic viscosity
    if s == "g": return {"L": 2, "T": -2, "F": -1} if f == "swe" else {"L": 1, "T": -2}
    if s in ("Tht_ref", "tht_e"): return {"F": 1}
    if s == "hflux": return {"F": 1, "L": 1, "T": -1}
    if s in ("mix", "mixh", "mixv"): return {"L": 1}
    if s in ("tol", "smg_c", "cdrag", "prandtl"): return {}
    raise RuntimeError("dimension of " + b)
def base(v): m = IX.match(v); return m.group(1) if m else v
def cases(tier):
    q = tier == "quick"; L = []; P = cfgs.phi
    for o, s in (("fct", "euler_a"), ("iga|fct", "trapez"), ("abs|nug", "euler_b")):
        for nd in (1, 2): L.append(cfgs.rhs(nd, o, s))
    for nd, o, b, k in ((1, "abs|fct", "c", {}), (1, "abs", "c", {"den": True}), (2, "iga|fct", "c", {}), (2, "nug|abs", "c", {"den": True}), (2, "iga|div_2nd|div_3rd", "c", {}), (1, "iga|div_2nd|div_3rd", "c", {"den": True}), (3, "iga", "c", {}), (2, "iga", "o", {}),
                        (2, "iga", "c", {"vab": "impl"}), (2, "abs", "c", {"vab": "expl"})):
        c = cfgs.vip(nd, o, "trapez", b, **k)
        if k.get("den"): c.family = "vipden"
        L.append(c)
    for nd, o, b in ((1, "fct", "c"), (2, "iga|fct", "c"), (2, "abs", "c")): L.append(cfgs.swe(nd, o, b))
    for nd, o, b, k in ((2, "nug|iga", "c.r", {}), (2, "iga|div_2nd|div_3rd_dt", "c", {}), (3, "iga", "c.c.r", {})): L.append(P(cfgs.prs(nd, o, "cr", b, **k)))
    for nd in (2, 3):
        for sg, df, o, b in (("dns", "normal", "iga", "c"), ("smg", "compact", "nug|iga", "c.r"), ("dns", "pade", "iga", "c"), ("dns", "compact", "nug|iga", "c.r"), ("smg", "normal", "iga", "c"), ("smg", "compact", "nug|iga", "c.g"), ("smgani", "compact", "iga|nug", "c.r")):
            if nd == 3 and q and (sg, df) != ("dns", "normal"): continue
            if nd == 3: b = b if b == "c" else "c." + b
            L.append(P(cfgs.sgs(nd, o, sg, df, b, tag=b[-1])))
    for nd, o, b, k in ((2, "iga|fct", "c.r", {}), (2, "nug|iga", "c.r", {"impl": True}), (2, "iga", "c", {"filt": True}), (3, "iga", "c.c.r", {}), (2, "nug|iga", "c.g", {"sg": "smg"}), (2, "nug|iga", "c.g", {"sg": "smgani"}), (2, "iga|fct", "c.r", {"vab": "impl"}),
                        (3, "nug|iga", "c.c.g", {"sg": "smg"})):
        if q and nd == 3 and k: continue
        L.append(P(cfgs.bous(nd, o, b, tag="f" if k.get("filt") else "", **k)))
    return L
WHAT = {"L": "length", "T": "time", "F": "the transported scalar", "R": "the density-like factor"}
def one(chk, c, us):
    kw = size(c, True); kw["iters"] = 2; kw["nt"] = 2 if c.nd == 1 and c.optset <= {"fct"} else 1
    p = Pool(); r = chk.run(c, p, **kw); enc(chk, c)
    if r.exc: chk.undec(c.name, r.exc); return
    names = sorted(r.out); g = p.var("unit")
    def powg(x, e):
        for _ in range(abs(e)): x = p.mul(x, g) if e > 0 else p.div(x, g)
        return x
    z = lambda v: p.const(0) if v.startswith(("fp!eps", "fp!tiny")) else None
    a0 = p.subst([r.out[n] for n in names], z, simp=True)
    for u in us:
        if u == "R" and "nug" not in c.optset: continue
        D = lambda v: dims(c, base(v)).get(u, 0)
        name = "%s: unit of %s" % (c.name, WHAT[u])
        b = p.subst([r.out[n] for n in names], lambda v: z(v) if z(v) is not None else powg(p.var(v), D(v)) if D(v) else None, simp=True)
        a = [powg(x, D(n)) for n, x in zip(names, a0)]
        def concrete(t):
            env = random_inputs(chk, r.witness, t)
            va = chk.run_double(c, env, **kw)[1]; vb = chk.run_double(c, {v: x * 4. ** D(v) for v, x in env.items()}, **kw)[1]
            return vb, {n: x * 4. ** D(n) for n, x in va.items()}, env
        prs = list(zip(names, b, a))
        if compare_sweep(chk, name, c, p, prs, scales=["unit"], lin=600, exps=(0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6)): continue
        compare_nf(chk, name, c, p, prs, concrete, "changing the unit of %s changes the result" % WHAT[u], {"kw": kw, "unit": u}, tol=1e-9, sweep=False, positive=lambda v: v.startswith(("G[", "fp!", "unit")))
def body(chk):
    T = cases(chk.tier)
    ok = {c.name for c in chk.usable(T)}; schemas(chk)
    chk.each([(c, u) for c in T if c.name in ok for u in ("LTFR" if c.nd == 3 or "pade" in c.name or "smg" in c.name else ("LTFR",))], one)
    chk.bounds.append("grids 6 / 4x5 / 4x4x4, 1-2 steps, 2 iterations; all values and the unit symbolic, arithmetic over the reals, regularising epsilon taken as 0; the pressure solver's result an arbitrary field")
    return "the problem posed in other units and the result in other units are symbolic terms of the same run; z3 decides that they are equal (sweeping with local lemmas, normal forms)"
if __name__ == "__main__": main(body)
