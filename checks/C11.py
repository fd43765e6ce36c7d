#!/usr/bin/env python3-vt
"""C11: the result scales with the field; with infinite gauge the scheme is linear up to the limiter"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from C04 import potential, hash_
def cases(tier):
    A = cfgs.adv; L = []
    bc = {1: ("c", "o"), 2: ("c", "o", "c.r", "r.o"), 3: ("c", "r.o.c")}
    def add(what, opts, nds=(1, 2, 3), k=1, **kw):
        for nd in nds:
            for o in opts:
                if "fot" in o and nd != 2 or nd == 1 and "_dt" in o: continue
                if "fct" in o and nd == 3 and what == "shift" and tier == "quick": continue
                bs = bc[nd]
                if tier == "quick": bs = [b for b in bs if hash_("C11" + what, (nd, o, b)) % 2 == 0][:1 if nd == 3 else 2] or bs[:1]
                for b in bs:
                    if what == "shift":
                        oo = (b.split(".") + [b[-1]] * nd)[:nd]
                        if "o" in oo and oo != ["o"] * nd: continue
                    L.append((what, A(nd, o, b)))
    sc = ("0", "nug|fct", "abs|tot|fct", "dfl|nug", "iga|fct|nug", "iga|tot|fct", "iga|div_2nd|div_3rd|fct", "iga|tot|fot", "div_2nd|div_3rd", "iga|dfl|nug")
    add("scale", sc); add("sign", ("abs", "abs|tot|nug", "abs|dfl", "iga", "iga|fct|tot", "iga|dfl|fct|nug", "iga|div_2nd|div_3rd|fct", "iga|tot|fot"))
    add("linear", ("iga", "iga|nug|tot", "iga|dfl|nug", "iga|div_2nd|div_3rd", "iga|div_2nd|div_3rd_dt|nug", "iga|tot|fot"))
    add("shift", ("iga|tot|nug", "iga|dfl", "iga|div_2nd|nug", "iga|tot|fot"))
    return L
W = {"scale": "a field multiplied by a positive number gives the result multiplied by it", "sign": "a field of opposite sign gives the result of opposite sign",
     "linear": "with infinite gauge the result is linear in the field", "shift": "with infinite gauge a constant added to the field in non-divergent flow is added to the result"}
LIN = {  # rules, discharged by z3: f linear in the field with coefficients that do not depend on it
 "+": lambda x, y, k, a, b, u, v: a * (x + y) + b * (u + v) == (a * x + b * u) + (a * y + b * v), "-": lambda x, y, k, a, b, u, v: a * (x - y) + b * (u - v) == (a * x + b * u) - (a * y + b * v),
 "neg": lambda x, y, k, a, b, u, v: a * -x + b * -u == -(a * x + b * u), "*": lambda x, y, k, a, b, u, v: a * (x * k) + b * (u * k) == (a * x + b * u) * k,
 "/": lambda x, y, k, a, b, u, v: z3.Implies(k != 0, a * (x / k) + b * (u / k) == (a * x + b * u) / k), "0": lambda x, y, k, a, b, u, v: a * 0 + b * 0 == z3.RealVal(0),
 "ite": lambda x, y, k, a, b, u, v: a * z3.If(k > 0, x, y) + b * z3.If(k > 0, u, v) == z3.If(k > 0, a * x + b * u, a * y + b * v)}
def linear(p, roots):
    """nodes: 0 does not depend on the field, 1 linear in it, 2 anything else"""
    cl = {}
    for j in sorted(p.cone(roots)):
        o = p.op[j]; k = [cl[x] for x in p.kids(j)]
        if o == "var": c = 1 if p.k[j].startswith("psi") else 0
        elif not k or not any(k): c = 0
        elif o in ("+", "-"): c = 1 if all(y == 1 or p.cval(x) == 0 for x, y in zip(p.kids(j), k)) else 2
        elif o == "neg": c = k[0]
        elif o == "*": c = 1 if sorted(k) == [0, 1] else 2
        elif o == "/": c = 1 if k == [1, 0] else 2
        elif o == "ite": c = 1 if k[0] == 0 and all(y == 1 or p.cval(x) == 0 for x, y in zip(p.kids(j)[1:], k[1:])) else 2
        else: c = 2
        cl[j] = c
    return [r for r in roots if cl[r] != 1 and p.cval(r) != 0]
def one(chk, what, c):
    kw = size(c, True); kw["nt"] = 2 if c.nd == 1 and "div_3rd" not in c.opts and what != "shift" else 1
    if c.nd == 3 and "iga" not in c.optset: kw["iters"] = 2
    name = "%s: %s" % (c.name, W[what])
    p = Pool(); r = chk.run(c, p, **kw)
    if r.exc: chk.undec(name, r.exc); return
    names = sorted(r.out); enc(chk, c); g = p.var("unit")
    pot = potential(c, kw) if what == "shift" else None
    def base(v):
        if v.startswith(("fp!eps", "fp!tiny")): return p.const(0)
        if pot and pot(v) is not None:
            s = p.const(0)
            for sg, nm in pot(v): s = (p.add if sg > 0 else p.sub)(s, p.var(nm))
            return s
    def run(f): return p.subst([r.out[n] for n in names], lambda v: f(v) if v.startswith("psi") else base(v), simp=True)
    a = run(lambda v: None); sweep = {}
    if what == "linear" and not linear(p, a): chk.ok(name, "%d values, every operation linear in the field" % len(a)); return
    if what == "scale": b = run(lambda v: p.mul(g, p.var(v))); a = [p.mul(g, x) for x in a]; sweep = {"scales": ["unit"]}
    elif what == "sign": b = run(lambda v: p.neg(p.var(v))); a = [p.neg(x) for x in a]
    elif what == "shift": b = run(lambda v: p.add(p.var(v), p.var("shift"))); a = [p.add(x, p.var("shift")) for x in a]
    else:
        b = run(lambda v: p.add(p.mul(g, p.var(v)), p.mul(p.var("unit2"), p.var("psx" + v[3:])))); a2 = run(lambda v: p.var("psx" + v[3:]))
        a = [p.add(p.mul(g, x), p.mul(p.var("unit2"), y)) for x, y in zip(a, a2)]
    def concrete(t):
        env = random_inputs(chk, r.witness, t); rng = np.random.default_rng(chk.seed * 31 + t)
        if pot:
            pv = {}
            for v in env:
                if pot(v) is not None: env[v] = sum(sg * pv.setdefault(nm, float(rng.uniform(-.06, .06))) for sg, nm in pot(v))
        if what == "sign" or "abs" in c.optset or "iga" in c.optset: env = {v: (x * (-1 if v.startswith("psi") and rng.uniform() < .3 else 1)) for v, x in env.items()}
        P = lambda f: {v: (f(v, x) if v.startswith("psi") else x) for v, x in env.items()}
        R = lambda e: chk.run_double(c, e, **kw)[1]
        va = R(env)
        if what == "scale": return R(P(lambda v, x: 1024 * x)), {n: 1024 * x for n, x in va.items()}, env
        if what == "sign": return R(P(lambda v, x: -x)), {n: -x for n, x in va.items()}, env
        if what == "shift": return R(P(lambda v, x: x + 3)), {n: x + 3 for n, x in va.items()}, env
        o = {v: float(rng.uniform(-1, 1)) for v in env if v.startswith("psi")}
        vb = R(P(lambda v, x: o[v]))
        return R(P(lambda v, x: 2 * x - 3 * o[v])), {n: 2 * va[n] - 3 * vb[n] for n in va}, env
    prs = list(zip(names, b, a))
    if what != "linear" and compare_sweep(chk, name, c, p, prs, **sweep): return
    compare_nf(chk, name, c, p, prs, concrete, W[what], {"kw": kw}, tol=1e-9, sweep=False if what != "linear" else None, positive=lambda v: v.startswith(("G[", "fp!", "unit")))
def body(chk):
    T = cases(chk.tier)
    ok = {c.name for c in chk.usable(list({t[1].name: t[1] for t in T}.values()))}; schemas(chk)
    for o, f in LIN.items():
        if chk.solve([z3.Not(f(*z3.Reals("x y k a b u v")))], 30.) != "unsat": raise RuntimeError("rule not proven: " + o)
    chk.each([t for t in T if t[1].name in ok], one)
    chk.bounds.append("grids 6 / 4x5 / 4x4x4, 1-2 steps, up to 3 iterations; all values symbolic, arithmetic over the reals, regularising epsilon taken as 0")
    return "the transformed problem and the transformed result are both symbolic terms of the same run; z3 decides that they are equal (sweeping with local lemmas, normal forms)"
if __name__ == "__main__": main(body)
