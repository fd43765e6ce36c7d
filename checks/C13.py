#!/usr/bin/env python3-vt
"""C13: options that only change how something is computed do not change the result"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from C04 import potential, hash_
HS = "static constexpr int hint_scale(const int &e) { return %s; }"
def cases(tier):
    """(what, configuration A, its settings, configuration B, its settings, how A's inputs follow from B's)"""
    A = cfgs.adv; L = []
    def put(*a, **k): L.append((a, k))
    def some(seq, k, tag):
        seq = list(seq)
        return seq if tier != "quick" else [x for x in seq if hash_(tag, x) % k == 0] or seq[:1]
    bc = {1: ("c", "o"), 2: ("c", "r", "o", "c.o", "r.c"), 3: ("c", "r", "o", "c.o.r", "r.c.c")}
    def sp(tag, opts, k=3, nds=(1, 2, 3)): return some(((nd, o, b) for nd in nds for o in opts for b in bc[nd] if not (o == "fot" and nd != 2)), k, tag)
    for nd, o, b in sp("scale", ("0", "abs|tot|fct", "iga|fct|nug", "dfl|nug", "iga|div_2nd|div_3rd|fct"), 5):
        put("hint_scale is neutral", A(nd, o, b, ctx=HS % "-1"), {}, A(nd, o, b), {})
        if nd == 1: put("hint_scale is neutral", A(nd, o, b, ctx=HS % "3"), {}, A(nd, o, b), {})
    def join(o, x): return x if o == "0" else o + "|" + x
    for x, os_ in (("khn", ("0", "tot|dfl|nug", "iga|fct", "iga|div_2nd|div_3rd")), ("npa", ("0", "tot|abs|nug", "iga|fct|tot", "fct|dfl")), ("pfc", ("0", "abs|nug|tot", "fct", "dfl", "div_2nd|div_3rd"))):
        for nd, o, b in sp(x, os_, 4): put("%s does not change the result" % x, A(nd, join(o, x), b), {}, A(nd, o, b), {}, tight=x != "pfc")
    for nd, o, b in sp("nug1", ("0", "abs|tot|fct", "iga|fct|tot", "dfl", "iga|div_2nd|div_3rd|fct", "div_2nd|div_3rd", "iga|div_2nd|div_3rd_dt"), 5):
        if nd == 1 and "_dt" in o: continue
        put("G = 1 is no G", A(nd, join(o, "nug"), b), {}, A(nd, o, b), {}, G="1")
        put("constant G with Courant numbers multiplied by it is no G", A(nd, join(o, "nug"), b), {}, A(nd, o, b), {}, G="g")
    for nd, o, b in sp("dfl", ("0", "nug|tot", "iga|fct"), 3):
        oo = b.split(".") + [b[-1]] * nd
        if "o" in oo[:nd] and oo[:nd] != ["o"] * nd: continue
        put("dfl does not change the result for a non-divergent flow", A(nd, join(o, "dfl"), b), {}, A(nd, o, b), {}, nondiv=True)
    for nd, o, b in sp("upw", ("abs|tot|fct", "iga|tot|fct", "dfl|fct|pfc", "iga|div_2nd|div_3rd|fct", "div_2nd|div_3rd"), 5):
        put("with one iteration the result is that of the donor-cell scheme", A(nd, o, b), {"iters": 1, "nt": 2 if nd < 3 else 1}, A(nd, "0", b), {"iters": 1, "nt": 2 if nd < 3 else 1})
        if "iga" not in o or True: put("upwind_filter_freq = 1 is the donor-cell scheme", A(nd, o, b), {"iters": 2, "upwind_filter_freq": 1, "nt": 2 if nd < 3 else 1}, A(nd, "0", b), {"iters": 1, "nt": 2 if nd < 3 else 1})
    for nd, o, b in sp("filt", ("abs|tot|fct", "iga|tot|fct", "dfl|nug"), 4, (1, 2)):
        put("upwind_filter_freq = 2 affects every second step only", A(nd, o, b), {"iters": 2, "upwind_filter_freq": 2}, A(nd, o, b), {"iters": 2}, filt=True)
    return L
class Gen(NF):
    def __init__(self, *a, **k): super().__init__(*a, generic=True, positive=lambda n: n.startswith(("G[", "fp!")), **{x: y for x, y in k.items() if x != "positive"})
def one(chk, a, k):
    what, ca, ka, cb, kb = a
    base = size(ca, True); base["nt"] = 1; base["iters"] = 2 if ca.nd == 3 or "iga" in ca.optset or k.get("G") and ca.nd > 1 or k.get("nondiv") else 3
    if ca.nd == 1 and not ka: base["nt"] = 2 if "div_3rd" not in ca.opts and not k.get("nondiv") else 1
    kwa, kwb = dict(base, **ka), dict(base, **kb)
    name = "%s vs %s: %s" % (ca.name, cb.name, what)
    p = Pool(); ra = chk.run(ca, p, **kwa); rb = chk.run(cb, p, **kwb)
    if ra.exc or rb.exc: chk.undec(name, ra.exc or rb.exc); return
    pot = potential(ca, kwa) if k.get("nondiv") else None
    def sub(v, a_side):
        if v.startswith(("fp!eps", "fp!tiny")): return p.const(0)
        if a_side and k.get("G"):
            if v.startswith("G["): return p.const(1) if k["G"] == "1" else p.var("G[]")
            if v.startswith("gc") and k["G"] == "g": return p.mul(p.var("G[]"), p.var(v))
        if pot and pot(v) is not None:
            s = p.const(0)
            for sg, nm in pot(v): s = (p.add if sg > 0 else p.sub)(s, p.var(nm))
            if "G[" + v.split("[")[1] in ra.witness: pass
            return s
        return None
    names = sorted(ra.out)
    oa = p.subst([ra.out[n] for n in names], lambda v: sub(v, True), simp=bool(pot) or bool(k.get("G")))
    ob = p.subst([rb.out[n] for n in names], lambda v: sub(v, False), simp=bool(pot) or bool(k.get("G")))
    def concrete(t):
        env = random_inputs(chk, rb.witness, t)
        if pot:
            rng = np.random.default_rng(chk.seed * 77 + t); pv = {}
            for v in env:
                if pot(v) is not None: env[v] = sum(sg * pv.setdefault(nm, float(rng.uniform(-.06, .06))) for sg, nm in pot(v))
        e2 = dict(env)
        if k.get("G"):
            g = 1. if k["G"] == "1" else 1.37
            for v in ra.witness:
                if v.startswith("G["): e2[v] = g
            for v in env:
                if v.startswith("gc"): e2[v] = env[v] * g
        return chk.run_double(ca, e2, **kwa)[1], chk.run_double(cb, env, **kwb)[1], e2
    enc(chk, ca); enc(chk, cb)
    sc = {"scales": ["G[]"]} if k.get("G") == "g" else {}
    prs = [(n, x, y) for n, x, y in zip(names, oa, ob)]
    if compare_sweep(chk, name, ca, p, prs, **sc): return
    compare_nf(chk, name, ca, p, [(n, x, y) for n, x, y in zip(names, oa, ob)], concrete, what, {"kw": kwa, "kw of the other": kwb, "other": cb.code()}, tol=1e-9, cls=Gen, sweep=False)
def filt(chk, a, k):
    """steps 0 and 2 filtered (donor cell), step 1 with corrections: as composed from single steps"""
    what, ca, ka, cb, kb = a
    base = size(ca, True); name = "%s: %s" % (ca.name, what); base["iters"] = 2
    p = Pool(); kwa = dict(base, upwind_filter_freq=2, nt=2)
    ra = chk.run(ca, p, **kwa); rd = chk.run(ca, p, **dict(base, iters=1, nt=1)); rc = chk.run(ca, p, **dict(base, nt=1))
    names = sorted(ra.out)
    # the equation of the composed problem: corrected step applied to the outputs of the donor-cell step
    comp = p.subst([rc.out[n] for n in names], lambda v: rd.out.get(v))
    def concrete(t):
        env = random_inputs(chk, ra.witness, t)
        va = chk.run_double(ca, env, **kwa)[1]; v1 = chk.run_double(ca, env, **dict(base, iters=1, nt=1))[1]
        return va, chk.run_double(ca, dict(env, **{n: v1.get(n, x) for n, x in env.items()}), **dict(base, nt=1))[1], env
    enc(chk, ca)
    compare_terms(chk, name, ca, p, [(n, ra.out[n], y) for n, y in zip(names, comp)], concrete, what, {"kw": kwa})
def go(chk, a, k): (filt if k.get("filt") else one)(chk, a, k)
def body(chk):
    T = cases(chk.tier)
    ok = {c.name for c in chk.usable(list({c.name: c for a, k in T for c in (a[1], a[3])}.values()))}; schemas(chk)
    chk.each([t for t in T if t[0][1].name in ok and t[0][3].name in ok], go)
    chk.bounds.append("grids 6 / 4x5 / 4x4x4, 1-2 steps, up to 3 iterations; all values symbolic, arithmetic over the reals, regularising epsilon taken as 0; upwind_filter_freq=2 bit-level")
    return "both variants are executed symbolically on the same inputs and z3 decides that all outputs are equal (normal forms, every rewriting step a lemma discharged by z3; IEEE operations uninterpreted for the filter case)"
if __name__ == "__main__": main(body)
