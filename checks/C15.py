#!/usr/bin/env python3-vt
"""C15: advance(n); advance(m) is advance(n+m)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
def sets(tier):
    A = cfgs.adv
    L = [A(1, "iga|tot|fct|nug", "o"), A(1, "khn|tot|dfl|fct"), A(2, "abs|tot|fct|dfl", "c.p"), A(2, "iga|div_2nd|div_3rd_dt|fct"), A(2, "khn|fct", "o.c", neq=2), A(3, "iga|fct|nug", "c.o.r"),
         A(2, "fct", neq=2, ctx="enum { delayed_step = opts::bit(0) };"), A(2, "0", neq=3, ctx="static constexpr int hint_scale(const int &e) { return e - 1; }"),
         cfgs.rhs(2, "fct", "trapez", "c.o"), cfgs.rhs(1, "0", "euler_b"), cfgs.rhs(1, "0", "euler_a", "o"), cfgs.rhs(2, "0", "trapez", neq=3, ctx="enum { delayed_step = opts::bit(1) };", tag="del"), 
         cfgs.vip(2, "iga|div_2nd|div_3rd|fct"), cfgs.vip(1, "fct"), cfgs.vip(3, "0", bc="c.o.r", vab="impl"), cfgs.vip(2, "fct", bc="o.r", den=True, vab="expl"), cfgs.vip(2, "0", "euler_b"),
         cfgs.prs(2, "nug", "gcrk", "c.r"), cfgs.prs(2, "0", "mr", "o.r"), cfgs.prs(2, "0", "cr", "c.o"),
         cfgs.swe(2, "fct|abs", "o.c"), cfgs.swe(1, "fct|iga"), cfgs.bous(2, "0", impl=True, vab="impl"), cfgs.bous(2, "0", filt=True, tag="filt"), cfgs.sgs(2, "0", "dns"), cfgs.sgs(2, "0", "dns", "pade")]
    return L
SPLITS = [("3", "1,2"), ("3", "2,1"), ("3", "1,1,1"), ("3", "1,0,2")]
def one(chk, c):
    kw = size(c)
    if c.nd > 1: kw["iters"] = 2
    tot = 3 if c.nd == 1 or c.family in ("adv", "rhs", "swe") and c.nd == 2 else 2
    splits = SPLITS if tot == 3 else [("2", "1,1"), ("2", "1,0,1"), ("2", "0,2")]
    p = Pool(); ref = None
    for one_, many in splits:
        name = "%s advance(%s) vs %s" % (c.name, one_, many)
        if ref is None: ref = chk.run(c, p, nt=one_, gcout=1, **kw)
        if ref.exc: chk.undec(name, ref.exc); return
        r = chk.run(c, p, nt=many, gcout=1, **kw)
        if r.exc: chk.violation(name, "split run fails: " + r.exc, {"cfg": c.code(), "kw": kw}); continue
        pairs = [(n, ref.out[n], r.out.get(n, -1)) for n in ref.out]
        def conc(k):
            env = random_inputs(chk, ref.witness, k)
            return chk.run_double(c, env, nt=one_, gcout=1, **kw)[1], chk.run_double(c, env, nt=many, gcout=1, **kw)[1], env
        compare_terms(chk, name, c, p, pairs, conc, "advancing in one call or several gives different results", {"kw": kw, "splits": [one_, many], "key": "advance(0) before the first step: " + c.name if many[0] == "0" else None})
    enc(chk, c, ["solver_common::solve"])
def body(chk):
    chk.each(chk.usable(sets(chk.tier)), one)
    chk.bounds.append("2-3 steps in total, every split of 3 (and calls with 0 steps), grids 6 / 5x6 / 4x5x4, one worker; all values symbolic, IEEE operations uninterpreted")
    chk.assumptions.append("fixed time step (var_dt advances to a time, not by a number of steps); pressure-solver iteration counts as on the witness path")
    return "the same configuration is executed symbolically with one call of advance() and with several; z3 (equality with uninterpreted functions) decides that every output value is the same term"
if __name__ == "__main__": main(body)
