#!/usr/bin/env python3-vt
"""C17: no result depends on the content of memory that was never written"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
def sets(tier):
    A = cfgs.adv
    L = []
    for nd in (1, 2, 3):
        for o in ("0", "abs|tot|fct", "iga|tot|fct|nug", "nug|dfl|fct", "iga|div_2nd|div_3rd|fct", "khn|dfl|tot|nug", "iga|div_2nd|div_3rd_dt", "abs|khn|npa", "dfl"):
            for bc in ("c", "o", "r", "c.o.r", "o.r.c", "c.p"):
                if "p" in bc and (nd != 2 or "div_3rd" in o): continue
                if len(bc.split(".")) > nd or nd == 1 and "r" in bc: continue
                if tier == "quick" and hash_(nd, o, bc) % (2 if nd < 3 else 5): continue
                L.append(A(nd, o, bc))
    L += [A(3, "iga|div_2nd|div_3rd"), A(3, "iga|div_2nd|div_3rd|fct", "c.o.r"), A(3, "nug|div_2nd|div_3rd", "o"), A(3, "iga|div_2nd|div_3rd_dt", "o.c.c")]
    L += [A(1, "nug|div_2nd|div_3rd", "o"), A(1, "div_2nd|div_3rd|fct"), A(2, "nug|div_2nd", "c"), A(2, "abs|div_2nd|div_3rd", "c.r"), A(2, "div_2nd|div_3rd|fct", "o.c"), A(3, "nug|div_2nd|div_3rd", "c")]
    L = list({c.name: c for c in L}.values()) + sysset(tier)
    return L
def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())
def sysset(tier):
    L = [cfgs.rhs(2, "fct", "trapez", "c.o"), cfgs.rhs(1, "0", "euler_b"), cfgs.rhs(3, "0", "euler_a", "o"),
         cfgs.vip(2, "iga|div_2nd|div_3rd|fct"), cfgs.vip(1, "fct"), cfgs.vip(3, "0", bc="c.o.r", vab="impl"), cfgs.vip(2, "fct|nug", bc="o.r", den=True, vab="expl"), cfgs.vip(2, "iga|div_2nd|div_3rd_dt", bc="c"),
         cfgs.prs(2, "nug", "gcrk", "c.r"), cfgs.prs(2, "0", "mr", "o.r"), cfgs.prs(3, "0", "cr", "c.o.r"), cfgs.prs(2, "0", "pc"), cfgs.prs(2, "0", "cr", "o.o"), cfgs.prs(2, "0", "cr", "c.c"),
         cfgs.swe(2, "fct|abs", "o.c"), cfgs.swe(1, "fct|iga"), cfgs.bous(2, "0", impl=True, vab="impl"), cfgs.bous(2, "0", filt=True, tag="filt"),
         cfgs.sgs(2, "0", "dns"), cfgs.sgs(2, "0", "smg", "normal"), cfgs.sgs(2, "0", "dns", "pade"), cfgs.sgs(3, "nug", "smg", bc="c.c.g", tol=".6"), cfgs.sgs(2, "0", "smgani", tol=".6"), cfgs.sgs(2, "0", "dns", bc="c.g"), cfgs.sgs(3, "0", "dns", bc="c.c.r", tol=".6"), cfgs.bous(2, "0", sg="smg"), cfgs.bous(2, "0", sg="smgani"), cfgs.bous(3, "0", bc="c.c.r", sg="smg"), cfgs.bous(3, "0", bc="c.c.r", sg="smgani")]
    return L
def one(chk, c, w):
    kw = size(c); kw["nt"] = 2 if c.nd < 3 else 1
    if c.opts == "dfl" or "div_2nd" in c.optset and "iga" not in c.optset: kw["iters"] = 3
    name = "%s w=%d" % (c.name, w)
    p = Pool()
    r = chk.run(c, p, workers=w, gcout=1, **kw)
    if r.exc: chk.undec(name, r.exc); return
    js = sorted(n for n in r.witness if n.startswith("junk"))
    roots = [r.out[n] for n in r.out]
    B = p.subst(roots, lambda v: p.var("other_" + v) if v.startswith("junk") else None)
    pairs = [(n, a, b) for n, a, b in zip(r.out, roots, B)]
    conds = [x for x, _ in r.path]
    cb = p.subst(conds, lambda v: p.var("other_" + v) if v.startswith("junk") else None)
    def conc(k):
        env = random_inputs(chk, r.witness, k)
        res = []
        for mp in ("0", "85", "170"):
            res.append(chk.run_double(c, env, workers=w, gcout=1, poison=mp, **kw)[1])
        for x in res[1:]:
            if rel_diff([(n, res[0][n], x[n]) for n in x]) : return res[0], x, env
        return None
    def concnan(k):
        q = conc(k)
        return q
    compare_terms(chk, name, c, p, pairs, concnan, "result depends on the previous content of freshly allocated memory", {"kw": kw, "workers": w, "how": "new'ed memory filled with 0, 0x55.., 0xaa.. bytes"},
                  ok="%d outputs, %d decisions independent of %d never-written cells that are read" % (len(pairs), len(conds), len(js)), path_pairs=list(zip(conds, cb)))
    enc(chk, c)
def body(chk):
    L = chk.usable(sets(chk.tier))
    chk.each([(c, w) for c in L for w in ((1, 2) if chk.tier != "quick" else (1 + hash_(c.name) % 2,))], one)
    chk.bounds.append("grids 6 / 5x6 / 4x5x4, 1-2 steps, up to 3 iterations, 1-2 workers; content of all memory symbolic")
    chk.assumptions.append("reads of never-written plain (non-field) variables are not covered")
    return "every array element starts as a fresh symbolic value; z3 decides that outputs and decisions are the same terms when all these values are replaced by others; counterexamples are replayed with the allocator filling memory with different bytes"
if __name__ == "__main__": main(body)
