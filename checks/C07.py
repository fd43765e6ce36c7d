#!/usr/bin/env python3-vt
"""C07: workers never conflict between barriers, all pass the same barriers, results do not depend on the schedule"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from vlib import *
import cfgs
def sets(tier):
    A = cfgs.adv
    L = [A(1, "iga|tot|fct|nug", "o"), A(1, "khn|tot|dfl|fct"), A(2, "abs|tot|fct|dfl", "c.p"), A(2, "iga|tot|fct|nug", "o.r"), A(2, "iga|div_2nd|div_3rd|fct"), A(2, "khn|dfl", "o.c"),
         A(2, "iga|div_2nd|div_3rd_dt|nug", "c.o"), A(3, "iga|div_2nd|div_3rd_dt", "o.c.r"), A(1, "iga|div_2nd|div_3rd_dt"), A(2, "abs|dfl|nug", "o.c"), A(3, "iga|tot|dfl", "c"), cfgs.vip(2, "iga|div_2nd|div_3rd_dt", bc="c.r"), A(3, "iga|tot|fct|nug", "c.o.r"), A(3, "dfl|tot|abs|fct", "o.c.c"), A(3, "khn|iga|div_2nd|div_3rd|fct", "c")]
    L += [cfgs.rhs(2, "fct", "trapez", "c.o"), cfgs.rhs(1, "0", "euler_b"), cfgs.rhs(3, "0", "euler_a", "o"),
          cfgs.vip(2, "iga|div_2nd|div_3rd|fct"), cfgs.vip(1, "fct"), cfgs.vip(3, "0", bc="c.o.r", vab="impl"), cfgs.vip(2, "fct|nug", bc="o.r", den=True, vab="expl"),
          cfgs.prs(2, "nug", "gcrk", "c.r"), cfgs.prs(2, "0", "mr", "o.r"), cfgs.prs(3, "0", "cr", "c.o.r"), cfgs.prs(2, "0", "pc"),
          cfgs.swe(2, "fct|abs", "o.c"), cfgs.bous(2, "0", impl=True, vab="impl"), cfgs.bous(2, "0", filt=True, tag="filt"),
          cfgs.sgs(2, "0", "dns"), cfgs.sgs(2, "0", "smg", "normal"), cfgs.sgs(2, "0", "dns", "pade"), cfgs.sgs(3, "nug", "smg", bc="c.c.g", tol=".6"), cfgs.sgs(2, "0", "smgani", tol=".6"), cfgs.bous(2, "0", sg="smg"), cfgs.bous(2, "0", sg="smgani"), cfgs.bous(3, "0", bc="c.c.r", sg="smg"), cfgs.bous(3, "0", bc="c.c.r", sg="smgani")]
    return L
def one(chk, c, w):
    kw = dict(nx=7, ny=6, iters=3) if c.nd < 3 else dict(nx=4, ny=6, nz=4, iters=2)
    if "p" in c.bc or c.family in ("sgs", "prs", "bous") and c.nd == 2: kw.update(nx=5, ny=6)
    if "iga" in c.opts: kw["iters"] = 2
    kw["nt"] = "1,1" if c.nd < 3 else 1
    name = "%s w=%d" % (c.name, w)
    p = Pool()
    r = chk.run(c, p, workers=w, record=1, load_events=True, **kw)
    chk.encoded |= encoded_for(c.opts, c.nd, ["bcond::" + "/".join(c.bc), getattr(c, "family", "mpdata")])
    if r.exc and "barrier" in r.exc:
        _, _, n = chk.run_double(c, {}, workers=w, **kw)
        chk.violation(name, "workers do not pass the same barriers: " + r.exc, {"cfg": c.code(), "kw": kw, "workers": w, "replay": n}); return
    if r.exc: chk.undec(name, r.exc); return
    # --- conflicts: accesses of one address by several workers, times ordered only by barriers
    acc = {}
    for th, ep, ad, v, k, cnt in r.events: acc.setdefault(ad, []).append((th, ep, k, v, cnt))
    sigs = {}
    for ad, d in acc.items():
        if len({x[0] for x in d}) < 2: continue
        vals, writers = {}, {}
        for th, ep, k, v, _ in d:
            if k in (1, 3): vals.setdefault(ep, set()).add(v)
        eff = {ep for th, ep, k, v, _ in d if k == 1}      # epochs in which the cell changes value
        if not eff: continue
        # distinct (thread, epoch, kind): reads of a value already written by the same worker in this epoch see the common value if all writes agree
        ks = set()
        for th, ep, k, v, _ in d:
            if k == 2 and len(vals.get(ep, ())) <= 1: continue
            ks.add((th, ep, "w" if k in (1, 3) else "r", k == 1 or k == 3 and len(vals[ep]) > 1 or False))
        ks = sorted(ks, key=lambda x: (x[1], x[0], x[2:]))
        pairs = []
        for i, a in enumerate(ks):
            for b in ks[i+1:]:
                if b[1] - a[1] > 1: break
                if a[0] == b[0] or "w" not in (a[2], b[2]) or b[1] - a[1] > 1: continue   # later epochs: transitively
                if a[1] == b[1]:
                    if a[1] not in eff: continue                                       # only the value already there is written
                    if a[2] == b[2] == "w" and len(vals[a[1]]) == 1: continue           # the same term written by both: they commute
                pairs.append((a[:3], b[:3]))
        if pairs: sigs.setdefault(tuple(pairs), []).append(ad)
    E = max([x[1] for x in r.events] or [0]) + 2
    s = z3.SolverFor("QF_LRA")
    B = [z3.Real("b%d" % i) for i in range(E + 1)]
    s.add([B[i] < B[i+1] for i in range(E)])
    T = {}
    def t_(k):
        if k not in T:
            T[k] = z3.Real("t_%d_%d_%s" % k); s.add(B[k[1]] < T[k], T[k] < B[k[1] + 1])
        return T[k]
    for pr in sigs:
        for a, b in pr: t_(a); t_(b)
    t0 = time.time()
    def ask(prs):
        s.push(); s.add(z3.Or([T[a] == T[b] for a, b in prs])); q = s.check(); s.pop()
        chk.queries += 1
        if q == z3.unsat: chk.unsat += 1
        else: chk.sat += 1
        return q != z3.unsat
    bad = []
    if sigs and ask(sorted({ab for pr in sigs for ab in pr})):      # one query over all of them first
        for pr, ads in sigs.items():
            if not ask(pr): continue
            for ab in pr:
                if ask([ab]): bad += [(ab, ad) for ad in ads]
    chk.solver_s += time.time() - t0
    # --- schedule independence of the values: another order of the workers between barriers computes the same terms
    r2 = chk.run(c, p, workers=w, reverse=1, **kw)
    pairs = [(n, r.out[n], r2.out.get(n, -1)) for n in r.out]
    diff = euf_differing(chk, p, pairs) if not r2.exc else pairs[:1]
    if not bad and not diff:
        chk.ok(name, "%d memory events, %d shared address classes, %d epochs, no two conflicting accesses can coincide; %d outputs same terms in the opposite order" % (len(r.events), len(sigs), E - 2, len(pairs))); return
    # --- coarse replay: whole epochs in the opposite order, ordinary doubles
    if diff:
        for env in chk.envs(r.witness):
            res = []
            for kk in ({}, {"reverse": 1}):
                _, v, n = chk.run_double(c, env, workers=w, **kw, **kk); res.append((v, n))
            d = chk.differs([(n, v, res[1][0].get(n, float("nan"))) for n, v in res[0][0].items()])
            if d or res[0][1] != res[1][1]:
                chk.violation(name, "result depends on the order in which workers run between two barriers: %s" % (d[:1] or (res[0][1], res[1][1])),
                    {"cfg": c.code(), "harness": c.harness, "kw": kw, "workers": w, "inputs": env, "differences": d[:10], "conflict ((thread, epoch, access) pairs)": [b[0] for b in bad[:5]]}); return
        chk.undec(name, "terms differ between orders without an observable difference: %s" % [x[0] for x in diff[:3]]); return
    # --- the racing reads return arbitrary values: do they reach the result?
    hv = os.path.join(chk.B.dir, "havoc.%d" % os.getpid())
    racy = {(x[0], x[1], ad) for ab, ad in bad for x in ab if x[2] == "r"}
    with open(hv, "w") as f:
        for x in sorted(racy): f.write("%d %d %d\n" % x)
    leak = []
    for kk in ({}, {"reverse": 1}):
        h = chk.run(c, p, workers=w, record=1, havoc=hv, **kw, **kk)
        prs = [(n, r.out[n], h.out.get(n, -1)) for n in r.out]
        # race variables may occur in a term and yet not matter; plain EUF equality with the undisturbed run decides
        leak += euf_differing(chk, p, prs) if not h.exc else prs[:1]
        leak += [(str(k), -1, -1) for (x, v), (y, u) in zip(h.path, r.path) if v != u]
    os.unlink(hv)
    if not leak:
        chk.ok(name, "%d racing accesses, none of which can influence an output (racing reads replaced by arbitrary values, z3: same terms)" % len(bad)); return
    # --- fine replay: preempt one worker between its racing access and the next barrier
    tried = 0
    cnts = {}
    for th, ep, ad, v, k, cnt in r.events: cnts[(th, ep, ad)] = cnts.get((th, ep, ad), 0) + cnt
    cand = {}
    for (a, b), ad in bad:
        for x in (a, b):
            n = cnts.get((x[0], x[1], ad), 1)
            for q in {n, 1}: cand.setdefault((x[0], x[1]), []).append((x[0], x[1], ad, q))
    order = []
    for i in range(40):
        for l in cand.values():
            if i < len(l): order.append(l[i])
    for t, e, ad, q in order[:60]:
        tried += 1
        kk = dict(pre="%d:%d:%d:%d" % (t, e, ad, q), record=1)
        h = chk.run(c, p, workers=w, **kw, **kk)
        prs = [(n, r.out[n], h.out.get(n, -1)) for n in r.out]
        dd = [x for x in prs if x[1] != x[2]] if not h.exc else prs[:1]
        if not dd: continue
        dd = euf_differing(chk, p, dd) or []
        if h.exc: chk.violation(name, "run fails when worker %d is preempted: %s" % (t, h.exc), {"cfg": c.code(), "kw": kw, "pre": kk}); return
        # values of both interleavings of the real code on concrete inputs
        for k in range(6):
            f = rand_env(100 * chk.seed + k, 1)
            env = lambda n: np.array([r.witness[n] if k == 0 and n in r.witness else f(n)[0]]) if not n.startswith("junk") else np.array([np.nan])
            val = p.evaluate([x for y in dd for x in y[1:]], env, 1)
            ne = [(n, float(np.ravel(val[a])[0]), float(np.ravel(val[b])[0])) for n, a, b in dd]
            ne = chk.differs(ne)
            if ne:
                chk.violation(name, "data race: %s when worker %d is preempted after access no. %d to a field element it shares (epoch %d) until the others reach the next barrier" % (ne[:1], t, q, e),
                    {"cfg": c.code(), "harness": c.harness, "kw": kw, "workers": w, "schedule": kk, "differences": ne[:10]}); return
    chk.undec(name, "racing accesses %s may influence %s, but no interleaving tried (%d) does" % ([b[0] for b in bad[:4]], [x[0] for x in leak[:3]], tried))
def body(chk):
    L = chk.usable(sets(chk.tier))
    chk.each([(c, w) for c in L for w in ((2, 3) if c.nd < 3 or chk.tier != "quick" else (3,))] , one)
    chk.bounds.append("workers 2-3, grids 7 / 7x6 / 4x6x4, 2 calls of advance(1) (3D: one); every access to a field element between two barriers; all interleavings")
    chk.assumptions += ["accesses to non-field state (pointers, integer counters) are covered only through the reversed schedule", "decisions of the concolic path (pressure-solver iteration count, divergence check)"]
    return "every access to shared numbers by each worker is recorded during symbolic execution; z3 decides over the access times (ordered only by program order across barriers) that no two conflicting accesses can coincide, and over the recorded terms that another order computes the same values; where accesses can coincide, racing reads are replaced by arbitrary values and z3 decides whether outputs change; counterexamples are replayed by preempting the real code at the racing access"
if __name__ == "__main__": main(body)
