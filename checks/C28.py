#!/usr/bin/env python3-vt
"""C28: subgrid-scale stresses conserve momentum, dissipate energy, vanish in uniform flow and have no preferred direction"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
def cases(tier):
    L = []
    for nd in (2, 3):
        for sg, df, o, b in (("dns", "normal", "iga", "c"), ("dns", "pade", "iga", "c"), ("dns", "compact", "iga", "c"), ("dns", "compact", "nug|iga", "c"), ("dns", "compact", "nug|iga", "c.r"), ("dns", "compact", "nug|iga", "c.g"),
                             ("smg", "normal", "iga", "c"), ("smg", "compact", "iga", "c"), ("smg", "compact", "nug|iga", "c.r"), ("smg", "compact", "nug|iga", "c.g"), ("smgani", "compact", "nug|iga", "c"), ("smgani", "compact", "nug|iga", "c.g")):
            if nd == 3 and b != "c": b = "c." + b
            L.append(cfgs.stress(cfgs.sgs(nd, o, sg, df, b, tag=b.replace(".", ""))))
    return L
def parts(c, q):
    cyc = all(b == "c" for b in c.bc); P = ["uniform"]
    if cyc: P += ["momentum"] + ["mirror%d" % d for d in range(c.nd)] + ["swap"] * (c.nd == 3 or "smgani" not in c.name and "nug" not in c.optset)
    else: P += ["mirror0"] + ["swap"] * (c.nd == 3)
    if cyc and "nug" not in c.optset and "pade" not in c.name and not ("smg_" in c.name and "compact" in c.name): P += ["energy"]
    if cyc and "nug" not in c.optset and "dns" in c.name and "pade" not in c.name: P += ["quadratic"]
    if q and "smg" in c.name and c.nd == 3 or "smg_compact_cg" in c.name or q and "smg_compact_cr" in c.name: P = [w for w in P if w == "uniform" or w == "momentum" and "smg_" in c.name or not "nug" in c.optset]
    return P
SAY = {"uniform": "in uniform flow there is no stress, apart from the surface drag", "momentum": "stresses do not change the total momentum of a cyclic domain",
       "mirror": "the mirror image of a flow has the mirrored stress", "swap": "exchanging two axes exchanges the stresses", "energy": "stresses dissipate: work done = -(viscosity) x (squared deformation)",
       "quadratic": "for velocities quadratic in space the forcing is that of the continuous equations"}
def one(chk, c, what):
    nd = c.nd; q = what == "quadratic"; kw = {"nt": 1, "iters": 2}
    N = [6] * nd if q else [5, 5] if nd == 2 else [4, 4, 4]
    if nd == 2 and what in ("momentum", "energy"): N = [4, 5]
    if nd == 2 and what == "uniform": N = [4, 5]
    for x, n in zip(("nx", "ny", "nz"), N): kw[x] = n
    key = what.rstrip("012"); name = "%s: %s%s" % (c.name, SAY[key], " (dimension %s)" % what[-1] if key == "mirror" else "")
    p = Pool(); r = chk.run(c, p, **kw); enc(chk, c)
    if r.exc: chk.undec(name, r.exc); return
    S = {n: x for n, x in r.out.items() if n.startswith("str")}
    cyc = [b == "c" for b in c.bc]; nug = "nug" in c.optset; zero = p.const(0)
    z = lambda v: zero if v.startswith(("fp!eps", "fp!tiny")) else None
    wrap = lambda ix: tuple(i % (N[d] - 1) if cyc[d] else i for d, i in enumerate(ix))
    def nm(b, ix): ix = wrap(ix); return "%s[%s]" % (b, ",".join(map(str, list(ix) + [0] * (3 - nd))))
    pts = list(itertools.product(*[range(n) for n in N])); upts = [x for x in pts if wrap(x) == x]
    SS = lambda d, ix: S["str%d[%s]" % (d, ",".join(map(str, list(ix) + [0] * (3 - nd))))]
    dx = [p.var("d" + "ijk"[d]) for d in range(nd)]
    sum_ = lambda T: __import__("functools").reduce(p.add, T) if T else zero
    n2 = p.const(2); env0 = None; pairs = []; ren = None; post = None
    if what == "uniform":
        U = [p.var("U%d" % d) for d in range(nd)]
        if nug: U[nd - 1] = zero      # uniform vertical flow diverges where the density varies
        f = lambda v: U[int(v[3])] if v.startswith("ust") else z(v)
        names = sorted(S); B = p.subst([S[n] for n in names], f, simp=True)
        if c.bc[nd - 1] == "g":
            h2 = p.mul(U[0], U[0])
            if nd == 3: h2 = p.add(h2, p.mul(U[1], U[1]))
        for n, b in zip(names, B):
            d = int(n[3]); ix = tuple(int(x) for x in IX.match(n).group(2).split(","))[:nd]
            e = zero
            if c.bc[nd - 1] == "g" and ix[nd - 1] == 0 and d == nd - 1: continue     # no vertical motion at the ground
            if c.bc[nd - 1] == "g" and ix[nd - 1] == 0 and d < nd - 1:
                spd = p.mk("abs", U[0]) if nd == 2 else p.mk("sqrt", h2)
                G = lambda s: p.var(nm("G", s)); l = list(ix); l[d] -= 1; m = list(ix); m[d] += 1
                gm = p.div(p.add(p.add(G(l), G(m)), p.mul(n2, G(ix))), p.const(4))       # density on the faces, averaged back
                e = p.neg(p.div(p.mul(p.mul(p.const(4), p.mul(p.var("cdrag"), p.mul(spd, U[d]))), gm), p.mul(dx[nd - 1], G(ix))))
            pairs.append((n, b, e))
        vals = lambda env, t: {v: ([.21, -.13, .17][int(v[3])] * (0 if nug and int(v[3]) == nd - 1 else 1) if v.startswith("ust") else x) for v, x in env.items()}
    elif what == "momentum":
        for d in range(nd):
            pairs.append(("total of component %d" % d, sum_([p.mul(p.var(nm("G", x)), SS(d, x)) if nug else SS(d, x) for x in upts]), zero))
        vals = lambda env, t: env
    elif what == "energy":
        u = lambda d, ix: p.var(nm("ust%d" % d, ix))
        sh = lambda ix, d, s: tuple(x + (s if k == d else 0) for k, x in enumerate(ix))
        T = [p.mul(u(d, x), SS(d, x)) for d in range(nd) for x in upts]; D = []
        cmp_ = "compact" in c.name
        if not cmp_:
            g = lambda d, e, x: p.div(p.sub(u(d, sh(x, e, 1)), u(d, sh(x, e, -1))), p.mul(n2, dx[e]))
            for x in upts:
                q2 = []
                for d in range(nd):
                    for e in range(nd): t = p.add(g(d, e, x), g(e, d, x)); q2.append(p.mul(t, t))
                q2 = sum_(q2)
                D.append(p.mul(p.var("eta") if "dns" in c.name else visc(p, q2, dx, nd), q2))
        else:
            eta = p.var("eta")
            for x in upts:
                for d in range(nd):
                    t = p.div(p.mul(n2, p.sub(u(d, sh(x, d, 1)), u(d, x))), dx[d]); D.append(p.mul(eta, p.mul(t, t)))
                    for e in range(d):
                        def gr(a, b):   # derivative of component a along b at the corner x + 1/2
                            y = sh(x, a, 1); return p.div(p.add(p.sub(u(a, sh(x, b, 1)), u(a, x)), p.sub(u(a, sh(y, b, 1)), u(a, y))), p.mul(n2, dx[b]))
                        t = p.add(gr(d, e), gr(e, d)); D.append(p.mul(p.mul(n2, eta), p.mul(t, t)))
        pairs = [("work", p.subst([sum_(T)], z)[0], p.neg(sum_(D)))]
        vals = lambda env, t: env
    elif what == "quadratic":
        mid = [2.5] * nd
        def uq(d, ix):
            t = p.var("a%d" % d); X = [p.mul(p.const(x - m), dx[k]) for k, (x, m) in enumerate(zip(ix, mid))]
            for k in range(nd):
                t = p.add(t, p.mul(p.var("b%d%d" % (d, k)), X[k]))
                for l in range(k + 1): t = p.add(t, p.mul(p.var("c%d%d%d" % (d, k, l)), p.mul(X[k], X[l])))
            return t
        lap = lambda d: sum_([p.mul(n2, p.var("c%d%d%d" % (d, k, k))) for k in range(nd)])
        dd = lambda d: sum_([p.mul(n2, p.var("c%d%d%d" % (d, d, d)))] + [p.var("c%d%d%d" % (k, max(k, d), min(k, d))) for k in range(nd) if k != d])
        inner = [x for x in pts if all(2 <= i <= n - 4 for i, n in zip(x, N))]
        sel = [(d, x) for d in range(nd) for x in inner]
        B = p.subst([SS(d, x) for d, x in sel], lambda v: uq(int(v[3]), tuple(int(x) for x in IX.match(v).group(2).split(","))[:nd]) if v.startswith("ust") else z(v), simp=True)
        for (d, x), b in zip(sel, B): pairs.append(("str%d[%s]" % (d, x), b, p.mul(p.mul(n2, p.var("eta")), p.add(lap(d), dd(d)))))
        def vals(env, t):
            rng = np.random.default_rng(t); co = {}
            env = dict(env)
            def ev(j): return np.asarray(p.evaluate([j], lambda v: np.array([env[v] if v in env else co.setdefault(v, float(rng.uniform(-.1, .1)))]), 1)[j]).reshape(-1)[0]
            for v in list(env):
                if v.startswith("ust"): env[v] = float(ev(uq(int(v[3]), tuple(int(x) for x in IX.match(v).group(2).split(","))[:nd])))
            return env, co
    else:
        def f(v):
            m = IX.match(v)
            if what[0] == "s":
                if v in ("di", "dj"): return {"di": "dj", "dj": "di"}[v], 1
                if not m: return v, 1
                b = m.group(1); ix = m.group(2).split(","); ix[0], ix[1] = ix[1], ix[0]
                if b[:-1] in ("ust", "str") and b[-1] in "01": b = b[:-1] + "10"[int(b[-1])]
                return "%s[%s]" % (b, ",".join(ix)), 1
            if not m: return v, 1
            d = int(what[-1]); b = m.group(1); ix = [int(x) for x in m.group(2).split(",")]
            ix[d] = N[d] - 1 - ix[d]
            if cyc[d] and not b.startswith("str"): ix[d] %= N[d] - 1
            return "%s[%s]" % (b, ",".join(map(str, ix))), -1 if b in ("ust%d" % d, "str%d" % d) else 1
        def sub(v):
            if z(v) is not None: return z(v)
            m, s = f(v)
            return (p.var(m) if s == 1 else p.neg(p.var(m))) if (m, s) != (v, 1) else None
        names = sorted(S); a0 = p.subst([S[n] for n in names], z); a0 = dict(zip(names, a0)); B = p.subst([S[n] for n in names], sub)
        for n, b in zip(names, B): m, s = f(n); pairs.append((n, b, a0[m] if s == 1 else p.neg(a0[m])))
    def concrete(t):
        env = random_inputs(chk, r.witness, t)
        if key in ("mirror", "swap"):
            va = chk.run_double(c, env, **kw)[1]; vb = chk.run_double(c, {n: env[f(n)[0]] * f(n)[1] for n in env}, **kw)[1]
            ks = [n for n in vb if n.startswith("str")]
            return {n: vb[n] for n in ks}, {n: va[f(n)[0]] * f(n)[1] for n in ks}, env
        e = vals(env, t); co = {}
        if isinstance(e, tuple): e, co = e
        va = chk.run_double(c, e, **kw)[1]
        # the property's terms, with the values the real code gave
        look = dict(co); look.update(e); look.update({"U%d" % d: [.21, -.13, .17][d] for d in range(3)})
        out = {}; exp = {}
        def ev(j): return float(np.asarray(p.evaluate([j], lambda v: np.array([look.get(v, 0.)]), 1)[j]).reshape(-1)[0])
        if what in ("momentum", "energy"):
            for l, a, b in pairs:
                d = int(l[-1]) if what == "momentum" else 0
                sg = lambda d, x: va["str%d[%s]" % (d, ",".join(map(str, list(x) + [0] * (3 - nd))))]
                out[l] = sum((e[nm("G", x)] if nug else 1) * sg(d, x) for x in upts) if what == "momentum" else sum(e[nm("ust%d" % k, x)] * sg(k, x) for k in range(nd) for x in upts)
                exp[l] = ev(b)
            return out, exp, e
        for l, a, b in pairs: n = l if "(" not in l else "%s[%s]" % (l[:4], ",".join(map(str, list(eval(l[5:-1])) + [0] * (3 - nd)))); out[l] = va[n]; exp[l] = ev(b)
        return out, exp, e
    if key in ("mirror", "swap") and compare_sweep(chk, name, c, p, pairs, lin=600): return
    compare_nf(chk, name, c, p, pairs, concrete, SAY[key], {"kw": kw}, tol=1e-8, floor=1e-5, sweep=False, limit=10**6)
def visc(p, q2, dx, nd):
    """(c d)^2 |D|, |D|^2 = D_ij D_ij / 2, d the mean grid length (sum / 3)"""
    s = dx[0]
    for x in dx[1:]: s = p.add(s, x)
    l = p.mul(p.var("smg_c"), p.div(s, p.const(3)))
    return p.mul(p.mul(l, l), p.mk("sqrt", p.div(q2, p.const(2))))
def body(chk):
    L = cases(chk.tier)
    ok = {c.name for c in chk.usable(L)}; schemas(chk)
    chk.each([(c, w) for c in L if c.name in ok for w in parts(c, chk.tier == "quick")], one)
    chk.bounds.append("grids 4x5 / 5x5 / 6x6 / 4x4x4 / 6x6x6, one evaluation of the subgrid-scale forcing; velocities, densities, viscosity, coefficients and grid lengths symbolic, arithmetic over the reals")
    return "the forcing of the subgrid-scale model is executed symbolically for an arbitrary velocity field; z3 decides the identities (normal forms with lemmas, sweeping)"
if __name__ == "__main__": main(body)
