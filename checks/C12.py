#!/usr/bin/env python3-vt
"""C12: order of accuracy of the advection step"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from series import *
from math import factorial
def expo(nd, n):
    return [a for a in itertools.product(range(n + 1), repeat=nd) if sum(a) <= n]
def pname(b, a): return b + "_" + "".join(map(str, a))
class Field:
    """polynomial in X = e * index with coefficients that are Polys"""
    def __init__(self, nd, d): self.nd, self.d = nd, {a: c for a, c in d.items() if c.d}
    @staticmethod
    def free(nd, b, n, only=None): return Field(nd, {a: Poly.v(pname(b, a)) for a in expo(nd, n) if only is None or only(a)})
    def mul(self, o, n):
        r = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                k = tuple(i + j for i, j in zip(a, b))
                if sum(k) <= n: r[k] = r.get(k, Poly()) + x * y
        return Field(self.nd, r)
    def add(self, o): 
        r = dict(self.d)
        for a, x in o.d.items(): r[a] = r.get(a, Poly()) + x
        return Field(self.nd, r)
    def diff(self, k):
        return Field(self.nd, {tuple(e - (q == k) for q, e in enumerate(a)): x.sc(a[k]) for a, x in self.d.items() if a[k]})
    def sc(self, k): return Field(self.nd, {a: x.sc(k) for a, x in self.d.items()})
    def inv(self, n):
        z = (0,) * self.nd; i0 = self.d[z].inv(); r = Field(self.nd, {z: i0}); h = Field(self.nd, {a: (x * i0).sc(-1) for a, x in self.d.items() if a != z})
        acc, t = r, r
        for _ in range(n): t = t.mul(h, n); acc = acc.add(t)
        return acc
    def sample(self, x, N):
        """series in e of the value at index position x (Fractions)"""
        c = [Poly() for _ in range(N + 1)]
        for a, v in self.d.items():
            k = sum(a)
            if k > N: continue
            f = Fraction(1)
            for xi, e in zip(x, a): f *= Fraction(xi) ** e
            c[k] = c[k] + v.sc(f)
        return Series(0, c, N)
def exact(nd, psi, u, G, N):
    """coefficients of the exact solution after one step at X = 0"""
    Gi = G.inv(N) if G else None; out = []; t = psi; z = (0,) * nd
    for k in range(N + 1):
        out.append(t.d.get(z, Poly()).sc(Fraction(1, factorial(k))))
        s = Field(nd, {})
        for d in range(nd): s = s.add(t.mul(u[d], N).diff(d).sc(-1))
        t = s.mul(Gi, N) if Gi else s
    return out
def one(chk, c, flow, N, iters, signs):
    r = 1 + (iters - 1) * (2 if {"tot", "div_3rd", "div_3rd_dt"} & c.optset else 1) + ("fot" in c.optset) # radius of the stencil
    n = 2 * r + 2; kw = {1: dict(nx=n), 2: dict(nx=n, ny=n), 3: dict(nx=n, ny=n, nz=n)}[c.nd]
    kw.update(iters=iters, nt=1); nd = c.nd
    name = "%s iters=%d: error of one step in %s flow is of order %d (%s)" % (c.name, iters, flow, N + 1, "".join("+" if s > 0 else "-" for s in signs))
    p = Pool(); r = chk.run(c, p, **kw)
    if r.exc: chk.undec(name, r.exc); return
    enc(chk, c)
    o = tuple((kw[q] - 1) // 2 for q in ("nx", "ny", "nz")[:nd]); per = [kw[q] - 1 for q in ("nx", "ny", "nz")[:nd]]
    node = r.out["psi0[%s]" % ",".join(map(str, o + (0,) * (3 - nd)))]
    z = (0,) * nd
    psi = Field.free(nd, "a", N)
    nug = "nug" in c.optset
    G = Field.free(nd, "g", N) if nug else None
    def u0(d, f): f.d[z] = f.d[z].sc(signs[d]); return f
    if flow == "constant": u = [u0(d, Field(nd, {z: Poly.v(pname("u%d" % d, z))})) for d in range(nd)]
    elif flow == "divergent": u = [u0(d, Field.free(nd, "u%d" % d, N)) for d in range(nd)]
    elif nd == 1: u = [u0(0, Field(1, {z: Poly.v("u0_0")}))]
    else:
        # discretely non-divergent: differences of a potential at the corners; handled below by sampling the potential
        u = None
    pos = {pname("a", z), pname("g", z)} | {pname("u%d" % d, z) for d in range(nd)}
    h = Fraction(1, 2)
    if u is None:
        u = [None] * nd
        pots = {}
        # psi_k potential for each pair of dimensions; u_d = sum of derivatives plus mean flow
        pairs = [(a, b) for a in range(nd) for b in range(a + 1, nd)]
        for a, b in pairs: pots[(a, b)] = Field.free(nd, "p%d%d" % (a, b), N + 1, lambda q: sum(q) >= 2)
        for d in range(nd): u[d] = Field(nd, {z: Poly.v(pname("u%d" % d, z)).sc(signs[d])})
        for (a, b), P in pots.items():
            u[a] = u[a].add(P.diff(b)); u[b] = u[b].add(P.diff(a).sc(-1))
        def face(d, x):
            s = Series(0, [Poly.v(pname("u%d" % d, z)).sc(signs[d])], BIG)
            E = Eval(chk, p, N + 2, pos)
            for (a, b), P in pots.items():
                if d not in (a, b): continue
                q = b if d == a else a; hi = list(x); lo = list(x); hi[q] += h; lo[q] -= h
                df = E.add(P.sample(hi, N + 1), P.sample(lo, N + 1), -1 if d == a else 1) if d == a else E.add(P.sample(lo, N + 1), P.sample(hi, N + 1), -1)
                s = E.add(s, Series(df.s - 1, df.c, df.n - 1))
            return s
    else:
        def face(d, x): return u[d].sample(x, N)
    def env(v):
        if v.startswith(("fp!eps", "fp!tiny")): return Series(0, [], BIG)
        m = IX.match(v); ix = [int(q) for q in m.group(2).split(",")][:nd]
        x = [Fraction(((i - q + w // 2) % w) - w // 2) for i, q, w in zip(ix, o, per)]
        b = m.group(1)
        if b == "psi0": return psi.sample(x, N)
        if b == "G": return G.sample(x, N)
        d = int(b[2:]); x[d] += h
        return face(d, x)
    want = exact(nd, psi, u, G, N)
    def forks(cons, depth):
        E = Eval(chk, p, N, pos, cons)
        try: return [(E, E.run([node], env)[0])]
        except Fork as f:
            if depth >= 7: raise RuntimeError("too many sign cases")
            t = E.z(f.poly); L = []
            for q in (t > 0, t < 0): L += forks(cons + [q], depth + 1)
            return L
    try: R = forks([], 0)
    except (NotMonomial, RuntimeError, ZeroDivisionError) as e: chk.undec(name, "not evaluated: %r" % e); return
    t0 = time.time()
    for E, s in R:
        if s.n < N: chk.undec(name, "accuracy of the expansion lost"); return
        for k in range(N + 1):
            D = s.at(k) - want[k]
            E.s.push(); E.s.add(*[z3.Real(a) > 0 for a in pos]); E.s.add(E.z(D) != 0); q = E.s.check()
            chk.queries += 1; chk.unsat += q == z3.unsat; chk.sat += q == z3.sat
            if q == z3.unsat: E.s.pop(); continue
            if q != z3.sat: chk.undec(name, "order %d not decided" % k); return
            m = E.s.model(); E.s.pop()
            # replay: the error of one step must shrink as e^(N+1); with a wrong coefficient it shrinks as e^k
            def val(n):
                w = m.eval(z3.Real(n), model_completion=False)
                try: w = float(w.as_fraction())
                except Exception: w = .37
                return w
            rep = replay(chk, c, kw, nd, N, k, o, per, psi, u, G, face, pos, r.witness)
            if rep is None: chk.undec(name, "coefficient of e^%d differs (%d terms), but the error on refinement does not show it" % (k, len(D.d))); return
            chk.violation(name, "coefficient of e^%d of the result differs from the exact solution's: error per step %.3g at e=%g, %.3g at e=%g (shrinks as e^%.2f, expected e^%d)" % ((k,) + rep[:5] + (N + 1,)), {"cfg": c.code(), "harness": c.harness, "kw": kw, "inputs": rep[5], "difference": str(dict(list(D.d.items())[:5]))}); return
    chk.solver_s += time.time() - t0
    chk.ok(name, "%d sign cases, coefficients up to e^%d" % (len(R), N))
def replay(chk, c, kw, nd, N, k, o, per, psi, u, G, face, pos, witness):
    """the real code (double) on a smooth field at two resolutions"""
    best = None
    for t in range(6):
        rng = np.random.default_rng(chk.seed * 13 + t); P = {}
        def pv(n):
            if n not in P: P[n] = float(rng.uniform(.5, 1) if n.startswith(("a_", "g_")) and set(n.split("_")[1]) == {"0"} else rng.uniform(.1, .3) if n.startswith("u") and set(n.split("_")[1]) == {"0"} else rng.uniform(-.2, .2) if n[0] in "up" else rng.uniform(-1, 1) * .5)
            return P[n]
        def ev(q): return sum(float(x) * np.prod([pv(a) ** e for a, e in m]) for m, x in q.d.items())
        def ser(s, e): return sum(ev(x) * e ** (s.s + i) for i, x in enumerate(s.c))
        err = []; ens = []
        for e in (.04, .02):
            env = {}
            for v in witness:
                mt = IX.match(v)
                if not mt or v.startswith("fp!"): continue
                ix = [int(q) for q in mt.group(2).split(",")][:nd]
                x = [Fraction(((i - q + w // 2) % w) - w // 2) for i, q, w in zip(ix, o, per)]
                b = mt.group(1)
                if b == "psi0": s = psi.sample(x, N)
                elif b == "G": s = G.sample(x, N)
                elif b.startswith("gc"): d = int(b[2:]); x[d] += Fraction(1, 2); s = face(d, x)
                else: continue
                env[v] = ser(s, e)
            out = chk.run_double(c, env, **kw)[1]["psi0[%s]" % ",".join(map(str, o + (0,) * (3 - nd)))]
            ex = sum(ev(x) * e ** i for i, x in enumerate(exact(nd, psi, u, G, N + 1)))
            err.append(abs(out - ex)); ens.append(env)
        if err[1] > 1e-14 and err[0] > 1e-14:
            sl = math.log(err[0] / err[1]) / math.log(2)
            if sl < N + .6: return err[0], .04, err[1], .02, sl, ens[0]
    return None
def cases(tier):
    A = cfgs.adv; L = []
    def add(o, flow, N, iters=2, nds=(1, 2, 3), allsigns=True):
        for nd in nds:
            if "fot" in o and nd != 2 or nd == 1 and "_dt" in o: continue
            if flow == "non-divergent" and nd == 1: continue
            sg = list(itertools.product((1, -1), repeat=nd))
            if tier == "quick": sg = {1: sg, 2: [(1, 1), (1, -1)], 3: [(1, -1, 1)]}[nd]
            for s in sg: L.append((A(nd, o, "c"), flow, N, iters, s))
    add("0", "divergent", 1, 1)
    add("0", "constant", 2); add("0", "constant", 2, 3, (1,)); add("0", "non-divergent", 2); add("iga", "constant", 2); add("iga", "non-divergent", 2, nds=(2,) if tier == "quick" else (2, 3))
    add("abs", "non-divergent", 2, nds=(2,)); add("nug", "constant", 2, nds=(1, 2)); add("nug", "non-divergent", 2, nds=(2,))
    add("dfl", "divergent", 2); add("dfl|nug", "divergent", 2, nds=(1, 2)); add("iga|dfl", "divergent", 2); add("iga|dfl|nug", "divergent", 2, nds=(1, 2))
    add("div_2nd", "divergent", 2); add("iga|div_2nd", "divergent", 2); add("iga|div_2nd|nug", "divergent", 2, nds=(1, 2)); add("div_2nd|nug", "divergent", 2, nds=(1, 2))
    add("tot", "constant", 3, 3, (1, 2)); add("iga|tot", "constant", 3)
    add("iga|div_2nd|div_3rd", "divergent", 3, nds=(1, 2)); add("iga|div_2nd|div_3rd", "constant", 3); add("div_2nd|div_3rd", "constant", 3, nds=(1, 2)); add("div_2nd|div_3rd", "divergent", 3, nds=(1,))
    add("iga|tot|fot", "constant", 4)
    return L
def body(chk):
    T = cases(chk.tier)
    ok = {c.name for c in chk.usable(list({t[0].name: t[0] for t in T}.values()))}
    chk.each([t for t in T if t[0].name in ok], one)
    chk.bounds.append("one step, 2 (once 3) iterations, one interior cell; polynomial fields, velocities and G of degree up to the order with arbitrary coefficients; arithmetic over the reals, regularising epsilon taken as 0; velocities that do not vanish and do not change in time")
    return "the step is executed symbolically, its expression expanded in powers of the grid length with symbolic Taylor coefficients of the fields (signs decided by z3), and z3 decides that no coefficients exist for which it differs from the exact solution below the stated order"
if __name__ == "__main__": main(body)
