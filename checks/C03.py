#!/usr/bin/env python3-vt
"""C03: with the fct option the scheme creates no new extrema"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
import bnd
from bnd import Bnd, NN, POS, ANY, ZERO
def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())
class Geo:
    """cells, neighbours and faces of a configuration"""
    def __init__(self, c, kw):
        self.c, self.nd = c, c.nd
        self.n = [kw.get("n" + x, 1) for x in "xyz"[:c.nd]] + [1] * (3 - c.nd)
    def wrap(self, ix):
        return tuple(i % (n - 1) if d < self.nd and self.c.bc[d] == "c" else i for d, (i, n) in enumerate(zip(ix, self.n)))
    def cell(self, b, ix): return "%s[%d,%d,%d]" % ((b,) + self.wrap(ix))
    def stencil(self, ix):
        """the cell and those sharing a face with it, inside of the domain"""
        r = [tuple(ix)]
        for d in range(self.nd):
            for s in (-1, 1):
                j = list(ix); j[d] += s
                if self.c.bc[d] == "c" or 0 <= j[d] < self.n[d]: r.append(tuple(j))
        return r
    def faces(self, b, ix):
        """(name, direction, -1/+1 side) of the faces of a cell"""
        r = []
        for d in range(self.nd):
            for s in (-1, 0):
                j = list(ix); j[d] += s
                r.append((self.cell("%s%d" % (b, d), j), d, 1 if s == 0 else -1))
        return r
def cells(g, tier):
    A = itertools.product(*[range(n) for n in g.n])
    if tier != "quick" or g.nd == 1: return list(A)
    # one cell per position relative to the boundaries
    def pos(d): return [0, 1, 2][:1 + (g.n[d] > 2)] if d < g.nd and g.c.bc[d] == "c" else ([0, 1, g.n[d] - 1] if d < g.nd else [0])
    L = list(itertools.product(*[pos(d) for d in range(3)]))
    return L if len(L) < 6 else [x for i, x in enumerate(L) if i % 3 == hash_(g.c.name) % 3]
def limiter(chk, c):
    """one corrective pass from arbitrary antidiffusive velocities and an arbitrary field"""
    kw = {1: dict(nx=7), 2: dict(nx=6, ny=6), 3: dict(nx=6, ny=6, nz=6)}[c.nd]; kw.update(iters=2, nt=1)
    p = Pool(); r = chk.run(c, p, **kw); name = c.name + ": a limited corrective pass stays within the values around"
    if r.exc: chk.undec(name, r.exc); return
    g = Geo(c, kw); enc(chk, c); anysign = "abs" in c.optset or "iga" in c.optset
    def signs(v):
        if v.startswith(("fp!", "G[")): return POS
        if v.startswith(("psi", "mid")): return ANY if anysign else NN
        return ANY
    ncase = 0
    for ix in cells(g, chk.tier):
        out = r.out["psi0[%d,%d,%d]" % ix]
        st = g.stencil(ix); own = {g.cell(b, s) for b in ("psi0", "mid") for s in st} | {f for f, _, _ in g.faces("ac", ix)} | {g.cell("G", ix)}; need = {g.cell("mid", s) for s in st}
        memo = {}
        def cut(j):
            if j not in memo:
                V = {v for v in p.vars_of([j]) if not v.startswith("fp!")}
                memo[j] = p.op[j] != "var" and bool(V) and not (V <= own and V >= need)
            return memo[j]
        hi = lo = None
        for s in st:
            for b in ("psi0", "mid"):
                v = p.var(g.cell(b, s)); hi = v if hi is None else p.mk("max", hi, v); lo = v if lo is None else p.mk("min", lo, v)
        for side in (1, -1):
            def work(B):
                T = B.ev(out); M = B.ev(hi if side > 0 else lo)
                return B.prove(B.padd(B.padd({}, M, side), T, -side))
            why = None
            try: ok, n, case = bnd.cases(lambda cs: Bnd(chk, p, signs, cs, cut), work)
            except RuntimeError as e: ok, n, case, why = False, 0, None, repr(e)
            ncase += n
            if ok: continue
            # replay: concrete fields and velocities handed to the real limiter
            for k in range(40):
                rng = np.random.default_rng(chk.seed * 1000 + k)
                env = {v: (float(rng.uniform(1, 2)) if v.startswith("G[") else float(rng.choice([0., .1, 1., 2.])) * (1 if not anysign else float(rng.choice([-1, 1]))) if v.startswith(("psi", "mid")) else float(rng.uniform(-1, 1)) / c.nd) for v in inputs_of(r.witness)}
                if k % 2:
                    for v in env:
                        if v.startswith("mid"): env[v] = env["psi0" + v[3:]]
                o = chk.run_double(c, env, **kw)[1]
                for q in itertools.product(*[range(n) for n in g.n]):
                    V = [env[g.cell(b, s)] for s in g.stencil(q) for b in ("psi0", "mid")]; x = o["psi0[%d,%d,%d]" % q]
                    if not (min(V) - 1e-9 <= x <= max(V) + 1e-9):
                        chk.violation(name, "cell %s becomes %.17g, values around it are within [%.17g, %.17g]" % (q, x, min(V), max(V)), {"cfg": c.code(), "harness": c.harness, "kw": kw, "inputs": env}); return
            chk.undec(name, "cell %s: %s not proven (%s)" % (ix, "upper bound" if side > 0 else "lower bound", why or case)); return
    chk.ok(name, "%d cells, %d sign cases" % (len(cells(g, chk.tier)), ncase))
def donor(chk, c):
    """the first pass in a non-divergent flow with no cell losing more than it holds"""
    kw = {1: dict(nx=5), 2: dict(nx=4, ny=5), 3: dict(nx=4, ny=4, nz=4)}[c.nd]; kw.update(iters=1, nt=1)
    p = Pool(); r = chk.run(c, p, **kw); name = c.name + ": the first pass in a non-divergent flow stays within the values around"
    if r.exc: chk.undec(name, r.exc); return
    g = Geo(c, kw); enc(chk, c)
    def signs(v):
        if v.startswith(("fp!", "G[")): return POS
        return ANY
    ncase = 0
    for ix in cells(g, chk.tier):
        if any(b == "r" and ix[d] in (0, g.n[d] - 1) for d, b in enumerate(c.bc)) : pass
        out = r.out["psi0[%d,%d,%d]" % ix]; st = g.stencil(ix); hi = lo = None
        for s in st:
            v = p.var(g.cell("psi0", s)); hi = v if hi is None else p.mk("max", hi, v); lo = v if lo is None else p.mk("min", lo, v)
        # velocities of the faces as the code sees them (walls: mirrored)
        div = None; outf = None; zero = p.const(0)
        for nm, d, s in g.faces("gc", ix):
            if c.bc[d] == "r" and (s < 0 and ix[d] == 0 or s > 0 and ix[d] == g.n[d] - 1):
                j = list(ix); j[d] += -1 if s > 0 else 0
                v = p.neg(p.var(g.cell("gc%d" % d, j)))
            else: v = p.var(nm)
            t = v if s > 0 else p.neg(v); div = t if div is None else p.add(div, t)
            o = p.mk("max", zero, t); outf = o if outf is None else p.add(outf, o)
        G = p.var(g.cell("G", ix)) if "nug" in c.optset else p.const(1)
        for side in (1, -1):
            def work(B):
                T = B.ev(out); M = B.ev(hi if side > 0 else lo); D = B.ev(div)
                H = [D, B.padd({}, D, -1), B.padd(B.ev(G), B.ev(outf), -1)]
                return B.prove(B.padd(B.padd({}, M, side), T, -side), H)
            why = None
            try: ok, n, case = bnd.cases(lambda cs: Bnd(chk, p, signs, cs), work)
            except RuntimeError as e: ok, n, case, why = False, 0, None, repr(e)
            ncase += n
            if ok: continue
            from C04 import potential
            f = potential(c, kw)
            for k in range(40):
                rng = np.random.default_rng(chk.seed * 1000 + k); pv = {}; env = {}
                for v in inputs_of(r.witness):
                    t = f(v)
                    env[v] = float(rng.uniform(1, 2)) if v.startswith("G[") else float(rng.uniform(-1, 1)) if t is None else sum(sg * pv.setdefault(nm, float(rng.uniform(-.08, .08))) for sg, nm in t)
                o = chk.run_double(c, env, **kw)[1]
                for q in itertools.product(*[range(n) for n in g.n]):
                    V = [env[g.cell("psi0", s)] for s in g.stencil(q)]; x = o["psi0[%d,%d,%d]" % q]
                    if not (min(V) - 1e-9 <= x <= max(V) + 1e-9):
                        chk.violation(name, "cell %s becomes %.17g, values around it are within [%.17g, %.17g]" % (q, x, min(V), max(V)), {"cfg": c.code(), "harness": c.harness, "kw": kw, "inputs": env}); return
            chk.undec(name, "cell %s: %s not proven (%s)" % (ix, "upper bound" if side > 0 else "lower bound", why or case)); return
    chk.ok(name, "%d cells, %d sign cases" % (len(cells(g, chk.tier)), ncase))
def sets(tier):
    A = lambda nd, o, b: cfgs.adv(nd, o, b, harness="fctp"); L = []
    for nd, bcs in ((1, ("c", "o")), (2, ("c", "r", "o", "c.o")), (3, ("c", "r.c.o"))):
        for b in bcs:
            for o in ("fct", "iga|fct", "fct|nug", "iga|fct|nug") + (("abs|fct",) if nd < 3 or tier != "quick" else ()):
                if tier == "quick" and nd > 1 and b != "c" and hash_(nd, o, b) % 2: continue
                L.append((limiter, A(nd, o, b)))
    for nd, bcs in ((1, ("c",)), (2, ("c", "r", "c.r")), (3, ("c", "c.r.c"))):
        for b in bcs:
            for o in ("fct", "fct|nug"): L.append((donor, cfgs.adv(nd, o, b)))
    return L
def run(chk, f, c): f(chk, c)
def body(chk):
    T = sets(chk.tier); ok = {c.name for c in chk.usable([c for f, c in T])}
    chk.each([t for t in T if t[1].name in ok], run)
    chk.bounds.append("the limiter from arbitrary (symbolic) antidiffusive velocities, intermediate field and G; the first pass from arbitrary non-divergent velocities with outflow of at most the content of the cell; cells at every position relative to the boundaries of small grids; arithmetic over the reals")
    return "output cells are terms over the inputs; signs are split into cases and z3 decides (linear real arithmetic over monomials, products of facts added) that no values exceed the bounds given by the cell and its face neighbours before the step and before the pass"
if __name__ == "__main__": main(body)
