"""Reference time loops for equation systems, written from the documentation: the homogeneous advection operator is the real code
(executed symbolically once, its inputs substituted), everything around it is composed here with exact operations."""
from common import *
class Ref:
    def __init__(self, chk, pool, c, kw, witness):
        self.p, self.c, self.kw, self.nd = pool, c, kw, c.nd
        self.n = [kw.get("nx", 1), kw.get("ny", 1) if c.nd > 1 else 1, kw.get("nz", 1) if c.nd > 2 else 1]
        self.cyc = [d < c.nd and c.bc[d] == "c" for d in range(3)]
        self.nug = "nug" in c.optset
        a = cfgs.adv(c.nd, c.opts, ".".join(c.bc)); self.adv_cfg = a
        self.hom = chk.run(a, pool, **{k: v for k, v in kw.items() if k in ("nx", "ny", "nz", "iters")}, nt=1)
        self.homnames = sorted(self.hom.out)
        self.pts = [(i, j, k) for i in range(self.n[0]) for j in range(self.n[1]) for k in range(self.n[2])]
    def wrap(self, ix): return tuple(i % (self.n[d] - 1) if self.cyc[d] else i for d, i in enumerate(ix))
    def name(self, b, ix): return "%s[%s]" % (b, ",".join(map(str, self.wrap(ix))))
    def inputs(self, b): return {ix: self.p.var(self.name(b, ix)) for ix in self.pts}
    def at(self, f, ix):
        """value at a point, one beyond the edge included (cyclic: the other end; wall: mirror image)"""
        ix = list(self.wrap(ix))
        for d in range(self.nd):
            if not self.cyc[d]:
                if ix[d] < 0: ix[d] = -ix[d]
                if ix[d] >= self.n[d]: ix[d] = 2 * (self.n[d] - 1) - ix[d]
        return f[tuple(ix)]
    def adv(self, f, gc=None):
        """one homogeneous step of field f; gc(d, ix): Courant number at the face ix + 1/2 in d (None: inputs)"""
        p = self.p
        def sub(v):
            m = IX.match(v)
            if not m: return None
            ix = tuple(int(x) for x in m.group(2).split(","))
            if m.group(1) == "psi0": return f[ix]
            if m.group(1).startswith("gc") and gc: return gc(int(m.group(1)[2:]), ix)
            return None
        r = p.subst([self.hom.out[n] for n in self.homnames], sub)
        return {tuple(int(x) for x in IX.match(n).group(2).split(",")): x for n, x in zip(self.homnames, r)}
    # --- field arithmetic
    def ew(self, op, *fs): return {ix: getattr(self.p, op)(*[f[ix] if isinstance(f, dict) else f for f in fs]) for ix in self.pts}
    def axpy(self, f, a, g): return {ix: self.p.add(f[ix], self.p.mul(a, g[ix])) for ix in self.pts}
    def rhs(self, st, e):
        """the test right-hand side of the harness"""
        p = self.p; a, b = p.var("ra%d" % e), p.var("rb%d" % e); nx = (e + 1) % len(st)
        def one(ix):
            r = tuple(x + (d == 0) for d, x in enumerate(ix)); l = tuple(x - (d == 0) for d, x in enumerate(ix))
            return p.add(p.mul(a, st[nx][ix]), p.mul(b, p.sub(self.at(st[e], r), self.at(st[e], l))))
        return {ix: one(ix) for ix in self.pts}
    def ghost(self, f, ix):
        """value of a pressure-like field one beyond the edge (wall: linear extrapolation)"""
        ix = list(self.wrap(ix)); a = list(ix); b = list(ix); out = False
        for d in range(self.nd):
            if not self.cyc[d] and not 0 <= ix[d] < self.n[d]:
                out = True; a[d] = 0 if ix[d] < 0 else self.n[d] - 1; b[d] = -ix[d] if ix[d] < 0 else 2 * (self.n[d] - 1) - ix[d]
        if not out: return f[tuple(ix)]
        p = self.p; return p.sub(p.mul(p.const(2), f[tuple(a)]), f[tuple(b)])
    def ddx(self, f, d, how=None):
        """centred difference in direction d"""
        p = self.p; how = how or self.at; dx = p.var("d" + "ijk"[d])
        def one(ix):
            r = tuple(x + (k == d) for k, x in enumerate(ix)); l = tuple(x - (k == d) for k, x in enumerate(ix))
            return p.div(p.div(p.sub(how(f, r), how(f, l)), dx), p.const(2))
        return {ix: one(ix) for ix in self.pts}
    def walls(self, u):
        """no flow through walls"""
        return [{ix: self.p.const(0) if any(k == d and not self.cyc[k] and ix[k] in (0, self.n[k] - 1) for k in range(self.nd)) else f[ix] for ix in self.pts} if d < self.nd else f for d, f in enumerate(u)]
    def swe(self, st, e, at=0):
        """-g h dh/dx"""
        p = self.p; h = self.nd
        if e >= h: return None
        gr = self.ddx(st[h], e); return {ix: p.neg(p.mul(p.mul(p.var("g"), st[h][ix]), gr[ix])) for ix in self.pts}
    def bous(self, filt=False, absorb=True):
        """buoyancy and relaxation of the potential temperature to that of the environment (state: full temperature)"""
        p = self.p; te = self.inputs("tht_e"); al = self.inputs("tht_abs") if absorb else None; half = p.div(p.var("dt"), p.const(2)); nd = self.nd; memo = {}
        def new(st, at):                # temperature the forcing acts with: given, or at the end of the step (implicit relaxation)
            if at == 0 or not absorb: return st[nd]
            return {ix: p.div(p.add(st[nd][ix], p.mul(p.mul(half, al[ix]), te[ix])), p.add(p.const(1), p.mul(half, al[ix]))) for ix in self.pts}
        def f(st, e, at=0):
            th = new(st, at)
            if e == nd: return {ix: p.neg(p.mul(al[ix], p.sub(th[ix], te[ix]))) for ix in self.pts} if absorb else {ix: p.const(0) for ix in self.pts}
            if e != nd - 1: return {ix: p.const(0) for ix in self.pts}
            b = {ix: p.div(p.mul(p.var("g"), p.sub(th[ix], te[ix])), p.var("Tht_ref")) for ix in self.pts}
            if not filt: return b
            s = lambda ix, k: tuple(x + k * (d == nd - 1) for d, x in enumerate(ix))
            return {ix: p.mul(p.const(.25), p.add(p.add(self.at(b, s(ix, 1)), p.mul(p.const(2), b[ix])), self.at(b, s(ix, -1)))) for ix in self.pts}
        return f
    def bous_impl(self, vab=None, absorb=True):
        """reference loop: state is the deviation of temperature from the environment; buoyancy, advection of the environmental profile,
        relaxations and pressure gradient are treated implicitly (trapezoidal rule)"""
        p = self.p; nd = self.nd; dt = p.var("dt"); half = p.div(dt, p.const(2)); one = p.const(1); gt = p.div(p.var("g"), p.var("Tht_ref"))
        te = self.inputs("tht_e"); dte = self.ddx(te, nd - 1); al = self.inputs("tht_abs") if absorb else {ix: p.const(0) for ix in self.pts}
        W = nd - 1; T = nd
        def buoy(st): return {ix: p.div(p.mul(gt, st[T][ix]), p.add(one, p.mul(half, al[ix]))) for ix in self.pts}
        def implicit(st, n):
            """solves w = w* + dt/2 (g/T0 tht - a_v (w - rel)) - dphi, tht = tht* + dt/2 (-w dtht_e - a tht), and the like for the horizontal components"""
            ph = self.inputs("phi%d" % n); gr = [self.ddx(ph, d, self.ghost) for d in range(nd)]
            va = self.inputs("vab") if vab == "impl" else None; rel = [self.inputs("rel%d" % d) for d in range(nd)] if va else None
            u = []
            for d in range(nd):
                def comp(ix):
                    x = st[d][ix]; den = one
                    if va: x = p.add(x, p.mul(p.mul(half, va[ix]), rel[d][ix])); den = p.add(one, p.mul(half, va[ix]))
                    if d == W: den = p.add(den, p.div(p.mul(p.mul(p.mul(half, half), gt), dte[ix]), p.add(one, p.mul(half, al[ix]))))
                    x = p.sub(x, gr[d][ix])
                    return p.div(x, den) if den != one else x
                u.append({ix: comp(ix) for ix in self.pts})
            u = self.walls(u)
            th = {ix: p.div(p.sub(st[T][ix], p.mul(p.mul(half, u[W][ix]), dte[ix])), p.add(one, p.mul(half, al[ix]))) for ix in self.pts}
            return u, th
        def force(st, e, at=0):
            if e == T: return {ix: p.neg(p.add(p.mul(st[W][ix], dte[ix]), p.mul(al[ix], st[T][ix]))) for ix in self.pts}
            if e == W: return {ix: p.mul(gt, st[T][ix]) for ix in self.pts}
            return {ix: p.const(0) for ix in self.pts}
        return force, (implicit, buoy)
    def loop(self, scheme, nt, norhs=(), vab=None, vel=False, den=None, eps=None, force=None, prs=False, coupled=None):
        """vel: the first nd fields are velocities (momenta, if den is the index of the density)"""
        p = self.p; dt = p.var("dt"); half = p.div(dt, p.const(2)); E = range(self.c.neq)
        dx = [p.var("d" + "ijk"[d]) for d in range(self.nd)]
        st = [self.inputs("psi%d" % e) for e in E]
        G = self.inputs("G") if self.nug else None
        force = force or (lambda s, e, at=0: self.rhs(s, e))
        if prs:
            ph = self.inputs("phi0"); st = self.walls([{ix: p.sub(st[d][ix], gr[ix]) for ix in self.pts} if d < self.nd else st[d] for d in E for gr in [self.ddx(ph, d, self.ghost) if d < self.nd else None]])
        R = {e: force(st, e, 0) for e in E if e not in norhs} if scheme == "trapez" else {}
        al = self.inputs("vab") if vab else None; rel = [self.inputs("rel%d" % d) for d in range(self.nd)] if vab else None
        U = range(self.nd)
        def pull(u, d): return {ix: p.neg(p.mul(al[ix], p.sub(u[ix], rel[d][ix]))) for ix in self.pts}
        T = [pull(st[d], d) for d in U] if vab == "impl" else None
        if prs:
            # pressure of the initial state: minus the kinetic energy
            K = {ix: p.const(0) for ix in self.pts}
            for d in U: K = {ix: p.sub(K[ix], p.mul(p.const(.5), p.mul(st[d][ix], st[d][ix]))) for ix in self.pts}
            gk = [self.ddx(K, d, self.ghost) for d in U]
            T = [{ix: p.sub(T[d][ix] if T else p.const(0), gk[d][ix]) for ix in self.pts} for d in U]
        prev = None
        def speed(d):
            if den is None: return st[d]
            def one(ix):
                q = p.div(st[d][ix], st[den][ix])
                return p.mk("ite", p.mk("<", p.const(eps), st[den][ix]), q, p.const(0)) if eps else q
            return {ix: one(ix) for ix in self.pts}
        for step in range(nt):
            gc = None
            if vel:
                now = [speed(d) for d in U]
                # linear extrapolation to the middle of the step (first step: the current state)
                mid = now if prev is None else [{ix: p.sub(p.mul(p.const(1.5), now[d][ix]), p.mul(p.const(.5), prev[d][ix])) for ix in self.pts} for d in U]
                if G: mid = [self.ew("mul", G, m) for m in mid]
                prev = now
                def gc(d, ix):
                    r = tuple(x + (k == d) for k, x in enumerate(ix))
                    return p.mul(p.div(dt, dx[d]), p.mul(p.const(.5), p.add(self.at(mid[d], ix), self.at(mid[d], r))))
            X = [pull(st[d], d) for d in U] if vab == "expl" else None
            if scheme == "euler_b":
                R = {e: force(st, e) for e in E if e not in norhs}
                st = [self.axpy(st[e], dt, R[e]) if e in R else st[e] for e in E]
            elif scheme == "euler_a": R = {e: force(st, e) for e in E if e not in norhs}
            else: st = [self.axpy(st[e], half, R[e]) if e in R else st[e] for e in E]
            if vab == "expl": st = [self.axpy(st[d], dt, X[d]) if d in U else st[d] for d in E]
            if T: st = [self.axpy(st[d], half, T[d]) if d in U else st[d] for d in E]
            st = [self.adv(f, gc) for f in st]
            if scheme == "euler_a": st = [self.axpy(st[e], dt, R[e]) if e in R else st[e] for e in E]
            elif scheme == "trapez" and not coupled:
                R = {e: force(st, e, 1) for e in E if e not in norhs}
                st = [self.axpy(st[e], half, R[e]) if e in R else st[e] for e in E]
            if coupled:
                zero = {ix: p.const(0) for ix in self.pts}; W = self.nd - 1
                # the part of the buoyancy that is known before the vertical velocity is
                b = coupled[1](st); st = [self.axpy(f, half, b) if d == W else f for d, f in enumerate(st)]
                new, th = coupled[0](st, step + 1)
                T = [{ix: p.div(p.sub(new[d][ix], st[d][ix]), half) for ix in self.pts} for d in U]; st = new + [th]
                R = {e: force(st, e, 0) if e == self.nd else b if e == W else zero for e in E}
            elif prs:
                # u = u* + dt/2 T(u) - grad(phi), solved for u
                ph = self.inputs("phi%d" % (step + 1)); gr = [self.ddx(ph, d, self.ghost) for d in U]
                def comp(d, ix):
                    x = st[d][ix]
                    if vab == "impl": x = p.add(x, p.mul(p.mul(half, al[ix]), rel[d][ix]))
                    x = p.sub(x, gr[d][ix])
                    return p.div(x, p.add(p.const(1), p.mul(half, al[ix]))) if vab == "impl" else x
                new = self.walls([{ix: comp(d, ix) for ix in self.pts} for d in U])
                T = [{ix: p.div(p.sub(new[d][ix], st[d][ix]), half) for ix in self.pts} for d in U]; st = new + st[self.nd:]
            elif vab == "impl":
                # u = u* + dt/2 T(u), solved for u
                new = [{ix: p.div(p.add(st[d][ix], p.mul(p.mul(half, al[ix]), rel[d][ix])), p.add(p.const(1), p.mul(half, al[ix]))) for ix in self.pts} for d in U]
                # T(u) = -alpha (u - relaxed) = (u - u*) / (dt/2)  (lemma, see body)
                T = [{ix: p.div(p.sub(new[d][ix], st[d][ix]), half) for ix in self.pts} for d in U]; st = new + st[self.nd:]
        return {"psi%d[%d,%d,%d]" % ((e,) + ix): st[e][ix] for e in E for ix in self.pts}
def reference(chk, c, kw, what, **loop):
    """run c for kw['nt'] steps and compare with the reference loop"""
    nt = kw["nt"]; name = "%s nt=%s: %s" % (c.name, nt, what)
    p = Pool(); r = chk.run(c, p, **kw)
    if r.exc: chk.undec(name, r.exc); return
    f = Ref(chk, p, c, kw, r.witness)
    if callable(loop.get("force")):
        q = loop["force"](f); loop["force"] = q
        if isinstance(q, tuple): loop["force"], loop["coupled"] = q
    o = f.loop(nt=int(nt), **loop); enc(chk, c)
    ns = sorted(r.out)
    def sub(v): return p.const(0) if v.startswith(("fp!eps", "fp!tiny")) else None
    a = p.subst([r.out[n] for n in ns], sub, simp=True); b = p.subst([o[n] for n in ns], sub, simp=True)
    prs = list(zip(ns, a, b))
    if compare_sweep(chk, name, c, p, prs, prefix=loop.get("env")): return
    def concrete(k):
        env = random_inputs(chk, r.witness, k)
        v = p.evaluate([o[n] for n in ns], lambda x: np.float64(dict(env, **{w: q for w, q in r.witness.items() if w.startswith("fp!")}).get(x, f.hom.witness.get(x, np.nan))), 1)
        return chk.run_double(c, env, **kw)[1], {n: float(v[o[n]]) for n in ns}, env
    compare_nf(chk, name, c, p, prs, concrete, what, {"kw": kw}, tol=1e-9, sweep=False)

def relax_lemma(chk):
    u, n, h, a, r = z3.Reals("u n h a r")
    if chk.solve([h > 0, a >= 0, n == (u + h * a * r) / (1 + h * a), z3.Or(n != u - h * a * (n - r), (n - u) / h != -a * (n - r))], 30.) != "unsat": raise RuntimeError("lemma not proven")
