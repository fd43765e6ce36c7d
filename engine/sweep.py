"""Equality over the reals by sweeping: values of all nodes at sample points suggest which nodes are equal up to a factor
(a rational number times powers of given positive symbols); every suggestion is decided by z3 on the nodes' definitions in terms of nodes
already known to be equal (cut points); queries are cached up to renaming.  Sound: nothing is merged without a proof."""
from fractions import Fraction
import numpy as np, z3, time
from vlib import ratio
UN = {"neg", "abs"}
class Sweep:
    def __init__(self, chk, pool, roots, env, scales=(), positive=lambda n: n.startswith(("G[", "fp!")), exps=(0, 1, -1, 2, -2, 3, -3), extra=lambda n: None, samples=64, tmo=2000, lin=150):
        """env(name) -> samples ; scales: names of positive variables whose powers (exps) may be factors"""
        self.chk, self.p, self.tmo, self.lin = chk, pool, tmo, lin
        self.scale = list(scales)[:1]; self.exps = exps if self.scale else (0,)
        self.positive = positive
        self.rep = {}            # node -> (Fraction, exponent, representative)
        self.sign = {}           # representative -> 1 (positive), 0 (non-negative), None
        self.lf = {}; self.bylf = {}; self.bysig = {}; self.struct = {}; self.mag = {}
        self.roots = {}; self.cache = {}; self.tried = 0; self.proved = 0; self.n = samples
        np.seterr(all='ignore')
        self.val = pool.evaluate(roots, env, samples)
        self.ok = True
        order = sorted(self.val)
        sc = [np.asarray(env(s)) for s in self.scale]
        self.pw = {e: (sc[0] ** e if sc else 1.0) for e in self.exps}
        for j in order:
            if not pool.is_bool(j): self.visit(j)
    # --- signatures
    def sigs(self, v):
        for e in self.exps:
            w = v / self.pw[e]
            f = np.isfinite(w); i = int(np.argmax((np.abs(w) > 0) & f))
            if w[i] == 0 or not f[i]: continue
            r = np.where(f, w / w[i], 1e308)
            # ratios to the first non-zero sample, rounded; two groups of samples, in case one is near a rounding boundary
            yield e, w[i], (i,) + tuple(float("%.5g" % x) for x in r[:14])
            yield e, w[i], (i, 1) + tuple(float("%.5g" % x) for x in r[14:28])
    def visit(self, j):
        p = self.p; o = p.op[j]
        v = np.broadcast_to(np.asarray(self.val[j], float), (self.n,))
        self.sg(j); self.mag[j] = np.abs(v)
        if o == "const":
            c = ratio(p.k[j])
            if c == 0: self.rep[j] = (Fraction(0), 0, -1); return
            self.rep[j] = (c, 0, -1); return      # -1: the number one
        if o == "var" and p.k[j] in self.scale: self.rep[j] = (Fraction(1), 1, -1); return
        fin = np.isfinite(v)
        if not np.any(fin): self.rep[j] = (Fraction(1), 0, j); return
        if self.linear(j): return
        if o == "var": 
            self.rep[j] = (Fraction(1), 0, j); self.add(j, v); return
        mag = self.mag
        if o in ("+", "-", "neg"): mag[j] = np.maximum(sum(mag[x] for x in p.kids(j)), np.abs(v)); v = self.val[j] = np.where((np.abs(v) <= 1e-12 * mag[j]) & (np.abs(v) < 1e300), 0., v)
        if not np.any(v):
            if self.prove(j, (Fraction(0), 0, -1)): self.rep[j] = (Fraction(0), 0, -1)
            else: self.rep[j] = (Fraction(1), 0, j)
            return
        for e in self.exps:
            w = v / self.pw[e]
            if not np.all(fin): break
            if np.max(np.abs(w - w[0])) <= 1e-12 * abs(w[0]):
                c = Fraction(float(w[0])).limit_denominator(10000)
                if abs(float(c) - w[0]) <= 1e-12 * abs(w[0]) and self.prove(j, (c, e, -1)): self.rep[j] = (c, e, -1); return
        if o == "sqrt":
            # sqrt(q g^2e x) = sqrt(q) g^e sqrt(x)
            q, e, r = self.rep[p.kids(j)[0]]
            n, d = (int(round(abs(t) ** .5)) for t in (q.numerator, q.denominator))
            if r != -1 and q > 0 and e % 2 == 0 and n * n == q.numerator and d * d == q.denominator:
                c, f, k = Fraction(n, d), e // 2, self.roots.setdefault(r, None)
                if k is None: self.roots[r] = (c, f, j)
                elif self.rootlemma(): self.rep[j] = (c / k[0], f - k[1], k[2]); return
        sk = self.skey(j)
        for r in self.struct.get(sk, ())[:6]:
            m = self.factor(v, r, fin)
            if m and self.prove(j, m): self.rep[j] = m; return
        self.struct.setdefault(sk, []).append(j)
        for e, w0, s in self.sigs(v):
            tries = 0
            for r, rw0 in self.bysig.get(s, ())[:80]:
                q = Fraction(w0 / rw0).limit_denominator(4096)
                if q == 0 or abs(float(q) - w0 / rw0) > 1e-8 * abs(w0 / rw0): continue
                d = np.abs(v - float(q) * self.pw[e] * self.val[r])[fin]
                if not np.all(d <= 1e-7 * np.abs(v[fin]) + 1e-12): continue
                tries += 1
                if tries > 5: break
                if self.prove(j, (q, e, r)):
                    self.rep[j] = (q, e, r); return
        self.rep[j] = (Fraction(1), 0, j); self.add(j, v)
    # --- linear combinations
    def linear(self, j):
        """sums, differences and multiples of representatives as linear forms over nodes that are not linear"""
        p = self.p; o = p.op[j]; ks = p.kids(j)
        if o not in ("+", "-", "neg", "*", "/"): return False
        R = [self.rep[x] for x in ks]
        def form(m, s=Fraction(1), de=0):
            q, e, r = m
            if q == 0: return {}
            L = self.lf.get(r) or {(r, 0): Fraction(1)}
            return {(a, f + e + de): c * q * s for (a, f), c in L.items()}
        if o in "*/":
            # one factor is a number times a power of the scale
            if R[1][2] == -1 and (o == "*" or R[1][0] != 0): q, e = (R[1][0], R[1][1]) if o == "*" else (1 / R[1][0], -R[1][1]); T = [form(R[0], q, e)]
            elif o == "*" and R[0][2] == -1: T = [form(R[1], R[0][0], R[0][1])]
            else: return False
        elif o == "neg": T = [form(R[0], Fraction(-1))]
        else: T = [form(R[0]), form(R[1], Fraction(-1 if o == "-" else 1))]
        L = {}
        for t in T:
            for k, c in t.items():
                x = L.get(k, 0) + c
                if x: L[k] = x
                else: L.pop(k, None)
        if len(L) > self.lin or sum(map(len, T)) > 2 * self.lin: return False
        if not self.linlemma(T, L): return False
        if not L: self.rep[j] = (Fraction(0), 0, -1); return True
        (a0, e0), c0 = min(L.items(), key=lambda t: t[0])
        if len(L) == 1: self.rep[j] = (c0, e0, a0); return True
        N = frozenset((a, e - e0, c / c0) for (a, e), c in L.items())
        h = self.bylf.get(N)
        if h is not None: q, e, r = h; self.rep[j] = (c0 / q, e0 - e, r); return True
        self.bylf[N] = (c0, e0, j); self.lf[j] = L
        return False
    def linlemma(self, T, L):
        if len(T) == 1 and len(T[0]) == len(L): return True     # copied term by term
        ren = {}; sh = tuple(tuple((ren.setdefault(a, len(ren)), e, c) for (a, e), c in X.items()) for X in T + [L])
        if sh not in self.cache:
            lo = min([e for X in sh for _, e, _ in X], default=0); g = z3.Real("g")
            def ex(X): return z3.Sum([z3.RealVal(c) * z3.Real("x%d" % a) * (g ** (e - lo) if e > lo else 1) for a, e, c in X] + [z3.RealVal(0)])
            s = z3.Then(z3.With("simplify", som=True), "smt").solver(); s.set("timeout", self.tmo)
            s.add(z3.Sum([ex(X) for X in sh[:-1]]) != ex(sh[-1])); t0 = time.time(); r = s.check()
            self.chk.queries += 1; self.chk.unsat += r == z3.unsat; self.chk.solver_s += time.time() - t0; self.proved += r == z3.unsat
            self.cache[sh] = r == z3.unsat
        return self.cache[sh]
    def rootlemma(self):
        if "root" not in self.cache:
            g, x, a, b, q, w = z3.Reals("g x a b q w"); t0 = time.time()
            s = z3.Solver(); s.set("timeout", 20000)
            s.add(g > 0, w > 0, q == w * w, x >= 0, a >= 0, b >= 0, a * a == x, b * b == q * (g * g) * x, b != w * g * a)
            r = s.check(); self.chk.queries += 1; self.chk.unsat += r == z3.unsat; self.chk.solver_s += time.time() - t0
            self.cache["root"] = r == z3.unsat
        return self.cache["root"]
    def skey(self, j):
        """operation and classes of the arguments"""
        p = self.p
        def k(x):
            if p.is_bool(x): return (p.op[x],) + tuple(k(y) for y in p.kids(x))
            q, e, r = self.rep[x]
            return ("c", q) if r == -1 else r
        ks = [k(x) for x in p.kids(j)]
        if p.op[j] in ("+", "*", "min", "max"): ks.sort(key=repr)
        return (p.op[j],) + tuple(ks)
    def factor(self, v, r, fin):
        w = np.broadcast_to(np.asarray(self.val[r], float), (self.n,))
        for e in self.exps:
            x = w * self.pw[e]; i = int(np.argmax((np.abs(x) > 0) & fin & np.isfinite(x)))
            if not np.isfinite(x[i]) or x[i] == 0 or not fin[i]: return None
            q = Fraction(v[i] / x[i]).limit_denominator(4096)
            if q == 0: continue
            if np.all(np.abs(v - float(q) * x)[fin] <= 1e-7 * np.abs(v[fin]) + 1e-12): return (q, e, r)
        return None
    def add(self, j, v):
        for e, w0, s in self.sigs(v):
            if e == 0: self.bysig.setdefault(s, []).append((j, w0))
    # --- simple sign facts
    def sg(self, j):
        p = self.p; o = p.op[j]; k = [self.sign.get(x) for x in p.kids(j)]
        s = None
        if o == "const": s = 1 if p.k[j] > 0 else 0 if p.k[j] == 0 else None
        elif o == "var": s = 1 if self.positive(p.k[j]) or p.k[j] in self.scale else None
        elif o in ("+",): s = None if None in k else max(k)
        elif o in ("*", "/"): s = None if None in k else min(k)
        elif o == "abs": s = 1 if k[0] == 1 else 0
        elif o == "max": s = max([x for x in k if x is not None], default=None)
        elif o == "min": s = None if None in k else min(k)
        elif o == "ite": s = None if None in k[1:] else min(k[1:])
        self.sign[j] = s
    # --- local proofs
    def expand(self, j, leaves, memo, build):
        """definition of node j in terms of the representatives in leaves; build(op, args) makes the term"""
        st = [j]; p = self.p
        while st:
            x = st[-1]
            if x in memo: st.pop(); continue
            if x != j and x in self.rep:
                q, e, r = self.rep[x]
                if r == -1: memo[x] = ("c", q, e); st.pop(); continue
                if r in leaves or r == x and x in leaves:
                    memo[x] = ("m", q, e, ("l", r)); st.pop(); continue
                if r != x:
                    if r in memo: memo[x] = ("m", q, e, memo[r]); st.pop(); continue
                    st.append(r); continue
            elif x == j and x in leaves: memo[x] = ("l", x); st.pop(); continue
            ks = [k for k in p.kids(x)]
            todo = [k for k in ks if k not in memo]
            if todo: st.extend(todo); continue
            st.pop()
            o = p.op[x]
            memo[x] = ("l", x) if o == "var" else ("c", ratio(p.k[x]), 0) if o == "const" else ("o", o) + tuple(memo[k] for k in ks)
        return memo[j]
    def below(self, nodes):
        """representatives directly below the definitions of the given nodes"""
        out = set(); p = self.p
        st = [k for x in nodes for k in p.kids(x)]
        while st:
            x = st.pop()
            if p.is_bool(x): st.extend(p.kids(x)); continue
            r = self.rep[x][2]
            if r != -1: out.add(r)
        return out
    def prove(self, j, m):
        q, e, r = m
        p = self.p
        A = {j} if p.op[j] != "var" else set(); B = {r} if r != -1 and p.op[r] != "var" else set()
        expanded = set(A | B); la = self.below(A); lb = self.below(B) if B else ({r} if r != -1 else set())
        for rnd in range(7):
            if r in la and B: lb = {r}; expanded.discard(r)
            leaves = la | lb
            lv = leaves - (expanded - {r} if r in la or not B else expanded)
            ta = self.expand(j, lv, {}, None); tb = ("m", q, e, self.expand(r, lv, {}, None) if r not in lv else ("l", r)) if r != -1 else ("c", q, e)
            res = self.ask(ta, tb)
            if res: return True
            # deeper: leaves of one side only first
            d = {x for x in (la ^ lb) if p.op[x] != "var" and x in self.rep}
            if not d: d = {x for x in leaves if p.op[x] != "var"}
            d.discard(r)
            if not d or len(leaves) > 40: return False
            lin = {x for x in d if p.op[x] in ("+", "-", "neg", "min", "max")}
            d = lin or ({max(d)} if rnd < 4 else d)
            for x in d:
                expanded.add(x); nb = self.below([x])
                if x in la: la = (la - {x}) | nb
                if x in lb: lb = (lb - {x}) | nb
        return False
    def ask(self, ta, tb):
        ren = {}
        def sh(t):
            if t[0] == "l":
                i = ren.setdefault(t[1], len(ren)); return "x%d" % i
            if t[0] == "c": return "k%s^%d" % (t[1], t[2])
            if t[0] == "m":
                s = sh(t[3]); return s if t[1] == 1 and t[2] == 0 else "(m%s^%d %s)" % (t[1], t[2], s)
            return "(%s %s)" % (t[1], " ".join(sh(x) for x in t[2:]))
        sa = sh(ta); sb = sh(tb)
        if sa == sb: return True
        if len(sa) + len(sb) > 6000: return False
        sg = tuple(self.sign.get(x) for x in ren)
        key = (sa, sb, sg)
        c = self.cache.get(key)
        if c is None: c = self.cache[key] = self.solve(ta, tb, ren, sg)
        return c
    def solve(self, ta, tb, ren, sg):
        n = len(ren); rng = np.random.default_rng(12345)
        # cheap refutation by evaluation at arbitrary leaf values
        vals = [rng.normal(size=40) * (rng.integers(0, 5, 40) > 0 if s is None else 1) for s in sg]
        vals = [np.abs(v) + (0.01 if s == 1 else 0) if s is not None else v for v, s in zip(vals, sg)]
        g = np.abs(rng.normal(size=40)) + .1
        def ev(t):
            if t[0] == "l": return vals[ren[t[1]]]
            if t[0] == "c": return float(t[1]) * g ** t[2]
            if t[0] == "m": return float(t[1]) * g ** t[2] * ev(t[3])
            o = t[1]; a = [ev(x) for x in t[2:]]
            return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "/": lambda: a[0] / a[1], "neg": lambda: -a[0], "abs": lambda: np.abs(a[0]), "min": lambda: np.minimum(*a), "max": lambda: np.maximum(*a),
              "ite": lambda: np.where(*a), "<": lambda: a[0] < a[1], "<=": lambda: a[0] <= a[1], "=": lambda: a[0] == a[1], "!=": lambda: np.full(40, True), "and": lambda: a[0] & a[1], "or": lambda: a[0] | a[1], "not": lambda: ~a[0],
              "sqrt": lambda: np.sqrt(a[0]), "true": lambda: True, "false": lambda: False}.get(o, lambda: np.full(40, np.nan))()
        with np.errstate(all="ignore"):
            x, y = ev(ta), ev(tb)
            bad = np.isfinite(x) & np.isfinite(y) & (np.abs(x - y) > 1e-7 * (np.abs(x) + np.abs(y)) + 1e-9)
        if np.any(bad): return False
        self.tried += 1
        V = [z3.Real("x%d" % i) for i in range(n)]; G = z3.Real("g")
        side = [G > 0] + [v > 0 if s == 1 else v >= 0 for v, s in zip(V, sg) if s is not None]
        memo = {}
        def gp(e, t):
            for _ in range(abs(e)): t = t * G if e > 0 else t / G
            return t
        def term(t):
            k = id(t)
            if k in memo: return memo[k]
            if t[0] == "l": r = V[ren[t[1]]]
            elif t[0] == "c": r = gp(t[2], z3.RealVal(t[1]))
            elif t[0] == "m":
                r = term(t[3]); r = r if t[1] == 1 else z3.RealVal(t[1]) * r; r = gp(t[2], r)
            else:
                o = t[1]; a = [term(x) for x in t[2:]]
                if o == "/": side.append(a[1] != 0)
                if o == "!=" : side.append(a[0] != a[1])
                r = self.p._term.__func__(_One(o), 0, a, "real")
            memo[k] = r
            return r
        x, y = term(ta), term(tb)
        t0 = time.time(); r = z3.unknown
        for s in (z3.Solver(), z3.Then("simplify", "purify-arith", "elim-term-ite", "solve-eqs", "smt").solver()):
            s.set("timeout", self.tmo); s.add(*side); s.add(x != y)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            self.chk.queries += 1
            if r != z3.unknown: break
        self.chk.solver_s += time.time() - t0
        if r == z3.unsat: self.chk.unsat += 1; self.proved += 1; return True
        if r == z3.sat: self.chk.sat += 1
        return False
    def equal(self, a, b, sign=1):
        x, y = self.rep[a], self.rep[b]
        return x[2] == y[2] and x[1] == y[1] and x[0] == sign * y[0] or x[0] == 0 == y[0]
def sample_env(seed, n=64, signed=True, gc=1.):
    """samples that make limiters, switches and sign changes active"""
    rng = np.random.default_rng(seed); E = {}
    def env(v):
        if v not in E:
            if v.startswith("fp!huge"): x = np.full(n, 1e300)
            elif v.startswith("fp!"): x = np.zeros(n)
            elif v.startswith("gc"): x = gc * rng.uniform(-1, 1, n) * np.where(rng.uniform(size=n) < .5, .15, .5)
            elif v.startswith("psi"): x = rng.uniform(.5, 2, n) * np.where(rng.uniform(size=n) < .4, 10. ** rng.uniform(-3, 1, n), 1.) * (np.where(rng.uniform(size=n) < .3, -1, 1) if signed else 1)
            else: x = rng.uniform(.5, 2, n)
            E[v] = x
        return E[v]
    return env
class _One:
    """one operation, for Pool._term"""
    def __init__(self, o): self.op = [o]; self.k = [None]
