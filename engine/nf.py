"""Equality over the reals by normal forms with lemmas.  Every DAG node is given a polynomial over atoms (atoms are
variables, reciprocals, |q|, max sets, sign selections, ...).  The step from the children's polynomials to the node's is
a lemma (with atoms as free variables) that z3 discharges; lemmas are cached up to renaming of atoms.  Two nodes with the
same polynomial are then equal for all inputs at which the denominators do not vanish.  What normalisation does not
equate is left to direct queries."""
from fractions import Fraction
import z3, time
from vlib import ratio
ONE = ()
class NF:
    def __init__(self, chk, pool, positive=lambda n: n.startswith(("G[", "fp!")), limit=24, verify=True, generic=False):
        self.generic = generic                # denominators that are compared with zero are not zero
        self.chk, self.p, self.positive, self.limit = chk, pool, positive, limit
        self.atoms = {}; self.info = []       # key -> id ; id -> key
        self.posat = set()
        self.of = {}                          # node -> poly id
        self.polys = []; self.pid = {}        # interned polynomials: id -> dict ; frozenset -> id
        self.bofn = {}
        self.verify = verify; self.lem = {}; self.failed = []
        self.subs = {}                        # node -> poly id (proven by other means)
    # --- atoms and polynomials
    def atom(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = self.atoms[key] = len(self.info); self.info.append(key)
            if key[0] == "var" and self.positive(key[1]) or key[0] == "abs": self.posat.add(i)
        return i
    def intern(self, d):
        k = frozenset(d.items())
        i = self.pid.get(k)
        if i is None: i = self.pid[k] = len(self.polys); self.polys.append(d)
        return i
    @staticmethod
    def const(c): return {ONE: Fraction(c)} if c != 0 else {}
    @staticmethod
    def cv(P): return 0 if not P else P[ONE] if len(P) == 1 and ONE in P else None
    def add(self, P, Q, c=1):
        R = dict(P)
        for m, x in Q.items():
            y = R.get(m, 0) + c * x
            if y == 0: R.pop(m, None)
            else: R[m] = y
        if self.verify and P and Q and len(R) < len(P) + len(Q): self.note("add", P, Q, R, c)
        return R
    @staticmethod
    def scale(P, c): return {m: x * c for m, x in P.items()} if c != 0 else {}
    def mono(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            x = d.get(a, 0) + e
            if x: d[a] = x
            else: d.pop(a, None)
        return tuple(sorted(d.items()))
    def fixmono(self, m, c):
        """|q|^2 -> q^2 ; returns a polynomial"""
        for a, e in m:
            if self.info[a][0] == "abs" and abs(e) >= 2:
                q = self.polys[self.info[a][1]]
                rest = tuple((b, f) for b, f in m if b != a)
                k = e - 2 if e > 0 else e + 2
                if k: rest = tuple(sorted(rest + ((a, k),)))
                if len(q) == 1 or e > 0:
                    R = {rest: c}
                    for _ in range(2): R = self.mul(R, q) if e > 0 else self.div(R, q)
                    return R
        return {m: c}
    def need(self, m):
        return any(abs(e) >= 2 and self.info[a][0] == "abs" for a, e in m)
    def mul(self, P, Q):
        if not P or not Q: return {}
        for X, Y in ((P, Q), (Q, P)):
            # q * (selection by the sign of q): the selection at q = 0 does not matter
            if len(X) != 1: continue
            m, c = next(iter(X.items()))
            if len(m) != 1 or m[0][1] != 1 or self.info[m[0][0]][0] != "tri": continue
            _, qi, pp, pz, pn = self.info[m[0][0]]
            q = self.polys[qi]; d, y = self.prim(Y)
            if y != q: continue
            A, B = self.polys[pp], self.polys[pn]
            R = self.add(self.mul(y, self.add(A, B)), self.mul(self.abs(y), self.add(A, B, -1)))
            return self.scale(R, c * d / 2)
        if len(P) > 1 and len(Q) > 1 and len(P) * len(Q) > self.limit:
            if len(P) >= len(Q): P = self.opaque(P)
            if len(P) * len(Q) > self.limit: Q = self.opaque(Q)
        elif len(P) == 1 and len(Q) > 4 * self.limit: Q = self.opaque(Q)
        elif len(Q) == 1 and len(P) > 4 * self.limit: P = self.opaque(P)
        R = {}
        for m, x in P.items():
            for n, y in Q.items():
                k = self.mono(m, n) if m and n else m or n
                z = x * y
                if self.need(k): R = self.add(R, self.fixmono(k, z)); continue
                w = R.get(k, 0) + z
                if w == 0: R.pop(k, None)
                else: R[k] = w
        if self.verify and not any(self.need(self.mono(m, n)) for m in P for n in Q): self.note("mul", P, Q, R)
        return R
    def lead(self, P): return min(P.items(), key=lambda t: (t[0] == ONE, t[0]))
    def prim(self, P):
        """P = c * q with q's leading coefficient 1"""
        c = self.lead(P)[1]
        return c, self.scale(P, 1 / c)
    def content(self, P, pos=False):
        """P = m * q with the monomial m common to all terms (pos: atoms known to be positive only)"""
        it = iter(P); d = dict(next(it))
        if pos: d = {a: e for a, e in d.items() if a in self.posat}
        for n in it:
            if not d: return (), P
            f = dict(n)
            for a in list(d):
                x, y = d[a], f.get(a, 0)
                if x > 0 and y > 0: d[a] = min(x, y)
                elif x < 0 and y < 0: d[a] = max(x, y)
                else: del d[a]
        if not d: return (), P
        m = tuple(sorted(d.items())); i = tuple((a, -e) for a, e in m)
        q = {self.mono(n, i): x for n, x in P.items()}
        self.note("mul", {m: Fraction(1)}, q, P)
        return m, q
    def opaque(self, P):
        m, P = self.content(P) if len(P) > 1 else ((), P)
        c, q = self.prim(P)
        return {self.mono(((self.atom(("sum", self.intern(q))), 1),), m): c}
    def div(self, P, Q):
        if not P: return {}
        if not Q: return {((self.atom(("divz", self.intern(P))), 1),): Fraction(1)}
        if len(Q) == 1:
            m, c = next(iter(Q.items()))
            return self.mul(P, {tuple((a, -e) for a, e in m): 1 / c})
        cm, Q = self.content(Q)
        if cm: P = self.mul(P, {tuple((a, -e) for a, e in cm): Fraction(1)})
        c, q = self.prim(Q)
        # common monomial factor of the denominator (positive powers of atoms) stays inside; exact multiples cancel
        if len(P) == len(q):
            d, r = self.prim(P)
            if r == q: return self.const(d / c)
            # monomial multiple
            mp, mq = self.lead(P)[0], self.lead(q)[0]
            k = self.mono(mp, tuple((a, -e) for a, e in mq))
            if self.mul({k: d}, q) == P: return {k: d / c}
        return self.mul(P, {((self.atom(("sum", self.intern(q))), -1),): 1 / c})
    # --- nonlinear operations
    def abs(self, P):
        c = self.cv(P)
        if c is not None: return self.const(abs(c))
        if len(P) == 1:
            m, c = next(iter(P.items()))
            R = self.const(abs(c))
            for a, e in m:
                if a in self.posat or e % 2 == 0: R = self.mul(R, {((a, e),): Fraction(1)})
                elif self.info[a][0] == "sum":
                    R = self.mul(R, {((self.atom(("abs", self.info[a][1])), e),): Fraction(1)})
                else: R = self.mul(R, {((self.atom(("abs", self.intern({((a, 1),): Fraction(1)}))), e),): Fraction(1)})
            return R
        if all(x > 0 and all(a in self.posat or e % 2 == 0 for a, e in m) for m, x in P.items()): return P
        m, P = self.content(P, True)
        c, q = self.prim(P)
        return {self.mono(((self.atom(("abs", self.intern(q))), 1),), m): abs(c)}
    def max(self, Ps):
        flat = []
        for P in Ps:
            if len(P) == 1:
                m, c = next(iter(P.items()))
                if c == 1 and len(m) == 1 and m[0][1] == 1 and self.info[m[0][0]][0] == "max":
                    flat += [self.polys[x] for x in self.info[m[0][0]][1]]; continue
            flat.append(P)
        cs = [self.cv(P) for P in flat]
        k = [c for c in cs if c is not None]
        rest = {self.intern(P) for P, c in zip(flat, cs) if c is None}
        if not rest: return self.const(max(k))
        if k and len(rest) == 1 and max(k) == 0:
            P = self.polys[next(iter(rest))]
            return self.scale(self.add(P, self.abs(P)), Fraction(1, 2))
        if not k and len(rest) > 1:
            # positive factor common to all the arguments
            cs = [dict(self.content(self.polys[x], True)[0]) if self.polys[x] else {} for x in rest]
            d = {a: (min if e > 0 else max)(c.get(a, 0) for c in cs) for a, e in cs[0].items() if all(c.get(a, 0) * e > 0 for c in cs)}
            if d:
                m = tuple(sorted(d.items())); i = tuple((a, -e) for a, e in m)
                return self.mul({m: Fraction(1)}, self.max([self.mul(self.polys[x], {i: Fraction(1)}) for x in rest]))
        if k: rest.add(self.intern(self.const(max(k))))
        if len(rest) == 1: return self.polys[next(iter(rest))]
        return {((self.atom(("max", frozenset(rest))), 1),): Fraction(1)}
    def op1(self, o, P, Q=None):
        return {((self.atom((o, self.intern(P)) if Q is None else (o, self.intern(P), self.intern(Q))), 1),): Fraction(1)}
    def at_zero(self, P, q):
        """P under the assumption q == 0 (top-level occurrences of q's leading atom only)"""
        m, c = self.lead(q)
        if len(m) != 1 or m[0][1] != 1 or any(a == m[0][0] for n in q for a, e in n if n != m): return P
        a = m[0][0]
        r = self.scale({n: x for n, x in q.items() if n != m}, -1 / c)
        ab = self.atoms.get(("abs", self.intern(q)))
        R = {}
        for n, x in P.items():
            es = [e for b, e in n if b == a]; ez = [e for b, e in n if b == ab] if ab is not None else []
            if ez and ez[0] > 0: continue
            if not es or es[0] < 0: R = self.add(R, {n: x}); continue
            T = {tuple((b, e) for b, e in n if b != a): x}
            for _ in range(es[0]): T = self.mul(T, r)
            R = self.add(R, T)
        return R
    def cond(self, key):
        """(q, truth for q>0, q=0, q<0) of a simple comparison"""
        return key if key[0] == "cmp" else None
    def sel(self, key, A, B):
        if key == ("true",): return A
        if key == ("false",): return B
        if A == B: return A
        if key[0] == "not": return self.sel(key[1], B, A)
        if key[0] != "cmp": return self.op1("ite", A, B) if False else {((self.atom(("ite", key, self.intern(A), self.intern(B))), 1),): Fraction(1)}
        _, qi, tp, tz, tn = key
        q = self.polys[qi]
        Pp, Pn = (A if tp else B), (A if tn else B)
        if len(q) == 1 and len(next(iter(q))) == 1:
            # the branches know the sign of q
            a = next(iter(q))[0][0]; ab = self.atoms.get(("abs", self.intern({((a, 1),): Fraction(1)})))
            if ab is not None:
                Pp = self.replace(Pp, ab, a, 1); Pn = self.replace(Pn, ab, a, -1)
        Pz = self.at_zero(A if tz else B, q)
        if Pp == Pn == Pz: return Pp
        D = self.add(Pp, Pn, -1)
        if len(q) == 1:
            m = next(iter(q))
            if len(m) == 1 and m[0][1] == 1 and all(any(b == m[0][0] and e > 0 for b, e in n) for n in D):
                k = {self.mono(n, ((m[0][0], -1),)): x for n, x in D.items()}
                S = self.scale(self.add(Pp, Pn), Fraction(1, 2))
                if self.at_zero(S, q) == Pz: return self.add(S, self.mul(self.scale(k, Fraction(1, 2)), self.abs(q)))
        return {((self.atom(("tri", qi, self.intern(Pp), self.intern(Pz), self.intern(Pn))), 1),): Fraction(1)}
    def replace(self, P, ab, a, s):
        R = {}
        for n, x in P.items():
            e = [f for b, f in n if b == ab]
            if e: R = self.add(R, {self.mono(tuple((b, f) for b, f in n if b != ab), ((a, e[0]),)): x * (s if e[0] % 2 else 1)})
            else: R = self.add(R, {n: x})
        return R
    def cmp(self, P, strict):
        """P > 0 (strict) or P >= 0"""
        c = self.cv(P)
        if c is not None: return ("true",) if (c > 0 or c == 0 and not strict) else ("false",)
        c, q = self.prim(self.content(P, True)[1])
        return ("cmp", self.intern(q), c > 0, not strict, c < 0)
    # --- nodes
    def poly(self, root):
        st = [root]; p = self.p
        while st:
            j = st[-1]
            if j in self.of or j in self.bofn: st.pop(); continue
            todo = [x for x in p.kids(j) if x not in self.of and x not in self.bofn]
            if todo: st.extend(todo); continue
            st.pop()
            self.step(j)
        return self.polys[self.of[root]] if root in self.of else self.bofn[root]
    def step(self, j):
        p = self.p; o = p.op[j]
        k = p.kids(j)
        if p.is_bool(j):
            if o in ("true", "false"): r = (o,)
            elif o in ("<", "<=", "=", "!="):
                A, B = (self.polys[self.of[x]] for x in k)
                D = self.add(B, A, -1)
                if o in ("<", "<="): r = self.cmp(D, o == "<")
                else:
                    c = self.cv(D)
                    if c is not None: r = ("true",) if (c == 0) == (o == "=") else ("false",)
                    elif self.generic: r = ("true",) if o == "!=" else ("false",)
                    else:
                        r = ("cmp", self.intern(self.prim(D)[1]), o == "!=", o == "=", o == "!=")
            elif o == "not":
                b = self.bofn[k[0]]
                r = ("false",) if b == ("true",) else ("true",) if b == ("false",) else (b[:2] + tuple(not t for t in b[2:])) if b[0] == "cmp" else b[1] if b[0] == "not" else ("not", b)
            else:
                bs = frozenset(self.bofn[x] for x in k)
                z, u = (("false",), ("true",)) if o == "and" else (("true",), ("false",))
                bs = frozenset(b for b in bs if b != u)
                r = z if z in bs else u if not bs else next(iter(bs)) if len(bs) == 1 else (o, bs)
            self.bofn[j] = r
            return
        A = [self.polys[self.of[x]] if x in self.of else None for x in k]
        if j in self.subs: R = self.polys[self.subs[j]]
        elif o == "const": R = self.const(ratio(p.k[j]))
        elif o == "var": R = {((self.atom(("var", p.k[j])), 1),): Fraction(1)}
        elif o == "+": R = self.add(A[0], A[1])
        elif o == "-": R = self.add(A[0], A[1], -1)
        elif o == "neg": R = self.scale(A[0], -1)
        elif o == "*": R = self.mul(A[0], A[1])
        elif o == "/": R = self.div(A[0], A[1])
        elif o == "abs": R = self.abs(A[0])
        elif o == "max": R = self.max(A)
        elif o == "min": R = self.scale(self.max([self.scale(x, -1) for x in A]), -1)
        elif o == "ite": R = self.sel(self.bofn[k[0]], A[1], A[2])
        elif o in ("pow", "atan2"): R = self.op1(o, A[0], A[1])
        else: R = self.op1(o, A[0])
        self.of[j] = self.intern(R)
    # --- lemmas
    # polynomial steps: identities between Laurent polynomials in the atoms, cached up to renaming of the atoms
    def note(self, kind, P, Q, R, c=1):
        """kind mul: P*Q == R ; add: P + c*Q == R"""
        if not self.verify: return
        ren = {}
        def sh(X): return tuple((tuple((ren.setdefault(a, len(ren)), e) for a, e in m), x) for m, x in X.items())
        key = (kind, c, sh(P), sh(Q), sh(R))
        if key not in self.lem: self.lem[key] = None
    @staticmethod
    def text(key):
        kind, c, P, Q, R = key
        def low(X):
            d = {}
            for m, x in X:
                for a, e in m:
                    if e < 0: d[a] = min(d.get(a, 0), e)
            return d
        def num(x): return "%d.0" % x if x.denominator == 1 and x >= 0 else "(- %d.0)" % -x if x.denominator == 1 else "(/ %s %d.0)" % (num(Fraction(x.numerator)), x.denominator)
        def ex(X, l, k):
            # X times the inverse of the monomial l, times k
            t = []
            for m, x in X:
                d = dict(l); d = {a: -e for a, e in d.items()}
                for a, e in m: d[a] = d.get(a, 0) + e
                for a, e in k.items(): d[a] = d.get(a, 0) + e
                f = [num(Fraction(x))] + ["x%d" % a for a, e in sorted(d.items()) for _ in range(e)]
                t.append("(* %s)" % " ".join(f) if len(f) > 1 else f[0])
            return "(+ 0.0 %s)" % " ".join(t) if t else "0.0"
        lp, lq, lr = low(P), low(Q), low(R)
        if kind == "mul":
            tot = {a: lp.get(a, 0) + lq.get(a, 0) for a in set(lp) | set(lq)}
            al = set(tot) | set(lr)
            kl = {a: max(0, tot.get(a, 0) - lr.get(a, 0)) for a in al}; kr = {a: max(0, lr.get(a, 0) - tot.get(a, 0)) for a in al}
            return "(= (* %s %s) %s)" % (ex(P, lp, kl), ex(Q, lq, {}), ex(R, lr, kr))
        al = set(lp) | set(lq) | set(lr)
        m = {a: min(lp.get(a, 0), lq.get(a, 0), lr.get(a, 0)) for a in al}
        return "(= (+ %s (* %s %s)) %s)" % (ex(P, m, {}), num(Fraction(c)), ex(Q, m, {}), ex(R, m, {}))
    def certify(self):
        """discharge the collected polynomial lemmas; returns the number that failed"""
        todo = [k for k, v in self.lem.items() if v is None]
        bad = 0; t0 = time.time()
        groups, cur, w = [], [], 0
        for k in todo:
            n = (len(k[2]) + 1) * (len(k[3]) + 1) if k[0] == "mul" else len(k[2]) + len(k[3])
            if cur and (w + n > 3000 or len(cur) >= 200): groups.append(cur); cur, w = [], 0
            cur.append(k); w += n
        if cur: groups.append(cur)
        def ask(ks, tmo):
            s = z3.Then(z3.With("simplify", som=True), "smt").solver(); s.set("timeout", tmo)
            s.from_string("".join("(declare-const x%d Real)" % j for j in range(max([a for k in ks for X in k[2:] for m, _ in X for a, _ in m] or [0]) + 1)) + "(assert (not (and true %s)))" % " ".join(self.text(k) for k in ks))
            r = s.check(); self.chk.queries += 1
            if r == z3.unsat: self.chk.unsat += 1
            elif r == z3.sat: self.chk.sat += 1
            return r
        while groups:
            ks = groups.pop()
            r = ask(ks, 4000 if len(ks) > 1 else 20000)
            if r != z3.unsat:
                if len(ks) > 1 and r != z3.sat: h = len(ks) // 2; groups += [ks[:h], ks[h:]]; continue
                bad += 1; self.failed.append((str(r), ks[:1]))
            for k in ks: self.lem[k] = r == z3.unsat
        self.chk.solver_s += time.time() - t0
        return bad
    def final(self, pairs, timeout=30):
        """one query: can any pair of outputs differ (outputs replaced by their polynomials, atoms are free)?"""
        key = []
        for t in pairs:
            A, B = self.poly(t[1]), self.poly(t[2])
            if len(t) > 3: B = self.scale(B, t[3])
            key.append(("add", -1, tuple(A.items()), tuple(B.items()), ()))
        ren = {}
        def sh(X): return tuple((tuple((ren.setdefault(a, len(ren)), e) for a, e in m), x) for m, x in X)
        key = [("add", -1, sh(k[2]), sh(k[3]), ()) for k in dict.fromkeys(key)]
        t0 = time.time(); good = True
        for i in range(0, len(key), 100):
            s = z3.Then(z3.With("simplify", som=True), "smt").solver(); s.set("timeout", timeout * 1000)
            s.from_string("".join("(declare-const x%d Real)" % j for j in range(len(ren))) + "(assert (not (and true %s)))" % " ".join(self.text(k) for k in key[i:i + 100]))
            r = s.check(); self.chk.queries += 1
            if r == z3.unsat: self.chk.unsat += 1
            else: good = False; self.chk.sat += r == z3.sat; self.failed.append(("final " + str(r), []))
        self.chk.solver_s += time.time() - t0
        return good
    def show(self, P, depth=1):
        def at(a):
            i = self.info[a]
            if i[0] == "var": return i[1]
            if depth <= 0: return "%s#%d" % (i[0], a)
            if i[0] in ("abs", "sum"): return "%s(%s)" % (i[0], self.show(self.polys[i[1]], depth - 1))
            if i[0] == "max": return "max{%s}" % ", ".join(sorted(self.show(self.polys[x], depth - 1) for x in i[1]))
            if i[0] == "tri": return "tri(%s)" % "; ".join(self.show(self.polys[x], depth - 1) for x in i[1:])
            return "%s#%d" % (i[0], a)
        return " + ".join("%s%s" % (c if c != 1 or not m else "", "*".join(at(a) + ("^%d" % e if e != 1 else "") for a, e in m)) for m, c in sorted(P.items())) or "0"
    def equal(self, a, b, sign=1):
        A, B = self.poly(a), self.poly(b)
        return A == (B if sign == 1 else self.scale(B, sign))

    def diff(self, pairs):
        """pairs (label, a, b[, sign]): those not shown equal"""
        bad = []
        for t in pairs:
            A, B = self.poly(t[1]), self.poly(t[2])
            if len(t) > 3: B = self.scale(B, t[3])
            if A != B and self.add(A, B, -1): bad.append(t)
        return bad

def schemas(chk):
    """the rewriting rules of the normaliser, discharged once per run by z3"""
    x, y, z, q, c, p, n = z3.Reals("x y z q c p n")
    ab = lambda t: z3.If(t >= 0, t, -t); mx = lambda a, b: z3.If(a >= b, a, b); mn = lambda a, b: z3.If(a <= b, a, b)
    R = {
     "max(x,0) = (x+|x|)/2": mx(x, 0) == (x + ab(x)) / 2,
     "min(x,y) = -max(-x,-y)": mn(x, y) == -mx(-x, -y),
     "max is associative": mx(mx(x, y), z) == mx(x, mx(y, z)), "max is commutative": mx(x, y) == mx(y, x), "max is idempotent": mx(x, x) == x,
     "|cx| = |c||x|": ab(c * x) == ab(c) * ab(x), "|x|^2 = x^2": ab(x) * ab(x) == x * x, "|x| = x for x >= 0": z3.Implies(x >= 0, ab(x) == x),
     "|1/x| = 1/|x|": z3.Implies(z3.And(x != 0, y * x == 1), z3.And(ab(y) * ab(x) == 1)),
     "x/(cq) = x (1/c) (1/q)": z3.Implies(z3.And(c != 0, q != 0, y * c == 1, z * q == 1), x / (c * q) == x * y * z),
     "cq/q = c": z3.Implies(q != 0, (c * q) / q == c),
     "q (q>0 ? p : n) = (q (p+n) + |q| (p-n))/2": q * z3.If(q > 0, p, n) == (q * (p + n) + ab(q) * (p - n)) / 2,
     "q (q>=0 ? p : n) = (q (p+n) + |q| (p-n))/2": q * z3.If(q >= 0, p, n) == (q * (p + n) + ab(q) * (p - n)) / 2,
     "(q>0 ? p+qx : p-qx) = p + |q| x": z3.If(q > 0, p + q * x, p - q * x) == p + ab(q) * x,
     "|q| in the branches of a selection by q": z3.If(q > 0, ab(q) * x, ab(q) * y) == z3.If(q > 0, q * x, -q * y),
     "|px| = p|x| for p > 0": z3.Implies(p > 0, ab(p * x) == p * ab(x)), "max(px,py) = p max(x,y) for p > 0": z3.Implies(p > 0, mx(p * x, p * y) == p * mx(x, y)),
     "equal branches": z3.If(q > 0, x, x) == x, "a < b iff b-a > 0": (x < y) == (y - x > 0), "c>0: cq > 0 iff q > 0": z3.Implies(c > 0, (c * q > 0) == (q > 0)), "c<0: cq > 0 iff q < 0": z3.Implies(c < 0, (c * q > 0) == (q < 0)),
    }
    for nm, f in R.items():
        if chk.solve([z3.Not(f)], 20.0) != "unsat": raise RuntimeError("rule not proven: " + nm)
