"""Proofs of bounds lo <= term <= hi over the reals.  Signs of inputs are split into cases; a term becomes, case by case, a polynomial
over atoms (inputs, min/max nodes, quotients).  Facts about atoms (m <= arguments of m = min(..), q * den = num for q = num / den > 0, ...)
are multiplied by monomials of known sign, and z3 (linear real arithmetic over the monomials) decides that no values exist for which all
facts hold and the bound does not.  Every rule used for signs is itself decided by z3 (once)."""
from fractions import Fraction
import itertools, os, z3
from vlib import ratio
class Fork(Exception):
    def __init__(self, name): self.name = name
# signs: subset of {-1, 0, 1}
POS, NEG, NN, NP, ANY, ZERO = frozenset([1]), frozenset([-1]), frozenset([0, 1]), frozenset([0, -1]), frozenset([-1, 0, 1]), frozenset([0])
_rule = {}
def rule(chk, op, *s):
    """possible signs of op(x, y) for x, y of the given signs, as decided by z3"""
    key = (op,) + s
    if key not in _rule:
        x, y = z3.Reals("x y"); v = (x, y)
        e = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "neg": lambda: -x, "min": lambda: z3.If(x < y, x, y), "max": lambda: z3.If(x > y, x, y), "abs": lambda: z3.If(x < 0, -x, x)}[op]()
        pre = [z3.Or([{1: t > 0, 0: t == 0, -1: t < 0}[q] for q in a]) for t, a in zip(v, s)]
        if op == "/": pre.append(y != 0)
        r = set()
        for q, c in ((1, e > 0), (0, e == 0), (-1, e < 0)):
            if chk.solve(pre + [c], 5.) != "unsat": r.add(q)
        _rule[key] = frozenset(r)
    return _rule[key]
def lemma(chk, how):
    """n <= d, d > 0 -> n / d <= 1;  -n <= d, d > 0 -> n / d >= -1"""
    if how not in _rule:
        n, d = z3.Reals("n d")
        _rule[how] = chk.solve([d > 0, n <= d if how == "<=" else -n <= d, n / d > 1 if how == "<=" else n / d < -1], 5.) == "unsat"
    return _rule[how]
class Bnd:
    def __init__(self, chk, pool, signs, assume, cut=None):
        """signs: name -> sign set of an input; assume: name -> sign, of the case; cut(node) -> True: argument of a min that may be replaced by any non-negative number"""
        self.chk, self.p, self.base, self.case, self.cut = chk, pool, signs, assume, cut; self.forknodes, self.known, self.opaque = False, [], {}
        self.sg, self.val, self.facts, self.asg, self.key, self.psg, self.ids = {}, {}, {}, {}, {}, {}, {}
    # --- signs of nodes, without looking into cases of sums
    def vsign(self, n):
        if n in self.case: return self.case[n]
        return self.base(n)
    def sign(self, j):
        """of a node, from the signs of its operands"""
        if j in self.sg: return self.sg[j]
        for i in sorted(self.p.cone([j])):
            if i in self.sg: continue
            if i in self.opaque: self.sg[i] = self.case.get(("x", i), self.opaque[i]); continue
            o = self.p.op[i]; k = self.p.kids(i)
            if o == "const": x = self.p.k[i]; s = POS if x > 0 else NEG if x < 0 else ZERO
            elif o == "var": s = self.vsign(self.p.k[i])
            elif o in ("+", "-", "*", "/", "neg", "min", "max", "abs"):
                s = rule(self.chk, o, *[self.sg[x] for x in k])
                if o == "-": s = s & self.ordered(*k)
                if o == "+":                                    # a + neg(b)
                    for a, b in (k, k[::-1]):
                        if self.p.op[b] == "neg": s = s & self.ordered(a, self.p.a[b])
            elif o == "ite": s = self.sg[k[1]] | self.sg[k[2]]
            else: s = ANY
            self.sg[i] = s
        return self.sg[j]
    def flat(self, j, op):
        o = []; st = [j]
        while st:
            i = st.pop()
            if self.p.op[i] == op: st += self.p.kids(i)
            else: o.append(i)
        return set(o)
    def ordered(self, a, b):
        """sign of a - b for max(.., x, ..) - x and the like"""
        A, B = self.flat(a, "max"), self.flat(b, "max")
        if B <= A: return NN
        if A <= B: return NP
        A, B = self.flat(a, "min"), self.flat(b, "min")
        if B <= A: return NP
        if A <= B: return NN
        return ANY
    # --- polynomials over atoms
    def atom(self, key, sign):
        if key not in self.asg: self.asg[key] = sign
        return {((key, 1),): Fraction(1)}
    def const(self, x): return {(): Fraction(x)} if x else {}
    @staticmethod
    def padd(P, Q, k=1):
        r = dict(P)
        for m, x in Q.items():
            y = r.get(m, 0) + k * x
            if y: r[m] = y
            elif m in r: del r[m]
        return r
    @staticmethod
    def mmul(m, n):
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
            if not d[a]: del d[a]
        return tuple(sorted(d.items()))
    def pmul(self, P, Q):
        r = {}
        for m, x in P.items():
            for n, y in Q.items():
                k = self.mmul(m, n); w = r.get(k, 0) + x * y
                if w: r[k] = w
                elif k in r: del r[k]
        return r
    def msign(self, m):
        s = POS
        for a, e in m:
            t = self.asg[a]
            for _ in range(abs(e)): s = rule(self.chk, "*", s, t)
            if e % 2 == 0: s = NN if 0 in t else POS
        return s
    def psign(self, P):
        s = self.psign0(P)
        return s & self.psg.get(self.freeze(P), ANY) if self.psg and len(s) > 1 else s
    def psign0(self, P):
        s = ZERO
        for m, x in P.items():
            t = self.msign(m)
            s = rule(self.chk, "+", s, t if x > 0 else rule(self.chk, "neg", t))
        return s
    def decide(self, P):
        """sign of a polynomial; forks on an input if it is not determined"""
        s = self.psign(P)
        if s <= NN or s <= NP: return s
        # an input whose sign is not known
        for m in sorted(P, key=lambda m: (len(m), m)):
            for a, e in m:
                if a[0] in ("v", "x") and not (self.asg[a] <= NN or self.asg[a] <= NP): raise Fork(a[1] if a[0] == "v" else a)
        return s
    def poly(self, j):
        for i in self.p.order(j) if hasattr(self.p, "order") else self.post(j): pass
        return self.val[j]
    def post(self, j):
        """demand-driven evaluation"""
        self.ev(j); return ()
    def ev(self, j):
        st = [j]
        while st:
            i = st[-1]
            if i in self.val: st.pop(); continue
            if i in self.opaque: self.val[i] = self.atom(("x", i), self.case.get(("x", i), self.opaque[i])); st.pop(); continue
            o = self.p.op[i]; k = self.p.kids(i)
            if o == "*" and k[0] != k[1] and any(self.p.op[x] == "ite" and x not in self.val for x in k):
                # x * (x > 0 ? a : b): for x = 0 the choice does not matter
                x, y = k if self.p.op[k[0]] == "ite" and k[0] not in self.val else k[::-1]
                c = self.p.kids(x)[0]; ck = self.p.kids(c)
                if self.p.op[c] in ("<", "<="):
                    td = [z for z in list(ck) + [y] if z not in self.val]
                    if td: st += td; continue
                    D = self.padd(self.val[ck[1]], self.val[ck[0]], -1); Y = self.val[y]
                    if not Y: self.note(i, {}); st.pop(); continue
                    if D and set(D) == set(Y) and len({D[m] / Y[m] for m in D}) == 1:
                        s = self.decide(D); w = self.p.kids(x)[1 if s <= NN else 2] if s <= NN or s <= NP else None
                        if w is not None:
                            if w not in self.val: st.append(w); continue
                            self.note(i, self.pmul(self.val[w], Y)); st.pop(); continue
            if o == "ite":
                c = k[0]; co = self.p.op[c]; ck = self.p.kids(c)
                if co not in ("<", "<="): raise RuntimeError("condition " + co)
                td = [x for x in ck if x not in self.val]
                if td: st += td; continue
                D = self.padd(self.val[ck[1]], self.val[ck[0]], -1); s = self.decide(D)
                if s <= POS or co == "<=" and s <= NN: w = k[1]
                elif s <= NP and co == "<" or s <= NEG: w = k[2]
                else:
                    # both branches agree with weak signs: continuous selections only
                    w = None
                    if s <= NN: w = k[1] if co == "<" else None
                    if w is None: raise RuntimeError("selection not determined")
                    raise RuntimeError("selection on a weak sign")
                if w not in self.val: st.append(w); continue
                self.note(i, self.val[w]); st.pop(); continue
            if o in ("min", "max"):
                args = sorted(self.flat(i, o)); td = []
                rep = {}
                for x in args:
                    if o == "min" and self.cut and self.cut(x) and self.sign(x) <= NN: rep[x] = self.atom(("cut", x), NN)
                    elif x not in self.val: td.append(x)
                if td: st += td; continue
                V = [rep.get(x) or self.val[x] for x in args]
                self.note(i, self.extr(o, V, i)); st.pop(); continue
            td = [x for x in k if x not in self.val]
            if td: st += td; continue
            st.pop(); v = [self.val[x] for x in k]
            if o == "const": r = self.const(ratio(self.p.k[i]))
            elif o == "var": r = self.atom(("v", self.p.k[i]), self.vsign(self.p.k[i])) if self.vsign(self.p.k[i]) != ZERO else {}
            elif o == "+": r = self.padd(*v)
            elif o == "-": r = self.padd(v[0], v[1], -1)
            elif o == "neg": r = self.padd({}, v[0], -1)
            elif o == "*": r = self.pmul(*v)
            elif o == "abs":
                s = self.decide(v[0])
                if not (s <= NN or s <= NP): raise RuntimeError("abs")
                r = v[0] if s <= NN else self.padd({}, v[0], -1)
            elif o == "/": r = self.quot(v[0], v[1], j)
            else: raise RuntimeError("operation " + o)
            self.note(i, r)
        return self.val[j]
    def note(self, i, r):
        self.val[i] = r
        if len(r) > 1 or any(a[0] in ("min", "max", "quot") for m in r for a, e in m):
            s = self.sign(i)
            if len(s) < 3 and len(r) < 40:
                for P, t in ((r, s), (self.padd({}, r, -1), rule(self.chk, "neg", s))):
                    z = self.freeze(P); self.psg[z] = self.psg.get(z, ANY) & t
            if len(r) == 1:
                (m, x), = r.items()
                if x == 1 and len(m) == 1 and m[0][1] == 1: self.asg[m[0][0]] = self.asg[m[0][0]] & s
    def freeze(self, P): return frozenset(P.items())
    def intern(self, kind, what): return (kind, self.ids.setdefault((kind, what), len(self.ids)))
    def sub_ge(self, A, B):
        """is A - B known to be >= 0 from signs alone"""
        return self.psign(self.padd(A, B, -1)) <= NN
    def extr(self, o, V, node=None):
        U = []
        for P in V:
            if P not in U: U.append(P)
        keep = []
        for i, P in enumerate(U):
            if any(Q is not P and (self.sub_ge(P, Q) if o == "min" else self.sub_ge(Q, P)) and not (self.freeze(P) == self.freeze(Q)) for Q in U): continue
            keep.append(P)
        if len(keep) == 1: return keep[0]
        if len(keep) == 2:      # a two-way choice against a constant is a sign test of an input
            D = self.padd(keep[0], keep[1], -1)
            if any(not P for P in keep):
                s = self.decide(D)
                if s <= NN: return keep[0] if o == "max" else keep[1]
                if s <= NP: return keep[1] if o == "max" else keep[0]
                if self.forknodes and node is not None:
                    if ("n", node) not in self.case: raise Fork(("n", node))
                    s = self.case["n", node]; self.known.append(D if s <= NN else self.padd({}, D, -1))
                    return keep[0] if (o == "max") == (s <= NN) else keep[1]
        key = self.intern(o, frozenset(self.freeze(P) for P in keep))
        ss = [self.psign(P) for P in keep]
        s = ss[0]
        for t in ss[1:]: s = rule(self.chk, o, s, t)
        at = self.atom(key, s)
        if key not in self.facts:
            self.facts[key] = [self.padd(P, at, -1) if o == "min" else self.padd(at, P, -1) for P in keep]
        return at
    def quot(self, N, D, j):
        if len(D) == 1:
            (m, c), = D.items()
            if all(0 not in self.asg[a] for a, e in m): return self.pmul(N, {tuple((a, -e) for a, e in m): 1 / c})
        s = self.psign(D)
        if not (s <= POS or s <= NEG): raise RuntimeError("sign of a denominator not known: %s %s" % ({m: (x, self.msign(m)) for m, x in D.items()}, self.sign(self.p.kids(j)[1])))
        key = self.intern("quot", (self.freeze(N), self.freeze(D))); n = self.nsign(N)
        at = self.atom(key, rule(self.chk, "/", n, s))
        if key not in self.facts:
            E = self.padd(self.pmul(at, D), N, -1)
            self.facts[key] = [E, self.padd({}, E, -1)]
            # |num| <= den
            one = self.const(1)
            if s <= POS:
                if self.psign(self.padd(D, N, -1)) <= NN and lemma(self.chk, "<="): self.facts[key].append(self.padd(one, at, -1))
                if self.psign(self.padd(D, N)) <= NN and lemma(self.chk, ">="): self.facts[key].append(self.padd(one, at))
        return at
    def nsign(self, N):
        s = self.psign(N)
        if s <= NN or s <= NP: return s
        # max(.., x, ..) - x times something positive
        for sg in (1, -1):
            for m in N:
                for a, e in m:
                    if a[0] in ("max", "min"):
                        for f in self.facts[a]:
                            g = self.pmul(f, {tuple((b, q) for b, q in m if b != a): Fraction(sg)})
                            if g == N and self.msign(tuple((b, q) for b, q in m if b != a)) <= NN: return NN if sg > 0 else NP
        return s
    # --- the proof
    def prove(self, P, hyp=(), rounds=3):
        hyp = list(hyp) + self.known
        return any(self.prove1(P, hyp, r) for r in range(1, rounds + 1))
    def prove1(self, P, hyp, rounds):
        """P >= 0 ?  hyp: polynomials known to be >= 0"""
        # clear negative powers
        low = {}
        for m in P:
            for a, e in m:
                if e < 0: low[a] = min(low.get(a, 0), e)
        if low:
            k = tuple(sorted((a, -e) for a, e in low.items()))
            if not self.msign(k) <= POS: return False
            P = self.pmul(P, {k: Fraction(1)})
        F = []; seen = set(); base = []; known = set(); idx = {}; eqs = set(); gen = []
        def put(f):
            z = self.freeze(f)
            if f and z not in seen: seen.add(z); F.append(f)
        def learn(f):
            z = self.freeze(f)
            if not f or z in known: return
            known.add(z); base.append(f); put(f)
            if self.freeze(self.padd({}, f, -1)) in known: eqs.add(z); eqs.add(self.freeze(self.padd({}, f, -1)))
            for m in f: idx.setdefault(m, []).append(f)
        hz = {self.freeze(f) for f in hyp}
        for f in hyp: learn(f)
        mons = set(P); done = set(); atoms = set()
        for r in range(rounds):
            for m in sorted(mons, key=repr):
                for a, e in m:
                    if a not in atoms:
                        atoms.add(a)
                        for f in self.facts.get(a, []): learn(f)
                        for b, fs in self.facts.items():        # bounds other atoms give for this one
                            if any(((a, 1),) in f for f in fs): atoms.add(b); [learn(f) for f in fs]
            if r == 0:      # hypotheses times elementary bounds
                for f in list(hyp):
                    for g in list(base):
                        if self.freeze(g) in hz or self.freeze(f) in eqs or self.freeze(g) in eqs or any(len(m) > 1 or m and m[0][1] > 1 for m in g): continue
                        put(self.pmul(f, g))
            new = set()
            for m in sorted(mons, key=repr):
                if m in done: continue
                done.add(m)
                for f in base:
                    z = self.freeze(f); eq = z in eqs
                    for n in f:
                        if n == () and m != (): continue
                        q = self.mmul(m, tuple((b, -x) for b, x in n))
                        if any(x < 0 for b, x in q): continue
                        s2 = self.msign(q)
                        if eq or s2 <= NN: put(self.pmul(f, {q: Fraction(1)}))
                        if not eq and s2 <= NP: put(self.pmul(f, {q: Fraction(-1)}))
            for f in F: new |= set(f)
            if new <= done: break
            mons |= new
            if len(F) > 4000: break
        names = {}
        def lin(f):
            t = []
            for m, x in f.items():
                if m == (): t.append(z3.RealVal(x)); continue
                v = names.setdefault(m, z3.Real("m%d" % len(names))); t.append(z3.RealVal(x) * v)
            return z3.Sum(t) if t else z3.RealVal(0)
        cons = [lin(f) >= 0 for f in F] + [lin(P) < 0]
        for m, v in names.items():
            s = self.msign(m)
            if s <= ZERO: cons.append(v == 0)
            elif s <= POS: cons.append(v > 0)
            elif s <= NEG: cons.append(v < 0)
            elif s <= NN: cons.append(v >= 0)
            elif s <= NP: cons.append(v <= 0)
        if os.environ.get("BDBG") == "2":
            r = self.chk.solve(cons, 20.)
            if r != "unsat":
                print("GOAL", P, "\nCASE", self.case); [print("  FACT", f) for f in F]
            return r == "unsat"
        return self.chk.solve(cons, 20.) == "unsat"
def cases(make, work, limit=5000):
    """work(bnd) for every case needed; make(case) -> Bnd"""
    todo = [{}]; n = 0
    def split(c):
        """weak signs to strict ones"""
        o = [{}]
        for k, v in c.items(): o = [{**a, k: frozenset([q])} for a in o for q in v]
        return o
    while todo:
        c = todo.pop(); n += 1
        if n > limit: raise RuntimeError("too many cases")
        try:
            try: ok, why = work(make(c)), None
            except RuntimeError as e: ok, why = False, e
            if not ok:
                if os.environ.get("BDBG") == "2": print("CASE", c, why)
                if any(len(v) > 1 for v in c.values()): todo += split(c); continue
                if why: raise why
                return False, n, c
        except Fork as f:
            if os.environ.get("BDBG"): print("FORK", f.name, len(c))
            for s in (NN, NP): todo.append({**c, f.name: s})
    return True, n, None
