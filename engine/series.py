"""Evaluation of expression DAGs in truncated power series of the grid length e, with coefficients that are Laurent polynomials in
symbolic parameters (values and derivatives of smooth fields).  Signs that steer abs/max/min/selections are decided by z3 over all
parameter values; where both signs are possible the evaluation forks."""
from fractions import Fraction
import z3
from vlib import ratio
class Poly:
    """Laurent polynomial: dict monomial (sorted tuple of (parameter, exponent)) -> Fraction"""
    __slots__ = ("d",)
    def __init__(self, d=None): self.d = d or {}
    @staticmethod
    def c(x): return Poly({(): Fraction(x)} if x else {})
    @staticmethod
    def v(n): return Poly({((n, 1),): Fraction(1)})
    def __add__(self, o):
        if not o.d: return self
        if not self.d: return o
        r = dict(self.d)
        for m, x in o.d.items():
            y = r.get(m, 0) + x
            if y: r[m] = y
            else: del r[m]
        return Poly(r)
    def sc(self, k): return Poly({m: x * k for m, x in self.d.items()}) if k else Poly()
    def __neg__(self): return self.sc(-1)
    def __sub__(self, o): return self + o.sc(-1)
    def __mul__(self, o):
        if not self.d or not o.d: return Poly()
        a, b = (self.d, o.d) if len(self.d) <= len(o.d) else (o.d, self.d)
        r = {}
        for m, x in a.items():
            for n, y in b.items():
                k = _mono(m, n); w = r.get(k, 0) + x * y
                if w: r[k] = w
                else: del r[k]
        return Poly(r)
    def inv(self):
        (m, c), = self.d.items()
        return Poly({tuple((n, -e) for n, e in m): 1 / c})
_mc = {}
def _mono(m, n):
    if not m: return n
    if not n: return m
    k = (m, n)
    r = _mc.get(k)
    if r is None:
        d = dict(m)
        for a, e in n:
            x = d.get(a, 0) + e
            if x: d[a] = x
            else: del d[a]
        r = _mc[k] = tuple(sorted(d.items()))
    return r
class NotMonomial(Exception): pass
class Fork(Exception):
    def __init__(self, poly): self.poly = poly
class Series:
    """e^s (c0 + c1 e + ...), c0 != 0 unless exactly zero; known up to and including absolute order n"""
    __slots__ = ("s", "c", "n")
    def __init__(self, s, c, n):
        i = 0
        while i < len(c) and not c[i].d: i += 1
        self.s, self.c, self.n = (s + i, c[i:], n) if i < len(c) else (n + 1, [], n)
    def at(self, k): return self.c[k - self.s] if self.s <= k < self.s + len(self.c) else Poly()
BIG = 40
class Eval:
    def __init__(self, chk, pool, order, positive, cons=()):
        """order: number of orders kept above the leading one"""
        self.chk, self.p, self.N, self.pos = chk, pool, order, positive
        self.s = z3.Solver(); self.s.set("timeout", 5000); self.cons = list(cons); self.sg = {}
        for c in self.cons: self.s.add(c)
    def const(self, x): return Series(0, [Poly.c(x)], BIG) if x else Series(0, [], BIG)
    def z(self, P):
        """sign-equivalent z3 term (negative powers belong to positive parameters: cleared)"""
        lo = {}
        for m in P.d:
            for a, e in m:
                if e < 0: lo[a] = min(lo.get(a, 0), e)
        t = []
        for m, x in P.d.items():
            d = {a: -e for a, e in lo.items()}
            for a, e in m: d[a] = d.get(a, 0) + e
            f = z3.RealVal(x)
            for a, e in sorted(d.items()):
                for _ in range(e): f = f * z3.Real(a)
            t.append(f)
        return z3.Sum(t) if t else z3.RealVal(0)
    def sign(self, P):
        if not P.d: return 0
        if all(all(a in self.pos or e % 2 == 0 for a, e in m) for m in P.d):
            if all(x > 0 for x in P.d.values()): return 1
            if all(x < 0 for x in P.d.values()): return -1
        l = min(P.d); k = P.sc(1 / abs(P.d[l])); key = frozenset(k.d.items())
        if key in self.sg: return self.sg[key]
        nk = frozenset(k.sc(-1).d.items())
        if nk in self.sg: return -self.sg[nk]
        t = self.z(P); can = {}
        for s, f in ((1, t > 0), (-1, t < 0)):
            self.s.push(); self.s.add(f, *[z3.Real(a) > 0 for a in self.pos]); r = self.s.check(); self.s.pop()
            self.chk.queries += 1; self.chk.unsat += r == z3.unsat; self.chk.sat += r == z3.sat
            can[s] = r != z3.unsat
        if can[1] and can[-1]: raise Fork(P)
        r = 1 if can[1] else -1 if can[-1] else 0
        self.sg[key] = r
        return r
    def cut(self, s, c, n):
        n = min(n, s + self.N + 4)
        return Series(s, c[:max(0, n - s + 1)], n)
    def add(self, A, B, k=1):
        n = min(A.n, B.n)
        if not A.c and not B.c: return Series(0, [], n)
        s = min([X.s for X in (A, B) if X.c]); e = min(n, max([X.s + len(X.c) - 1 for X in (A, B) if X.c]))
        return Series(s, [A.at(i) + (B.at(i) if k == 1 else B.at(i).sc(k)) for i in range(s, e + 1)], n)
    def mul(self, A, B):
        if not A.c or not B.c: return Series(0, [], BIG if (not A.c and A.n >= BIG) or (not B.c and B.n >= BIG) else min(A.n + (B.s if B.c else B.n), B.n + (A.s if A.c else A.n), BIG))
        n = min(A.n + B.s, B.n + A.s, BIG); n = min(n, A.s + B.s + self.N); s = A.s + B.s
        c = []
        for k in range(min(n - s, len(A.c) + len(B.c) - 2) + 1):
            t = Poly()
            for i in range(max(0, k - len(B.c) + 1), min(k, len(A.c) - 1) + 1):
                if A.c[i].d and B.c[k - i].d: t = t + A.c[i] * B.c[k - i]
            c.append(t)
        if min(A.n + B.s, B.n + A.s) >= BIG and n - s >= len(A.c) + len(B.c) - 2: n = BIG
        return Series(s, c, n)
    def div(self, A, B):
        if not B.c: raise ZeroDivisionError
        if len(B.c[0].d) != 1: raise NotMonomial
        i0 = B.c[0].inv(); L = min(self.N, B.n - B.s)
        v = [i0]
        if len(B.c) > 1:
            for k in range(1, L + 1):
                t = Poly()
                for j in range(1, min(k, len(B.c) - 1) + 1): t = t + B.c[j] * v[k - j]
                v.append((t * i0).sc(-1))
            I = Series(-B.s, v, -B.s + L)
        else: I = Series(-B.s, v, BIG if B.n >= BIG else -B.s + L)
        return self.mul(A, I)
    def sgn(self, A):
        if not A.c:
            return 0
        return self.sign(A.c[0])
    def run(self, roots, env):
        p = self.p; val = {}
        for j in sorted(p.cone(roots)):
            o = p.op[j]; k = [val[x] for x in p.kids(j)]
            if o == "const": v = self.const(ratio(p.k[j]))
            elif o == "var": v = env(p.k[j])
            elif o == "+": v = self.add(*k)
            elif o == "-": v = self.add(k[0], k[1], -1)
            elif o == "*": v = self.mul(*k)
            elif o == "/": v = self.div(*k)
            elif o == "neg": v = Series(k[0].s, [x.sc(-1) for x in k[0].c], k[0].n)
            elif o == "abs": v = k[0] if self.sgn(k[0]) >= 0 else Series(k[0].s, [x.sc(-1) for x in k[0].c], k[0].n)
            elif o in ("max", "min"):
                d = self.sgn(self.add(k[0], k[1], -1))
                v = k[0] if (d >= 0) == (o == "max") else k[1]
            elif o in ("<", "<=", "=", "!="):
                d = self.sgn(self.add(k[1], k[0], -1)); v = {"<": d > 0, "<=": d >= 0, "=": d == 0, "!=": d != 0}[o]
            elif o == "and": v = k[0] and k[1]
            elif o == "or": v = k[0] or k[1]
            elif o == "not": v = not k[0]
            elif o == "true": v = True
            elif o == "false": v = False
            elif o == "ite": v = k[1] if k[0] else k[2]
            else: raise RuntimeError("operation " + o)
            val[j] = v
        return [val[r] for r in roots]
