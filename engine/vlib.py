"""Driver: builds the symbolic executables from /repo's current tree, loads the expression DAGs they produce and
decides assertions over them with z3.  See DESIGN.md."""
import multiprocessing.connection
import os, sys, json, time, subprocess, shutil, math, hashlib, itertools
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import z3

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = os.path.join(ROOT, "engine")
T0 = time.time()

# ------------------------------------------------------------------ building
class BuildError(Exception): pass
class Slow(Exception): pass
class Enough(Exception): pass   # enough violations reported

def build_dir(tag):
    d = os.path.join(ROOT, "build", tag)
    os.makedirs(d, exist_ok=True)
    return d

_inc = {}
import threading
_inclock = threading.Lock()
def blitz_inc(sym=True):
    """include directory in front of the system's: Blitz++ compiler configuration for clang; for symbolic builds also where()"""
    with _inclock:
        if sym in _inc: return _inc[sym]
        d = os.path.join(ROOT, "build", "inc-%s-%d" % ("sym" if sym else "dbl", os.getpid()))
        os.makedirs(os.path.join(d, "blitz", "llvm"), exist_ok=True)
        src = subprocess.run("ls /usr/include/blitz/gnu/bzconfig.h /usr/include/*/blitz/gnu/bzconfig.h 2>/dev/null", shell=True, capture_output=True, text=True).stdout.split()[0]
        shutil.copy(src, os.path.join(d, "blitz", "llvm", "bzconfig.h"))
        if sym: subprocess.run([sys.executable, os.path.join(ENG, "mkblitz.py"), d], check=True)
        _inc[sym] = d
        return d

def compile_tu(cfgs, out, sym=True):
    """one program holding several configurations of one harness (selected at run time with cfg=NAME)"""
    src = out + ".cpp"
    with open(src, "w") as f:
        f.write('#include "h/%s.hpp"\n' % cfgs[0].harness)
        for c in cfgs: f.write(c.code())
        f.write("static int dummy = (%s 0);\n" % "".join('H::reg()["%s"] = [] { return scen<cfg_%s>(); }, ' % (c.name, c.ident) for c in cfgs))
    cxx = os.environ.get("VERIF_CXX", "clang++")
    cmd = [cxx, "-std=c++17", "-O0", "-DNDEBUG", "-D_REENTRANT", "-w", "-ftemplate-depth=2000"]
    cmd += ["-Xclang", "-fno-access-control"] if "clang" in cxx else ["-fno-access-control"]
    cmd += ["-I" + blitz_inc(sym)]
    if sym: cmd += ["-DSYMBOLIC", "-ftrivial-auto-var-init=pattern"]
    cmd += ["-I" + os.path.join(ENG, "stubs"), "-I" + REPO, "-I" + ENG]
    for c in cfgs[:1]: cmd += list(c.extra)
    cmd += [src, "-o", out, "-pthread", "-lboost_timer"]
    if "clang" in cxx: cmd += ["-fuse-ld=lld"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stderr.splitlines() if "error" in l or "Error" in l][:8]
        raise BuildError(" ".join(cmd) + "\n" + "\n".join(errs))

class Cfg:
    """one instantiation of a harness"""
    def __init__(self, name, harness, ct, bc, extra=(), members="", cost=1.0):
        self.name, self.harness, self.ct, self.bcs, self.extra, self.members, self.cost = name, harness, ct, bc, tuple(extra), members, cost
        self.ident = "".join(ch if ch.isalnum() else "_" for ch in name)
    def code(self):
        bcl = ", ".join("bcond::%s, bcond::%s" % p for p in self.bcs)
        return ("struct cfg_%s { struct ctp : ct_params_default_t { using real_t = num; %s };\n"
          "  template <class S> using run_t = H::workers<S, %s>;\n"
          "  static constexpr bool cyc(int d) { constexpr bool c[] = {%s, false, false, false}; return c[d]; }\n  static constexpr bool rig(int d) { constexpr bool c[] = {%s, false, false, false}; return c[d]; }\n%s\n};\n"
          % (self.ident, self.ct, bcl, ", ".join("true" if p[0] == "cyclic" else "false" for p in self.bcs), ", ".join("true" if p[0] == "rigid" else "false" for p in self.bcs), self.members))
    flags = code
    def __repr__(self): return self.name

class Builder:
    def __init__(self, tag):
        self.dir = build_dir(tag); self.pool = ThreadPoolExecutor(8); self.fut = {}; self.exe = {}; self.n = 0
        blitz_inc(True); blitz_inc(False)
    def plan(self, cfgs, sym=True, per=None):
        """group configurations into translation units and start compiling them"""
        todo = [c for c in cfgs if (c.name, sym) not in self.fut]
        groups = {}
        for c in todo: groups.setdefault((c.harness, c.extra), []).append(c)
        total = sum(c.cost for c in todo) or 1
        limit = per or max(4.0, total / 8.0)
        tus = []
        for g in groups.values():
            g.sort(key=lambda c: -c.cost)
            cur, s = [], 0.0
            for c in g:
                if cur and s + c.cost > limit * 1.02: tus.append((s, cur)); cur, s = [], 0.0
                cur.append(c); s += c.cost
            if cur: tus.append((s, cur))
        tus.sort(key=lambda t: -t[0])
        for _, g in tus:
            self.n += 1
            exe = os.path.join(self.dir, "tu%d" % self.n + (".sym" if sym else ".dbl"))
            f = self.pool.submit(compile_tu, g, exe, sym)
            for c in g: self.fut[(c.name, sym)] = f; self.exe[(c.name, sym)] = exe
    def start(self, cfg, sym=True): self.plan([cfg], sym)
    def get(self, cfg, sym=True):
        k = (cfg.name, sym)
        if k not in self.fut: self.plan([cfg], sym)
        try: self.fut[k].result()
        except BuildError:
            if self.exe[k].endswith(".one"): raise
            self.n += 1
            exe = os.path.join(self.dir, "tu%d.%s.one" % (self.n, "sym" if sym else "dbl"))
            self.exe[k] = exe; self.fut[k] = self.pool.submit(compile_tu, [cfg], exe, sym)
            self.fut[k].result()
        return self.exe[k]
    def get_direct(self, cfg, sym):
        """for worker processes (no thread pool after fork)"""
        k = (cfg.name, sym)
        if k in self.fut and self.fut[k].done() and self.fut[k].exception() is None: return self.exe[k]
        exe = os.path.join(self.dir, "p%d.%s.%s" % (os.getpid(), cfg.ident, "sym" if sym else "dbl"))
        if not os.path.exists(exe): compile_tu([cfg], exe, sym)
        return exe
    def close(self):
        self.pool.shutdown(cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

def run_exe(exe, timeout=300, **kw):
    out = exe + ".%d.%s.out" % (os.getpid(), hashlib.md5(repr(sorted(kw.items())).encode()).hexdigest()[:10])
    args = [exe, "out=" + out] + ["%s=%s" % kv for kv in kw.items()]
    try: r = subprocess.run(args, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: raise Slow('%s: no result within %d s' % (kw.get('cfg'), timeout))
    if not os.path.exists(out): raise RuntimeError("no output from %s rc=%s %s" % (args, r.returncode, r.stderr[-500:]))
    return out

# ------------------------------------------------------------------ expression pool
COMM = {"+", "*", "min", "max", "and", "or", "=", "!="}
REL = {"<", "<=", ">", ">=", "=", "!="}
def ratio(v):
    """rational meaning of a floating-point literal: the simplest fraction it is the nearest double of"""
    f = Fraction(v)
    for d in (1, 10, 1000, 100000):
        g = f.limit_denominator(d)
        if float(g) == v: return g
    return f

class Pool:
    def __init__(self):
        self.op, self.a, self.b, self.c, self.k = [], [], [], [], []   # k: constant (float) or variable name
        self.tbl = {}
        self._z = {}
    def mk(self, op, a=-1, b=-1, c=-1, k=None):
        if op in COMM and a > b: a, b = b, a
        if op == ">": op, a, b = "<", b, a
        elif op == ">=": op, a, b = "<=", b, a
        key = (op, a, b, c, k)
        i = self.tbl.get(key)
        if i is None:
            i = len(self.op); self.tbl[key] = i
            self.op.append(op); self.a.append(a); self.b.append(b); self.c.append(c); self.k.append(k)
        return i
    def const(self, v): return self.mk("const", k=float(v) + 0.0)
    def var(self, n): return self.mk("var", k=n)
    def add(self, x, y): return self.mk("+", x, y)
    def sub(self, x, y): return self.mk("-", x, y)
    def mul(self, x, y): return self.mk("*", x, y)
    def div(self, x, y): return self.mk("/", x, y)
    def neg(self, x): return self.mk("neg", x)
    def kids(self, i):
        return [x for x in (self.a[i], self.b[i], self.c[i]) if x >= 0]
    def cone(self, roots):
        seen = set(); st = list(roots)
        while st:
            i = st.pop()
            if i in seen: continue
            seen.add(i); st.extend(self.kids(i))
        return seen
    def vars_of(self, roots): return {self.k[i] for i in self.cone(roots) if self.op[i] == "var"}
    def subst(self, roots, f, simp=False):
        """copy of the cone of roots with variable named n replaced by pool node f(n) (None: keep)"""
        new = {}
        mk = self.smk if simp else self.mk
        for i in sorted(self.cone(roots)):
            o = self.op[i]
            if o == "var":
                r = f(self.k[i]); new[i] = i if r is None else r
            elif o in ("const", "true", "false"): new[i] = i
            else: new[i] = mk(o, *[new[x] if x >= 0 else -1 for x in (self.a[i], self.b[i], self.c[i])])
        return [new[r] for r in roots]
    # simplifying constructor (valid over the reals); used to propagate zeros and constants after substitution
    def cval(self, i): return self.k[i] if self.op[i] == "const" else None
    def smk(self, op, a=-1, b=-1, c=-1, k=None):
        ca = self.cval(a) if a >= 0 else None; cb = self.cval(b) if b >= 0 else None
        if op == "+":
            if ca == 0: return b
            if cb == 0: return a
        elif op == "-":
            if cb == 0: return a
            if a == b: return self.const(0)
            if ca == 0: return self.smk("neg", b)
        elif op == "*":
            if ca == 0 or cb == 0: return self.const(0)
            if ca == 1: return b
            if cb == 1: return a
        elif op == "/":
            if ca == 0: return self.const(0)
            if cb == 1: return a
        elif op == "neg":
            if ca is not None: return self.const(-ca)
            if self.op[a] == "neg": return self.a[a]
        elif op in ("min", "max"):
            if a == b: return a
            if ca is not None and cb is not None: return self.const(min(ca, cb) if op == "min" else max(ca, cb))
        elif op == "abs" and ca is not None: return self.const(abs(ca))
        elif op in REL and ca is not None and cb is not None:
            r = {"<": ca < cb, "<=": ca <= cb, ">": ca > cb, ">=": ca >= cb, "=": ca == cb, "!=": ca != cb}[op]
            return self.mk("true" if r else "false")
        elif op == "ite":
            if self.op[a] == "true": return b
            if self.op[a] == "false": return c
            if b == c: return b
        return self.mk(op, a, b, c, k)
    # ---------------------------------------------------------------- evaluation (guidance and replay only)
    def evaluate(self, roots, env, n):
        """env: name -> array of n samples"""
        val = {}
        with np.errstate(all="ignore"):
            for i in sorted(self.cone(roots)):
                o = self.op[i]; a = val.get(self.a[i]); b = val.get(self.b[i]); c = val.get(self.c[i])
                if o == "const": v = self.k[i]
                elif o == "var": v = env(self.k[i]) if callable(env) else env[self.k[i]]
                elif o == "+": v = a + b
                elif o == "-": v = a - b
                elif o == "*": v = a * b
                elif o == "/": v = np.divide(a, b)
                elif o == "neg": v = -a
                elif o == "min": v = np.minimum(a, b)
                elif o == "max": v = np.maximum(a, b)
                elif o == "abs": v = np.abs(a)
                elif o == "ite": v = np.where(a, b, c)
                elif o == "<": v = np.less(a, b)
                elif o == "<=": v = np.less_equal(a, b)
                elif o == "=": v = np.equal(a, b)
                elif o == "!=": v = np.not_equal(a, b)
                elif o == "and": v = np.logical_and(a, b)
                elif o == "or": v = np.logical_or(a, b)
                elif o == "not": v = np.logical_not(a)
                elif o == "true": v = True
                elif o == "false": v = False
                elif o == "pow": v = np.power(a, b)
                elif o == "atan2": v = np.arctan2(a, b)
                else: v = {"sqrt": np.sqrt, "exp": np.exp, "log": np.log, "sin": np.sin, "cos": np.cos, "tan": np.tan, "atan": np.arctan,
                           "floor": np.floor, "ceil": np.ceil, "acos": np.arccos, "asin": np.arcsin}[o](a)
                val[i] = v
        return val
    # ---------------------------------------------------------------- z3 terms
    def z3term(self, i, mode="real", cut=None, cache=None):
        """mode euf: every operation is an uninterpreted function; real: arithmetic over the reals"""
        cache = self._z.setdefault(mode, {}) if cache is None else cache
        cut = cut or ()
        st = [i]
        while st:
            j = st[-1]
            if j in cache: st.pop(); continue
            if j in cut:
                cache[j] = (z3.Bool if self.is_bool(j) else z3.Real)("n%d" % j); st.pop(); continue
            ks = self.kids(j)
            todo = [x for x in ks if x not in cache]
            if todo: st.extend(todo); continue
            st.pop()
            cache[j] = self._term(j, [cache[x] for x in ks], mode)
        return cache[i]
    def is_bool(self, j): return self.op[j] in REL or self.op[j] in ("and", "or", "not", "true", "false")
    def _term(self, j, t, mode):
        o = self.op[j]
        if o == "true": return z3.BoolVal(True)
        if o == "false": return z3.BoolVal(False)
        if mode == "euf":
            U = USORT
            if o == "const": return z3.Const("k" + float(self.k[j]).hex(), U)
            if o == "var": return z3.Const(self.k[j], U)
            if o == "and": return z3.And(*t)
            if o == "or": return z3.Or(*t)
            if o == "not": return z3.Not(t[0])
            if o == "ite": return z3.If(t[0], t[1], t[2])
            f = z3.Function("f" + o, *([U] * len(t)), z3.BoolSort() if o in REL else U)
            return f(*t)
        if o == "const": 
            r = ratio(self.k[j]); return z3.RealVal(r)
        if o == "var": return z3.Real(self.k[j])
        if o == "+": return t[0] + t[1]
        if o == "-": return t[0] - t[1]
        if o == "*": return t[0] * t[1]
        if o == "/": return t[0] / t[1]
        if o == "neg": return -t[0]
        if o == "min": return z3.If(t[0] < t[1], t[0], t[1])
        if o == "max": return z3.If(t[0] > t[1], t[0], t[1])
        if o == "abs": return z3.If(t[0] >= 0, t[0], -t[0])
        if o == "ite": return z3.If(t[0], t[1], t[2])
        if o == "<": return t[0] < t[1]
        if o == "<=": return t[0] <= t[1]
        if o == "=": return t[0] == t[1]
        if o == "!=": return t[0] != t[1]
        if o == "and": return z3.And(*t)
        if o == "or": return z3.Or(*t)
        if o == "not": return z3.Not(t[0])
        f = z3.Function("u_" + o, *([z3.RealSort()] * (len(t) + 1)))
        return f(*t)

USORT = z3.DeclareSort("U")

class Run:
    """result of one symbolic execution"""
    def __init__(self, pool, fn, ren=None, load_events=False):
        self.pool = pool; self.out = {}; self.path = []; self.conc = []; self.notes = []; self.events = []; self.witness = {}
        ids = []
        ok = False
        with open(fn) as f:
            for l in f:
                t = l[0]
                if t == "c": ids.append(pool.const(float.fromhex(l[2:].strip()))) if l[1] == " " else self.conc.append(ids[int(l[5:])])
                elif t == "o" and l[1] == " ":
                    _, o, a, b, c = l.split()
                    n = ARITY.get(o, 2)
                    ids.append(pool.mk(o, ids[int(a)] if n > 0 else -1, ids[int(b)] if n > 1 else -1, ids[int(c)] if n > 2 else -1))
                elif t == "v":
                    _, n, w = l.split()
                    self.witness[n] = float(w)
                    r = ren(n) if ren else None
                    ids.append(pool.var(n) if r is None else r if isinstance(r, int) else pool.var(r))
                elif t == "o": _, n, i = l.split(); self.out[n] = ids[int(i)]
                elif t == "p": _, i, k = l.split(); self.path.append((ids[int(i)], int(k)))
                elif t == "e" and l[1] == "v":
                    if load_events:
                        _, th, ep, ad, v, w, k = l.split(); self.events.append((int(th), int(ep), int(ad), ids[int(v)], int(w), int(k)))
                elif l.startswith("note "): self.notes.append(l[5:].strip())
                elif l.startswith("end"): ok = True
        self.nodes = len(ids)
        if not ok: raise RuntimeError("incomplete output " + fn)
    @property
    def exc(self):
        return next((n for n in self.notes if n.startswith("exception")), None)
ARITY = {"neg": 1, "abs": 1, "sqrt": 1, "exp": 1, "log": 1, "sin": 1, "cos": 1, "tan": 1, "atan": 1, "acos": 1, "asin": 1, "floor": 1, "ceil": 1, "not": 1, "true": 0, "false": 0, "ite": 3}

def load_vals(fn):
    ins, vals, notes = {}, {}, []
    with open(fn) as f:
        for l in f:
            if l.startswith("in "): _, n, v = l.split(); ins[n] = float(v)
            elif l.startswith("val "): _, n, v = l.split(); vals[n] = float(v)
            elif l.startswith("note "): notes.append(l[5:].strip())
    return ins, vals, notes

# ------------------------------------------------------------------ check object: accounting, verdict, evidence
class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time(); self.queries = self.discharged = self.undecided = self.unsat = self.sat = 0
        self.solver_s = 0.0; self.items = []; self.viol = []; self.assumptions = []; self.encoded = set(); self.bounds = []
        self.known = load_known(pid); self.known_hit = {}
        self.B = Builder(pid + "-" + tier + "-%d" % os.getpid())
        self.samples = []
        self.budget = 800 if tier == "quick" else 3600 * 6
        self.skipped = []
        self.errors = []
    def left(self): return self.budget - (time.time() - self.t0)
    # --- running
    def usable(self, cfgs):
        """configurations that compile; an option set that does not compile with ordinary doubles is a violation"""
        if self.only: cfgs = [c for c in cfgs if self.only in c.name]
        self.B.plan(cfgs)
        ok = []
        for c in cfgs:
            try: self.B.get(c); ok.append(c)
            except BuildError as e:
                try:
                    self.B.get(c, False); self.undec(c.name, "symbolic build fails: " + str(e)[-300:])
                except BuildError as e2:
                    self.violation(c.name, "configuration does not compile: " + str(e2)[-400:], {"cfg": c.code()})
        return ok
    child = False
    def exe(self, cfg, sym): return self.B.get_direct(cfg, sym) if self.child else self.B.get(cfg, sym)
    def each(self, tasks, fn, nproc=8):
        """fn(chk, *task) for every task, in worker processes; results are merged"""
        import multiprocessing as mp
        global _CUR
        _CUR = (self, fn, tasks)
        ctx = mp.get_context("fork"); todo = list(range(len(tasks)))[::-1]; run = []
        item_limit = float(os.environ.get("VITEM", 150 if self.tier == "quick" else 1500))
        def stop():
            for q, c, i, t in run: q.kill()
        try:
            while todo or run:
                while todo and len(run) < nproc:
                    i = todo.pop(); a, b = ctx.Pipe(False)
                    q = ctx.Process(target=_child, args=(i, b)); q.start(); b.close(); run.append((q, a, i, time.time()))
                mp.connection.wait([c for q, c, i, t in run], timeout=1.0)
                for e in list(run):
                    q, c, i, t = e; r = None
                    if c.poll():
                        try: r = c.recv()
                        except EOFError: r = {"error": "%s: the worker process died" % (tasks[i],)}
                    elif time.time() - t > item_limit or self.left() < 8: r = {"error": "%s: stopped after %d s" % (tasks[i], time.time() - t)}
                    if r is None: continue
                    run.remove(e); q.kill() if "error" in r else None; q.join(); c.close()
                    if "error" in r: self.undec(str(tasks[i]), r["error"]); continue
                    for k in ("queries", "unsat", "sat", "solver_s", "discharged", "undecided"): setattr(self, k, getattr(self, k) + r[k])
                    for k in ("items", "viol", "skipped"): getattr(self, k).extend(r[k])
                    self.encoded |= r["encoded"]; self.known_hit.update(r["known_hit"])
                    if len(self.samples) < 40: self.samples += r["samples"][:3]
                    if len(self.viol) >= int(os.environ.get("VMAX", "3")): raise Enough()
        finally: stop()
    def run(self, cfg, pool, ren=None, load_events=False, **kw):
        exe = self.exe(cfg, True)
        fn = run_exe(exe, cfg=cfg.name, seed=self.seed, **kw)
        try: r = Run(pool, fn, ren, load_events)
        finally: os.unlink(fn)
        r.cfg, r.kw = cfg, kw
        return r
    def run_double(self, cfg, given, **kw):
        exe = self.exe(cfg, False)
        g = exe + ".given.%d" % len(self.items)
        with open(g, "w") as f:
            for k, v in given.items(): f.write("%s %.17g\n" % (k, v))
        fn = run_exe(exe, cfg=cfg.name, seed=self.seed, given=g, **kw)
        try: return load_vals(fn)
        finally: os.unlink(fn); os.unlink(g)
    # --- solving
    def differs(self, pairs, tol=1e-13):
        return [(n, a, b) for n, a, b in pairs if not (a == b or (a != a and b != b) or abs(a - b) <= tol * max(abs(a), abs(b)))]
    def envs(self, witness, k=6):
        """concrete inputs on which to replay a solver counterexample: the witness, then random ones"""
        for t in range(k):
            yield {n: (v if t == 0 else float(rand_env(100 * self.seed + t, 1)(n)[0]) if n.startswith(("psi", "gc", "G[")) else v) for n, v in witness.items() if not n.startswith(("junk", "fp!"))}
    def solve(self, cons, timeout=20.0, tactic=None, model=False):
        s = (z3.Tactic(tactic).solver() if tactic else z3.Solver())
        s.set("timeout", int(timeout * 1000))
        s.add(*cons)
        t = time.time(); r = s.check(); self.solver_s += time.time() - t; self.queries += 1
        if r == z3.unsat: self.unsat += 1
        elif r == z3.sat: self.sat += 1
        if model: return str(r), (s.model() if r == z3.sat else None)
        return str(r)
    def ok(self, name, what=""):
        self.discharged += 1
        self.items.append((name, "holds", what))
        if len(self.samples) < 40: self.samples.append("%s: %s" % (name, what or "unsat"))
    def undec(self, name, why):
        self.undecided += 1; self.items.append((name, "undecided", why)); print("UNDECIDED %s: %s" % (name, why), flush=True)
    def violation(self, name, what, replay, key=None):
        """a solver counterexample that reproduced on the real code"""
        key = key or name
        for k in self.known:
            if k["key"] in key:
                self.known_hit[k["key"]] = k; self.items.append((name, "known", what)); return
        d = os.path.join(ROOT, "replay"); os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.md5((name + what).encode()).hexdigest()[:8]))
        json.dump({"property": self.pid, "item": name, "what": what, "replay": replay}, open(fn, "w"), indent=1, default=str)
        self.viol.append((name, what, fn)); self.items.append((name, "violated", what))
        print("VIOLATION property=%s replay=%s\n  %s: %s" % (self.pid, fn, name, what), flush=True)
        if len(self.viol) >= int(os.environ.get("VMAX", "3")) and not self.child: raise Enough()
    def finish(self, explanation):
        for k in self.known_hit.values(): print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        wall = time.time() - self.t0
        n = self.discharged + self.undecided + len(self.viol) + len(self.known_hit)
        cov = {"explanation": explanation + " | functions encoded (executed symbolically from /repo's current tree): " + "; ".join(sorted(self.encoded))
            + " | bounds: " + "; ".join(self.bounds)
            + " | assertions decided: %d of %d (undecided: %d)" % (self.discharged, n, self.undecided)
            + " | solver queries: %d (unsat %d, sat %d, other %d), solver time %.1f s" % (self.queries, self.unsat, self.sat, self.queries - self.unsat - self.sat, self.solver_s),
            "assertions": n, "discharged": self.discharged, "undecided": [list(i) for i in self.items if i[1] == "undecided"], "skipped_for_time": self.skipped,
            "queries": self.queries, "unsat": self.unsat, "sat": self.sat, "solver_s": round(self.solver_s, 2), "functions_encoded": sorted(self.encoded),
            "bounds": self.bounds, "samples": self.samples, "known_findings": list(self.known_hit)}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "wall_s": round(wall, 2), "violations": len(self.viol), "assumptions": self.assumptions}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        self.B.close(); [shutil.rmtree(d, ignore_errors=True) for d in _inc.values()]
        print("%s %s: %d/%d assertions discharged, %d undecided, %d violations, %d queries, solver %.1f s, wall %.1f s" % (self.pid, self.tier, self.discharged, n, self.undecided, len(self.viol), self.queries, self.solver_s, wall), flush=True)
        return 1 if self.viol else 0

_CUR = None
def _child(i, conn):
    r = _work(i)
    try: conn.send(r)
    except Exception as e: conn.send({"error": repr(e)})
    sys.stdout.flush(); os._exit(0)
def _work(i):
    import traceback
    chk, fn, tasks = _CUR
    chk.child = True
    for k in ("queries", "unsat", "sat", "discharged", "undecided"): setattr(chk, k, 0)
    chk.solver_s = 0.0; chk.items, chk.viol, chk.samples, chk.skipped, chk.encoded, chk.known_hit = [], [], [], [], set(), {}
    t0 = time.time()
    try:
        if chk.left() < 45: chk.skipped.append(str(tasks[i])); print("SKIPPED (time) %s" % (tasks[i],), flush=True)
        else: fn(chk, *(tasks[i] if isinstance(tasks[i], tuple) else (tasks[i],)))
    except Slow as e: chk.undec(str(tasks[i]), str(e))
    except Exception:
        return {"error": "%s: %s" % (tasks[i], traceback.format_exc())}
    if os.environ.get("VTIME"): print("TIME %6.1f (solver %.1f) %s" % (time.time() - t0, chk.solver_s, tasks[i]), flush=True)
    return {k: getattr(chk, k) for k in ("queries", "unsat", "sat", "solver_s", "discharged", "undecided", "items", "viol", "skipped", "encoded", "known_hit", "samples")}

def load_known(pid):
    fn = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(fn): return []
    return [k for k in json.load(open(fn))["findings"] if k["property"] == pid]

# ------------------------------------------------------------------ common deciding steps
OPN = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv", "<": "flt", "<=": "fle", "=": "feq", "!=": "fne"}
def euf_smt2(pool, roots, cut=()):
    """SMT-LIB text of the cone of roots with every operation an uninterpreted function; nodes in cut are opaque"""
    out, decl = [], {}
    cone = set(); st = list(roots)
    while st:
        i = st.pop()
        if i in cone: continue
        cone.add(i)
        if i not in cut: st.extend(pool.kids(i))
    for i in sorted(cone):
        o = pool.op[i]; k = pool.kids(i)
        if i in cut and o not in ("const", "var", "true", "false"):
            s = "Bool" if pool.is_bool(i) else "U"; t = "c%d" % i; decl[t] = "() " + s
        elif o == "const": t, s = "|k%s|" % float(pool.k[i]).hex(), "U"; decl[t] = "() U"
        elif o == "var": t, s = "|%s|" % pool.k[i], "U"; decl[t] = "() U"
        elif o in ("true", "false"): t, s = o, "Bool"
        elif o in ("and", "or", "not"): t, s = "(%s %s)" % (o, " ".join("n%d" % x for x in k)), "Bool"
        elif o == "ite": t, s = "(ite n%d n%d n%d)" % tuple(k), "U"
        else:
            f = OPN.get(o, "u_" + o); s = "Bool" if o in REL else "U"
            decl[f] = "(%s) %s" % (" ".join("U" for _ in k), s)
            t = "(%s %s)" % (f, " ".join("n%d" % x for x in k))
        out.append("(define-fun n%d () %s %s)" % (i, s, t))
    return "(declare-sort U 0)\n" + "\n".join("(declare-fun %s %s)" % d for d in decl.items()) + "\n" + "\n".join(out) + "\n"

def euf_differing(chk, pool, pairs):
    """pairs: (name, a, b).  One query: can any pair differ when every floating-point operation is an arbitrary
    function (commutative + and *)?  Returns the pairs for which it can.  Terms are shared between the runs (equal
    applications of equal arguments are one node); nodes that occur on both sides stand for themselves in the query."""
    def q(ps, timeout):
        cut = set(pool.cone([p[1] for p in ps])) & set(pool.cone([p[2] for p in ps]))
        s = z3.Solver(); s.set("timeout", timeout * 1000)
        t = time.time()
        s.from_string(euf_smt2(pool, [x for p in ps for x in p[1:3]], cut) + "(assert (or false %s))" % " ".join("(not (= n%d n%d))" % p[1:3] for p in ps))
        r = s.check(); chk.solver_s += time.time() - t; chk.queries += 1
        if r == z3.unsat: chk.unsat += 1
        elif r == z3.sat: chk.sat += 1
        return r == z3.unsat
    missing = [p for p in pairs if p[1] < 0 or p[2] < 0]
    if missing: return missing
    if q(pairs, 120): return []
    bad = []
    for p in pairs:
        if p[1] == p[2]: continue
        if not q([p], 20): bad.append(p)
        if len(bad) > 6: break
    return bad

def rand_env(seed, n, kind=0):
    """sampled input values (guidance): the magnitude conventions follow the input names"""
    rng = np.random.default_rng(seed)
    d = {}
    def f(name):
        if name not in d:
            if name.startswith("gc"): v = rng.uniform(-.3, .3, n)
            elif name.startswith("fp!eps"): v = np.full(n, 2.220446049250313e-16)
            elif name.startswith("fp!tiny"): v = np.full(n, 2.2250738585072014e-308)
            elif name.startswith("fp!huge"): v = np.full(n, 1.7976931348623157e+308)
            elif name.startswith("fp!nan"): v = np.full(n, np.nan)
            elif name.startswith("G["): v = rng.uniform(1.1, 1.9, n)
            elif name.startswith("psi"): v = np.where(rng.uniform(size=n) < .3, rng.integers(0, 3, n), rng.uniform(0.01, 3, n))
            else: v = rng.uniform(.3, 1.7, n)
            d[name] = v
        return d[name]
    f.d = d
    return f

def base_var(n):
    """name of the input without the per-run prefix"""
    return n

def encoded_for(opts, nd, extra=()):
    r = {"solver<>::solve/cycle_all/xchng (solver_common, solver_%dd)" % nd, "mpdata_osc_%dd::advop" % nd, "formulae::mpdata::antidiff/div_2nd/div_3rd (%dd)" % nd,
         "formulae::donorcell::make_flux/donorcell_sum", "concurr_common ctor/init/advance", "sharedmem, distmem"}
    if "fct" in opts: r |= {"mpdata_fct_%dd::fct_init/fct_adjust_antidiff" % nd, "formulae::mpdata::beta_up/beta_dn/GC_mono (%dd)" % nd}
    return r | set(extra)

def main(fn):
    import argparse, traceback
    if os.environ.get("PYTHONHASHSEED") != "0":      # same set orders, hence same queries, in every run
        os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
    ap = argparse.ArgumentParser(); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only", default="")
    ap.add_argument("--budget", type=float, default=0)
    a = ap.parse_args()
    pid = os.path.basename(sys.argv[0])[:3]
    chk = Check(pid, a.tier); chk.only = a.only
    if a.budget: chk.budget = a.budget
    try:
        try: expl = fn(chk)
        except Enough: expl = "stopped after the first violations"
        rc = chk.finish(expl)
    except BuildError as e:
        print("BUILD FAILED\n" + str(e)); chk.B.close(); sys.exit(2)
    except Exception:
        traceback.print_exc(); chk.B.close(); sys.exit(2)
    sys.stdout.flush(); os._exit(rc)
