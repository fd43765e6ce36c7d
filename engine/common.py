"""helpers shared by the checks that compare runs"""
from vlib import *
from nf import NF, schemas
from sweep import Sweep, sample_env
import cfgs, re
from fractions import Fraction
IX = re.compile(r"^(.*)\[([-\d,]+)\]$")
def enc(chk, c, extra=()):
    chk.encoded |= encoded_for(c.opts, c.nd, ["bcond::" + "/".join(c.bc), c.family] + list(extra))
def size(c, small=False):
    """grid for a configuration"""
    if c.nd == 1: kw = dict(nx=6)
    elif c.nd == 2: kw = dict(nx=5, ny=6)
    else: kw = dict(nx=4, ny=5, nz=4)
    if small and c.nd > 1: kw = dict(nx=4, ny=5) if c.nd == 2 else dict(nx=4, ny=4, nz=4)
    if "p" in c.bc: kw.update(nx=5)
    kw["iters"] = 2 if c.nd == 3 or "iga" in c.opts or c.family not in ("adv",) else 3
    return kw
def inputs_of(witness):
    return {k: v for k, v in witness.items() if not k.startswith(("junk", "fp!", "race"))}
def random_inputs(chk, witness, k, ranges=None):
    """k-th concrete assignment of the inputs: 0 the witness, then random ones within the same magnitudes"""
    env = inputs_of(witness)
    if k == 0: return env
    rng = np.random.default_rng(100 * chk.seed + k)
    out = {}
    for n, v in env.items():
        if n.startswith("psi") or n.startswith("gc"):
            w = [witness[m] for m in env if m.split("[")[0] == n.split("[")[0]]
            lo, hi = min(w), max(w)
            x = float(rng.uniform(lo, hi))
            if k % 2 and n.startswith("psi") and lo >= 0 and rng.uniform() < .3: x = lo
            out[n] = x
        elif n.startswith(("G[", "vab", "rel", "tht")): out[n] = v * float(rng.uniform(.9, 1.1))
        else: out[n] = v
    return out
def rel_diff(pairs, tol=1e-12, floor=1e-6):
    r = []
    for n, a, b in pairs:
        if a == b or (a != a and b != b): continue
        if not (abs(a - b) <= tol * max(floor, abs(a), abs(b))): r.append((n, a, b))
    return r
def compare_terms(chk, name, c, p, pairs, concrete, what, info, ok="", path_pairs=()):
    """pairs (label, term, term): same for all floating-point inputs?  Otherwise concrete(k) -> (values, values, inputs) replays on the real code"""
    bad = euf_differing(chk, p, pairs)
    pd = [x for x in path_pairs if x[0] != x[1]]
    if not bad and not pd: chk.ok(name, ok or "%d values, same terms" % len(pairs)); return True
    for k in range(6):
        r = concrete(k)
        if r is None: continue
        va, vb, env = r
        d = rel_diff([(n, va[n], vb.get(n, float("nan"))) for n in va], tol=info.get("tol", 1e-12))
        if d:
            chk.violation(name, "%s: %s = %.17g vs %.17g" % (what, d[0][0], d[0][1], d[0][2]), dict(info, inputs=env, differences=d[:10], cfg=c.code(), harness=c.harness), info.get("key"))
            return False
    chk.undec(name, "terms differ structurally but no numerical difference found: %s %s" % ([b[0] for b in bad][:4], "path" if pd else ""))
    return False

def compare_nf(chk, name, c, p, pairs, concrete, what, info, ok="", verify=True, positive=None, tol=1e-9, floor=1e-4, tries=6, cls=None, sweep=None, limit=None, cut=()):
    """pairs (label, node, node[, sign]): equal over the reals?  Normal forms, every step a lemma discharged by z3, then one
    query per configuration over the outputs.  Otherwise concrete(k) -> (values, expected values, inputs) replays on the real code"""
    nf = (cls or NF)(chk, p, verify=verify, **({"positive": positive} if positive else {}), **({"limit": limit} if limit else {}))
    for j in cut: nf.of[j] = nf.intern({((nf.atom(("cut", j)), 1),): Fraction(1)})      # nodes taken as unknowns
    bad = nf.diff(pairs)
    if not bad:
        failed = nf.certify() if verify else 0
        if verify and not nf.final(pairs): failed += 1
        if failed: chk.undec(name, "normal forms agree, but %d batches of lemmas were not discharged: %s" % (failed, str(nf.failed[:1])[:200])); return False
        chk.ok(name, ok or "%d values, %d lemmas" % (len(pairs), len(nf.lem))); return True
    for k in range(tries):
        r = concrete(k)
        if r is None: continue
        va, vb, env = r
        d = rel_diff([(n, va[n], vb.get(n, float("nan"))) for n in va], tol, floor)
        if d:
            chk.violation(name, "%s: %s = %.17g vs %.17g" % (what, d[0][0], d[0][1], d[0][2]), dict(info, inputs=env, differences=d[:10], cfg=c.code(), harness=c.harness), info.get("key"))
            return False
    if sweep is not False and compare_sweep(chk, name, c, p, bad, ok, **(sweep or {})): return True
    chk.undec(name, "not proven equal over the reals (%s: %d of %d), no numerical difference found" % (bad[0][0], len(bad), len(pairs)))
    return False

def compare_sweep(chk, name, c, p, pairs, ok="", prefix=None, **kw):
    """equal over the reals (or equal up to a sign given with the pair), by sweeping?"""
    ev = sample_env(chk.seed, signed="abs" in c.optset or "iga" in c.optset)
    s = Sweep(chk, p, [x for t in pairs for x in t[1:3]], ev, **kw)
    bad = [t for t in pairs if not s.equal(t[1], t[2], t[3] if len(t) > 3 else 1)]
    if bad: return False
    chk.ok(name, ok or "%d values, %d nodes, %d local lemmas" % (len(pairs), len(s.val), s.proved)); return True
