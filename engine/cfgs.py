"""advection configurations shared by the checks"""
from vlib import Cfg
def O(s): return "|".join("opts::" + x for x in s.split("|")) if s not in ("0", "") else "0"
BC = {"c": "cyclic", "o": "open", "r": "rigid", "p": "polar", "g": "gndsky"}
def adv(nd, opts, bc=None, neq=1, ctx="", harness="adv"):
    """bc: one letter (or two: left, right) per dimension, separated by '.'"""
    bcs = (bc or "c").split(".")
    while len(bcs) < nd: bcs.append(bcs[-1])
    ct = "enum { n_dims = %d }; enum { n_eqns = %d }; static constexpr opts::opts_t o_ = %s; enum { opts = o_ }; %s" % (nd, neq, O(opts), ctx)
    name = "%s%dd_%s_%s_n%d%s" % (harness, nd, opts.replace("|", "-"), "".join(bcs), neq, "_" + "".join(ch for ch in ctx if ch.isalnum()) if ctx else "")
    c = Cfg(name, harness, ct, [(BC[b[0]], BC[b[-1]]) for b in bcs], cost=nd)
    c.nd, c.opts, c.bc, c.neq = nd, opts, bcs, neq
    c.family = "adv"; c.optset = set(opts.split("|")) - {"0"}
    return c

# ---------------------------------------------------------------- equation systems (harness sys)
def _sys(name, nd, neq, opts, bc, ct, solver, params="", init="", gc=False, lo=".5", hi="1.5", body=None, cost=None, harness="sys"):
    bcs = (bc or "c").split(".")
    while len(bcs) < nd: bcs.append(bcs[-1])
    ctx = "enum { n_dims = %d }; enum { n_eqns = %d }; static constexpr opts::opts_t o_ = %s; enum { opts = o_ }; %s" % (nd, neq, O(opts), ct)
    mem = """
  template <class CT> using slv = %s;
  static constexpr bool gc = %s;
  static double lo(int e) { return %s; } static double hi(int e) { return %s; }
  template <class P> static void params(P &p) { using namespace H; %s }
  template <class R, class F> static void init(R &run, F fill) { using namespace H; %s }
""" % (solver, "true" if gc else "false", lo, hi, params, init)
    c = Cfg(name, harness, ctx, [(BC[b[0]], BC[b[-1]]) for b in bcs], members=mem, cost=cost or nd * 1.6)
    c.nd, c.opts, c.bc, c.neq = nd, opts, bcs, neq
    c.optset = set(opts.split("|")) - {"0"}
    c.family = name.split("_")[0]
    return c
def _nm(fam, nd, opts, bc, *more): return "_".join([fam, "%dd" % nd, opts.replace("|", "-"), (bc or "c").replace(".", "")] + [str(m) for m in more])
def rhs(nd, opts, scheme, bc="c", neq=2, ctx="", tag=""):
    """mpdata_rhs with a coupled, non-local test right-hand side"""
    return _sys(_nm("rhs", nd, opts, bc, scheme, tag) , nd, neq, opts, bc, "enum { rhs_scheme = solvers::%s }; %s" % (scheme, ctx), "H::rhs_test<solvers::mpdata_rhs<CT>>", gc=True)
VIPIX = {1: "struct ix { enum { u, tht, vip_i=u, vip_den=%s }; };", 2: "struct ix { enum { u, w, tht, vip_i=u, vip_j=w, vip_den=%s }; };", 3: "struct ix { enum { u, v, w, tht, vip_i=u, vip_j=v, vip_k=w, vip_den=%s }; };"}
VEL = {1: "e==0 ? -.3 : .5", 2: "e<2 ? -.3 : .5", 3: "e<3 ? -.3 : .5"}, {1: "e==0 ? .3 : 1.5", 2: "e<2 ? .3 : 1.5", 3: "e<3 ? .3 : 1.5"}
VABI = "if (opts::isset(0,0)) {} fill(run.vab_coefficient(), \"vab\", 0.1, 0.9); for (int d = 0; d < %d; ++d) fill(run.vab_relaxed_state(d), \"rel\" + std::to_string(d), -.3, .3);"
def vip(nd, opts, scheme="trapez", bc="c", den=False, vab=None, ctx="", tag="", eps=None):
    """mpdata_rhs_vip: velocity (or momentum over density) is part of the state"""
    ct = "enum { rhs_scheme = solvers::%s }; %s %s %s" % (scheme, VIPIX[nd] % ("tht" if den else "-1"), "enum { vip_vab = solvers::%s };" % vab if vab else "", ctx)
    return _sys(_nm("vip", nd, opts, bc, scheme, "den" if den else "", vab or "", tag), nd, nd + 1, opts, bc, ct, "H::rhs_test<solvers::mpdata_rhs_vip<CT>>",
                params=("p.vip_eps = %s;" % eps if eps else ""), init=(VABI % nd if vab else ""), lo=VEL[0][nd], hi=VEL[1][nd])
def prs(nd, opts, prsch="cr", bc="c", scheme="trapez", vab=None, ctx="", tag="", tol=".05", k=2):
    """mpdata_rhs_vip_prs: pressure projection"""
    ct = "enum { rhs_scheme = solvers::%s }; %s enum { prs_scheme = solvers::%s }; %s %s %s" % (scheme, VIPIX[nd] % "-1", prsch, "enum { prs_k_iters = %d };" % k if prsch == "gcrk" else "", "enum { vip_vab = solvers::%s };" % vab if vab else "", ctx)
    par = "p.prs_tol = in(\"tol\", %s, %s);" % (tol, tol) + (" p.pc_iters = 1;" if prsch == "pc" else "")
    return _sys(_nm("prs", nd, opts, bc, prsch, scheme, vab or "", tag), nd, nd + 1, opts, bc, ct, "H::rhs_test<solvers::mpdata_rhs_vip_prs<CT>>", params=par, init=(VABI % nd if vab else ""), lo=VEL[0][nd], hi=VEL[1][nd])
def sgs(nd, opts, sg="dns", diff="compact", bc="c.r", prsch="cr", ctx="", tag="", tol=".05"):
    ct = "enum { rhs_scheme = solvers::trapez }; %s enum { prs_scheme = solvers::%s }; enum { sgs_scheme = solvers::%s }; enum { stress_diff = solvers::%s }; %s" % (VIPIX[nd] % "-1", prsch, sg, diff, ctx)
    par = "p.prs_tol = in(\"tol\", %s, %s);" % (tol, tol) + (" p.eta = in(\"eta\", .01, .02);" if sg == "dns" else " p.smg_c = in(\"smg_c\", .1, .2); p.c_m = .0856;") + (" p.cdrag = in(\"cdrag\", .1, .2);" if diff == "compact" else "")
    return _sys(_nm("sgs", nd, opts, bc, sg, diff, tag), nd, nd + 1, opts, bc, ct, "H::rhs_test<solvers::mpdata_rhs_vip_prs_sgs<CT>>", params=par, lo=VEL[0][nd], hi=VEL[1][nd], cost=nd * 2)
def swe(nd, opts, bc="c", scheme="trapez", ctx="", tag="", eps=None):
    ix = {1: "struct ix { enum { qx, h, vip_i=qx, vip_den=h }; };", 2: "struct ix { enum { qx, qy, h, vip_i=qx, vip_j=qy, vip_den=h }; };"}[nd]
    return _sys(_nm("swe", nd, opts, bc, scheme, tag), nd, nd + 1, opts, bc, "enum { rhs_scheme = solvers::%s }; %s enum { hint_norhs = opts::bit(ix::h) }; %s" % (scheme, ix, ctx),
                "solvers::shallow_water<CT>", params="p.g = in(\"g\", 1., 1.2);" + (" p.vip_eps = %s;" % eps if eps else ""), lo="e<%d ? -.2 : 1." % nd, hi="e<%d ? .2 : 1.4" % nd)
def bous(nd, opts, bc="c.r", impl=False, vab=None, sg="iles", diff="compact", prsch="cr", tag="", tol=".05", filt=False, ctx="", absorb=True):
    ct = ("enum { rhs_scheme = solvers::trapez }; %s enum { prs_scheme = solvers::%s }; enum { impl_tht = %s }; enum { sgs_scheme = solvers::%s }; enum { stress_diff = solvers::%s }; %s %s"
          % (VIPIX[nd] % "-1", prsch, "true" if impl else "false", sg, diff, "enum { vip_vab = solvers::%s };" % vab if vab else "", ctx))
    par = "p.prs_tol = in(\"tol\", %s, %s); p.g = in(\"g\", 1., 1.2); p.Tht_ref = in(\"Tht_ref\", 10., 12.);" % (tol, tol)
    if filt: par += " p.buoy_filter = true;"
    if sg == "dns": par += " p.eta = in(\"eta\", .01, .02);"
    if sg in ("smg", "smgani"): par += " p.smg_c = in(\"smg_c\", .1, .2); p.c_m = .0856; p.prandtl_num = in(\"prandtl\", .4, .5); p.hflux_const = in(\"hflux\", .1, .2); p.cdrag = in(\"cdrag\", .1, .2);"
    ini = "fill(run.sclr_array(\"tht_e\"), \"tht_e\", 1., 2.);" + (" fill(run.sclr_array(\"tht_abs\"), \"tht_abs\", .1, .2);" if absorb else "")
    if sg == "smg": ini += " fill(run.sclr_array(\"mix_len\"), \"mix\", .5, 1.);"
    if sg == "smgani": ini += " fill(run.sclr_array(\"mix_len_h\"), \"mixh\", .5, 1.); fill(run.sclr_array(\"mix_len_v\"), \"mixv\", .5, 1.);"
    if vab: ini += VABI % nd
    return _sys(_nm("bous", nd, opts, bc, "impl" if impl else "expl", vab or "", sg, tag), nd, nd + 1, opts, bc, ct, "solvers::boussinesq<CT>", params=par, init=ini, lo=VEL[0][nd], hi=VEL[1][nd], cost=nd * 2.2)
def phi(c):
    """the same with the pressure solver's result being an arbitrary field"""
    import copy
    d = copy.copy(c); d.harness = "sysphi"; d.name = c.name + "_phi"; d.ident = c.ident + "_phi"; return d
def res(c):
    """the same with a pressure solver that reports its residual"""
    import copy
    d = copy.copy(c); d.harness = "sysres"; d.name = c.name + "_res"; d.ident = c.ident + "_res"; return d

def stress(c):
    """the same, reporting the subgrid-scale forcing for an arbitrary velocity field"""
    import copy
    d = copy.copy(c); d.harness = "sysstr"; d.name = c.name + "_str"; d.ident = c.ident + "_str"; return d
