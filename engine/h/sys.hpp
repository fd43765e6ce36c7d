// equation systems: any solver of the mpdata_rhs / vip / prs / sgs / shallow-water / Boussinesq families
// C provides: template<class CT> slv (the solver), params(p), init(run, n) and the flag gc (Courant numbers are inputs)
#pragma once
#include "harness.hpp"
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <libmpdata++/bcond/cyclic_3d.hpp>
#include <libmpdata++/bcond/open_1d.hpp>
#include <libmpdata++/bcond/open_2d.hpp>
#include <libmpdata++/bcond/open_3d.hpp>
#include <libmpdata++/bcond/rigid_2d.hpp>
#include <libmpdata++/bcond/rigid_3d.hpp>
#include <libmpdata++/bcond/gndsky_2d.hpp>
#include <libmpdata++/bcond/gndsky_3d.hpp>
#include <libmpdata++/solvers/mpdata_rhs.hpp>
#include <libmpdata++/solvers/mpdata_rhs_vip.hpp>
#include <libmpdata++/solvers/mpdata_rhs_vip_prs.hpp>
#include <libmpdata++/solvers/mpdata_rhs_vip_prs_sgs.hpp>
#include <libmpdata++/solvers/shallow_water.hpp>
#include <libmpdata++/solvers/boussinesq.hpp>
using namespace libmpdataxx;
namespace H
{
  // a system with a right-hand side that couples the equations and uses neighbouring points:
  // R_e(i) = a_e psi_{e+1}(i) + b_e (psi_e(i+1) - psi_e(i-1))  (first dimension)
  template <class parent_t_> struct rhs_test : parent_t_
  {
    using parent_t = parent_t_;
    using parent_t::parent_t;
    void update_rhs(arrvec_t<typename parent_t::arr_t> &rhs, const typename parent_t::real_t &dt, const int &at)
    {
      parent_t::update_rhs(rhs, dt, at);
      if (this->rank == 0) note("update_rhs at=" + std::to_string(at));
      for (int e = 0; e < parent_t::n_eqns; ++e)
      {
        if (opts::isset(parent_t::ct_params_t_::hint_norhs, opts::bit(e))) continue;
        num a = in("ra" + std::to_string(e)), b = in("rb" + std::to_string(e));
        auto ip = this->ijk, im = this->ijk;
        ip.lbound(0) += 1; ip.ubound(0) += 1; im.lbound(0) -= 1; im.ubound(0) -= 1;
        rhs.at(e)(this->ijk) += a * this->state((e + 1) % parent_t::n_eqns)(this->ijk) + b * (this->state(e)(ip) - this->state(e)(im));
      }
    }
  };
}
#ifdef SPROBE
static bool probe_cyc[3];
// the pressure solver reports what it leaves behind
template <class parent_t_> struct report_residual : parent_t_
{
  using base_t = parent_t_;
  using base_t::base_t;
  int calls = 0;
  static constexpr int ND = parent_t_::n_dims;
  template <class F> void all(F f)
  {
    using namespace H;
    int n[3] = {argi("nx", 4), ND > 1 ? argi("ny", 4) : 1, ND > 2 ? argi("nz", 4) : 1};
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k)
    {
      int c[3] = {i, j, k};
      for (int d = 0; d < ND; ++d) if (probe_cyc[d]) c[d] = (c[d] + n[d] - 1) % (n[d] - 1);
      f(i, j, k, c);
    }
  }
  void report(const std::string &c)
  {
    using namespace H;
    all([&](int i, int j, int k, int *) {
      out(nm("err" + c, i, j, k), AT<ND>(this->err,i,j,k));
      for (int d = 0; d < ND; ++d) { auto v = this->vips()[d]; out(nm("vel" + c + "_" + std::to_string(d), i, j, k), AT<ND>(v,i,j,k)); }
    });
    out("tol" + c, this->err_tol);
    note("iterations " + c + " " + std::to_string(this->iters));
  }
  void hook_ante_loop(const typename parent_t_::advance_arg_t nt) override { parent_t_::hook_ante_loop(nt); report("0"); }
  void vip_rhs_impl_fnlz() override
  {
    using namespace H;
    // an arbitrary state
    all([&](int i, int j, int k, int *c) {
      for (int d = 0; d < ND; ++d) { auto v = this->vips()[d]; AT<ND>(v,i,j,k) = in(nm("ust" + std::to_string(d), c[0], c[1], c[2]), -.3, .3); }
      AT<ND>(this->Phi,i,j,k) = in(nm("phist", c[0], c[1], c[2]), -.1, .1);
    });
    parent_t_::vip_rhs_impl_fnlz();
    report("1");
  }
};
// the pressure solver replaced: its result is an arbitrary (symbolic) field
template <class parent_t_> struct arbitrary_pressure : parent_t_
{
  using base_t = parent_t_;
  using base_t::base_t;
  int calls = 0;
  void pressure_solver_loop_init(bool) override {}
  void pressure_solver_loop_body(bool) override
  {
    using namespace H;
    constexpr int ND = parent_t_::n_dims;
    int n[3] = {argi("nx", 4), ND > 1 ? argi("ny", 4) : 1, ND > 2 ? argi("nz", 4) : 1};
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k)
    {
      int c[3] = {i, j, k};
      for (int d = 0; d < ND; ++d) if (probe_cyc[d]) c[d] = (c[d] + n[d] - 1) % (n[d] - 1);
      AT<ND>(this->Phi,i,j,k) = in(nm("phi" + std::to_string(calls), c[0], c[1], c[2]), -.1, .1);
    }
    ++calls; this->converged = true;
  }
};
#ifdef SSTR
// reports the forcing of the subgrid-scale model for an arbitrary velocity field
template <class parent_t_> struct report_stress : arbitrary_pressure<parent_t_>
{
  using base_t = parent_t_;
  using parent_t = arbitrary_pressure<parent_t_>;
  using parent_t::parent_t;
  static constexpr int ND = parent_t_::n_dims;
  bool done = false;
  void vip_rhs_expl_calc() override
  {
    using namespace H;
    int n[3] = {argi("nx", 4), argi("ny", 4), ND > 2 ? argi("nz", 4) : 1};
    auto all = [&](auto f) { for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) f(i, j, k); };
    all([&](int i, int j, int k) {
      int c[3] = {i, j, k};
      for (int d = 0; d < ND; ++d) if (probe_cyc[d]) c[d] = (c[d] + n[d] - 1) % (n[d] - 1);
      for (int d = 0; d < ND; ++d)
      {
        auto v = this->vips()[d];
        if (done) AT<ND>(v,i,j,k) = 0; else AT<ND>(v,i,j,k) = in(nm("ust" + std::to_string(d), c[0], c[1], c[2]), -.3, .3);
        AT<ND>(this->vip_rhs[d],i,j,k) = 0;
      }
    });
    if (!done)
    {
      parent_t::vip_rhs_expl_calc();
      all([&](int i, int j, int k) { for (int d = 0; d < ND; ++d) out(nm("str" + std::to_string(d), i, j, k), AT<ND>(this->vip_rhs[d],i,j,k)); });
    }
    all([&](int i, int j, int k) { for (int d = 0; d < ND; ++d) { auto v = this->vips()[d]; AT<ND>(v,i,j,k) = 0; AT<ND>(this->vip_rhs[d],i,j,k) = 0; } });
    done = true;
  }
};
#endif
#endif
template <class C> int scen()
{
  using namespace H;
  using ctp = typename C::ctp;
#ifdef SPROBE
  using slv_t = SPROBE<typename C::template slv<ctp>>;
#else
  using slv_t = typename C::template slv<ctp>;
#endif
  constexpr int ND = ctp::n_dims, NEQ = ctp::n_eqns;
  using run_t = typename C::template run_t<slv_t>;
  typename slv_t::rt_params_t p;
  int n[3] = {argi("nx", 4), ND > 1 ? argi("ny", 4) : 1, ND > 2 ? argi("nz", 4) : 1};
  for (int d = 0; d < ND; ++d) p.grid_size[d] = n[d];
  p.n_iters = argi("iters", 2);
  p.max_abs_div_eps = 1e300;
  p.dt = in("dt", .1, .11); p.di = in("di", 1., 1.2);
  if constexpr (ND > 1) p.dj = in("dj", 1., 1.2);
  if constexpr (ND > 2) p.dk = in("dk", 1., 1.2);
  C::params(p);
#ifdef SRES
  { std::stringstream ts(arg("tol", "1.")); double t; ts >> t; p.prs_tol = in("tol", t, t); }
#endif
  bool cyc[3] = {C::cyc(0), C::cyc(1), C::cyc(2)};
#ifdef SPROBE
  for (int d = 0; d < 3; ++d) probe_cyc[d] = cyc[d];
#endif
  auto name = [&](const std::string &b, int i, int j, int k) {
    int c[3] = {i, j, k};
    for (int d = 0; d < ND; ++d) if (cyc[d]) c[d] = (c[d] + n[d] - 1) % (n[d] - 1);
    return nm(b, c[0], c[1], c[2]);
  };
  auto all = [&](auto &&f) { for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) f(i, j, k); };
  run_t run(p);
  auto fill = [&](auto arr, const std::string &b, double lo, double hi) { all([&](int i, int j, int k) { AT<ND>(arr,i,j,k) = in(name(b,i,j,k), lo, hi); }); };
  for (int e = 0; e < NEQ; ++e) fill(run.advectee(e), "psi" + std::to_string(e), C::lo(e), C::hi(e));
  if (C::gc)
  {
    const double Cm = 0.6 / ND;
    for (int d = 0; d < ND; ++d)
      for (int i = (d==0?-1:0); i < n[0]; ++i) for (int j = (d==1?-1:0); j < n[1]; ++j) for (int k = (d==2?-1:0); k < n[2]; ++k)
        AT<ND>(run.advector(d),i,j,k) = in(name("gc" + std::to_string(d),i,j,k), -Cm, Cm);
  }
  if (opts::isset(ctp::opts, opts::nug)) fill(run.g_factor(), "G", 1.1, 1.9);
  C::init(run, fill);
  if (argi("sums", 0)) {}
  std::stringstream nts(arg("nt", "1")); std::string s;
  while (std::getline(nts, s, ',')) run.advance(atoi(s.c_str()));
  for (int e = 0; e < NEQ; ++e) all([&](int i, int j, int k) { out(nm("psi" + std::to_string(e),i,j,k), AT<ND>(run.advectee(e),i,j,k)); });
  if (argi("gcout", 0))
    for (int d = 0; d < ND; ++d)
      for (int i = (d==0?-1:0); i < n[0]; ++i) for (int j = (d==1?-1:0); j < n[1]; ++j) for (int k = (d==2?-1:0); k < n[2]; ++k)
        out(nm("gc" + std::to_string(d),i,j,k), AT<ND>(run.advector(d),i,j,k));
  if constexpr (opts::isset(ctp::opts, opts::div_3rd) || opts::isset(ctp::opts, opts::div_3rd_dt))
    if (argi("ndtout", 0))
      for (int d = 0; d < ND; ++d)
        for (int i = (d==0?-1:0); i < n[0]; ++i) for (int j = (d==1?-1:0); j < n[1]; ++j) for (int k = (d==2?-1:0); k < n[2]; ++k)
        {
          out(nm("gcndt" + std::to_string(d),i,j,k), AT<ND>(run.mem->ndt_GC[d],i,j,k));
          out(nm("gcndtt" + std::to_string(d),i,j,k), AT<ND>(run.mem->ndtt_GC[d],i,j,k));
        }
  return 0;
}
