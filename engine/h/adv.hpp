// homogeneous advection: solvers::mpdata<> in ND dimensions, any option set and boundary conditions
#pragma once
#include "harness.hpp"
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <libmpdata++/bcond/cyclic_3d.hpp>
#include <libmpdata++/bcond/open_1d.hpp>
#include <libmpdata++/bcond/open_2d.hpp>
#include <libmpdata++/bcond/open_3d.hpp>
#include <libmpdata++/bcond/rigid_2d.hpp>
#include <libmpdata++/bcond/rigid_3d.hpp>
#include <libmpdata++/bcond/polar_2d.hpp>
#include <libmpdata++/bcond/polar_3d.hpp>
#include <libmpdata++/bcond/gndsky_2d.hpp>
#include <libmpdata++/bcond/gndsky_3d.hpp>
#include <libmpdata++/solvers/mpdata.hpp>
using namespace libmpdataxx;
#ifdef PROBE
#include "probe.hpp"
#endif
template <class C> int scen()
{
  using namespace H;
  using ctp = typename C::ctp;
#ifdef PROBE
  using slv_t = PROBE<solvers::mpdata<ctp>>;
#else
  using slv_t = solvers::mpdata<ctp>;
#endif
  constexpr int ND = ctp::n_dims, NEQ = ctp::n_eqns;
  using run_t = typename C::template run_t<slv_t>;
  typename slv_t::rt_params_t p;
  int n[3] = {argi("nx", 4), ND > 1 ? argi("ny", 4) : 1, ND > 2 ? argi("nz", 4) : 1};
  for (int d = 0; d < ND; ++d) p.grid_size[d] = n[d];
  p.n_iters = argi("iters", 2);
  p.max_abs_div_eps = 1e300;
  p.upwind_filter_freq = argi("upwind_filter_freq", 0);
  // in a cyclic direction the first and the last point are the same point (period n-1)
  bool cyc[3] = {C::cyc(0), C::cyc(1), C::cyc(2)};
  auto name = [&](const std::string &b, int i, int j, int k) {
    int c[3] = {i, j, k};
    for (int d = 0; d < ND; ++d) if (cyc[d]) c[d] = (c[d] + n[d] - 1) % (n[d] - 1);
    return nm(b, c[0], c[1], c[2]);
  };
#ifdef PROBE
  for (int d = 0; d < 3; ++d) { probe_cyc[d] = cyc[d]; probe_rig[d] = C::rig(d); }
#endif
  run_t run(p);
  for (int e = 0; e < NEQ; ++e)
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k)
      AT<ND>(run.advectee(e),i,j,k) = in(name("psi" + std::to_string(e),i,j,k));
  const double Cm = 0.6 / ND;
  for (int d = 0; d < ND; ++d)
    for (int i = (d==0?-1:0); i < n[0]; ++i) for (int j = (d==1?-1:0); j < n[1]; ++j) for (int k = (d==2?-1:0); k < n[2]; ++k)
      AT<ND>(run.advector(d),i,j,k) = in(name("gc" + std::to_string(d),i,j,k), -Cm, Cm);
  if (opts::isset(ctp::opts, opts::nug))
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k)
      AT<ND>(run.g_factor(),i,j,k) = in(name("G",i,j,k), 1.1, 1.9);
  std::stringstream nts(arg("nt", "1")); std::string s;
  while (std::getline(nts, s, ',')) run.advance(atoi(s.c_str()));
  for (int e = 0; e < NEQ; ++e)
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k)
      out(nm("psi" + std::to_string(e),i,j,k), AT<ND>(run.advectee(e),i,j,k));
  return 0;
}
