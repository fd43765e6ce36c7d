// equation systems whose pressure solver reports its residual and the velocities it leaves, from an arbitrary (symbolic) state
#pragma once
#define SPROBE report_residual
#define SRES 1
#include "harness.hpp"
#include <libmpdata++/solvers/mpdata_rhs_vip.hpp>
#define final
#include <libmpdata++/solvers/mpdata_rhs_vip_prs_sgs.hpp>
#undef final
#include "sys.hpp"
