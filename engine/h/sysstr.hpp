// the subgrid-scale model alone: its forcing for an arbitrary (symbolic) velocity field
#pragma once
#define SPROBE report_stress
#define SSTR 1
#include "harness.hpp"
#include <libmpdata++/solvers/mpdata_rhs_vip.hpp>
#define final
#include <libmpdata++/solvers/mpdata_rhs_vip_prs_sgs.hpp>
#undef final
#include "sys.hpp"
