// equation systems with a pressure solver whose result is an arbitrary field
#pragma once
#define SPROBE arbitrary_pressure
#include "harness.hpp"
#include <libmpdata++/solvers/mpdata_rhs_vip.hpp>
#define final   // the iterative part of the solver is overridden
#include <libmpdata++/solvers/mpdata_rhs_vip_prs_sgs.hpp>
#undef final
#include "sys.hpp"
