// homogeneous advection which also reports the field a corrective pass starts from
#pragma once
#define PROBE report_pass
#include "adv.hpp"
