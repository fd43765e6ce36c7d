// homogeneous advection in which the field and the antidiffusive velocities a corrective pass starts from are arbitrary
#pragma once
#define PROBE arbitrary_correction
#include "adv.hpp"
