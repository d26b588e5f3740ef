#pragma once
#include "steering_functions/steering_functions.hpp"
class CC00_Dubins_State_Space : public f2c_stub::Space { public: CC00_Dubins_State_Space(double k, double s, double disc = 0.1, bool = true) : Space(k, s, disc) {} };
