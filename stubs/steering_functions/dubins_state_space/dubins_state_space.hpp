#pragma once
#include "steering_functions/steering_functions.hpp"
class Dubins_State_Space : public f2c_stub::Space { public: Dubins_State_Space(double k, double disc = 0.1, bool = true) : Space(k, disc) {} };
