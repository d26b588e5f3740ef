#pragma once
#include "steering_functions/steering_functions.hpp"
class Reeds_Shepp_State_Space : public f2c_stub::Space { public: Reeds_Shepp_State_Space(double k, double disc = 0.1) : Space(k, disc) {} };
