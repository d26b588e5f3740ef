#pragma once
#include "steering_functions/steering_functions.hpp"
class HC00_Reeds_Shepp_State_Space : public f2c_stub::Space { public: HC00_Reeds_Shepp_State_Space(double k, double s, double disc = 0.1) : Space(k, s, disc) {} };
