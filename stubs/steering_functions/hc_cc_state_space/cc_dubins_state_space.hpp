#pragma once
#include "steering_functions/steering_functions.hpp"
class CC_Dubins_State_Space : public f2c_stub::Space { public: CC_Dubins_State_Space(double k, double s, double disc = 0.1, bool = true) : Space(k, s, disc) {}
  // starts and ends with the curvatures given: anything but 0 gives another curve
  std::vector<steer::State> get_path(steer::State s, steer::State e) const { s.x += s.kappa; e.y += e.kappa; return Space::get_path(s, e); } };
