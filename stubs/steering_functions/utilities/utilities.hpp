#pragma once
#include <cmath>
#include <algorithm>
#include "steering_functions/steering_functions.hpp"
using std::max;
using std::min;
// Integrates a clothoid numerically (Simpson); same contract as the library's closed form.
inline void end_of_clothoid(double x_i, double y_i, double theta_i, double kappa_i, double sigma, double direction,
    double length, double* x_f, double* y_f, double* theta_f, double* kappa_f) {
  const int n = 200; double h = length/n, x = 0, y = 0;
  auto th = [&](double s) { return theta_i + direction*kappa_i*s + 0.5*direction*sigma*s*s; };
  for (int i = 0; i < n; ++i) { double a = i*h, m = a+h/2, b = a+h;
    x += h/6*(std::cos(th(a))+4*std::cos(th(m))+std::cos(th(b)));
    y += h/6*(std::sin(th(a))+4*std::sin(th(m))+std::sin(th(b))); }
  *x_f = x_i + direction*x; *y_f = y_i + direction*y; *theta_f = th(length); *kappa_f = kappa_i + sigma*length;
}
