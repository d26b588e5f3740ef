// Stand-in for the steering_functions library (absent offline): same interface, a plain
// deterministic Dubins curve generator behind every state space. It plays the environment of
// Fields2Cover's turn planners; see DESIGN.md.
#pragma once
#include <cmath>
#include <cstddef>
#include <vector>
#include <limits>
#include <algorithm>
namespace steer {
struct State { double x{1e3}, y{-2e3}, theta{0.7}, kappa{0.3}, d{9}; };  // the real one has no defaults: whatever a caller forgets to set is seen
struct Control { double delta_s{0}, kappa{0}, sigma{0}; };
}
namespace f2c_stub {
constexpr double kPi = 3.14159265358979323846;
inline double mod2pi(double a) { a = std::fmod(a, 2*kPi); return a < 0 ? a + 2*kPi : a; }
struct DubinsWord { double t, p, q; int s0, s1, s2; bool ok; };  // s: +1 left, 0 straight, -1 right
inline double snap(double a) { return (2*kPi - a < 1e-9) ? 0.0 : a; }
// Shortest Dubins word between two poses for curvature kappa.
inline DubinsWord dubins(double x0, double y0, double th0, double x1, double y1, double th1, double kappa) {
  double dx = x1-x0, dy = y1-y0, D = std::hypot(dx, dy)*kappa, th = (D > 0) ? std::atan2(dy, dx) : 0.0;
  double a = mod2pi(th0-th), b = mod2pi(th1-th);
  double sa = std::sin(a), sb = std::sin(b), ca = std::cos(a), cb = std::cos(b), cab = std::cos(a-b);
  DubinsWord best{0,0,0,0,0,0,false}; double bl = std::numeric_limits<double>::max();
  auto upd = [&](double t, double p, double q, int s0, int s1, int s2) {
    t = snap(mod2pi(t)); q = snap(mod2pi(q)); if (s1 != 0) p = snap(mod2pi(p));
    if (t + p + q < bl - 1e-9) { bl = t+p+q; best = {t, p, q, s0, s1, s2, true}; } };
  double p2 = 2 + D*D - 2*cab + 2*D*(sa-sb);
  if (p2 > -1e-12) { double tm = std::atan2(cb-ca, D+sa-sb); upd(-a+tm, std::sqrt(std::max(0.,p2)), b-tm, 1,0,1); }
  p2 = 2 + D*D - 2*cab + 2*D*(sb-sa);
  if (p2 > -1e-12) { double tm = std::atan2(ca-cb, D-sa+sb); upd(a-tm, std::sqrt(std::max(0.,p2)), -b+tm, -1,0,-1); }
  p2 = -2 + D*D + 2*cab + 2*D*(sa+sb);
  if (p2 > -1e-12) { double p = std::sqrt(std::max(0.,p2)); double tm = std::atan2(-ca-cb, D+sa+sb)-std::atan2(-2.,p); upd(-a+tm, p, -b+tm, 1,0,-1); }
  p2 = D*D - 2 + 2*cab - 2*D*(sa+sb);
  if (p2 > -1e-12) { double p = std::sqrt(std::max(0.,p2)); double tm = std::atan2(ca+cb, D-sa-sb)-std::atan2(2.,p); upd(a-tm, p, b-tm, -1,0,1); }
  double tmp = (6 - D*D + 2*cab + 2*D*(sa-sb))/8;
  if (std::fabs(tmp) <= 1) { double p = mod2pi(2*kPi-std::acos(tmp)); double t = mod2pi(a-std::atan2(ca-cb, D-sa+sb)+p/2); upd(t, p, mod2pi(a-b-t+p), -1,1,-1); }
  tmp = (6 - D*D + 2*cab + 2*D*(sb-sa))/8;
  if (std::fabs(tmp) <= 1) { double p = mod2pi(2*kPi-std::acos(tmp)); double t = mod2pi(-a+std::atan2(-ca+cb, D+sa-sb)+p/2); upd(t, p, mod2pi(b-a-t+p), 1,-1,1); }
  return best;
}
inline std::vector<steer::Control> controls(const steer::State& s, const steer::State& e, double kappa) {
  std::vector<steer::Control> r;
  auto w = dubins(s.x, s.y, s.theta, e.x, e.y, e.theta, kappa);
  double len[3] = {w.t, w.p, w.q}; int k[3] = {w.s0, w.s1, w.s2};
  for (int i = 0; i < 3; ++i) if (len[i] > 1e-12) { steer::Control c; c.delta_s = len[i]/kappa; c.kappa = k[i]*kappa; r.push_back(c); }
  return r;
}
inline steer::State step(const steer::State& s, double k, double ds) {
  steer::State r = s;
  if (k == 0) { r.x += ds*std::cos(s.theta); r.y += ds*std::sin(s.theta); }
  else { r.theta = s.theta + k*ds; r.x += (std::sin(r.theta)-std::sin(s.theta))/k; r.y += (std::cos(s.theta)-std::cos(r.theta))/k; }
  r.theta = mod2pi(r.theta); r.kappa = k; r.d = ds < 0 ? -1 : 1;
  return r;
}
// Environment knobs the harness sets.
struct Knobs { long calls{0}; int mode{0}; double kappa{0}, sigma{0}; };  // mode 1: answer with an empty path; 2: a single state; kappa, sigma: the limits the last path was asked for with
inline Knobs& knobs() { static Knobs k; return k; }
struct Space {
  double kappa, disc, asked, sharp;
  Space(double k, double d) : kappa(k), disc(d), asked(k), sharp(0) {}
  Space(double k, double s, double d) : kappa(k / (1.0 + 0.1 * k / (s + 1.0))), disc(d), asked(k), sharp(s) {}   // a curve whose curvature changes gradually is a little wider
  std::vector<steer::Control> get_controls(const steer::State& s, const steer::State& e) const { return controls(s, e, kappa); }
  std::vector<steer::State> get_path(const steer::State& s, const steer::State& e) const {
    ++knobs().calls; knobs().kappa = asked; knobs().sigma = sharp;
    std::vector<steer::State> r;
    if (knobs().mode == 1) return r;
    steer::State cur = s; cur.d = 1; cur.theta = mod2pi(cur.theta); r.push_back(cur);
    if (knobs().mode == 2) return r;
    for (auto& c : get_controls(s, e)) {
      steer::State base = r.back();
      int n = std::max(1, (int)std::ceil(std::fabs(c.delta_s)/disc - 1e-9));
      for (int i = 1; i <= n; ++i) r.push_back(step(base, c.kappa, i < n ? i*disc : c.delta_s));
    }
    return r;
  }
};
}
