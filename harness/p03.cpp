// P03: turns against a fresh planner without cache, against the steering stand-in asked directly in the field's frame, and against their own mirror images.
#include "mc.h"
#include "fields2cover.h"
#include <steering_functions/dubins_state_space/dubins_state_space.hpp>
#include <steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp>
using namespace f2c::types; using namespace f2c;
struct Req { double x, y, a, X, Y, b; };
static std::unique_ptr<pp::TurningBase> make(int k) {
  switch (k) { case 0: return std::make_unique<pp::DubinsCurves>(); case 1: return std::make_unique<pp::DubinsCurvesCC>(); case 2: return std::make_unique<pp::ReedsSheppCurves>(); case 3: return std::make_unique<pp::ReedsSheppCurvesHC>(); }
  return nullptr;
}
// A user's own planner: goes back and forth, and misses both ends by a little, to the side the caller asks for.
struct Zigzag : pp::TurningBase {
  double off{0}; int calls{0};
  F2CPath createSimpleTurn(const F2CRobot& r, double d, double s, double e) override {
    ++calls; F2CPath p; p.addState(Point(off, off), s, 1.0, PathDirection::FORWARD, PathSectionType::TURN, r.getTurnVel()); p.addState(Point(1 + d, 2 + r.getMaxCurv()), s + e, discretization, PathDirection::BACKWARD, PathSectionType::TURN, r.getTurnVel());
    p.addState(Point(d - off, r.getMaxDiffCurv()), e + 1, 0.25, PathDirection::FORWARD, PathSectionType::TURN, r.getTurnVel()); p.addState(Point(d - off, off), e, 0.0, PathDirection::FORWARD, PathSectionType::TURN, r.getTurnVel()); return p;
  }
};
static Req rotated(const Req& q, double ang, double cx, double cy) { auto f = [&](double x, double y, double& u, double& v) { u = cx + std::cos(ang) * (x - cx) - std::sin(ang) * (y - cy); v = cy + std::sin(ang) * (x - cx) + std::cos(ang) * (y - cy); }; Req r; f(q.x, q.y, r.x, r.y); f(q.X, q.Y, r.X, r.Y); r.a = q.a + ang; r.b = q.b + ang; return r; }
static Req mirrored(const Req& q) { return {q.x, -q.y, -q.a, q.X, -q.Y, -q.b}; }
static Req moved(const Req& q, double dx, double dy) { return {q.x + dx, q.y + dy, q.a, q.X + dx, q.Y + dy, q.b}; }
static F2CPath ask(pp::TurningBase& t, const Robot& r, const Req& q) { return t.createTurn(r, Point(q.x, q.y), q.a, Point(q.X, q.Y), q.b); }
static double wrap(double a) { return std::fabs(std::remainder(a, 2 * M_PI)); }
static void same(mc::Ctx& c, const F2CPath& p, const F2CPath& q, double tol, const char* key) {
  c.eq(p.size(), q.size(), key, "number of states");
  for (size_t i = 0; i < p.size(); ++i) { auto& s = p[i]; auto& o = q[i]; c.check(std::hypot(s.point.getX() - o.point.getX(), s.point.getY() - o.point.getY()) <= tol, key, mc::str("state ", i, " at ", s.point.getX(), ",", s.point.getY(), " not ", o.point.getX(), ",", o.point.getY()));
    c.check(wrap(s.angle - o.angle) <= tol, key, mc::str("heading of state ", i)); c.near(s.len, o.len, tol, key, mc::str("length of state ", i)); c.near(s.velocity, o.velocity, 1e-12, key, mc::str("velocity of state ", i)); c.eq((int)s.dir, (int)o.dir, key, "direction"); c.eq((int)s.type, (int)o.type, key, "type"); }
}
static void sound(mc::Ctx& c, const F2CPath& p, const Robot& r, const Req& q, double tol) {
  c.check(p.size() > 1, "endpoints", "empty turn"); c.check(std::hypot(p[0].point.getX() - q.x, p[0].point.getY() - q.y) <= tol && std::hypot(p.back().point.getX() - q.X, p.back().point.getY() - q.Y) <= tol, "endpoints", "the turn does not join the requested positions");
  c.check(wrap(p[0].angle - q.a) <= 1e-6 && wrap(p.back().angle - q.b) <= 1e-6, "headings", "the turn does not start and end in the requested directions");
  for (auto& s : p) { c.near(s.velocity, r.getTurnVel(), 1e-12, "velocity"); c.eq((int)s.type, (int)PathSectionType::TURN, "type"); }
}
// -- every history of settings and requests
static const std::vector<Req>& base() {
  static std::vector<Req> v = [] { Req q{1, 2, 1.5, 6, 2, -1.4}; std::vector<Req> v{q, {1, 2, 1.5, 6.0004, 2, -1.4}, {1, 2, 1.5004, 6, 2, -1.4}, {1, 2, 1.5, 6, 2, -1.4004}, mirrored(q), moved(rotated(q, 2.1, 0, 0), -7, 3), {6, 2, -1.4, 1, 2, 1.5}}; return v; }();
  return v;
}
struct Op { int kind; double v; std::string name; };
static const std::vector<Op>& ops(bool t) {
  static std::vector<Op> q, th;
  if (q.empty()) {
    for (size_t i = 0; i < base().size(); ++i) q.push_back({0, (double)i, mc::str("turn ", i)});
    for (double d : {0.5, 0.8}) q.push_back({1, d, mc::str("discretization ", d)});
    q.push_back({2, 2.0, "turn velocity 2"}); q.push_back({3, 0.5, "turn radius 0.5"}); q.push_back({4, 0.25, "curvature change 0.25"}); q.push_back({5, 0, "cache off"}); q.push_back({5, 1, "cache on"});
    th = q; th.push_back({1, 0.8004, "discretization 0.8004"}); th.push_back({6, 3.0, "cruise velocity 3"}); th.push_back({3, 0.5004, "turn radius 0.5004"}); th.push_back({2, 2.0004, "turn velocity 2.0004"}); th.push_back({4, 0.2504, "curvature change 0.2504"});
  }
  return t ? th : q;
}
static void histories(mc::Ctx& c) {
  int kind = c.choose(5); auto t = make(kind); auto z = std::make_shared<Zigzag>(); z->off = 0.03; pp::TurningBase& T = kind < 4 ? *t : *z; T.setDiscretization(1.0); Robot r(2.0, 3.0); r.setMinTurningRadius(1.0); r.setMaxDiffCurv(0.5); double disc = 1.0; bool any = false; int n = c.tier(3, 4);
  auto request = [&](int i) {
    const Req& q = base()[i]; auto p = ask(T, r, q); std::unique_ptr<pp::TurningBase> f = make(kind); Zigzag fz; fz.off = 0.03; pp::TurningBase& F = kind < 4 ? *f : fz; F.setUsingCache(false); F.setDiscretization(disc); auto want = ask(F, r, q);
    same(c, p, want, 1e-5, "history"); if (kind < 4) { sound(c, p, r, q, 1e-6); } else { c.check(p[0].point.getX() == q.x && p[0].point.getY() == q.y && p.back().point.getX() == q.X && p.back().point.getY() == q.Y, "corrected-ends", "a turn that misses its ends slightly is not completed"); } c.outcome(mc::str(kind, " ", p.size(), " ", p.length())); any = true;
  };
  c.note("planner ", kind);
  for (int i = 0; i < n; ++i) {
    const Op& o = c.pick(ops(c.thorough())); c.note(o.name); c.step();
    switch (o.kind) { case 0: request((int)o.v); break; case 1: T.setDiscretization(o.v); disc = o.v; c.near(T.getDiscretization(), o.v, 0, "setting"); break; case 2: r.setTurnVel(o.v); break; case 3: r.setMinTurningRadius(o.v); break; case 4: r.setMaxDiffCurv(o.v); break; case 5: T.setUsingCache(o.v > 0); c.eq(T.getUsingCache(), o.v > 0, "setting"); break; case 6: r.setCruiseVel(o.v); break; }
    c.state(mc::str(kind, disc, r.getTurnVel(), r.getMinTurningRadius(), r.getMaxDiffCurv(), T.getUsingCache(), c.trace()));
  }
  request(0); if (any) c.nontrivial(c.trace());
}
// -- every geometry of a request
static F2CPath direct(const Robot& r, const Req& q, double disc, bool smooth) {
  steer::State s, e; s.x = q.x; s.y = q.y; s.theta = q.a; e.x = q.X; e.y = q.Y; e.theta = q.b; auto v = smooth ? HC00_Reeds_Shepp_State_Space(r.getMaxCurv(), r.getMaxDiffCurv(), disc).get_path(s, e) : Dubins_State_Space(r.getMaxCurv(), disc).get_path(s, e); F2CPath p;
  for (size_t i = 0; i < v.size(); ++i) p.addState(Point(v[i].x, v[i].y), v[i].theta, i + 1 < v.size() ? std::hypot(v[i].x - v[i + 1].x, v[i].y - v[i + 1].y) : 0, PathDirection::FORWARD, PathSectionType::TURN, r.getTurnVel()); return p;
}
static void geometry(mc::Ctx& c) {
  int kind = c.choose(4); std::vector<double> dirs = c.thorough() ? std::vector<double>{0, 0.4, M_PI / 2, 2.2, M_PI, 4.0, 5.5} : std::vector<double>{0, 0.4, 2.2, M_PI, 5.5};
  int na = c.tier(8, 12); double d = c.pick(std::vector<double>{0.3, 2.1, 5, 40}), dir = c.pick(dirs), a = dir + 0.11 + 2 * M_PI * c.choose(na) / na, b = dir + 0.27 + 2 * M_PI * c.choose(na) / na + (c.flag() ? 4 * M_PI : 0);
  Robot r(2.0, 3.0); r.setMinTurningRadius(1.0); r.setMaxDiffCurv(0.5); r.setTurnVel(1.5); Req q{3, -4, a, 3 + d * std::cos(dir), -4 + d * std::sin(dir), b}; c.note("planner ", kind, " turn over ", d, " towards ", dir, " from ", a, " to ", b);
  auto plan = [&](const Req& k) { auto t = make(kind); t->setDiscretization(0.7); return ask(*t, r, k); };
  auto p = plan(q); sound(c, p, r, q, 1e-6); double L = p.length();
  if (kind != 1) same(c, p, direct(r, q, 0.7, kind == 3), 1e-6, "shape");   // generic angles: the shortest turn is unique
  for (size_t i = 0; i + 1 < p.size(); ++i) c.near(p[i].len, std::hypot(p[i].point.getX() - p[i + 1].point.getX(), p[i].point.getY() - p[i + 1].point.getY()), 1e-9, "chained");
  Req m = mirrored(q); auto pm = plan(m); sound(c, pm, r, m, 1e-6); F2CPath mp = p; for (auto& s : mp) { s.point.setY(-s.point.getY()); s.angle = -s.angle; } same(c, pm, mp, 1e-6, "mirrored");
  Req t = moved(q, 100, -50); auto pt = plan(t); F2CPath tp = p; for (auto& s : tp) s.point = Point(s.point.getX() + 100, s.point.getY() - 50); same(c, pt, tp, 1e-6, "translated");
  for (double g : {1.0, 3.3}) { Req k = rotated(q, g, 0, 0); auto pk = plan(k); F2CPath kp = p; for (auto& s : kp) { double x = s.point.getX(), y = s.point.getY(); s.point = Point(x * std::cos(g) - y * std::sin(g), x * std::sin(g) + y * std::cos(g)); s.angle += g; } same(c, pk, kp, 1e-6, "rotated"); }
  c.nontrivial(c.trace()); c.outcome(mc::str(L)); c.step(5);
}
static void ties(mc::Ctx& c) {   // square angles: the shortest turn may not be unique, so only what is the same for all of them
  int kind = c.choose(4); double d = c.pick(std::vector<double>{0, 0.5, 1, 2, 5}), dir = M_PI / 2 * c.choose(4), a = dir + M_PI / 4 * c.choose(8), b = dir + M_PI / 4 * c.choose(8); Robot r(2.0, 3.0); r.setMinTurningRadius(1.0); r.setMaxDiffCurv(0.5);
  Req q{0, 0, a, std::round(1e6 * d * std::cos(dir)) / 1e6, std::round(1e6 * d * std::sin(dir)) / 1e6, b}; c.note("planner ", kind, " turn over ", d, " towards ", dir, " from ", a, " to ", b); auto plan = [&](const Req& k) { auto t = make(kind); t->setDiscretization(0.02); return ask(*t, r, k); };
  auto p = plan(q); if (d == 0 && wrap(a - b) < 1e-9) { c.near(p.length(), 0, 1e-6, "no-turn"); return; } sound(c, p, r, q, 1e-6); auto pm = plan(mirrored(q)); c.near(pm.length(), p.length(), 1e-3 * (1 + p.length()), "mirrored-length"); auto pt = plan(moved(q, 10, 20)); c.near(pt.length(), p.length(), 1e-3 * (1 + p.length()), "translated-length"); c.nontrivial(c.trace()); c.step(3);
}
static void normal(mc::Ctx& c) {   // the normal form of a request names the same turn
  auto ang = [&](int k) { return -3 * M_PI + k * M_PI / 6; }; double d = c.pick(std::vector<double>{0, 1, 7.5}), dir = 2 * M_PI * c.choose(12) / 12, a = ang(c.choose(36)), b = ang(c.choose(36)); Req q{1, 2, a, 1 + d * std::cos(dir), 2 + d * std::sin(dir), b}; c.note(d, " towards ", dir, " from ", a, " to ", b);
  auto v = pp::TurningBase::transformToNormalTurn(Point(q.x, q.y), a, Point(q.X, q.Y), b); c.eq(v.size(), size_t(5), "normal"); c.near(v[0], d, 1e-9, "normal", "distance"); if (d > 0) c.check(wrap(v[1] - dir) < 1e-9, "normal", "direction"); c.check(v[4] == 0 || v[4] == 1, "normal", "mirrored");
  c.check(v[2] >= 0 && v[2] <= M_PI + 1e-9 && v[3] >= 0 && v[3] < 2 * M_PI, "normal", mc::str("angles out of range: ", v[2], " ", v[3])); double s = v[4] ? -1 : 1; c.check(wrap(v[1] + s * v[2] - a) < 1e-9, "normal", "start angle"); c.check(wrap(v[1] + s * v[3] - b) < 1e-9, "normal", "end angle"); c.nontrivial(c.trace()); c.step();
}
static void nothing(mc::Ctx& c) {   // a steering library that finds no turn: no turn, no crash
  int kind = c.choose(4), mode = 1 + c.choose(2); bool cache = c.flag(); int q = c.choose(base().size()); struct G { ~G() { f2c_stub::knobs().mode = 0; } } g; f2c_stub::knobs().mode = mode; auto t = make(kind); t->setUsingCache(cache); Robot r(2.0, 3.0);
  for (int i = 0; i < 2; ++i) c.eq(ask(*t, r, base()[q]).size(), size_t(0), "no-turn"); c.nontrivial(mc::str(kind, mode, cache, q)); c.step(2);
}
static void constrained(mc::Ctx& c) {   // turns of the continuous-curvature planner between states given in the field's frame
  Robot r(2.0, 3.0); r.setMinTurningRadius(1.0); r.setMaxDiffCurv(0.5); r.setTurnVel(1.25); int n = 8; double a = 0.1 + M_PI / 4 * c.choose(n), b = 0.3 + M_PI / 4 * c.choose(n); bool fix = c.flag(); double d = c.pick(std::vector<double>{0.5, 6, 20}); Req q{2, -1, a, 2 + d, 3, b}; c.note("from ", a, " to ", b, " over ", d, fix ? " without loops" : ""); pp::DubinsCurvesCC t; t.setDiscretization(0.5);
  auto p = t.createConstrainedTurn(r, Point(q.x, q.y), a, 0, Point(q.X, q.Y), b, 0, fix); sound(c, p, r, q, 1e-6); if (!fix) same(c, p, direct(r, q, 0.5, true), 1e-6, "constrained"); c.nontrivial(c.trace()); c.step();
}
static void own(mc::Ctx& c) {   // a user's planner is asked for the normal form, and its answer is laid back state by state: also the pieces it drives backwards
  int na = 8; double d = c.pick(std::vector<double>{0.3, 5, 40}), dir = c.pick(std::vector<double>{0, 0.4, 2.2, M_PI, 5.5}), a = dir + 0.11 + 2 * M_PI * c.choose(na) / na, b = dir + 0.27 + 2 * M_PI * c.choose(na) / na; bool cache = c.flag(); Robot r(2.0, 3.0); r.setMinTurningRadius(1.0); r.setMaxDiffCurv(0.5); r.setTurnVel(1.5);
  Req q{3, -4, a, 3 + d * std::cos(dir), -4 + d * std::sin(dir), b}; c.note("turn over ", d, " towards ", dir, " from ", a, " to ", b); Zigzag z; z.setUsingCache(cache); z.setDiscretization(0.7); auto p = ask(z, r, q); double s = std::sin(a - dir) < 0 ? -1 : 1; auto pos = [](double t) { t = std::fmod(t, 2 * M_PI); return t < 0 ? t + 2 * M_PI : t; };
  Zigzag f; f.setDiscretization(0.7); auto w = f.createSimpleTurn(r, d, pos(s * (a - dir)), pos(s * (b - dir))); for (auto& k : w) { double x = k.point.getX(), y = s * k.point.getY(); k.point = Point(3 + x * std::cos(dir) - y * std::sin(dir), -4 + x * std::sin(dir) + y * std::cos(dir)); k.angle = s * k.angle + dir; } same(c, p, w, 1e-6, "own");
  for (int i = 0; i < 2; ++i) { same(c, ask(z, r, q), w, 1e-6, "own-again"); } auto m = ask(z, r, mirrored(q)); for (auto& k : w) { k.point.setY(-k.point.getY()); k.angle = -k.angle; } same(c, m, w, 1e-6, "own-mirrored"); c.nontrivial(c.trace()); c.step(4);
}
// which turns count as done: never far behind the headland line, and ending where and how they were asked to
static void valid(mc::Ctx& c) {
  int n = c.choose(c.tier(4, 5)); Path p; static const std::vector<double> Y{1, -0.05, -0.11, -3}; for (int i = 0; i < n; ++i) { double y = c.pick(Y); bool last = i + 1 == n; double ey = last ? c.pick(std::vector<double>{0, 0.09, -0.09, 0.11, -0.11}) : 0, ex = last ? c.pick(std::vector<double>{5, 5.09, 4.91, 5.11, 4.89}) : 1; double len = last && c.flag() ? 0.5 : 0, a = -M_PI / 2 + (last ? c.pick(std::vector<double>{0, 2 * M_PI, 0.05, 0.5, -0.5, M_PI}) : 0); int dir = last && c.flag() ? -1 : 1;
    if (last) { y = ey - dir * len * std::sin(a); ex -= dir * len * std::cos(a); } p.addState(Point(ex, y), a, len, (PathDirection)dir, PathSectionType::TURN, 1.0); }
  double D = 0.1, rot = c.pick(std::vector<double>{0.01, 0.3}), end = -M_PI / 2; c.note(n, " states"); c.step(); double minY = 1e9; for (auto& s : p) minY = std::min(minY, s.point.getY()); bool want = n > 0;
  if (n > 0) { auto& b = p.back(); double x = b.point.getX() + (int)b.dir * b.len * std::cos(b.angle), y = b.point.getY() + (int)b.dir * b.len * std::sin(b.angle); want = minY >= -D && std::cos(b.angle - end) >= 1 - rot && std::fabs(x - 5) < D && std::fabs(y) < D; }
  c.eq(pp::TurningBase::isTurnValid(p, 5, end, D, rot), want, "valid"); if (want) c.nontrivial(c.trace()); c.outcome(mc::str(want)); c.validated();
}
// the limits of the robot: no planner asks for a tighter curve than the robot drives, and the continuous-curvature planner makes a turn wider only to keep it from circling
static void circles(mc::Ctx& c) {
  int kind = c.choose(5), na = c.tier(12, 24); double R = c.pick(std::vector<double>{1.0, 4.0}), sharp = c.pick(std::vector<double>{0.2, 2.0}), d = R * c.pick(std::vector<double>{0.2, 0.9, 1.7, 2.6, 3.9, 12}), a = 0.11 + 2 * M_PI * c.choose(na) / na, b = 0.27 + 2 * M_PI * c.choose(na) / na; Robot r(2.0, 3.0); r.setMinTurningRadius(R); r.setMaxDiffCurv(sharp); r.setTurnVel(1.5); Req q{0, 0, a, d, 0, b};
  c.note("planner ", kind, " turn over ", d, " from ", a, " to ", b, " radius ", R, " sharpness ", sharp); F2CPath p; if (kind == 4) { pp::DubinsCurvesCC t; t.setDiscretization(0.2 * R); p = t.createConstrainedTurn(r, Point(0, 0), a, 0, Point(d, 0), b, 0, true); } else { auto t = make(kind); t->setDiscretization(0.2 * R); p = ask(*t, r, q); }
  sound(c, p, r, q, 1e-6); auto& k = f2c_stub::knobs(); c.check(k.kappa <= r.getMaxCurv() + 1e-12, "limits", mc::str("asked for curvature ", k.kappa, " of a robot that drives ", r.getMaxCurv())); c.check(k.sigma <= r.getMaxDiffCurv() + 1e-12, "limits", mc::str("asked for a change of curvature of ", k.sigma, " of a robot that drives ", r.getMaxDiffCurv()));
  if (kind == 1 || kind == 4) { steer::State s, e; s.x = s.y = 0; s.theta = a; s.kappa = 0; e.x = d; e.y = 0; e.theta = b; e.kappa = 0; auto turned = [&](int n) { double t = 0, u = 0; for (auto& g : HC00_Reeds_Shepp_State_Space(r.getMaxCurv() / (1 + 0.05 * n), r.getMaxDiffCurv() / (1 + 0.2 * n), 1).get_controls(s, e)) { double w = g.delta_s * g.kappa / (2 * M_PI); t += w; u += std::fabs(w); if (std::fabs(w) > 0.9) u = 9; } return std::max(std::fabs(t) / 0.9, u / 1.5); };
    double own = turned(0), best = own; for (int n = 1; n <= 20; ++n) best = std::min(best, turned(n)); double t = 0, u = 0, run = 0, m = 0; for (size_t i = 0; i + 1 < p.size(); ++i) { double w = std::remainder(p[i + 1].angle - p[i].angle, 2 * M_PI) / (2 * M_PI); t += w; u += std::fabs(w); run = w * run < 0 || std::fabs(w) < 1e-9 ? w : run + w; m = std::max(m, std::fabs(run)); }
    double got = std::max({std::fabs(t) / 0.9, u / 1.5, m / 0.9}); if (own < 0.98) same(c, p, direct(r, q, 0.2 * R, true), 1e-6, "widened"); else if (own > 1.02 && best < 0.98) { c.check(got < 1.02, "circles", mc::str("turns ", t, " times around, and ", u, " in all, where a wider turn does not")); c.nontrivial(c.trace()); } }
  else c.nontrivial(c.trace());
  c.outcome(mc::str(p.length())); c.step();
}
static void setup() { mc::add("valid", valid, 2); mc::add("own", own, 3); mc::add("histories", histories, 3); mc::add("geometry", geometry, 4); mc::add("ties", ties, 3); mc::add("normal", normal, 3); mc::add("nothing", nothing); mc::add("constrained", constrained); mc::add("circles", circles, 3); }
MC_MAIN
