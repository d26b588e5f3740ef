// A01: angle reduction, differences, averages and continuity, and point arithmetic, against long-double plane geometry.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L, TP = 2 * PI;
static ld wrap(ld a) { return a - TP * std::floor(a / TP); }
static ld circ(ld a, ld b) { ld d = wrap(a - b); return d > PI ? TP - d : d; }
static const std::vector<double>& angles(bool th) {
  static std::vector<double> v[2]; auto& r = v[th];
  if (r.empty()) {
    int den = th ? 24 : 12, turns = th ? 4 : 3;
    for (int k = -turns * 2 * den; k <= turns * 2 * den; ++k) { double a = k * (double)PI / den; r.push_back(a); if (k % den == 0) for (double e : {1e-9, 1e-15, 1e-300}) { r.push_back(a + e); r.push_back(a - e); r.push_back(std::nextafter(a, 100)); r.push_back(std::nextafter(a, -100)); } }
    for (double a : {1e-17, -1e-17, 0.1, -0.1, 100.0, -100.0, 12345.678, -12345.678}) r.push_back(a);
  }
  return r;
}
static void reduce(mc::Ctx& c) {
  double a = c.pick(angles(true)); c.note(a); double m = Point::mod_2pi(a);
  c.check(m >= 0 && m < 2 * M_PI, "reduced-range", mc::str(a, " -> ", m)); c.check(circ(m, a) < 1e-11, "reduced-turns", mc::str(a, " -> ", m));
  for (double b : {1.0, 0.5, 7.25, 360.0}) { double r = Point::mod(a, b); c.check(r >= 0 && r < b, "mod-range", mc::str(a, " mod ", b, " = ", r)); ld k = ((ld)a - r) / b; c.check(std::fabs(k - std::round(k)) < 1e-10, "mod", mc::str(a, " mod ", b, " = ", r)); }
  c.nontrivial(mc::str("m", a)); c.outcome(mc::str(m));
}
static void pairs(mc::Ctx& c) {
  auto& A = angles(c.thorough()); double a = c.pick(A), b = c.pick(A); c.note(a, " ", b);
  double d = LineString::getAngleDiffAbs(a, b), e = LineString::getAngleDiffAbs(b, a);
  c.check(d >= 0 && d <= M_PI, "difference-range", mc::str(d)); c.near(d, e, 1e-11, "difference-symmetric"); c.near(d, circ(a, b), 1e-10, "difference");
  double g = Point::getAngleAvg(a, b); ld D = circ(a, b);
  c.near(circ(g, a), D / 2, 1e-10, "average", mc::str("of ", a, " and ", b, " is ", g)); c.near(circ(g, b), D / 2, 1e-10, "average", mc::str("of ", a, " and ", b, " is ", g));
  double k = Cell::getAngContinuity(a, b); c.check(std::fabs(k - a) <= M_PI + 1e-9, "continuity-jump", mc::str("from ", a, " to ", b, " gives ", k)); c.check(circ(k, b) < 1e-10, "continuity-angle", mc::str("from ", a, " to ", b, " gives ", k));
  c.nontrivial(mc::str(a, " ", b)); c.outcome(mc::str(d, " ", g, " ", k));
}
static void chain(mc::Ctx& c) {
  static const std::vector<double> A{0, 1, 3, 3.5, -3, 6, -6, 9.5, 15, -15, -0.1}; int n = c.tier(4, 5); std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(c.pick(A));
  auto r = Point::getAngContinuity(v); c.eq(r.size(), v.size(), "chain-size"); c.eq(r[0], v[0], "chain-first"); std::string s;
  for (int i = 0; i < n; ++i) { s += mc::str(v[i], " "); c.check(circ(r[i], v[i]) < 1e-10, "chain-angle", s); if (i) c.check(std::fabs(r[i] - r[i - 1]) <= M_PI + 1e-9, "chain-jump", s); } c.nontrivial(s);
}
struct V { ld x, y; }; static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y}; } static ld cr(V a, V b) { return a.x * b.y - a.y * b.x; } static ld dt(V a, V b) { return a.x * b.x + a.y * b.y; } static ld nm(V a) { return std::sqrt(dt(a, a)); }
struct Frame { double ox, oy, s, r; }; static const std::vector<Frame> FR{{0, 0, 1, 0}, {1000.5, -73, 0.37, 0.6}, {-3, 4, 250, 2.2}};
struct Px { Point p; V v; };
static Px gp(mc::Ctx& c, const Frame& f, int n) { int i = c.choose(n), j = c.choose(n); double x = i - (n / 2), y = j - (n / 2); double X = f.ox + f.s * (x * std::cos(f.r) - y * std::sin(f.r)), Y = f.oy + f.s * (x * std::sin(f.r) + y * std::cos(f.r)); c.note("(", X, ",", Y, ")"); return {Point(X, Y), {X, Y}}; }
static void near(mc::Ctx& c, const Point& p, V v, double tol, const char* key) { c.check(std::fabs(p.X() - v.x) <= tol && std::fabs(p.Y() - v.y) <= tol, key, mc::str(p.X(), ",", p.Y(), " expected ", (double)v.x, ",", (double)v.y)); }
static void arith(mc::Ctx& c) {
  auto& f = c.pick(FR); auto a = gp(c, f, 3), b = gp(c, f, 3); double z = c.flag() ? 3.5 : 0; Point p = a.p, q = b.p; p.setZ(z); q.setZ(-2 * z);
  Point s = p + q, d = p - q, m = p * 2.5, v = p / 4, w = p; w *= -3; double T = 1e-9;
  near(c, s, {a.v.x + b.v.x, a.v.y + b.v.y}, T, "sum"); near(c, d, a.v - b.v, T, "difference"); near(c, m, {a.v.x * 2.5L, a.v.y * 2.5L}, T, "scaled"); near(c, v, {a.v.x / 4, a.v.y / 4}, T, "divided"); near(c, w, {a.v.x * -3, a.v.y * -3}, T, "scaled-in-place");
  c.check(s.Z() == -z && d.Z() == 3 * z && m.Z() == 2.5 * z && v.Z() == z / 4 && w.Z() == -3 * z, "height"); c.near(p * q, dt(a.v, b.v) - 2 * z * z, 1e-6, "dot"); c.near(Point::det(p, q), cr(a.v, b.v), 1e-6, "det");
  c.near(a.p.distance(b.p), nm(a.v - b.v), T, "distance");
  bool same = std::fabs(a.v.x - b.v.x) < 1e-9 && std::fabs(a.v.y - b.v.y) < 1e-9; c.eq(a.p == b.p, same, "equal"); c.eq(a.p != b.p, !same, "not-equal"); c.check(!(p < p), "less-irreflexive"); if (!same && f.r == 0) c.check((a.p < b.p) != (b.p < a.p), "less-total"); if (a.v.x < b.v.x) c.check(a.p < b.p, "less-x");
  if (z != 0) c.check(!(p == a.p), "equal-height");
  // vectors and angles
  if (nm(a.v) > 0.01 && nm(b.v) > 0.01) c.near(circ(a.p.getAngleFromPoints(b.p), std::atan2(b.v.y, b.v.x) - std::atan2(a.v.y, a.v.x)), 0, 1e-9, "angle-between");
  if (nm(a.v) > 0.01) { double g = a.p.getAngleFromPoint(); c.check(g >= 0 && g < 2 * M_PI, "angle-range"); c.near(circ(g, std::atan2(a.v.y, a.v.x)), 0, 1e-9, "angle-of-vector"); }
  for (double ang : {0.0, 0.7, M_PI / 2, -2.3, 7.0}) {
    ld C = std::cos((ld)ang), S = std::sin((ld)ang); V r = b.v - a.v; V e{a.v.x + r.x * C - r.y * S, a.v.y + r.x * S + r.y * C};
    near(c, a.p.rotateFromPoint(ang, b.p), e, 1e-9, "rotate"); auto vs = a.p.rotateFromPoint(ang, std::vector<Point>{b.p, a.p}); c.eq(vs.size(), size_t(2), "rotate-list"); near(c, vs[0], e, 1e-9, "rotate-list"); near(c, vs[1], a.v, 1e-9, "rotate-list");
    auto l = a.p.rotateFromPoint(ang, LineString({a.p, b.p, b.p})); c.eq(l.size(), size_t(3), "rotate-line"); near(c, l.getGeometry(1), e, 1e-9, "rotate-line");
    for (double L : {0.0, 2.0, -1.5}) near(c, a.p.getPointFromAngle(ang, L), {a.v.x + L * C, a.v.y + L * S}, 1e-9, "polar");
  }
  c.nontrivial(mc::str(a.p, b.p, z));
}
static void segment(mc::Ctx& c) {
  auto& f = c.pick(FR); auto p = gp(c, f, c.tier(4, 5)), s = gp(c, f, 3), e = gp(c, f, 3); V d = e.v - s.v, u = p.v - s.v; ld L = nm(d); bool zero = L < 1e-9;
  ld t = zero ? 0 : dt(u, d) / dt(d, d); t = std::min<ld>(1, std::max<ld>(0, t)); near(c, p.p.closestPointInSegment(s.p, e.p), {s.v.x + t * d.x, s.v.y + t * d.y}, 1e-8 * std::max(1.0, f.s), "closest-in-segment");
  if (!zero) c.near(p.p.signedDistance2Segment(s.p, e.p), cr(d, u) / L, 1e-8 * std::max(1.0, f.s), "signed-distance");
  if (!zero && nm(u) > 1e-9) { V w = p.v - e.v; if (nm(w) > 1e-9) c.near(circ(Point::getAngleFromPoints(s.p, e.p, p.p), std::atan2(w.y, w.x) - std::atan2(d.y, d.x)), 0, 1e-9, "turn-angle"); }
  c.nontrivial(mc::str(p.p, s.p, e.p));
}
static void lines(mc::Ctx& c) {
  auto& f = c.pick(FR); auto a = gp(c, f, 3), b = gp(c, f, 3), p = gp(c, f, 3), q = gp(c, f, 3); V u = b.v - a.v, v = q.v - p.v; ld den = cr(u, v);
  c.require(nm(u) > 1e-9 && nm(v) > 1e-9); Point r = Point::intersectionOfLines(a.p, b.p, p.p, q.p);
  if (std::fabs(den) > 1e-6 * f.s * f.s) { ld t = cr(p.v - a.v, v) / den; near(c, r, {a.v.x + t * u.x, a.v.y + t * u.y}, 1e-6 * std::max(1.0, f.s), "intersection"); c.nontrivial(mc::str(a.p, b.p, p.p, q.p)); }
  else if (f.r == 0) near(c, r, a.v, 1e-9, "parallel");
}
static void polyline(mc::Ctx& c) {   // nearest point and end angles of lines, rings and point lists
  auto& f = c.pick(FR); auto p = gp(c, f, 3); int n = 2 + c.choose(2); std::vector<Px> l; for (int i = 0; i < n; ++i) l.push_back(gp(c, f, 3));
  LineString ls; MultiPoint mp; LinearRing lr; for (auto& x : l) { ls.addPoint(x.p); mp.addPoint(x.p); lr.addPoint(x.p); }
  ld best = 1e18; for (int i = 0; i + 1 < n; ++i) { V d = l[i + 1].v - l[i].v, u = p.v - l[i].v; ld t = nm(d) < 1e-9 ? 0 : std::min<ld>(1, std::max<ld>(0, dt(u, d) / dt(d, d))); best = std::min(best, nm({u.x - t * d.x, u.y - t * d.y})); }
  double T = 1e-8 * std::max(1.0, f.s); Point k = ls.closestPointTo(p.p), k2 = lr.closestPointTo(p.p);
  c.near(k.distance(p.p), best, T, "nearest-distance"); c.near(ls.distance(k), 0, T, "nearest-on-line"); c.near(k2.distance(p.p), best, T, "nearest-ring-distance");
  for (int i = 0; i + 1 < n; ++i) { V d = l[i + 1].v - l[i].v; if (nm(d) < 1e-9) continue; ld g = std::atan2(d.y, d.x); c.near(circ(mp.getOutAngle(i), g), 0, 1e-9, "out-angle"); c.near(circ(mp.getInAngle(i + 1), g), 0, 1e-9, "in-angle"); if (i == 0) c.near(circ(ls.startAngle(), g), 0, 1e-9, "start-angle"); if (i + 2 == n) c.near(circ(ls.endAngle(), g), 0, 1e-9, "end-angle");
    if (i == 0) c.near(circ(mp.getPointAngle(0), g), 0, 1e-9, "point-angle"); if (i + 2 == n) c.near(circ(mp.getPointAngle(n - 1), g), 0, 1e-9, "point-angle"); }
  if (n == 3) { V d = l[1].v - l[0].v, e = l[2].v - l[1].v; if (nm(d) > 1e-9 && nm(e) > 1e-9) { ld g = std::atan2(d.y, d.x), h = std::atan2(e.y, e.x); c.near(circ(mp.getPointAngle(1), g), circ(g, h) / 2, 1e-9, "point-angle-middle"); c.near(circ(mp.getPointAngle(1), h), circ(g, h) / 2, 1e-9, "point-angle-middle"); } }
  c.nontrivial(mc::str(p.p, l[0].p, l[1].p, n));
}
static void setup() { mc::add("reduce", reduce, 1); mc::add("pairs", pairs); mc::add("chain", chain); mc::add("arithmetic", arith, 4); mc::add("segment", segment, 4); mc::add("lines", lines, 4); mc::add("polyline", polyline, 4); }
MC_MAIN
