// J01: swath and headland objectives against exact areas counted on a grid and against plane geometry.
#include "geo.h"
using namespace geo;
using namespace f2c::obj;
// Axis-aligned shapes on a half-unit grid: coverage is counted square by square.
static const int N = 16;
struct Bar { double x0, y0, x1, y1, w; };   // a horizontal or vertical swath of width w
static bool inBar(double x, double y, const Bar& b) { return b.y0 == b.y1 ? x > std::min(b.x0, b.x1) && x < std::max(b.x0, b.x1) && std::fabs(y - b.y0) < b.w / 2 : y > std::min(b.y0, b.y1) && y < std::max(b.y0, b.y1) && std::fabs(x - b.x0) < b.w / 2; }
static const std::vector<Bar> BARS{{0, 1, 6, 1, 2}, {6, 3, 0, 3, 2}, {1, 2, 5, 2, 2}, {3, -1, 3, 7, 2}, {2, 4, 8, 4, 1}, {0, 5, 6, 5, 3}, {4, 6, 4, 2, 1}, {7.5, 7, 7.5, 9, 1}};
static std::string name(const std::vector<Bar>& v) { std::string s; for (auto& b : v) s += mc::str("(", b.x0, ",", b.y0, ")-(", b.x1, ",", b.y1, ")w", b.w, " "); return s; }
template <class F> static double counted(F f) { double a = 0; for (int i = -4; i < 2 * N; ++i) for (int j = -4; j < 2 * N; ++j) if (f(0.5 * i + 0.25, 0.5 * j + 0.25)) a += 0.25; return a; }
static const std::vector<unsigned> MS{0b111111111, 0b111101111, 0b000011011, 0b100010001, 0b101101111, 0b000000001, 0b110011001};
static Swaths swaths(const std::vector<Bar>& v, const Frame& f) { Swaths s; int id = 0; for (auto& b : v) { P p = f({b.x0, b.y0}), q = f({b.x1, b.y1}); LineString l; l.addPoint(tp(p)); l.addPoint(tp(q)); s.emplace_back(l, b.w * f.s, id++); } return s; }
static void areas(mc::Ctx& c) {   // every list of up to 3 swaths: coverage and overlap
  unsigned m = c.pick(MS); int n = c.choose(c.tier(4, 4)); std::vector<Bar> v; for (int i = 0; i < n; ++i) v.push_back(c.pick(BARS));
  Frame f = c.pick(std::vector<Frame>{{0, 0, 1, 0}, {351, -100.5, 3, M_PI / 2}}); c.require(n < 3 || (c.thorough() || (f.s == 1 && m != 0b110011001 && m != 1))); MPoly lat = Frame{0, 0, 2, 0} * polyomino(m, 3, 3); Cells cells = toCells(f * lat); Swaths s = swaths(v, f); c.note("cell ", m, " swaths ", name(v));
  auto in = [&](double x, double y) { return where(P{x, y}, lat, 0) > 0; }; double A = counted(in), T = 1e-6; c.near(cells.area(), A * f.s * f.s, 1e-6 * f.s * f.s, "model-area");
  FieldCoverage fc; Overlaps ov; double cov = counted([&](double x, double y) { if (!in(x, y)) return false; for (auto& b : v) if (inBar(x, y, b)) return true; return false; });
  double o = 0; for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) o += counted([&](double x, double y) { return in(x, y) && inBar(x, y, v[i]) && inBar(x, y, v[j]); });
  c.near(fc.computeCost(cells, s), cov / A, T, "coverage"); c.near(ov.computeCost(cells, s), o / A, T, "overlap"); c.near(fc.computeCostWithMinimizingSign(cells, s), -cov / A, T, "coverage-sign"); c.near(ov.computeCostWithMinimizingSign(cells, s), o / A, T, "overlap-sign"); c.check(fc.isMaximizing() && !fc.isMinimizing() && ov.isMinimizing() && !ov.isMaximizing(), "sense");
  if (cells.size() == 1) { Cell one = cells.getGeometry(0); c.near(fc.computeCost(one, s), cov / A, T, "coverage-cell"); c.near(ov.computeCost(one, s), o / A, T, "overlap-cell"); c.near(fc.computeCostWithMinimizingSign(one, s), -cov / A, T, "coverage-cell-sign"); }
  if (n == 2) { SwathsByCells bc; bc.emplace_back(swaths({v[0]}, f)); bc.emplace_back(swaths(v, f)); bc.emplace_back(Swaths()); double c0 = counted([&](double x, double y) { return in(x, y) && inBar(x, y, v[0]); }); c.near(fc.computeCost(cells, bc), (c0 + cov) / A, T, "coverage-by-cells"); c.near(ov.computeCost(cells, bc), o / A, T, "overlap-by-cells"); if (cells.size() == 1) c.near(fc.computeCost(cells.getGeometry(0), bc), (c0 + cov) / A, T, "coverage-by-cells"); }
  for (size_t i = 0; i < s.size(); ++i) { double a = counted([&](double x, double y) { return in(x, y) && inBar(x, y, v[i]); }); c.near(s.at(i).area(cells) / f.s / f.s, a, T, "swath-area-inside"); c.near(s.at(i).area() / f.s / f.s, v[i].w * (std::fabs(v[i].x1 - v[i].x0) + std::fabs(v[i].y1 - v[i].y0)), T, "swath-area"); }
  c.nontrivial(mc::str(m, name(v))); c.outcome(mc::str(cov, " ", o)); c.step(n);
}
static void large(mc::Ctx& c) {   // many swaths: coverage, overlap, numbers and lengths
  int n = c.choose(c.tier(41, 90)), shape = c.choose(3); unsigned m = c.pick(std::vector<unsigned>{0b111111111, 0b111101111, 0b100010001}); std::vector<Bar> v; for (int k = 0; k < n; ++k) { double y = 0.5 * (k % 25) - 2; bool h = shape == 0 || (shape == 1 && k % 2); double w = shape == 2 ? 1 + k % 3 : 1; Bar b{h ? -1.0 : y, h ? y : -0.5, h ? 9.0 - k % 4 : y, h ? y : 7.5, w}; if (k % 3 == 1) { std::swap(b.x0, b.x1); std::swap(b.y0, b.y1); } v.push_back(b); }
  MPoly lat = Frame{0, 0, 2, 0} * polyomino(m, 3, 3); Frame f{0, 0, 1, 0}; Cells cells = toCells(lat); Swaths s = swaths(v, f); c.note("cell ", m, " with ", n, " swaths, shape ", shape); double A = 4 * __builtin_popcount(m), cov = 0, o = 0, L = 0, T = 1e-6;
  for (int i = -4; i < 2 * N; ++i) for (int j = -4; j < 2 * N; ++j) { double x = 0.5 * i + 0.25, y = 0.5 * j + 0.25; if (!(where(P{x, y}, lat, 0) > 0)) continue; int k = 0; for (auto& b : v) k += inBar(x, y, b); cov += k ? 0.25 : 0; o += 0.125 * k * (k - 1); } for (auto& b : v) L += std::fabs(b.x1 - b.x0) + std::fabs(b.y1 - b.y0);
  c.near(FieldCoverage().computeCost(cells, s), cov / A, T, "coverage"); c.near(Overlaps().computeCost(cells, s), o / A, T, "overlap"); c.near(NSwath().computeCost(s), n, 0, "count"); c.near(SwathLength().computeCost(s), L, 1e-9 * (1 + L), "length"); c.near(NSwathModified().computeCost(s), n, 0, "count-approx");
  SwathsByCells bc; int i = 0; for (int k = 0; i < n; ++k) { Swaths q; for (int j = 0; j < (k * 5) % 4 && i < n; ++j) q.push_back(s.at(i++)); bc.emplace_back(q); } c.near(NSwath().computeCost(bc), n, 0, "count"); c.near(SwathLength().computeCost(bc), L, 1e-9 * (1 + L), "length"); c.near(NSwath().computeCost(cells, bc), n, 0, "count"); c.nontrivial(c.trace()); c.step(n);
}
static void counts(mc::Ctx& c) {   // numbers and lengths, over every kind of collection and every overload
  static const std::vector<Bar> B{{0, 0, 0.3, 0.4, 1}, {5, 5, 5, 7.25, 0.5}, {1, 1, 1, 1, 2}, {9.625, 0, 0, 0, 1e-3}}; static const std::vector<double> LEN{0.5, 2.25, 0, 9.625};
  int k = c.choose(4), n = 0; double L = 0; SwathsByCells bc; Swaths flat; for (int i = 0; i < k; ++i) { Swaths s; int m = c.choose(c.tier(3, 4)); for (int j = 0; j < m; ++j) { int b = c.choose(4); LineString l({Point(B[b].x0, B[b].y0), Point(B[b].x1, B[b].y1)}); s.emplace_back(l, B[b].w, j); flat.emplace_back(s.back()); L += LEN[b]; ++n; } bc.emplace_back(s); }
  c.note(k, " lists, ", n, " swaths"); NSwath ns; SwathLength sl; NSwathModified nm; Cell cell = toCell({{{0, 0}, {4, 0}, {0, 4}}}); Cells cells(cell), none, two(cell); two.addGeometry(toCell({{{10, 0}, {14, 0}, {10, 4}}}));
  auto all = [&](SGObjective& o, double want, const char* w) {
    c.near(o.computeCost(bc), want, 1e-9, w, "by cells"); c.near(o.computeCost(flat), want, 1e-9, w, "list"); c.near(o.computeCost(cell, flat), want, 1e-9, w, "cell, list"); c.near(o.computeCost(cells, flat), want, 1e-9, w, "cells, list"); c.near(o.computeCost(two, flat), want, 1e-9, w, "cells, list"); c.near(o.computeCost(none, flat), want, 1e-9, w, "no cells, list"); c.near(o.computeCost(cell, bc), want, 1e-9, w, "cell, by cells"); c.near(o.computeCost(cells, bc), want, 1e-9, w, "cells, by cells");
    c.near(o.computeCostWithMinimizingSign(bc), want, 1e-9, w, "sign"); c.near(o.computeCostWithMinimizingSign(flat), want, 1e-9, w, "sign"); c.near(o.computeCostWithMinimizingSign(cell, flat), want, 1e-9, w, "sign"); c.near(o.computeCostWithMinimizingSign(cells, bc), want, 1e-9, w, "sign"); c.check(o.isMinimizing() && !o.isMaximizing(), "sense"); };
  all(ns, n, "count"); all(nm, n, "count-approx"); all(sl, L, "length"); c.check(nm.isFastCompAvailable() && !ns.isFastCompAvailable() && !sl.isFastCompAvailable(), "fast");
  for (size_t i = 0; i < flat.size(); ++i) { double li = flat.at(i).length(); c.near(ns.computeCost(flat.at(i)), 1, 0, "one"); c.near(sl.computeCost(flat.at(i)), li, 0, "one"); c.near(sl.computeCost(cell, flat.at(i)), li, 0, "one"); c.near(sl.computeCost(two, flat.at(i)), li, 0, "one"); c.near(ns.computeCost(cells, flat.at(i)), 1, 0, "one"); c.near(ns.computeCost(cell, flat.at(i)), 1, 0, "one"); c.step(); }
  c.nontrivial(mc::str(k, " ", n, " ", L));
}
static void approx(mc::Ctx& c) {   // half the edge extent across the driving direction over the width, whatever vertex the border starts at
  static auto a = lattice(3, 3, 3, 5), b = lattice(3, 3, 3, 6); Poly p{c.pick(c.thorough() ? b : a)}; { int holes = c.pick(std::vector<int>{0, 1, 3}); for (int i = 0; i < holes; ++i) p.push_back(Frame{0.2 * i, 0.1 * i, 1 - 0.2 * i, 0} * Ring{{0.9, 1.0}, {1.0, 0.85}, {1.1, 1.05}, {1.0, 1.1}}); } Frame f = c.pick(std::vector<Frame>{{0, 0, 1, 0}, {500000, 4e6, 20, 1.1}}); Poly q = f * p; size_t rot = c.choose(p[0].size()); double ang = c.pick(std::vector<double>{0, M_PI / 2, 0.4, -2.3, 7.1}), w = c.pick(std::vector<double>{1, 0.37}); Cell cell = toCell(q, rot, c.flag()); c.note(str(q), " angle ", ang, " width ", w);
  P n{-std::sin(ang), std::cos(ang)}; double e = 0; for (auto& r : q) for (size_t i = 0; i < r.size(); ++i) e += std::fabs(dt(r[(i + 1) % r.size()] - r[i], n)); e /= 2 * w; NSwathModified o; double t = 1e-8 * (1 + e) * f.s; c.near(o.computeCost(ang, w, cell), e, t, "approx"); c.near(o.computeCostWithMinimizingSign(ang, w, cell), e, t, "approx-sign");
  c.nontrivial(mc::str(str(q), ang, w)); c.outcome(mc::str(e)); c.step(); if (rot == 0) { c.near(o.computeCost(ang, w, Cell()), 0, 0, "empty"); NSwath ns; c.near(ns.computeCost(ang, w, cell), 0, 0, "no-estimate"); }
}
static void remaining(mc::Ctx& c) {   // kept fraction of every field for every remaining area
  unsigned m = 1 + c.choose(511), r = c.choose(512); bool sub = (m & r) == r; c.require(!pinched(m, 3, 3) && !pinched(r, 3, 3) && (c.thorough() ? (sub || (m + r) % 3 == 0) : (sub ? (m % 2 == 1) : (m * 7 + r) % 41 == 0)));
  Frame f = c.pick(std::vector<Frame>{{0, 0, 10, 0}, {500000, 4e6, 25, 0.3}}); Cells t = toCells(f * polyomino(m, 3, 3)), k = toCells(f * polyomino(r, 3, 3)); double e = double(__builtin_popcount(m & r)) / __builtin_popcount(m); c.note("field ", m, " kept ", r);
  RemArea o; HGObjective h; double T = 1e-6; c.near(o.computeCost(t, k), e, T, "kept"); c.near(h.computeCost(t, k), e, T, "kept"); c.near(o.computeCostWithMinimizingSign(t, k), -e, T, "kept-sign"); c.near(h.computeCostWithMinimizingSign(t, k), e, T, "kept-sign"); c.check(o.isMaximizing() && !o.isMinimizing(), "sense");
  if (t.size() == 1) { c.near(o.computeCost(t.getGeometry(0), k), e, T, "kept-cell"); if (k.size() == 1) { c.near(o.computeCost(t.getGeometry(0), k.getGeometry(0)), e, T, "kept-cell"); c.near(o.computeCostWithMinimizingSign(t.getGeometry(0), k.getGeometry(0)), -e, T, "kept-cell"); } } if (k.size() == 1) c.near(o.computeCost(t, k.getGeometry(0)), e, T, "kept-cell");
  c.nontrivial(mc::str(m, " ", r)); c.outcome(mc::str(e)); c.step();
}
// Costs over collections are sums over members and the sign follows the sense: every overload of a user's objective.
struct Probe : SGObjective { bool mx{false}; bool isMinimizing() const override { return !mx; } using SGObjective::computeCost; double computeCost(const F2CSwath& s) override { return 0.625 * (s.getId() + 1); } double computeCost(double a, double w, const F2CCell& c) override { return 100.375 * c.area(); } };
static void sums(mc::Ctx& c) {
  int nc = c.choose(3), k = c.choose(4); Cells cells; double ca = 0; for (int i = 0; i < nc; ++i) { double s = 1 + i; cells.addGeometry(toCell({{{10. * i, 0}, {10 * i + s, 0}, {10 * i + s, 1}, {10. * i, 1}}})); ca += 100.375 * s; }
  SwathsByCells bc; Swaths all; double sum = 0; for (int i = 0; i < k; ++i) { Swaths s; int m = c.choose(3); for (int j = 0; j < m; ++j) { int id = c.choose(3); s.emplace_back(LineString({Point(0, 0), Point(1, id)}), 1, id); all.emplace_back(s.back()); sum += 0.625 * (id + 1); } bc.emplace_back(s); }
  Probe o; o.mx = c.flag(); double g = o.mx ? -1 : 1, n = all.size(); c.note(nc, " cells ", k, " lists maximise ", o.mx);
  c.near(o.computeCost(all), sum, 1e-9, "sum"); c.near(o.computeCost(bc), sum, 1e-9, "sum"); c.near(o.computeCost(cells), ca, 1e-9, "sum"); c.near(o.computeCost(cells, all), n * ca + sum, 1e-9, "sum"); c.near(o.computeCost(cells, bc), n * ca + sum, 1e-9, "sum"); c.near(o.computeCostWithMinimizingSign(all), g * sum, 1e-9, "sign"); c.near(o.computeCostWithMinimizingSign(bc), g * sum, 1e-9, "sign"); c.near(o.computeCostWithMinimizingSign(cells), g * ca, 1e-9, "sign"); c.near(o.computeCostWithMinimizingSign(cells, all), g * (n * ca + sum), 1e-9, "sign"); c.near(o.computeCostWithMinimizingSign(cells, bc), g * (n * ca + sum), 1e-9, "sign");
  if (nc) { Cell one = cells.getGeometry(nc - 1); double a = 100.375 * one.area(); c.near(o.computeCost(one), a, 1e-9, "sum"); c.near(o.computeCost(one, all), n * a + sum, 1e-9, "sum"); c.near(o.computeCost(one, bc), n * a + sum, 1e-9, "sum"); c.near(o.computeCostWithMinimizingSign(0.3, 2.0, one), g * a, 1e-9, "sign"); c.near(o.computeCostWithMinimizingSign(one, all), g * (n * a + sum), 1e-9, "sign"); if (n) { c.near(o.computeCost(one, all.at(0)), a + 0.625 * (all.at(0).getId() + 1), 1e-9, "sum"); c.near(o.computeCost(cells, all.at(0)), ca + 0.625 * (all.at(0).getId() + 1), 1e-9, "sum"); } }
  c.nontrivial(mc::str(nc, k, sum)); c.step();
}
static void setup() { mc::add("large", large, 1); mc::add("areas", areas, 4); mc::add("counts", counts, 3); mc::add("approx", approx); mc::add("remaining", remaining); mc::add("sums", sums, 3); }
MC_MAIN
