// S01: swath generation on small polygons and polyominoes with holes, against an independent line/polygon intersection.
#include "geo.h"
using namespace geo;
static const std::vector<Frame> FR{{0, 0, 10, 0}, {351.25, -127.5, 13, 0.5}, {500000.5, 4100000.25, 25, 2.2}};
static void verify(mc::Ctx& c, const Swaths& s, const Cell& cell, const Poly& q, double ang, double w, double scale) {
  P d{std::cos(ang), std::sin(ang)}, n{-d.y, d.x}; double lo = 1e300, hi = -1e300, T = 1e-6 * scale;
  for (auto& v : q[0]) { lo = std::min(lo, dt(v, n)); hi = std::max(hi, dt(v, n)); }
  std::map<int, std::vector<std::pair<double, double>>> got;
  for (size_t i = 0; i < s.size(); ++i) {
    auto& x = s.at(i); std::string at = mc::str("swath ", i, " of ", s.size(), " angle ", ang, " width ", w);
    c.eq(x.getId(), (int)i, "id", at); c.eq(x.getWidth(), w, "width", at); c.check(x.getType() == SwathType::MAINLAND, "type", at); c.eq(x.numPoints(), size_t(2), "straight", at);
    P a = fp(x.startPoint()), b = fp(x.endPoint()); double k = (dt(a, n) - lo) / w - 0.5; long kk = std::lround(k);
    c.near((k - kk) * w, 0, T, "spacing", at); c.near(dt(b, n), dt(a, n), T, "parallel", at); c.check(kk >= 0, "spacing", at);
    double u = dt(a, d), v = dt(b, d); if (u > v) std::swap(u, v); got[kk].push_back({u, v}); c.step();
  }
  P base = n * lo; size_t nl = 0; double perLine = 0;
  for (int k = 0; lo + (k + 0.5) * w < hi - T || got.count(k); ++k) {
    P o = n * (lo + (k + 0.5) * w); std::string at = mc::str("line ", k, " angle ", ang, " width ", w); (void)base; ++nl;
    bool along = false, vertex = false; for (auto& r : q) for (size_t i = 0; i < r.size(); ++i) { double y0 = dt(r[i] - o, n), y1 = dt(r[(i + 1) % r.size()] - o, n); if (std::fabs(y0) < 10 * T && std::fabs(y1) < 10 * T) along = true; if (std::fabs(y0) < 10 * T) vertex = true; }
    auto& g = got[k]; std::sort(g.begin(), g.end()); double L = 0; c.check(k < 4000, "too-many-lines", at);
    for (size_t i = 0; i < g.size(); ++i) { L += g[i].second - g[i].first; for (double t : {0.001, 0.25, 0.5, 0.75, 0.999}) { P p = o + d * (g[i].first + t * (g[i].second - g[i].first)); c.check(where(p, q, 3 * T) >= 0, "outside", mc::str(at, " at ", p.x, ",", p.y)); } if (i) c.check(g[i].first >= g[i - 1].second - T, "overlapping-parts", at); }
    if (along) continue;    // a line along a border: inside or not is a matter of rounding
    auto e = inside(o, d, MPoly{q}, dt(fp(Point(q[0][0].x, q[0][0].y)) - o, d) - 1e3 * scale, dt(q[0][0] - o, d) + 1e3 * scale, 1e-7 * scale); double E = 0; for (auto& i : e) E += i.second - i.first;
    c.near(L, E, 10 * T, "part-length", at); size_t big = 0; for (auto& i : g) big += i.second - i.first > 20 * T;
    if (!vertex) { c.eq(g.size(), e.size(), "parts", at); for (size_t i = 0; i < e.size(); ++i) { c.near(g[i].first, e[i].first, 10 * T, "part-start", at); c.near(g[i].second, e[i].second, 10 * T, "part-end", at); } }
    else { for (auto& i : g) { double b0 = 1e9, b1 = 1e9; for (auto& r : q) { for (size_t j = 0; j < r.size(); ++j) { P a = r[j], b = r[(j + 1) % r.size()], x = b - a; for (P z : {a, b}) if (std::fabs(dt(z - o, n)) < 20 * T) { b0 = std::min(b0, std::fabs(dt(z - o, d) - i.first)); b1 = std::min(b1, std::fabs(dt(z - o, d) - i.second)); } double den = cr(d, x); if (std::fabs(den) > 1e-9) { double t = cr(a - o, x) / den; b0 = std::min(b0, std::fabs(t - i.first)); b1 = std::min(b1, std::fabs(t - i.second)); } } } c.check(b0 < 100 * T && b1 < 100 * T, "part-end-off-border", at); }
           for (auto& i : e) if (i.second - i.first > 100 * T) { bool cov = false; for (auto& j : g) cov |= j.first < i.first + 100 * T && j.second > i.second - 100 * T; if (!cov) { double len = 0; for (auto& j : g) if (j.first > i.first - 100 * T && j.second < i.second + 100 * T) len += j.second - j.first; cov = std::fabs(len - (i.second - i.first)) < 100 * T; } c.check(cov, "part-missing", at); } }
    perLine += L;
  }
  c.outcome(mc::str(s.size(), " ", nl)); if (s.size()) c.nontrivial(mc::str(str(q), ang, w)); (void)cell; (void)perLine;
}
static const std::vector<double> WQ{0.5, 0.3, 1.0, 2.5}, WT{0.5, 0.3, 1.0, 2.5, 0.7, 0.11, 2.0};   // in lattice units
static const std::vector<double> AQ{0, M_PI / 4, M_PI / 2, 0.3, 4.1, -0.8, 7.0}, AT{0, M_PI / 4, M_PI / 2, 0.3, 4.1, -0.8, M_PI, 3 * M_PI / 4, 7.0, std::atan(0.5)};
static void run(mc::Ctx& c, const Poly& p, bool rot) {
  auto& f = FR[c.choose(c.tier(2, 3))]; double ang = c.pick(c.thorough() ? AT : AQ) + (c.choose(2) ? f.a : 0.17); double w = c.pick(c.thorough() ? WT : WQ) * f.s; size_t r = rot && c.thorough() ? c.choose(2) * 2 : 0;
  Poly q = f * p; Cell cell = toCell(q, r, r > 0); c.note(str(q), " angle ", ang, " width ", w); f2c::sg::BruteForce bf; bool ov = std::fmod(std::fabs(ang * 7 + w * 3), 2) < 1; c.eq(bf.getAllowOverlap(), false, "overlap-setting"); bf.setAllowOverlap(ov); verify(c, bf.generateSwaths(ang, w, cell), cell, q, ang, w, f.s); c.check(cell == toCell(q, r, r > 0), "cell-changed"); c.eq(bf.getAllowOverlap(), ov, "overlap-setting");
}
static void polygons(mc::Ctx& c) { static auto a = ccwOnly(lattice(3, 3, 3, 5)), b = ccwOnly(lattice(3, 3, 3, 6)); run(c, {c.pick(c.thorough() ? b : a)}, true); }
static void pentagons(mc::Ctx& c) { static auto a = ccwOnly(lattice(3, 3, 5, 6)); Poly p{c.pick(a)}; Frame f{-3, 5, 10, 0}; Poly q = f * p; double ang = c.pick(std::vector<double>{0, M_PI / 2, 0.3}), w = 10 * c.pick(std::vector<double>{0.4, 1.0}); c.note(str(q)); f2c::sg::BruteForce bf; Cell cell = toCell(q); verify(c, bf.generateSwaths(ang, w, cell), cell, q, ang, w, 10); }
static void squares(mc::Ctx& c) {
  static std::vector<unsigned> ms; if (ms.empty()) for (unsigned m = 1; m < 512; ++m) if (!pinched(m, 3, 3) && parts(m, 3, 3) == 1 && (mc::g_thorough() || __builtin_popcount(m) >= 4)) ms.push_back(m);
  run(c, polyomino(c.pick(ms), 3, 3)[0], false);
}
static void holes(mc::Ctx& c) {   // a 4x4 square with up to 3 rectangular or triangular holes, and a notch
  Poly p{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}}; static const std::vector<Ring> H{{{0.5, 0.5}, {1.5, 0.5}, {1.5, 1.5}, {0.5, 1.5}}, {{2.25, 0.75}, {3.5, 0.75}, {2.25, 2}}, {{0.75, 2.5}, {1, 2.25}, {3, 3.25}, {2.75, 3.5}}, {{2, 2.1}, {2.1, 2}, {2.2, 2.1}, {2.1, 2.2}}};
  int m = c.choose(16); for (int i = 0; i < 4; ++i) if (m >> i & 1) p.push_back(H[i]); if (c.flag()) p[0] = {{0, 0}, {4, 0}, {4, 4}, {2.5, 4}, {2.4, 3.6}, {2.3, 4}, {0, 4}};
  run(c, p, false);
}
static void sets(mc::Ctx& c) {   // several cells: every cell is treated alone, in order
  unsigned m = 1 + c.choose(511); c.require(!pinched(m, 3, 3) && (parts(m, 3, 3) >= 2 || m % 16 == 3)); auto& f = FR[c.choose(2)]; double ang = c.pick(AQ), w = f.s * c.pick(std::vector<double>{0.4, 1.0}); MPoly q = f * polyomino(m, 3, 3); Cells cs = toCells(q); c.note(str(q), " angle ", ang, " width ", w);
  f2c::sg::BruteForce bf; auto r = bf.generateSwaths(ang, w, cs); c.eq(r.size(), q.size(), "cells"); for (size_t i = 0; i < q.size(); ++i) verify(c, r.at(i), cs.getGeometry(i), q[i], ang, w, f.s);
}
static void history(mc::Ctx& c) {   // one generator object, several requests: no request sees the previous ones
  f2c::sg::BruteForce bf; static const std::vector<Poly> S{{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}}, {{{0, 0}, {30, 10}, {5, 40}}}, {{{10, 10}, {60, 10}, {60, 50}, {35, 20}, {10, 50}}, {{20, 12}, {22, 12}, {21, 15}}}};
  for (int d = 0, D = c.tier(3, 4); d < D; ++d) { auto& q = c.pick(S); double ang = c.pick(std::vector<double>{0, 1.3}), w = c.pick(std::vector<double>{1.5, 7}); c.note(ang, " ", w); Cell cell = toCell(q); f2c::obj::NSwath n; if (d && c.flag()) { bf.setStepAngle(1.0); bf.computeBestAngle(n, 9, cell); } verify(c, bf.generateSwaths(ang, w, cell), cell, q, ang, w, 10); }
}
static void large(mc::Ctx& c) {   // combs, zigzags and grids of holes: many swaths, many parts per line
  int kind = c.choose(3), n = 1 + c.choose(c.tier(12, 30)); Poly p; if (kind == 0) { Ring r{{0, 0}}; r.push_back({2.0 * n, 0}); for (int i = n - 1; i >= 0; --i) { r.push_back({2.0 * i + 1.9, 3.0 + 0.1 * (i % 3)}); r.push_back({2.0 * i + 1, 1.0 + 0.07 * (i % 2)}); r.push_back({2.0 * i + 0.1, 3.03}); } p = {r}; }
  if (kind == 1) { Ring r; for (int i = 0; i <= n; ++i) r.push_back({1.5 * i, i % 2 ? 1.3 : 0.0}); for (int i = n; i >= 0; --i) r.push_back({1.5 * i, (i % 2 ? 1.3 : 0.0) + 2.1}); p = {r}; }
  if (kind == 2) { double w = 4 + 2.0 * std::min(n, 6); p = {{{0, 0}, {w, 0}, {w, w}, {0, w}}}; for (int i = 0; i < n; ++i) { double x = 1 + 2 * (i % 6), y = 1.05 + 2 * (i / 6); p.push_back({{x, y}, {x + 1.1, y + 0.1}, {x + 0.9, y + 1.2}}); } }
  Frame f = c.pick(std::vector<Frame>{{0, 0, 10, 0}, {351.25, -127.5, 13, 0.5}}); double ang = c.pick(std::vector<double>{0, 1.37, M_PI / 2, 5.9}) + f.a + 0.013, w = f.s * c.pick(std::vector<double>{0.037, 0.4}); Poly q = f * p; Cell cell = toCell(q); c.note("kind ", kind, " size ", n, " angle ", ang, " width ", w); f2c::sg::BruteForce bf; verify(c, bf.generateSwaths(ang, w, cell), cell, q, ang, w, f.s);
  if (w > 1) { Cells cs; for (int i = 0; i < n; ++i) { Cell k = toCell(Frame{40.0 * i, i * 3.0, 2 + 0.1 * i, 0.2 * i} * Poly{{{0, 0}, {4, 0}, {5, 3}, {0, 4}}}); cs.addGeometry(k); } auto r = bf.generateSwaths(ang, w, cs); c.eq(r.size(), size_t(n), "cells"); for (int i = 0; i < n; ++i) verify(c, r.at(i), cs.getGeometry(i), Frame{40.0 * i, i * 3.0, 2 + 0.1 * i, 0.2 * i} * Poly{{{0, 0}, {4, 0}, {5, 3}, {0, 4}}}, ang, w, 10); }
}
static void setup() { mc::add("large", large, 3); mc::add("polygons", polygons); mc::add("pentagons", pentagons); mc::add("squares", squares); mc::add("holes", holes); mc::add("sets", sets); mc::add("history", history, 4); }
MC_MAIN
