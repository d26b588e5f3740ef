// D01: decompositions against the field's own geometry: a grid of points lies in exactly one cell, cells are convex or met in one piece.
#include "geo.h"
using namespace geo;
static const std::vector<Frame> FR{{0, 0, 10, 0}, {351.25, -127.5, 13, 0.5}, {500000.5, 4100000.25, 25, 2.2}, {-20.3, 41.7, 25, 2.2}};
static std::vector<P> gridPts(const MPoly& f, int n) { double x0 = 1e300, x1 = -x0, y0 = x0, y1 = -x0; for (auto& q : f) for (auto& v : q[0]) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); } std::vector<P> g; for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) g.push_back({x0 + (x1 - x0) * (i + 0.13) / (n + 0.31), y0 + (y1 - y0) * (j + 0.29) / (n + 0.41)}); return g; }
static void partition(mc::Ctx& c, const MPoly& r, const MPoly& f, double s, int n, const char* key) {
  double T = 1e-5 * s, A = 0; for (auto& q : r) { A += area(q); for (auto& ring : q) for (auto& v : ring) if (where(v, f, T) < 0) c.fail(key, mc::str("a cell leaves the field at ", v.x, ",", v.y)); }
  c.near(A, area(f), 1e-5 * s * s, key, "total area"); for (auto& p : gridPts(f, n)) { int w = where(p, f, T); if (w == 0) continue; int in = 0; bool edge = false; for (auto& q : r) { int k = where(p, q, T); in += k > 0; edge |= k == 0; } if (edge) continue; if (in != (w > 0)) c.fail(key, mc::str("point ", p.x, ",", p.y, w > 0 ? " of the field" : " outside the field", " lies in ", in, " cells")); } c.step();
}
static double hullArea(const Poly& q) { return std::fabs(sarea(hull(q[0]))); }
// How many pieces a line in direction d through o has inside q, counting only real ones.
static int pieces(const Poly& q, P o, P d, double s) { int n = 0; double last = -1e300; for (auto& i : inside(o, d, MPoly{q}, -1e4, 1e4)) { if (i.second - i.first < 1e-4 * s) continue; if (i.first - last > 1e-4 * s) ++n; last = i.second; } return n; }
static void sweepable(mc::Ctx& c, const MPoly& r, double ang, double s, const char* key) {
  P d{std::cos(ang), std::sin(ang)}, n{-d.y, d.x}; for (auto& q : r) { std::vector<double> h; for (auto& ring : q) for (auto& v : ring) h.push_back(dt(v, n)); std::sort(h.begin(), h.end()); for (size_t i = 0; i + 1 < h.size(); ++i) if (h[i + 1] - h[i] > 1e-3 * s) for (double t : {0.1, 0.5, 0.9}) { P o = n * (h[i] + t * (h[i + 1] - h[i])); int k = pieces(q, o, d, s); if (k > 1) c.fail(key, mc::str("a line ", dt(o, n), " across meets one cell in ", k, " pieces: ", str(q))); } } c.step();
}
static int significant(const MPoly& m, double s) { int n = 0; for (auto& q : m) n += area(q) > 1e-4 * s * s; return n; }
static void run(mc::Ctx& c, const MPoly& field, int frames, const std::vector<double>& angles, bool rotations, size_t first = 0) {
  int fi = c.choose(frames), ai = c.choose(angles.size()); auto& f = FR[fi]; double ang = angles[ai] + (f.a == 0 || c.flag() ? 0 : f.a); size_t r0 = rotations ? (c.thorough() ? c.choose(field[0][0].size()) : c.choose(3)) : fi * 3 + ai + first; bool rv = r0 % 3 > 0; MPoly q = f * field; Cells cs = toCells(q, r0, rv); double s = f.s; int n = c.tier(8, 12); c.note(str(q), " angle ", ang);
  f2c::decomp::TrapezoidalDecomp t; f2c::decomp::BoustrophedonDecomp b; t.setSplitAngle(ang); b.setSplitAngle(ang); c.check(t.getSplitAngle() == ang && b.getSplitAngle() == ang, "angle");
  MPoly T = fromCells(t.decompose(cs)); partition(c, T, q, s, n, "trapezoidal-partition"); for (auto& k : T) { if (area(k) < 1e-4 * s * s) continue; double H = hullArea(k); c.check(k.size() == 1 && H - area(k) < 1e-4 * s * s, "trapezoidal-convex", mc::str("cell ", str(k), " lacks ", H - area(k))); }
  MPoly B = fromCells(b.decompose(cs)); partition(c, B, q, s, n, "boustrophedon-partition"); sweepable(c, B, ang, s, "boustrophedon-sweep"); c.check(significant(B, s) <= significant(T, s), "boustrophedon-count", mc::str(significant(B, s), " cells against ", significant(T, s), " trapezoidal ones"));
  size_t wide = 0; for (auto& k : B) wide += area(k) > 5e-6 * perim(k[0]); c.check(B.size() == wide, "slivers", mc::str(B.size(), " cells, ", wide, " of them real")); bool conv = true; for (auto& k : q) conv &= k.size() == 1 && convex(k[0]); if (conv) c.eq(B.size(), q.size(), "convex-whole");
  c.check(cs == toCells(q, r0, rv), "field-changed"); c.nontrivial(str(q) + mc::str(ang)); c.outcome(mc::str(T.size(), " ", B.size()));
}
static const std::vector<double> AQ{0, M_PI / 2, 0.3, M_PI / 4, -2.1}, AT{0, M_PI / 2, 0.3, M_PI / 4, -2.1, M_PI, 3 * M_PI / 4, 1.2, std::atan(0.5), 5.9};
static void polygons(mc::Ctx& c) { static auto a = ccwOnly(lattice(3, 3, 3, 5)), b = ccwOnly(lattice(3, 3, 3, 6)); run(c, {{c.pick(c.thorough() ? b : a)}}, c.tier(3, 4), c.thorough() ? AT : AQ, true); }
static void squares(mc::Ctx& c) { unsigned m = 1 + c.choose(511); c.require(!pinched(m, 3, 3)); run(c, polyomino(m, 3, 3), c.tier(3, 4), c.thorough() ? AT : AQ, false, m); }
static void holes(mc::Ctx& c) {
  Poly p{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}}; static const std::vector<Ring> H{{{0.5, 0.5}, {1.5, 0.5}, {1.5, 1.5}, {0.5, 1.5}}, {{2.25, 0.75}, {3.5, 0.75}, {2.25, 2}}, {{0.75, 2.5}, {1, 2.25}, {3, 3.25}, {2.75, 3.5}}, {{2, 2.1}, {2.1, 2}, {2.2, 2.1}, {2.1, 2.2}}};
  int m = c.choose(16); for (int i = 0; i < 4; ++i) if (m >> i & 1) p.push_back(H[i]); if (c.flag()) p[0] = {{0, 0}, {4, 0}, {4, 4}, {2.5, 4}, {2.4, 3.6}, {2.3, 4}, {0, 4}}; run(c, {p}, c.tier(3, 4), c.thorough() ? AT : AQ, false);
}
static void lines(mc::Ctx& c) {   // splitting by chains of lines keeps the area and cuts along every line
  static const std::vector<MPoly> S{{{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}}}, {{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{1, 1}, {3, 1}, {3, 3}, {1, 3}}}}, {{{{0, 0}, {4, 0}, {4, 4}, {2, 1}, {0, 4}}}}, {{{{0, 0}, {2, 0}, {2, 3}, {0, 3}}}, {{{2.5, 0}, {4, 0}, {4, 3}, {2.5, 3}}}}};
  static const std::vector<Ring> L{{{-1, 0.5}, {5, 0.7}}, {{0.6, -1}, {0.6, 5}}, {{-1, -1.2}, {5, 5.1}}, {{-1, 3}, {2, 2.2}, {5, 3.6}}, {{1.5, 2}, {2.5, 2}}, {{6, 6}, {7, 7}}};
  auto& f = FR[c.choose(2)]; MPoly q = f * c.pick(S); Cells cs = toCells(q); int n = c.choose(3); MultiLineString ml; std::vector<Ring> used; std::vector<int> ids; for (int i = 0; i < n; ++i) { int k = c.choose(L.size()); ids.push_back(k); Ring r = f * L[k]; used.push_back(r); LineString l; for (auto& p : r) l.addPoint(p.x, p.y); ml.addGeometry(l); } c.note(str(q), " lines ", n, n > 0 ? mc::str(" ", ids[0]) : "", n > 1 ? mc::str(" ", ids[1]) : "");
  MPoly r = fromCells(cs.splitByLine(ml)); partition(c, r, q, f.s, 12, "split-partition"); if (n == 1) { MPoly o = fromCells(cs.splitByLine(ml.getGeometry(0))); c.near(area(o), area(r), 1e-6 * f.s * f.s, "one-line"); c.eq(o.size(), r.size(), "one-line"); }
  for (auto& l : used) for (size_t i = 0; i + 1 < l.size(); ++i) if (nm(l[0] - l.back()) > 2 * f.s) for (double t : {0.21, 0.33, 0.47, 0.61, 0.77}) { P d = l[i + 1] - l[i], m = l[i] + d * t, e = P{-d.y, d.x} * (0.01 * f.s / nm(d)); if (where(m, q, 0.1 * f.s) <= 0) continue; bool apart = true; for (auto& k : r) if (where(m + e, k, 0) > 0 && where(m - e, k, 0) > 0 && pieces(k, m, e * (1 / nm(e)), f.s) > 0) { for (auto& i2 : inside(m, e * (1 / nm(e)), MPoly{k}, -0.005 * f.s, 0.005 * f.s)) if (i2.first < 0 && i2.second > 0) apart = false; } c.check(apart, "not-cut", mc::str("at ", m.x, ",", m.y)); }
  c.nontrivial(c.trace()); c.outcome(mc::str(r.size()));
}
static void thin(mc::Ctx& c) {   // notches, arms, gaps beside holes and dents of every width down to centimetres
  double t = c.pick(c.thorough() ? std::vector<double>{0.3, 0.1, 0.05, 0.02, 0.01, 0.006, 0.004, 0.002, 0.001} : std::vector<double>{0.1, 0.01, 0.002}); int k = c.choose(8); MPoly m{{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}}}; Poly& p = m[0];
  switch (k) { case 0: p[0] = {{0, 0}, {4, 0}, {4, 4}, {4 - t, 2}, {4 - 2 * t, 4}, {0, 4}}; break; case 1: p.push_back({{t, 1}, {1 + t, 1}, {1 + t, 2}, {t, 2}}); break; case 2: p[0] = {{0, 0}, {4, 0}, {4, 4}, {2 + t, 4}, {2 + t, 2}, {2, 2}, {2, 4}, {0, 4}}; break; case 3: p[0] = {{0, 0}, {4, 0}, {4, t}, {2, t}, {2, 4}, {0, 4}}; break; case 4: p[0] = {{0, 0}, {4, 0}, {4, 4}, {2, 4 - t}, {0, 4}}; break; case 5: p.push_back({{1, 1}, {2 - t, 1}, {2 - t, 2}, {1, 2}}); p.push_back({{2, 1}, {3, 1}, {3, 2.5}, {2, 2.5}}); break; case 6: p[0] = {{0, 0}, {4, 0}, {4, 4}, {2, 4}, {2, 4 - t}, {1, 4 - t}, {1, 4}, {0, 4}}; break; default: p.push_back({{1, 2}, {2, 2 - t}, {3, 2}, {2, 2 + t}}); }
  run(c, m, c.tier(3, 4), c.thorough() ? AT : AQ, false);
}
static void several(mc::Ctx& c) {   // many cells at once, in two rows
  static const std::vector<Poly> S{{{{0, 0}, {4, 0}, {4, 1.5}, {1.5, 1.5}, {1.5, 4}, {0, 4}}}, {{{0, 0}, {4, 0}, {4, 4}, {3, 4}, {2, 1}, {1, 4}, {0, 4}}}, {{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{1, 1}, {1, 2}, {2.5, 2}, {2.5, 1}}}};
  int n = c.pick(c.thorough() ? std::vector<int>{4, 5, 6, 9} : std::vector<int>{4, 6}), k = c.choose(3), step = c.choose(3); MPoly m; for (int i = 0; i < n; ++i) m.push_back(Frame{6.0 * (i / 2) + 0.3 * (i % 3), 5.5 * (i % 2) + 0.1 * (i % 5), 1, 0} * S[(k + i * step) % 3]); run(c, m, c.tier(1, 2), c.thorough() ? AT : std::vector<double>{0.3, M_PI / 2}, false); }
static void large(mc::Ctx& c) { int kind = c.choose(BIG), n = c.pick(c.thorough() ? std::vector<int>{4, 7, 8, 9, 12, 16, 17, 25, 33, 40} : std::vector<int>{5, 9, 17}); run(c, big(kind, n), c.tier(1, 3), c.thorough() ? AT : std::vector<double>{0.3, 0, M_PI / 2}, false); }
static void setup() { mc::add("large", large, 2); mc::add("several", several, 2); mc::add("polygons", polygons); mc::add("thin", thin, 2); mc::add("squares", squares); mc::add("holes", holes); mc::add("lines", lines); }
MC_MAIN
