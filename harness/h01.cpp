// H01: headlands against the exact distance to the field's borders, at every corner of the answer and on a grid of points.
#include "geo.h"
using namespace geo;
static const std::vector<Frame> FR{{0, 0, 10, 0}, {351.25, -127.5, 13, 0.5}, {500000.5, 4100000.25, 25, 2.2}};
// In the field (either cell) and how far from the borders: every cell has its own.
static double depth(P p, const MPoly& f) { double d = -1e300; for (auto& q : f) { int w = where(p, q, 0); double b = borderDist(p, q); if (w > 0) d = std::max(d, b); else if (d < 0) d = std::max(d, -b); } return d; }
struct Grid { std::vector<P> p; std::vector<double> d; };
static Grid grid(const MPoly& f, int n, double margin) { double x0 = 1e300, x1 = -x0, y0 = x0, y1 = -x0; for (auto& q : f) for (auto& v : q[0]) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); } Grid g; x0 -= margin; x1 += margin; y0 -= margin; y1 += margin; for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { P p{x0 + (x1 - x0) * (i + 0.13) / (n + 0.31), y0 + (y1 - y0) * (j + 0.29) / (n + 0.41)}; g.p.push_back(p); g.d.push_back(depth(p, f)); } return g; }
// Corners are mitred: around a corner that points into the margin, the margin may reach further than its width, but not out of both borders' own strips.
static bool mitre(P p, const MPoly& m, double w, double A, int turn) {
  for (auto& q : m) for (size_t k = 0; k < q.size(); ++k) { Ring r = q[k]; if ((sarea(r) > 0) != (k == 0)) std::reverse(r.begin(), r.end()); for (size_t i = 0, n = r.size(); i < n; ++i) { P v = r[(i + 1) % n], d = v - r[i], e = r[(i + 2) % n] - v; double ld = nm(d), le = nm(e); if (ld == 0 || le == 0 || cr(d, e) * turn <= 0 || nm(p - v) > 5.1 * w + A) continue; if (std::fabs(cr(d, p - v)) <= (w + A) * ld && std::fabs(cr(e, p - v)) <= (w + A) * le) return true; } }
  return false;
}
static void shrunk(mc::Ctx& c, const Cells& got, const MPoly& f, double w, const Grid& g, double s, const char* key) {
  MPoly r = fromCells(got); double T = 1e-6 * s, A = 0.01 * w + T;
  for (auto& q : r) for (auto& ring : q) for (auto& v : ring) { double d = depth(v, f); if (!(d >= w - A)) c.fail(key, mc::str("mainland reaches ", v.x, ",", v.y, ", ", d, " from the border instead of ", w)); if (!(d <= w + A || mitre(v, f, w, A, -1))) c.fail(key, mc::str("mainland border at ", v.x, ",", v.y, " lies ", d, " from the border instead of ", w)); }
  for (size_t i = 0; i < g.p.size(); ++i) { if (std::fabs(g.d[i] - w) <= 2 * A) continue; bool in = where(g.p[i], r, 0) > 0; if (in != (g.d[i] > w) && (in || !mitre(g.p[i], f, w, A, -1))) c.fail(key, mc::str("point ", g.p[i].x, ",", g.p[i].y, " at ", g.d[i], " from the border is ", in ? "inside" : "outside", " for a width of ", w)); }
  c.step();
}
// q is p widened by w (corners mitred) as far as the field goes.
static void widened(mc::Ctx& c, const Cells& q, const Cells& p, double w, const MPoly& f, const Grid& g, double s) {
  MPoly a = fromCells(p), b = fromCells(q); double T = 1e-6 * s, A = 0.01 * w + T; if (a.empty() || area(a) < T) { c.check(b.empty() || area(b) < A * s, "in2out-empty"); return; }
  bool open = false; double reach = 1e300; auto inner = [&](P v) { return -depth(v, a); }; auto at = [&](P v) { double in = depth(v, f), d = inner(v); if (in > A) reach = std::min(reach, d); if (!(in >= -A)) c.fail("in2out-outside", mc::str("the ring leaves the field at ", v.x, ",", v.y)); if (in > A) { if (!(d >= w - A)) c.fail("in2out-step", mc::str("ring at ", v.x, ",", v.y, " is ", d, " from the inner ring instead of ", w)); } if (!(d <= 5.1 * w + A)) c.fail("in2out-step", mc::str("ring at ", v.x, ",", v.y, " is ", d, " from the inner ring instead of ", w)); };
  for (auto& k : b) for (auto& r : k) for (size_t i = 0; i < r.size(); ++i) { at(r[i]); at((r[i] + r[(i + 1) % r.size()]) * 0.5); } for (auto& k : a) for (auto& r : k) for (size_t i = 0; i < r.size(); ++i) for (double t : {0.03, 0.5, 0.97}) { P e = r[(i + 1) % r.size()] - r[i], v = r[i] + e * t, u = P{e.y, -e.x} * (w / nm(e)); reach = std::min(reach, borderDist(v, b)); for (P z : {v + u, v - u}) open |= inner(z) >= w - T && depth(z, f) > A; } c.check(!open || reach <= w + A, "in2out-step", mc::str("the ring is nowhere nearer than ", reach, " to the inner ring"));
  for (auto& k : a) for (auto& r : k) for (auto& v : r) if (where(v, b, T) < 0) c.fail("in2out-nested", mc::str("the inner ring leaves the outer at ", v.x, ",", v.y));
  for (auto& v : g.p) { bool ia = where(v, a, 0) > 0, ib = where(v, b, 0) > 0; if (ia && where(v, b, T) < 0) c.fail("in2out-nested", "the inner ring is not contained in the outer one"); double d = ia ? 0 : borderDist(v, a), in = depth(v, f); if (d < w - 2 * A && in > 2 * A && !ib) c.fail("in2out-step", mc::str("point ", v.x, ",", v.y, " is ", d, " from the inner ring but not inside the outer")); if (ib && in < -A) c.fail("in2out-outside", "the ring leaves the field"); }
  c.step();
}
static void run(mc::Ctx& c, const MPoly& field, int frames, const std::vector<double>& W) {
  auto& f = FR[c.choose(frames)]; MPoly q = f * field; double w = f.s * c.pick(W); bool rev = c.flag(); Cells cs = toCells(q, 0, rev); c.note(str(q), " width ", w); f2c::hg::ConstHL hl; f2c::hg::HeadlandGeneratorBase& h = hl; Grid g = grid(q, c.tier(11, 15), f.s * 0.8);
  shrunk(c, h.generateHeadlands(cs, w), q, w, g, f.s, "headland"); if (!rev) { shrunk(c, h.generateHeadlands(cs, 0), q, 0, g, f.s, "no-headland"); }
  for (int n = 0; n <= 3; ++n) { shrunk(c, h.generateHeadlandArea(cs, w * 0.6, n), q, w * 0.6 * n, g, f.s, "passes"); if (n == 2 && rev) break; }
  for (int n = 0; n <= 3; ++n) { double p = w * 0.7; auto o = h.generateHeadlandSwaths(cs, p, n, true); c.eq(o.size(), size_t(n), "out2in-count"); for (int i = 0; i < n; ++i) shrunk(c, o[i], q, p * (i + 0.5), g, f.s, "out2in");
    auto in = h.generateHeadlandSwaths(cs, p, n, false); c.eq(in.size(), size_t(n), "in2out-count"); if (n) shrunk(c, in[0], q, p * (n - 0.5), g, f.s, "in2out-first"); for (int i = 1; i < n; ++i) widened(c, in[i], in[i - 1], p, q, g, f.s); if (rev && n == 1) n = 2; }
  c.check(cs == toCells(q, 0, rev), "field-changed"); c.nontrivial(str(q) + mc::str(w)); c.outcome(mc::str(h.generateHeadlands(cs, w).size()));
}
static const std::vector<double> WQ{0.05, 0.15, 0.37, 0.49, 0.8}, WT{0.05, 0.15, 0.26, 0.37, 0.49, 0.8, 1.3};
static void polygons(mc::Ctx& c) { static auto a = ccwOnly(lattice(3, 3, 3, 5)), b = ccwOnly(lattice(3, 3, 3, 6)); run(c, {{c.pick(c.thorough() ? b : a)}}, 3, c.thorough() ? WT : WQ); }
static void squares(mc::Ctx& c) {   // several cells, notches and holes
  unsigned m = 1 + c.choose(511); c.require(!pinched(m, 3, 3)); run(c, polyomino(m, 3, 3), c.tier(1, 3), c.thorough() ? WT : std::vector<double>{0.15, 0.37});
}
static void holes(mc::Ctx& c) {
  Poly p{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}}; static const std::vector<Ring> H{{{0.5, 0.5}, {1.5, 0.5}, {1.5, 1.5}, {0.5, 1.5}}, {{2.25, 0.75}, {3.5, 0.75}, {2.25, 2}}, {{0.75, 2.5}, {1, 2.25}, {3, 3.25}, {2.75, 3.5}}, {{2, 2.1}, {2.1, 2}, {2.2, 2.1}, {2.1, 2.2}}};
  int m = c.choose(16); for (int i = 0; i < 4; ++i) if (m >> i & 1) p.push_back(H[i]); if (c.flag()) p[0] = {{0, 0}, {4, 0}, {4, 4}, {2.5, 4}, {2.4, 3.6}, {2.3, 4}, {0, 4}}; run(c, {p}, 3, c.thorough() ? WT : WQ);
}
static void neighbours(mc::Ctx& c) {   // several cells that share parts of their borders: each keeps its own margin
  static const std::vector<MPoly> S{{{{{0, 0}, {2, 0}, {2, 3}, {0, 3}}}, {{{2, 0}, {4, 0}, {4, 3}, {2, 3}}}}, {{{{0, 0}, {3, 0}, {0, 3}}}, {{{3, 0}, {3, 3}, {0, 3}}}}, {{{{0, 0}, {4, 0}, {4, 1}, {0, 1}}}, {{{0, 1}, {2, 1}, {2, 3}, {0, 3}}}, {{{2, 1}, {4, 1}, {4, 3}, {2, 3}}}}, {{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{1, 1}, {3, 1}, {3, 3}, {1, 3}}}, {{{1, 1}, {3, 1}, {3, 3}, {1, 3}}}}, {{{{0, 0}, {2, 0}, {2, 2}, {0, 2}}}, {{{2, 2}, {4, 2}, {4, 4}, {2, 4}}}}};
  run(c, c.pick(S), 3, c.thorough() ? WT : WQ);
}
static void large(mc::Ctx& c) { int kind = c.choose(BIG), n = c.pick(c.thorough() ? std::vector<int>{4, 7, 8, 9, 12, 16, 17, 25, 33, 40, 64} : std::vector<int>{5, 9, 17, 34}); run(c, big(kind, n), c.tier(1, 3), c.thorough() ? std::vector<double>{0.11, 0.03, 0.3} : std::vector<double>{0.11}); }
static void none(mc::Ctx& c) { f2c::hg::ConstHL h; int n = c.choose(4) - 1; bool dir = c.flag(); c.note(n, " rings of nothing"); Cells e; c.eq(h.generateHeadlands(e, 2).size(), size_t(0), "empty-field"); auto v = h.generateHeadlandSwaths(e, 2, n, dir); c.eq(v.size(), size_t(std::max(n, 0)), "empty-field"); for (auto& x : v) c.eq(x.size(), size_t(0), "empty-field"); Cells cs = toCells({{{{0, 0}, {40, 0}, {40, 40}, {0, 40}}}}); if (n <= 0) c.eq(h.generateHeadlandSwaths(cs, 2, n, dir).size(), size_t(0), "none-requested"); c.nontrivial(c.trace()); c.step(); }
static void setup() { mc::add("large", large, 2); mc::add("polygons", polygons); mc::add("squares", squares); mc::add("holes", holes); mc::add("neighbours", neighbours); mc::add("none", none, 1); }
MC_MAIN
