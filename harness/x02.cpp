// X02: a block of consecutive seeds x every kind of request, and every history of requests on interleaved, copied and moved generators.
#include "mc.h"
#include <array>
#include <climits>
#include <iomanip>
#include "fields2cover/types.h"
#include "fields2cover/utils/random.h"
using f2c::Random; using namespace f2c::types; using V = std::vector<double>;
static const std::vector<uint32_t> EDGE{0xffffffffu, 0x80000000u, 0x7fffffffu, 5489u};
static uint32_t seedOf(mc::Ctx& c, int q, int t) { int n = c.tier(q, t); int k = c.choose(n + EDGE.size()); return k < n ? k : EDGE[k - n]; }
struct Q { double x, y; };
static std::vector<Q> ring(mc::Ctx& c, const Cell& k, const char* who) { c.eq(k.size(), (size_t)1, "rings", who); LinearRing r = k.getExteriorRing(); std::vector<Q> v; for (size_t i = 0; i < r.size(); ++i) { Point p = r.getGeometry(i); if (!std::isfinite(p.getX()) || !std::isfinite(p.getY())) c.fail("not-finite", who); v.push_back({p.getX(), p.getY()}); } c.check(v.size() > 3 && v.front().x == v.back().x && v.front().y == v.back().y, "not-closed", who); v.pop_back(); return v; }
static double cr(Q a, Q b, Q d) { return (b.x - a.x) * (d.y - a.y) - (b.y - a.y) * (d.x - a.x); }
// +1 convex, -1 not convex, 0 too close to tell
static int convexity(const std::vector<Q>& v, double area) { size_t n = v.size(); double lo = 1e300, hi = -1e300, turn = 0; for (size_t i = 0; i < n; ++i) { double k = cr(v[i], v[(i + 1) % n], v[(i + 2) % n]); lo = std::min(lo, k); hi = std::max(hi, k); turn += std::atan2(k, (v[(i + 1) % n].x - v[i].x) * (v[(i + 2) % n].x - v[(i + 1) % n].x) + (v[(i + 1) % n].y - v[i].y) * (v[(i + 2) % n].y - v[(i + 1) % n].y)); } double t = 1e-9 * area; if ((std::fabs(lo) < t) || (std::fabs(hi) < t)) return 0; return (lo > 0 || hi < 0) && std::fabs(std::fabs(turn) - 2 * M_PI) < 0.1 ? 1 : -1; }
static void judge(mc::Ctx& c, const Cell& k, double area, size_t sides, double ratio, const char* who) {
  auto v = ring(c, k, who); size_t n = v.size(); c.eq(n, sides, "sides", who); double s = 0, lo = 1e300, hi = 0; for (size_t i = 0; i < n; ++i) { s += v[i].x * v[(i + 1) % n].y - v[(i + 1) % n].x * v[i].y; double d = std::hypot(v[i].x, v[i].y); lo = std::min(lo, d); hi = std::max(hi, d); } double got = std::fabs(s) / 2; if (!(std::fabs(got - area) <= 1e-9 * area) || !(std::fabs(k.area() - area) <= 1e-9 * area)) c.fail("area", mc::str(who, " has ", got, " instead of ", area)); if (!(hi <= lo * ratio * (1 + 1e-9))) c.fail("widths", mc::str(who, " from ", lo, " to ", hi));
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) { Q a = v[i], b = v[(i + 1) % n], p = v[j], q = v[(j + 1) % n]; if (j == i || (j + 1) % n == i || (i + 1) % n == j) continue; if (cr(a, b, p) * cr(a, b, q) < 0 && cr(p, q, a) * cr(p, q, b) < 0) c.fail("crosses-itself", who); c.step(); }
}
static void numbers(mc::Ctx& c) {
  uint32_t seed = seedOf(c, 20000, 200000); Random r(seed), s(seed), t(seed + 1); c.note("seed ", seed); bool differs = false; auto in = [&](double v, double lo, double hi, const char* key) { if (!(v >= lo && v <= hi)) c.fail(key, mc::str(v, " is not in [", lo, ",", hi, "]")); c.step(); };
  for (int k = 0; k < 24; ++k) { double v = r.getRandomDouble(); in(v, 0, 1, "double"); if (v != s.getRandomDouble()) c.fail("not-reproducible", "double"); differs = differs || v != t.getRandomDouble();
    for (auto& w : std::vector<std::array<double, 2>>{{0, 1}, {-5, -4.5}, {-1, 1e6}, {1e9, 1e9 + 1e-3}, {-1e-12, 1e-12}}) { v = r.getRandomLinear(w[0], w[1]); in(v, w[0], w[1], "linear"); if (v != s.getRandomLinear(w[0], w[1])) c.fail("not-reproducible", "linear"); }
    for (auto& w : std::vector<std::array<double, 2>>{{0.1, 10}, {1e-6, 1e6}, {3, 3.001}, {100, 1e4}}) { v = r.getRandomExp(w[0], w[1]); in(v, w[0] * (1 - 1e-12), w[1] * (1 + 1e-12), "exp"); if (v != s.getRandomExp(w[0], w[1])) c.fail("not-reproducible", "exp"); }
    for (double l : {0.01, 1.0, 50.0}) { v = r.getRandomExpDist(l); if (!(v >= 0 && v < 40 / l)) c.fail("exp-dist", mc::str(v)); if (v != s.getRandomExpDist(l)) c.fail("not-reproducible", "exp dist"); } v = r.getAngleRandom(); in(v, 0, std::nextafter(2 * M_PI, 0), "angle"); if (v != s.getAngleRandom()) c.fail("not-reproducible", "angle"); }
  c.check(differs, "seed-ignored"); c.nontrivial(c.trace()); c.outcome("numbers");
}
static void cells(mc::Ctx& c) {
  uint32_t seed = seedOf(c, 1000, 10000); Random r(seed), s(seed); c.note("seed ", seed); for (int n : {3, 4, 5, 6, 9, 30}) for (double area : {1.0, 1e-9, 1e-3, 1e6, 1e12, 12345.678}) for (auto& w : std::vector<std::array<double, 2>>{{.5, 1}, {.01, 2}, {3, 3.5}}) { Cell k = r.generateRandCell(area, n, w[0], w[1]), q = s.generateRandCell(area, n, w[0], w[1]); judge(c, k, area, n, w[1] / w[0], "cell"); if (!(k == q) || k.exportToWkt() != q.exportToWkt()) c.fail("not-reproducible", "cell"); Field f = r.generateRandField(area, n, w[0], w[1]), g = s.generateRandField(area, n, w[0], w[1]); c.eq(f.getField().size(), (size_t)1, "field-cells"); if (!(std::fabs(f.area() - area) <= 1e-9 * area)) c.fail("area", "field"); judge(c, f.getCellsAbsPosition().getGeometry(0), area, n, w[1] / w[0], "field"); if (f.getCellsAbsPosition().exportToWkt() != g.getCellsAbsPosition().exportToWkt()) c.fail("not-reproducible", "field"); }
  { Cell k = r.generateRandCell(7, 5); judge(c, k, 7, 5, 2, "default widths"); Field f = r.generateRandField(7, 5); judge(c, f.getCellsAbsPosition().getGeometry(0), 7, 5, 2, "default widths"); } c.nontrivial(c.trace()); c.outcome("cells");
}
static void shapes(mc::Ctx& c) {
  uint32_t seed = seedOf(c, 2000, 20000); double area = c.pick(V{1, 1e4}); Random r(seed), s(seed); c.note("seed ", seed, " area ", area);
  for (size_t n : {3, 4, 5, 6}) { Cell k = n == 4 ? r.genConvexCell(area) : r.genConvexCell(area, n), q = s.genConvexCell(area, n); judge(c, k, area, n, 2, "convex"); if (convexity(ring(c, k, "convex"), area) < 0) c.fail("not-convex", k.exportToWkt()); c.check(k.isConvex(), "not-convex"); if (k.exportToWkt() != q.exportToWkt()) c.fail("not-reproducible", "convex"); Field f = r.genConvexField(area, n); (void)s.genConvexField(area, n); Cell a = f.getCellsAbsPosition().getGeometry(0); judge(c, a, area, n, 2, "convex field"); if (convexity(ring(c, a, "convex field"), area) < 0) c.fail("not-convex", "field"); }
  for (int i = 0; i < 6; ++i) { Cell k = r.genNonConvexCell(area), q = s.genNonConvexCell(area); judge(c, k, area, 9, 2, "non-convex"); if (convexity(ring(c, k, "non-convex"), area) > 0) c.fail("convex", k.exportToWkt()); if (k.exportToWkt() != q.exportToWkt()) c.fail("not-reproducible", "non-convex"); Field f = r.genNonConvexField(area); (void)s.genNonConvexField(area); Cell a = f.getCellsAbsPosition().getGeometry(0); judge(c, a, area, 9, 2, "non-convex field"); if (convexity(ring(c, a, "non-convex field"), area) > 0) c.fail("convex", "field"); }
  c.nontrivial(c.trace()); c.outcome("shapes");
}
static std::string ask(Random& r, int kind) { switch (kind) { case 0: return mc::str(std::setprecision(17), r.getRandomDouble()); case 1: return mc::str(std::setprecision(17), r.getRandomLinear(-3, 8)); case 2: return mc::str(std::setprecision(17), r.getRandomExp(.1, 9)); case 3: return mc::str(std::setprecision(17), r.getRandomExpDist(2)); case 4: return mc::str(std::setprecision(17), r.getAngleRandom()); case 5: return r.generateRandCell(10, 4).exportToWkt(); case 6: return r.genConvexCell(5).exportToWkt(); case 7: return r.genNonConvexField(5).getCellsAbsPosition().exportToWkt(); default: return r.genConvexField(5, 5).getCellsAbsPosition().exportToWkt(); } }
static bool refused(Random& r, int kind) { try { switch (kind) { case 0: r.generateRandCell(0, 4); break; case 1: r.generateRandCell(-1, 4); break; case 2: r.generateRandCell(3, 2); break; case 3: r.generateRandField(3, 0); break; case 4: r.generateRandField(-1e300, 5); break; case 5: r.genConvexCell(-0.0); break; case 6: r.genConvexCell(3, 2); break; case 7: r.genConvexField(-2); break; case 8: r.genConvexField(2, 1); break; case 9: r.genNonConvexCell(0); break; case 10: r.genNonConvexField(-5); break; case 11: r.generateRandCell(3, -1); break; case 12: r.generateRandCell(3, INT_MIN); break; case 13: r.generateRandField(-INFINITY, 4); break; case 14: r.genConvexCell(2, 0); break; default: r.genConvexField(0, 1); } return false; } catch (const std::exception&) { return true; } }
static void histories(mc::Ctx& c) {
  uint32_t seed = c.pick(std::vector<uint32_t>{0, 1, 77, 0xffffffffu}); Random a(seed), ref(seed), b(seed + 5); std::vector<Random> kept; int depth = c.tier(2, 3);
  for (int d = 0; d < depth; ++d) { int k = c.choose(9), between = c.choose(6); c.note(k, "/", between); switch (between) { case 1: ask(b, (k + 1 + d) % 9); break; case 2: { Random copy(a); ask(copy, k); kept.push_back(copy); } break; case 3: { Random m(std::move(a)); Random n(3); n = std::move(m); a = n; } break; case 4: { Random x(seed), y(seed); for (int i = 0; i < 9; ++i) if (ask(x, i) != ask(y, i)) c.fail("not-reproducible", "fresh"); } break; case 5: std::srand(1); (void)std::rand(); break; default: break; } std::string v = ask(a, k), w = ask(ref, k); if (v != w) c.fail("history", mc::str("request ", k, " gave ", v, " instead of ", w)); c.step(); c.state(mc::str(seed, c.trace())); }
  c.nontrivial(mc::str(seed, c.trace())); c.outcome(mc::str(depth));
}
static void refusals(mc::Ctx& c) { uint32_t seed = c.choose(c.tier(8, 64)); int k = c.choose(16), l = c.choose(16); Random r(seed), s(seed); c.note("seed ", seed, " refused ", k, " ", l); c.check(refused(r, k) && refused(r, l) && refused(s, k) && refused(s, l), "accepted"); for (int i = 0; i < 9; ++i) if (ask(r, i) != ask(s, i)) c.fail("not-reproducible", "after refusals"); judge(c, r.generateRandCell(4, 3), 4, 3, 2, "after refusals"); c.nontrivial(c.trace()); c.outcome("refused"); c.step(); }
static void setup() { mc::add("numbers", numbers, 1); mc::add("cells", cells, 1); mc::add("shapes", shapes, 2); mc::add("histories", histories, 3); mc::add("refusals", refusals); }
MC_MAIN
