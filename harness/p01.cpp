// P01: path queries and edits against a plain list of driven pieces.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types; using namespace f2c;
struct St { double x, y, a, len; int dir, type; double v; };
typedef std::vector<St> Model;
static double ex(const St& s) { return s.x + s.dir * s.len * std::cos(s.a); } static double ey(const St& s) { return s.y + s.dir * s.len * std::sin(s.a); }
static double wrap(double a) { return std::fabs(std::remainder(a, 2 * M_PI)); }
static Path build(const Model& m) { Path p; for (size_t i = 0; i < m.size(); ++i) { auto& s = m[i]; if (i % 2) { p.addState(Point(s.x, s.y), s.a, s.len, (PathDirection)s.dir, (PathSectionType)s.type, s.v); } else { PathState q; q.point = Point(s.x, s.y); q.angle = s.a; q.len = s.len; q.dir = (PathDirection)s.dir; q.type = (PathSectionType)s.type; q.velocity = s.v; p.addState(q); } } return p; }
static bool is(const PathState& q, const St& s, double T = 1e-9) { return std::hypot(q.point.getX() - s.x, q.point.getY() - s.y) <= T && wrap(q.angle - s.a) <= T && std::fabs(q.len - s.len) <= T && (int)q.dir == s.dir && (int)q.type == s.type && q.velocity == s.v; }
static void same(mc::Ctx& c, const Path& p, const Model& m, const char* key, double T = 1e-9) { c.eq(p.size(), m.size(), key, "states"); for (size_t i = 0; i < m.size(); ++i) if (!is(p[i], m[i], T)) c.fail(key, mc::str("state ", i, " at ", p[i].point.getX(), ",", p[i].point.getY(), " heading ", p[i].angle, " length ", p[i].len, " dir ", (int)p[i].dir, " type ", (int)p[i].type, " expected ", m[i].x, ",", m[i].y, " ", m[i].a, " ", m[i].len, " ", m[i].dir, " ", m[i].type)); }
static double length(const Model& m) { double d = 0; for (auto& s : m) d += s.len; return d; } static double time(const Model& m) { double d = 0; for (auto& s : m) d += s.len / s.v; return d; }
static Model make(mc::Ctx& c, int n, const std::vector<double>& lens, bool jumps) {
  static const std::vector<double> A{0.3, 1.9, 4.4, 0.35}, V{1, 2.5, 0.02}; Model m; double x = 3, y = -2; int shape = c.choose(3);
  for (int i = 0; i < n; ++i) { St s; s.x = x; s.y = y; s.a = shape == 0 ? 0.7 : A[(i + shape) % 4]; s.len = c.pick(lens); s.dir = c.flag() ? -1 : 1; s.type = 1 + c.choose(3); s.v = V[i % 3]; m.push_back(s); x = ex(s); y = ey(s); if (jumps && i % 2) { x += 0.5; } c.note("piece ", s.type, s.dir > 0 ? " forwards " : " backwards ", s.len, " at ", s.a); }
  return m;
}
static void queries(mc::Ctx& c) {
  int n = c.choose(c.tier(4, 5)); Model m = make(c, n, {0, 0.05, 1, 2.5}, false); Path p = build(m); double L = length(m); same(c, p, m, "states");
  c.near(p.length(), L, 1e-9, "length"); c.near(p.getTaskTime(), time(m), 1e-9, "time"); if (n) { c.near(obj::PathLength().computeCost(p), L, 1e-9, "objective"); }
  if (n == 0) { c.eq(p.toLineString().size(), size_t(0), "line"); return; }
  auto ls = p.toLineString(); c.eq(ls.size(), size_t(n + 1), "line"); for (int i = 0; i <= n; ++i) { double x = i < n ? m[i].x : ex(m[n - 1]), y = i < n ? m[i].y : ey(m[n - 1]); c.check(std::hypot(ls.getX(i) - x, ls.getY(i) - y) < 1e-9, "line"); }
  c.check(std::hypot(p.atStart().getX() - m[0].x, p.atStart().getY() - m[0].y) < 1e-9, "start"); c.check(std::hypot(p.atEnd().getX() - ex(m.back()), p.atEnd().getY() - ey(m.back())) < 1e-9, "end");
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto& s : m) { x0 = std::min(x0, s.x); x1 = std::max(x1, s.x); y0 = std::min(y0, s.y); y1 = std::max(y1, s.y); } c.check(p.getDimMinX() == x0 && p.getDimMaxX() == x1 && p.getDimMinY() == y0 && p.getDimMaxY() == y1, "extent");
  const Path& k = p; c.check(k.getStates().size() == m.size() && p.getStates().size() == m.size() && k.size() == m.size(), "states"); for (int i = 0; i < n; ++i) c.check(is(k.getState(i), m[i]) && is(p.getState(i), m[i]) && is(k[i], m[i]) && is(k.getStates()[i], m[i]) && is(p.getStates()[i], m[i]), "states"); c.check(is(k.back(), m.back()) && is(p.back(), m.back()), "states");
  double base = 0; for (int i = 0; i < n; ++i) { auto& s = m[i];   // strictly inside a piece everything is known; at its ends the position is
    for (double f : {0.0, 0.25, 0.9, 1.0}) { double d = base + f * s.len; auto q = p.at(d); double x = s.x + s.dir * f * s.len * std::cos(s.a), y = s.y + s.dir * f * s.len * std::sin(s.a); if (!(std::hypot(q.point.getX() - x, q.point.getY() - y) < 1e-9)) c.fail("at", mc::str("distance ", d, " lies at ", q.point.getX(), ",", q.point.getY(), " not ", x, ",", y)); if (f > 0 && f < 1 && s.len > 0) c.check(wrap(q.angle - s.a) < 1e-9 && (int)q.dir == s.dir && (int)q.type == s.type && q.velocity == s.v, "at-section"); c.step(); }
    base += s.len; }
  for (double d : {-1.0, -1e9, 0.0}) { auto q = p.at(d); c.check(std::hypot(q.point.getX() - m[0].x, q.point.getY() - m[0].y) < 1e-9, "at-before"); } for (double d : {L + 1, L + 1e9, L}) { auto q = p.at(d); c.check(std::hypot(q.point.getX() - ex(m.back()), q.point.getY() - ey(m.back())) < 1e-9, "at-after", mc::str("distance ", d)); }
  same(c, p, m, "queries-change-nothing"); c.nontrivial(c.trace());
}
static void edits(mc::Ctx& c) {   // compositions of rigid motions and of section edits
  int n = 1 + c.choose(2); Model m = make(c, n, {0, 1, 2.5}, true); Path p = build(m); double L = length(m), T = time(m); int k = c.tier(2, 3); bool typed = false;
  for (int i = 0; i < k; ++i) { int o = c.choose(10); c.step(); switch (o) {
    case 9: { c.note("append itself"); p += p; Model q = m; m.insert(m.end(), q.begin(), q.end()); L *= 2; T *= 2; break; }
    case 0: { double x = c.flag() ? 4 : -0.5; c.note("move ", x); p.moveTo(Point(x, 7)); for (auto& s : m) { s.x += x; s.y += 7; } break; }
    case 1: { double g = c.pick(std::vector<double>{1.1, -2.5, 7}); c.note("rotate ", g); p.rotateFromPoint(Point(2, 1), g); for (auto& s : m) { double x = s.x - 2, y = s.y - 1; s.x = 2 + x * std::cos(g) - y * std::sin(g); s.y = 1 + x * std::sin(g) + y * std::cos(g); s.a += g; } break; }
    case 2: c.note("mirror x"); p.mirrorX(); for (auto& s : m) { s.x = -s.x; s.a = M_PI - s.a; } break;
    case 3: c.note("mirror y"); p.mirrorY(); for (auto& s : m) { s.y = -s.y; s.a = -s.a; } break;
    case 4: { bool all = c.flag(), back = c.flag(); int j = all ? -1 : (int)m.size() - 1; c.note("direction ", back, " of ", j); if (all) { if (back) p.setBackwardDir(); else p.setForwardDir(); } else { if (back) p.setBackwardDir(j); else p.setForwardDir(j); } for (size_t q = 0; q < m.size(); ++q) if (all || (int)q == j) m[q].dir = back ? -1 : 1; break; }
    case 5: { bool all = c.flag(), turn = c.flag(); int j = all ? -1 : 0; c.note("type ", turn, " of ", j); if (all) { if (turn) p.setTurnType(); else p.setSwathType(); } else { if (turn) p.setTurnType(j); else p.setSwathType(j); } for (size_t q = 0; q < m.size(); ++q) if (all || (int)q == j) m[q].type = turn ? 2 : 1; typed = true; break; }
    case 6: { c.note("append"); Path q; q.addState(Point(1, 1), 0.5, 2.0, PathDirection::BACKWARD, PathSectionType::HL_SWATH, 3.0); q.addState(Point(2, 1), 1.5, 0.5, PathDirection::FORWARD, PathSectionType::SWATH, 1.0); p += q; m.push_back({1, 1, 0.5, 2, -1, 3, 3}); m.push_back({2, 1, 1.5, 0.5, 1, 1, 1}); L += 2.5; T += 2.0 / 3 + 0.5; c.eq(q.size(), size_t(2), "appended-kept"); break; }
    case 7: { c.note("append a swath"); LineString l; l.addPoint(0, 0); l.addPoint(3, 4); l.addPoint(3, 5); p.appendSwath(Swath(l, 2.0), 2.0); m.push_back({0, 0, std::atan2(4, 3), 5, 1, 1, 2}); m.push_back({3, 4, M_PI / 2, 1, 1, 1, 2}); L += 6; T += 3; break; }
    case 8: { c.note("set states"); auto v = p.getStates(); std::reverse(v.begin(), v.end()); p.setStates(v); std::reverse(m.begin(), m.end()); PathState s = p.getState(0); s.point = Point(9, 9); Path r = p; r.setState(0, s); c.check(r[0].point.getX() == 9 && r.back().len == p.back().len, "set-state"); break; } }
    same(c, p, m, "edit"); c.near(p.length(), L, 1e-9, "length"); c.near(p.getTaskTime(), T, 1e-9, "time"); c.state(c.trace()); }
  (void)typed; c.nontrivial(c.trace());
}
static void discretized(mc::Ctx& c) {
  int n = c.choose(c.tier(3, 4)); Model m = make(c, n, {0, 0.05, 1, 2.5, 7}, true); Path p = build(m); double step = c.pick(std::vector<double>{0.4, 1.0, 1.7, 10}); c.note("step ", step); Path d = p.discretizeSwath(step); same(c, p, m, "input-kept"); c.near(d.length(), length(m), 1e-9, "discretized-length"); c.near(d.getTaskTime(), time(m), 1e-9, "discretized-time");
  size_t j = 0; for (int i = 0; i < n; ++i) { auto& s = m[i]; c.check(j < d.size(), "discretized", "section missing"); if (s.type != 1) { c.check(is(d[j], s), "other-section", mc::str("section ", i)); ++j; continue; }
    double done = 0; size_t b = j; while (j < d.size() && (int)d[j].type == 1 && (done < s.len - 1e-9 || j == b)) { St w = s; w.x += s.dir * done * std::cos(s.a); w.y += s.dir * done * std::sin(s.a); w.len = d[j].len; c.check(is(d[j], w), "swath-piece", mc::str("piece ", j - b, " of section ", i)); c.check(d[j].len <= 1.5 * step + 1e-9, "step", mc::str("piece of ", d[j].len)); done += d[j].len; ++j; } c.near(done, s.len, 1e-9, "swath-length"); if (s.len > 1.5 * step) c.check(j - b > 1, "not-discretized"); }
  c.eq(j, d.size(), "discretized", "states"); if (n) { c.check(std::hypot(d.atEnd().getX() - ex(m.back()), d.atEnd().getY() - ey(m.back())) < 1e-9 && std::hypot(d.atStart().getX() - m[0].x, d.atStart().getY() - m[0].y) < 1e-9, "discretized-ends"); } c.nontrivial(c.trace()); c.step();
}
static void reduced(mc::Ctx& c) {
  int n = c.choose(c.tier(4, 5)); Model m = make(c, n, {0, 0.05, 1}, false); Path p = build(m); double d = c.pick(std::vector<double>{0, 0.1, 1.01, 100}); c.note("nearer than ", d); Path& r = p.reduce(d); c.check(&r == &p, "reference"); c.near(p.length(), length(m), 1e-9, "reduced-length");
  auto runs = [](auto& v, auto f) { std::vector<std::pair<int, int>> o; for (auto& s : v) { auto k = f(s); if (o.empty() || o.back() != k) o.push_back(k); } return o; }; c.check(runs(m, [](const St& s) { return std::make_pair(s.dir, s.type); }) == runs(p.getStates(), [](const PathState& s) { return std::make_pair((int)s.dir, (int)s.type); }), "reduced-order");
  size_t j = 0; for (size_t i = 0; i < p.size(); ++i) { while (j < m.size() && !(std::hypot(p[i].point.getX() - m[j].x, p[i].point.getY() - m[j].y) < 1e-12 && p[i].angle == m[j].a && (int)p[i].type == m[j].type && (int)p[i].dir == m[j].dir && p[i].velocity == m[j].v)) ++j; c.check(j < m.size(), "reduced-states", "a state that is none of the path's"); ++j; }
  if (n) { c.check(p.size() > 0 && std::hypot(p[0].point.getX() - m[0].x, p[0].point.getY() - m[0].y) < 1e-12, "reduced-start"); } bool apart = true; for (int i = 0; i + 1 < n; ++i) if (m[i].type == m[i + 1].type && m[i].dir == m[i + 1].dir && std::hypot(m[i].x - m[i + 1].x, m[i].y - m[i + 1].y) < d) apart = false; if (apart) same(c, p, m, "nothing-to-merge"); c.nontrivial(c.trace()); c.outcome(mc::str(p.size())); c.step();
}
static void populated(mc::Ctx& c) {   // a straight path with sections of every kind, resampled
  int n = 1 + c.choose(c.tier(4, 5)); double a = c.pick(std::vector<double>{0.2, 2.9}); Model m; double x = 1, y = 2; for (int i = 0; i < n; ++i) { St s{x, y, a, c.pick(std::vector<double>{1.0, 2.5, 0.0}), 1, 1 + c.choose(2), i % 2 ? 2.0 : 1.0}; m.push_back(s); x = ex(s); y = ey(s); c.note("piece ", s.type, " of ", s.len); }
  double L = length(m); if (L == 0) throw mc::Prune(); int N = c.pick(std::vector<int>{7, 40}); bool disc = c.flag(); Path p = build(m); if (disc) { p.discretize(0.1); } else { p.populate(N); } if (n < 2 || (!disc && n < 3)) { same(c, p, m, "short-path-kept"); return; }
  if (n < 3) { return; } if (!disc) c.eq(p.size(), size_t(N), "number-of-states"); c.near(p.length(), L, 1e-6, "populated-length"); double d = 0; c.check(std::hypot(p.atStart().getX() - m[0].x, p.atStart().getY() - m[0].y) < 1e-9, "populated-start"); c.check(std::hypot(p.atEnd().getX() - x, p.atEnd().getY() - y) < 1e-6, "populated-end");
  for (auto& s : p) { c.check(std::hypot(s.point.getX() - 1 - d * std::cos(a), s.point.getY() - 2 - d * std::sin(a)) < 1e-6 && wrap(s.angle - a) < 1e-9, "populated-point"); double b = 0; for (auto& k : m) { if (d > b + 1e-3 && d < b + k.len - 1e-3) c.check((int)s.type == k.type && s.velocity == k.v && (int)s.dir == k.dir, "populated-section", mc::str("at ", d)); b += k.len; } d += s.len; } c.nontrivial(c.trace()); c.step();
}
static void large(mc::Ctx& c) {   // long paths: every operation at every length up to 70 pieces, and some far longer
  int n = 3 + c.choose(c.tier(68, 140)); if (n == 70) { n = 257; } if (n == 69) { n = 1030; } int kind = c.choose(3); Model m; double x = 3, y = -2; static const std::vector<double> LN{1, 0.5, 2.25, 0, 0.05};
  for (int i = 0; i < n; ++i) { St s; s.x = x; s.y = y; s.a = kind == 2 ? 0.3 : std::fmod(0.37 * i, 6.2); s.len = kind ? LN[i % 5] : 1.5; s.dir = kind == 1 && i % 3 == 1 ? -1 : 1; s.type = kind == 2 ? 1 : 1 + (i / 2) % 3; s.v = i % 4 == 3 ? 0.02 : 1 + i % 3; m.push_back(s); x = ex(s); y = ey(s); } c.note(n, " pieces of kind ", kind);
  Path p = build(m); double L = length(m), T = 1e-9 * (1 + L); same(c, p, m, "states"); c.near(p.length(), L, T, "length"); c.near(p.getTaskTime(), time(m), 1e-9 * (1 + time(m)), "time"); auto ls = p.toLineString(); c.eq(ls.size(), size_t(n + 1), "line"); for (int i = 0; i < n; ++i) c.check(std::hypot(ls.getX(i) - m[i].x, ls.getY(i) - m[i].y) < 1e-9, "line"); c.check(std::hypot(p.atEnd().getX() - x, p.atEnd().getY() - y) < 1e-7, "end");
  double base = 0; for (int i = 0; i < n; ++i) { auto& s = m[i]; for (double f : {0.0, 0.5}) { auto q = p.at(base + f * s.len); double X = s.x + s.dir * f * s.len * std::cos(s.a), Y = s.y + s.dir * f * s.len * std::sin(s.a); c.check(std::hypot(q.point.getX() - X, q.point.getY() - Y) < 1e-7, "at"); if (f > 0 && s.len > 0) c.check((int)q.type == s.type && (int)q.dir == s.dir && q.velocity == s.v, "at-section"); } base += s.len; }
  { Path r = p; r.moveTo(Point(5, 7)); r.mirrorX(); r.rotateFromPoint(Point(1, 2), 1.1); Model k = m; for (auto& s : k) { double X = -(s.x + 5) - 1, Y = s.y + 7 - 2; s.x = 1 + X * std::cos(1.1) - Y * std::sin(1.1); s.y = 2 + X * std::sin(1.1) + Y * std::cos(1.1); s.a = M_PI - s.a + 1.1; } same(c, r, k, "moved", 1e-7); Path z = p; z += r; Model j = m; j.insert(j.end(), k.begin(), k.end()); same(c, z, j, "joined", 1e-7); z += z; c.near(z.length(), 4 * L, 4 * T, "length"); c.eq(z.size(), size_t(4 * n), "joined"); }
  { Path r = p; for (int i : {0, n / 2, n - 1}) { r.setBackwardDir(i); r.setTurnType(i); } Model k = m; for (int i : {0, n / 2, n - 1}) { k[i].dir = -1; k[i].type = 2; } same(c, r, k, "set"); r.setSwathType(); r.setForwardDir(); for (auto& s : k) { s.dir = 1; s.type = 1; } same(c, r, k, "set"); }
  { Path d = p.discretizeSwath(0.4); c.near(d.length(), L, T, "discretized-length"); c.near(d.getTaskTime(), time(m), 1e-9 * (1 + time(m)), "discretized-time"); Path e = d.discretizeSwath(5); c.near(e.length(), L, T, "discretized-length"); size_t j = 0; for (int i = 0; i < n; ++i) { double done = 0; do { c.check(j < d.size() && (int)d[j].type == m[i].type && (int)d[j].dir == m[i].dir && d[j].velocity == m[i].v, "discretized"); done += d[j].len; ++j; } while (done < m[i].len - 1e-9); } c.eq(j, d.size(), "discretized"); }
  { Path r = p; r.reduce(0.01); c.near(r.length(), L, T, "reduced-length"); std::set<std::tuple<double, double, double>> k; for (auto& s : m) k.insert({s.x, s.y, s.a}); for (auto& s : r) c.check(k.count({s.point.getX(), s.point.getY(), s.angle}) == 1, "reduced-states"); for (auto& s : m) { bool near = false; for (auto& q : r) near = near || std::hypot(q.point.getX() - s.x, q.point.getY() - s.y) < 0.06; c.check(near, "reduced-away"); } }
  if (kind == 2) for (int N : {7, 64, 300}) { Path r = p; r.populate(N); c.eq(r.size(), size_t(N), "number-of-states"); c.near(r.length(), L, 1e-6 * (1 + L), "populated-length"); double d = 0; for (auto& s : r) { c.check(std::hypot(s.point.getX() - 3 - d * std::cos(0.3), s.point.getY() + 2 - d * std::sin(0.3)) < 1e-6 * (1 + L), "populated-point"); d += s.len; } }
  c.nontrivial(c.trace()); c.step(2 * n);
}
static void setup() { mc::add("large", large, 1); mc::add("queries", queries, 4); mc::add("edits", edits, 5); mc::add("discretized", discretized, 4); mc::add("reduced", reduced, 4); mc::add("populated", populated, 4); }
MC_MAIN
