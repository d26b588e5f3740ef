// T03: histories of edits on geometry containers against plain lists.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types;
struct P3 { double x, y, z; };
typedef std::vector<P3> PL; typedef std::vector<PL> PLL; typedef std::vector<PLL> PLLL;
static Point pt(const P3& p) { return Point(p.x, p.y, p.z); }
static bool eq(const Point& a, const P3& b) { return std::fabs(a.X() - b.x) < 1e-9 && std::fabs(a.Y() - b.y) < 1e-9 && std::fabs(a.Z() - b.z) < 1e-9; }
static std::string str(const PL& l) { std::string r; for (auto& p : l) r += mc::str(p.x, ",", p.y, ",", p.z, " "); return r; }
static std::string str(const PLL& l) { std::string r; for (auto& p : l) r += "(" + str(p) + ")"; return r; }
static double len(const PL& l) { double s = 0; for (size_t i = 0; i + 1 < l.size(); ++i) s += std::hypot(l[i + 1].x - l[i].x, l[i + 1].y - l[i].y); return s; }
static double area(const PL& l) { double s = 0; for (size_t i = 0; i + 1 < l.size(); ++i) s += l[i].x * l[i + 1].y - l[i + 1].x * l[i].y; return std::fabs(s) / 2; }
static bool closed(const PL& l) { return l.size() < 1 || (l.front().x == l.back().x && l.front().y == l.back().y && l.front().z == l.back().z); }
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

// ---------------------------------------------------------------- point lists
template <class G> void readBack(mc::Ctx& c, const G& cg, G& g, const PL& m, const std::string& at = "") {
  c.eq(cg.size(), m.size(), "size", at); size_t n = m.size(), i = 0;
  for (auto&& p : cg) { c.check(i < n && eq(p, m[i]), "const-iteration", mc::str(at, "#", i)); ++i; }
  c.eq(i, n, "const-iteration-count", at); i = 0;
  for (auto&& p : g) { c.check(i < n && eq(p, m[i]), "iteration", mc::str(at, "#", i)); ++i; }
  c.eq(i, n, "iteration-count", at);
  for (i = 0; i < n; ++i) {
    Point q, r; cg.getGeometry(i, q); g.getGeometry(i, r);
    c.check(eq(cg.getGeometry(i), m[i]) && eq(g.getGeometry(i), m[i]) && eq(cg.at(i), m[i]) && eq(cg[i], m[i]) && eq(q, m[i]) && eq(r, m[i]), "index", mc::str(at, "#", i, " is ", q.X(), ",", q.Y(), ",", q.Z(), " model ", str(m)));
  }
  if (n) c.check(eq(cg.back(), m.back()), "back", at);
  Point q;
  if (at.empty()) for (size_t o : {n, n + 3}) c.check(throws([&] { cg.getGeometry(o); }) && throws([&] { g.getGeometry(o); }) && throws([&] { cg.at(o); }) && throws([&] { cg[o]; }) &&
                                      throws([&] { cg.getGeometry(o, q); }) && throws([&] { g.getGeometry(o, q); }), "read-past-end", mc::str(at, " index ", o));
  if (!n && at.empty()) c.check(throws([&] { cg.back(); }), "back-empty", at);
  c.eq(cg.isEmpty(), n == 0, "is-empty", at);
}
static void extra(mc::Ctx& c, const LineString& g, const PL& m) {
  for (size_t i = 0; i < m.size(); ++i) c.check(g.X(i) == g.getX(i) && std::fabs(g.X(i) - m[i].x) < 1e-9 && std::fabs(g.Y(i) - m[i].y) < 1e-9 && std::fabs(g.getY(i) - m[i].y) < 1e-9 && std::fabs(g.Z(i) - m[i].z) < 1e-9 && g.getZ(i) == g.Z(i), "getters");
  c.near(g.length(), len(m), 1e-9, "length");
  if (m.size()) { c.check(eq(g.startPoint(), m.front()) && eq(g.endPoint(), m.back()), "ends"); }
  if (m.size() >= 2 && (m[0].x != m[1].x || m[0].y != m[1].y)) c.check(std::fabs(std::remainder(g.startAngle() - std::atan2(m[1].y - m[0].y, m[1].x - m[0].x), 2 * M_PI)) < 1e-9, "start-angle");
  if (m.size() >= 2) { auto &a = m[m.size() - 2], &b = m.back(); if (a.x != b.x || a.y != b.y) c.check(std::fabs(std::remainder(g.endAngle() - std::atan2(b.y - a.y, b.x - a.x), 2 * M_PI)) < 1e-9, "end-angle"); }
}
static void extra(mc::Ctx& c, const LinearRing& g, const PL& m) {
  for (size_t i = 0; i < m.size(); ++i) c.check(std::fabs(g.getX(i) - m[i].x) < 1e-9 && std::fabs(g.getY(i) - m[i].y) < 1e-9 && std::fabs(g.getZ(i) - m[i].z) < 1e-9, "getters");
  c.near(g.length(), len(m), 1e-9, "length"); c.eq(g.isClosed(), closed(m), "is-closed");
  if (m.size() >= 4 && closed(m)) c.near(g.area(), area(m), 1e-9, "area");
  if (m.size()) c.check(eq(g.startPoint(), m.front()) && eq(g.endPoint(), m.back()), "ends");
}
static void extra(mc::Ctx& c, const MultiPoint& g, const PL& m) { if (m.size()) c.check(eq(g.getFirstPoint(), m.front()) && eq(g.getLastPoint(), m.back()), "ends"); }
static void revp(LineString& g) { g.reversePoints(); } static void revp(LinearRing& g) { g.reversePoints(); } static void revp(MultiPoint&) {}
template <class G> constexpr bool isRing() { return std::is_same<G, LinearRing>::value; }
template <class G> constexpr bool isMP() { return std::is_same<G, MultiPoint>::value; }

static const PL PTS{{1, 2, 0}, {-4, 0.5, 3}, {6, 7, 0}};

template <class G> void pointHistory(mc::Ctx& c) {
  G g; PL m; int depth = c.tier(3, 4);
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(isMP<G>() ? 9 : 10); c.step();
    if (op == 0) { auto& p = PTS[c.choose(3)]; c.note("add ", p.x); if (p.z == 0) g.addPoint(p.x, p.y); else g.addPoint(p.x, p.y, p.z); m.push_back(p); }
    else if (op == 1) { auto& p = PTS[c.choose(2)]; c.note("addp ", p.x); if (c.flag()) g.addPoint(pt(p)); else g.addGeometry(pt(p)); m.push_back(p); }
    else if (op == 2) { size_t i = c.choose(m.size() + 2); auto& p = PTS[1 + c.choose(2)]; c.note("set ", i, "=", p.x); while (m.size() <= i) m.push_back({0, 0, 0}); g.setGeometry(i, pt(p)); m[i] = p; }
    else if (op == 3) { double k = c.flag() ? -0.5 : 3; c.note("scale ", k); g *= k; for (auto& p : m) { p.x *= k; p.y *= k; p.z *= k; } }
    else if (op == 4) { c.note("shift in place"); for (auto&& p : g) p = p + Point(1, -1, 2); for (auto& p : m) { p.x += 1; p.y -= 1; p.z += 2; } }
    else if (op == 5) { c.require(m.size() > 0); size_t k = c.choose(m.size()), i = 0; c.note("edit ", k); for (auto&& p : g) { if (i++ == k) p.setX(9); } m[k].x = 9; }
    else if (op == 6) { c.note("translate"); G h = g + Point(2, 3, 1); PL n = m; for (auto& p : n) { p.x += 2; p.y += 3; p.z += 1; } readBack(c, g, g, m, "original"); g = h; m = n; }
    else if (op == 7) { c.note("subtract"); G h = g - Point(2, 3, 1); PL n = m; for (auto& p : n) { p.x -= 2; p.y -= 3; p.z -= 1; } readBack(c, g, g, m, "original"); g = h; m = n; }
    else if (op == 8) { c.note("rotate"); G h = Point(1, 1).rotateFromPoint(M_PI / 2, g); readBack(c, g, g, m, "original");   // heights are not part of a plane rotation
      c.eq(h.size(), m.size(), "rotated-size"); for (size_t i = 0; i < m.size(); ++i) { Point q = h.getGeometry(i); c.near(q.X(), 1 - (m[i].y - 1), 1e-9, "rotated-x"); c.near(q.Y(), 1 + (m[i].x - 1), 1e-9, "rotated-y"); } }
    else { if constexpr (isRing<G>()) { if (c.flag()) { c.note("close"); g.closeRing(); if (!closed(m)) m.push_back(m.front()); } else { c.note("reverse"); revp(g); std::reverse(m.begin(), m.end()); } } else { c.note("reverse"); revp(g); std::reverse(m.begin(), m.end()); } }
    c.state(mc::str(typeid(G).name(), str(m)));
  }
  readBack(c, g, g, m); extra(c, g, m); c.validated();
  if constexpr (isMP<G>()) {   // angles of a point chain
    MultiPoint dup; dup.addPoints(g); readBack(c, dup, dup, m, "addPoints");
    bool distinct = true; for (size_t i = 0; i + 1 < m.size(); ++i) distinct = distinct && (m[i].x != m[i + 1].x || m[i].y != m[i + 1].y);
    auto a = [&](size_t i) { return std::atan2(m[i + 1].y - m[i].y, m[i + 1].x - m[i].x); };
    bool flat = true; for (auto& p : m) flat = flat && p.z == 0;
    if (distinct && flat) for (size_t i = 0; i < m.size(); ++i) {
      if (i > 0) c.near(std::remainder(g.getInAngle(i) - a(i - 1), 2 * M_PI), 0, 1e-9, "in-angle"); else c.check(throws([&] { g.getInAngle(0); }), "in-angle-first");
      if (i + 1 < m.size()) c.near(std::remainder(g.getOutAngle(i) - a(i), 2 * M_PI), 0, 1e-9, "out-angle"); else c.check(throws([&] { g.getOutAngle(i); }), "out-angle-last");
    }
  }
}
// ---------------------------------------------------------------- lists of lines
static const PLL LS{{{0, 0, 0}, {4, 0, 0}}, {{1, 1, 0}, {2, 3, 0}, {5, 5, 0}}, {{-1, -1, 0}, {-2, 4, 0}}};
static LineString mkLine(const PL& l) { LineString r; for (auto& p : l) r.addPoint(p.x, p.y, p.z); return r; }
static LinearRing mkRing(const PL& l) { LinearRing r; for (auto& p : l) r.addPoint(p.x, p.y, p.z); return r; }
static void cmpLines(mc::Ctx& c, MultiLineString& g, const PLL& m, const std::string& at = "") {
  const MultiLineString& cg = g; c.eq(g.size(), m.size(), "lines-size", at); size_t i = 0;
  for (auto&& l : cg) { LineString k = l.clone(); readBack(c, l, k, m[i], mc::str(at, "line ", i)); ++i; }
  c.eq(i, m.size(), "lines-iteration");
  double L = 0; for (auto& l : m) L += len(l); c.near(g.length(), L, 1e-9, "lines-length", at);
  for (i = 0; i < m.size(); ++i) { LineString a = cg.getGeometry(i), b = g.getGeometry(i), d; cg.getGeometry(i, d); readBack(c, a, a, m[i], "l"); readBack(c, b, b, m[i], "l"); readBack(c, d, d, m[i], "l"); LineString e = cg.at(i), f = cg[i]; readBack(c, e, e, m[i], "l"); readBack(c, f, f, m[i], "l"); }
  LineString d; size_t n = m.size();
  if (at.empty()) c.check(throws([&] { cg.getGeometry(n); }) && throws([&] { g.getGeometry(n); }) && throws([&] { cg.getGeometry(n, d); }) && throws([&] { g.getGeometry(n, d); }) && throws([&] { cg.at(n); }), "lines-past-end");
  if (n) { LineString b = cg.back(); readBack(c, b, b, m.back(), "back"); }
}
static void lineHistory(mc::Ctx& c) {
  MultiLineString g; PLL m; int depth = c.tier(3, 4);
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(9); c.step();
    if (op == 8) { c.require(m.size() < 7); c.note("add itself"); PLL n = m; g.addGeometry(g); m.insert(m.end(), n.begin(), n.end()); }
    else if (op == 0) { int l = c.choose(3); c.note("add ", l); g.addGeometry(mkLine(LS[l])); m.push_back(LS[l]); }
    else if (op == 1) { c.note("add lines"); MultiLineString o; o.addGeometry(mkLine(LS[2])); o.addGeometry(mkLine(LS[0])); g.addGeometry(o); m.push_back(LS[2]); m.push_back(LS[0]); cmpLines(c, o, {LS[2], LS[0]}, "argument"); }
    else if (op == 2) { size_t i = c.choose(m.size() + 3); int l = c.choose(2); c.note("set ", i, "=", l); while (m.size() <= i) m.push_back({}); g.setGeometry(i, mkLine(LS[l])); m[i] = LS[l]; }
    else if (op == 3) { double k = c.flag() ? 2 : -1; c.note("scale ", k); g *= k; for (auto& l : m) for (auto& p : l) { p.x *= k; p.y *= k; p.z *= k; } }
    else if (op == 4) { c.note("translate"); MultiLineString h = g + Point(1, 2); cmpLines(c, g, m, "original"); PLL n = m; for (auto& l : n) for (auto& p : l) { p.x += 1; p.y += 2; } g = h; m = n; }
    else if (op == 5) { c.require(m.size() > 0); size_t k = c.choose(m.size()), i = 0; c.note("grow ", k); for (auto&& l : g) { if (i++ == k) l.addPoint(8, 8); } m[k].push_back({8, 8, 0}); }
    else if (op == 6) { c.note("reverse each"); for (auto&& l : g) l.reversePoints(); for (auto& l : m) std::reverse(l.begin(), l.end()); }
    else { c.note("segments"); PLL n; MultiLineString h; for (auto& l : m) if (l.size() >= 2) { h.addGeometry(MultiLineString::getLineSegments(mkLine(l))); for (size_t i = 0; i + 1 < l.size(); ++i) n.push_back({l[i], l[i + 1]}); }
      cmpLines(c, h, n, "segments"); }
    c.state(mc::str("L", str(m)));
  }
  cmpLines(c, g, m); c.validated();
}
// ---------------------------------------------------------------- cells: rings
static const PL R0{{0, 0, 0}, {10, 0, 0}, {10, 10, 0}, {0, 10, 0}, {0, 0, 0}}, R1{{2, 2, 0}, {4, 2, 0}, {4, 4, 0}, {2, 2, 0}}, R2{{6, 6, 0}, {8, 6, 0}, {8, 8, 0}, {6, 8, 0}};  // R2 is open
static PL shift1(PL l, double d) { for (auto& p : l) p.x += d; return l; }
static PL close(PL l) { if (!closed(l)) l.push_back(l.front()); return l; }
static double cellArea(const PLL& m) { double a = 0; for (size_t i = 0; i < m.size(); ++i) a += (i ? -1 : 1) * area(m[i]); return a; }
static bool emptyCell(const PLL& m) { for (auto& r : m) if (!r.empty()) return false; return true; }
static void cmpCell(mc::Ctx& c, const Cell& cg, const PLL& m, const std::string& at = "") {
  Cell g = cg.clone(); size_t n = m.size();
  c.eq(cg.size(), n, "rings", at); size_t i = 0;
  for (auto&& r : cg) { LinearRing k = r.clone(); readBack(c, r, k, m[i], mc::str(at, "ring ", i)); ++i; }
  c.eq(i, n, "ring-iteration");
  for (i = 0; i < n; ++i) { LinearRing a = cg.getGeometry(i), d; cg.getGeometry(i, d); readBack(c, a, a, m[i], "r"); readBack(c, d, d, m[i], "r"); c.check(a.isClosed(), "ring-open", at);
    LinearRing e = i ? cg.getInteriorRing(i - 1) : cg.getExteriorRing(); readBack(c, e, e, m[i], "r"); }
  LinearRing d; if (!at.empty() && at != "at") { c.near(cg.area(), cellArea(m), 1e-9, "cell-area", at); return; }
  c.check(throws([&] { cg.getGeometry(n); }) && throws([&] { g.getGeometry(n); }) && throws([&] { cg.getGeometry(n, d); }) && throws([&] { cg.at(n); }), "rings-past-end", at);
  c.check(throws([&] { cg.getInteriorRing(n ? n - 1 : 0); }), "interior-past-end", at);
  if (!n) c.check(throws([&] { cg.getExteriorRing(); }), "exterior-of-empty", at);
  c.near(cg.area(), cellArea(m), 1e-9, "cell-area", at);
}
static const PLL RS{R0, R1, R2};
static void cellHistory(mc::Ctx& c) {
  Cell g; PLL m; int depth = c.tier(3, 4);
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(6); c.step();
    if (op == 0) { int l = c.choose(3); LinearRing r = mkRing(RS[l]); c.note("add ", l); if (c.flag()) g.addRing(r); else g.addGeometry(r); m.push_back(close(RS[l])); c.eq(r.size(), RS[l].size(), "argument-changed"); }
    else if (op == 1) { size_t i = c.choose(m.size() + 2); int l = 1 + c.choose(2); c.require(i <= m.size() || !m.empty()); c.note("set ", i, "=", l); while (m.size() <= i) m.push_back({}); g.setGeometry(i, mkRing(RS[l])); m[i] = close(RS[l]); }
    else if (op == 2) { double k = c.flag() ? 2 : -1; c.note("scale ", k); g *= k; for (auto& l : m) for (auto& p : l) { p.x *= k; p.y *= k; } }
    else if (op == 3) { c.require(m.size() > 0); bool pad = false; for (auto& r : m) pad = pad || r.empty(); c.require(!pad); c.note("translate"); Cell h = g + Point(1, 2); cmpCell(c, g, m, "original"); PLL n = m; for (auto& l : n) for (auto& p : l) { p.x += 1; p.y += 2; } g = h; m = n; }
    else if (op == 4) { c.note("reverse each"); for (auto&& l : g) l.reversePoints(); for (auto& l : m) std::reverse(l.begin(), l.end()); }
    else { c.require(m.size() > 0); c.note("rotate"); bool pad = false; for (auto& r : m) pad = pad || r.empty(); c.require(!pad); Cell h = Point(0, 0).rotateFromPoint(M_PI, g); cmpCell(c, g, m, "original"); PLL n = m; for (auto& l : n) for (auto& p : l) { p.x = -p.x; p.y = -p.y; } cmpCell(c, h, n, "rotated"); }
    c.state(mc::str("C", str(m)));
  }
  cmpCell(c, g, m); c.validated();
}
// ---------------------------------------------------------------- cell sets
static void cmpCells(mc::Ctx& c, const Cells& cg, const PLLL& m, const std::string& at = "") {
  Cells g = cg; size_t n = m.size(); c.eq(cg.size(), n, "cells", at); size_t i = 0; double A = 0;
  for (auto&& x : cg) { cmpCell(c, x, m[i], mc::str(at, "cell ", i)); ++i; }
  c.eq(i, n, "cells-iteration");
  for (i = 0; i < n; ++i) { cmpCell(c, cg.getGeometry(i), m[i], "g"); cmpCell(c, cg.getCell(i), m[i], "c"); Cell d; cg.getGeometry(i, d); cmpCell(c, d, m[i], "o"); cmpCell(c, cg.at(i), m[i], "at"); cmpCell(c, cg[i], m[i], "i"); A += cellArea(m[i]);
    if (m[i].size()) { LinearRing r = cg.getCellBorder(i); readBack(c, r, r, m[i][0], "border"); } for (size_t k = 1; k < m[i].size(); ++k) { LinearRing r = cg.getInteriorRing(i, k - 1); readBack(c, r, r, m[i][k], "interior"); }
    size_t k = m[i].size(); if (at.empty()) c.check(throws([&] { cg.getInteriorRing(i, k ? k - 1 : 0); }), "interior-past-end2", at); }
  if (!at.empty()) return;
  Cell d; c.check(throws([&] { cg.getGeometry(n); }) && throws([&] { g.getGeometry(n); }) && throws([&] { cg.getCell(n); }) && throws([&] { cg.getGeometry(n, d); }) && throws([&] { cg.at(n); }), "cells-past-end", at);
  c.check(throws([&] { cg.getCellBorder(n); }) && throws([&] { cg.getInteriorRing(n, 0); }), "border-past-end", at);
  c.near(cg.area(), A, 1e-9, "cells-area", at);
}
static Cell mkCell(const PLL& m) { Cell r; for (auto& x : m) r.addRing(mkRing(x)); return r; }
static PLL shift(PLL m, double dx) { for (auto& r : m) for (auto& p : r) p.x += dx; return m; }
static void cellsHistory(mc::Ctx& c) {
  Cells g; PLLL m; int depth = c.tier(3, 4); const PLLL CS{{R0}, shift({R0, R1}, 20), shift({close(R2)}, 50)};
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(6); c.step();
    if (op == 0) { int l = c.choose(3); c.note("add ", l); g.addGeometry(mkCell(CS[l])); m.push_back(CS[l]); }
    else if (op == 1) { size_t i = c.choose(m.size() + 3); int l = c.choose(2); c.note("set ", i, "=", l); while (m.size() <= i) m.push_back({}); g.setGeometry(i, mkCell(CS[l])); m[i] = CS[l]; }
    else if (op == 2) { double k = c.flag() ? 2 : -1; c.note("scale ", k); g *= k; for (auto& x : m) for (auto& l : x) for (auto& p : l) { p.x *= k; p.y *= k; } }
    else if (op == 3) { c.require(m.size() > 0); size_t i = c.choose(m.size()); int l = 1 + c.choose(2); c.note("ring ", l, " into ", i); g.addRing(i, mkRing(RS[l])); m[i].push_back(close(RS[l])); }
    else if (op == 4) { c.note("translate"); Cells h = g + Point(1, 2); cmpCells(c, g, m, "original"); PLLL n = m; for (auto& x : n) for (auto& l : x) for (auto& p : l) { p.x += 1; p.y += 2; } g = h; m = n; }
    else { c.note("ring past end"); size_t n = m.size(); c.check(throws([&] { g.addRing(n, mkRing(R1)); }), "add-ring-past-end"); }
    std::string s = "S"; for (auto& x : m) s += "{" + str(x) + "}"; c.state(s);
  }
  cmpCells(c, g, m); c.validated();
}
// the consecutive segments of every short chain of points, repeated and revisited points included
static void segments(mc::Ctx& c) {
  static const PL A{{0, 0, 0}, {2, 0, 0}, {0, 1, 3}}; int n = c.choose(c.tier(7, 9)); PL m; for (int i = 0; i < n; ++i) m.push_back(A[c.choose(3)]); c.note(str(m)); c.step();
  PLL w; for (size_t i = 0; i + 1 < m.size(); ++i) w.push_back({m[i], m[i + 1]});
  LineString l = mkLine(m); LinearRing r = mkRing(m); MultiLineString a = MultiLineString::getLineSegments(l), b = MultiLineString::getLineSegments(r);
  for (auto* g : {&a, &b}) { c.eq(g->size(), w.size(), "segment-count"); for (size_t i = 0; i < w.size(); ++i) { LineString s = g->getGeometry(i); c.eq(s.size(), size_t(2), "segment-size"); c.check(eq(s.startPoint(), w[i][0]) && eq(s.endPoint(), w[i][1]), "segment-ends", mc::str("#", i)); } c.near(g->length(), len(m), 1e-9, "segments-length"); }
  c.eq(l.size(), m.size(), "argument-changed"); c.eq(r.size(), m.size(), "argument-changed"); c.state(str(m)); c.validated();
}
// containers of every size up to some dozens
static PL series(int n, int k) { PL m; for (int i = 0; i < n; ++i) { double a = 2 * M_PI * i / std::max(n, 1), r = k ? 2 + (i % 3) * 0.75 : 3 + i; m.push_back({std::round(1e3 * r * std::cos(a)) / 1e3 + k, std::round(1e3 * r * std::sin(a)) / 1e3, i % 4 == 3 ? 0.5 * i : 0.0}); } return m; }
template <class G> static G make(const PL& m, int how) { std::vector<Point> v; for (auto& p : m) v.push_back(pt(p)); if (how == 0) return G(v); G g; for (auto& p : v) { if (how == 1) g.addPoint(p); else g.addGeometry(p); } return g; }
template <class G> static void largePoints(mc::Ctx& c) {
  int n = c.choose(c.tier(72, 200)); int op = c.choose(7), k = c.choose(2); PL m = series(n, k); G g = make<G>(m, (n + op) % 3); c.note(n, " points, operation ", op, " kind ", k); c.step();
  if (op == 1) { g *= -1.5; for (auto& p : m) { p.x *= -1.5; p.y *= -1.5; p.z *= -1.5; } }
  if (op == 2) { int i = 0; for (auto&& p : g) { if (i % 3 == 1) p = p + Point(1, 2, 3); ++i; } for (i = 0; i < n; ++i) if (i % 3 == 1) { m[i].x += 1; m[i].y += 2; m[i].z += 3; } }
  if (op == 3) for (int i : {n - 1, n / 2, 0, n + 2}) if (i >= 0) { g.setGeometry(i, Point(7.5, i, 1)); while ((int)m.size() <= i) m.push_back({0, 0, 0}); m[i] = {7.5, (double)i, 1}; }
  if (op == 4) { G h = g.clone(); for (auto&& p : g) p.setX(0); readBack(c, h, h, m, "clone "); g = h; }
  if (op == 5) { G h = g + Point(2, -3); h = h - Point(1, 1); for (auto& p : m) { p.x += 1; p.y -= 4; } g = h; }
  if (op == 6) { if constexpr (isMP<G>()) { MultiPoint d; d.addPoint(1, 1); d.addPoints(g); m.insert(m.begin(), {1, 1, 0}); g = d; } else { revp(g); std::reverse(m.begin(), m.end()); } }
  if constexpr (isRing<G>()) { if (k && op < 2) { g.closeRing(); if (!closed(m)) m.push_back(m.front()); } }
  readBack(c, g, g, m); extra(c, g, m); c.state(mc::str(typeid(G).name(), str(m))); c.validated();
}
static void largeLines(mc::Ctx& c) {
  int n = c.choose(c.tier(41, 120)), op = c.choose(6); MultiLineString g; PLL m; c.note(n, " lines, operation ", op); c.step(); for (int i = 0; i < n; ++i) { m.push_back(series(2 + i % 5, i % 2)); for (auto& p : m.back()) p.x += i; g.addGeometry(mkLine(m.back())); }
  if (op == 1) { g *= 2; for (auto& l : m) for (auto& p : l) { p.x *= 2; p.y *= 2; p.z *= 2; } }
  if (op == 2) { g.addGeometry(g); PLL k = m; m.insert(m.end(), k.begin(), k.end()); }
  if (op == 3) { int i = 0; for (auto&& l : g) { if (i % 4 == 1) l.addPoint(8, 8); if (i % 4 == 2) l.reversePoints(); ++i; } for (i = 0; i < n; ++i) { if (i % 4 == 1) m[i].push_back({8, 8, 0}); if (i % 4 == 2) std::reverse(m[i].begin(), m[i].end()); } }
  if (op == 4) { g = g + Point(1, 2); for (auto& l : m) for (auto& p : l) { p.x += 1; p.y += 2; } }
  if (op == 5) for (int i : {n - 1, n / 2, n + 1}) if (i >= 0) { g.setGeometry(i, mkLine(LS[1])); while ((int)m.size() <= i) m.push_back({}); m[i] = LS[1]; }
  cmpLines(c, g, m); c.state(mc::str("L", str(m))); c.validated();
}
static PL square(double x, double y, double w) { return {{x, y, 0}, {x + w, y, 0}, {x + w, y + w, 0}, {x, y + w, 0}, {x, y, 0}}; }
static void largeCells(mc::Ctx& c) {   // many cells, or one cell with many holes
  int n = 1 + c.choose(c.tier(33, 80)), op = c.choose(6); bool holes = c.flag(); PLLL m; c.note(n, holes ? " holes" : " cells", ", operation ", op); c.step();
  if (holes) { m.push_back({square(0, 0, 200)}); for (int i = 0; i < n; ++i) m[0].push_back(square(2 + 20 * (i % 9), 2 + 15 * (i / 9), 1 + i * 0.125)); } else for (int i = 0; i < n; ++i) { m.push_back({square(10 * i, i % 7, 3 + i * 0.125)}); if (i % 3 == 1) m.back().push_back(square(10 * i + 1, i % 7 + 1, 0.5)); }
  Cells g; for (size_t i = 0; i < m.size(); ++i) { Cell x; for (auto& r : m[i]) x.addRing(mkRing(r)); g.addGeometry(x); }
  auto each = [&](auto f) { for (auto& x : m) for (auto& r : x) for (auto& p : r) f(p); };
  if (op == 1) { g *= 2; each([](P3& p) { p.x *= 2; p.y *= 2; }); } if (op == 2) { g = g + Point(1, 2); each([](P3& p) { p.x += 1; p.y += 2; }); }
  if (op == 3) { Cells h = g.clone(); g *= 3; g = h; } if (op == 4) { for (auto&& x : g) { for (auto&& r : x) r.reversePoints(); } for (auto& x : m) for (auto& r : x) std::reverse(r.begin(), r.end()); }
  if (op == 5) { int k = (int)m.size() / 2; Cell x = g.getGeometry(k); x.addRing(mkRing(square(m[k][0][0].x + 0.25, m[k][0][0].y + 0.25, 0.25))); m[k].push_back(square(m[k][0][0].x + 0.25, m[k][0][0].y + 0.25, 0.25)); g.setGeometry(k, x); g.addRing(0, mkRing(square(m[0][0][0].x + 0.75, m[0][0][0].y + 0.125, 0.0625))); m[0].push_back(square(m[0][0][0].x + 0.75, m[0][0][0].y + 0.125, 0.0625)); }
  cmpCells(c, g, m); c.state(c.trace()); c.validated();
}
// headings along a chain of points: in, out and in between
static void angles(mc::Ctx& c) {
  int n = c.choose(c.tier(5, 6)); PL m; static const std::vector<double> X{-1, 0.3, 2}; for (int i = 0; i < n; ++i) { int j = c.choose(9); m.push_back({X[j % 3], X[j / 3], i % 2 ? 0.0 : 1.5}); if (i) c.require(m[i].x != m[i - 1].x || m[i].y != m[i - 1].y); } c.note(str(m)); c.step();
  MultiPoint g; for (auto& p : m) g.addPoint(pt(p)); const MultiPoint& k = g; auto a = [&](size_t i) { return std::atan2(m[i + 1].y - m[i].y, m[i + 1].x - m[i].x); }; size_t N = m.size();
  for (size_t i = 0; i < N + 2; ++i) {
    if (i > 0 && i < N) c.near(std::remainder(k.getInAngle(i) - a(i - 1), 2 * M_PI), 0, 1e-9, "in-angle"); else c.check(throws([&] { k.getInAngle(i); }), "in-angle-none", mc::str(i, " of ", N));
    if (i + 1 < N) c.near(std::remainder(k.getOutAngle(i) - a(i), 2 * M_PI), 0, 1e-9, "out-angle"); else c.check(throws([&] { k.getOutAngle(i); }), "out-angle-none", mc::str(i, " of ", N));
    if (N < 2 || i >= N) { c.check(throws([&] { k.getPointAngle(i); }), "point-angle-none", mc::str(i, " of ", N)); continue; }
    double got = k.getPointAngle(i); if (i == 0) c.near(std::remainder(got - a(0), 2 * M_PI), 0, 1e-9, "point-angle"); else if (i + 1 == N) c.near(std::remainder(got - a(i - 1), 2 * M_PI), 0, 1e-9, "point-angle");
    else { double t = std::remainder(a(i) - a(i - 1), 2 * M_PI); if (std::fabs(std::fabs(t) - M_PI) > 1e-6) c.near(std::remainder(got - (a(i - 1) + t / 2), 2 * M_PI), 0, 1e-9, "point-angle", "between the way in and the way out"); else c.near(std::cos(got - a(i)), 0, 1e-6, "point-angle", "at a reversal"); }
  }
  for (size_t i = 0; i < N; ++i) { Point p = k[i], q, r; q.setPoint(p); c.check(eq(q, m[i]), "set-point"); r.setPoint(m[i].x, m[i].y, m[i].z); c.check(eq(r, m[i]), "set-point"); r.setPoint(7, 8); c.check(eq(r, {7, 8, 0}), "set-point"); OGRPoint o(m[i].x, m[i].y, m[i].z); r.setPoint(o); c.check(eq(r, m[i]), "set-point"); q.setX(-5); c.check(eq(p, m[i]) && eq(k[i], m[i]), "set-point", "shared");
    if (i) { LineString l(k[i - 1], k[i]); readBack(c, l, l, {m[i - 1], m[i]}, "two points "); } }
  c.state(c.trace()); c.validated();
}
// lines taken out of every kind of geometry
static void append(mc::Ctx& c) {
  MultiLineString g; PLL m; int n = c.tier(2, 3);
  for (int d = 0; d < n; ++d) {
    int kind = c.choose(8); c.note("append ", kind); c.step(); OGRGeometryCollection col; Cell x; PLL RS{R0, R1, shift1(R1, 1), shift1(R1, 2), shift1(R1, 3)}, YS; for (auto& t : RS) x.addRing(mkRing(t)); Cells xs; xs.addGeometry(x); YS = RS; for (int i = 0; i < 4; ++i) { Cell y; y.addRing(mkRing(shift1(R0, 30 + i))); xs.addGeometry(y); YS.push_back(shift1(R0, 30 + i)); } MultiLineString ml; PLL ML{LS[1], LS[2], shift1(LS[1], 1), shift1(LS[1], 2), shift1(LS[2], 3)}; for (auto& t : ML) ml.addGeometry(mkLine(t)); bool viaCtor = c.flag();
    LineString l0 = mkLine(LS[0]), none; Point p(1, 2); const OGRGeometry* o = nullptr; PLL add;
    if (kind == 0) { o = l0.get(); add = {LS[0]}; } if (kind == 1) { o = ml.get(); add = ML; } if (kind == 2) { o = x.get(); add = RS; } if (kind == 3) { o = xs.get(); add = YS; }
    if (kind == 4) { col.addGeometry(p.get()); col.addGeometry(ml.get()); col.addGeometry(x.get()); OGRGeometryCollection in; in.addGeometry(l0.get()); col.addGeometry(&in); o = &col; add = ML; add.insert(add.end(), RS.begin(), RS.end()); add.push_back(LS[0]); }
    if (kind == 5) o = none.get(); if (kind == 6) o = p.get(); if (kind == 7) { o = &col; }
    if (viaCtor) { MultiLineString h(o); cmpLines(c, h, add, "made "); g.addGeometry(h); } else g.append(o); m.insert(m.end(), add.begin(), add.end());
    cmpLines(c, ml, ML, "argument "); readBack(c, l0, l0, LS[0], "argument ");
  }
  cmpLines(c, g, m); for (auto&& l : g) l.addPoint(0, 1); for (auto& l : m) l.push_back({0, 1, 0}); cmpLines(c, g, m, "then "); MultiLineString one(mkLine(LS[1])), two{mkLine(LS[0]), mkLine(LS[2])}; cmpLines(c, one, {LS[1]}, "one "); cmpLines(c, two, {LS[0], LS[2]}, "two "); c.state(c.trace()); c.validated();
}
static void setup() {
  mc::add("angles", angles, 2); mc::add("append", append, 1);
  mc::add("largeline", largePoints<LineString>, 1); mc::add("largering", largePoints<LinearRing>, 1); mc::add("largepoints", largePoints<MultiPoint>, 1); mc::add("largelines", largeLines, 1); mc::add("largecells", largeCells, 1);
  mc::add("segments", segments, 1);
  mc::add("line", pointHistory<LineString>, 3); mc::add("ring", pointHistory<LinearRing>, 3); mc::add("points", pointHistory<MultiPoint>, 3);
  mc::add("lines", lineHistory, 3); mc::add("cell", cellHistory, 3); mc::add("cells", cellsHistory, 3);
}
MC_MAIN
