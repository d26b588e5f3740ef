// X03: histories of settings on robots and fields against a plain record of the last value set.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types;
struct RM { std::string name; double w, cw, cv, curv, diff; bool hasTv{false}; double tv{0}; };
static void verify(mc::Ctx& c, const Robot& r, const RM& m, const char* at) {
  c.eq(r.getName(), m.name, "name", at); c.eq(r.getWidth(), m.w, "width", at); c.eq(r.getCovWidth(), m.cw, "cov-width", at); c.eq(r.getCruiseVel(), m.cv, "cruise-vel", at);
  c.eq(r.getTurnVel(), m.hasTv ? m.tv : m.cv, "turn-vel", at); c.eq(r.getMaxDiffCurv(), m.diff, "diff-curv", at);
  double R = r.getMinTurningRadius(), k = r.getMaxCurv();
  c.check(R >= 0 && k >= 0, "negative", mc::str(at, " radius ", R, " curvature ", k));
  c.near(k, m.curv, 1e-6 * m.curv * (1 + m.curv) + 1e-12, "max-curv", at);
  if (m.curv > 0 && m.curv < 1e6) c.near(R * k, 1, 1e-6 + 2e-7 / m.curv, "radius-not-inverse", mc::str(at, " radius ", R, " curvature ", k));
  if (m.curv == 0) c.check(R > 1e6, "radius-of-straight", at);
}
static void robot(mc::Ctx& c) {
  static const std::vector<double> W{2.5, 0.001, 40}, CV{0.0, 3.25, 0.5}, K{1.0, 0.25, -0.5, 0.0}, DK{0.3, -0.7, 0};
  RM m; std::unique_ptr<Robot> r; int ctor = c.choose(5);
  if (ctor == 0) { r.reset(new Robot()); m = {"", 0, 0, 1, 1, 0.3}; }
  else { double w = c.pick(W), cw = ctor > 1 ? c.pick(CV) : 0, k = ctor > 2 ? c.pick(K) : 1.0, dk = ctor > 3 ? c.pick(DK) : 0.3; c.note("Robot(", w, ",", cw, ",", k, ",", dk, ")");
    if (ctor == 1) r.reset(new Robot(w)); else if (ctor == 2) r.reset(new Robot(w, cw)); else if (ctor == 3) r.reset(new Robot(w, cw, k)); else r.reset(new Robot(w, cw, k, dk));
    m = {"", w, cw == 0 ? w : cw, 1, std::fabs(k), ctor > 3 ? std::fabs(dk) : 0.3}; }
  verify(c, *r, m, "constructed");
  int depth = ctor > 2 ? 1 : c.tier(3, 4);
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(11); c.step();
    if (op == 0) { double v = c.pick(std::vector<double>{7, 1.5}); c.note("width ", v); r->setWidth(v); m.w = v; }
    else if (op == 1) { double v = c.pick(std::vector<double>{6, 0.25}); c.note("cov ", v); r->setCovWidth(v); m.cw = v; }
    else if (op == 2) { double v = c.pick(std::vector<double>{3, 0.5}); c.note("cruise ", v); r->setCruiseVel(v); m.cv = v; }
    else if (op == 3) { double v = c.pick(std::vector<double>{2, 1, 0}); c.note("turn vel ", v); r->setTurnVel(v); m.tv = v; m.hasTv = true; }
    else if (op == 4) { double v = c.pick(std::vector<double>{2, 0.2, -5, 1}); c.note("radius ", v); r->setMinTurningRadius(v); m.curv = 1 / std::fabs(v); }
    else if (op == 5) { double v = c.pick(std::vector<double>{2, 0.2, -0.25, 1, 0}); c.note("curv ", v); r->setMaxCurv(v); m.curv = std::fabs(v); }
    else if (op == 6) { double v = c.pick(std::vector<double>{0.1, -2, 0}); c.note("diff ", v); r->setMaxDiffCurv(v); m.diff = std::fabs(v); }
    else if (op == 7) { std::string v = c.flag() ? "tractor" : ""; c.note("name ", v); r->setName(v); m.name = v; }
    else if (op == 8) { c.note("copy"); Robot q(*r); verify(c, q, m, "copy"); q.setWidth(99); q.setTurnVel(98); q.setMaxCurv(97); q.setName("q"); verify(c, *r, m, "after editing a copy"); }
    else if (op == 9) { c.note("assign"); Robot q(3.0, 5.0); q.setTurnVel(9); q = *r; verify(c, q, m, "assigned"); Robot z(8.0); *r = z; *r = q; }
    else { c.note("move"); Robot q(std::move(*r)); verify(c, q, m, "moved"); Robot z(4.0, 4.5); z = std::move(q); r.reset(new Robot(z)); }
    verify(c, *r, m, "now"); c.state(mc::str(m.name, m.w, " ", m.cw, " ", m.cv, " ", m.curv, " ", m.diff, " ", m.hasTv, m.tv));
  }
  c.validated();
}
static void invalid(mc::Ctx& c) {
  static const std::vector<double> W{-3, -1e-9, 0, 1e-9, 2}, CW{-2, -1e-12, 0, 1e-12, 2};
  double w = c.pick(W), cw = c.pick(CW), k = c.pick(std::vector<double>{1, -1, 0}); bool threw = false; c.note(w, " ", cw, " ", k);
  try { Robot r(w, cw, k); c.eq(r.getCovWidth(), cw == 0 ? w : cw, "cov-width"); } catch (const std::exception&) { threw = true; }
  c.eq(threw, w <= 0 || cw < 0, "invalid-width"); c.state(mc::str(w, cw, k)); c.step(); c.validated();
}
struct FM { std::string id, crs, prev; double rx{0}, ry{0}, rz{0}; std::vector<std::array<double, 3>> cells; };   // cells: relative x, y, side
static Cell sq(double x, double y, double s, bool hole) { auto R = [](double x, double y, double s) { return LinearRing({Point(x, y), Point(x + s, y), Point(x + s, y + s), Point(x, y + s), Point(x, y)}); }; Cell c(R(x, y, s)); if (hole) c.addRing(R(x + s / 4, y + s / 4, s / 8)); return c; }
static void verifyF(mc::Ctx& c, const Field& f, const FM& m, const char* at) {
  c.eq(f.getId(), m.id, "id", at); c.eq(f.getCRS(), m.crs, "crs", at); c.eq(f.getPrevCRS(), m.prev, "prev-crs", at);
  c.check(f.getRefPoint() == Point(m.rx, m.ry, m.rz), "ref", at); c.eq(f.isEmpty(), m.cells.empty(), "is-empty", at);
  auto abs = f.getCellsAbsPosition(); c.eq(f.getField().size(), m.cells.size(), "cells", at); c.eq(abs.size(), m.cells.size(), "abs-cells", at); double A = 0;
  for (size_t i = 0; i < m.cells.size(); ++i) { auto& k = m.cells[i]; auto p = f.getField().getCellBorder(i).startPoint(); auto a = abs.getCellBorder(i).startPoint(); A += k[2] * k[2] - k[2] * k[2] / 64;
    c.check(std::fabs(p.X() - k[0]) < 1e-9 && std::fabs(p.Y() - k[1]) < 1e-9, "cell", at); c.check(std::fabs(a.X() - k[0] - m.rx) < 1e-9 && std::fabs(a.Y() - k[1] - m.ry) < 1e-9, "abs-position", at); c.eq(abs.getGeometry(i).size(), size_t(2), "rings", at); }
  c.near(f.area(), A, 1e-9, "area", at); c.near(abs.area(), A, 1e-6, "abs-area", at);
}
static void field(mc::Ctx& c) {
  FM m; Field f; int n = c.choose(4);   // 0: default, else a field built from n-1 cells at absolute positions
  if (n) { Cells cs; for (int i = 0; i + 1 < n; ++i) { cs.addGeometry(sq(100 + 30 * i, 7, 8, true)); m.cells.push_back({30.0 * i, 0, 8}); } bool id = c.flag(); if (id) f = Field(cs, "name"); else f = Field(cs); m.id = id ? "name" : ""; if (n > 1) { m.rx = 100; m.ry = 7; } }
  verifyF(c, f, m, "constructed");
  for (int d = 0, D = c.tier(3, 4); d < D; ++d) {
    int op = c.choose(12); c.step(); c.note("op ", op);
    if (op == 0) { f.setId("x"); m.id = "x"; }
    else if (op == 1) { f.setCRS("UTM:31N datum:WGS84"); m.crs = "UTM:31N datum:WGS84"; }
    else if (op == 2) { f.setCRS("EPSG:4326"); m.crs = "EPSG:4326"; }
    else if (op == 3) { f.setPrevCRS("EPSG:28992"); m.prev = "EPSG:28992"; }
    else if (op == 4) { f.setRefPoint(Point(5, -6, 2)); m.rx = 5; m.ry = -6; m.rz = 2; }
    else if (op == 5) { f.getRefPoint().setX(55); m.rx = 55; }
    else if (op == 6) { f.setField(Cells(sq(1, 2, 4, true))); m.cells = {{1, 2, 4}}; }
    else if (op == 7) { f.getField().addGeometry(sq(-50, 3, 16, true)); m.cells.push_back({-50, 3, 16}); }
    else if (op == 8) { Field g(f); verifyF(c, g, m, "copy"); g.setId("other"); g.setCRS("EPSG:1"); g.setPrevCRS("EPSG:2"); g.setRefPoint(Point(9, 9)); g.setField(Cells()); verifyF(c, f, m, "after editing a copy"); Field h; h.setId("h"); h = f; verifyF(c, h, m, "assigned"); }
    else if (op == 10) { int k = c.choose(2) ? 4258 : 28992; f.setEPSGCoordSystem(k); m.crs = mc::str("EPSG:", k); }
    else if (op == 11) { f.setUTMCoordSystem("7S", "WGS84"); m.crs = "UTM:7S datum:WGS84"; }
    else { Field h(std::move(f)); verifyF(c, h, m, "moved"); f = std::move(h); }
    verifyF(c, f, m, "now"); c.state(mc::str(m.id, m.crs, m.prev, m.rx, m.ry, m.cells.size()));
  }
  c.validated();
}
static void setup() { mc::add("robot", robot, 3); mc::add("invalid", invalid); mc::add("field", field, 3); }
MC_MAIN
