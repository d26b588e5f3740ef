// A02: cell predicates and constructions on every small lattice polygon (any start vertex, orientation, frame, hole) and polyomino.
#include "geo.h"
using namespace geo;
static const std::vector<Frame> FR{{0, 0, 1, 0}, {1000.25, -512.5, 7.3, 0.5}, {-3, 2, 0.125, 2.0}, {250000.5, 4100000.25, 20, 4.0}};
static const std::vector<Ring>& polys(mc::Ctx& c, bool small = false) { static auto q = lattice(3, 3, 3, 6), t = lattice(3, 3, 3, 8), s = ccwOnly(lattice(3, 3, 3, 5)), st = ccwOnly(lattice(3, 3, 3, 6)); return small ? (c.thorough() ? st : s) : (c.thorough() ? t : q); }
// a hole that stays clear of every lattice line and border
static bool addHole(Poly& p, mc::Ctx& c) { int k = c.choose(5); if (!k) return false; --k; P m{0.55 + (k % 2), 0.48 + (k / 2)}; double h = 0.07; c.require(where(m, p, 0.2) > 0); p.push_back({m + P{-h, -h}, m + P{h, -h}, m + P{h, h}, m + P{-h, h}}); return true; }
// a lattice polygon with at most one hole, or a square or an L with any two to four holes in either order
static Poly shape(mc::Ctx& c) {
  auto& all = polys(c, true); size_t k = c.choose(all.size() + 2); if (k < all.size()) { Poly p{all[k]}; addHole(p, c); return p; }
  Poly p{k == all.size() ? Ring{{0, 0}, {2, 0}, {2, 2}, {0, 2}} : Ring{{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 2}}}; unsigned mask = c.choose(16); bool back = c.flag(); double h = 0.07; c.require(__builtin_popcount(mask) > 1);
  for (int i = 0; i < 4; ++i) { int j = back ? 3 - i : i; if (!(mask >> j & 1)) continue; P m{0.55 + (j % 2), 0.48 + (j / 2)}; if (where(m, Poly{p[0]}, 0.2) <= 0) c.require(false); p.push_back({m + P{-h, -h}, m + P{h, -h}, m + P{h, h}, m + P{-h, h}}); }
  return p;
}
static void convexity(mc::Ctx& c) {
  Poly p{c.pick(polys(c))}; auto& f = c.pick(FR); size_t n = p[0].size(), rot = c.choose(n); bool rep = c.flag(); bool hole = addHole(p, c);
  Poly q = f * p; c.note(str(q), " from vertex ", rot); Cell cell = toCell(q, rot);
  if (rep) { LinearRing r = toRing(q[0], rot), s; for (size_t i = 0; i < r.size(); ++i) { s.addPoint(r.getGeometry(i)); if (i == 1) s.addPoint(r.getGeometry(i)); } Cell k; k.addRing(s); for (size_t i = 1; i < q.size(); ++i) k.addRing(toRing(q[i])); cell = k; }
  bool e = !hole && convex(p[0]); c.eq(cell.isConvex(), e, "convex"); c.eq(Cells(cell).isConvex(), e, "convex-set"); c.near(cell.area(), area(q), 1e-6 * f.s * f.s, "area"); c.near(Cells(cell).area(), area(q), 1e-6 * f.s * f.s, "area");
  c.nontrivial(mc::str(str(p), rot)); c.outcome(mc::str(e, n));
}
static void queries(mc::Ctx& c) {
  Poly p = shape(c); auto& f = FR[c.choose(c.tier(2, 3))]; size_t rot = c.choose(2) * 2; bool rev = rot > 0; Poly q = f * p; Cell cell = toCell(q, rot, rev); Cells cells(cell); c.note(str(q));
  static const std::vector<double> Q{-0.5, 0, 0.5, 1, 1.5, 2, 2.5};
  for (double x : Q) for (double y : Q) {
    P u{x, y}, v = f(u); double bd = borderDist(u, p); int w = where(u, p, 1e-9); std::string at = mc::str("point ", v.x, ",", v.y);
    if (bd > 1e-6 || f.a == 0) { c.eq(cell.isPointIn(tp(v)), w > 0, "point-in", at); c.eq(cell.isPointInBorder(tp(v)), w == 0, "point-in-border", at); c.eq(cells.isPointIn(tp(v)), w > 0, "point-in-set", at); c.eq(cells.isPointInBorder(tp(v)), w == 0, "point-in-set-border", at);
      c.eq(cells.getCellWherePoint(tp(v)).isEmpty(), w < 0, "cell-where-point", at); }
    for (const Point& k : {cell.closestPointOnBorderTo(tp(v)), cells.closestPointOnBorderTo(tp(v))}) { c.near(nm(fp(k) - v), bd * f.s, 1e-6 * f.s, "nearest-distance", at); c.near(borderDist(fp(k), q), 0, 1e-6 * f.s, "nearest-on-border", at); }
    c.step();
  }
  // a point just inside a corner or next to an edge of the hole must be seen as such
  for (size_t i = 1; i < p.size(); ++i) { P m = (p[i][0] + p[i][2]) * 0.5; P v = f(m); c.check(!cell.isPointIn(tp(v)) && !cell.isPointInBorder(tp(v)) && !cells.isPointIn(tp(v)), "point-in-hole"); c.near(nm(fp(cell.closestPointOnBorderTo(tp(v))) - v), 0.07 * f.s, 1e-6 * f.s, "nearest-in-hole"); }
  c.nontrivial(str(p)); 
}
static void rays(mc::Ctx& c) {
  Poly p = shape(c); auto& f = FR[c.choose(c.tier(2, 3))]; size_t rot = 0; Poly q = f * p; Cell cell = toCell(q, rot); Cells cells(cell); c.note(str(q));
  static const std::vector<double> Q{0, 0.5, 1, 1.5, 2};
  for (double x : Q) for (double y : Q) {
    P u{x, y}; int w0 = where(u, p, 1e-9); if (w0 < 0) continue; P v = f(u);
    for (int k = 0; k < 12; ++k) {
      double ang = k < 8 ? k * M_PI / 4 : 0.3 + (k - 8) * 1.7; P d{std::cos(ang), std::sin(ang)}; std::string at = mc::str("from ", v.x, ",", v.y, " angle ", ang + f.a);
      std::vector<double> ts; for (auto& r : p) for (size_t i = 0; i < r.size(); ++i) { P a = r[i], b = r[(i + 1) % r.size()], e = b - a; double den = cr(d, e); for (P z : {a, b}) if (std::fabs(cr(d, z - u)) < 1e-9) ts.push_back(dt(z - u, d)); if (std::fabs(den) > 1e-9) { double t = cr(a - u, e) / den, s = cr(a - u, d) / den; if (s > -1e-9 && s < 1 + 1e-9) ts.push_back(t); } }
      ts.push_back(0); std::sort(ts.begin(), ts.end()); double exit = 0, first = -1; bool graze = false; std::vector<double> pos{0}; for (double t : ts) if (t > 1e-6 && t - pos.back() > 1e-6) pos.push_back(t);
      for (size_t i = 0; i + 1 < pos.size(); ++i) { int w = where(u + d * ((pos[i] + pos[i + 1]) / 2), p, 1e-9); if (w < 0) break; graze |= w == 0; exit = pos[i + 1]; } if (pos.size() > 1) first = pos[1];
      if (first > 0 && where(u + d * (first / 2), p, 1e-9) == 0 || graze && f.a != 0) continue;   // runs along a border: either side is within rounding
      for (int set = 0; set < (w0 == 0 && f.a != 0 ? 1 : 2); ++set) {
        LineString l = set ? cells.createLineUntilBorder(tp(v), ang + f.a) : cell.createLineUntilBorder(tp(v), ang + f.a); c.step();
        if (exit > 0) c.check(l.size() == 2, "ray-empty", at);
        if (l.isEmpty()) continue;
        c.eq(l.size(), size_t(2), "ray-size", at); c.near(nm(fp(l.startPoint()) - v), 0, 1e-9 * std::max(1.0, std::fabs(f.ox)), "ray-start", at);
        P e = fp(l.endPoint()) - v; double L = nm(e) / f.s; P D{std::cos(ang + f.a), std::sin(ang + f.a)}; c.near(cr(D, e) / f.s, 0, 1e-6, "ray-direction", at); c.check(dt(D, e) > 0, "ray-direction", at);
        double best = 1e9; for (double t : pos) if (t > 0) best = std::min(best, std::fabs(t - L)); c.check(best < 1e-6, "ray-end-not-on-border", mc::str(at, " length ", L));
        if (exit > 0) c.check(L <= exit + 1e-6, "ray-past-border", mc::str(at, " length ", L, " border at ", exit)); else c.check(L <= first + 1e-6, "ray-past-border", at);
      }
    }
  }
  c.nontrivial(str(p));
}
static void linesInside(mc::Ctx& c) {
  Poly p = shape(c); auto& f = FR[c.choose(c.tier(2, 3))]; Poly q = f * p; Cell cell = toCell(q); Cells cells(cell); c.note(str(q));
  MultiLineString all; double total = 0; size_t ntot = 0; bool multi = true;
  for (int k = 0; k < 16; ++k) {   // lines through lattice and half-lattice points, in every lattice direction
    int dir = k % 4; P d = dir == 0 ? P{1, 0} : dir == 1 ? P{0, 1} : dir == 2 ? P{std::sqrt(0.5), std::sqrt(0.5)} : P{std::sqrt(0.5), -std::sqrt(0.5)}; double off = -0.5 + 0.5 * (k / 4) + (k / 4 > 1 ? 0.25 : 0); if (k / 4 == 1) off = 0;
    P o{1, 1}; o = o + P{-d.y, d.x} * off; bool longl = c.choose(1) == 0; P a = o - d * 5, b = o + d * (k % 3 ? 5 : 0.25); (void)longl;
    auto iv = inside(o, d, MPoly{p}, -5, k % 3 ? 5 : 0.25); double L = 0; for (auto& i : iv) L += i.second - i.first;
    bool along = false; for (auto& r : p) for (size_t i = 0; i < r.size(); ++i) { P e = r[(i + 1) % r.size()] - r[i]; if (std::fabs(cr(d, e)) < 1e-9 && std::fabs(cr(d, r[i] - o)) < 1e-9) along = true; }
    if (along) continue;   // running along a border: whether those parts count is not part of the property
    LineString line({tp(f(a)), tp(f(b))});
    for (int set = 0; set < 2; ++set) { MultiLineString m = set ? cells.getLinesInside(line) : cell.getLinesInside(line); c.step(); c.near(m.length() / f.s, L, 1e-6, "inside-length", mc::str("line ", f(a).x, ",", f(a).y, " to ", f(b).x, ",", f(b).y));
      for (size_t i = 0; i < m.size(); ++i) { auto g = m.getGeometry(i); P x = fp(g.startPoint()), y = fp(g.endPoint()); c.check(where((x + y) * 0.5, q, 1e-6 * f.s) >= 0, "inside-outside"); c.near(cr(x - f(a), P{std::cos(f.a) * d.x - std::sin(f.a) * d.y, std::sin(f.a) * d.x + std::cos(f.a) * d.y}) / f.s, 0, 1e-6, "inside-off-line"); }
      if (f.a == 0 && !set) c.check(m.size() >= iv.size(), "inside-parts"); }
    all.addGeometry(line); total += L; ntot++;
  }
  (void)multi; (void)ntot;
  // several lines at once, when they do not overlap each other
  MultiLineString par; double pl = 0; for (double y : {0.13, 0.7, 1.31, 1.9}) { par.addGeometry(LineString({tp(f({-1, y})), tp(f({3, y}))})); for (auto& i : inside({0, y}, {1, 0}, MPoly{p}, -1, 3)) pl += i.second - i.first; }
  c.near(cell.getLinesInside(par).length() / f.s, pl, 1e-6, "inside-lines"); c.near(cells.getLinesInside(par).length() / f.s, pl, 1e-6, "inside-lines-set"); c.nontrivial(str(p));
}
static Cells poly2cells(unsigned m, const Frame& f, int w, int h) { return toCells(f * polyomino(m, w, h)); }
static void setOps(mc::Ctx& c) {
  static std::vector<unsigned> ms; if (ms.empty()) for (unsigned m = 0; m < 512; ++m) if (!pinched(m, 3, 3)) ms.push_back(m);
  unsigned a = c.pick(ms), b = c.pick(ms); if (!c.thorough()) c.require((a * 7 + b * 13) % 16 == 0); auto& f = FR[(a + b) % 2]; double s2 = f.s * f.s, T = 1e-6 * s2; c.note("squares ", a, " and ", b);
  auto n = [](unsigned m) { return (double)__builtin_popcount(m); };
  Cells A = poly2cells(a, f, 3, 3), B = poly2cells(b, f, 3, 3); c.near(A.area(), n(a) * s2, T, "area");
  if (a) { c.near(A.intersection(B).area(), n(a & b) * s2, T, "intersection"); c.near(A.difference(B).area(), n(a & ~b) * s2, T, "difference"); c.near(A.unionOp(B).area(), n(a | b) * s2, T, "union"); c.near(A.getCellsInside(B).area(), n(a & b) * s2, T, "cells-inside"); }
  if (a && b && B.size() == 1) { Cell k = B.getGeometry(0); c.near(A.intersection(k).area(), n(a & b) * s2, T, "intersection-cell"); c.near(A.difference(k).area(), n(a & ~b) * s2, T, "difference-cell"); c.near(A.unionOp(k).area(), n(a | b) * s2, T, "union-cell");
    if (A.size() == 1) c.near(Cells::intersection(A.getGeometry(0), k).area(), n(a & b) * s2, T, "cell-intersection"); }
  { Cells all; for (size_t i = 0; i < A.size(); ++i) all.addGeometry(A.getGeometry(i)); for (size_t i = 0; i < B.size(); ++i) all.addGeometry(B.getGeometry(i)); if (!all.isEmpty()) c.near(all.unionCascaded().area(), n(a | b) * s2, T, "union-cascaded"); }
  Cells A2 = poly2cells(a, f, 3, 3); c.check((A.isEmpty() && A2.isEmpty()) || A == A2, "operand-changed"); c.nontrivial(mc::str(a, ".", b)); c.outcome(mc::str(n(a & b), n(a | b))); c.step(8);
}
static void whichCell(mc::Ctx& c) {
  unsigned m = 1 + c.choose(511); c.require(!pinched(m, 3, 3)); auto& f = FR[c.choose(2)]; MPoly p = polyomino(m, 3, 3), q = f * p; Cells cs = toCells(q); c.note(str(q)); c.eq(cs.isConvex(), p.size() == 1 && p[0].size() == 1 && convex(p[0][0]), "convex-set");
  for (double x = -0.5; x < 4; x += 0.5) for (double y = -0.5; y < 4; y += 0.5) {
    P u{x, y}, v = f(u); int w = where(u, p, 1e-9); if (w == 0 && f.a != 0) continue; Cell k = cs.getCellWherePoint(tp(v)); std::string at = mc::str("point ", v.x, ",", v.y); c.step();
    c.eq(cs.isPointIn(tp(v)), w > 0, "point-in-set", at); c.eq(cs.isPointInBorder(tp(v)), w == 0, "point-in-set-border", at); c.near(nm(fp(cs.closestPointOnBorderTo(tp(v))) - v), borderDist(u, p) * f.s, 1e-6 * f.s, "nearest-distance", at);
    if (w < 0) { c.check(k.isEmpty(), "cell-where-point", at); continue; }
    c.check(!k.isEmpty(), "cell-where-point", at); Poly kp = fromCell(k); c.check(where(v, kp, 1e-6 * f.s) >= 0, "cell-where-point", at); bool one = false; for (auto& e : q) if (std::fabs(area(e) - area(kp)) < 1e-6 * f.s * f.s && where(v, e, 1e-6) >= 0 && e.size() == kp.size()) one = true; c.check(one, "cell-where-point", mc::str(at, " gives ", str(kp)));
    if (w > 0) for (double a : {0.2, 2.5, 4.4}) { P d{std::cos(a), std::sin(a)}; double L = 1e9; for (auto& i : inside(u, d, p, 0, 20)) { L = i.second; break; } auto l = cs.createLineUntilBorder(tp(v), a + f.a); c.check(l.size() == 2, "ray-empty", at); c.near(l.length() / f.s, L, 1e-6, "ray-length", mc::str(at, " angle ", a + f.a)); }
  }
  std::vector<P> all; for (auto& e : q) for (auto& r : e) for (auto& z : r) all.push_back(z); Ring h = hull(all); c.near(cs.convexHull().area(), std::fabs(sarea(h)), 1e-6 * f.s * f.s, "hull-of-set"); c.nontrivial(mc::str(m, f.a));
}
static void hulls(mc::Ctx& c) {
  Poly p{c.pick(polys(c))}; auto& f = c.pick(FR); Poly q = f * p; Ring h = hull(q[0]); double A = std::fabs(sarea(h)), T = 1e-6 * f.s * f.s; Cell cell = toCell(q), k = cell.convexHull(); c.note(str(q));
  c.near(k.area(), A, T, "hull"); c.check(k.isConvex(), "hull-convex"); LineString l; MultiPoint mp; for (auto& v : q[0]) { l.addPoint(v.x, v.y); mp.addPoint(v.x, v.y); } c.near(Cell::convexHull(l).area(), A, T, "hull-of-line"); c.near(Cell::convexHull(mp).area(), A, T, "hull-of-points"); c.near(Cell::convexHull(cell).area(), A, T, "hull-static");
  for (auto& v : q[0]) c.check(where(v, fromCell(k), 1e-6 * f.s) >= 0, "hull-contains");
  // extents of the polygon
  double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& v : q[0]) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); }
  double E = 1e-6; c.check(cell.getDimMinX() == x0 && cell.getDimMaxX() == x1 && cell.getDimMinY() == y0 && cell.getDimMaxY() == y1, "extent"); c.near(cell.getWidth(), x1 - x0, E, "extent-width"); c.near(cell.getHeight(), y1 - y0, E, "extent-height"); c.check(cell.getMinSafeLength() >= std::hypot(x1 - x0, y1 - y0) - E, "safe-length");
  // buffers: a band of the working width around every edge, a square grown and shrunk by half a unit
  double w = 0.4 * f.s; for (size_t i = 0; i < q[0].size(); ++i) { P a = q[0][i], b = q[0][(i + 1) % q[0].size()]; c.near(Cell::buffer(LineString({tp(a), tp(b)}), w).area(), 2 * w * nm(b - a), T * 10, "band"); }
  double per = perim(q[0]); Cells in = cell.isConvex() ? Cells::buffer(cell, -0.01 * f.s) : Cells(); if (cell.isConvex()) { c.check(in.area() < cell.area() && in.area() > cell.area() - per * 0.011 * f.s, "shrunk"); double g = Cell::buffer(cell, 0.01 * f.s).area(); c.check(g > cell.area() + per * 0.00999 * f.s, "grown"); }
  c.near(Cell::buffer(tp(q[0][0]), w).area(), M_PI * w * w, 0.02 * w * w, "disc"); c.nontrivial(str(p)); c.step(8);
}
static void large(mc::Ctx& c) {   // shapes of many corners, holes and cells
  int kind = c.choose(BIG), n = c.pick(c.thorough() ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 20, 25, 31, 33, 40, 64, 65, 100} : std::vector<int>{3, 7, 9, 12, 17, 33, 65}); auto& f = FR[c.choose(2)]; bool rev = c.flag(); size_t rot = rev ? n : 0; MPoly p = big(kind, n), q = f * p; Cells cells = toCells(q, rot, rev); Cell cell = cells.getGeometry(cells.size() - 1); const Poly& lp = p.back(); double T = 1e-6 * f.s; c.note("kind ", kind, " size ", n, " reversed ", rev);
  double x0 = 1e300, x1 = -x0, y0 = x0, y1 = -x0; std::vector<P> all; for (auto& e : q) for (auto& v : e[0]) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); all.push_back(v); }
  c.check(cells.getDimMinX() == x0 && cells.getDimMaxX() == x1 && cells.getDimMinY() == y0 && cells.getDimMaxY() == y1, "extent"); c.check(cells.getMinSafeLength() >= std::hypot(x1 - x0, y1 - y0) - T, "safe-length"); c.near(cells.area(), area(q), 1e-6 * f.s * f.s * n, "area"); c.near(cells.convexHull().area(), std::fabs(sarea(hull(all))), 1e-6 * f.s * f.s * n, "hull-of-set");
  c.eq(cells.isConvex(), p.size() == 1 && p[0].size() == 1 && convex(p[0][0]), "convex-set"); c.eq(cell.isConvex(), lp.size() == 1 && convex(lp[0]), "convex"); for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < q[i].size(); ++j) c.eq(cells.getGeometry(i).getGeometry(j).isClockwise(), (sarea(q[i][j]) < 0) != rev, "clockwise");
  double X0 = 1e300, X1 = -X0, Y1 = -X0; for (auto& e : p) for (auto& v : e[0]) { X0 = std::min(X0, v.x); X1 = std::max(X1, v.x); Y1 = std::max(Y1, v.y); } int G = c.tier(6, 15);
  for (int i = 0; i <= G; ++i) for (int j = 0; j <= G; ++j) {
    P u{X0 + (X1 - X0) * (i - 0.37) / (G - 0.6), -0.2 + (Y1 + 0.5) * (j + 0.11) / (G + 0.3)}, v = f(u); double bd = borderDist(u, p); if (bd < 1e-4) continue; int w = where(u, p, 0), wl = where(u, lp, 0); std::string at = mc::str("point ", v.x, ",", v.y); c.step();
    c.eq(cells.isPointIn(tp(v)), w > 0, "point-in-set", at); c.eq(cell.isPointIn(tp(v)), wl > 0, "point-in", at); c.check(!cells.isPointInBorder(tp(v)) && !cell.isPointInBorder(tp(v)), "point-in-border", at); Cell k = cells.getCellWherePoint(tp(v)); c.eq(k.isEmpty(), w < 0, "cell-where-point", at); if (w > 0) { int ix = -1; for (size_t z = 0; z < p.size(); ++z) if (where(u, p[z], 0) > 0) ix = z; c.check(k == cells.getGeometry(ix), "cell-where-point", at); }
    Point a = cells.closestPointOnBorderTo(tp(v)), b = cell.closestPointOnBorderTo(tp(v)); c.near(nm(fp(a) - v), bd * f.s, T, "nearest-distance", at); c.near(borderDist(fp(a), q), 0, T, "nearest-on-border", at); c.near(nm(fp(b) - v), borderDist(u, lp) * f.s, T, "nearest-distance", at);
    if (w > 0) for (double ang : {0.21, 2.47, 4.39}) { P d{std::cos(ang), std::sin(ang)}; auto in = inside(u, d, p, 0, 400); if (in.empty()) continue; bool graze = false; for (auto& e : p) for (auto& r : e) for (auto& z : r) graze |= std::fabs(cr(d, z - u)) < 1e-4; if (graze) continue; auto l = cells.createLineUntilBorder(tp(v), ang + f.a); c.check(l.size() == 2, "ray-empty", at); c.near(l.length() / f.s, in[0].second, 1e-6, "ray-length", mc::str(at, " angle ", ang + f.a)); if (wl > 0) c.near(cell.createLineUntilBorder(tp(v), ang + f.a).length() / f.s, in[0].second, 1e-6, "ray-length", mc::str(at, " angle ", ang + f.a)); }
  }
  MultiLineString many; double sum = 0; size_t parts = 0; for (int i = 0; i < n; ++i) { P o{X0 - 1, 0.0123 + Y1 * (i + 0.4) / n}, d{1, 0}; bool graze = false; for (auto& e : p) for (auto& r : e) for (auto& z : r) graze |= std::fabs(cr(d, z - o)) < 1e-4; if (graze) continue; auto in = inside(o, d, p, 0, 400); LineString l({tp(f(o)), tp(f(o + d * 400))}); double s = 0; for (auto& k : in) s += k.second - k.first; MultiLineString m = cells.getLinesInside(l); c.near(m.length() / f.s, s, 1e-6 * (1 + n), "inside-length"); c.eq(m.size(), in.size(), "inside-parts"); sum += s; parts += in.size(); many.addGeometry(l); }
  if (many.size()) { MultiLineString m = cells.getLinesInside(many); c.near(m.length() / f.s, sum, 1e-6 * (1 + n), "inside-lines"); c.eq(m.size(), parts, "inside-lines"); } Cells u = cells.unionCascaded(); c.near(u.area(), area(q), 1e-6 * f.s * f.s * n, "union-cascaded"); c.near(cells.difference(cell).area(), area(q) - area(q.back()), 1e-6 * f.s * f.s * n, "difference-cell"); c.near(cells.intersection(cell).area(), area(q.back()), 1e-6 * f.s * f.s * n, "intersection-cell"); c.near(cells.getCellsInside(Cells(cell)).area(), area(q.back()), 1e-6 * f.s * f.s * n, "cells-inside");
  // lines long enough to leave the shape, bands around its border
  P m{(x0 + x1) / 2, (y0 + y1) / 2}; for (double a : {0.3, 2.0, 4.5}) { LineString s = cells.createSemiLongLine(tp(m), a), l = cells.createStraightLongLine(tp(m), a); P d{std::cos(a), std::sin(a)}; double L = cells.getMinSafeLength(); c.check(s.size() == 2 && l.size() == 2, "long-line"); c.near(nm(fp(s.startPoint()) - m), 0, T, "long-line"); c.near(nm(fp(s.endPoint()) - (m + d * L)), 0, T * n, "long-line"); c.near(nm(fp(l.startPoint()) - (m - d * L)), 0, T * n, "long-line"); c.near(nm(fp(l.endPoint()) - (m + d * L)), 0, T * n, "long-line"); LineString t = cell.createSemiLongLine(tp(m), a), g = cell.createStraightLongLine(tp(m), a); double K = cell.getMinSafeLength(); c.near(nm(fp(t.endPoint()) - (m + d * K)), 0, T * n, "long-line"); c.near(nm(fp(g.startPoint()) - (m - d * K)), 0, T * n, "long-line"); }
  if (lp.size() == 1 && convex(lp[0])) { double w = 0.01 * f.s; Cell band = Cell::buffer(cell.getExteriorRing(), rev ? -w : w); double per = perim(q.back()[0]); c.eq(band.size(), size_t(2), "ring-band"); c.check(band.area() > 2 * w * per * 0.98 && band.area() < 2 * w * per * 1.02, "ring-band", mc::str(band.area(), " for ", per)); for (auto& v : q.back()[0]) c.check(band.isPointIn(tp(v)), "ring-band"); }
  c.nontrivial(c.trace()); c.outcome(mc::str(kind));
}
// every edge in three pieces, the two middle corners pushed off it by j to either side
static Ring rough(const Ring& r, double j) { Ring o; for (size_t i = 0; i < r.size(); ++i) { P a = r[i], e = r[(i + 1) % r.size()] - a, n{-e.y / nm(e) * j, e.x / nm(e) * j}; o.push_back(a); o.push_back(a + e * (1 / 3.0) + n); o.push_back(a + e * (2 / 3.0) - n); } return o; }
static bool crosses(const Ring& a, const Ring& b, bool same) { auto o = [](P x, P y, P z) { return cr(y - x, z - x); }; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) { if (same && (i == j || (i + 1) % a.size() == j || (j + 1) % a.size() == i)) continue; P p = a[i], q = a[(i + 1) % a.size()], r = b[j], s = b[(j + 1) % b.size()]; if (o(p, q, r) * o(p, q, s) < 0 && o(r, s, p) * o(r, s, q) < 0) return true; } return false; }
static void simplified(mc::Ctx& c) {
  Poly p = shape(c); static const double J[]{0, 0.005, 0.02}, TO[]{0, 0.011, 0.05, 0.3, 0.002, 1.5}; int k0 = c.choose(3); auto& f = FR[c.thorough() ? c.choose(3) : k0 % 2]; double j = J[k0], tol = TO[c.choose(c.tier(4, 6))]; size_t rot = c.choose(2) * 4; bool rev = rot > 0; c.require(p.size() == 1 || tol <= 0.05);   // past that, GEOS may pass over a hole
  Poly q; for (auto& r : p) q.push_back(f * rough(r, &r == &p[0] ? j : j / 8)); c.note(str(q), " tolerance ", tol * f.s);
  const double E = 1e-9 * (f.s + std::fabs(f.ox) + std::fabs(f.oy)); Cell cell = toCell(q, rot, rev), copy = cell; Cells one(cell), cs; cs.addGeometry(cell); cs.addGeometry(toCell(Frame{f.ox + 10 * f.s, f.oy, f.s, 0} * Poly{{{0, 0}, {1, 0}, {1, 1}, {0.5, 1.001}, {0, 1}}}));
  auto ring = [&](const Ring& a, const Ring& b, const char* k) {   // b is a made simpler; where the ring starts GEOS simplifies twice
    for (auto& v : b) { double d = 1e300; for (auto& u : a) d = std::min(d, nm(u - v)); c.check(d <= E, k, mc::str("corner ", v.x, ",", v.y, " is new")); } for (auto& v : a) c.check(ringDist(v, b) <= 2 * tol * f.s + E, k, mc::str("corner ", v.x, ",", v.y, " is ", ringDist(v, b), " away")); c.check(b.size() <= a.size() && b.size() >= 3 && !crosses(b, b, true), k, "crosses itself or has more corners"); };
  auto poly = [&](const Poly& b, const char* k) { c.eq(b.size(), q.size(), k, "rings"); for (size_t i = 0; i < q.size(); ++i) { ring(q[i], b[i], k); for (size_t z = 0; z < i; ++z) c.check(!crosses(b[i], b[z], false), k, "rings cross"); if (i) c.check(inRing((b[i][0] + b[i][1]) * 0.5, b[0]), k, "hole outside"); } if (tol > 4 * j && tol >= 0.002) c.check(b[0].size() < q[0].size(), k, "nothing simpler"); };
  poly(fromCell(cell.simplify(tol * f.s)), "simplify-cell"); Cells s1 = one.simplify(tol * f.s); c.eq(s1.size(), size_t(1), "simplify-cells"); poly(fromCell(s1.getGeometry(0)), "simplify-cells"); Cells s2 = cs.simplify(tol * f.s); c.eq(s2.size(), size_t(2), "simplify-cells"); poly(fromCell(s2.getGeometry(0)), "simplify-cells"); c.check(cell == copy, "operand-changed"); c.step(3);
  // the same border as a line and as one of two lines
  LineString l; for (auto& v : q[0]) l.addPoint(v.x, v.y); MultiLineString ml; ml.addGeometry(l); LineString l2({Point(f.ox, f.oy - 9 * f.s), Point(f.ox + f.s, f.oy - 9 * f.s)}); ml.addGeometry(l2);
  auto line = [&](const LineString& b, const char* k) { c.check(b.size() >= 2 && b.size() <= l.size() && b.startPoint() == l.startPoint() && b.endPoint() == l.endPoint(), k, "ends"); for (size_t i = 0; i < b.size(); ++i) { double d = 1e300; for (auto& u : q[0]) d = std::min(d, nm(u - fp(b.getGeometry(i)))); c.check(d <= E, k, "new corner"); } for (auto& v : q[0]) { double d = 1e300; for (size_t i = 1; i < b.size(); ++i) d = std::min(d, segDist(v, fp(b.getGeometry(i - 1)), fp(b.getGeometry(i)))); c.check(d <= tol * f.s + E, k, mc::str("corner ", v.x, ",", v.y, " is ", d, " away")); } };
  line(l.simplify(tol * f.s), "simplify-line"); MultiLineString m = ml.simplify(tol * f.s); c.eq(m.size(), size_t(2), "simplify-lines"); line(m.getGeometry(0), "simplify-lines"); c.check(m.getGeometry(1) == l2, "simplify-lines"); c.nontrivial(str(q) + mc::str(tol)); c.outcome(mc::str(cell.simplify(tol * f.s).getGeometry(0).size()));
}
static void setup() { mc::add("simplified", simplified); mc::add("large", large, 3); mc::add("convexity", convexity); mc::add("queries", queries); mc::add("rays", rays); mc::add("lines-inside", linesInside); mc::add("set-operations", setOps); mc::add("cell-sets", whichCell, 1); mc::add("hulls", hulls); }
MC_MAIN
