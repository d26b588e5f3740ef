// Exact lattice geometry used as oracle and as generator: simple lattice polygons and polyominoes with holes.
#pragma once
#include "mc.h"
#include "fields2cover.h"
namespace geo {
using namespace f2c::types;
struct P { double x, y; };
inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
inline P operator*(P a, double k) { return {a.x * k, a.y * k}; }
inline double cr(P a, P b) { return a.x * b.y - a.y * b.x; }
inline double dt(P a, P b) { return a.x * b.x + a.y * b.y; }
inline double nm(P a) { return std::hypot(a.x, a.y); }
typedef std::vector<P> Ring;                 // open: first vertex not repeated
typedef std::vector<Ring> Poly;              // outer ring, then holes
typedef std::vector<Poly> MPoly;
inline double sarea(const Ring& r) { double s = 0; for (size_t i = 0; i < r.size(); ++i) s += cr(r[i], r[(i + 1) % r.size()]); return s / 2; }
inline double area(const Poly& p) { double s = 0; for (size_t i = 0; i < p.size(); ++i) s += (i ? -1 : 1) * std::fabs(sarea(p[i])); return s; }
inline double area(const MPoly& m) { double s = 0; for (auto& p : m) s += area(p); return s; }
inline double perim(const Ring& r) { double s = 0; for (size_t i = 0; i < r.size(); ++i) s += nm(r[(i + 1) % r.size()] - r[i]); return s; }
inline double segDist(P p, P a, P b) { P d = b - a; double l = dt(d, d), t = l > 0 ? std::min(1.0, std::max(0.0, dt(p - a, d) / l)) : 0; return nm(p - (a + d * t)); }
inline double ringDist(P p, const Ring& r) { double d = 1e300; for (size_t i = 0; i < r.size(); ++i) d = std::min(d, segDist(p, r[i], r[(i + 1) % r.size()])); return d; }
inline double borderDist(P p, const Poly& q) { double d = 1e300; for (auto& r : q) d = std::min(d, ringDist(p, r)); return d; }
inline double borderDist(P p, const MPoly& m) { double d = 1e300; for (auto& q : m) d = std::min(d, borderDist(p, q)); return d; }
inline bool inRing(P p, const Ring& r) { bool in = false; for (size_t i = 0, n = r.size(); i < n; ++i) { P a = r[i], b = r[(i + 1) % n]; if ((a.y > p.y) != (b.y > p.y) && p.x < a.x + (p.y - a.y) * (b.x - a.x) / (b.y - a.y)) in = !in; } return in; }
// +1 inside, 0 within tol of a border, -1 outside
inline int where(P p, const Poly& q, double tol) { if (borderDist(p, q) <= tol) return 0; if (!inRing(p, q[0])) return -1; for (size_t i = 1; i < q.size(); ++i) if (inRing(p, q[i])) return -1; return 1; }
inline int where(P p, const MPoly& m, double tol) { int w = -1; for (auto& q : m) w = std::max(w, where(p, q, tol)); return w; }
// parts of the line o + t*d (d unit) inside the polygon, as sorted parameter intervals, for t in [t0, t1]
inline std::vector<std::pair<double, double>> inside(P o, P d, const MPoly& m, double t0, double t1, double tol = 1e-9) {
  std::vector<double> ts{t0, t1};
  for (auto& q : m) for (auto& r : q) for (size_t i = 0; i < r.size(); ++i) {
    P a = r[i], b = r[(i + 1) % r.size()]; P e = b - a; double den = cr(d, e);
    for (P v : {a, b}) if (std::fabs(cr(d, v - o)) < tol) ts.push_back(dt(v - o, d));
    if (std::fabs(den) > 1e-12 * nm(e)) { double t = cr(a - o, e) / den, s = cr(a - o, d) / den; if (s >= -1e-12 && s <= 1 + 1e-12) ts.push_back(t); }
  }
  std::sort(ts.begin(), ts.end()); std::vector<std::pair<double, double>> r;
  for (size_t i = 0; i + 1 < ts.size(); ++i) { double a = std::max(ts[i], t0), b = std::min(ts[i + 1], t1); if (b - a < tol) continue;
    if (where(o + d * ((a + b) / 2), m, tol) > 0) { if (!r.empty() && std::fabs(r.back().second - a) < 1e-7 && where(o + d * a, m, tol) > 0) r.back().second = b; else r.push_back({a, b}); } }
  return r;
}
inline double crossLen(P o, P d, const MPoly& m) { double s = 0; for (auto& i : inside(o, d, m, -1e4, 1e4)) s += i.second - i.first; return s; }
inline bool convex(const Ring& r) { bool l = false, g = false; for (size_t i = 0, n = r.size(); i < n; ++i) { double k = cr(r[(i + 1) % n] - r[i], r[(i + 2) % n] - r[(i + 1) % n]); l |= k > 1e-9; g |= k < -1e-9; } return !(l && g); }
inline Ring hull(std::vector<P> v) {
  std::sort(v.begin(), v.end(), [](P a, P b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }); Ring h;
  for (int k = 0; k < 2; ++k) { size_t b = h.size(); for (auto& p : v) { while (h.size() >= b + 2 && cr(h.back() - h[h.size() - 2], p - h.back()) <= 0) h.pop_back(); h.push_back(p); } h.pop_back(); std::reverse(v.begin(), v.end()); }
  return h;
}
// -- frames: the same lattice shape scaled, rotated and shifted
struct Frame { double ox, oy, s, a; P operator()(P p) const { double x = p.x * s, y = p.y * s; return {ox + x * std::cos(a) - y * std::sin(a), oy + x * std::sin(a) + y * std::cos(a)}; } };
inline Ring operator*(const Frame& f, const Ring& r) { Ring o; for (auto& p : r) o.push_back(f(p)); return o; }
inline Poly operator*(const Frame& f, const Poly& r) { Poly o; for (auto& p : r) o.push_back(f * p); return o; }
inline MPoly operator*(const Frame& f, const MPoly& r) { MPoly o; for (auto& p : r) o.push_back(f * p); return o; }
// -- to the library's types (start vertex and orientation of every ring can be chosen)
inline LinearRing toRing(const Ring& r, size_t rot = 0, bool rev = false) { LinearRing l; size_t n = r.size(); for (size_t i = 0; i <= n; ++i) { const P& p = r[rev ? (rot + 2 * n - i) % n : (rot + i) % n]; l.addPoint(p.x, p.y); } return l; }
inline Cell toCell(const Poly& p, size_t rot = 0, bool rev = false) { Cell c; for (size_t i = 0; i < p.size(); ++i) c.addRing(toRing(p[i], rot % p[i].size(), rev)); return c; }
inline Cells toCells(const MPoly& m, size_t rot = 0, bool rev = false) { Cells c; for (auto& p : m) c.addGeometry(toCell(p, rot, rev)); return c; }
inline Ring fromRing(const LinearRing& l) { Ring r; for (size_t i = 0; i + 1 < l.size(); ++i) r.push_back({l.getX(i), l.getY(i)}); return r; }
inline Poly fromCell(const Cell& c) { Poly p; for (size_t i = 0; i < c.size(); ++i) p.push_back(fromRing(c.getGeometry(i))); return p; }
inline MPoly fromCells(const Cells& c) { MPoly m; for (size_t i = 0; i < c.size(); ++i) m.push_back(fromCell(c.getGeometry(i))); return m; }
inline P fp(const Point& p) { return {p.X(), p.Y()}; }
inline Point tp(P p) { return Point(p.x, p.y); }
inline std::string str(const MPoly& m) { std::string s; for (auto& q : m) { s += "<"; for (auto& r : q) { s += "["; for (auto& p : r) s += mc::str(p.x, ",", p.y, " "); s += "]"; } s += ">"; } return s; }
inline std::string str(const Poly& m) { return str(MPoly{m}); }
// -- polyominoes: bit (y*w+x) of mask is the unit square at (x,y). 4-connected parts, holes as holes.
inline bool pinched(unsigned mask, int w, int h) {
  auto on = [&](int x, int y) { return x >= 0 && y >= 0 && x < w && y < h && (mask >> (y * w + x) & 1); };
  for (int x = 0; x <= w; ++x) for (int y = 0; y <= h; ++y) { bool a = on(x - 1, y - 1), b = on(x, y - 1), c = on(x - 1, y), d = on(x, y); if ((a && d && !b && !c) || (b && c && !a && !d)) return true; }
  return false;
}
inline MPoly polyomino(unsigned mask, int w, int h) {
  auto on = [&](int x, int y) { return x >= 0 && y >= 0 && x < w && y < h && (mask >> (y * w + x) & 1); };
  std::map<std::pair<int, int>, std::vector<std::pair<int, int>>> next;   // boundary edges, cell on the left
  auto E = [&](int x0, int y0, int x1, int y1) { next[{x0, y0}].push_back({x1, y1}); };
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (on(x, y)) { if (!on(x, y - 1)) E(x, y, x + 1, y); if (!on(x + 1, y)) E(x + 1, y, x + 1, y + 1); if (!on(x, y + 1)) E(x + 1, y + 1, x, y + 1); if (!on(x - 1, y)) E(x, y + 1, x, y); }
  std::vector<Ring> outer, holes;
  while (!next.empty()) {
    auto s = next.begin()->first; auto cur = s; int dx = 0, dy = 0; std::vector<std::pair<int, int>> pts;
    do { auto& v = next[cur]; size_t k = 0;   // at a pinch turn left: keeps 4-connected parts apart
      if (v.size() > 1) for (size_t i = 0; i < v.size(); ++i) { int ex = v[i].first - cur.first, ey = v[i].second - cur.second; if (dx * ey - dy * ex > 0) k = i; }
      auto to = v[k]; v.erase(v.begin() + k); if (v.empty()) next.erase(cur);
      dx = to.first - cur.first; dy = to.second - cur.second; pts.push_back(cur); cur = to; } while (cur != s);
    Ring r; size_t n = pts.size();
    for (size_t i = 0; i < n; ++i) { auto a = pts[(i + n - 1) % n], b = pts[i], c = pts[(i + 1) % n]; if ((b.first - a.first) * (c.second - b.second) - (b.second - a.second) * (c.first - b.first)) r.push_back({(double)b.first, (double)b.second}); }
    (sarea(r) > 0 ? outer : holes).push_back(r);
  }
  MPoly m; for (auto& o : outer) m.push_back({o});
  for (auto& hh : holes) { P a = hh[0], b = hh[1]; P mid = (a + b) * 0.5; P d = b - a; d = d * (1 / nm(d)); P in{mid.x - d.y * 0.5, mid.y + d.x * 0.5};   // a point of the part that carries the hole: left of the hole's edge
    for (auto& q : m) if (inRing(in, q[0])) { q.push_back(hh); break; } }
  return m;
}
inline int parts(unsigned mask, int w, int h) { return polyomino(mask, w, h).size(); }
// -- simple lattice polygons: all vertex cycles of n points of a w*h grid starting at their smallest vertex (both directions)
inline std::vector<Ring> latticePolygons(int w, int h, int n) {
  std::vector<Ring> out; std::vector<int> idx; auto pt = [&](int i) { return P{(double)(i % w), (double)(i / w)}; };
  auto orient = [](P a, P b, P c) { double k = cr(b - a, c - a); return k > 0 ? 1 : k < 0 ? -1 : 0; };
  auto onseg = [&](P a, P b, P p) { return orient(a, b, p) == 0 && dt(a - p, b - p) <= 0; };
  auto meet = [&](P a, P b, P c, P d) { return (orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0) || onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b); };
  std::function<void()> rec = [&] {
    size_t k = idx.size();
    auto okEdge = [&](P a, P b, size_t from, size_t to) { for (size_t i = from; i + 1 <= to; ++i) if (meet(pt(idx[i]), pt(idx[i + 1]), a, b)) return false; return true; };
    if ((int)k == n) {
      P a = pt(idx[k - 1]), b = pt(idx[0]);   // closing edge against all but its neighbours
      if (!okEdge(a, b, 1, k - 2)) return;
      if (onseg(a, b, pt(idx[1])) || onseg(b, pt(idx[1]), a) || onseg(a, b, pt(idx[k - 2])) || onseg(a, pt(idx[k - 2]), b)) return;
      Ring r; for (int i : idx) r.push_back(pt(i)); if (std::fabs(sarea(r)) > 0.1) out.push_back(r); return;
    }
    for (int v = idx[0] + 1; v < w * h; ++v) {
      if (std::find(idx.begin(), idx.end(), v) != idx.end()) continue;
      P a = pt(idx[k - 1]), b = pt(v);
      if (k >= 2 && (!okEdge(a, b, 0, k - 2) || onseg(a, b, pt(idx[k - 2])) || onseg(a, pt(idx[k - 2]), b))) continue;
      idx.push_back(v); rec(); idx.pop_back();
    }
  };
  for (int s = 0; s < w * h; ++s) { idx = {s}; rec(); }
  return out;
}
inline const std::vector<Ring>& lattice(int w, int h, int nmin, int nmax) {
  static std::map<std::vector<int>, std::vector<Ring>> m; auto& v = m[{w, h, nmin, nmax}];
  if (v.empty()) for (int n = nmin; n <= nmax; ++n) { auto r = latticePolygons(w, h, n); v.insert(v.end(), r.begin(), r.end()); }
  return v;
}
inline std::vector<Ring> ccwOnly(const std::vector<Ring>& v) { std::vector<Ring> o; for (auto& r : v) if (sarea(r) > 0) o.push_back(r); return o; }
// -- shapes of any size, a few units high: 0 comb, 1 zigzag, 2 square with a grid of holes, 3 convex, 4 star, 5 row of cells
const int BIG = 6;
inline MPoly big(int kind, int n) {
  Ring r; if (kind == 0) { r = {{0, 0}, {2.0 * n, 0}}; for (int i = n - 1; i >= 0; --i) { r.push_back({2.0 * i + 1.9, 3.0 + 0.1 * (i % 3)}); r.push_back({2.0 * i + 1, 1.0 + 0.07 * (i % 2)}); r.push_back({2.0 * i + 0.1, 3.03}); } return {{r}}; }
  if (kind == 1) { for (int i = 0; i <= n; ++i) r.push_back({1.5 * i, i % 2 ? 1.3 : 0.0}); for (int i = n; i >= 0; --i) r.push_back({1.5 * i, (i % 2 ? 1.3 : 0.0) + 2.1}); return {{r}}; }
  if (kind == 2) { int k = std::ceil(std::sqrt(n)); double w = 1 + 2.0 * k; Poly p{{{0, 0}, {w, 0}, {w, w}, {0, w}}}; for (int i = 0; i < n; ++i) { double x = 0.8 + 2 * (i % k), y = 0.85 + 2 * (i / k); p.push_back({{x, y}, {x + 1.1, y + 0.1}, {x + 0.9, y + 1.2}}); if (i % 2) std::reverse(p.back().begin(), p.back().end()); } return {p}; }
  if (kind == 3 || kind == 4) { int m = std::max(n + 2, 3) * (kind == 4 ? 2 : 1); for (int i = 0; i < m; ++i) { double a = 2 * M_PI * (i + 0.21) / m, d = kind == 4 && i % 2 ? 1.7 : 3.1; r.push_back({3.3 + d * std::cos(a), 3.4 + 0.9 * d * std::sin(a)}); } return {{r}}; }
  MPoly m; for (int i = 0; i < n; ++i) m.push_back(Frame{6.0 * (i % 7), 5.0 * (i / 7), 0.7 + 0.01 * (i % 9), 0.05 * (i % 3)} * Poly{{{0, 0}, {4, 0}, {5, 3}, {0, 4}}}); return m;
}
}  // namespace geo
