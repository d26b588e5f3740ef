// A03: every pair of small lattice shapes in every relative place, against the point sets they are.
#include "geo.h"
#include <variant>
using namespace geo;
// kind: 0 points, 1 lines, 2 polygons; many: the container of several
struct S { int kind; bool many; Ring pts; std::vector<Ring> lines; MPoly polys; };
typedef std::variant<Point, MultiPoint, LineString, MultiLineString, Cell, Cells> Any;
static S pnt(Ring r) { return {0, r.size() != 1, r, {}, {}}; }
static S lin(std::vector<Ring> l) { return {1, l.size() != 1, {}, l, {}}; }
static S pol(MPoly m) { return {2, m.size() != 1, {}, {}, m}; }
static const std::vector<S>& shapes() {
  static const std::vector<S> v{
    pnt({{0, 0}}), pnt({{2, 1}}), pnt({{1.5, 1.5}}), pnt({{0, 0}, {2, 2}}), pnt({{1, 1}, {4, 0}, {0, 3}}), pnt({{1, 0}, {1, 1}, {1, 2}, {3, 1}}),
    lin({{{0, 0}, {2, 0}}}), lin({{{0, 0}, {4, 2}}}), lin({{{0, 3}, {3, 0}}}), lin({{{0, 0}, {2, 0}, {2, 2}}}), lin({{{0, 0}, {4, 0}, {4, 3}, {0, 3}, {0, 0}}}), lin({{{1, 1}, {1, 3}}}), lin({{{0, 0}, {1, 2}, {2, 0}, {3, 2}, {4, 0}}}), lin({{{3, 2}, {1, 2}, {1, 0}}}), lin({{{0, 1}, {4, 1}, {2, 1}, {2, 3}}}),
    lin({{{0, 0}, {2, 0}}, {{2, 0}, {2, 2}}}), lin({{{0, 0}, {2, 0}}, {{0, 1}, {2, 1}}}), lin({{{0, 0}, {3, 3}}, {{0, 3}, {3, 0}}}), lin({{{0, 0}, {1, 0}}, {{2, 0}, {3, 0}}, {{4, 0}, {4, 4}}}), lin({{{1, 1}, {3, 1}}, {{1, 1}, {1, 3}}, {{1, 1}, {3, 3}}}),
    pol({{{{0, 0}, {2, 0}, {2, 2}, {0, 2}}}}), pol({{{{0, 0}, {4, 0}, {4, 3}, {0, 3}}}}), pol({{{{0, 0}, {3, 0}, {0, 3}}}}), pol({{{{0, 0}, {0, 1}, {1, 1}, {1, 0}}}}), pol({{{{0, 0}, {4, 0}, {4, 1}, {1, 1}, {1, 4}, {0, 4}}}}), pol({{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{1, 1}, {1, 3}, {3, 3}, {3, 1}}}}), pol({{{{0, 0}, {4, 2}, {2, 4}}}}), pol({{{{0, 1}, {1, 0}, {2, 1}, {1, 2}}}}), pol({{{{0, 0}, {4, 0}, {4, 3}, {2, 1}, {0, 3}}}}), pol({{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{1, 1}, {2, 2}, {2, 1}}, {{3, 3}, {2, 3}, {3, 2}}}}),
    pol({{{{0, 0}, {1, 0}, {1, 1}, {0, 1}}}, {{{2, 0}, {3, 0}, {3, 1}, {2, 1}}}}), pol({{{{0, 0}, {2, 0}, {2, 2}, {0, 2}}}, {{{2, 2}, {4, 2}, {4, 4}, {2, 4}}}}), pol({{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{1, 1}, {1, 3}, {3, 3}, {3, 1}}}, {{{1.5, 1.5}, {2.5, 1.5}, {2.5, 2.5}, {1.5, 2.5}}}}), pol({{{{0, 0}, {1, 0}, {0, 1}}}, {{{3, 0}, {4, 0}, {4, 1}}}, {{{0, 3}, {1, 4}, {0, 4}}}})};
  return v;
}
struct Fr { double a, b, c, d, x, y; const char* n; P operator()(P p) const { return {a * p.x + b * p.y + x, c * p.x + d * p.y + y}; } };   // exact on the lattice
static const std::vector<Fr> FS{{1, 0, 0, 1, 0, 0, "as drawn"}, {0, -1, 1, 0, 524288, 5767168, "far and turned"}, {-0.25, 0, 0, 0.25, -3, 7, "small and mirrored"}};
static S put(const S& s, const Fr& f, P d) { S r = s; auto m = [&](Ring& k) { for (auto& p : k) p = f(p + d); }; m(r.pts); for (auto& l : r.lines) m(l); for (auto& q : r.polys) for (auto& k : q) m(k); return r; }
static LineString line(const Ring& r) { LineString l; for (auto& p : r) l.addPoint(p.x, p.y); return l; }
static Any make(const S& s, bool asMany) {
  if (s.kind == 0) { if (!s.many && !asMany) return Any(std::in_place_type<Point>, s.pts[0].x, s.pts[0].y); MultiPoint m; for (auto& p : s.pts) m.addPoint(p.x, p.y); return Any(std::move(m)); }
  if (s.kind == 1) { if (!s.many && !asMany) return Any(line(s.lines[0])); MultiLineString m; for (auto& l : s.lines) m.addGeometry(line(l)); return Any(std::move(m)); }
  Cells c = toCells(s.polys); if (!s.many && !asMany) return Any(std::in_place_type<Cell>, Cell(c.getGeometry(0).get())); return Any(std::move(c));
}
static double R0 = 0;   // tolerance of the frame
static bool onSeg(P p, P a, P b) { return segDist(p, a, b) < R0; }
// +1 interior, 0 boundary, -1 exterior
static int cls(const S& s, P p) {
  if (s.kind == 0) { for (auto& q : s.pts) if (nm(q - p) < R0) return 1; return -1; }
  if (s.kind == 2) return where(p, s.polys, R0);
  int ends = 0; bool on = false; for (auto& l : s.lines) { ends += (nm(l.front() - p) < R0) + (nm(l.back() - p) < R0); for (size_t i = 0; i + 1 < l.size(); ++i) on = on || onSeg(p, l[i], l[i + 1]); } return !on ? -1 : ends % 2 ? 0 : 1;
}
typedef std::vector<std::pair<P, P>> Segs;
static Segs segs(const S& s) { Segs r; for (auto& p : s.pts) r.push_back({p, p}); for (auto& l : s.lines) for (size_t i = 0; i + 1 < l.size(); ++i) r.push_back({l[i], l[i + 1]}); for (auto& q : s.polys) for (auto& k : q) for (size_t i = 0; i < k.size(); ++i) r.push_back({k[i], k[(i + 1) % k.size()]}); return r; }
struct Rel { bool hit, touch, cross, in, same; double dist; };
static Rel relate(const S& a, const S& b, double unit) {
  R0 = 1e-9 * unit + 1e-12 * 6e6 * (unit == 1); Segs sa = segs(a), sb = segs(b), all = sa; all.insert(all.end(), sb.begin(), sb.end()); bool II = false, II1 = false, IE = false, EI = false, out = false, hit = false, differ = false;
  auto see = [&](P p, bool mid) { int x = cls(a, p), y = cls(b, p); if (x > 0 && y > 0) { II = true; II1 = II1 || mid; } hit = hit || (x >= 0 && y >= 0); IE = IE || (x > 0 && y < 0); EI = EI || (x < 0 && y > 0); out = out || (x >= 0 && y < 0); differ = differ || (x >= 0) != (y >= 0); };
  for (auto& s : all) { P d = s.second - s.first; double L = nm(d); if (L == 0) { see(s.first, false); continue; } std::vector<double> t{0, 1}; for (auto& o : all) { for (P v : {o.first, o.second}) if (onSeg(v, s.first, s.second)) t.push_back(dt(v - s.first, d) / (L * L)); P e = o.second - o.first; double den = cr(d, e); if (den != 0) { double u = cr(o.first - s.first, e) / den, w = cr(o.first - s.first, d) / den; if (u > -1e-9 && u < 1 + 1e-9 && w > -1e-9 && w < 1 + 1e-9) t.push_back(u); } }
    std::sort(t.begin(), t.end()); P nrm{-d.y / L, d.x / L}; for (size_t i = 0; i < t.size(); ++i) { see(s.first + d * t[i], false); if (i + 1 < t.size() && t[i + 1] - t[i] > 1e-7) { P m = s.first + d * ((t[i] + t[i + 1]) / 2); see(m, true); see(m + nrm * (1e-5 * unit), false); see(m - nrm * (1e-5 * unit), false); } } }
  Rel r{}; r.hit = hit; r.touch = hit && !II; r.in = II && !out; r.cross = a.kind < b.kind ? II && IE : a.kind > b.kind ? II && EI : a.kind == 1 && II && !II1; r.same = !differ; r.dist = 1e300; if (hit) r.dist = 0; else for (auto& s : sa) for (auto& o : sb) r.dist = std::min({r.dist, segDist(s.first, o.first, o.second), segDist(s.second, o.first, o.second), segDist(o.first, s.first, s.second), segDist(o.second, s.first, s.second)}); return r;
}
static void judge(mc::Ctx& c, const Any& x, const Any& y, const Rel& w, double unit) {
  std::visit([&](auto& a) { std::visit([&](auto& b) {
    c.eq(a.intersects(b), w.hit, "intersects"); c.eq(a.disjoint(b), !w.hit, "disjoint"); c.eq(a.touches(b), w.touch, "touches"); c.eq(a.crosses(b), w.cross, "crosses"); c.eq(a.within(b), w.in, "within"); double d = a.distance(b); if (!(std::fabs(d - w.dist) <= 2e-9 * std::max(1.0, unit))) c.near(d, w.dist, 2e-9, "distance"); c.step(6);
    if constexpr (std::is_same_v<std::decay_t<decltype(a)>, std::decay_t<decltype(b)>>) { bool e = a == b; c.eq(a != b, !e, "equal", "== and != agree"); if (e && !w.same) c.fail("equal", "different shapes are equal"); } }, y); }, x);
}
static void pairs(mc::Ctx& c) {
  auto& L = shapes(); int i = c.choose(L.size()), j = c.choose(L.size()); auto& f = FS[c.choose(c.thorough() ? 3 : 2) + (c.thorough() ? 0 : (i + j) % 2)]; int R = c.tier(2, 4); P d{double(c.choose(2 * R + 1) - R), double(c.choose(2 * R + 1) - R)}; double h = c.thorough() ? 0.5 * c.choose(2) : 0; d = d + P{h, h}; bool many = c.thorough() ? c.flag() : (i + j + int(d.x)) % 2; S a = put(L[i], f, {0, 0}), b = put(L[j], f, d); double unit = std::fabs(f.a) + std::fabs(f.b);
  c.note("shape ", i, " and shape ", j, " moved by ", d.x, ",", d.y, " ", f.n, many ? " in sets" : ""); Any x = make(a, many), y = make(b, many && (i % 2)); Rel w = relate(a, b, unit); judge(c, x, y, w, unit); if (i == j && d.x == 0 && d.y == 0) { Any z = make(a, many); std::visit([&](auto& u) { auto& v = std::get<std::decay_t<decltype(u)>>(z); c.check(u == v && !(u != v), "equal", "the same coordinates"); auto k = u.clone(); c.check(u == k, "equal", "a clone"); }, x); }
  c.nontrivial(mc::str(i, " ", j, " ", d.x, " ", d.y, f.n, many)); c.outcome(mc::str(w.hit, w.touch, w.cross, w.in, L[i].kind, L[j].kind));
}
// shapes that change between two questions, and their extents
static void changes(mc::Ctx& c) {
  auto& L = shapes(); int j = c.choose(L.size()); S a; int kind = c.choose(4); Any y = make(L[j], false); MultiPoint mp; LineString l; MultiLineString ml; Cells cs; int depth = c.tier(3, 4); a.many = true; a.kind = kind == 0 ? 0 : kind < 3 ? 1 : 2; static const std::vector<P> Q{{0, 0}, {2, 2}, {3, 1}, {1, 3}, {-1, 0}}; if (kind == 1) { a.lines = {{{0, 1}, {1, 1}}}; l.addPoint(0, 1); l.addPoint(1, 1); }
  for (int k = 0; k < depth; ++k) { int op = c.choose(7); c.note(op); double sc = 1; if (op < 5) { P p = Q[op]; if (kind == 0) { a.pts.push_back(p); mp.addPoint(p.x, p.y); } if (kind == 1) { a.lines[0].push_back(p); l.addPoint(p.x, p.y); } if (kind == 2) { Ring r{p, p + P{1, 1}}; a.lines.push_back(r); ml.addGeometry(line(r)); } if (kind == 3) { Ring r{p * 2, p * 2 + P{1, 0}, p * 2 + P{0, 1}}; for (auto& q : a.polys) c.require(nm(q[0][0] - r[0]) > 0.1); a.polys.push_back({r}); cs.addGeometry(toCells({{r}}).getGeometry(0)); } } else if (op == 5) sc = 2; else sc = 0.5; if (sc != 1) { c.require(a.pts.size() + a.lines.size() + a.polys.size() > 0 && k > 0); for (auto& p : a.pts) p = p * sc; for (auto& r : a.lines) for (auto& p : r) p = p * sc; for (auto& q : a.polys) for (auto& r : q) for (auto& p : r) p = p * sc; if (kind == 0) mp *= sc; if (kind == 1) l *= sc; if (kind == 2) ml *= sc; if (kind == 3) cs *= sc; }
    // a line that stays in place or runs over its own track is left out: its boundary is a matter of taste
    if (kind == 1) { auto& r = a.lines[0]; for (size_t i = 0; i + 1 < r.size(); ++i) c.require(nm(r[i] - r[i + 1]) > 0.01); for (size_t i = 0; i + 2 < r.size(); ++i) c.require(std::fabs(cr(r[i + 1] - r[i], r[i + 2] - r[i + 1])) > 1e-9); } if (kind == 2) for (size_t i = 0; i < a.lines.size(); ++i) for (size_t m = 0; m < i; ++m) c.require(nm(a.lines[i][0] - a.lines[m][0]) > 0.01); if (kind == 0) for (size_t i = 0; i < a.pts.size(); ++i) for (size_t m = 0; m < i; ++m) c.require(nm(a.pts[i] - a.pts[m]) > 0.01);
    Rel w = relate(a, L[j], 1), v = relate(L[j], a, 1); Any x = kind == 0 ? Any(mp) : kind == 1 ? Any(l) : kind == 2 ? Any(ml) : Any(cs); judge(c, x, y, w, 1); judge(c, y, x, v, 1); double x0 = 1e300, x1 = -x0, y0 = x0, y1 = -x0; for (auto& s : segs(a)) for (P p : {s.first, s.second}) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    std::visit([&](auto& g) { c.check(g.getDimMinX() == x0 && g.getDimMaxX() == x1 && g.getDimMinY() == y0 && g.getDimMaxY() == y1, "extent"); c.check(g.getWidth() == x1 - x0 && g.getHeight() == y1 - y0, "extent"); c.check(g.getMinSafeLength() >= std::hypot(x1 - x0, y1 - y0), "safe-length"); c.check(!g.isEmpty(), "empty"); }, x); c.state(c.trace()); }
  c.nontrivial(mc::str(kind, j, c.trace()));
}
static void empties(mc::Ctx& c) { auto& L = shapes(); int j = c.choose(L.size() + 6), kind = c.choose(6); auto none = [](int k) { return k == 0 ? Any(std::in_place_type<Point>) : k == 1 ? Any(MultiPoint()) : k == 2 ? Any(LineString()) : k == 3 ? Any(MultiLineString()) : k == 4 ? Any(Cell()) : Any(Cells()); }; Any x = none(kind), y = j < (int)L.size() ? make(L[j], false) : none(j - L.size()); c.note("nothing of kind ", kind, " and shape ", j); c.require(kind != 0 && j != (int)L.size());
  std::visit([&](auto& a) { std::visit([&](auto& b) { c.check(!a.intersects(b) && !b.intersects(a), "empty-intersects"); c.check(a.disjoint(b) && b.disjoint(a), "empty-disjoint"); c.check(!a.touches(b) && !a.crosses(b) && !b.touches(a) && !b.crosses(a), "empty-touches"); (void)a.distance(b); (void)b.distance(a); c.check(!b.within(a), "empty-within"); c.check(a.isEmpty(), "empty"); }, y); }, x); c.step(8); c.nontrivial(c.trace()); }
static void setup() { mc::add("pairs", pairs, 2); mc::add("changes", changes, 3); mc::add("empties", empties, 2); }
MC_MAIN
