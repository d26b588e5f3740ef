// C01: histories of transformations on fields, and every other object through every overload, against coordinates moved one by one.
#include "geo.h"
#include "fields2cover/utils/transformation.h"
#include <ogr_spatialref.h>
using namespace geo; using T = f2c::Transform; using namespace f2c::types;
struct Place { const char* name; double lon, lat; std::vector<std::string> crs; bool europe; };
static const std::vector<Place> PL{{"Wageningen", 5.6, 52.3, {"EPSG:4326", "UTM:31N datum:etrs89", "EPSG:28992", "UTM:31N datum:WGS84", "EPSG:4258", "UTM:32N datum:WGS84", "EPSG:3857"}, true}, {"Samoa", -172.4, -13.6, {"EPSG:4326", "UTM:2S datum:WGS84", "EPSG:3857", "UTM:1S datum:WGS84", "EPSG:32702"}, false},
  {"Goias", -47.1, -15.3, {"EPSG:4326", "UTM:23S datum:WGS84", "EPSG:3857", "UTM:22S datum:WGS84"}, false}, {"Equator", 36.001, 0.002, {"EPSG:4326", "UTM:37N datum:WGS84", "UTM:36S datum:WGS84", "EPSG:3857"}, false}, {"Alaska", -149.5, 64.5, {"EPSG:4326", "UTM:6N datum:WGS84", "UTM:5N datum:WGS84", "EPSG:3857"}, false}};
static OGRSpatialReference* ref(const std::string& s) {   // written out here, not taken from the library
  static std::map<std::string, OGRSpatialReference*> m; auto& r = m[s]; if (r) return r; r = new OGRSpatialReference(); if (s.rfind("EPSG:", 0) == 0) r->importFromEPSG(atoi(s.c_str() + 5)); else { int z = atoi(s.c_str() + 4); bool south = s.find('S', 4) < s.find(' '); bool etrs = s.find("etrs") != s.npos || s.find("ETRS") != s.npos; if (etrs) r->importFromProj4(mc::str("+proj=utm +zone=", z, south ? " +south" : "", " +ellps=GRS80 +towgs84=0,0,0,0,0,0,0 +units=m +no_defs").c_str()); else r->importFromEPSG((south ? 32700 : 32600) + z); } r->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER); return r; }
static P conv(P p, const std::string& a, const std::string& b) { static std::map<std::string, OGRCoordinateTransformation*> m; auto& t = m[a + ">" + b]; if (!t) t = OGRCreateCoordinateTransformation(ref(a), ref(b)); double x = p.x, y = p.y; if (!t->Transform(1, &x, &y)) throw std::runtime_error("oracle " + a + " " + b); return {x, y}; }
static bool geographic(const std::string& s) { return s == "EPSG:4326" || s == "EPSG:4258"; }
static double tol(const std::string& s) { return geographic(s) ? 1e-7 : 0.01; }
static void at(mc::Ctx& c, const Point& p, P w, const std::string& crs, const char* key, const std::string& what = "") { double t = tol(crs); if (!(std::fabs(p.getX() - w.x) <= t && std::fabs(p.getY() - w.y) <= t)) c.fail(key, mc::str(what, " in ", crs, " got ", p.getX(), ",", p.getY(), " expected ", w.x, ",", w.y)); c.step(); }
struct Model { std::vector<Poly> cells; P ref; std::string crs, prev, id; bool empty; void move(const std::string& to) { for (auto& k : cells) for (auto& r : k) for (auto& p : r) p = conv(p, crs, to); ref = empty ? conv(ref, crs, to) : cells[0][0][0]; crs = to; } };
static void verify(mc::Ctx& c, const Field& f, const Model& m) {
  c.eq(f.getCRS(), m.crs, "current-system"); c.eq(f.getPrevCRS(), m.prev, "previous-system"); c.eq(f.getId(), m.id, "id"); c.eq(f.isEmpty(), m.empty, "empty"); at(c, f.getRefPoint(), m.ref, m.crs, "reference"); Cells abs = f.getCellsAbsPosition(); c.eq(abs.size(), m.cells.size(), "cells"); for (size_t i = 0; i < m.cells.size(); ++i) { Cell k = abs.getGeometry(i); c.eq(k.size(), m.cells[i].size(), "rings"); for (size_t j = 0; j < k.size(); ++j) { LinearRing r = k.getGeometry(j); c.eq(r.size(), m.cells[i][j].size(), "points"); for (size_t l = 0; l < r.size(); ++l) at(c, r.getGeometry(l), m.cells[i][j][l], m.crs, "position", mc::str("cell ", i, " ring ", j, " point ", l)); } }
  if (!m.empty) { Point o = f.getField().getCellBorder(0).startPoint(); c.check(std::fabs(o.getX()) < 1e-9 && std::fabs(o.getY()) < 1e-9, "not-relative"); } at(c, T::getRefPointInGPS(f), conv(m.ref, m.crs, "EPSG:4326"), "EPSG:4326", "gps");
}
static std::string utmOf(P deg, bool etrs) { int z = (int)std::floor((deg.x + 180) / 6) + 1; return mc::str("UTM:", z, deg.y > 0 ? "N" : "S", " datum:", etrs ? "ETRS89" : "WGS84"); }
static void toUtm(Model& m, bool opt, bool europe) { std::string was = m.crs; if (!geographic(m.crs)) { m.move("EPSG:4326"); if (opt && europe) m.move("EPSG:4258"); } m.move(utmOf(m.ref, m.crs == "EPSG:4258")); m.prev = was; }
static Model make(const Place& p, const std::string& crs, int shape) { Model m; m.crs = "EPSG:4326"; m.id = mc::str("field", shape); m.empty = shape == 2; auto pt = [&](double x, double y) { return P{p.lon + x * 1e-3, p.lat + y * 1e-3}; }; if (shape == 0) m.cells = {{{pt(0, 0), pt(4, 0), pt(4, 3), pt(0, 3), pt(0, 0)}, {pt(1, 1), pt(2, 1), pt(2, 2), pt(1, 1)}}, {{pt(6, 1), pt(9, 1.5), pt(7, 4), pt(6, 1)}}}; if (shape == 1) m.cells = {{{pt(3, -1), pt(5, 2), pt(2, 2), pt(3, -1)}}}; m.ref = m.empty ? pt(0, 0) : m.cells[0][0][0]; m.move(crs); return m; }
static Field build(const Model& m) { Field f; if (m.empty) f.setRefPoint(Point(m.ref.x, m.ref.y)); else { Cells cs; for (auto& k : m.cells) { Cell cell; for (auto& r : k) { LinearRing ring; for (auto& p : r) ring.addPoint(p.x, p.y); cell.addRing(ring); } cs.addGeometry(cell); } f = Field(cs); } f.setId(m.id); f.setCRS(m.crs); return f; }
static void histories(mc::Ctx& c) {
  auto& pl = c.pick(PL); int shape = c.choose(3), n = pl.crs.size(); auto& start = pl.crs[c.choose(c.tier(2, 4))]; Model m = make(pl, start, shape); Field f = build(m), copy = f; Model first = m; c.note(pl.name, " ", shape, " in ", start); c.state(mc::str(pl.name, shape, m.crs, m.prev)); int most = c.tier(pl.europe && shape == 0 && start == pl.crs[0] ? 3 : 2, 4), depth = most - c.choose(most + 1);   // every shorter history ends an execution of its own
  for (int d = 0; d < depth; ++d) { int k = c.choose(c.tier(3, std::min(n, 5)) + 5); Field before = f; bool thrown = false;
    if (k == 0) { c.note("to UTM etrs"); T::transformToUTM(f); toUtm(m, true, pl.europe); } else if (k == 1) { c.note("to UTM wgs"); T::transformToUTM(f, false); toUtm(m, false, pl.europe); }
    else if (k == 2) { c.note("back"); if (m.prev.empty()) { try { T::transformToPrevCRS(f); } catch (const std::exception&) { thrown = true; } c.check(thrown, "back-to-nothing"); } else { std::string to = m.prev; m.prev = m.crs; m.move(to); T::transformToPrevCRS(f); } }
    else if (k == 3) { c.note("rejected"); try { T::transform(f, "NONE"); } catch (const std::exception&) { thrown = true; } c.check(thrown, "accepted-nonsense"); } else if (k == 4) { c.note("elsewhere"); Field g = f; T::transform(g, pl.crs[(d + 2) % n]); (void)g; Field h = f.clone(); T::transform(h, pl.crs[1]); }
    else { auto& to = pl.crs[k - 5]; c.note("to ", to); m.prev = m.crs; m.move(to); T::transform(f, to); }
    c.state(mc::str(pl.name, shape, m.crs, m.prev)); }
  verify(c, f, m);
  Field back = f; if (m.crs != start) { T::transform(back, start); Model b = first; b.prev = m.crs; bool exact = true; for (auto& s : {m.crs, m.prev}) exact = exact && s != "EPSG:28992"; (void)exact; Cells abs = back.getCellsAbsPosition(); double t = geographic(start) ? 1e-5 : 1.5; for (size_t i = 0; i < b.cells.size(); ++i) { LinearRing r = abs.getGeometry(i).getExteriorRing(); for (size_t l = 0; l < r.size(); ++l) c.check(std::fabs(r.getGeometry(l).getX() - b.cells[i][0][l].x) < t && std::fabs(r.getGeometry(l).getY() - b.cells[i][0][l].y) < t, "returned-elsewhere"); } }
  for (auto i : {0}) { (void)i; verify(c, copy, first); } c.nontrivial(c.trace()); c.outcome(mc::str(m.crs, m.prev));
}
// -- every other kind of object through every overload, there and back
static void objects(mc::Ctx& c) {
  auto& pl = c.pick(PL); int n = c.tier(std::min<int>(4, pl.crs.size()), pl.crs.size()), a = c.choose(n), b = c.choose(n), kind = c.choose(8), variant = c.choose(6); bool withRef = c.flag(); c.require(a != b && (c.thorough() || &pl == &PL[0] || (b - a + n) % n <= 2)); std::string A = pl.crs[a], B = pl.crs[b]; double u = geographic(A) ? 1e-3 : 100; P o = conv({pl.lon, pl.lat}, "EPSG:4326", A); Model m = make(pl, A, variant % 3); Field f = build(m); f.setPrevCRS(B); Field f0 = f.clone(); P base = withRef ? P{o.x - m.ref.x, o.y - m.ref.y} : o;
  auto in = [&](double x, double y) { return Point(base.x + u * x, base.y + u * y); }; auto want = [&](double x, double y) { return conv({o.x + u * x, o.y + u * y}, A, B); }; c.note(pl.name, " ", A, " -> ", B, " kind ", kind, " variant ", variant, withRef ? " with reference" : ""); bool prev = variant & 1;
  auto line = [&](int k) { LineString l; l.addPoint(in(k, 0)); l.addPoint(in(k + 1, 1.5)); if (k % 2) l.addPoint(in(k + 2, 1)); return l; }; auto lineAt = [&](const LineString& l, int k, const char* key) { c.eq(l.size(), (size_t)(k % 2 ? 3 : 2), key); at(c, l.getGeometry(0), want(k, 0), B, key); at(c, l.getGeometry(1), want(k + 1, 1.5), B, key); if (k % 2) at(c, l.getGeometry(2), want(k + 2, 1), B, key); };
  auto swath = [&](int k) { Swath s(line(k), 0.5 + k, 7 - 3 * k, k % 3 == 1 ? SwathType::HEADLAND : SwathType::MAINLAND); if (k % 2) s.setCreationDir(false); return s; };
  auto sameAttr = [&](const Swath& s, const Swath& w) { c.eq(s.getId(), w.getId(), "swath-id"); c.eq(s.getWidth(), w.getWidth(), "swath-width"); c.check(s.getType() == w.getType(), "swath-type"); c.eq(s.getCreationDir(), w.getCreationDir(), "swath-direction"); c.eq(s.numPoints(), w.numPoints(), "swath-points"); };
  auto swathAt = [&](const Swath& s, int k) { sameAttr(s, swath(k)); lineAt(s.getPath(), k, "swath-position"); };
  auto backTo = [&](const LineString& l, const LineString& w, const char* key) { double t = tol(A) * 2; c.eq(l.size(), w.size(), key); for (size_t i = 0; i < l.size(); ++i) c.check(std::fabs(l.getGeometry(i).getX() - w.getGeometry(i).getX() - (withRef ? m.ref.x : 0)) < t && std::fabs(l.getGeometry(i).getY() - w.getGeometry(i).getY() - (withRef ? m.ref.y : 0)) < t, key, "there and back"); };
  if (kind == 0) { Swath s = swath(variant), r = withRef ? (prev ? T::transformToPrevCRS(s, f) : T::transformSwathWithFieldRef(s, f, B)) : T::transformSwath(s, A, B); swathAt(r, variant); swathAt(r, variant); sameAttr(s, swath(variant)); c.check(s.getPath() == line(variant), "input-changed"); Swath back = T::transformSwath(r, B, A); sameAttr(back, swath(variant)); backTo(back.getPath(), line(variant), "swath-back"); }
  else if (kind == 1) { Swaths ss; int k = variant == 5 ? 7 : variant % 4; for (int i = 0; i < k; ++i) ss.push_back(swath(i + variant)); Swaths r = withRef ? (prev ? T::transformToPrevCRS(ss, f) : T::transformSwathsWithFieldRef(ss, f, B)) : T::transformSwaths(ss, A, B); c.eq(r.size(), ss.size(), "swaths"); for (int i = 0; i < k; ++i) { swathAt(r[i], i + variant); sameAttr(ss[i], swath(i + variant)); c.check(ss[i].getPath() == line(i + variant), "input-changed"); } }
  else if (kind == 2) { c.require(!withRef); F2CStrips st; int k = variant % 3 == 2 ? 6 : 1 + variant % 3; for (int i = 0; i < k; ++i) { Strip s; s.setName(mc::str("crop", i)); Cell cell(LinearRing({in(i, 0), in(i + 1, 0), in(i, 1), in(i, 0)})); if (i == 1) cell.addRing(LinearRing({in(i + .1, .1), in(i + .2, .1), in(i + .1, .2), in(i + .1, .1)})); s.setCell(cell); st.push_back(s); } F2CStrips r; if (variant > 2) { Field g; g.setCRS(A); g.setPrevCRS(B); r = T::transformToPrevCRS(st, g); Strip one = T::transformToPrevCRS(st[0], g); c.eq(one.getName(), std::string("crop0"), "strip"); at(c, one.getCell().getExteriorRing().getGeometry(1), want(1, 0), B, "strip"); } else { r = T::transformStrips(st, A, B); Strip one = T::transformStrip(st[k - 1], A, B); c.eq(one.getName(), mc::str("crop", k - 1), "strip"); at(c, one.getCell().getExteriorRing().getGeometry(1), want(k, 0), B, "strip"); } c.eq(r.size(), st.size(), "strip"); for (int i = 0; i < k; ++i) { c.eq(r[i].getName(), mc::str("crop", i), "strip-name"); Cell q = r[i].getCell(); c.eq(q.size(), (size_t)(i == 1 ? 2 : 1), "strip"); LinearRing e = q.getGeometry(0); at(c, e.getGeometry(0), want(i, 0), B, "strip"); at(c, e.getGeometry(1), want(i + 1, 0), B, "strip"); at(c, e.getGeometry(2), want(i, 1), B, "strip"); if (i == 1) at(c, q.getGeometry(1).getGeometry(1), want(i + .2, .1), B, "strip"); c.check(std::fabs(st[i].getCell().getExteriorRing().getGeometry(1).getX() - in(i + 1, 0).getX()) < 1e-9, "input-changed"); } }
  else if (kind == 3) {   // chains of straight pieces driven either way
    static const std::vector<std::vector<std::array<double, 2>>> C{{}, {{0, 0}, {1, 0}}, {{0, 0}, {1, 0}, {1, 1}}, {{0, 0}, {1, .5}, {.5, .5}, {.5, -1}}, {{0, 0}, {2, 1}, {2, 1}, {3, 0}, {3, 2}, {4, 2}, {4, 0}, {5, 1}}, {{1, 1}, {0, 0}}}; auto& ch = C[variant]; int dirs = c.choose(4); bool tail = c.flag(); Path p; for (size_t i = 0; i + 1 < ch.size(); ++i) { PathState s; s.dir = (dirs >> (i % 2)) & 1 ? PathDirection::BACKWARD : PathDirection::FORWARD; s.type = (PathSectionType)(1 + i % 3); s.velocity = 0.5 + i; s.point = in(ch[i][0], ch[i][1]); double dx = ch[i + 1][0] - ch[i][0], dy = ch[i + 1][1] - ch[i][1]; s.len = u * std::hypot(dx, dy); s.angle = std::atan2(dy, dx); if (s.angle < 0) s.angle += 2 * M_PI; if (s.dir == PathDirection::BACKWARD) s.angle = std::fmod(s.angle + M_PI, 2 * M_PI); if (dx == 0 && dy == 0) s.angle = 1.25; p.addState(s); } if (tail && ch.size() > 1) { PathState s = p.back(); s.point = in(ch.back()[0], ch.back()[1]); s.len = 0; p.addState(s); } if (ch.empty() && tail) c.require(false); Path p0 = p;
    Path r = withRef ? (prev ? T::transformToPrevCRS(p, f) : T::transformPathWithFieldRef(p, f, B)) : T::transformPath(p, A, B); bool ends = withRef && !tail && p.size() > 0; c.eq(r.size(), p.size() + ends, "path-size"); for (size_t i = 0; i < p.size(); ++i) { at(c, r[i].point, want(ch[i][0], ch[i][1]), B, "path-position"); c.check(r[i].dir == p0[i].dir && r[i].type == p0[i].type && r[i].velocity == p0[i].velocity, "path-attributes"); if (!withRef) c.check(r[i].len == p0[i].len && r[i].angle == p0[i].angle, "path-attributes"); c.check(p[i].point == p0[i].point && p[i].len == p0[i].len && p[i].angle == p0[i].angle, "input-changed"); } if (ends) { at(c, r.back().point, want(ch.back()[0], ch.back()[1]), B, "path-end"); c.check(r.back().len == 0 && r.back().dir == p0.back().dir && r.back().type == p0.back().type, "path-end"); }
    if (withRef && p.size() > 0) { for (size_t i = 0; i + 1 < r.size(); ++i) { Point e = r[i].atEnd(); double t = 1e-9 * (std::fabs(e.getX()) + std::fabs(e.getY())) + 1e-9; c.check(std::fabs(e.getX() - r[i + 1].point.getX()) < t && std::fabs(e.getY() - r[i + 1].point.getY()) < t, "path-broken", mc::str("piece ", i, " ends at ", e.getX(), ",", e.getY())); if (r[i].len > 0 && !geographic(A) && !geographic(B)) c.check(std::fabs(std::remainder(r[i].angle - p0[i].angle, 2 * M_PI)) < 0.2, "path-heading", mc::str("piece ", i, " heads ", r[i].angle, " was ", p0[i].angle)); if (p0.size() > i && p0[i].len == 0) c.check(r[i].angle == p0[i].angle, "path-heading", "standing still"); } }
    if (!withRef) { Path q = T::transformPath(r, B, A); for (size_t i = 0; i < p.size(); ++i) c.check(std::fabs(q[i].point.getX() - p0[i].point.getX()) < 2 * tol(A) && std::fabs(q[i].point.getY() - p0[i].point.getY()) < 2 * tol(A), "path-back"); }
  } else if (kind == 4) {
    c.require(withRef); Route r; int groups = variant % 3 == 2 ? 6 : variant % 3, conns = variant < 3 ? groups : groups + 1; for (int g = 0; g < std::max(groups, conns); ++g) { if (g < conns) { MultiPoint mp; for (int i = 0; i < (g == 4 ? 6 : (g + variant) % 3); ++i) mp.addPoint(in(g + i, -1 - i)); r.addConnection(mp); } if (g < groups) { Swaths ss; for (int i = 0; i <= (g == 3 ? 5 : (g + variant) % 2); ++i) ss.push_back(swath(g + i)); r.addSwaths(ss); } } Route r0 = r.clone(); Route t = prev ? T::transformToPrevCRS(r, f) : T::transformRouteWithFieldRef(r, f, B); c.check(t.sizeVectorSwaths() == r0.sizeVectorSwaths() && t.sizeConnections() == r0.sizeConnections(), "route-shape");
    for (size_t g = 0; g < t.sizeConnections(); ++g) { auto w = r0.getConnection(g), x = t.getConnection(g), y = r.getConnection(g); c.eq(x.size(), w.size(), "route-connection"); c.eq(y.size(), w.size(), "input-changed"); for (size_t i = 0; i < w.size(); ++i) { at(c, x.getGeometry(i), conv({w.getGeometry(i).getX() + m.ref.x, w.getGeometry(i).getY() + m.ref.y}, A, B), B, "route-connection"); c.check(y.getGeometry(i) == w.getGeometry(i), "input-changed"); } } for (size_t g = 0; g < t.sizeVectorSwaths(); ++g) { auto w = r0.getSwaths(g), x = t.getSwaths(g); c.eq(x.size(), w.size(), "route-swaths"); for (size_t i = 0; i < w.size(); ++i) { sameAttr(x[i], w[i]); for (size_t k = 0; k < w[i].numPoints(); ++k) at(c, x[i].getPoint(k), conv({w[i].getPoint(k).getX() + m.ref.x, w[i].getPoint(k).getY() + m.ref.y}, A, B), B, "route-swaths"); c.check(r.getSwaths(g)[i].getPath() == w[i].getPath(), "input-changed"); } }
  } else if (kind == 5) { Point p = in(variant, 1), q = p; Point r = withRef ? T::transform(p, f.getRefPoint(), A, B) : T::transform(p, A, B); at(c, r, want(variant, 1), B, "point"); c.check(p == q, "input-changed"); Point s = T::transform(r, B, A); c.check(std::fabs(s.getX() - q.getX() - (withRef ? m.ref.x : 0)) < 2 * tol(A), "point-back"); }
  else if (kind == 6) { LineString l = line(variant), l0 = l.clone(); LineString r = withRef ? T::transform(l, f.getRefPoint(), A, B) : T::transform(l, A, B); lineAt(r, variant, "line"); c.check(l == l0, "input-changed"); backTo(T::transform(r, B, A), l0, "line-back"); MultiPoint mp; for (int i = 0; i < variant; ++i) mp.addPoint(in(i, i * i)); if (withRef) { MultiPoint x = T::transformMultiPointWithFieldRef(mp, f, B); c.eq(x.size(), (size_t)variant, "points"); for (int i = 0; i < variant; ++i) { at(c, x.getGeometry(i), want(i, i * i), B, "points"); c.check(mp.getGeometry(i) == in(i, i * i), "input-changed"); } } }
  else { Cells k(Cell(LinearRing({in(0, 0), in(2, 0), in(0, 2), in(0, 0)}))); Cells k0 = k.clone(); Cells r = withRef ? T::transform(k, f.getRefPoint(), A, B) : T::transform(k, A, B); at(c, r.getCellBorder(0).getGeometry(1), want(2, 0), B, "cells"); at(c, r.getCellBorder(0).getGeometry(2), want(0, 2), B, "cells"); c.check(k == k0, "input-changed"); Cell one = T::transform(k.getGeometry(0), A, B); c.eq(one.getExteriorRing().size(), (size_t)4, "cells"); }
  c.check(f.getCRS() == A && f.getPrevCRS() == B && f.getRefPoint() == f0.getRefPoint() && f.getField() == f0.getField(), "field-changed"); c.nontrivial(c.trace()); c.outcome(mc::str(kind, variant, withRef));
}
static void setup() { CPLPushErrorHandler(CPLQuietErrorHandler); mc::add("histories", histories, 4); mc::add("objects", objects, 4); }
MC_MAIN
