// E01: the one-call planner over the product of fields, robots and options, against the stages called one by one.
#include "geo.h"
#include <array>
#include <iomanip>
#include <memory>
#include <ogr_spatialref.h>
#include "ortools/constraint_solver/routing.h"
using namespace geo; using namespace f2c::types; using f2c::Options;
struct Shape { const char* name; MPoly m; bool box; };
static const std::vector<Shape>& shapes() { static const std::vector<Shape> v{{"box", {{{{0, 0}, {36, 0}, {36, 26}, {0, 26}}}}, true}, {"corner", {{{{0, 0}, {44, 0}, {44, 19}, {23, 19}, {23, 40}, {0, 40}}}}, false}, {"hole", {{{{0, 0}, {48, 0}, {48, 44}, {0, 44}}, {{20.7, 20.3}, {20.7, 25.1}, {26.9, 25.1}, {26.9, 20.3}}}}, false}, {"two", {{{{0, 0}, {22, 0}, {22, 30}, {0, 30}}}, {{{30, 0}, {62, 0}, {62, 18}, {30, 18}}}}, false}, {"slanted", {{{{0, 0}, {50, 5}, {31, 38}, {-4, 21}}}}, false}, {"far", {{{{500000, 5700000}, {500040, 5700000}, {500040, 5700022}, {500000, 5700022}}}}, true}, {"strip", {{{{0, 0}, {40, 0}, {40, 5}, {0, 5}}}}, true}}; return v; }
static Robot robotOf(int k) { static const double W[4][2] = {{2, 9.1}, {2, 7.3}, {1.5, 12.3}, {4.9, 0}}; Robot r = W[k][1] > 0 ? Robot(W[k][0], W[k][1]) : Robot(W[k][0]); r.setName(mc::str("robot", k)); r.setMinTurningRadius(1 + 0.5 * k); r.setCruiseVel(1.5 + k); return r; }
static std::string show(const Robot& r) { return mc::str(std::setprecision(17), r.getName(), r.getWidth(), "/", r.getCovWidth(), "/", r.getCruiseVel(), "/", r.getTurnVel(), "/", r.getMaxCurv(), "/", r.getMaxDiffCurv()); }
static std::string show(const Swath& s, bool dir = true) { std::string o = mc::str(std::setprecision(17), s.getId(), " w", s.getWidth(), " t", (int)s.getType()); LineString l = s.getPath().clone(); std::vector<std::string> p; for (size_t i = 0; i < l.size(); ++i) p.push_back(mc::str(std::setprecision(17), l.getGeometry(i).getX(), ",", l.getGeometry(i).getY())); if (!dir && p.back() < p.front()) std::reverse(p.begin(), p.end()); for (auto& q : p) o += " " + q; return o; }
static std::string show(const Route& r) { std::string o; for (size_t g = 0; g < std::max(r.sizeConnections(), r.sizeVectorSwaths()); ++g) { if (g < r.sizeConnections()) { o += "|"; for (size_t i = 0; i < r.getConnection(g).size(); ++i) o += mc::str(std::setprecision(17), r.getConnection(g).getGeometry(i).getX(), ",", r.getConnection(g).getGeometry(i).getY(), " "); } if (g < r.sizeVectorSwaths()) for (size_t i = 0; i < r.getSwaths(g).size(); ++i) o += "[" + show(r.getSwaths(g)[i]) + "]"; } return o; }
static std::string show(const Path& p) { std::string o; for (size_t i = 0; i < p.size(); ++i) o += mc::str(std::setprecision(17), p[i].point.getX(), ",", p[i].point.getY(), ",", p[i].angle, ",", p[i].velocity, ",", p[i].len, ",", (int)p[i].dir, (int)p[i].type, ";"); return o; }
static int& mode() { static int m = 0; return m; }
static void solver() { f2c_stub::tour_hook() = [](int n, int depot, const f2c_stub::Arc& arc) { const int64_t INF = 1e15; std::vector<std::array<int, 3>> s; for (int m = 0; m < n; ++m) if (m != depot && arc(m, depot) >= INF) { std::array<int, 3> t{-1, m, -1}; for (int v = 0; v < n; ++v) if (v != m && v != depot && arc(v, m) < INF) (t[0] < 0 ? t[0] : t[2]) = v; s.push_back(t); } std::vector<int> out; if (mode() == 2) std::reverse(s.begin(), s.end()); int last = depot; while (!s.empty()) { size_t b = 0; bool rev = mode() == 2; if (mode() == 0) { int64_t best = INT64_MAX; for (size_t i = 0; i < s.size(); ++i) for (int r = 0; r < 2; ++r) { int64_t k = arc(last, s[i][r ? 2 : 0]); if (k < best) { best = k; b = i; rev = r; } } } auto t = s[b]; s.erase(s.begin() + b); if (rev) std::swap(t[0], t[2]); for (int v : t) out.push_back(v); last = out.back(); } return out; }; }
static std::unique_ptr<f2c::obj::SGObjective> objective(f2c::SGObjFunc k) { if (k == f2c::SGObjFunc::N_SWATH_MOD) return std::make_unique<f2c::obj::NSwathModified>(); if (k == f2c::SGObjFunc::N_SWATH) return std::make_unique<f2c::obj::NSwath>(); if (k == f2c::SGObjFunc::SWATH_LENGTH) return std::make_unique<f2c::obj::SwathLength>(); if (k == f2c::SGObjFunc::FIELD_COV) return std::make_unique<f2c::obj::FieldCoverage>(); return std::make_unique<f2c::obj::Overlaps>(); }
static std::unique_ptr<f2c::pp::TurningBase> turner(f2c::PPAlg k) { if (k == f2c::PPAlg::DUBINS) return std::make_unique<f2c::pp::DubinsCurves>(); if (k == f2c::PPAlg::DUBINS_CC) return std::make_unique<f2c::pp::DubinsCurvesCC>(); if (k == f2c::PPAlg::REEDS_SHEPP) return std::make_unique<f2c::pp::ReedsSheppCurves>(); return std::make_unique<f2c::pp::ReedsSheppCurvesHC>(); }
// the stages called one by one
static SwathsByCells swathsOf(const Cells& cells, const Robot& r, const Options& o, Cells& rings) {
  Cells main = cells; rings = cells; if (o.hg_alg == f2c::HGAlg::CONST && o.hg_swaths > 0) { f2c::hg::ConstHL hl; main = hl.generateHeadlandArea(cells, r.getWidth(), o.hg_swaths); rings = hl.generateHeadlandSwaths(cells, r.getWidth(), o.hg_swaths)[o.hg_swaths / 2]; } f2c::sg::BruteForce bf; SwathsByCells s; if (o.sg_alg == f2c::SGAlg::GIVEN_ANGLE) s = bf.generateSwaths(o.sg_angle, r.getCovWidth(), main); else { auto obj = objective(o.sg_obj); s = bf.generateBestSwaths(*obj, r.getCovWidth(), main); } return s; }
static std::string told(const Options& o) { return mc::str("hg ", (int)o.hg_alg, " ", o.hg_swaths, " sg ", (int)o.sg_alg, " ", (int)o.sg_obj, " ", o.sg_angle, " pp ", (int)o.pp_alg); }
struct Ref { std::vector<std::string> keys; std::vector<Swath> swaths; Cells rings; SwathsByCells by; };
static const Ref& refOf(const Shape& s, int robot, const Options& o) { static std::map<std::string, Ref> m; Options k = o; k.pp_alg = f2c::PPAlg::DUBINS; if (k.sg_alg == f2c::SGAlg::GIVEN_ANGLE) k.sg_obj = f2c::SGObjFunc::N_SWATH; auto id = mc::str(s.name, robot, told(k)); auto it = m.find(id); if (it != m.end()) return it->second; Ref r; Cells c = toCells(s.m); r.by = swathsOf(c, robotOf(robot), o, r.rings); for (size_t i = 0; i < r.by.size(); ++i) for (size_t j = 0; j < r.by[i].size(); ++j) { r.swaths.push_back(r.by[i][j]); r.keys.push_back(show(r.by[i][j], false)); } std::sort(r.keys.begin(), r.keys.end()); return m[id] = r; }
static void judge(mc::Ctx& c, const Route& r, const Shape& s, int robot, const Options& o) {
  auto& ref = refOf(s, robot, o); std::vector<std::string> got; double cov = robotOf(robot).getCovWidth(), room = o.hg_alg == f2c::HGAlg::CONST ? o.hg_swaths * robotOf(robot).getWidth() : 0; std::vector<std::pair<P, P>> lines;
  for (size_t g = 0; g < r.sizeVectorSwaths(); ++g) for (size_t i = 0; i < r.getSwaths(g).size(); ++i) { const Swath& w = r.getSwaths(g)[i]; got.push_back(show(w, false)); c.eq(w.getWidth(), cov, "coverage-width"); P a{w.startPoint().getX(), w.startPoint().getY()}, b{w.endPoint().getX(), w.endPoint().getY()}; lines.push_back({a, b}); for (int k = 0; k <= 8; ++k) { P p = a + (b - a) * (k / 8.0); if (where(p, s.m, 1e-6) < 0 || borderDist(p, s.m) < room - 1e-6) c.fail("outside-mainland", mc::str(p.x, ",", p.y)); c.step(); } }
  std::sort(got.begin(), got.end()); if (got != ref.keys) { std::string first; for (auto& k : got) if (!std::binary_search(ref.keys.begin(), ref.keys.end(), k)) { first = k; break; } c.fail("swaths", mc::str(got.size(), " swaths instead of ", ref.keys.size(), " ", first)); }
  double turn = std::fmod(std::fabs(o.sg_angle), M_PI / 2); if (s.box && o.sg_alg == f2c::SGAlg::GIVEN_ANGLE && std::min(turn, M_PI / 2 - turn) < 1e-9) { auto& q = s.m[0][0]; double w = q[2].x - q[0].x - 2 * room, h = q[2].y - q[0].y - 2 * room; if (std::min(w, h) > cov / 2 + 1e-6) for (double x = 0.01; x < w; x += 0.77) for (double y = 0.01; y < h; y += 0.77) { P p = q[0] + P{room + x, room + y}; double d = 1e300; for (auto& l : lines) d = std::min(d, segDist(p, l.first, l.second)); if (!(d <= cov + 1e-6)) c.fail("uncovered", mc::str(x, ",", y)); c.step(); } if (w <= 0 || h <= 0) c.check(lines.empty(), "swaths-without-mainland"); }
}
static Options optionsOf(mc::Ctx& c, bool brute) { Options o; int h = c.choose(4); o.hg_alg = h == 0 ? f2c::HGAlg::NONE : f2c::HGAlg::CONST; o.hg_swaths = h == 0 ? 2 : h; if (brute) { o.sg_alg = f2c::SGAlg::BRUTE_FORCE; o.sg_obj = (f2c::SGObjFunc)c.choose(5); o.sg_angle = 0.3; } else { o.sg_alg = f2c::SGAlg::GIVEN_ANGLE; o.sg_angle = c.pick(std::vector<double>{0, M_PI / 2, 0.4, 2.2, -1, 7}); o.sg_obj = (f2c::SGObjFunc)(h % 5); } return o; }
static void run(mc::Ctx& c, bool brute) {
  auto& s = c.pick(shapes()); int robot = c.choose(4); Options o = optionsOf(c, brute); if (brute && !c.thorough()) c.require((robot == 0 || robot == 3) && o.hg_swaths != 1 && (&s - &shapes()[0] < 5)); mode() = brute ? 0 : c.choose(3); if (!brute && !c.thorough()) c.require(robot == 0 || (mode() == 0 && (o.sg_angle == 0 || o.sg_angle == 2.2))); solver(); Robot r = robotOf(robot); std::string rs = show(r); Cells cells = toCells(s.m), kept = cells.clone(); c.note(s.name, " ", rs, " ", told(o), " answer ", mode());
  Route route = f2c::planCovRoute(r, cells, o); judge(c, route, s, robot, o); std::string rk = show(route);
  // the joins are those of the route planner on the middle headland ring
  auto& ref = refOf(s, robot, o); if (mode() == 0) { f2c::rp::RoutePlannerBase rp; Route want = rp.genRoute(ref.rings, ref.by); if (show(want) != rk) c.fail("route", "differs from the stages one by one"); }
  if (s.m.size() == 1 && robot == 0 && mode() != 1) { Cell one = cells.getGeometry(0); if (show(f2c::planCovRoute(r, one, o)) != rk) c.fail("overload", "single cell"); }
  bool turns = brute ? robot == 0 : mode() == 0; if (turns && (!brute || o.hg_swaths == 2)) for (int k = 0; k < 4; ++k) { if (k != (int)c.trace().size() % 4 && !c.thorough()) continue; o.pp_alg = (f2c::PPAlg)k; auto t = turner(o.pp_alg); Path want = f2c::pp::PathPlanning::planPath(r, route, *t), got = f2c::planCovPath(r, cells, o); if (show(want) != show(got)) c.fail("path", mc::str("planner ", k)); if (s.m.size() == 1 && !brute && robot == 0) if (show(f2c::planCovPath(r, cells.getGeometry(0), o)) != show(want)) c.fail("overload", "path of a single cell"); c.step(); }
  if (show(r) != rs) c.fail("robot-changed", show(r)); c.check(cells == kept, "field-changed"); c.nontrivial(c.trace()); c.outcome(mc::str(s.name, ref.keys.size())); c.state(rk);
}
static void given(mc::Ctx& c) { run(c, false); }
static void brute(mc::Ctx& c) { run(c, true); }
static void planners(mc::Ctx& c) {   // every turn planner, also through fields
  auto& s = c.pick(shapes()); int k = c.choose(4), robot = c.choose(2); Options o; o.hg_swaths = 1 + c.choose(2); o.sg_alg = f2c::SGAlg::GIVEN_ANGLE; o.sg_angle = c.pick(std::vector<double>{0, 1.1}); o.pp_alg = (f2c::PPAlg)k; if (!c.thorough()) c.require(robot == k % 2 || (o.hg_swaths == 1 && o.sg_angle == 0 && s.box)); c.note(s.name, " robot ", robot, " ", told(o)); mode() = 0; solver(); Robot r = robotOf(robot); Cells cells = toCells(s.m); Route route = f2c::planCovRoute(r, cells, o); judge(c, route, s, robot, o); auto t = turner(o.pp_alg); std::string want = show(f2c::pp::PathPlanning::planPath(r, route, *t)); if (show(f2c::planCovPath(r, cells, o)) != want) c.fail("path", mc::str("planner ", k));
  Field f(cells); f.setId("mine"); f.setCRS("UTM:31N datum:WGS84"); std::string before = f.getCellsAbsPosition().exportToWkt() + show(f2c::planCovRoute(r, f.getField(), o)); Route inner = f2c::planCovRoute(r, f, o, true); if (show(inner) != show(f2c::planCovRoute(r, f.getField(), o)) || show(f2c::planCovRoute(r, f, o)) != show(inner)) c.fail("local-route", ""); if (show(f2c::planCovPath(r, f, o, true)) != show(f2c::planCovPath(r, f.getField(), o)) || show(f2c::planCovPath(r, f, o)) != show(f2c::planCovPath(r, f.getField(), o))) c.fail("local-path", ""); c.check(f.getCRS() == "UTM:31N datum:WGS84" && f.getPrevCRS().empty() && f.getId() == "mine" && f.getCellsAbsPosition().exportToWkt() + show(f2c::planCovRoute(r, f.getField(), o)) == before, "field-changed");
  if (k == 0 && robot == 0 && o.hg_swaths == 1 && o.sg_angle == 0 && s.box) { Options d; if (show(f2c::planCovRoute(r, f, true)) != show(f2c::planCovRoute(r, f.getField(), d)) || show(f2c::planCovRoute(r, cells)) != show(f2c::planCovRoute(r, cells, d))) c.fail("default-options", "route"); if (show(f2c::planCovPath(r, f, true)) != show(f2c::planCovPath(r, f.getField(), d))) c.fail("default-options", "path"); Route q = f2c::planCovRoute(r, cells); Options e; e.hg_alg = f2c::HGAlg::CONST; e.hg_swaths = 3; e.sg_alg = f2c::SGAlg::BRUTE_FORCE; e.sg_obj = f2c::SGObjFunc::N_SWATH_MOD; judge(c, q, s, robot, e); } c.nontrivial(c.trace()); c.outcome(mc::str(k)); c.step();
}
// -- fields with a coordinate system
static OGRSpatialReference* ref(int epsg) { static std::map<int, OGRSpatialReference*> m; auto& r = m[epsg]; if (!r) { r = new OGRSpatialReference(); r->importFromEPSG(epsg); r->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER); } return r; }
static P conv(P p, int a, int b) { static std::map<std::pair<int, int>, OGRCoordinateTransformation*> m; auto& t = m[{a, b}]; if (!t) t = OGRCreateCoordinateTransformation(ref(a), ref(b)); double x = p.x, y = p.y; if (!t->Transform(1, &x, &y)) throw std::runtime_error("oracle"); return {x, y}; }
static void systems(mc::Ctx& c) {
  struct Place { double x, y; int utm; const char* name; }; static const std::vector<Place> PL{{650000, 5800000, 32631, "UTM:31N datum:WGS84"}, {420000, 8490000, 32702, "UTM:2S datum:WGS84"}, {300000, 8300000, 32723, "UTM:23S datum:WGS84"}}; auto& pl = c.pick(PL); auto& s = shapes()[c.choose(5)]; int start = c.choose(3), robot = c.choose(2); Options o; int h = c.choose(3); o.hg_alg = h ? f2c::HGAlg::CONST : f2c::HGAlg::NONE; o.hg_swaths = h ? h : 3; o.sg_alg = f2c::SGAlg::GIVEN_ANGLE; o.sg_angle = c.pick(std::vector<double>{0.4, 2}); o.pp_alg = (f2c::PPAlg)((start + h) % 4); if (!c.thorough()) c.require((robot == (h + start) % 2) && ((o.sg_angle == 2) == (h == 1))); mode() = 0; solver(); Robot r = robotOf(robot); int epsg = start == 0 ? 4326 : start == 1 ? pl.utm : 3857; std::string crs = start == 1 ? pl.name : mc::str("EPSG:", epsg); c.note(pl.name, " from ", crs, " ", s.name, " ", told(o));
  MPoly m = s.m; for (auto& q : m) for (auto& g : q) for (auto& p : g) p = conv(P{pl.x, pl.y} + p, pl.utm, epsg); Cells cells = toCells(m); Field f(cells); f.setId("mine"); f.setCRS(crs); f.setPrevCRS("EPSG:28992"); Field f0 = f.clone(); Point ref0 = f.getRefPoint();
  Route got = f2c::planCovRoute(r, f, o, false); Path path = f2c::planCovPath(r, f, o, false); c.check(f.getCRS() == crs && f.getPrevCRS() == "EPSG:28992" && f.getId() == "mine" && f.getField() == f0.getField() && f.getRefPoint() == ref0, "field-changed");
  // the same plan in the frame of the field, moved point by point
  Field u = f.clone(); f2c::Transform::transformToUTM(u); Route in = f2c::planCovRoute(r, u.getField(), o); P rp{u.getRefPoint().getX(), u.getRefPoint().getY()}; double t = epsg == 4326 ? 1e-7 : 0.01; auto at = [&](const Point& a, const Point& b, const char* key) { P w = conv(rp + P{b.getX(), b.getY()}, pl.utm, epsg); if (!(std::fabs(a.getX() - w.x) <= t && std::fabs(a.getY() - w.y) <= t)) c.fail(key, mc::str(a.getX(), ",", a.getY(), " instead of ", w.x, ",", w.y)); c.step(); };
  c.eq(got.sizeConnections(), in.sizeConnections(), "moved-route"); c.eq(got.sizeVectorSwaths(), in.sizeVectorSwaths(), "moved-route"); size_t n = 0; for (size_t g = 0; g < in.sizeConnections(); ++g) { c.eq(got.getConnection(g).size(), in.getConnection(g).size(), "moved-route"); for (size_t i = 0; i < in.getConnection(g).size(); ++i) at(got.getConnection(g).getGeometry(i), in.getConnection(g).getGeometry(i), "moved-connection"); } for (size_t g = 0; g < in.sizeVectorSwaths(); ++g) { c.eq(got.getSwaths(g).size(), in.getSwaths(g).size(), "moved-route"); for (size_t i = 0; i < in.getSwaths(g).size(); ++i, ++n) { const Swath &a = got.getSwaths(g)[i], &b = in.getSwaths(g)[i]; c.check(a.getId() == b.getId() && a.getWidth() == b.getWidth() && a.getType() == b.getType() && a.getCreationDir() == b.getCreationDir() && a.numPoints() == b.numPoints(), "moved-attributes"); for (size_t k = 0; k < a.numPoints(); ++k) at(a.getPoint(k), b.getPoint(k), "moved-swath"); } } c.check(n > 1, "nothing-planned"); c.eq(n, refOf(s, robot, o).keys.size(), "swath-count");
  Path inp = f2c::planCovPath(r, u.getField(), o); c.check(path.size() >= inp.size() && path.size() <= inp.size() + 1, "moved-path"); for (size_t i = 0; i < inp.size(); i += 7) { at(path[i].point, inp[i].point, "moved-path"); c.check(path[i].dir == inp[i].dir && path[i].type == inp[i].type && path[i].velocity == inp[i].velocity, "moved-path"); }
  if (start == 1) { Route local = f2c::planCovRoute(r, f, o, true); size_t k = 0; for (size_t g = 0; g < local.sizeVectorSwaths(); ++g) for (size_t i = 0; i < local.getSwaths(g).size(); ++i, ++k) {} c.eq(k, n, "local-differs"); for (size_t g = 0; g < local.sizeVectorSwaths() && g < got.sizeVectorSwaths(); ++g) for (size_t i = 0; i < local.getSwaths(g).size() && i < got.getSwaths(g).size(); ++i) { Point a = got.getSwaths(g)[i].startPoint(), b = local.getSwaths(g)[i].startPoint(), e = local.getSwaths(g)[i].endPoint(); double d = std::min(std::hypot(a.getX() - b.getX() - ref0.getX(), a.getY() - b.getY() - ref0.getY()), std::hypot(a.getX() - e.getX() - ref0.getX(), a.getY() - e.getY() - ref0.getY())); bool some = d < 0.02; if (!some) for (size_t g2 = 0; g2 < local.sizeVectorSwaths(); ++g2) for (size_t j = 0; j < local.getSwaths(g2).size(); ++j) for (auto q : {local.getSwaths(g2)[j].startPoint(), local.getSwaths(g2)[j].endPoint()}) some = some || std::hypot(a.getX() - q.getX() - ref0.getX(), a.getY() - q.getY() - ref0.getY()) < 0.02; if (!some) c.fail("local-differs", mc::str(a.getX(), ",", a.getY())); } }
  c.nontrivial(c.trace()); c.outcome(mc::str(crs, n));
}
static void corners(mc::Ctx& c) {   // headlands that leave nothing, none asked for, and no field at all
  int kind = c.choose(5), robot = c.choose(4), pp = c.choose(4); bool given = c.flag(); c.require(given || kind > 0); Options o; o.pp_alg = (f2c::PPAlg)pp; if (given) { o.sg_alg = f2c::SGAlg::GIVEN_ANGLE; o.sg_angle = 0; } mode() = 0; solver(); Robot r = robotOf(robot); c.note("kind ", kind, " robot ", robot, " planner ", pp); auto& box = shapes()[0]; auto count = [](const Route& q) { size_t n = 0; for (size_t g = 0; g < q.sizeVectorSwaths(); ++g) n += q.getSwaths(g).size(); return n; };
  if (kind == 0) { o.hg_swaths = 0; Route q = f2c::planCovRoute(r, toCells(box.m), o); Options none = o; none.hg_alg = f2c::HGAlg::NONE; judge(c, q, box, robot, none); Path p = f2c::planCovPath(r, toCells(box.m), o); c.check(p.size() > 0, "no-path"); }
  else if (kind == 1) { o.hg_swaths = 30; c.eq(count(f2c::planCovRoute(r, toCells(box.m), o)), (size_t)0, "swaths-without-mainland"); c.eq(f2c::planCovPath(r, toCells(box.m), o).size(), (size_t)0, "path-without-mainland"); }
  else if (kind == 2) { c.eq(count(f2c::planCovRoute(r, Cells(), o)), (size_t)0, "swaths-from-nothing"); c.eq(f2c::planCovPath(r, Cells(), o).size(), (size_t)0, "path-from-nothing"); }
  else if (kind == 3) { Field f; c.eq(count(f2c::planCovRoute(r, f, o)), (size_t)0, "swaths-from-nothing"); c.eq(f2c::planCovPath(r, f, o).size(), (size_t)0, "path-from-nothing"); }
  else { MPoly m = box.m; for (auto& g : m[0]) for (auto& p : g) p = conv(P{650000, 5800000} + p, 32631, 4326); Field f(toCells(m)); f.setCRS("EPSG:4326"); o.hg_swaths = 30; c.eq(count(f2c::planCovRoute(r, f, o, false)), (size_t)0, "swaths-without-mainland"); c.eq(f2c::planCovPath(r, f, o, false).size(), (size_t)0, "path-without-mainland"); }
  c.step(); c.nontrivial(c.trace()); c.outcome(mc::str(kind));
}
static void setup() { CPLPushErrorHandler(CPLQuietErrorHandler); mc::add("given", given, 5); mc::add("brute", brute, 4); mc::add("planners", planners, 5); mc::add("systems", systems, 5); mc::add("corners", corners, 3); }
MC_MAIN
