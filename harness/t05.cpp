// T05: every small geometry of every kind, written as text and read back.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types;
struct V3 { double x, y, z; };
typedef std::vector<V3> L3; typedef std::vector<L3> P3; typedef std::vector<P3> M3;   // ring, polygon, polygons
static std::string show(const M3& m) { std::ostringstream o; o.precision(17); for (auto& p : m) { o << "{"; for (auto& r : p) { o << "("; for (auto& v : r) o << v.x << " " << v.y << " " << v.z << ","; o << ")"; } o << "}"; } return o.str(); }
static bool close(double a, double b) { return std::fabs(a - b) <= 6e-15 * std::max(std::fabs(a), std::fabs(b)) + 1.1e-15; }   // 15 digits
static void same(mc::Ctx& c, const M3& got, const M3& want, const char* key) {
  auto bad = [&] { c.fail(key, mc::str("got ", show(got), " wrote ", show(want))); }; if (got.size() != want.size()) bad(); for (size_t i = 0; i < got.size(); ++i) { if (got[i].size() != want[i].size()) bad(); for (size_t j = 0; j < got[i].size(); ++j) { if (got[i][j].size() != want[i][j].size()) bad(); for (size_t k = 0; k < got[i][j].size(); ++k) { auto &a = got[i][j][k], &b = want[i][j][k]; if (!close(a.x, b.x) || !close(a.y, b.y) || !close(a.z, b.z)) bad(); } } } c.step();
}
// -- one way to read and build every kind
static V3 rd(const Point& p) { return {p.getX(), p.getY(), p.getZ()}; }
template <class T> static L3 pts(const T& g) { L3 r; for (size_t i = 0; i < g.size(); ++i) r.push_back(rd(g.getGeometry(i))); return r; }
static M3 read(const Point& g) { return {{{rd(g)}}}; }
static M3 read(const LineString& g) { return {{pts(g)}}; }
static M3 read(const LinearRing& g) { return {{pts(g)}}; }
static M3 read(const MultiPoint& g) { return {{pts(g)}}; }
static M3 read(const MultiLineString& g) { P3 p; for (size_t i = 0; i < g.size(); ++i) p.push_back(pts(g.getGeometry(i))); return {p}; }
static M3 read(const Cell& g) { P3 p; for (size_t i = 0; i < g.size(); ++i) p.push_back(pts(g.getGeometry(i))); return {p}; }
static M3 read(const Cells& g) { M3 m; for (size_t i = 0; i < g.size(); ++i) m.push_back(read(g.getGeometry(i))[0]); return m; }
template <class T> static T pointsOf(const L3& l) { T g; for (auto& v : l) g.addPoint(v.x, v.y, v.z); return g; }
template <class T> static T build(const M3& m);
template <> Point build<Point>(const M3& m) { auto& v = m[0][0][0]; return Point(v.x, v.y, v.z); }
template <> LineString build<LineString>(const M3& m) { return pointsOf<LineString>(m[0][0]); }
template <> LinearRing build<LinearRing>(const M3& m) { return pointsOf<LinearRing>(m[0][0]); }
template <> MultiPoint build<MultiPoint>(const M3& m) { return pointsOf<MultiPoint>(m[0][0]); }
template <> MultiLineString build<MultiLineString>(const M3& m) { MultiLineString g; for (auto& l : m[0]) g.addGeometry(pointsOf<LineString>(l)); return g; }
template <> Cell build<Cell>(const M3& m) { Cell g; for (auto& l : m[0]) g.addRing(pointsOf<LinearRing>(l)); return g; }
template <> Cells build<Cells>(const M3& m) { Cells g; for (auto& p : m) g.addGeometry(build<Cell>({p})); return g; }
// -- readers of the written forms
static std::vector<double> numbers(const std::string& s) { std::vector<double> r; const char* p = s.c_str(); while (*p) { if (isdigit(*p) || ((*p == '-' || *p == '.') && (isdigit(p[1]) || p[1] == '.'))) { char* e; r.push_back(strtod(p, &e)); p = e; } else ++p; } return r; }
static L3 tuples(mc::Ctx& c, const std::string& block, char inner, char outer, const char* key) { L3 r; std::stringstream s(block); std::string t; while (std::getline(s, t, outer)) { if (t.find_first_of("0123456789") == std::string::npos) continue; for (auto& ch : t) if (ch == inner) ch = ' '; auto n = numbers(t); if (n.size() < 2 || n.size() > 3) c.fail(key, "a position of " + std::to_string(n.size()) + " numbers: " + t); r.push_back({n[0], n[1], n.size() > 2 ? n[2] : 0}); } return r; }
static size_t occurs(const std::string& s, const std::string& w) { size_t n = 0; for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + 1)) ++n; return n; }
static M3 fromXml(mc::Ctx& c, const std::string& s, const char* tag, const char* poly, const char* outer, const char* key) {   // blocks of positions, a polygon begins at its outer ring
  M3 m; P3 flat; std::string open = mc::str("<", tag, ">"), close_ = mc::str("</", tag, ">"); size_t p = 0, at; (void)poly; while ((at = s.find(open, p)) != std::string::npos) { size_t e = s.find(close_, at); if (e == std::string::npos) c.fail(key, "unclosed: " + s); bool starts = s.substr(p, at - p).find(outer) != std::string::npos; L3 l = tuples(c, s.substr(at + open.size(), e - at - open.size()), ',', ' ', key); if (starts || m.empty()) m.push_back({}); m.back().push_back(l); p = e; } return m;
}
static M3 fromJson(mc::Ctx& c, const std::string& s, int depth, const char* key) {   // depth of the arrays around a position
  size_t at = s.find("\"coordinates\""); if (at == std::string::npos) c.fail(key, s); std::string body = s.substr(s.find('[', at)); M3 m; P3 p; L3 l; int d = 0; std::string num; std::vector<double> n; bool any = false; for (char ch : body) { if (ch == '[') { ++d; n.clear(); num.clear(); continue; } if (ch == ',' || ch == ']') { if (!num.empty()) n.push_back(strtod(num.c_str(), nullptr)); num.clear(); if (ch == ']') { if (d == depth + 1 && !n.empty()) { l.push_back({n[0], n.size() > 1 ? n[1] : 0, n.size() > 2 ? n[2] : 0}); n.clear(); any = true; } if (d == depth && depth > 0) { p.push_back(l); l.clear(); } if (d == depth - 1 && depth > 1) { m.push_back(p); p.clear(); } --d; if (d == 0) break; } continue; } if (!isspace(ch)) num += ch; } (void)any; if (depth == 0) return {{l}}; if (depth == 1) return {p}; if (depth == 2) return m; return m;
}
template <class T> struct K;
template <> struct K<Point> { static constexpr int depth = 0; static constexpr const char* wkt = "POINT"; static constexpr const char* xml = "Point"; };
template <> struct K<LineString> { static constexpr int depth = 1; static constexpr const char* wkt = "LINESTRING"; static constexpr const char* xml = "LineString"; };
template <> struct K<LinearRing> { static constexpr int depth = 1; static constexpr const char* wkt = "LINEARRING"; static constexpr const char* xml = "LinearRing"; };
template <> struct K<MultiPoint> { static constexpr int depth = 1; static constexpr const char* wkt = "MULTIPOINT"; static constexpr const char* xml = "Point"; };
template <> struct K<MultiLineString> { static constexpr int depth = 2; static constexpr const char* wkt = "MULTILINESTRING"; static constexpr const char* xml = "LineString"; };
template <> struct K<Cell> { static constexpr int depth = 2; static constexpr const char* wkt = "POLYGON"; static constexpr const char* xml = "Polygon"; };
template <> struct K<Cells> { static constexpr int depth = 3; static constexpr const char* wkt = "MULTIPOLYGON"; static constexpr const char* xml = "Polygon"; };
static M3 joined(const M3& m) { L3 l; for (auto& p : m) for (auto& r : p) for (auto& v : r) l.push_back(v); return {{l}}; }
template <class T> static void forms(mc::Ctx& c, const M3& m, const M3& old, bool geographic) {
  T g = build<T>(m); std::string w = g.exportToWkt(); same(c, read(g), m, "unchanged"); c.note(w.substr(0, 400)); c.check(w.rfind(K<T>::wkt, 0) == 0, "wkt-kind", w);
  { T a; a.importFromWkt(w); same(c, read(a), m, "wkt"); { T e; e.importFromWkt(a.exportToWkt()); same(c, read(e), read(a), "wkt-again"); } T b = build<T>(old); b.importFromWkt(w); same(c, read(b), m, "wkt-replaces"); T d = g.clone(); d.importFromWkt(build<T>(old).exportToWkt()); same(c, read(d), old, "wkt-replaces"); same(c, read(g), m, "wkt-shared"); }
  std::string x = g.exportToGML(); M3 want = m; if (std::is_same_v<T, MultiPoint>) { want = joined(m); } M3 gx = fromXml(c, x, "gml:coordinates", "", "<gml:outerBoundaryIs", "gml"); if (std::is_same_v<T, MultiPoint>) gx = joined(gx); same(c, gx, want, "gml"); c.eq(occurs(x, std::string("<gml:") + K<T>::xml + ">"), std::is_same_v<T, MultiPoint> ? m[0][0].size() : std::is_same_v<T, MultiLineString> ? m[0].size() : m.size(), "gml-members"); if (K<T>::xml == std::string("Polygon")) { size_t in = 0; for (auto& p : m) in += p.size() - 1; c.eq(occurs(x, "<gml:innerBoundaryIs>"), in, "gml-holes"); }
  if (geographic) { std::string k = g.exportToKML(); M3 kx = fromXml(c, k, "coordinates", "", "<outerBoundaryIs", "kml"); if (std::is_same_v<T, MultiPoint>) kx = joined(kx); same(c, kx, want, "kml"); }
  if constexpr (!std::is_same_v<T, LinearRing>) { M3 j = fromJson(c, g.exportToJson(), K<T>::depth, "json"); M3 wj = m; same(c, j, wj, "json"); std::string js = g.exportToJson(); c.check(js.find(std::is_same_v<T, Point> ? "\"Point\"" : std::is_same_v<T, LineString> ? "\"LineString\"" : std::is_same_v<T, MultiPoint> ? "\"MultiPoint\"" : std::is_same_v<T, MultiLineString> ? "\"MultiLineString\"" : std::is_same_v<T, Cell> ? "\"Polygon\"" : "\"MultiPolygon\"") != std::string::npos, "json-kind", js.substr(0, 80)); }
  same(c, read(g), m, "unchanged"); c.nontrivial(w);
}
template <class F> static void kinds(mc::Ctx& c, int kind, F f) { switch (kind) { case 0: f(Point()); break; case 1: f(LineString()); break; case 2: f(LinearRing()); break; case 3: f(MultiPoint()); break; case 4: f(MultiLineString()); break; case 5: f(Cell()); break; default: f(Cells()); } }
static L3 ringOf(int n, double s, double dx, double z, bool shut) { L3 r; for (int i = 0; i < n; ++i) { double a = 2 * M_PI * i / n; r.push_back({dx + s * std::cos(a), s * std::sin(a), z * i}); } if (shut) r.push_back(r[0]); return r; }
// the values: every number in every place
static const std::vector<double> NUM{0, 1, -0.5, 1e-7, 5.52316664, 123456.789012345, -7.25e8, 1.0 / 3, 0.1 + 0.2, 1e15, -1e-15, 89.999999999};
static void values(mc::Ctx& c) {
  int kind = c.choose(7); double x = c.pick(NUM), y = c.pick(NUM), z = c.choose(2) ? c.pick(NUM) : 0; bool geo = std::fabs(x) <= 180 && std::fabs(y) <= 90 && std::fabs(x + 2) <= 180; V3 v{x, y, z}, a{x + 1, 3, 0}, b{x + 1, -5, z}; L3 l{v, a, b}; if (kind == 2 || kind >= 5) l.push_back(v); M3 m; if (kind == 0) m = {{{v}}}; else if (kind < 4) m = {{l}}; else if (kind == 4) m = {{l, {a, v}}}; else if (kind == 5) m = {{l, ringOf(3, 0.1, 2, 1, true)}}; else m = {{l}, {ringOf(4, 1, 9, 0, true), ringOf(3, 0.25, 9, 2, true)}}; if (kind == 0 || kind == 1) c.state(mc::str(x, y, z));
  static const V3 o{9, 8, 7}; L3 ol{o, {1, 2, 3}, {4, 5, 6}, o}; M3 old = kind == 0 ? M3{{{o}}} : kind == 4 || kind == 5 ? M3{{ol, ol}} : kind == 6 ? M3{{ol}, {ol, ol}, {ol}} : M3{{ol}}; kinds(c, kind, [&](auto t) { forms<decltype(t)>(c, m, old, geo); }); c.outcome(mc::str(kind, geo));
}
// the structure: counts of points, rings and parts, with and without heights
static void structure(mc::Ctx& c) {
  int kind = 1 + c.choose(6); std::vector<int> N = c.thorough() ? std::vector<int>{3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 129, 1000} : std::vector<int>{3, 4, 8, 17, 65, 300}; int n = c.pick(N); double z = c.pick(std::vector<double>{0, 0.25}); int parts = kind >= 4 ? 1 + c.choose(c.tier(5, 9)) : 1, holes = kind == 6 ? c.choose(3) : 0; bool shut = kind == 2 || kind >= 5; auto shape = [&](int nn, int pp, double zz) { M3 m; if (kind < 4) m = {{ringOf(nn, 3, 1, zz, shut)}}; else if (kind < 6) { P3 p; for (int i = 0; i < pp; ++i) p.push_back(ringOf(i ? 3 + i % 4 : nn, i ? 0.1 : 3, i ? 0.3 * i : 0, zz, shut)); m = {p}; } else for (int i = 0; i < pp; ++i) { P3 p{ringOf(i % 2 ? 5 : nn, 3, 8 * i, zz, true)}; for (int h = 0; h < (holes + i) % 3; ++h) p.push_back(ringOf(3 + h, 0.2, 8 * i + h, i % 2 ? zz : 0, true)); m.push_back(p); } return m; };
  M3 m = shape(n, parts, z), old = shape(c.pick(N), 1 + c.choose(kind >= 4 ? 2 : 1) * 2, 0.25 - z); kinds(c, kind, [&](auto t) { forms<decltype(t)>(c, m, old, true); }); c.outcome(mc::str(kind, parts, holes)); c.state(c.trace());
}
// text of other kinds or cut short: nothing but the text may end up in the geometry, and what is refused does not spoil the next reading
static void strange(mc::Ctx& c) {
  static const std::vector<std::string> T{"", "POINT", "POINT (1", "POINT (1 2", "LINESTRING (1 2,3", "POLYGON ((0 0,1 0,1 1", "MULTIPOLYGON (((0 0,1 0,1 1,0 0)),((", "POINT (a b)", "CIRCLE (1 2)", "POINT EMPTY", "LINESTRING EMPTY", "POLYGON EMPTY", "MULTIPOLYGON EMPTY", "MULTIPOINT EMPTY", "LINESTRING (1 2,3 4)", "MULTIPOINT (1 2,3 4)", "POINT Z (1 2 3)", "POINT M (1 2 3)", "POLYGON ((0 0 1,1 0 2,1 1 3,0 0 1))", "GEOMETRYCOLLECTION (POINT (1 2))", "  POINT  ( 1   2 ) ", "POINT (1 2) trailing", "((((((((((", "POINT (1e400 2)", "POINT (nan 1)", "MULTILINESTRING ((1 2,3 4),(5 6,7 8))"};
  int kind = c.choose(7), k1 = c.choose(T.size()), k2 = c.choose(T.size()); std::string a = T[k1], b = T[k2]; c.note("kind ", kind, " '", a, "' then '", b, "'"); kinds(c, kind, [&](auto t) { typedef decltype(t) G; G g; g.importFromWkt(a); (void)g.exportToWkt(); (void)g.isEmpty(); g.importFromWkt(b); (void)g.exportToWkt(); M3 m{{{{5, 6, 0}}}}; if (kind > 0) m[0][0] = {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 0, 0}}; G w = build<G>(m); g.importFromWkt(w.exportToWkt()); M3 got = read(g); for (auto& p : got) for (auto& r : p) for (auto& v : r) if (v.z == 0) v.z = 0; same(c, got, m, "after-refusal"); }); c.nontrivial(c.trace()); c.state(c.trace());
}
static void setup() { mc::add("values", values, 3); mc::add("structure", structure, 3); mc::add("strange", strange, 2); }
MC_MAIN
