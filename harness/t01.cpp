// T01: histories of edits on a value and its clone: the clone starts equal, and neither side sees the other's edits.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types;
struct D { std::string s; std::vector<double> v; std::string str() const { std::string r = s; char b[40]; for (double x : v) { snprintf(b, sizeof b, " %.17g", x); r += b; } return r; } };
static D& operator<<(D& d, const std::string& s) { d.s += s + "|"; return d; }
static D& operator<<(D& d, double x) { d.v.push_back(x); d.s += "#"; return d; }
static void dump(D& d, const Point& p) { d << p.X() << p.Y() << p.Z(); }
template <class G> void dumpPts(D& d, const G& g) { d << mc::str("n", g.size()); for (size_t i = 0; i < g.size(); ++i) dump(d, g.getGeometry(i)); }
static void dump(D& d, const LineString& g) { d << "L"; dumpPts(d, g); }
static void dump(D& d, const LinearRing& g) { d << "R"; dumpPts(d, g); }
static void dump(D& d, const MultiPoint& g) { d << "MP"; dumpPts(d, g); }
static void dump(D& d, const MultiLineString& g) { d << mc::str("ML", g.size()); for (size_t i = 0; i < g.size(); ++i) dump(d, g.getGeometry(i)); }
static void dump(D& d, const Cell& g) { d << mc::str("C", g.size()); for (size_t i = 0; i < g.size(); ++i) dump(d, g.getGeometry(i)); }
static void dump(D& d, const Cells& g) { d << mc::str("CC", g.size()); for (size_t i = 0; i < g.size(); ++i) dump(d, g.getGeometry(i)); }
static void dump(D& d, const Field& f) { d << mc::str("F", f.getId(), "/", f.getCRS(), "/", f.getPrevCRS()); dump(d, f.getRefPoint()); dump(d, f.getField()); dump(d, f.getCellsAbsPosition()); }
static void dump(D& d, const Swath& s) { d << mc::str("S", s.getId(), "/", (int)s.getType(), "/", s.getCreationDir()) << s.getWidth(); dump(d, s.getPath()); }
static void dump(D& d, const Swaths& s) { d << mc::str("SS", s.size()); for (size_t i = 0; i < s.size(); ++i) dump(d, s.at(i)); }
static void dump(D& d, const SwathsByCells& s) { d << mc::str("SC", s.size()); for (size_t i = 0; i < s.size(); ++i) dump(d, s.at(i)); }
static void dump(D& d, const Strip& s) { d << "ST" << s.getName(); dump(d, s.getCell()); }
static void dump(D& d, const Route& r) { d << mc::str("RT", r.sizeConnections(), "/", r.sizeVectorSwaths()); for (auto& c : r.getConnections()) dump(d, c); for (auto& s : r.getVectorSwaths()) dump(d, s); }
template <class T> D dmp(const T& t) { D d; dump(d, t); return d; }

template <class T> struct Ops { std::vector<std::function<T()>> make; std::vector<std::pair<const char*, std::function<void(T&)>>> op; };
template <class T> void history(mc::Ctx& c, const Ops<T>& o) {
  int mk = c.choose(o.make.size()); T a = o.make[mk]();
  int pre = c.choose(2), depth = c.tier(2, 3); c.note("object ", mk);
  auto edit = [&](T& t) { int k = c.choose(o.op.size()); c.note(o.op[k].first); o.op[k].second(t); c.step(); };
  if (pre) edit(a);
  D before = dmp(a); const T& ca = a; T b = ca.clone(); D da = dmp(a), db = dmp(b);
  c.eq(da.str(), before.str(), "clone-changes-original");
  c.check(da.s == db.s && da.v.size() == db.v.size(), "clone-differs", mc::str("original ", da.str(), " clone ", db.str()));
  for (size_t i = 0; i < da.v.size(); ++i) c.check(std::fabs(da.v[i] - db.v[i]) <= 1e-14 * std::fabs(da.v[i]), "clone-coordinate", mc::str(da.str(), " clone ", db.str()));
  for (int d = pre; d < depth; ++d) {
    bool side = c.flag(); c.note(side ? "on clone:" : "on original:");
    T& x = side ? b : a; T& y = side ? a : b; std::string ys = dmp(y).str(); edit(x);
    c.eq(dmp(y).str(), ys, "not-independent", side ? "edit of the clone seen in the original" : "edit of the original seen in the clone");
    c.state(dmp(a).str() + "&" + dmp(b).str());
  }
  // a clone outlives its original and the other way round
  if (c.flag()) { std::string bs = dmp(b).str(); { T z = std::move(a); (void)z; a = T(); } c.eq(dmp(b).str(), bs, "not-independent-of-lifetime"); }
  c.validated();
}
static const double q = 1.0 / 3, U = 693812.123456789, W = 5763321.98765432;
static LinearRing box(double x, double y, double w) { return LinearRing({Point(x, y), Point(x + w, y), Point(x + w, y + w * q), Point(x + q, y + w), Point(x, y)}); }
static Cell cell(double x, double y, bool hole) { Cell c(box(x, y, 10)); if (hole) c.addRing(LinearRing({Point(x + 1, y + 1), Point(x + 2, y + 1), Point(x + 1.5, y + 2), Point(x + 1, y + 1)})); return c; }
static Cells cells(int n) { Cells r; for (int i = 0; i < n; ++i) r.addGeometry(cell(20 * i + q, -q, i != 1)); return r; }
template <class G> void edits(Ops<G>& o) {
  o.op = {{"add", [](G& g) { g.addPoint(-3, 1.5); }}, {"add z", [](G& g) { g.addPoint(Point(2, q, 7)); }}, {"set 0", [](G& g) { g.setGeometry(0, Point(8, -8)); }}, {"set 3", [](G& g) { g.setGeometry(3, Point(1, 2, 3)); }},
          {"scale", [](G& g) { g *= 3.0; }}, {"iterate", [](G& g) { for (auto&& p : g) p = p + Point(1, 1); }}, {"assign empty", [](G& g) { g = G(); }}, {"raw", [](G& g) { g->empty(); }}};
}
static void setup() {
  static Ops<Point> pt; pt.make = {[] { return Point(); }, [] { return Point(q, -U, W); }, [] { return Point(1e-9, 0); }};
  pt.op = {{"x", [](Point& p) { p.setX(9); }}, {"y", [](Point& p) { p.setY(9); }}, {"z", [](Point& p) { p.setZ(9); }}, {"set", [](Point& p) { p.setPoint(Point(3, 4, 5)); }}, {"scale", [](Point& p) { p *= 2; }}, {"assign", [](Point& p) { Point r(7, 7, 7); p = r; r.setX(0); }}, {"move", [](Point& p) { p = Point(6, 6); }}, {"swap", [](Point& p) { Point r(7, 1, 2); std::swap(p, r); r.setY(-1); }}, {"import", [](Point& p) { p.importFromWkt("POINT (1 2)"); }}};
  mc::add("point", [](mc::Ctx& c) { history(c, pt); });
  static Ops<LineString> ls; edits(ls); ls.make = {[] { return LineString(); }, [] { return LineString({Point(q, 1), Point(U, W), Point(2, 2)}); }, [] { return LineString({Point(1, 1, 4), Point(2, 2, q)}); }, [] { return LineString({Point(0, 0), Point(0, 0)}); }};
  ls.op.push_back({"reverse", [](LineString& g) { g.reversePoints(); }}); mc::add("line", [](mc::Ctx& c) { history(c, ls); });
  static Ops<LinearRing> lr; edits(lr); lr.make = {[] { return LinearRing(); }, [] { return box(q, -q, 5); }, [] { return LinearRing({Point(U, W), Point(2, 2), Point(3, 0)}); }, [] { return LinearRing({Point(0, 0, 1), Point(2, 2, 1), Point(3, 0, 1), Point(0, 0, 1)}); }};
  lr.op.push_back({"reverse", [](LinearRing& g) { g.reversePoints(); }}); lr.op.push_back({"close", [](LinearRing& g) { g.closeRing(); }}); mc::add("ring", [](mc::Ctx& c) { history(c, lr); });
  static Ops<MultiPoint> mp; edits(mp); mp.make = {[] { return MultiPoint(); }, [] { return MultiPoint({Point(q, 1), Point(U, W), Point(2, 2)}); }, [] { return MultiPoint({Point(1, 1, 4)}); }}; mc::add("points", [](mc::Ctx& c) { history(c, mp); });
  static Ops<MultiLineString> ml; ml.make = {[] { return MultiLineString(); }, [] { return MultiLineString({LineString({Point(q, 1), Point(U, W)}), LineString({Point(q, 1), Point(2, 2), Point(3, 3)})}); }};
  ml.op = {{"add", [](MultiLineString& g) { g.addGeometry(LineString({Point(5, 5), Point(6, 5)})); }}, {"set", [](MultiLineString& g) { g.setGeometry(0, LineString({Point(7, 5), Point(6, 5)})); }}, {"scale", [](MultiLineString& g) { g *= 2; }}, {"iterate", [](MultiLineString& g) { for (auto&& l : g) l.addPoint(1, 1); }},
           {"assign", [](MultiLineString& g) { g = MultiLineString(); }}, {"append", [](MultiLineString& g) { g.append(MultiLineString({LineString({Point(0, 0), Point(1, q)})}).get()); }}};
  mc::add("lines", [](mc::Ctx& c) { history(c, ml); });
  static Ops<Cell> ce; ce.make = {[] { return Cell(); }, [] { return cell(q, 0, false); }, [] { return cell(U, W, true); }};
  ce.op = {{"hole", [](Cell& g) { if (g.size()) g.addRing(LinearRing({Point(5, 5), Point(6, 5), Point(6, 6), Point(5, 5)})); }}, {"set", [](Cell& g) { g.setGeometry(0, box(3, 3, 3)); }}, {"scale", [](Cell& g) { g *= 2; }}, {"iterate", [](Cell& g) { for (auto&& l : g) l *= 3.0; }}, {"assign", [](Cell& g) { g = Cell(); }}, {"ring edit", [](Cell& g) { if (g.size()) { auto r = g.getGeometry(0); r.setGeometry(1, Point(99, 0)); g.setGeometry(0, r); } }}};
  mc::add("cell", [](mc::Ctx& c) { history(c, ce); });
  static Ops<Cells> cs; cs.make = {[] { return cells(0); }, [] { return cells(1); }, [] { return cells(3); }};
  cs.op = {{"add", [](Cells& g) { g.addGeometry(cell(100, 5, true)); }}, {"set", [](Cells& g) { g.setGeometry(0, cell(50, 5, false)); }}, {"set far", [](Cells& g) { g.setGeometry(2, cell(60, 5, true)); }}, {"ring", [](Cells& g) { if (g.size()) g.addRing(0, LinearRing({Point(3, 1), Point(4, 1), Point(4, 2)})); }}, {"scale", [](Cells& g) { g *= 2; }}, {"iterate", [](Cells& g) { for (auto&& l : g) l *= 3.0; }}, {"assign", [](Cells& g) { g = Cells(); }}};
  mc::add("cells", [](mc::Ctx& c) { history(c, cs); });
  static Ops<Field> fi; fi.make = {[] { return Field(); }, [] { return Field(cells(2), "a"); }, [] { Field f(Cells(cell(U, W, true)), "b"); f.setCRS("UTM:31N datum:WGS84"); f.setPrevCRS("EPSG:4326"); return f; }, [] { Field f; f.setField(cells(1)); f.setRefPoint(Point(100.5, -7, 3)); f.setCRS("EPSG:28992"); return f; }};
  fi.op = {{"id", [](Field& f) { f.setId("zz"); }}, {"crs", [](Field& f) { f.setCRS("EPSG:1"); }}, {"prev", [](Field& f) { f.setPrevCRS("EPSG:2"); }}, {"ref", [](Field& f) { f.setRefPoint(Point(1, 2, 3)); }}, {"ref edit", [](Field& f) { f.getRefPoint().setX(77); }}, {"field", [](Field& f) { f.setField(cells(1)); }}, {"field edit", [](Field& f) { f.getField().addGeometry(cell(100, 100, false)); }}, {"field scale", [](Field& f) { f.getField() *= 2; }}, {"utm", [](Field& f) { f.setUTMCoordSystem("32S"); }}, {"epsg", [](Field& f) { f.setEPSGCoordSystem(5); }}};
  mc::add("field", [](mc::Ctx& c) { history(c, fi); });
  static auto sw = [](int i) { Swath s(LineString({Point(q * i, 0), Point(U, W + i)}), 1.5 + q * i, i, i % 2 ? SwathType::HEADLAND : SwathType::MAINLAND); return s; };
  static Ops<Swath> so; so.make = {[] { return Swath(); }, [] { return sw(1); }, [] { Swath s = sw(2); s.reverse(); return s; }, [] { Swath s(LineString({Point(0, 0), Point(1, 1), Point(3, 0)}), 2, 9); s.setCreationDir(false); return s; }, [] { Swath s(LineString({Point(4, 0), Point(1, 1)})); return s; }, [] { return Swath(2.5); }};
  so.op = {{"reverse", [](Swath& s) { s.reverse(); }}, {"id", [](Swath& s) { s.setId(55); }}, {"width", [](Swath& s) { s.setWidth(7); }}, {"type", [](Swath& s) { s.setType(s.getType() == SwathType::MAINLAND ? SwathType::HEADLAND : SwathType::MAINLAND); }}, {"dir", [](Swath& s) { s.setCreationDir(!s.getCreationDir()); }}, {"path", [](Swath& s) { s.setPath(LineString({Point(0, 9), Point(9, 0)})); }}, {"path edit", [](Swath& s) { auto l = s.getPath(); l.addPoint(3, 3); }}, {"path raw", [](Swath& s) { auto l = s.getPath(); l *= 2.0; }}, {"move", [](Swath& s) { s.moveTo(Point(10, 10)); }}, {"same", [](Swath& s) { s.targetOppositeDirAs(sw(1)); }}};
  mc::add("swath", [](mc::Ctx& c) { history(c, so); });
  static auto sws = [](int n) { Swaths s; for (int i = 0; i < n; ++i) { s.push_back(sw(i)); if (i == 2) s.back().reverse(); } return s; };
  static Ops<Swaths> ss; ss.make = {[] { return sws(0); }, [] { return sws(1); }, [] { return sws(3); }};
  ss.op = {{"push", [](Swaths& s) { s.push_back(sw(5)); }}, {"reverse", [](Swaths& s) { s.reverse(); }}, {"sort", [](Swaths& s) { s.sort(); }}, {"alt", [](Swaths& s) { s.reverseDirOddSwaths(); }}, {"move", [](Swaths& s) { s.moveTo(Point(10, 10)); }}, {"first", [](Swaths& s) { if (s.size()) s[0].reverse(); }}, {"last", [](Swaths& s) { if (s.size()) s.back().setId(77); }}, {"width", [](Swaths& s) { if (s.size()) s.at(0).setWidth(8); }}, {"append", [](Swaths& s) { s.append(sws(1)); }}, {"iterate", [](Swaths& s) { for (auto& x : s) x.setType(SwathType::HEADLAND); }}, {"path edit", [](Swaths& s) { if (s.size()) { auto l = s.back().getPath(); l.addPoint(4, 4); } }}, {"assign", [](Swaths& s) { s = Swaths(); }}};
  mc::add("swaths", [](mc::Ctx& c) { history(c, ss); });
  static Ops<SwathsByCells> sc; sc.make = {[] { return SwathsByCells(); }, [] { return SwathsByCells({sws(2), sws(0), sws(3)}); }, [] { return SwathsByCells({sws(0)}); }};
  sc.op = {{"push", [](SwathsByCells& s) { s.push_back(sws(1)); }}, {"reverse", [](SwathsByCells& s) { s.reverse(); }}, {"at", [](SwathsByCells& s) { if (s.size()) s.at(0).push_back(sw(6)); }}, {"swath", [](SwathsByCells& s) { if (s.sizeTotal()) s.getSwath(0).reverse(); }}, {"last swath", [](SwathsByCells& s) { if (s.sizeTotal()) s.getSwath(s.sizeTotal() - 1).setWidth(3); }}, {"back", [](SwathsByCells& s) { if (s.size()) s.back() = Swaths(); }}, {"iterate", [](SwathsByCells& s) { for (auto& x : s) x.moveTo(Point(5, 5)); }}, {"flatten", [](SwathsByCells& s) { auto f = s.flatten(); f.push_back(sw(1)); for (auto& x : f) x.setId(0); }}, {"assign", [](SwathsByCells& s) { s = SwathsByCells(); }}};
  mc::add("swaths-by-cells", [](mc::Ctx& c) { history(c, sc); });
  static Ops<Strip> st; st.make = {[] { return Strip(); }, [] { Strip s; s.setName("n"); s.setCell(cell(U, W, true)); return s; }};
  st.op = {{"name", [](Strip& s) { s.setName("other"); }}, {"cell", [](Strip& s) { s.setCell(cell(0, 0, false)); }}, {"hole", [](Strip& s) { if (s.getCell().size()) s.getCell().addRing(LinearRing({Point(5, 5), Point(6, 5), Point(6, 6), Point(5, 5)})); }}, {"scale", [](Strip& s) { s.getCell() *= 2; }}};
  mc::add("strip", [](mc::Ctx& c) { history(c, st); });
  static Ops<Route> ro; ro.make = {[] { return Route(); }, [] { Route r; r.addSwath(sw(1)); r.addConnection(MultiPoint({Point(q, 2), Point(U, 4)})); r.addSwaths(sws(3)); return r; }, [] { Route r; r.addConnection(Point(3, 3, 1)); r.addSwaths(sws(2)); r.addConnection(); r.addSwaths(sws(0)); r.addConnection(Point(5, 3)); return r; }};
  ro.op = {{"swath", [](Route& r) { r.addSwath(sw(4)); }}, {"point", [](Route& r) { r.addConnection(Point(8, 8)); }}, {"last connection", [](Route& r) { if (r.sizeConnections()) r.getLastConnection().addPoint(1, 2); }}, {"first connection", [](Route& r) { if (r.sizeConnections()) r.getConnection(0).addPoint(1, 2); }}, {"set connection", [](Route& r) { if (r.sizeConnections()) r.setConnection(0, MultiPoint({Point(6, 6)})); }},
           {"reverse swath", [](Route& r) { if (r.sizeVectorSwaths() && r.getSwaths(0).size()) r.getSwaths(0)[0].reverse(); }}, {"last swaths", [](Route& r) { if (r.sizeVectorSwaths()) r.getLastSwaths().push_back(sw(7)); }}, {"set swaths", [](Route& r) { if (r.sizeVectorSwaths()) r.setSwaths(0, sws(1)); }}, {"scale connection", [](Route& r) { if (r.sizeConnections()) r.getConnection(0) *= 2; }}, {"assign", [](Route& r) { r = Route(); }}};
  mc::add("route", [](mc::Ctx& c) { history(c, ro); });
}
MC_MAIN
