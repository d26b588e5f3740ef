// F01: importers against files generated from a grammar; the expected geometry is what the file spells.
#include "geo.h"
#include "fields2cover/utils/parser.h"
#include <cstdio>
using namespace geo; using F2CP = f2c::Parser;
struct Pos { std::string x, y, z; double v(int i) const { const std::string& s = i == 0 ? x : i == 1 ? y : z; return s.empty() ? 0 : strtod(s.c_str(), nullptr); } };
typedef std::vector<Pos> R; typedef std::vector<R> G;
static const std::vector<std::vector<std::vector<std::array<double, 2>>>> SHAPES{
  {{{0, 0}, {4, 0}, {4, 3}, {0, 0}}}, {{{0, 0}, {10, 0}, {10, 10}, {0, 10}, {0, 0}}, {{1, 1}, {2, 1}, {2, 2.5}, {1, 1}}},
  {{{-3, 0.125}, {5, -7}, {6, 9}, {2, 4}, {-3, 0.125}}, {{4, 1}, {4.5, 1}, {4.5, 2}, {4, 1}}, {{2, 1}, {2.5, 0.5}, {3, 2}, {2, 2}, {2, 1}}}, {{{5.52316664, 52.538435693}, {5.526959039, 52.5385112}, {5.526960602, 52.538482911}, {5.523168236, 52.5384074}, {5.52316664, 52.54843569}}}, {{{0, 0}, {0, 8}, {8, 8}, {8, 0}, {0, 0}}, {{3, 3}, {3, 4}, {4, 4}, {3, 3}}}};
static std::string fmt(const char* f, double v) { char b[64]; snprintf(b, sizeof b, f, v); return b; }
// 6 ways to write a number; json has no leading '+' or '.', gml may.
static std::string spell(double v, int how, bool gml) { switch (how) { case 0: return fmt("%.12g", v); case 1: return fmt("%.17g", v); case 2: return fmt("%.14e", v); case 3: return fmt("%.12f", v); case 4: return gml && v > 0 ? "+" + fmt("%.12g", v) : fmt("%.6fE0", v); default: return fmt("%.11e", v * 1e3 + 7e5); } }
static G geom(mc::Ctx& c, int shape, int how, int heights, bool gml) { G g; int k = 0; for (auto& ring : SHAPES[shape]) { R r; for (auto& p : ring) { Pos q{spell(p[0], how == 6 ? k % 6 : how, gml), spell(p[1], how == 6 ? (k + 1) % 6 : how, gml), ""}; if (heights == 1 || (heights == 2 && k % 2)) q.z = spell((k % 2 ? 12.5 : 12) + k, how == 6 ? 0 : how, gml); r.push_back(q); ++k; } g.push_back(r); } return g; }
static void near(mc::Ctx& c, double got, double want, const char* key, const std::string& what = "") { if (!(std::fabs(got - want) <= 1e-12 * std::max(1.0, std::fabs(want)) * 1e2)) c.near(got, want, 0, key, what); }
static void same(mc::Ctx& c, const Cell& cell, const G& g, const char* key) { c.eq(cell.size(), g.size(), key, "rings"); for (size_t i = 0; i < g.size(); ++i) { LinearRing r = cell.getGeometry(i); size_t n = g[i].size(), m = r.size(); /* a ring the file leaves open is closed */ if (m == n + 1 && r.getGeometry(n).getX() == r.getGeometry(0).getX() && r.getGeometry(n).getY() == r.getGeometry(0).getY()) --m; c.eq(m, n, key, "points"); for (size_t j = 0; j < g[i].size(); ++j) { Point p = r.getGeometry(j); near(c, p.getX(), g[i][j].v(0), key, "x"); near(c, p.getY(), g[i][j].v(1), key, "y"); if (!g[i][j].z.empty()) near(c, p.getZ(), g[i][j].v(2), key, "z"); } } c.step(); }
static void sameField(mc::Ctx& c, const Field& f, const std::string& name, const G& g, const char* key) { c.eq(f.getId(), name, key, "id"); Cells abs = f.getCellsAbsPosition(); c.eq(abs.size(), (size_t)1, key, "cells"); G flat = g; for (auto& r : flat) for (auto& p : r) p.z = ""; same(c, abs.getGeometry(0), flat, key); }
static const std::string LAYOUT[][3] = {{"", "", ""}, {" ", " ", " "}, {"\n\t", "\n\t\t", " "}, {"\r\n  ", "\r\n", "\t"}, {"\n\n   ", "", "\n"}};   // between members, inside arrays, after ':' and ','
struct Json { int l; std::string m() const { return LAYOUT[l][0]; } std::string a() const { return LAYOUT[l][1]; } std::string s() const { return LAYOUT[l][2]; }
  std::string pos(const Pos& p) const { return "[" + a() + p.x + "," + s() + p.y + (p.z.empty() ? "" : "," + s() + p.z) + a() + "]"; }
  std::string list(const std::vector<std::string>& v) const { std::string r = "[" + a(); for (size_t i = 0; i < v.size(); ++i) r += (i ? a() + "," + a() : "") + v[i]; return r + a() + "]"; }
  std::string ring(const R& r) const { std::vector<std::string> v; for (auto& p : r) v.push_back(pos(p)); return list(v); }
  std::string poly(const G& g) const { std::vector<std::string> v; for (auto& r : g) v.push_back(ring(r)); return list(v); }
  std::string obj(const std::vector<std::pair<std::string, std::string>>& kv, bool rev) const { std::string r = "{" + m(); for (size_t i = 0; i < kv.size(); ++i) { auto& k = kv[rev ? kv.size() - 1 - i : i]; r += (i ? "," + m() : "") + "\"" + k.first + "\"" + s() + ":" + s() + k.second; } return r + m() + "}"; } };
static const std::vector<std::pair<std::string, std::string>> NAMES{{"\"field1\"", "field1"}, {"\"\"", ""}, {"\"a \\\"q\\\" \\u00e9\\n{[\"", "a \"q\" \xc3\xa9\n{["}, {"\"Name\"", "Name"}};
static std::string file(const char* e) { return mc::str("f01-", getpid(), ".", e); }
static void put(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
typedef std::vector<Field> FV;
static void json_fields(mc::Ctx& c) {
  int n = c.choose(3), extra = c.choose(3), layout = c.choose(5), how = c.choose(7), heights = c.choose(3); bool rev = c.flag(); int pre = c.thorough() ? c.choose(3) : (how + layout) % 3; Json J{layout}; std::vector<G> gs; std::vector<int> names; std::vector<std::string> fs;
  for (int i = 0; i < n; ++i) { int s = c.choose(SHAPES.size()), nm = c.thorough() ? c.choose(NAMES.size()) : (s + how + heights + 2 * i) % (int)NAMES.size(); gs.push_back(geom(c, s, how, (heights + i) % 3, false)); names.push_back(nm); std::vector<std::pair<std::string, std::string>> pr{{"Name", NAMES[nm].first}, {"crop_id", NAMES[(nm + 1) % NAMES.size()].first}}, f{{"type", "\"Feature\""}}; if (extra == 1) { pr.insert(pr.begin(), {"Description", "\"Name\""}); f.push_back({"id", "7"}); } if (extra == 2) { pr.push_back({"coordinates", "[[1,2]]"}); f.push_back({"bbox", "[0,0,1,1]"}); }
    f.push_back({"properties", J.obj(pr, rev)}); f.push_back({"geometry", J.obj({{"type", "\"Polygon\""}, {"coordinates", J.poly(gs.back())}}, rev)}); fs.push_back(J.obj(f, rev)); }
  std::vector<std::pair<std::string, std::string>> top{{"type", "\"FeatureCollection\""}}; if (extra) top.push_back({"name", "\"features\""}); top.push_back({"features", J.list(fs)}); std::string text = J.obj(top, rev) + (layout == 2 ? "\n" : ""); put(file("json"), text); c.note(text.substr(0, 3000));
  FV v; for (int i = 0; i < pre; ++i) v.push_back(Field(Cells(Cell(LinearRing({Point(i, 0), Point(i + 5, 0), Point(i, 7), Point(i, 0)}))), "old")); FV old = v; c.eq(F2CP::importJson(file("json"), v), 0, "json-return"); c.eq(v.size(), pre + gs.size(), "json-appends"); for (int i = 0; i < pre; ++i) c.check(v[i].getId() == "old" && v[i].getField() == old[i].getField() && v[i].getRefPoint() == old[i].getRefPoint(), "json-appends", "earlier field changed"); for (int i = 0; i < n; ++i) { sameField(c, v[pre + i], NAMES[names[i]].second, gs[i], "json-field"); c.check(v[pre + i].getCRS().empty() && v[pre + i].getPrevCRS().empty(), "json-field", "coordinate system"); }
  if (n > 0) same(c, F2CP::importCellJson(file("json")), gs[0], "json-cell");
  auto st = F2CP::importStripsJson(file("json")); c.eq(st.size(), gs.size(), "json-strips"); for (int i = 0; i < n; ++i) { c.eq(st[i].getName(), NAMES[(names[i] + 1) % NAMES.size()].second, "json-strips"); same(c, st[i].getCell(), gs[i], "json-strips"); }
  F2CP::importJson(file("json"), v); c.eq(v.size(), pre + 2 * gs.size(), "json-appends", "second import"); for (int i = 0; i < n; ++i) sameField(c, v[pre + n + i], NAMES[names[i]].second, gs[i], "json-appends"); c.nontrivial(text); c.outcome(mc::str(n, heights, how));
}
static void json_swaths(mc::Ctx& c) {
  static const std::vector<std::vector<std::array<double, 2>>> L{{{5.523155, 52.53863}, {5.526948097851472, 52.538709}}, {{0, 0}, {10, 0}}, {{3, -4}, {1e-3, 2}, {7, 7.5}, {-2, 1}}, {{1, 1}}};
  static const std::vector<std::pair<std::string, double>> W{{"0.3", 0.3}, {"2", 2}, {"1.25e1", 12.5}, {"1E-3", 0.001}}; static const std::vector<int> ID{44, 0, 7, -3, 2147483647};
  int n = c.choose(4), layout = c.choose(5), how = c.choose(7), heights = c.choose(3); bool rev = c.flag(); Json J{layout}; std::vector<R> ls; std::vector<int> w, id; std::vector<std::string> fs;
  for (int i = 0; i < n; ++i) { int l = n < 3 || c.thorough() || i == 0 ? c.choose(L.size()) : (how + i) % 4; R r; int k = 0; for (auto& p : L[l]) { Pos q{spell(p[0], how == 6 ? k % 6 : how, false), spell(p[1], how == 6 ? (k + 3) % 6 : how, false), ""}; if (heights == 1 || (heights == 2 && k % 2)) q.z = spell((k % 2 ? 3.5 : 4) + k, how % 6, false); ++k; r.push_back(q); } ls.push_back(r); w.push_back((l + i + how) % W.size()); id.push_back((2 * l + i + layout) % ID.size()); fs.push_back(J.obj({{"type", "\"Feature\""}, {"properties", J.obj({{"path_id", std::to_string(ID[id[i]])}, {"width", W[w[i]].first}}, rev)}, {"geometry", J.obj({{"type", "\"LineString\""}, {"coordinates", J.ring(r)}}, rev)}}, rev)); }
  std::string text = J.obj({{"type", "\"FeatureCollection\""}, {"features", J.list(fs)}}, rev); put(file("json"), text); c.note(text.substr(0, 3000));
  auto s = F2CP::importSwathsJson(file("json")); c.eq(s.size(), ls.size(), "swaths"); for (int i = 0; i < n; ++i) { c.eq(s[i].getId(), ID[id[i]], "swath-id"); c.eq(s[i].getWidth(), W[w[i]].second, "swath-width"); LineString l = s[i].getPath(); c.eq(l.size(), ls[i].size(), "swath-points"); for (size_t j = 0; j < ls[i].size(); ++j) { Point p = l.getGeometry(j); near(c, p.getX(), ls[i][j].v(0), "swath-point"); near(c, p.getY(), ls[i][j].v(1), "swath-point"); if (!ls[i][j].z.empty()) near(c, p.getZ(), ls[i][j].v(2), "swath-height"); } c.check(s[i].getType() == f2c::types::SwathType::MAINLAND && s[i].getCreationDir(), "swath-defaults"); }
  c.nontrivial(text); c.outcome(mc::str(n, heights, how));
}
static void gml(mc::Ctx& c) {
  static const std::vector<std::string> SEP{" ", "\n", "  ", "\t", "\r\n      "}; static const std::vector<std::pair<std::string, std::string>> PAD{{"", ""}, {" ", " "}, {"\n\t\t", "\n\t\t"}, {"", "\n"}};
  static const std::vector<std::string> CRS{"EPSG:4258", "UTM:32N datum:etrs89", "EPSG:28992"};
  int s = c.choose(SHAPES.size()), how = c.choose(7), heights = c.choose(2), sep = c.choose(SEP.size()), pad = c.choose(PAD.size()), extra = c.choose(4), crs = c.thorough() ? c.choose(3) : (s + how) % 3, silent = c.thorough() ? c.choose(2) : sep % 2; G g = geom(c, s, how, heights, true); auto coords = [&](const R& r) { std::string t = PAD[pad].first; for (size_t i = 0; i < r.size(); ++i) t += (i ? SEP[sep] : "") + r[i].x + "," + r[i].y + (r[i].z.empty() ? "" : "," + r[i].z); return "<gml:coordinates>" + t + PAD[pad].second + "</gml:coordinates>"; };
  std::string nl = pad == 2 ? "\n  " : "", id = extra == 1 ? "" : extra == 2 ? "a &amp; b" : "b913fe9d", want = extra == 2 ? "a & b" : id; std::string t = extra == 1 ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- parcel -->\n" : ""; t += "<GAOS_parcel xmlns:gml=\"http://www.opengis.net/gml\"" + (extra == 1 ? "" : " id=\"" + id + "\"") + ">" + nl;
  if (extra == 3) t += "<Edge id=\"9\"><geometry><gml:LineString srsName=\"EPSG:1\"><gml:coordinates>1,2 3,4</gml:coordinates></gml:LineString></geometry></Edge>"; t += "<Field area=\"17\" id=\"boundary\">" + nl + (extra == 3 ? "<note/><geometry name=\"g\">" : "<geometry>") + nl + "<gml:Polygon srsName=\"" + CRS[crs] + "\">" + nl;
  for (size_t i = 0; i < g.size(); ++i) { std::string b = i ? "gml:innerBoundaryIs" : "gml:outerBoundaryIs"; t += "<" + b + ">" + nl + "<gml:LinearRing>" + nl + coords(g[i]) + nl + "</gml:LinearRing></" + b + ">" + nl; } t += "</gml:Polygon></geometry></Field>"; if (extra == 3) t += "<Field id=\"second\"/>"; t += "</GAOS_parcel>" + nl; put(file("xml"), t); c.note(t.substr(0, 3000));
  Field f = F2CP::importFieldGml(file("xml"), silent); sameField(c, f, want, g, "gml-field"); c.eq(f.getCRS(), CRS[crs], "gml-crs"); FV v(2, f); F2CP::importGml(file("xml"), v); c.eq(v.size(), (size_t)3, "gml-appends"); for (int i = 0; i < 3; ++i) sameField(c, v[i], want, g, "gml-appends"); c.nontrivial(t); c.outcome(mc::str(s, heights));
}
static R manyPoints(int n, double cx, double cy, double rad, bool height) { R r; for (int i = 0; i <= n; ++i) { double a = 2 * M_PI * (i % n) / n; r.push_back({fmt("%.9f", cx + rad * std::cos(a)), fmt("%.9f", cy + rad * (1 + 0.25 * (i % n % 2)) * std::sin(a)), height ? fmt("%.9g", 0.5 * (i % n)) : ""}); } return r; }
static void large(mc::Ctx& c) {   // many features, rings, points and swaths
  int n = c.pick(c.thorough() ? std::vector<int>{4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 64} : std::vector<int>{4, 7, 9, 17, 33}), m = c.pick(c.thorough() ? std::vector<int>{3, 5, 8, 9, 12, 16, 17, 33, 64, 129, 300, 1025} : std::vector<int>{3, 9, 17, 65, 300}), holes = c.pick(std::vector<int>{0, 3, 9}); bool height = c.flag(); Json J{(n + m) % 5}; c.note(n, " features of ", m, " points and ", holes, " holes"); std::vector<G> gs; std::vector<R> ls; std::vector<std::string> fs, ss;
  for (int i = 0; i < n; ++i) { G g{manyPoints(m, 100 * i, 5, 40, height)}; for (int h = 0; h < holes + (i == 1); ++h) g.push_back(manyPoints(3 + (h + i) % 5, 100 * i - 16 + 4 * h, 5, 1, height)); gs.push_back(g); std::string id = mc::str("f", i); fs.push_back(J.obj({{"type", "\"Feature\""}, {"properties", J.obj({{"Name", "\"" + id + "\""}, {"crop_id", "\"c" + id + "\""}}, i % 2)}, {"geometry", J.obj({{"type", "\"Polygon\""}, {"coordinates", J.poly(g)}}, i % 3 == 1)}}, i % 2)); ls.push_back(manyPoints(m, i, 0, 3, height)); ss.push_back(J.obj({{"type", "\"Feature\""}, {"properties", J.obj({{"path_id", std::to_string(7 * i + 1)}, {"width", fmt("%.3f", 0.5 + i)}}, i % 2)}, {"geometry", J.obj({{"type", "\"LineString\""}, {"coordinates", J.ring(ls.back())}}, i % 3 == 1)}}, i % 2)); }
  put(file("json"), J.obj({{"type", "\"FeatureCollection\""}, {"features", J.list(fs)}}, false)); FV v; c.eq(F2CP::importJson(file("json"), v), 0, "json-return"); c.eq(v.size(), gs.size(), "json-appends"); for (int i = 0; i < n; ++i) sameField(c, v[i], mc::str("f", i), gs[i], "json-field"); same(c, F2CP::importCellJson(file("json")), gs[0], "json-cell"); auto st = F2CP::importStripsJson(file("json")); c.eq(st.size(), gs.size(), "json-strips"); for (int i = 0; i < n; ++i) { c.eq(st[i].getName(), mc::str("cf", i), "json-strips"); same(c, st[i].getCell(), gs[i], "json-strips"); }
  put(file("json"), J.obj({{"type", "\"FeatureCollection\""}, {"features", J.list(ss)}}, false)); auto s = F2CP::importSwathsJson(file("json")); c.eq(s.size(), ls.size(), "swaths"); for (int i = 0; i < n; ++i) { c.eq(s[i].getId(), 7 * i + 1, "swath-id"); c.eq(s[i].getWidth(), 0.5 + i, "swath-width"); LineString l = s[i].getPath(); c.eq(l.size(), ls[i].size(), "swath-points"); for (size_t j = 0; j < ls[i].size(); ++j) { Point p = l.getGeometry(j); near(c, p.getX(), ls[i][j].v(0), "swath-point"); near(c, p.getY(), ls[i][j].v(1), "swath-point"); if (height) near(c, p.getZ(), ls[i][j].v(2), "swath-height"); } }
  std::string t = "<p id=\"big\"><Field><geometry><gml:Polygon srsName=\"EPSG:4258\">"; auto& g = gs[1]; for (size_t i = 0; i < g.size(); ++i) { std::string b = i ? "gml:innerBoundaryIs" : "gml:outerBoundaryIs"; t += "<" + b + "><gml:LinearRing><gml:coordinates>"; for (auto& p : g[i]) t += (&p == &g[i][0] ? "" : " ") + p.x + "," + p.y + (p.z.empty() ? "" : "," + p.z); t += "</gml:coordinates></gml:LinearRing></" + b + ">"; } t += "</gml:Polygon></geometry></Field></p>"; put(file("xml"), t); sameField(c, F2CP::importFieldGml(file("xml"), true), "big", g, "gml-field"); c.nontrivial(c.trace()); c.outcome(mc::str(n));
}
static void setup() { mc::add("large", large); mc::add("json_fields", json_fields); mc::add("json_swaths", json_swaths); mc::add("gml", gml); }
MC_MAIN
