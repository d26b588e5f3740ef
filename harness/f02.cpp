// F02: damaged files: every truncation, every element removed, retyped or re-worded, through every importer.
#include "geo.h"
#include "fields2cover/utils/parser.h"
#include <nlohmann/json.hpp>
#include <tinyxml2.h>
#include <filesystem>
using namespace geo; using F2CP = f2c::Parser; using json = nlohmann::json;
static std::string file(const char* e) { return mc::str("f02-", getpid(), ".", e); }
static void put(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return {std::istreambuf_iterator<char>(i), {}}; }
// -- use everything an importer hands out
static double use(const LineString& l) { double s = l.size() > 1 ? l.length() : 0; for (auto&& p : l) s += p.getX() + p.getY(); return s; }
static double use(const Cell& k) { double s = k.area() + k.isEmpty(); for (size_t i = 0; i < k.size(); ++i) { LinearRing r = k.getGeometry(i); for (size_t j = 0; j < r.size(); ++j) s += r.getGeometry(j).getX() + r.getGeometry(j).getZ(); } return s; }
static double use(const Field& f) { double s = f.area() + f.getId().size() + f.getCRS().size() + f.getRefPoint().getX() + f.isEmpty(); Cells a = f.getCellsAbsPosition(); for (auto&& k : a) s += use(k); return s; }
static volatile double sink;
static std::vector<Field> before() { static std::vector<Field> v = [] { std::vector<Field> w; for (int i = 0; i < 2; ++i) { w.push_back(Field(Cells(Cell(LinearRing({Point(i, 3), Point(i + 5, 0), Point(i, 7), Point(i, 3)}))), mc::str("old", i))); w.back().setCRS("EPSG:4258"); } return w; }(); return v; }
static void kept(mc::Ctx& c, const std::vector<Field>& v, const char* who) { auto o = before(); c.check(v.size() >= 2, "caller-lost", who); for (int i = 0; i < 2; ++i) c.check(v[i].getId() == o[i].getId() && v[i].getCRS() == o[i].getCRS() && v[i].getRefPoint() == o[i].getRefPoint() && v[i].getField() == o[i].getField(), "caller-lost", who); }
template <class F> static bool guarded(mc::Ctx& c, const char* who, F f) { try { f(); c.count(std::string(who) + "-accepted"); return true; } catch (const mc::Fail&) { throw; } catch (const std::exception&) { c.count(std::string(who) + "-rejected"); return false; } catch (...) { c.fail("not-an-exception", who); } }
static int jsons(mc::Ctx& c, const std::string& f) {
  int ok = 0; auto v = before(); bool r = guarded(c, "importJson", [&] { F2CP::importJson(f, v); }); kept(c, v, "importJson"); ok += r; for (auto& x : v) sink = use(x);
  ok += guarded(c, "importCellJson", [&] { Cell k = F2CP::importCellJson(f); sink = use(k); }); ok += guarded(c, "importStripsJson", [&] { auto s = F2CP::importStripsJson(f); for (auto& x : s) sink = use(x.getCell()) + x.getName().size(); }); ok += guarded(c, "importSwathsJson", [&] { auto s = F2CP::importSwathsJson(f); for (auto& x : s) sink = use(x.getPath()) + x.getWidth() + x.getId(); }); c.step(4); return ok;
}
static int gmls(mc::Ctx& c, const std::string& f) {
  int ok = 0; auto v = before(); bool r = guarded(c, "importGml", [&] { F2CP::importGml(f, v); }); kept(c, v, "importGml"); c.check(v.size() == 2 + r, "caller-lost", "importGml"); ok += r; for (auto& x : v) sink = use(x);
  ok += guarded(c, "importFieldGml", [&] { Field x = F2CP::importFieldGml(f, true); sink = use(x); }); c.step(2); return ok;
}
static const char* POLY = R"({"type":"FeatureCollection","features":[{"type":"Feature","properties":{"Name":"a","crop_id":"b"},"geometry":{"type":"Polygon","coordinates":[[[0,0],[4,0,1],[4,3.5],[0,0]],[[3,1],[3.5,1],[3.5,1.5],[3,1]]]}},{"type":"Feature","properties":{"Name":"c","crop_id":"d"},"geometry":{"type":"Polygon","coordinates":[[[1,1],[2,1],[2,2],[1,1]]]}}]})";
static const char* SWATH = R"({"type":"FeatureCollection","features":[{"type":"Feature","properties":{"path_id":4,"width":0.5},"geometry":{"type":"LineString","coordinates":[[0,0],[4,1e0]]}},{"type":"Feature","properties":{"path_id":5,"width":2},"geometry":{"type":"LineString","coordinates":[[0,1],[4,1],[5,2,3]]}}]})";
static const char* GML = R"(<?xml version="1.0"?><GAOS_parcel xmlns:gml="http://www.opengis.net/gml" id="b9"><Field area="17" id="boundary"><geometry><gml:Polygon srsName="EPSG:4258"><gml:outerBoundaryIs><gml:LinearRing><gml:coordinates>4.25,51.75 4.5,51.75 4.5,52 4.25,51.75</gml:coordinates></gml:LinearRing></gml:outerBoundaryIs><gml:innerBoundaryIs><gml:LinearRing><gml:coordinates>4.4,51.76 4.42,51.76 4.42,51.78 4.4,51.76</gml:coordinates></gml:LinearRing></gml:innerBoundaryIs></gml:Polygon></geometry></Field><Edge id="1"/></GAOS_parcel>)";
static std::string data(const std::string& f) { static std::map<std::string, std::string> m; auto& s = m[f]; if (s.empty()) { s = slurp(std::string(REPO_DATA) + f); if (s.empty()) throw std::runtime_error("no sample file " + f); } return s; }
static std::vector<std::string> jsonTexts() { return {POLY, SWATH, data("test.json"), data("test_2_cell.json"), data("test_ring.json"), data("strips.geojson"), data("swaths.geojson")}; }
static std::vector<std::string> xmlTexts(bool all) { std::vector<std::string> v{GML, data("Envelope.xml"), data("envelope1.xml")}; if (all) v.push_back(data("test1.xml")); return v; }
// -- truncation after every byte: what lacks its end is never taken for a whole file
static void cutJson(mc::Ctx& c) { static auto T = jsonTexts(); auto& t = c.pick(T); int n = c.choose(t.size() + 1); std::string s = t.substr(0, n); put(file("json"), s); c.note("cut after ", n, " of ", t.size()); int ok = jsons(c, file("json")); if ((size_t)n <= t.rfind('}')) c.check(ok == 0, "half-a-file", "accepted"); c.nontrivial(s); c.outcome(mc::str(ok)); put(file("json"), POLY); auto v = before(); F2CP::importJson(file("json"), v); c.eq(v.size(), (size_t)4, "after-damage"); c.near(v[2].area(), 7 - 0.125, 1e-12, "after-damage"); }
static void cutXml(mc::Ctx& c) { static auto T = xmlTexts(true); int k = c.choose(T.size()); auto& t = T[k]; int step = k == 3 ? c.tier(97, 7) : 1; int n = c.choose(t.size() / step + 1) * step; std::string s = t.substr(0, n); put(file("xml"), s); c.note("cut after ", n, " of ", t.size()); int ok = gmls(c, file("xml")); if ((size_t)n <= t.rfind('>')) c.check(ok == 0, "half-a-file", "accepted"); c.nontrivial(s); c.outcome(mc::str(ok)); if (n % 5 == 0) { put(file("xml"), GML); Field f = F2CP::importFieldGml(file("xml")); c.eq(f.getField().getGeometry(0).size(), (size_t)2, "after-damage"); } }
// -- every byte dropped, doubled or replaced
static std::string mangle(mc::Ctx& c, const std::string& t, const std::vector<std::string>& subst) { int i = c.choose(t.size()), k = c.choose(subst.size() + 2); std::string r = k == 0 ? "" : k == 1 ? std::string(2, t[i]) : subst[k - 2]; c.note("byte ", i, " (", t.substr(i, 1), ") becomes ", r); return t.substr(0, i) + r + t.substr(i + 1); }
static void byteJson(mc::Ctx& c) { static const std::vector<std::string> S{"[", "]", "{", "}", "\"", ",", "0", "e", std::string(1, '\0'), "\xff"}; std::string s = mangle(c, c.choose(2) ? SWATH : POLY, S); put(file("json"), s); int ok = jsons(c, file("json")); c.nontrivial(s); c.outcome(mc::str(ok)); }
static void byteXml(mc::Ctx& c) { static const std::vector<std::string> S{"<", ">", "/", "\"", "&", ",", " ", "x", std::string(1, '\0'), "\xff"}; std::string s = mangle(c, GML, S); put(file("xml"), s); int ok = gmls(c, file("xml")); c.nontrivial(s); c.outcome(mc::str(ok)); }
// -- every JSON value removed, repeated or replaced by one of another kind; thorough: two such changes
static void walk(const json& j, json::json_pointer p, std::vector<json::json_pointer>& out) { out.push_back(p); if (j.is_object()) for (auto it = j.begin(); it != j.end(); ++it) walk(it.value(), p / it.key(), out); else if (j.is_array()) for (size_t i = 0; i < j.size(); ++i) walk(j[i], p / i, out); }
static const std::vector<const char*> V{"null", "true", "0", "-1", "3.5", "1e300", "18446744073709551615", "\"\"", "\"x\"", "[]", "{}", "[null]", "[[]]", "[[[]]]", "[1]", "[1,2]", "[1,2,3]", "[1,2,3,4]", "[[1,2]]", "[[1,2],[3,4]]", "{\"a\":1}", "{\"a\":1,\"b\":2}", "{\"coordinates\":3}", "[\"a\",\"b\"]"};
static json change(mc::Ctx& c, json j) { std::vector<json::json_pointer> ps; walk(j, json::json_pointer(), ps); auto p = ps[c.choose(ps.size())]; int k = c.choose(V.size() + 3); c.note(p.to_string(), k == 0 ? " removed" : k == 1 ? " doubled" : k == 2 ? " wrapped" : mc::str(" := ", V[k - 3])); if (k >= 3) { j[p] = json::parse(V[k - 3]); return j; } if (k == 2) { json w = json::array({j[p]}); j[p] = w; return j; } if (p.empty()) return k ? json::array({j, j}) : json(); json& up = j[p.parent_pointer()]; if (up.is_object()) { if (k == 0) up.erase(p.back()); else up[p.back() + "2"] = json(up[p.back()]); } else { size_t i = std::stoul(p.back()); if (k == 0) up.erase(i); else { json copy = up[i]; up.insert(up.begin() + i, copy); } } return j; }
static void shapeJson(mc::Ctx& c) { static const std::vector<json> T{json::parse(POLY), json::parse(SWATH), json::parse(data("test_ring.json"))}; json j = change(c, c.pick(T)); put(file("json"), j.dump()); int ok = jsons(c, file("json")); c.nontrivial(j.dump()); c.outcome(mc::str(ok)); }
static void twiceJson(mc::Ctx& c) { static const json T = json::parse(R"({"features":[{"properties":{"Name":"a","crop_id":"b","path_id":4,"width":0.5},"geometry":{"coordinates":[[[0,0],[4,0],[4,3],[0,0]]]}}]})"); json j = change(c, change(c, T)); put(file("json"), j.dump()); int ok = jsons(c, file("json")); c.nontrivial(j.dump()); c.outcome(mc::str(ok)); }
// -- every XML element, attribute and text removed, doubled, renamed or reworded
using namespace tinyxml2;
static void walkX(XMLElement* e, std::vector<XMLElement*>& v) { v.push_back(e); for (auto* k = e->FirstChildElement(); k; k = k->NextSiblingElement()) walkX(k, v); }
static const std::vector<const char*> TX{"", " ", ",", "1", "1,2", "1,2 3", "1,2 3,4", "1,2 3,4 x,y 1,2", "nan,nan 1,2 3,4 nan,nan", "1e999,2 3,4 5,7 1e999,2", "1,2,3,4,5 2,3 4,9 1,2,3,4,5", "(1,2 3,4)", "1,2 3,4 5,7 1,2)", "EMPTY", "1,2 3,4 5,7 1,2), (1,2 3,4", ";;;", "1;2 3;4", "-,- 2,3 4,5", "1,,2 3,4 5,7", "++1,2 3,4 5,7 +,+", "EPSG:4258", "EPSG:", "EPSG:x", "EPSG:99999999999999999999", "EPSG:0", "EPSG:-3", "UTM:", "UTM:31N", "UTM:31N datum:", "UTM:99N datum:etrs89", "UTM:1", "UTM: datum:x", "\xff\xfe", "LOCAL"};
static void change(mc::Ctx& c, XMLDocument& d) { std::vector<XMLElement*> es; if (!d.RootElement()) { c.note("nothing left"); return; } walkX(d.RootElement(), es); auto* e = es[c.choose(es.size())]; std::vector<std::string> at; for (auto* a = e->FirstAttribute(); a; a = a->Next()) at.push_back(a->Name()); int text = e->GetText() ? (int)TX.size() : 0, k = c.choose(5 + at.size() * (2 + TX.size()) + text); c.note("<", e->Name(), "> change ", k);
  if (k == 0) { if (e->Parent()) e->Parent()->DeleteChild(e); } else if (k == 1) { if (e->Parent()->ToElement()) e->Parent()->InsertAfterChild(e, e->DeepClone(&d)); } else if (k == 2) e->SetName("other"); else if (k == 3) e->DeleteChildren(); else if (k == 4) { auto* o = d.NewElement("wrap"); if (e->Parent()->ToElement()) { e->Parent()->InsertAfterChild(e, o); o->InsertEndChild(e); } } else if (k - 5 < text) e->SetText(TX[k - 5]); else { int m = k - 5 - text; auto& a = at[m / (2 + TX.size())]; int w = m % (2 + TX.size()); if (w == 0) e->DeleteAttribute(a.c_str()); else if (w == 1) { std::string x = e->Attribute(a.c_str()); e->DeleteAttribute(a.c_str()); e->SetAttribute((a + "x").c_str(), x.c_str()); } else e->SetAttribute(a.c_str(), TX[w - 2]); } }
static void shapeXml(mc::Ctx& c) { XMLDocument d; d.Parse(GML); change(c, d); if (c.thorough() && c.flag()) change(c, d); XMLPrinter p; d.Print(&p); put(file("xml"), p.CStr()); int ok = gmls(c, file("xml")); c.nontrivial(p.CStr()); c.outcome(mc::str(ok)); }
// -- files that are something else altogether
static void odd(mc::Ctx& c) {
  static const std::vector<std::string> T{"", " ", "\n", "null", "[]", "{}", "0", "\"x\"", "{\"features\":null}", "{\"features\":[]}", "{\"features\":{}}", "{\"features\":3}", "\xef\xbb\xbf{}", std::string(3, '\0'), "<a/>", "<a>", "<?xml version=\"1.0\"?>", "<!-- x -->", "<a><Field/></a>", "<a><Field><geometry/></Field></a>", "GIF89a", std::string(100000, '['), std::string(100000, ' '), std::string(20000, '{'), "<x>" + std::string(100000, '<')};
  int k = c.choose(T.size() + 3 + 2); std::string f = file("dat"); if (k < (int)T.size()) { put(f, T[k]); c.note("text ", k); } else if (k == (int)T.size()) { f = "no/such/file"; c.note("missing"); } else if (k == (int)T.size() + 1) { f = ""; c.note("no name"); } else if (k == (int)T.size() + 2) { f = file("dir"); std::filesystem::create_directory(f); c.note("directory"); }
  else if (k == (int)T.size() + 3) { std::string s = "{\"features\":"; for (int i = 0; i < 3000; ++i) s += "["; for (int i = 0; i < 3000; ++i) s += "]"; put(f, s + "}"); c.note("deep lists"); } else { std::string s, e; for (int i = 0; i < 3000; ++i) { s += "<Field>"; e += "</Field>"; } put(f, s + e); c.note("deep elements"); }
  int a = jsons(c, f), b = gmls(c, f); if (f.empty() || f == "no/such/file" || k < 3) c.check(a + b == 0, "nothing-accepted", f); c.nontrivial(c.trace()); c.outcome(mc::str(a, " ", b)); std::error_code ec; if (k == (int)T.size() + 2) std::filesystem::remove(f, ec);
}
static void setup() { mc::add("cutJson", cutJson); mc::add("cutXml", cutXml); mc::add("byteJson", byteJson); mc::add("byteXml", byteXml, 1); mc::add("shapeJson", shapeJson); mc::add("twiceJson", twiceJson, 2, 20, true); mc::add("shapeXml", shapeXml, 1); mc::add("odd", odd, 1); }
MC_MAIN
