// C02: coordinate-system strings: every zone, hemisphere, datum, code and spelling set and read back; positions to zones; malformed strings.
#include "geo.h"
#include "fields2cover/utils/transformation.h"
#include <ogr_spatialref.h>
using namespace geo; using T = f2c::Transform;
static std::string upper(std::string s) { for (auto& ch : s) ch = toupper(ch); return s; }
static void kinds(mc::Ctx& c, const Field& f, bool utm) { c.eq(f.isCoordSystemUTM(), utm, "kind"); c.eq(f.isCoordSystemEPSG(), !utm, "kind"); c.eq(Field::isCoordSystemUTM(f.getCRS()), utm, "kind"); c.eq(Field::isCoordSystemEPSG(f.getCRS()), !utm, "kind"); if (utm) { c.eq(f.getEPSGCoordSystem(), -1, "kind"); c.eq(Field::getEPSGCoordSystem(f.getCRS()), -1, "kind"); } else { c.eq(f.getUTMCoordSystem(), std::string(), "kind"); c.eq(Field::getUTMCoordSystem(f.getCRS(), "none"), std::string("none"), "kind"); } }
static void utm(mc::Ctx& c) {
  int zone = 1 + c.choose(60); char hem = "NSns"[c.choose(4)]; bool south = toupper(hem) == 'S', pad = zone < 10 && c.flag(); static const std::vector<std::string> D{"", "etrs89", "ETRS89", "WGS84"}; std::string d = c.pick(D), z = (pad ? "0" : "") + std::to_string(zone) + hem; int how = c.choose(9); Field f; if (c.thorough() ? c.flag() : zone % 2) f.setEPSGCoordSystem(28992);
  switch (how) { case 0: f.setCRS("UTM:" + z + (d.empty() ? "" : " datum:" + d)); break; case 1: f.setCRS("UTM: " + z + (d.empty() ? "" : " datum: " + d)); break; case 2: f.setUTMCoordSystem("UTM:" + z + (d.empty() ? "" : " datum:" + d)); break; case 3: f.setUTMCoordSystem("UTM " + z + (d.empty() ? "" : " datum " + d)); break; case 4: if (!d.empty()) c.require(false); f.setUTMCoordSystem(z); break; case 5: c.require(!d.empty()); f.setUTMCoordSystem(z, d); break; case 6: c.require(!d.empty()); f.setUTMCoordSystem("UTM:" + z, "datum:" + d); break; case 7: c.require(!d.empty()); f.setUTMCoordSystem(z, " " + d); break; default: c.require(!d.empty()); f.setCRS("datum:" + d + " UTM:" + z); }
  c.note(f.getCRS(), " via ", how); std::string crs = f.getCRS(); kinds(c, f, true); c.eq(f.getUTMCoordSystem(), z, "utm"); c.eq(Field::getUTMCoordSystem(crs, "x"), z, "utm"); std::string zs = f.getUTMZone(); c.check(zs == z.substr(0, z.size() - 1), "zone", zs); c.eq(Field::getUTMZone(crs), zs, "zone"); c.eq(f.getUTMHemisphere(), std::string(south ? "+south" : "+north"), "hemisphere"); c.eq(Field::getUTMHemisphere(crs), f.getUTMHemisphere(), "hemisphere");
  if (d.empty()) c.eq(upper(f.getUTMDatum()), std::string("ETRS89"), "datum"); else c.eq(f.getUTMDatum(), d, "datum"); if (d.empty() && how < 2) c.eq(Field::getUTMDatum(crs, "other"), std::string("other"), "datum");
  Field g = f; g.setCRS(crs); c.eq(g.getUTMZone(), zs, "copied"); g.setUTMCoordSystem(crs); kinds(c, g, true); c.eq(g.getUTMCoordSystem(), z, "set-twice"); c.eq(upper(g.getUTMDatum()), upper(f.getUTMDatum()), "set-twice");
  if (how > c.tier(0, 8)) { c.nontrivial(mc::str(crs, how)); c.outcome(z); return; } auto ref = T::createSptRef(crs); int north = -1; c.eq(ref->GetUTMZone(&north), zone, "reference-zone", crs); c.eq(north, south ? 0 : 1, "reference-hemisphere", crs); double a = ref->GetSemiMajor(), inv = ref->GetInvFlattening(); c.near(a, 6378137, 1e-3, "ellipsoid"); c.near(inv, upper(f.getUTMDatum()) == "WGS84" ? 298.257223563 : 298.257222101, 1e-7, "ellipsoid", f.getUTMDatum()); c.near(ref->GetLinearUnits(), 1, 0, "units"); c.nontrivial(mc::str(crs, how)); c.outcome(z);
}
static void epsg(mc::Ctx& c) {
  int block = c.choose(250), n = c.tier(40, 1); static const std::vector<int> odd{0, 1, 4258, 4326, 28992, 32631, 25831, 3857, 99999, 900913, 2147483, 12345}; Field f; auto one = [&](int code) { if ((code / 140 + code) % 2) { f.setUTMCoordSystem("31N"); f.setEPSGCoordSystem(code); kinds(c, f, false); c.eq(f.getCRS(), mc::str("EPSG:", code), "epsg-text"); f.setEPSGCoordSystem(code + 1); } else { f.setEPSGCoordSystem(code + 1); f.setUTMCoordSystem("7S", "WGS84"); } f.setEPSGCoordSystem(code); kinds(c, f, false); c.eq(f.getEPSGCoordSystem(), code, "epsg"); c.eq(Field::getEPSGCoordSystem(f.getCRS()), code, "epsg"); c.eq(Field::getEPSGCoordSystem("EPSG: " + std::to_string(code)), code, "epsg-spelling"); Field g; g.setCRS(f.getCRS()); c.eq(g.getEPSGCoordSystem(), code, "epsg-copied"); c.eq(f.getCRS(), mc::str("EPSG:", code), "epsg-text"); c.step(); };
  for (int k = block * 140; k < (block + 1) * 140; k += n) one(k + (n > 1 ? block % n : 0)); if (block == 0) for (int k : odd) one(k); c.note("codes ", block * 140); c.nontrivial(c.trace()); c.outcome("ok");
}
// every history of settings: only the last one counts
static void histories(mc::Ctx& c) {
  struct Op { int how; const char* a; const char* b; int code; const char* zone; bool south; const char* datum; };
  static const std::vector<Op> O{{0, "", "", 4258, "", 0, ""}, {0, "", "", 4326, "", 0, ""}, {0, "", "", 28992, "", 0, ""}, {0, "", "", 7, "", 0, ""}, {1, "31N", "", -1, "31", false, "ETRS89"}, {1, "UTM:7s datum:WGS84", "", -1, "7", true, "WGS84"}, {1, "UTM 60S datum etrs89", "", -1, "60", true, "ETRS89"}, {2, "1n", "etrs89", -1, "1", false, "ETRS89"}, {2, "UTM:05S", "datum:WGS84", -1, "05", true, "WGS84"}, {3, "UTM:32N datum:etrs89", "", -1, "32", false, "ETRS89"}, {3, "EPSG:4258", "", 4258, "", 0, ""}, {3, "EPSG: 32631", "", 32631, "", 0, ""}};
  Field f; int D = c.tier(3, 4), d = 0; std::string prev; if (c.flag()) { f = Field(Cells(Cell(LinearRing({Point(5, 52), Point(5.1, 52), Point(5, 52.1), Point(5, 52)}))), "id"); f.setPrevCRS(prev = "EPSG:1234"); } c.check(!f.isCoordSystemUTM() && !f.isCoordSystemEPSG() && f.getEPSGCoordSystem() == -1 && f.getUTMZone().empty(), "fresh"); Cells abs = f.getCellsAbsPosition();
  for (; d < D; ++d) { const Op& o = c.pick(O); c.note(o.how, " ", o.a, o.b, o.code); if (o.how == 0) f.setEPSGCoordSystem(o.code); else if (o.how == 1) f.setUTMCoordSystem(o.a); else if (o.how == 2) f.setUTMCoordSystem(o.a, o.b); else f.setCRS(o.a); c.step(); kinds(c, f, o.code < 0); if (o.code >= 0) { c.eq(f.getEPSGCoordSystem(), o.code, "epsg"); c.eq(f.getUTMZone(), std::string(), "zone"); } else { c.eq(f.getUTMZone(), std::string(o.zone), "zone"); c.eq(f.getUTMHemisphere(), std::string(o.south ? "+south" : "+north"), "hemisphere"); c.eq(upper(f.getUTMDatum()), std::string(o.datum), "datum"); } c.eq(f.getPrevCRS(), prev, "previous"); c.check(f.getCellsAbsPosition() == abs || abs.isEmpty(), "cells-moved"); c.state(f.getCRS()); }
  c.nontrivial(c.trace()); c.outcome(f.getCRS()); c.validated();
}
static void known(mc::Ctx& c) {
  static const std::vector<int> K{4326, 4258, 28992, 32631, 32733, 25832, 3857, 27700, 2154, 32601, 32760, 31370}; int code = c.pick(K); auto r = T::createSptRef(mc::str("EPSG:", code), c.flag()); const char* a = r->GetAuthorityCode(nullptr); c.check(a && std::string(a) == std::to_string(code), "reference-code", mc::str(code)); c.check(r->GetAxisMappingStrategy() == OAMS_TRADITIONAL_GIS_ORDER, "axis-order"); c.nontrivial(mc::str(code)); c.outcome("ok");
}
// -- a position's zone is the 6-degree band it lies in
static void zones(mc::Ctx& c) {
  static const std::vector<double> OFF{0, 1e-7, 5.9999999, 3, 0.5, 5.9999}, LAT{-79.5, -0.0625, 0.0625, 47.1, 83.5, -45.2, -16.75, 12.25, 44.4, 70.3}; int band = c.choose(61); double off = OFF[c.choose(c.tier(3, 6))]; if (band == 60) c.require(off == 0); double lon = -180 + 6 * band + off, lat = LAT[c.choose(c.tier(5, 10))]; bool opt = c.flag(); int from = c.choose(3); bool europe = lon > -16.1 && lon < 32.88 && lat > 40.18 && lat < 84.73; if (from == 2 && std::fabs(lon) == 180) c.require(false); if (band == 60) band = 0; Field f; c.note(lon, ",", lat, " from ", from, " ", opt);
  bool cells = c.thorough() ? c.flag() : band % 2; if (cells) { Cells k(Cell(LinearRing({Point(lon, lat), Point(lon + 1e-8, lat), Point(lon, lat + 1e-8), Point(lon, lat)}))); f = Field(k, "f"); } else f.setRefPoint(Point(lon, lat)); if (from < 2) f.setEPSGCoordSystem(from ? 4258 : 4326);
  T::transformToUTM(f, opt); c.check(f.isCoordSystemUTM(), "to-utm"); c.eq(f.getUTMZone(), std::to_string(band + 1), "position-zone", f.getCRS()); c.eq(f.getUTMHemisphere(), std::string(lat > 0 ? "+north" : "+south"), "position-hemisphere", f.getCRS());
  bool etrs = from == 1 || (from == 2 && opt && europe); c.eq(upper(f.getUTMDatum()), std::string(etrs ? "ETRS89" : "WGS84"), "position-datum"); c.eq(f.getPrevCRS(), std::string(etrs ? "EPSG:4258" : "EPSG:4326"), "position-previous"); Point p = f.getRefPoint(); c.check(p.getX() > 100000 && p.getX() < 900000 && p.getY() > 0 && p.getY() < 1e7, "position-coordinates", mc::str(p.getX(), " ", p.getY())); double n = lat > 0 ? p.getY() : 1e7 - p.getY(); c.near(n, std::fabs(lat) * 110900, 0.02 * std::fabs(n) + 50, "position-coordinates", "northing"); c.near((p.getX() - 500000) / (111320 * std::cos(lat * M_PI / 180)), lon == 180 ? -3 : lon - (-177 + 6 * band), 0.02, "position-coordinates", "easting"); c.nontrivial(c.trace()); c.outcome(f.getCRS());
}
// -- what is no coordinate system is rejected, and leaves what it was given alone
static void rejected(mc::Ctx& c, const std::string& s, bool deep) {
  auto isThrown = [&](auto f) { try { f(); return false; } catch (const std::exception&) { return true; } };
  c.check(isThrown([&] { T::createSptRef(s); }), "accepted", "createSptRef '" + s + "'"); c.check(!isThrown([&] { auto r = T::createSptRef(s, true); if (!r) throw std::runtime_error("null"); }), "not-silent", "createSptRef '" + s + "'"); if (!deep) return;
  c.check(isThrown([&] { T::generateCoordTransf(s, "EPSG:4326"); }) && isThrown([&] { T::generateCoordTransf("EPSG:4326", s); }), "accepted", "generateCoordTransf '" + s + "'"); Field f(Cells(Cell(LinearRing({Point(5, 52), Point(5.1, 52), Point(5, 52.1), Point(5, 52)}))), "id"); f.setCRS("EPSG:4326"); f.setPrevCRS("EPSG:4258"); Field o = f.clone(); c.check(isThrown([&] { T::transform(f, s); }), "accepted", "transform to '" + s + "'"); auto same = [&] { return f.getCRS() == o.getCRS() && f.getPrevCRS() == o.getPrevCRS() && f.getId() == o.getId() && f.getRefPoint() == o.getRefPoint() && f.getField() == o.getField(); }; c.check(same(), "field-changed", "to '" + s + "'"); f.setCRS(s); o.setCRS(s); c.check(isThrown([&] { T::transform(f, "EPSG:28992"); }), "accepted", "transform from '" + s + "'"); c.check(same(), "field-changed", "from '" + s + "'"); if (!s.empty()) { c.check(isThrown([&] { T::transformToUTM(f); }), "accepted", "to UTM from '" + s + "'"); c.check(same(), "field-changed", "to UTM from '" + s + "'"); } c.check(isThrown([&] { T::getRefPointInGPS(f); }), "accepted", "GPS from '" + s + "'"); f.setCRS("EPSG:4326"); f.setPrevCRS(s); c.check(isThrown([&] { T::transformToPrevCRS(f); }), "accepted", "back to '" + s + "'"); c.check(f.getCellsAbsPosition() == o.getCellsAbsPosition() && f.getCRS() == "EPSG:4326", "field-changed", "back to '" + s + "'");
}
static void malformed(mc::Ctx& c) {
  static const std::vector<std::string> A{"E", "EPSG", "UTM", ":", "3", "N", " ", "x", "-"}; int n = c.choose(c.tier(5, 6)); std::string s; for (int i = 0; i < n; ++i) s += c.pick(A); bool epsgNum = false; auto k = s.find("EPSG:"); if (k != std::string::npos) { size_t j = k + 5; while (j < s.size() && s[j] == ' ') ++j; epsgNum = j < s.size() && isdigit(s[j]); } auto u = s.find("UTM:"); bool utmNum = false; if (u != std::string::npos) { size_t j = u + 4; while (j < s.size() && !isalnum(s[j])) ++j; utmNum = j + 1 < s.size() && isdigit(s[j]); } bool utmAny = s.find("UTM:") != std::string::npos && s.find('3') != std::string::npos; c.require(!(epsgNum || utmNum || utmAny)); c.note("'", s, "'"); rejected(c, s, n < 3); c.nontrivial(s); c.outcome("rejected");
}
static void senseless(mc::Ctx& c) {   // right form, no such system
  static const std::vector<std::string> S{"", "NONE", "EPSG:", "EPSG:x", "EPSG:0", "EPSG:-4326", "EPSG:1", "EPSG:99999", "EPSG:999999999999999999999", "UTM:", "UTM:N", "UTM:0N", "UTM:61N", "UTM:99S datum:etrs89", "UTM:00S", "UTM:31N datum:NOSUCH", "UTM:31N datum:x", "epsg:4326", "utm:31N", "WGS84", "4326", "EPSG 4326"}; auto& s = c.pick(S); c.note("'", s, "'"); rejected(c, s, true); c.nontrivial(s); c.outcome("rejected");
}
static void local(mc::Ctx& c) {   // no system given: degrees are recognised, anything else is rejected and left alone
  static const std::vector<std::pair<double, double>> P{{5, 52}, {-70, -20}, {170, 45}, {179.99, -89.9}, {200, 20}, {5, 95}, {1e5, 4e5}, {-181, 0}, {0, 0}}; auto [x, y] = c.pick(P); bool cells = c.flag(), opt = c.flag(); Field f; if (cells) f = Field(Cells(Cell(LinearRing({Point(x, y), Point(x + 1e-4, y), Point(x, y + 1e-4), Point(x, y)}))), "id"); else f.setRefPoint(Point(x, y)); Cells abs = f.getCellsAbsPosition(); Point r = f.getRefPoint(); c.note(x, ",", y); bool deg = std::fabs(x) < 180 && std::fabs(y) < 90 && !(x == 0 && y == 0), thrown = false; try { T::transformToUTM(f, opt); } catch (const std::exception&) { thrown = true; } c.eq(thrown, !deg, "local"); if (thrown) c.check(f.getCRS().empty() && f.getPrevCRS().empty() && f.getRefPoint() == r && f.getCellsAbsPosition() == abs, "local-changed"); else c.check(f.isCoordSystemUTM(), "local"); c.nontrivial(c.trace()); c.outcome(f.getCRS());
}
static void setup() { CPLPushErrorHandler(CPLQuietErrorHandler); mc::add("utm", utm); mc::add("epsg", epsg, 1); mc::add("histories", histories, 3); mc::add("known", known); mc::add("zones", zones); mc::add("malformed", malformed); mc::add("senseless", senseless, 1); mc::add("local", local); }
MC_MAIN
