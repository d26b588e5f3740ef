// T02: histories of operations on swaths and their collections against a plain list of segments.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types;
struct XY { double first, second, z = 0; XY(double a, double b, double c = 0) : first(a), second(b), z(c) {} bool operator<(const XY& o) const { return first < o.first || (first == o.first && second < o.second); } };
struct MS { std::vector<XY> p; double w; int id; SwathType t; bool fwd; };
typedef std::vector<MS> ML;

static LineString toLine(const std::vector<XY>& p) { LineString l; for (auto& q : p) { if (q.z == 0) l.addPoint(q.first, q.second); else l.addPoint(q.first, q.second, q.z); } return l; }
static double ang(XY a, XY b) { double v = std::atan2(b.second - a.second, b.first - a.first); return v < 0 ? v + 2 * M_PI : v; }
static void rev(MS& m) { std::reverse(m.p.begin(), m.p.end()); m.fwd = !m.fwd; }
static double mlen(const MS& m) { double s = 0; for (size_t i = 0; i + 1 < m.p.size(); ++i) s += std::hypot(m.p[i + 1].first - m.p[i].first, m.p[i + 1].second - m.p[i].second); return s; }
static bool angEq(double a, double b) { double d = std::fmod(std::fabs(a - b), 2 * M_PI); return d < 1e-9 || 2 * M_PI - d < 1e-9; }

static void cmp(mc::Ctx& c, const Swath& s, const MS& m, const std::string& at) {
  c.eq(s.getId(), m.id, "id", at); c.eq(s.getWidth(), m.w, "width", at); c.check(s.getType() == m.t, "type", at);
  c.eq(s.getCreationDir(), m.fwd, "creation-dir", at);
  c.eq(s.numPoints(), m.p.size(), "points", at);
  for (size_t i = 0; i < m.p.size(); ++i) { Point q = s.getPoint(i); c.check(q.X() == m.p[i].first && q.Y() == m.p[i].second && q.Z() == m.p[i].z, "coordinates", mc::str(at, " point ", i, " is ", q.X(), ",", q.Y(), ",", q.Z())); }
  c.check(s.startPoint().X() == m.p.front().first && s.startPoint().Y() == m.p.front().second, "start", at);
  c.check(s.endPoint().X() == m.p.back().first && s.endPoint().Y() == m.p.back().second, "end", at);
  c.near(s.length(), mlen(m), 1e-9, "length", at);
  if (m.p.size() >= 2) {
    c.check(angEq(s.getInAngle(), ang(m.p[0], m.p[1])), "in-angle", mc::str(at, " ", s.getInAngle()));
    c.check(angEq(s.getOutAngle(), ang(m.p[m.p.size() - 2], m.p.back())), "out-angle", mc::str(at, " ", s.getOutAngle()));
  }
}
static void cmp(mc::Ctx& c, const Swaths& s, const ML& m, const std::string& at = "") {
  c.eq(s.size(), m.size(), "size", at);
  size_t i = 0; for (auto& x : s) { cmp(c, x, m[i], mc::str(at, "[", i, "]")); ++i; }
  for (i = 0; i < m.size(); ++i) { c.eq(s.at(i).getId(), m[i].id, "at"); c.eq(s[i].getId(), m[i].id, "index"); }
  if (!m.empty()) c.eq(s.back().getId(), m.back().id, "back");
  bool thrown = false; try { s.at(m.size()); } catch (const std::out_of_range&) { thrown = true; } c.check(thrown, "at-past-end", at);
}
static std::string str(const ML& m) { std::string r; for (auto& x : m) { r += mc::str(x.id, "/", x.w, "/", (int)x.t, "/", x.fwd, ":"); for (auto& p : x.p) r += mc::str(p.first, ",", p.second, ",", p.z, " "); } return r; }

// the segments histories are made of; the last two are drawn the other way round
static const std::vector<std::vector<XY>> LINES{{{0, 0}, {5, 0}}, {{0, 2, 1}, {3, 2, 0.5}, {6, 3, 1.5}}, {{-1, 1}, {4, 1.5}}, {{5, 3}, {0, 3}}};
static XY dir(const MS& m) { return {m.p.back().first - m.p.front().first, m.p.back().second - m.p.front().second}; }
static bool sameWay(const MS& a, const MS& b) { auto u = dir(a), v = dir(b); return u.first * v.first + u.second * v.second > 0; }

static void listHistory(mc::Ctx& c, bool mixed) {
  Swaths s; ML m; int depth = c.tier(4, 5), next = 7; bool repathed = false; const int NL = mixed ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(13); c.step();
    auto fresh = [&](int l, double w, SwathType t) { MS x{LINES[l], w, next, t, true}; next -= 3; return x; };
    if (op == 0) { int l = c.choose(NL); MS x = fresh(l, 1 + l, SwathType(l & 1)); c.note("push line", l); s.push_back(Swath(toLine(x.p), x.w, x.id, x.t)); m.push_back(x); }
    else if (op == 1) { int l = NL - 1; MS x = fresh(l, 2, SwathType::HEADLAND); c.note("emplace line", l); s.emplace_back(toLine(x.p), x.w, x.id, x.t); m.push_back(x); }
    else if (op == 2) { int k = c.choose(4); c.note("append ", k);
      if (k == 3) { c.require(m.size() < 8); ML om = m; s.append(s); s = s.clone(); for (auto& x : om) m.push_back(x); continue; }   // copies share their geometry until cloned
      if (k == 0) { MS x{LINES[1], 3, (int)m.size(), SwathType::MAINLAND, true}; s.append(toLine(x.p), 3); m.push_back(x); }
      else if (k == 1) { MultiLineString ml; for (int l : {0, 2}) { ml.addGeometry(toLine(LINES[l])); m.push_back({LINES[l], 1.5, (int)m.size(), SwathType::HEADLAND, true}); } s.append(ml, 1.5, SwathType::HEADLAND); }
      else { Swaths o; ML om; for (int l : {2, 0}) { MS x = fresh(l, 4, SwathType::MAINLAND); om.push_back(x); Swath sw(toLine(x.p), x.w, x.id, x.t); if (l == 0) { sw.reverse(); rev(om.back()); } o.emplace_back(sw); }
        s.append(o); for (auto& x : om) m.push_back(x); cmp(c, o, om, "appended"); } }
    else if (op == 3) { c.note("reverse list"); s.reverse(); std::reverse(m.begin(), m.end()); }
    else if (op == 4) { std::set<int> ids; for (auto& x : m) ids.insert(x.id); c.require(ids.size() == m.size()); c.note("sort"); s.sort();
      for (auto& x : m) if (x.p.back() < x.p.front()) rev(x);
      std::sort(m.begin(), m.end(), [](const MS& a, const MS& b) { return a.id < b.id; }); }
    else if (op == 5) { c.note("alternate"); s.reverseDirOddSwaths(); for (size_t i = 1; i < m.size(); ++i) if (sameWay(m[i], m[i - 1])) rev(m[i]); }
    else if (op == 6) { const double R[3][3] = {{3.5, 1, 0}, {-2, 0, 0.5}, {0, -1, -1}}; auto& v = R[c.choose(3)]; c.note("move ", v[0], ",", v[1], ",", v[2]); s.moveTo(Point(v[0], v[1], v[2])); for (auto& e : m) for (auto& p : e.p) { p.first += v[0]; p.second += v[1]; p.z += v[2]; } }
    else if (op == 7) { c.require(!m.empty()); int i = c.choose(m.size()); c.note("reverse swath ", i); s[i].reverse(); rev(m[i]); }
    else if (op == 8) { c.require(!mixed && !repathed && m.size() >= 2); int i = c.choose(m.size()), j = c.choose(m.size()); bool same = c.flag(); c.require(i != j);
      c.note(same ? "target same " : "target opposite ", i, " ", j);
      if (same) s[i].targetSameDirAs(s[j]); else s[i].targetOppositeDirAs(s[j]); if (sameWay(m[i], m[j]) != same) rev(m[i]); c.eq(s[i].hasSameDir(s[j]), same, "has-same-dir"); }
    else if (op == 9) { c.require(!m.empty()); int i = c.choose(m.size()); int k = c.choose(4); c.note("set ", k, " on ", i);
      if (k == 0) { s.at(i).setId(50); m[i].id = 50; } if (k == 1) { s.at(i).setWidth(9); m[i].w = 9; } if (k == 2) { s.at(i).setType(SwathType::HEADLAND); m[i].t = SwathType::HEADLAND; }
      if (k == 3) { s.at(i).setPath(toLine(LINES[1])); m[i].p = LINES[1]; repathed = true; } }
    else if (op == 10) { int k = c.choose(4); c.note("invalid ", k); bool th = false;
      try { if (k == 0) s.append(toLine(LINES[0])); if (k == 1) s.emplace_back(toLine(LINES[0]), -1.0); if (k == 2) { if (m.empty()) throw std::invalid_argument(""); s.at(0).setWidth(0); }
        if (k == 3) { MultiLineString ml; ml.addGeometry(toLine(LINES[0])); s.append(ml, -2); } }
      catch (const std::exception&) { th = true; }
      c.check(th, "invalid-width-accepted", mc::str(k)); }
    else if (op == 11) { c.note("clone"); s = s.clone(); }
    else { c.require(!m.empty()); c.note("replace last"); MS x = fresh(1, 0.5, SwathType::MAINLAND); s.back() = Swath(toLine(x.p), x.w, x.id); m.back() = x; }
    c.state(str(m));
  }
  cmp(c, s, m); c.validated();
  // areas: width times length of a straight swath
  for (size_t i = 0; i < m.size(); ++i) if (m[i].p.size() == 2) c.near(s[i].area(), m[i].w * mlen(m[i]), 1e-6, "area");
}
static void byCells(mc::Ctx& c) {
  int k = c.choose(c.tier(4, 5)); SwathsByCells b; std::vector<ML> m; int id = 10; std::string sizes;
  for (int i = 0; i < k; ++i) { int n = c.choose(3); Swaths s; ML l; for (int j = 0; j < n; ++j) { int ln = (i + j) % 4; l.push_back({LINES[ln], 1.0 + i, id, SwathType(j & 1), true}); s.emplace_back(toLine(LINES[ln]), 1.0 + i, id, SwathType(j & 1)); --id; }
    if (i % 2) b.push_back(s); else b.emplace_back(s); m.push_back(l); sizes += mc::str(n, " "); }
  c.note("sizes ", sizes); c.step();
  int edit = c.choose(5);
  if (edit == 1) { b.reverse(); std::reverse(m.begin(), m.end()); c.note("reverse"); }
  if (edit == 2) { b = b.clone(); c.note("clone"); }
  if (edit == 3) { Swaths s; s.emplace_back(toLine(LINES[0]), 2, 99); if (k) { b[0] = s; m[0] = {{LINES[0], 2, 99, SwathType::MAINLAND, true}}; } else { b.push_back(s); m.push_back({{LINES[0], 2, 99, SwathType::MAINLAND, true}}); } c.note("replace first"); }
  ML flat; for (auto& l : m) for (auto& x : l) flat.push_back(x);
  if (edit == 4 && !flat.empty()) { size_t i = c.choose(flat.size()); b.getSwath(i).setId(77); b.getSwath(i).reverse(); size_t q = i; for (auto& l : m) { if (q < l.size()) { l[q].id = 77; rev(l[q]); break; } q -= l.size(); } flat.clear(); for (auto& l : m) for (auto& x : l) flat.push_back(x); c.note("edit ", i); }
  c.eq(b.size(), m.size(), "cells"); c.eq(b.sizeTotal(), flat.size(), "size-total");
  const SwathsByCells& cb = b;
  size_t i = 0; for (auto& l : cb) { cmp(c, l, m[i], mc::str("cell ", i)); ++i; }
  for (i = 0; i < m.size(); ++i) { cmp(c, cb.at(i), m[i]); cmp(c, cb[i], m[i]); }
  if (!m.empty()) cmp(c, cb.back(), m.back(), "back");
  for (i = 0; i < flat.size(); ++i) { cmp(c, cb.getSwath(i), flat[i], mc::str("global ", i)); cmp(c, b.getSwath(i), flat[i], mc::str("global ", i)); }
  for (size_t o : {flat.size(), flat.size() + 1, (size_t)-1}) {
    bool t1 = false, t2 = false; try { cb.getSwath(o); } catch (const std::out_of_range&) { t1 = true; } try { b.getSwath(o); } catch (const std::out_of_range&) { t2 = true; }
    c.check(t1 && t2, "global-past-end", mc::str("index ", o, " accepted"));
  }
  bool t = false; try { cb.at(m.size()); } catch (const std::out_of_range&) { t = true; } c.check(t, "cell-past-end");
  cmp(c, b.flatten(), flat, "flatten");
  c.state(mc::str(sizes, edit, str(flat))); c.validated();
}
// swaths cut to a cell: the pieces inside, numbered on
static void insideCells(mc::Ctx& c) {
  double x0 = c.pick(std::vector<double>{0, 1, 4}), w = 6; int holes = c.choose(2); int nl = 1 + c.choose(3); int how = c.choose(4); int pre = c.choose(2);
  LinearRing r{Point(x0, 0), Point(x0 + w, 0), Point(x0 + w, 10), Point(x0, 10), Point(x0, 0)};
  LinearRing h{Point(x0 + 2, 2), Point(x0 + 4, 2), Point(x0 + 4, 8), Point(x0 + 2, 8), Point(x0 + 2, 2)};
  Cell cell(r); if (holes) cell.addRing(h);
  Cells cells(cell); Swaths s; ML m;
  if (pre) { s.append(toLine(LINES[0]), 1); m.push_back({LINES[0], 1, 0, SwathType::MAINLAND, true}); }
  MultiLineString ml; std::vector<XY> want;  // y, and pieces
  for (int l = 0; l < nl; ++l) { double y = 1 + 3 * l; ml.addGeometry(LineString({Point(-5, y), Point(20, y)})); }
  for (int l = 0; l < nl; ++l) {
    double y = 1 + 3 * l; std::vector<XY> seg; if (holes && y > 2 && y < 8) seg = {{x0, x0 + 2}, {x0 + 4, x0 + w}}; else seg = {{x0, x0 + w}};
    for (auto& q : seg) m.push_back({{{q.first, y}, {q.second, y}}, 2, (int)m.size(), SwathType::HEADLAND, true});
  }
  if (how == 0) s.append(ml, cell, 2, SwathType::HEADLAND);
  if (how == 1) s.append(ml, cells, 2, SwathType::HEADLAND);
  if (how == 2) for (auto&& l : ml) s.append(l, cell, 2, SwathType::HEADLAND);
  if (how == 3) for (auto&& l : ml) s.append(l, cells, 2, SwathType::HEADLAND);
  c.note("cell at ", x0, " holes ", holes, " lines ", nl, " how ", how); c.step();
  c.eq(s.size(), m.size(), "pieces");
  // pieces of one line may come in either order and direction: compare as sets per line, ids by position
  for (size_t i = 0; i < s.size(); ++i) { c.eq(s[i].getId(), (int)i, "piece-id"); c.eq(s[i].getWidth(), i < (size_t)pre ? 1.0 : 2.0, "piece-width"); c.check((s[i].getType() == SwathType::HEADLAND) == (i >= (size_t)pre), "piece-type"); }
  std::multiset<std::string> a, b;
  auto key = [](XY p, XY q) { if (q < p) std::swap(p, q); return mc::str(p.first, ",", p.second, "-", q.first, ",", q.second); };
  for (auto& x : s) a.insert(key({x.startPoint().X(), x.startPoint().Y()}, {x.endPoint().X(), x.endPoint().Y()}));
  for (auto& x : m) b.insert(key(x.p.front(), x.p.back()));
  c.check(a == b, "piece-geometry", *a.begin());
  c.state(c.trace()); c.validated();
}
static void singles(mc::Ctx& c) {
  int k = c.choose(6); double w = c.pick(std::vector<double>{0, -1, -1e-300, 1e-9, 3, -INFINITY}); c.step(); bool ok = w > 0, th = false; c.note("ctor ", k, " width ", w);
  Swath s(toLine(LINES[0]), 2.5, 4, SwathType::HEADLAND);
  try {
    if (k == 0) Swath x(w); if (k == 1) Swath x(toLine(LINES[0]), w); if (k == 2) s.setWidth(w); if (k == 3) Swath x(toLine(LINES[0]), w, 3, SwathType::HEADLAND);
    if (k == 4) { Swaths q; q.append(toLine(LINES[0]), w); } if (k == 5) { Swaths q; q.emplace_back(toLine(LINES[0]), w, 3); }
  } catch (const std::exception&) { th = true; }
  c.eq(th, !ok, "width-check");
  if (k != 2 || th) cmp(c, s, {LINES[0], 2.5, 4, SwathType::HEADLAND, true}, "after error");
  Swath e; c.check(e.getInAngle() == -1.0 && e.getOutAngle() == -1.0 && e.length() == 0, "empty-swath");
  // comparisons ignore the driving direction and order by id
  Swath a(toLine(LINES[0]), 1, 1), b = a.clone(); b.reverse(); c.check(a == b && !(a != b), "reverse-equal");
  Swath d(toLine(LINES[2]), 1, 2); c.check(a != d && a < d && d > a && a <= d && d >= a && !(a > d), "compare");
  c.state(c.trace()); c.validated();
}
// lists of every size up to a few dozen, in several input orders, through every operation
static void large(mc::Ctx& c) {
  int n = c.choose(c.tier(41, 101)), shape = c.choose(4), op = c.choose(8); Swaths s; ML m; c.note("size ", n, " shape ", shape, " operation ", op); c.step();
  for (int k = 0; k < n; ++k) { int id = shape == 0 ? k : shape == 1 ? n - 1 - k : shape == 2 ? (k * 7 + 3) % (n % 7 ? n : n + 1) : (k % 2 ? k : -k) * 1000003; auto& L = LINES[(k * k + shape) % (op == 5 ? 3 : 4)]; std::vector<XY> p; for (auto& q : L) p.push_back({q.first + 0.25 * k, q.second + k, q.z});
    MS x{p, 0.5 + 0.125 * k, id, SwathType(k % 3 == 1), true}; s.emplace_back(toLine(x.p), x.w, x.id, x.t); if (k % 5 == 2) { s.back().reverse(); rev(x); } m.push_back(x); }
  if (op == 1) { s.reverse(); std::reverse(m.begin(), m.end()); }
  if (op == 2) { s.sort(); for (auto& x : m) if (x.p.back() < x.p.front()) rev(x); std::sort(m.begin(), m.end(), [](const MS& a, const MS& b) { return a.id < b.id; }); }
  if (op == 3) { s.reverseDirOddSwaths(); for (size_t i = 1; i < m.size(); ++i) if (sameWay(m[i], m[i - 1])) rev(m[i]); }
  if (op == 4) { s.moveTo(Point(-0.5, 0, 2)); for (auto& e : m) for (auto& p : e.p) { p.first -= 0.5; p.z += 2; } }
  if (op == 5) { Swaths o = s.clone(); s.append(o); auto om = m; m.insert(m.end(), om.begin(), om.end()); MultiLineString ml; for (int i = 0; i < n; ++i) { ml.addGeometry(toLine(LINES[i % 4])); m.push_back({LINES[i % 4], 1.5, (int)m.size(), SwathType::MAINLAND, true}); } s.append(ml, 1.5); }
  if (op == 6) { s = s.clone(); for (auto& x : s) x.setType(SwathType::HEADLAND); for (auto& x : m) x.t = SwathType::HEADLAND; }
  if (op == 7) { SwathsByCells b; std::vector<ML> g; int i = 0; for (int k = 0; i < n; ++k) { Swaths q; ML l; for (int j = 0; j < k % 4 && i < n; ++j, ++i) { q.push_back(s[i]); l.push_back(m[i]); } b.push_back(q); g.push_back(l); }
    c.eq(b.sizeTotal(), m.size(), "size-total"); c.eq(b.size(), g.size(), "cells"); for (int k = 0; k < n; ++k) cmp(c, b.getSwath(k), m[k], mc::str("global ", k)); bool th = false; try { b.getSwath(n); } catch (const std::out_of_range&) { th = true; } c.check(th, "global-past-end"); s = b.flatten(); }
  cmp(c, s, m); c.state(str(m)); c.validated();
}
// when two swaths are the same, and how they are ordered
static void equality(mc::Ctx& c) {
  static const std::vector<XY> A{{0, 0}, {10, 0.1}, {0.1, 10}, {3.3, 7.1, 2}}; int n = c.tier(3, 4);
  auto chain = [&](int lo, int hi) { std::vector<XY> p; int k = lo + c.choose(hi - lo + 1), last = -1; for (int i = 0; i < k; ++i) { int j = c.choose(last < 0 ? 4 : 3); if (last >= 0 && j >= last) ++j; last = j; p.push_back(A[j]); } return p; };
  auto length = [](const std::vector<XY>& p) { double l = 0; for (size_t i = 0; i + 1 < p.size(); ++i) l += std::hypot(p[i + 1].first - p[i].first, p[i + 1].second - p[i].second); return l; };
  bool self = c.flag(); auto p = self ? chain(2, n + 2) : chain(2, n), q = self ? p : chain(2, n); double w = self || c.flag() ? 2 : 2.5; int ia = 1 + c.choose(2), ib = 1 + c.choose(2); bool ra = c.flag(), rb = c.flag(); c.note(p.size(), " and ", q.size(), " points, widths 2 and ", w); c.step();
  auto key = [](const XY& u) { return std::make_pair(u.first, u.second); };
  Swath a(toLine(p), 2, ia), b(toLine(q), w, ib); if (ra) a.reverse(); if (rb) b.reverse(); const Swath &x = a, &y = b;
  if (self) { for (int i = 0; i < 3; ++i) { c.check(x == y && y == x && !(x != y) && !(y != x), "same-swath", mc::str("reversed ", ra, rb)); b.reverse(); if (i == 1) { a.reverse(); } } Swath d = a.clone(); d.reverse(); c.check(d == a && a == d, "reverse-equal"); }
  else { bool ends = (key(p.front()) == key(q.front()) && key(p.back()) == key(q.back())), swapped = key(p.front()) == key(q.back()) && key(p.back()) == key(q.front()), len = std::fabs(length(p) - length(q)) < 1e-6;
    if (w != 2 || !len || (!ends && !swapped)) c.check(x != y && y != x && !(x == y) && !(y == x), "different-swath"); }
  c.check((x < y) == (ia < ib) && (x > y) == (ia > ib), "order"); if (ia != ib) c.check((x <= y) == (ia < ib) && (x >= y) == (ia > ib), "order"); else if (self) c.check(x <= y && x >= y, "order"); c.state(c.trace()); c.validated();
}
// lists made in one go
static void made(mc::Ctx& c) {
  int n = c.choose(c.tier(4, 5)); ML m; std::vector<Swath> v; c.note(n); c.step(); for (int i = 0; i < n; ++i) { int l = c.choose(4); m.push_back({LINES[l], 1.0 + i, c.choose(2) ? 7 - i : i, SwathType(c.choose(2)), true}); v.emplace_back(toLine(LINES[l]), 1.0 + i, m.back().id, m.back().t); }
  Swaths a(v); cmp(c, a, m, "vector"); if (n == 2) { Swaths b{v[0], v[1]}; cmp(c, b, m, "list"); } if (n == 3) { Swaths b{v[0], v[1], v[2]}; cmp(c, b, m, "list"); SwathsByCells g({Swaths{v[0]}, Swaths{}, Swaths{v[1], v[2]}}); c.eq(g.size(), size_t(3), "cells"); cmp(c, g[0], {m[0]}, "cell"); cmp(c, g[1], {}, "cell"); cmp(c, g[2], {m[1], m[2]}, "cell"); cmp(c, g.flatten(), m, "cells"); }
  SwathsByCells g(std::vector<Swaths>{a, Swaths(), a}); ML two = m; two.insert(two.end(), m.begin(), m.end()); c.eq(g.size(), size_t(3), "cells"); c.eq(g.sizeTotal(), two.size(), "cells-total"); cmp(c, g.flatten(), two, "cells"); for (size_t i = 0; i < two.size(); ++i) cmp(c, g.getSwath(i), two[i], "cells");
  Swaths e(n); c.eq(e.size(), size_t(n), "empty-swaths"); for (auto& s : e) { c.check(s.getPath().isEmpty() && s.getWidth() == 0 && s.getId() == 0 && s.length() == 0 && s.numPoints() == 0 && s.areaCovered().isEmpty() && s.area() == 0, "empty-swaths"); }
  SwathsByCells h(n); c.eq(h.size(), size_t(n), "empty-cells"); c.eq(h.sizeTotal(), size_t(0), "empty-cells"); c.state(c.trace()); c.validated();
}
static void setup() {
  mc::add("equality", equality, 4); mc::add("made", made, 2);
  mc::add("list", [](mc::Ctx& c) { listHistory(c, false); }, 3);
  mc::add("mixed", [](mc::Ctx& c) { listHistory(c, true); }, 3);
  mc::add("bycells", byCells, 3); mc::add("inside", insideCells, 2); mc::add("large", large, 2); mc::add("singles", singles, 1);
}
MC_MAIN
