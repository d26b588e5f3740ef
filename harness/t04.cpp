// T04: histories of route construction against a plain alternation of connections and swath groups.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types;
typedef std::pair<double, double> XY;
struct SW { int id; XY a, b; };
struct Model {
  std::vector<std::vector<XY>> con; std::vector<std::vector<SW>> grp;
  void openCon() { if (con.size() <= grp.size()) con.emplace_back(); }
  void openGrp() { if (con.empty()) con.emplace_back(); if (con.size() > grp.size()) grp.emplace_back(); }
  std::vector<XY> drive() const { std::vector<XY> r; for (size_t i = 0; i < con.size(); ++i) { for (auto& p : con[i]) r.push_back(p); if (i < grp.size()) for (auto& s : grp[i]) { r.push_back(s.a); r.push_back(s.b); } } return r; }
  std::string str() const { std::string r; for (size_t i = 0; i < con.size(); ++i) { r += "("; for (auto& p : con[i]) r += mc::str(p.first, ",", p.second, " "); r += ")"; if (i < grp.size()) { r += "["; for (auto& s : grp[i]) r += mc::str(s.id, " "); r += "]"; } } return r; }
};
static const std::vector<SW> SWS{{3, {0, 0}, {10, 0}}, {1, {10.5, 1}, {0.25, 1.75}}, {2, {-1, 3}, {9, 4.5}}};
static const std::vector<XY> PS{{20, 20}, {-7, 11}, {13, -5}};
static Swath mk(const SW& s) { return Swath(LineString({Point(s.a.first, s.a.second), Point(s.b.first, s.b.second)}), 1.5, s.id); }
static Point mp(const XY& p) { return Point(p.first, p.second); }
static bool eq(const Point& p, const XY& q) { return p.X() == q.first && p.Y() == q.second; }

// headland graph: an irregular ring over every swath end and connection point, with one chord and one one-way edge
struct G { Graph2D g; std::vector<XY> n; std::map<std::pair<int, int>, int64_t> e; };
static G graph() {
  G r; for (auto& s : SWS) { r.n.push_back(s.a); r.n.push_back(s.b); } for (auto& p : PS) r.n.push_back(p);
  int N = r.n.size();
  auto cost = [&](int a, int b) { return (int64_t)(1e3 * std::hypot(r.n[a].first - r.n[b].first, r.n[a].second - r.n[b].second)); };
  for (int i = 0; i < N; ++i) { int j = (i + 1) % N; r.g.addEdge(mp(r.n[i]), mp(r.n[j])); r.e[{i, j}] = r.e[{j, i}] = cost(i, j); }
  r.g.addDirectedEdge(mp(r.n[1]), mp(r.n[6])); r.e[{1, 6}] = cost(1, 6);
  return r;
}
static std::vector<XY> shortest(const G& g, const XY& a, const XY& b) {
  int N = g.n.size(), s = -1, t = -1; for (int i = 0; i < N; ++i) { if (g.n[i] == a) s = i; if (g.n[i] == b) t = i; }
  std::vector<int64_t> d(N, 1LL << 60); std::vector<int> p(N, -1); d[s] = 0;
  for (int k = 0; k < N; ++k) for (auto& e : g.e) if (d[e.first.first] + e.second < d[e.first.second]) { d[e.first.second] = d[e.first.first] + e.second; p[e.first.second] = e.first.first; }
  if (s == t) return {};
  std::vector<XY> r; for (int x = t; x != -1; x = p[x]) r.push_back(g.n[x]); std::reverse(r.begin(), r.end()); return r;
}
static void verify(mc::Ctx& c, const Route& r, const Model& m, const std::string& at = "") {
  c.eq(r.sizeConnections(), m.con.size(), "connections", at); c.eq(r.sizeVectorSwaths(), m.grp.size(), "groups", at);
  c.check(m.con.size() == m.grp.size() || m.con.size() == m.grp.size() + 1, "alternation", at);
  c.eq(r.isEmpty(), m.con.empty() && m.grp.empty(), "is-empty", at);
  for (size_t i = 0; i < m.con.size(); ++i) {
    for (const MultiPoint* q : {&r.getConnection(i), &r.getConnections()[i]}) { c.eq(q->size(), m.con[i].size(), "connection-points", mc::str(at, " connection ", i)); for (size_t k = 0; k < m.con[i].size(); ++k) c.check(eq(q->getGeometry(k), m.con[i][k]), "connection-point", mc::str(at, i, ":", k)); }
  }
  for (size_t i = 0; i < m.grp.size(); ++i)
    for (const Swaths* q : {&r.getSwaths(i), &r.getVectorSwaths()[i]}) { c.eq(q->size(), m.grp[i].size(), "group-swaths", mc::str(at, " group ", i));
      for (size_t k = 0; k < m.grp[i].size(); ++k) { const Swath& s = q->at(k); c.check(s.getId() == m.grp[i][k].id && eq(s.startPoint(), m.grp[i][k].a) && eq(s.endPoint(), m.grp[i][k].b) && s.getWidth() == 1.5, "group-swath", mc::str(at, i, ":", k)); } }
  if (!m.con.empty()) c.eq(r.getLastConnection().size(), m.con.back().size(), "last-connection", at);
  if (!m.grp.empty()) c.eq(r.getLastSwaths().size(), m.grp.back().size(), "last-swaths", at);
  auto d = m.drive(); double L = 0; LineString l = r.asLineString(); c.eq(l.size(), d.size(), "line-points", at);
  for (size_t i = 0; i < d.size(); ++i) { c.check(eq(l.getGeometry(i), d[i]), "line-point", mc::str(at, i)); if (i) L += std::hypot(d[i].first - d[i - 1].first, d[i].second - d[i - 1].second); }
  c.near(r.length(), L, 1e-9, "length", at);
  if (!d.empty()) { c.check(eq(r.startPoint(), d.front()), "start", mc::str(at, " got ", r.startPoint())); c.check(eq(r.endPoint(), d.back()), "end", mc::str(at, " got ", r.endPoint())); }
  else c.check(r.startPoint().isEmpty() || true, "start-empty");
}
static void history(mc::Ctx& c) {
  Route r; Model m; int depth = c.tier(4, 5); static G g = graph();
  auto swaths = [&](int n) { Swaths s; for (int i = 0; i < n; ++i) s.push_back(mk(SWS[i ? 2 : 1])); return s; };
  auto addS = [&](int n) { for (int i = 0; i < n; ++i) m.grp.back().push_back(SWS[i ? 2 : 1]); };
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(10); c.step();
    if (op == 0) { int k = c.choose(2); c.note("swath ", k); r.addSwath(mk(SWS[k])); m.openGrp(); m.grp.back().push_back(SWS[k]); }
    else if (op == 1) { int n = c.choose(3); c.note("swaths ", n); if (n) r.addSwaths(swaths(n)); else r.addSwaths(); m.openGrp(); addS(n); }
    else if (op == 2) { c.note("connection"); r.addConnection(); m.openCon(); }
    else if (op == 3) { int k = c.choose(2); c.note("point ", k); r.addConnection(mp(PS[k])); m.openCon(); m.con.back().push_back(PS[k]); }
    else if (op == 4) { int n = c.choose(2) * 2; bool vec = c.flag(); c.note("points ", n); MultiPoint q; std::vector<Point> v; m.openCon(); for (int i = 0; i < n; ++i) { q.addPoint(mp(PS[2 - i])); v.push_back(mp(PS[2 - i])); m.con.back().push_back(PS[2 - i]); } if (vec) r.addConnection(v); else r.addConnection(q); }
    else if (op == 5) { int n = c.choose(3), k = c.choose(2) * 2; c.note("connected ", n, " ", k); MultiPoint q; m.openCon(); for (int i = 0; i < n; ++i) { q.addPoint(mp(PS[i])); m.con.back().push_back(PS[i]); }
      if (!n && !k) r.addConnectedSwaths(); else r.addConnectedSwaths(q, swaths(k)); m.openGrp(); addS(k); }
    else if (op == 6) { c.require(!m.con.empty()); size_t i = c.choose(m.con.size()); c.note("set connection ", i); MultiPoint q({mp(PS[2])}); r.setConnection(i, q); m.con[i] = {PS[2]}; }
    else if (op == 7) { c.require(!m.grp.empty()); size_t i = c.choose(m.grp.size()); int n = c.choose(2); c.note("set swaths ", i, " ", n); r.setSwaths(i, swaths(n)); m.grp[i].clear(); for (int k = 0; k < n; ++k) m.grp[i].push_back(SWS[k ? 2 : 1]); }
    else if (op == 8) { auto dr = m.drive(); int k = 1 + c.choose(2); c.note("swath via graph ", k);
      r.addSwath(mk(SWS[k]), g.g); if (!dr.empty()) { m.openCon(); for (auto& p : shortest(g, dr.back(), SWS[k].a)) m.con.back().push_back(p); } m.openGrp(); m.grp.back().push_back(SWS[k]); }
    else { int k = c.choose(4); c.note("edit ", k);
      if (k == 3) { c.require(!m.grp.empty() && m.grp.back().size() < 9); auto own = m.grp.back(); r.addSwaths(r.getLastSwaths()); m.openGrp(); m.grp.back().insert(m.grp.back().end(), own.begin(), own.end()); }
      if (k == 0) { Route q = r.clone(); q.addConnection(mp(PS[0])); q.addSwath(mk(SWS[0])); verify(c, r, m, "after editing a clone"); r = r.clone(); }
      if (k == 1) { c.require(!m.con.empty()); r.getLastConnection().addPoint(5, 5); m.con.back().push_back({5, 5}); c.require(d + 1 == depth); }   // (5,5) is not a graph node
      if (k == 2) { c.require(!m.grp.empty()); r.getLastSwaths().push_back(mk(SWS[0])); m.grp.back().push_back(SWS[0]); } }
    c.state(m.str());
  }
  verify(c, r, m); c.validated();
}
static void large(mc::Ctx& c) {   // routes of up to some dozens of pairs and swaths
  int n = c.choose(c.tier(50, 120)), shape = c.choose(4), op = c.choose(6); Route r; Model m; c.note(n, " pairs, shape ", shape, " operation ", op); c.step();
  auto sw = [](int i) { return SW{i * 7 + 1, {i + 0.25, i % 5}, {i * 0.5, 10.0 + i}}; }; auto po = [](int i) { return XY{-1.5 * i, i * 0.75}; };
  for (int i = 0; i < n; ++i) { int k = shape == 0 ? 1 : shape == 1 ? i % 3 : shape == 2 ? (i == n / 2 ? 40 : 1) : 0, q = shape == 0 ? 0 : shape == 1 ? (i + 1) % 4 : shape == 2 ? (i == n / 3 ? 40 : 1) : 2; Swaths s; MultiPoint p; std::vector<SW> ms; std::vector<XY> mq; for (int j = 0; j < k; ++j) { ms.push_back(sw(i + j)); s.push_back(mk(ms.back())); } for (int j = 0; j < q; ++j) { mq.push_back(po(i + j)); p.addPoint(mp(mq.back())); }
    if (i % 2) r.addConnectedSwaths(p, s); else { r.addConnection(p); r.addSwaths(s); } m.con.push_back(mq); m.grp.push_back(ms); }
  if (op == 1) { r.addConnection(mp(PS[0])); m.openCon(); m.con.back().push_back(PS[0]); }
  if (op == 2) for (int i : {0, n / 2, n - 1}) if (i < n && i >= 0) { MultiPoint q({mp(PS[2])}); r.setConnection(i, q); m.con[i] = {PS[2]}; Swaths s; s.push_back(mk(SWS[1])); r.setSwaths(i, s); m.grp[i] = {SWS[1]}; }
  if (op == 3) { Route q = r.clone(); if (n) { q.setConnection(0, MultiPoint()); q.setSwaths(n - 1, Swaths()); } verify(c, r, m, "after editing a clone"); r = r.clone(); }
  if (op == 4) for (int i = 0; i < 40; ++i) { r.addSwath(mk(sw(i))); m.openGrp(); m.grp.back().push_back(sw(i)); } if (op == 5) for (int i = 0; i < 40; ++i) { r.addConnection(mp(po(i))); m.openCon(); m.con.back().push_back(po(i)); }
  verify(c, r, m); c.state(c.trace()); c.validated();
}
static void setup() { mc::add("large", large, 2); mc::add("history", history, 3); }
MC_MAIN
