// R01: every small set of swaths in 11 headland networks, with every tour the optimizer may answer.
#include "geo.h"
#include <array>
#include <iomanip>
#include "fields2cover/route_planning/route_planner_base.h"
#include "ortools/constraint_solver/routing.h"
using namespace geo; using namespace f2c::types;
struct Layout { const char* name; MPoly rings; std::vector<std::vector<P>> swaths; };
static const double N1 = 1.3e-8, N2 = 5e-5;
static std::vector<Layout> layouts() {
  Ring sq{{0, 0}, {20, 0}, {20, 16}, {0, 16}}; std::vector<Layout> v;
  v.push_back({"on the ring", {{sq}}, {{{3, 0}, {3, 16}}, {{7, 0}, {7, 16}}, {{12, 0}, {12, 16}}, {{18, 0}, {18, 16}}}});
  v.push_back({"inside the ring", {{sq}}, {{{3, 2}, {3, 13}}, {{7, 2}, {7, 13}}, {{12, 1}, {12, 15}}, {{2, 6}, {2, 9}}}});
  v.push_back({"hole", {{sq, {{8, 6}, {8, 10}, {12, 10}, {12, 6}}}}, {{{3, 0}, {3, 16}}, {{9, 0}, {9, 6}}, {{11, 10}, {11, 16}}, {{10, 10}, {10, 16}}}});
  v.push_back({"two holes", {{sq, {{5, 5}, {5, 8}, {8, 8}, {8, 5}}, {{12, 6}, {12, 10}, {15, 10}, {15, 6}}}}, {{{15, 7}, {20, 7}}, {{20, 9.5}, {15, 9}}, {{7, 8}, {7, 16}}, {{8, 6.5}, {12, 6.5}}}});
  v.push_back({"two cells", {{{{0, 0}, {8, 0}, {8, 16}, {0, 16}}}, {{{10, 0}, {20, 0}, {20, 16}, {10, 16}}}}, {{{3, 0}, {3, 16}}, {{5, 1}, {5, 15}}, {{12, 0}, {12, 16}}, {{16, 0}, {16, 16}}}});
  v.push_back({"end to end", {{{{0, 0}, {20, 0}, {20, 8}, {0, 8}}}, {{{0, 8}, {20, 8}, {20, 17}, {0, 17}}}}, {{{3, 0}, {3, 8}}, {{3, 8}, {3, 17}}, {{9, 0}, {9, 8}}, {{14, 8}, {14, 17}}}});
  v.push_back({"corner", {{{{0, 0}, {20, 0}, {20, 6}, {7, 6}, {7, 16}, {0, 16}}}}, {{{3, 0}, {3, 16}}, {{5, 0}, {5, 11}, {6, 16}}, {{12, 0}, {12, 6}}, {{19, 0}, {17, 3}, {19, 6}}}});
  v.push_back({"almost on the ring", {{sq}}, {{{3, N1}, {3, 16 - N1}}, {{7 + N1, -N1}, {7, 16 + N2}}, {{12, N2}, {12, 16}}, {{N1, 5}, {20, 5 + N1}}}});
  v.push_back({"corners and slants", {{sq}}, {{{0, 0}, {20, 16}}, {{0, 5}, {14, 16}}, {{6, 0}, {20, 11.2}}, {{0, 14}, {2.5, 16}}}});
  v.push_back({"far away", {{{{500000, 5700000}, {500020, 5700000}, {500020, 5700016}, {500000, 5700016}}}}, {{{500003, 5700000}, {500003, 5700016}}, {{500007, 5700000}, {500007, 5700015}}, {{500012, 5700000}, {500012, 5700016}}, {{500018, 5700001}, {500018, 5700014.5}}}});
  v.push_back({"negative", {{{{-40, -26}, {-20, -26}, {-20, -10}, {-40, -10}}}}, {{{-37, -26}, {-37, -10}}, {{-33, -25}, {-33, -11}}, {{-28, -26}, {-28, -10}}, {{-40, -13}, {-20, -13.5}}}});
  return v;
}
// the headland network, from its description: ring edges and straight links to the nearest border point
struct Net { std::vector<std::pair<P, P>> edges; std::vector<P> stops; double tol;
  Net(const MPoly& rings, const std::vector<P>& ends, double t) : tol(t) { for (auto& q : rings) for (auto& r : q) for (size_t i = 0; i < r.size(); ++i) edges.push_back({r[i], r[(i + 1) % r.size()]}); auto ring = edges; for (auto& p : ends) { double d = 1e300; P b{}; for (auto& e : ring) { P v = e.second - e.first; double s = std::min(1.0, std::max(0.0, dt(p - e.first, v) / dt(v, v))); P q = e.first + v * s; if (nm(p - q) < d) { d = nm(p - q); b = q; } } edges.push_back({p, b}); stops.push_back(p); stops.push_back(b); } for (auto& e : ring) stops.push_back(e.first); }
  bool has(P a, P b) const { if (nm(a - b) < 2 * tol) return true; for (auto& e : edges) if (segDist(a, e.first, e.second) < 2 * tol && segDist(b, e.first, e.second) < 2 * tol) return true; return false; }
  std::map<std::pair<double, double>, double> memo;
  double dist(P a, P b) const { size_t n = stops.size(); std::vector<double> d(n, 1e300); std::vector<bool> done(n); for (size_t i = 0; i < n; ++i) if (nm(stops[i] - a) < 1e-12) d[i] = 0; for (;;) { int u = -1; for (size_t i = 0; i < n; ++i) if (!done[i] && d[i] < 1e299 && (u < 0 || d[i] < d[u])) u = i; if (u < 0) break; done[u] = true; for (size_t v = 0; v < n; ++v) if (!done[v] && has(stops[u], stops[v])) d[v] = std::min(d[v], d[u] + nm(stops[u] - stops[v])); } double r = 1e300; for (size_t i = 0; i < n; ++i) if (nm(stops[i] - b) < 1e-12) r = std::min(r, d[i]); return r; } };
static double dist(const std::string& key, const Net& net, P a, P b) { static std::map<std::string, double> m; auto k = mc::str(key, "|", std::setprecision(17), a.x, ",", a.y, ">", b.x, ",", b.y); auto it = m.find(k); if (it != m.end()) return it->second; return m[k] = net.dist(a, b); }
// all orders of the nodes in which every arc exists
static void tours(int n, int depot, const std::vector<std::vector<bool>>& ok, std::vector<int>& cur, std::vector<bool>& used, std::vector<std::vector<int>>& out) {
  int last = cur.empty() ? depot : cur.back(); if ((int)cur.size() == n - 1) { if (ok[last][depot]) out.push_back(cur); return; }
  for (int v = 0; v < n; ++v) if (!used[v]) { int in = 0, o = 0; for (int u = 0; u < n; ++u) { if (u != v && (!used[u] || u == last || u == depot)) { in += ok[u][v] && (u != depot || last == depot); o += ok[v][u]; } } if (!in || !o) return; if (in == 1 && o == 1) { int a = -1, b = -1; for (int u = 0; u < n; ++u) if (u != v && (!used[u] || u == last || u == depot)) { if (ok[u][v] && (u != depot || last == depot)) a = u; if (ok[v][u]) b = u; } if (a == b) return; } }
  for (int v = 0; v < n; ++v) if (!used[v] && ok[last][v]) { used[v] = true; cur.push_back(v); tours(n, depot, ok, cur, used, out); cur.pop_back(); used[v] = false; }
}
static std::string show(const Point& p) { return mc::str("(", p.getX(), " ", p.getY(), ")"); }
static P pt(const Point& p) { return {p.getX(), p.getY()}; }
// the planner itself, whose headland network is built once for all the tours over the same field and swaths
struct Planner : f2c::rp::RoutePlannerBase { bool reuse = false; std::string key; static std::string& last() { static std::string l; return l; } static Graph2D& graph() { static Graph2D g; return g; }
  Graph2D createShortestGraph(const Cells& cells, const SwathsByCells& by, double t) const override { if (!reuse) return f2c::rp::RoutePlannerBase::createShortestGraph(cells, by, t); if (last() != key) { last() = ""; graph() = f2c::rp::RoutePlannerBase::createShortestGraph(cells, by, t); last() = key; } return graph(); } };
// fields of many swaths: on the ring, short of it, almost on it, in two touching cells, around a hole
static Layout manyLayout(int kind, int n) {
  double W = 2 * n + 2; Ring sq{{0, 0}, {W, 0}, {W, 16}, {0, 16}}; Layout l{"many", {{sq}}, {}};
  if (kind == 3) l.rings = {{{{0, 0}, {W, 0}, {W, 8}, {0, 8}}}, {{{0, 8}, {W, 8}, {W, 16}, {0, 16}}}}; if (kind == 4) l.rings[0].push_back({{W / 3, 6}, {W / 3, 10}, {W * 2 / 3, 10}, {W * 2 / 3, 6}});
  for (int i = 0; i < n; ++i) { double x = 1.5 + 2 * i, j = kind == 2 ? N1 * (i % 5 - 2) : 0, k = kind == 2 ? N1 * (i % 3 - 1) : 0; if (kind == 1) l.swaths.push_back({{x, 1 + 0.1 * (i % 4)}, {x, 15 - 0.2 * (i % 3)}}); else if (kind == 3) l.swaths.push_back(i % 2 ? std::vector<P>{{x, 8.5}, {x, 16}} : std::vector<P>{{x, 0}, {x, 7.5}}); else if (kind == 4 && x > W / 3 && x < W * 2 / 3) l.swaths.push_back(i % 2 ? std::vector<P>{{x, 10}, {x, 16}} : std::vector<P>{{x, 0}, {x, 6}}); else if (kind == 2 && i % 7 == 0 && i < 8) l.swaths.push_back(i ? std::vector<P>{{x, 0}, {W - N1, 16 + N1}} : std::vector<P>{{N1, 0}, {x, 16 - N1}}); else l.swaths.push_back({{x + j, k}, {x - k, 16 - j}}); }
  return l;
}
// node order of a tour that takes the swaths one by one: their middle nodes have two neighbours only
static std::vector<int> longTour(int n, int depot, const std::vector<std::vector<bool>>& ok, int order, int turn) {
  std::vector<std::array<int, 3>> sw; for (int m = 0; m < n; ++m) if (m != depot) { std::vector<int> nb; for (int u = 0; u < n; ++u) if (u != m && (ok[m][u] || ok[u][m])) nb.push_back(u); if (nb.size() == 2) sw.push_back({nb[0], m, nb[1]}); }
  std::vector<int> seq; int k = sw.size(); for (int i = 0; i < k; ++i) seq.push_back(i); if (order == 1) std::reverse(seq.begin(), seq.end()); if (order == 2) std::stable_sort(seq.begin(), seq.end(), [](int a, int b) { return a % 2 < b % 2; }); if (order == 3) std::rotate(seq.begin(), seq.begin() + k / 2, seq.end()); if (order == 4) std::stable_sort(seq.begin(), seq.end(), [](int a, int b) { return a * 7 % 11 < b * 7 % 11; });
  std::vector<int> t; for (int i = 0; i < k; ++i) { auto w = sw[seq[i]]; bool back = turn == 1 ? i % 2 : turn == 2 ? true : turn == 3 ? i % 3 == 1 : false; if (!ok[w[0]][w[1]]) back = true; if (!ok[w[1]][w[0]]) back = false; if (back) std::swap(w[0], w[2]); for (int v : w) t.push_back(v); }
  return t;
}
static void plan(mc::Ctx& c, bool again, bool many = false) {
  static const auto L = layouts(); Layout made; int ord = 0, turn = 0; if (many) { int kind = c.choose(5), n = c.pick(c.thorough() ? std::vector<int>{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 21} : std::vector<int>{5, 9, 13}); made = manyLayout(kind, n); ord = c.choose(5); turn = c.choose(c.tier(2, 4)); c.note("kind ", kind, " order ", ord, " turn ", turn); if (!c.thorough() && n > 9) c.require(ord < 4 && ord != 1 && turn == ord % 2); }
  auto& lay = many ? static_cast<const Layout&>(made) : c.pick(L); int nsw = many ? made.swaths.size() : again ? 2 : c.choose(c.tier(3, 4)) + 1; std::vector<int> idx; if (many) for (int i = 0; i < nsw; ++i) idx.push_back(i); else { int from = 0; for (int i = 0; i < nsw; ++i) { int left = 4 - from - (nsw - i - 1); int k = from + c.choose(left); idx.push_back(k); from = k + 1; } }
  int flips = many ? c.pick(std::vector<int>{0, 0x555555, 0x0f3}) : c.choose(1 << nsw), groups = many ? c.choose(3) : c.choose(nsw > 1 ? 3 : 1), start = many ? c.pick(std::vector<int>{0, 3, 5, 7}) : c.choose(7); bool redirect = !c.flag(); c.note(lay.name, " flips ", flips, " groups ", groups, " start ", start, redirect ? "" : " as given"); for (int i : idx) c.note(i); if (!c.thorough() && many) c.require(groups == (start ? 2 - start % 3 / 2 : 0) && (flips == 0) == (turn == 0) && (redirect || start)); else if (!c.thorough()) { c.require(groups == 0 || start == 0); if (start > 0 && redirect) c.require(flips < 2 || nsw == 1); if (nsw == 3) c.require(groups == 0 && (start == 0 || start == 3 || start == 5) && (flips == 0 || flips == 5)); if (again) c.require(flips < 2 && groups == 0); }
  Cells cells = toCells(lay.rings); std::vector<Swath> in; std::vector<P> ends; for (int i = 0; i < nsw; ++i) { LineString l; auto pts = lay.swaths[idx[i]]; if ((flips >> i) & 1) std::reverse(pts.begin(), pts.end()); for (auto& p : pts) l.addPoint(p.x, p.y); Swath s(l, 1 + 0.25 * i, 10 + 3 * i, i == 1 ? SwathType::HEADLAND : SwathType::MAINLAND); if (i == 2) s.setCreationDir(false); in.push_back(s); ends.push_back(pts.front()); ends.push_back(pts.back()); }
  SwathsByCells by; if (groups == 0) { Swaths g; for (auto& s : in) g.push_back(s); by.push_back(g); } else for (auto& s : in) { Swaths g; g.push_back(s); by.push_back(g); if (groups == 2) by.push_back(Swaths()); }
  Planner planner; planner.reuse = !again; auto r0 = lay.rings[0][0]; P sp{}; bool has = start > 0; if (start == 1) sp = r0[1]; if (start == 2) sp = (r0[2] + r0[3]) * 0.5; if (start == 3) sp = r0[0] + P{1.5, 0.75}; if (start == 4) sp = ends[0]; if (start == 5) sp = ends.back(); if (start == 6) sp = (ends[0] + ends[1]) * 0.5; if (start == 7) sp = ends[3] + P{N1, -N1}; std::vector<std::vector<int>> found; int which = -1; double asked = -1;
  auto& hook = f2c_stub::tour_hook(); auto choose = [&](int n, int depot, const f2c_stub::Arc& arc) { std::vector<std::vector<bool>> ok(n, std::vector<bool>(n)); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) ok[a][b] = arc(a, b) < (int64_t)1e15; if (many) { found = {longTour(n, depot, ok, ord, turn)}; auto& t = found[0]; which = 0; asked = 0; if ((int)t.size() != n - 1) c.fail("swath-nodes", mc::str(n, " nodes, of which ", t.size(), " on ", nsw, " swaths")); int last = depot; for (size_t i = 0; i <= t.size(); ++i) { int to = i < t.size() ? t[i] : depot; if (!ok[last][to]) c.fail("no-tour", mc::str("no way from ", last, " to ", to)); asked += arc(last, to) * 1e-3; last = to; } return t; } static std::vector<std::vector<bool>> lastOk; static std::vector<std::vector<int>> lastFound; if (lastOk != ok) { std::vector<int> cur; std::vector<bool> used(n); used[depot] = true; found.clear(); tours(n, depot, ok, cur, used, found); lastOk = ok; lastFound = found; } found = lastFound; if (found.empty()) { bool clash = false; if (!redirect) for (int i = 0; i < nsw; ++i) for (int j = 0; j < i; ++j) clash = clash || nm(ends[2 * i] - ends[2 * j]) < 1e-9 || nm(ends[2 * i + 1] - ends[2 * j + 1]) < 1e-9; c.fail(clash ? "no-tour-for-shared-ends" : "no-tour", mc::str(n, " nodes cannot be visited")); } which = c.choose(found.size()); asked = 0; auto& t = found[which]; int last = depot; for (size_t i = 0; i <= t.size(); ++i) { int to = i < t.size() ? t[i] : depot; asked += arc(last, to) * 1e-3; last = to; } return t; };
  if (again) { hook = [&](int n, int depot, const f2c_stub::Arc& arc) { std::vector<std::vector<bool>> ok(n, std::vector<bool>(n)); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) ok[a][b] = arc(a, b) < (int64_t)1e15; std::vector<int> cur; std::vector<bool> used(n); used[depot] = true; found.clear(); tours(n, depot, ok, cur, used, found); if (found.empty()) c.fail("no-tour", "before"); return found.back(); }; auto& other = L[(&lay - &L[0] + 1) % L.size()]; SwathsByCells o; { Swaths g; for (auto& w : other.swaths) if (g.size() < 2) { LineString l; for (auto& p : w) l.addPoint(p.x, p.y); g.push_back(Swath(l, 1)); } o.push_back(g); } planner.setStartAndEndPoint(Point(other.rings[0][0][0].x, other.rings[0][0][0].y)); (void)planner.genRoute(toCells(other.rings), o); if (!has) { has = true; sp = r0[1]; } planner.setStartAndEndPoint(Point(1, 1)); }
  std::string all = mc::str(lay.name, made.swaths.size(), many ? c.trace() : "", flips, "g", groups, "s", start); for (int i : idx) all += mc::str("i", i); planner.key = all; if (has) planner.setStartAndEndPoint(Point(sp.x, sp.y)); hook = choose; Cells kept = cells.clone(); Route r = planner.genRoute(cells, by, false, 1e-4, redirect); std::string key = many ? c.trace() : mc::str(lay.name, flips, has ? start : 0, again); for (int i : idx) key += mc::str("s", i);
  if (which < 0) c.fail("never-asked", "the optimizer was not used"); auto netEnds = ends; if (has) netEnds.push_back(sp); Net net(lay.rings, netEnds, 1e-4);
  // the drive, piece by piece
  std::vector<Swath> got; std::vector<std::vector<Point>> links(1); for (size_t g = 0; g < std::max(r.sizeConnections(), r.sizeVectorSwaths()); ++g) { if (g < r.sizeConnections()) for (size_t k = 0; k < r.getConnection(g).size(); ++k) links.back().push_back(r.getConnection(g).getGeometry(k)); if (g < r.sizeVectorSwaths()) for (size_t k = 0; k < r.getSwaths(g).size(); ++k) { got.push_back(r.getSwaths(g)[k]); links.emplace_back(); } }
  std::vector<int> seen(nsw); std::vector<int> order; for (auto& s : got) { int m = -1; bool rev = false; for (int i = 0; i < nsw; ++i) if (s.getId() == in[i].getId()) m = i; if (m < 0) c.fail("unknown-swath", mc::str("id ", s.getId())); if (seen[m]++) c.fail("swath-twice", mc::str("swath ", m)); order.push_back(m); auto& w = in[m]; size_t n = w.numPoints(); c.eq(s.numPoints(), n, "swath-points"); rev = nm(pt(s.getPoint(0)) - pt(w.getPoint(0))) > 1e-12; for (size_t k = 0; k < n; ++k) if (nm(pt(s.getPoint(k)) - pt(w.getPoint(rev ? n - 1 - k : k))) > 1e-12) c.fail("swath-moved", mc::str("swath ", m)); if (rev && !redirect) c.fail("redirected", mc::str("swath ", m)); c.check(s.getWidth() == w.getWidth() && s.getType() == w.getType(), "attributes"); c.eq(s.getCreationDir(), w.getCreationDir() != rev, "attributes", "creation direction"); }
  for (int i = 0; i < nsw; ++i) if (!seen[i]) c.fail("swath-missed", mc::str("swath ", i, " of ", nsw));
  double total = 0; bool whole = true; for (size_t k = 0; k < links.size(); ++k) { bool first = k == 0, last = k + 1 == links.size(); auto& l = links[k]; if ((first || last) && !has) { c.check(l.empty(), "extra-connection"); continue; } P a = first ? sp : pt(got[k - 1].endPoint()), b = last ? sp : pt(got[k].startPoint()); double want = dist(key, net, a, b); if (want > 1e299) { whole = false; for (auto& p : l) if (nm(pt(p) - a) > 1e-6 && nm(pt(p) - b) > 1e-6) c.fail("made-up-chain", show(p)); continue; } double len = 0; P q = a; if (!l.empty() && (nm(pt(l.front()) - a) > 2e-7 || nm(pt(l.back()) - b) > 2e-7)) c.fail("chain-ends", mc::str("from ", show(l.front()), " to ", show(l.back()), " between ", a.x, " ", a.y, " and ", b.x, " ", b.y)); for (auto& p : l) { P w = pt(p); if (!net.has(q, w)) c.fail("off-network", mc::str(q.x, " ", q.y, " to ", show(p))); len += nm(w - q); q = w; } if (!net.has(q, b)) c.fail("off-network", mc::str("last hop from ", q.x, " ", q.y)); len += nm(b - q); total += len; if (!(std::fabs(len - want) <= 1e-3 * (l.size() + 8) + 4e-4)) c.fail("not-shortest", mc::str("from ", a.x, " ", a.y, " to ", b.x, " ", b.y, " drives ", len, " instead of ", want)); c.step(); }
  if (whole && !(std::fabs(total - asked) <= 2e-3 * 12 * (nsw + 1))) c.fail("cost-differs", mc::str("optimizer was told ", asked, " drives ", total)); if (has && whole) { auto p = pt(r.startPoint()), q = pt(r.endPoint()); if (nm(p - sp) > 2e-7 || nm(q - sp) > 2e-7) c.fail("start-end", mc::str("begins at ", p.x, " ", p.y, " ends at ", q.x, " ", q.y)); }
  // nothing of the user's was touched
  size_t i = 0; for (size_t g = 0; g < by.size(); ++g) for (size_t k = 0; k < by[g].size(); ++k, ++i) { auto& s = by[g][k]; c.check(s.getId() == in[i].getId() && s.getPath() == in[i].getPath() && s.getCreationDir() == in[i].getCreationDir() && s.getType() == in[i].getType() && s.getWidth() == in[i].getWidth(), "input-changed"); } c.check(cells == kept, "input-changed", "cells"); c.nontrivial(c.trace() + mc::str(which)); std::string o; for (int k : order) o += mc::str(k); c.outcome(o); c.state(mc::str(key, redirect, o)); hook = nullptr;
}
static void once(mc::Ctx& c) { plan(c, false); }
static void again(mc::Ctx& c) { plan(c, true); }
static void many(mc::Ctx& c) { plan(c, false, true); }
// -- nothing to cover, or nowhere to drive
static void corners(mc::Ctx& c) {
  static const auto L = layouts(); auto& lay = c.pick(L); int kind = c.choose(4); bool redirect = c.flag(), has = c.flag(); c.note(lay.name, " kind ", kind); f2c::rp::RoutePlannerBase planner; if (has) planner.setStartAndEndPoint(Point(1, 0)); SwathsByCells by; if (kind == 1) by.push_back(Swaths()); if (kind == 2) { by.push_back(Swaths()); by.push_back(Swaths()); }
  f2c_stub::tour_hook() = [&](int n, int depot, const f2c_stub::Arc&) { std::vector<int> t; for (int i = 0; i < n; ++i) if (i != depot) t.push_back(i); return t; };
  if (kind < 3) { Route r = planner.genRoute(toCells(lay.rings), by, false, 1e-4, redirect); size_t n = 0; for (size_t g = 0; g < r.sizeVectorSwaths(); ++g) n += r.getSwaths(g).size(); c.eq(n, (size_t)0, "swaths-from-nothing"); }
  else { Swaths g; LineString l; for (auto& p : lay.swaths[0]) l.addPoint(p.x, p.y); g.push_back(Swath(l, 1)); by.push_back(g); try { Route r = planner.genRoute(Cells(), by, false, 1e-4, redirect); (void)r; } catch (const std::exception&) { c.outcome("refused"); } }
  f2c_stub::tour_hook() = nullptr; c.step(); c.nontrivial(c.trace() + mc::str(redirect, has)); c.outcome(mc::str(kind));
}
static void setup() { mc::add("routes", once, 4); mc::add("reused", again, 4); mc::add("corners", corners); mc::add("many", many, 4); }
MC_MAIN
