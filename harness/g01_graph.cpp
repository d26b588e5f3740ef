// G01: every history of edge edits and queries over a small node set, compared with a plain edge map.
#include "mc.h"
#include <array>
#include "fields2cover.h"
using f2c::types::Graph; using f2c::types::Graph2D; using f2c::types::Point;
typedef std::map<std::pair<int, int>, int64_t> Edges;

struct Model {
  Edges e; std::set<int> nodes;
  void add(int a, int b, int64_t c) { e[{a, b}] = c; nodes.insert(a); nodes.insert(b); }
  void del(int a, int b) { e.erase({a, b}); }
  int64_t dist(int s, int t, int64_t inf) const {  // Bellman-Ford
    std::map<int, int64_t> d; for (int n : nodes) d[n] = inf; d[s] = 0;
    for (size_t i = 0; i <= nodes.size(); ++i)
      for (auto& x : e) if (d[x.first.first] < inf) d[x.first.second] = std::min(d[x.first.second], d[x.first.first] + x.second);
    return d[t];
  }
  std::string str() const { std::string r; for (auto& x : e) r += mc::str(x.first.first, ">", x.first.second, "=", x.second, ","); for (int n : nodes) r += mc::str(n, "."); return r; }
};

static const int64_t BIG = 1000000007;

template <class F> void checkPath(mc::Ctx& c, const Model& m, int a, int b, const std::vector<int>& p, F&&, int64_t inf) {
  int64_t d = m.dist(a, b, inf);
  if (a == b) { c.check(p.empty() || (p.size() == 1 && p[0] == a), "self-path", "path from a node to itself"); return; }
  if (d >= inf) { c.check(p.empty(), "path-unreachable", mc::str("path of ", p.size(), " nodes between unconnected ", a, " ", b)); return; }
  c.check(p.size() >= 2 && p.front() == a && p.back() == b, "path-ends", mc::str("path ", a, "->", b, " has ", p.size(), " nodes"));
  int64_t s = 0;
  for (size_t i = 0; i + 1 < p.size(); ++i) {
    auto it = m.e.find({p[i], p[i + 1]});
    c.check(it != m.e.end(), "path-edge", mc::str("path ", a, "->", b, " uses absent edge ", p[i], ">", p[i + 1]));
    s += it->second;
  }
  c.eq(s, d, "path-cost", mc::str("cost along path ", a, "->", b));
}

static void checkListing(mc::Ctx& c, const Graph& g, const Model& m) {
  c.eq(g.numEdges(), m.e.size(), "num-edges");
  Edges got; for (auto& s : g.getEdges()) for (auto& d : s.second) got[{(int)s.first, (int)d.first}] = d.second;
  c.check(got == m.e, "edges", "getEdges differs");
  for (int a : m.nodes) {
    std::set<int> want, have; size_t n = 0;
    for (auto& x : m.e) if (x.first.first == a) want.insert(x.first.second);
    for (auto x : g.getEdgesFrom(a)) { have.insert(x); ++n; }
    c.check(want == have && n == want.size(), "edges-from", mc::str("getEdgesFrom ", a));
    for (int b : m.nodes) {
      auto it = m.e.find({a, b});
      c.eq(g.getCostFromEdge(a, b, BIG), it == m.e.end() ? BIG : it->second, "edge-cost", mc::str(a, ">", b));
    }
  }
}

static void query(mc::Ctx& c, Graph& g, const Model& m, int kind) {
  const int64_t inf = kind == 1 ? BIG : (int64_t)1e15;
  if (m.e.empty()) return;
  if (kind == 4) {   // a limit below some of the costs: what is above it may be left out, now but not later
    for (int64_t lim : {int64_t(2), int64_t(1) << 30}) for (int a : m.nodes) for (int b : m.nodes) {
      int64_t d = m.dist(a, b, inf), got = g.shortestPathCost(a, b, lim); auto p = g.shortestPath(a, b, lim); c.check(d < lim ? got == d : got == lim || (d < inf && got == d), "cost-under-limit", mc::str(a, "->", b, " costs ", got, " not ", d, " limit ", lim));
      if (d < lim || !p.empty()) checkPath(c, m, a, b, std::vector<int>(p.begin(), p.end()), 0, inf);
    }
    return;
  }
  if (kind == 2) {
    auto& P = g.getPaths();
    for (int a : m.nodes) for (int b : m.nodes) {
      if ((size_t)std::max(a, b) >= P.size()) { c.check(m.dist(a, b, inf) >= inf || a == b, "matrix-size", "node missing in getPaths"); continue; }
      checkPath(c, m, a, b, std::vector<int>(P[a][b].begin(), P[a][b].end()), 0, inf);
    }
    auto& D = g.getCosts();
    for (int a : m.nodes) for (int b : m.nodes) {
      if ((size_t)std::max(a, b) >= D.size()) continue;
      int64_t w = m.dist(a, b, inf);
      if (w < inf) c.eq(D[a][b], w, "cost-matrix", mc::str(a, "->", b)); else c.check(D[a][b] >= BIG, "cost-matrix-inf");
    }
    return;
  }
  for (int a : m.nodes) for (int b : m.nodes) {
    if (kind == 3) {
      auto p = g.shortestPath(a, b); checkPath(c, m, a, b, std::vector<int>(p.begin(), p.end()), 0, inf);
      continue;
    }
    int64_t got = kind == 1 ? g.shortestPathCost(a, b, BIG) : g.shortestPathCost(a, b);
    c.eq(got, m.dist(a, b, inf), "cost", mc::str("shortest cost ", a, "->", b));
    auto p = kind == 1 ? g.shortestPath(a, b, BIG) : g.shortestPath(a, b);
    checkPath(c, m, a, b, std::vector<int>(p.begin(), p.end()), 0, inf);
  }
}

static void finish(mc::Ctx& c, Graph& g, const Model& m) {
  checkListing(c, g, m); query(c, g, m, 0); query(c, g, m, 2);
  c.state(m.str()); c.validated();
}

// one edit or query out of the alphabet over `ids`
static void doStep(mc::Ctx& c, Graph& g, Model& m, const std::vector<int>& ids, const std::vector<int64_t>& costs, bool queries) {
  int op = c.choose(queries ? 5 : 4); c.step();
  if (op == 4) { static const int K[]{1, 2, 4}; int k = K[c.choose(3)]; c.note("query", k); query(c, g, m, k); return; }
  int n = ids.size(), a, b;
  if (op == 0 || op == 2) { a = c.choose(n); b = c.choose(n - 1); if (b >= a) ++b; }
  else { a = c.choose(n - 1); b = a + 1 + c.choose(n - 1 - a); }
  a = ids[a]; b = ids[b];
  if (op == 0) { auto w = c.pick(costs); c.note("dir ", a, ">", b, "=", w); g.addDirectedEdge(a, b, w); m.add(a, b, w); }
  if (op == 1) { auto w = costs.back(); c.note("add ", a, "-", b, "=", w); g.addEdge(a, b, w); m.add(a, b, w); m.add(b, a, w); }
  if (op == 2) { c.note("del ", a, ">", b); g.removeDirectedEdge(a, b); m.del(a, b); }
  if (op == 3) { c.note("delboth ", a, "-", b); g.removeEdge(a, b); m.del(a, b); m.del(b, a); }
  c.state(m.str());
}

static void history(mc::Ctx& c) {
  Graph g; Model m; std::vector<int> ids{0, 1, 2};
  int depth = c.tier(4, 5);
  for (int i = 0; i < depth; ++i) doStep(c, g, m, ids, {1, 3}, true);
  finish(c, g, m);
}
static void gaps(mc::Ctx& c) {
  Graph g; Model m; std::vector<int> ids{1, 4, 7};
  for (int i = 0; i < c.tier(3, 4); ++i) doStep(c, g, m, ids, {0, 2}, true);
  finish(c, g, m);
}
// every small graph: query, one edit, query again
static void graphs(mc::Ctx& c, int n, const std::vector<int64_t>& w, bool edit) {
  Graph g; Model m; std::vector<int> ids; for (int i = 0; i < n; ++i) ids.push_back(i);
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) {
    int k = c.choose(w.size() + 1); c.step();
    if (k) { g.addDirectedEdge(a, b, w[k - 1]); m.add(a, b, w[k - 1]); c.note(a, ">", b, "=", w[k - 1]); }
  }
  int q = edit ? c.choose(4) : 0;
  if (edit) { query(c, g, m, q); doStep(c, g, m, ids, {1, 2}, false); }
  finish(c, g, m);
}
// self loops and zero-cost cycles on 3 nodes
static void selfLoops(mc::Ctx& c) {
  Graph g; Model m;
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) {
    int k = c.choose(3); c.step(); if (k) { g.addDirectedEdge(a, b, k - 1); m.add(a, b, k - 1); c.note(a, ">", b, "=", k - 1); }
  }
  // a self loop never shortens anything
  finish(c, g, m);
}

// ---- point-labelled graph
static const std::vector<Point> PTS = {Point(0, 0), Point(3, 0), Point(3, 4), Point(0.5, 0), Point(-3, -4), Point(-3, 4), Point(7e6, 0), Point(7e6, 4e6)};
static void query2(mc::Ctx& c, Graph2D& g, const Model& m, const std::vector<Point>& pts, int64_t inf) {
  auto idx = [&](const Point& p) { for (size_t i = 0; i < pts.size(); ++i) if (pts[i].X() == p.X() && pts[i].Y() == p.Y()) return (int)i; return -1; };
  for (int a : m.nodes) for (int b : m.nodes) {
    c.eq(g.shortestPathCost(pts[a], pts[b], inf), m.dist(a, b, inf), "cost2d", mc::str("shortest cost ", a, "->", b));
    std::vector<int> p; for (auto& x : g.shortestPath(pts[a], pts[b], inf)) p.push_back(idx(x));
    checkPath(c, m, a, b, p, 0, inf);
  }
}
static void points(mc::Ctx& c) {
  static const std::vector<std::vector<int>> sets{{0, 1, 2}, {4, 5, 3}, {0, 6, 7}};
  auto& set = c.pick(sets); std::vector<Point> pts; for (int i : set) pts.push_back(PTS[i]); const int64_t INF = set[1] == 6 ? (int64_t)1e15 : BIG;
  Graph2D g; Model m; int n = pts.size(); std::vector<int> order;
  auto touch = [&](int a) { if (std::find(order.begin(), order.end(), a) == order.end()) order.push_back(a); };
  for (int i = 0; i < c.tier(3, 4); ++i) {
    int op = c.choose(7); c.step();
    if (op == 6) { c.note("query"); if (c.flag()) { query2(c, g, m, pts, INF); continue; }
      for (int a : m.nodes) for (int b : m.nodes) { int64_t d = m.dist(a, b, (int64_t)1e15); for (int64_t lim : {int64_t(2600), int64_t(1) << 30}) { int64_t q = lim > 2600 ? g.shortestPathCost(pts[a], pts[b]) : g.shortestPathCost(pts[a], pts[b], lim); c.check(d < lim ? q == d : q == lim || (d < 1e15 && q == d), "cost2d-under-limit", mc::str(a, "->", b, " costs ", q, " not ", d)); } } continue; }
    int a, b; bool both = op == 1 || op == 3 || op == 5;
    if (!both) { a = c.choose(n); b = c.choose(n - 1); if (b >= a) ++b; }
    else { a = c.choose(n - 1); b = a + 1 + c.choose(n - 1 - a); if (op == 1 && c.flag()) std::swap(a, b); }
    int64_t d = (int64_t)(1e3 * std::hypot(pts[a].X() - pts[b].X(), pts[a].Y() - pts[b].Y()));
    if (op < 2) {
      touch(a); touch(b); c.note(both ? "addEdge " : "addDirected ", a, " ", b);
      if (both) { g.addEdge(pts[a], pts[b]); m.add(a, b, d); m.add(b, a, d); } else { g.addDirectedEdge(pts[a], pts[b]); m.add(a, b, d); }
    } else if (op < 4) {
      touch(a); touch(b); int64_t w = c.pick(std::vector<int64_t>{0, 2500});
      c.note(both ? "addEdge " : "addDirected ", a, " ", b, "=", w);
      if (both) { g.addEdge(pts[a], pts[b], w); m.add(a, b, w); m.add(b, a, w); } else { g.addDirectedEdge(pts[a], pts[b], w); m.add(a, b, w); }
    } else {
      c.require(m.nodes.count(a) && m.nodes.count(b)); c.note(both ? "delEdge " : "delDirected ", a, " ", b);
      if (both) { g.removeEdge(pts[a], pts[b]); m.del(a, b); m.del(b, a); } else { g.removeDirectedEdge(pts[a], pts[b]); m.del(a, b); }
    }
    c.state(m.str());
  }
  // nodes: one per distinct point, indexed consistently
  c.eq(g.numNodes(), m.nodes.size(), "num-nodes"); c.eq(g.getNodes().size(), m.nodes.size(), "nodes");
  std::set<size_t> ids;
  for (int a : m.nodes) {
    size_t id = g.nodeToIndex(pts[a]); ids.insert(id); Point q = g.indexToNode(id);
    c.check(q.X() == pts[a].X() && q.Y() == pts[a].Y(), "index-node", "indexToNode(nodeToIndex(p)) is another point");
  }
  c.eq(ids.size(), m.nodes.size(), "index-unique");
  c.eq(g.numEdges(), m.e.size(), "num-edges2d");
  query2(c, g, m, pts, INF); query2(c, g, m, pts, INF == BIG ? 1 << 30 : (int64_t)1e16);
  // an edge priced by the shortest path of another graph
  if (m.nodes.size() >= 2) {
    int a = *m.nodes.begin(), b = *std::next(m.nodes.begin()); Graph2D h;
    if (m.dist(a, b, INF) < INF) { h.addDirectedEdge(pts[a], pts[b], g); c.eq(h.shortestPathCost(pts[a], pts[b]), m.dist(a, b, INF), "via-graph"); }
    if (m.dist(a, b, INF) < INF && m.dist(b, a, INF) < INF) {
      Graph2D k; k.addEdge(pts[a], pts[b], g);
      c.eq(k.shortestPathCost(pts[a], pts[b]), m.dist(a, b, INF), "via-graph-fwd"); c.eq(k.shortestPathCost(pts[b], pts[a]), m.dist(b, a, INF), "via-graph-bwd");
    }
  }
  c.validated();
}

// costs that need more than 32 bits, one by one or added up
static void heavy(mc::Ctx& c) {
  Graph g; Model m; std::vector<int> ids{0, 1, 2}; static const std::vector<int64_t> w{3, 1500000000LL, 3000000000LL, 1LL << 40};
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) { int k = c.choose(w.size() + 1); c.step(); if (k) { g.addDirectedEdge(a, b, w[k - 1]); m.add(a, b, w[k - 1]); c.note(a, ">", b, "=", w[k - 1]); } }
  if (c.flag()) { c.note("limited query"); query(c, g, m, 4); }
  finish(c, g, m);
}

// graphs of some dozens of nodes: lines, rings, stars, grids, trees, dense ones and separate parts, edited in between
typedef std::vector<std::vector<int64_t>> Mat;
static Mat floyd(const Model& m, int n, int64_t inf) { Mat d(n, std::vector<int64_t>(n, inf)); for (int i = 0; i < n; ++i) d[i][i] = 0; for (auto& x : m.e) d[x.first.first][x.first.second] = std::min(d[x.first.first][x.first.second], x.second); for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (d[i][k] < inf) for (int j = 0; j < n; ++j) if (d[k][j] < inf) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]); return d; }
static void walk(mc::Ctx& c, const Model& m, const Mat& d, int a, int b, const std::vector<int>& p, int64_t inf) {
  if (a == b) { c.check(p.empty() || (p.size() == 1 && p[0] == a), "self-path"); return; } if (d[a][b] >= inf) { c.check(p.empty(), "path-unreachable", mc::str(a, "->", b)); return; } c.check(p.size() >= 2 && p.front() == a && p.back() == b, "path-ends", mc::str("path ", a, "->", b, " has ", p.size(), " nodes")); int64_t s = 0; for (size_t i = 0; i + 1 < p.size(); ++i) { auto it = m.e.find({p[i], p[i + 1]}); c.check(it != m.e.end(), "path-edge", mc::str(a, "->", b)); s += it->second; } c.eq(s, d[a][b], "path-cost", mc::str(a, "->", b));
}
static std::vector<std::array<int, 3>> shape(int kind, int n) {   // from, to, cost; undirected unless kind says otherwise
  std::vector<std::array<int, 3>> e; auto w = [](int a, int b) { return 1 + (a * 31 + b * 17) % 23; };
  for (int i = 0; i + 1 < n; ++i) { if (kind < 2 || kind == 7) e.push_back({i, i + 1, w(i, i + 1)}); if (kind == 2) e.push_back({0, i + 1, w(0, i)}); if (kind == 3) { if ((i + 1) % 6) e.push_back({i, i + 1, w(i, 1)}); if (i + 6 < n) e.push_back({i, i + 6, w(i, 6)}); } if (kind == 4) e.push_back({i / 2, i + 1, w(i, 2)}); if (kind == 5) for (int j = i + 1; j < n; ++j) if ((i * j + i + j) % 3 == 0) e.push_back({i, j, w(i, j)}); if (kind == 6) for (int s : {1, 5}) e.push_back({(i * 3) % n, (i * 3 + s) % n, w(i, s)}); }
  if (kind == 1 && n > 2) e.push_back({n - 1, 0, 7}); if (kind == 7 && n > 4) e.erase(e.begin() + n / 2); return e;
}
static void large(mc::Ctx& c) {
  int n = 4 + c.choose(c.tier(36, 70)), kind = c.choose(8), ed = c.choose(3); const int64_t inf = 1LL << 50; Graph g; Model m; for (auto& x : shape(kind, n)) { if (x[0] == x[1]) continue; if (kind == 6) { g.addDirectedEdge(x[0], x[1], x[2]); m.add(x[0], x[1], x[2]); } else { g.addEdge(x[0], x[1], x[2]); m.add(x[0], x[1], x[2]); m.add(x[1], x[0], x[2]); } }
  c.note(n, " nodes, shape ", kind, " edit ", ed); c.step(); auto all = [&](bool matrix) { Mat d = floyd(m, n, inf); for (int a : m.nodes) for (int b : m.nodes) { int64_t q = g.shortestPathCost(a, b, inf); c.eq(q, d[a][b], "cost", mc::str(a, "->", b)); auto p = g.shortestPath(a, b, inf); walk(c, m, d, a, b, std::vector<int>(p.begin(), p.end()), inf); }
    if (matrix) { auto& P = g.getPaths(); auto& D = g.getCosts(); for (int a : m.nodes) for (int b : m.nodes) { walk(c, m, d, a, b, std::vector<int>(P[a][b].begin(), P[a][b].end()), inf); if (d[a][b] < inf) c.eq(D[a][b], d[a][b], "cost-matrix"); else c.check(D[a][b] >= BIG, "cost-matrix-inf"); } } };
  checkListing(c, g, m); all(true);
  if (ed) { int k = 0; auto es = shape(kind, n); for (auto& x : es) if (x[0] != x[1] && k++ % 5 == 2) { if (ed == 1) { g.removeDirectedEdge(x[0], x[1]); m.del(x[0], x[1]); } else { g.addDirectedEdge(x[0], x[1], 100 + k); m.add(x[0], x[1], 100 + k); } } g.addDirectedEdge(n - 1, 1, 2); m.add(n - 1, 1, 2); all(true); checkListing(c, g, m); }
  c.state(m.str()); c.validated();
}
static void largePoints(mc::Ctx& c) {   // the same between points, drawn on a circle or a grid
  int n = 4 + c.choose(c.tier(31, 60)), kind = c.choose(8); const int64_t inf = 1LL << 50; std::vector<Point> pts; for (int i = 0; i < n; ++i) pts.push_back(i % 2 ? Point(10 * (i % 6) + 0.25 * i, -4.5 * (i / 6)) : Point(10 * (i % 6), 4.5 * (i / 6) + 100)); Graph2D g; Model m; std::vector<int> idx(n, -1); c.note(n, " points, shape ", kind); c.step();
  for (auto& x : shape(kind, n)) { if (x[0] == x[1]) continue; int64_t d = 1e3 * std::hypot(pts[x[0]].getX() - pts[x[1]].getX(), pts[x[0]].getY() - pts[x[1]].getY()); if (x[2] % 3 == 0) d = x[2]; if (kind == 6) { if (x[2] % 3) g.addDirectedEdge(pts[x[0]], pts[x[1]]); else g.addDirectedEdge(pts[x[0]], pts[x[1]], d); m.add(x[0], x[1], d); } else { if (x[2] % 3) g.addEdge(pts[x[0]], pts[x[1]]); else g.addEdge(pts[x[0]], pts[x[1]], d); m.add(x[0], x[1], d); m.add(x[1], x[0], d); } }
  c.eq(g.numNodes(), m.nodes.size(), "num-nodes"); c.eq(g.numEdges(), m.e.size(), "num-edges2d"); std::map<size_t, int> back; for (int a : m.nodes) { back[g.nodeToIndex(pts[a])] = a; Point q = g.indexToNode(g.nodeToIndex(pts[a])); c.check(q.getX() == pts[a].getX() && q.getY() == pts[a].getY(), "index-node"); } c.eq(back.size(), m.nodes.size(), "index-unique");
  Mat d = floyd(m, n, inf); for (int a : m.nodes) for (int b : m.nodes) { c.eq(g.shortestPathCost(pts[a], pts[b], inf), d[a][b], "cost2d", mc::str(a, "->", b)); std::vector<int> p; for (auto& x : g.shortestPath(pts[a], pts[b], inf)) p.push_back(back.at(g.nodeToIndex(x))); walk(c, m, d, a, b, p, inf); } c.state(m.str()); c.validated();
}
static void setup() {
  mc::add("large", large, 1); mc::add("largepoints", largePoints, 1);
  mc::add("heavy", heavy, 4);
  mc::add("gaps", gaps, 3);
  mc::add("graphs3", [](mc::Ctx& c) { graphs(c, 3, c.thorough() ? std::vector<int64_t>{0, 1, 3} : std::vector<int64_t>{0, 2}, true); }, 4);
  mc::add("graphs4", [](mc::Ctx& c) { graphs(c, 4, {1}, c.thorough()); }, 5);
  mc::add("graphs4w", [](mc::Ctx& c) { graphs(c, 4, {1, 3}, false); }, 5, 20, true);
  mc::add("selfloops", selfLoops, 4);
  mc::add("points", points, 3);
  mc::add("history", history, 3);
}
MC_MAIN
