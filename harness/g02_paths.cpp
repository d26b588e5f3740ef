// G02: on every small graph, the listing of all paths equals the set of simple paths of the edge relation.
#include "mc.h"
#include "fields2cover.h"
using f2c::types::Graph; using f2c::types::Graph2D; using f2c::types::Point;
typedef std::vector<int> P; typedef std::set<P> PS;

static void simple(const std::vector<std::vector<char>>& adj, int at, int to, P& cur, std::vector<char>& vis, PS& out) {
  cur.push_back(at);
  if (at == to) out.insert(cur);
  else { vis[at] = 1; for (size_t b = 0; b < adj.size(); ++b) if (adj[at][b] && !vis[b]) simple(adj, b, to, cur, vis, out); vis[at] = 0; }
  cur.pop_back();
}
static std::string show(const PS& s) { std::string r; for (auto& p : s) { for (int x : p) r += mc::str(x, " "); r += "| "; } return r; }

template <class G, class F, class N>
void verify(mc::Ctx& c, G& g, const std::vector<std::vector<char>>& adj, const std::vector<char>& occurs, N label, F toIndex) {
  int n = adj.size(); std::string before;
  auto snap = [&] { std::map<std::pair<size_t, size_t>, int64_t> e; for (auto& s : g.getEdges()) for (auto& d : s.second) e[{s.first, d.first}] = d.second;
    std::string r; for (auto& x : e) r += mc::str(x.first.first, ">", x.first.second, "=", x.second, ","); return r; };
  before = snap();
  for (int rep = 0; rep < 2; ++rep)
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (occurs[a] && occurs[b]) {
      PS want, got; P cur; std::vector<char> vis(n, 0); simple(adj, a, b, cur, vis, want);
      auto r = g.allPathsBetween(label(a), label(b));
      for (auto& p : r) { P q; for (auto& x : p) q.push_back(toIndex(x)); got.insert(q); }
      c.check(got == want, rep ? "repeat-set" : "path-set", mc::str(a, "->", b, " got ", show(got), " expected ", show(want)));
      c.eq(r.size(), want.size(), "duplicates", mc::str(a, "->", b));
      c.step(want.size()); c.count("simple_paths", want.size());
    }
  c.check(snap() == before, "graph-changed", "the listing changed the graph");
}

static void directed(mc::Ctx& c, int n, const std::vector<int>& ids, bool loops, bool query) {
  Graph g; std::vector<std::vector<char>> adj(n, std::vector<char>(n, 0)); std::vector<char> occ(n, 0);
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (loops || a != b)
    if (c.flag()) { g.addDirectedEdge(ids[a], ids[b], 1 + a); adj[a][b] = 1; occ[a] = occ[b] = 1; c.note(a, ">", b); }
  if (query) g.getCosts();
  auto un = [&](size_t x) { for (int i = 0; i < n; ++i) if (ids[i] == (int)x) return i; return -1; };
  verify(c, g, adj, occ, [&](int a) { return (size_t)ids[a]; }, un);
  if (query) {  // edit: drop one edge, list again
    int a = c.choose(n), b = c.choose(n); g.removeDirectedEdge(ids[a], ids[b]); adj[a][b] = 0; c.note("del ", a, ">", b);
    verify(c, g, adj, occ, [&](int x) { return (size_t)ids[x]; }, un);
  }
  std::string k; for (auto& r : adj) k += std::string(r.begin(), r.end()); for (auto& x : k) x += '0'; c.state(k); c.validated();
}
static void undirected(mc::Ctx& c, int n) {
  Graph g; std::vector<std::vector<char>> adj(n, std::vector<char>(n, 0)); std::vector<char> occ(n, 0);
  for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b)
    if (c.flag()) { g.addEdge(a, b, 1); adj[a][b] = adj[b][a] = 1; occ[a] = occ[b] = 1; c.note(a, "-", b); }
  verify(c, g, adj, occ, [](int a) { return (size_t)a; }, [](size_t x) { return (int)x; });
  std::string k = "u"; for (auto& r : adj) k += std::string(r.begin(), r.end()); for (auto& x : k) x += '0'; c.state(k); c.validated();
}
static void points(mc::Ctx& c) {
  static const std::vector<Point> pts{Point(0, 0), Point(10, 0), Point(-7, 3), Point(10, 0.25)}; int n = 4;
  Graph2D g; std::vector<std::vector<char>> adj(n, std::vector<char>(n, 0)); std::vector<char> occ(n, 0);
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b)
    if (c.flag()) { g.addDirectedEdge(pts[a], pts[b]); adj[a][b] = 1; occ[a] = occ[b] = 1; c.note(a, ">", b); }
  verify(c, g, adj, occ, [&](int a) { return pts[a]; },
         [&](const Point& p) { for (int i = 0; i < n; ++i) if (p.X() == pts[i].X() && p.Y() == pts[i].Y()) return i; return -1; });
  std::string k = "p"; for (auto& r : adj) k += std::string(r.begin(), r.end()); for (auto& x : k) x += '0'; c.state(k); c.validated();
}
static void large(mc::Ctx& c) {   // more nodes, still few enough simple paths to list
  int kind = c.choose(6), n = 6 + c.choose(c.tier(24, 50)), gap = c.flag() ? 3 : 1; c.require((kind < 3 || n < 14) && (kind != 5 || n <= c.tier(6, 7))); Graph g; std::vector<std::vector<char>> adj(n, std::vector<char>(n, 0)); std::vector<char> occ(n, 0); auto add = [&](int a, int b, bool both) { if (a == b || a >= n || b >= n) return; adj[a][b] = 1; occ[a] = occ[b] = 1; if (both) { adj[b][a] = 1; g.addEdge(gap * a + 1, gap * b + 1, 1 + a); } else g.addDirectedEdge(gap * a + 1, gap * b + 1, 1 + b); }; c.note(n, " nodes, shape ", kind);
  for (int i = 0; i < n; ++i) { if (kind == 0) add(i, i + 1, true); if (kind == 1) add(i, (i + 1) % n, true); if (kind == 2) { add(i, (i + 1) % n, false); if (i % 4 == 1) add(i, (i + 2) % n, false); } if (kind == 3) { if (i % 2 == 0) add(i, i + 1, true); add(i, i + 2, true); } if (kind == 4) for (int j = i + 1; j < n && j < i + 4; ++j) add(i, j, false); if (kind == 5) for (int j = 0; j < i; ++j) add(i, j, true); }
  verify(c, g, adj, occ, [&](int a) { return (size_t)(gap * a + 1); }, [&](size_t x) { return (int)(x - 1) / gap; }); c.state(c.trace()); c.validated();
}
static void setup() {
  mc::add("large", large, 1);
  mc::add("directed3loops", [](mc::Ctx& c) { directed(c, 3, {0, 1, 2}, true, true); }, 4);
  mc::add("directed4", [](mc::Ctx& c) { directed(c, 4, {0, 1, 2, 3}, false, false); }, 5);
  mc::add("directed4edit", [](mc::Ctx& c) { directed(c, 4, {0, 1, 2, 3}, false, true); }, 5);
  mc::add("gaps", [](mc::Ctx& c) { directed(c, 3, {2, 5, 9}, true, false); }, 4);
  mc::add("points", points, 4);
  mc::add("undirected5", [](mc::Ctx& c) { undirected(c, 5); }, 5);
  mc::add("undirected6", [](mc::Ctx& c) { undirected(c, 6); }, 5, 20, true);
  mc::add("directed5", [](mc::Ctx& c) { directed(c, 5, {0, 1, 2, 3, 4}, false, false); }, 6, 20, true);
}
MC_MAIN
