// J02: route costs against the length of driving everything in order; which end and which angle every overload measures from.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types; using namespace f2c;
struct XY { double x, y; };
typedef std::vector<XY> Line;
static const std::vector<Line> SW{{{0, 0}, {10, 0}}, {{10.5, 2}, {0.25, 1.75}}, {{-1, 4}, {4, 4.5}, {9, 8}}, {{9, 8}, {9, 20}}};
static const std::vector<XY> PS{{20, 20}, {-7, 11}, {10.5, 2}};
static double dist(XY a, XY b) { return std::hypot(a.x - b.x, a.y - b.y); }
static double ang(XY a, XY b) { double r = std::atan2(b.y - a.y, b.x - a.x); return r < 0 ? r + 2 * M_PI : r; }
static Point pt(XY a) { return Point(a.x, a.y); }
static Swath sw(const Line& l) { LineString s; for (auto& p : l) s.addPoint(pt(p)); return Swath(s, 2.0, 7); }
static XY st(const Line& l) { return l.front(); } static XY en(const Line& l) { return l.back(); }
static double inA(const Line& l) { return ang(l[0], l[1]); } static double outA(const Line& l) { return ang(l[l.size() - 2], l.back()); }
static double len(const Line& l) { double d = 0; for (size_t i = 1; i < l.size(); ++i) d += dist(l[i - 1], l[i]); return d; }
struct Item { bool swath; Line l; };   // a swath, or the points of a connection
typedef std::function<double(XY, double, XY, double)> Turn;
static double drive(const std::vector<Item>& v, const Turn& turn) { double d = 0; const Item* p = nullptr; for (auto& i : v) { if (i.l.empty()) continue; d += len(i.l); if (p) d += p->swath && i.swath ? turn(en(p->l), outA(p->l), st(i.l), inA(i.l)) : dist(p->l.back(), i.l.front()); p = &i; } return d; }
static const Turn straight = [](XY a, double, XY b, double) { return dist(a, b); };
static Robot robot(int k) { Robot r(2.0, 3.0); r.setMinTurningRadius(k ? 3.0 : 1.0); r.setMaxDiffCurv(0.3); return r; }
static std::string name(const std::vector<Item>& v) { std::string s; for (auto& i : v) { s += i.swath ? "S" : "c"; for (auto& p : i.l) s += mc::str("(", p.x, ",", p.y, ")"); s += " "; } return s; }
struct Fresh { pp::DubinsCurves d; Robot r; double operator()(XY a, double u, XY b, double v) { pp::DubinsCurves n; n.setUsingCache(false); n.setDiscretization(d.getDiscretization()); return n.createTurn(r, pt(a), u, pt(b), v).length(); } };
// Builds the same route through different calls; returns what is driven.
static std::vector<Item> build(mc::Ctx& c, Route& r, int groups, int maxc, int maxs, bool turns) {
  std::vector<Item> v;
  for (int g = 0; g < groups; ++g) {
    int np = c.choose(maxc + 1), ns = c.choose(maxs + 1), how = turns ? (np + ns) % 2 : c.choose(g ? 3 : 2); Item con{false, {}}; std::vector<Point> ps; MultiPoint mp; Swaths s; std::vector<Item> gs;
    for (int i = 0; i < np; ++i) { auto& p = PS[(c.choose(turns ? 1 : 2) + g + i) % 3]; con.l.push_back(p); ps.push_back(pt(p)); mp.addPoint(pt(p)); }
    for (int i = 0; i < ns; ++i) { auto& l = SW[turns ? c.choose(2) + 2 * (g % 2) : g && !c.thorough() ? c.choose(2) * 2 + (g + i) % 2 : c.choose(4)]; gs.push_back({true, l}); s.emplace_back(sw(l)); }
    bool joined = r.sizeConnections() > r.sizeVectorSwaths();   // only at the start: every round closes its group
    if (how == 0) { r.addConnection(mp); r.addSwaths(s); } else if (how == 1) { r.addConnectedSwaths(mp, s); } else { r.addConnection(ps); r.addSwaths(Swaths()); r.setSwaths(r.sizeVectorSwaths() - 1, s); r.setConnection(r.sizeConnections() - 1, mp); }
    (void)joined; v.push_back(con); v.insert(v.end(), gs.begin(), gs.end());
  }
  if (c.flag()) { r.addConnection(pt(PS[0])); v.push_back({false, {PS[0]}}); }
  return v;
}
static void routes(mc::Ctx& c) {
  Route r; auto v = build(c, r, c.choose(c.tier(3, 4)), c.thorough() ? 2 : 2, 2, false); c.note(name(v)); double want = drive(v, straight), T = 1e-9 * (1 + want);
  obj::DirectDistPathObj o; obj::RPObjective b; c.near(o.computeCost(r), want, T, "route"); c.near(b.computeCost(r), want, T, "route"); c.near(r.length(), want, T, "route-length"); c.near(o.computeCostWithMinimizingSign(r), want, T, "sign"); c.check(o.isMinimizing(), "sense");
  Route k = r.clone(); c.near(o.computeCost(k), want, T, "clone"); c.nontrivial(name(v)); c.outcome(mc::str(want)); c.step(v.size());
}
static void longer(mc::Ctx& c) {   // longer routes whose groups and connections are each empty or not
  int n = c.tier(4, 5); Route r; std::vector<Item> v; for (int g = 0; g < n; ++g) { MultiPoint mp; Swaths s; Item con{false, {}}; for (int i = 0, k = c.choose(2); i < k; ++i) { con.l.push_back(PS[g % 3]); mp.addPoint(pt(PS[g % 3])); } v.push_back(con); for (int i = 0, k = c.choose(3); i < k; ++i) { auto& l = SW[(g + i) % 4]; v.push_back({true, l}); s.emplace_back(sw(l)); } r.addConnection(mp); r.addSwaths(s); }
  c.note(name(v)); obj::DirectDistPathObj o; double want = drive(v, straight); c.near(o.computeCost(r), want, 1e-9 * (1 + want), "route"); Fresh f; f.r = robot(0); f.d.setDiscretization(0.5); obj::CompleteTurnPathObj<pp::DubinsCurves> t(f.r, f.d); if (n * 7 % 2 == 0 || true) { double wt = drive(v, std::ref(f)); c.near(t.computeCost(r), wt, 1e-6 * (1 + wt), "turn-route"); } c.nontrivial(name(v)); c.step(n);
}
static void large(mc::Ctx& c) {   // routes with many pairs, many swaths in a group, many points between
  int n = c.choose(c.tier(34, 80)), shape = c.choose(4); Route r; std::vector<Item> v; c.note(n, " shape ", shape); for (int g = 0; g < (shape < 2 ? n : 3); ++g) { MultiPoint mp; Swaths s; Item con{false, {}}; int q = shape == 0 ? g % 2 : shape == 1 ? (g + 1) % 4 : shape == 2 ? g * n : 1, k = shape == 0 ? 1 : shape == 1 ? g % 3 : shape == 2 ? 1 : g == 1 ? n : 1; for (int i = 0; i < q; ++i) { XY p{PS[(g + i) % 3].x + i, PS[(g + i) % 3].y - 0.5 * g}; con.l.push_back(p); mp.addPoint(pt(p)); } v.push_back(con); for (int i = 0; i < k; ++i) { Line l = SW[(g + i) % 4]; for (auto& p : l) { p.x += 0.5 * g; p.y += i; } v.push_back({true, l}); s.emplace_back(sw(l)); } r.addConnection(mp); r.addSwaths(s); }
  obj::DirectDistPathObj o; double want = drive(v, straight), T = 1e-9 * (1 + want); c.near(o.computeCost(r), want, T, "route"); c.near(r.length(), want, T, "route-length"); Fresh f; f.r = robot(0); f.d.setDiscretization(0.5); obj::CompleteTurnPathObj<pp::DubinsCurves> t(f.r, f.d); double wt = drive(v, std::ref(f)); c.near(t.computeCost(r), wt, 1e-6 * (1 + wt), "turn-route"); c.nontrivial(c.trace()); c.step(n);
}
static void bends(mc::Ctx& c) {   // swaths of many pieces, alone, in groups and between connections
  int n = c.pick(c.thorough() ? std::vector<int>{2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100, 129} : std::vector<int>{2, 5, 6, 8, 9, 17, 33, 65}), kind = c.choose(4), many = 1 + c.choose(3), where = c.choose(4); Line l; for (int i = 0; i < n; ++i) l.push_back(kind == 0 ? XY{i * 1.0, (i % 2) * 2.0} : kind == 1 ? XY{std::cos(i * 0.7) * (3 + i), std::sin(i * 0.7) * (3 + i)} : kind == 2 ? XY{i * 2.0, 0.0} : XY{double((i / 2) % 2), i % 2 + 1e-3 * i});   // zigzag, spiral, straight, back and forth
  c.note(n, " points, kind ", kind, " swaths ", many, " place ", where); Route r; std::vector<Item> v; for (int g = 0; g < 3; ++g) { MultiPoint mp; Swaths s; Item con{false, {}}; if (g || where != 1) { con.l.push_back(PS[g]); mp.addPoint(pt(PS[g])); } v.push_back(con); if (where == 3 || g == where) for (int i = 0; i < many; ++i) { Line m = l; for (auto& p : m) { p.x += 5 * i; p.y -= 40 * g; } if (i % 2) std::reverse(m.begin(), m.end()); v.push_back({true, m}); s.emplace_back(sw(m)); } r.addConnection(mp); r.addSwaths(s); }
  obj::DirectDistPathObj o; obj::RPObjective b; double want = drive(v, straight), T = 1e-9 * (1 + want); c.near(o.computeCost(r), want, T, "route"); c.near(b.computeCost(r), want, T, "route"); c.near(r.length(), want, T, "route-length"); Swaths all; for (auto& i : v) if (i.swath) { c.near(b.computeCost(sw(i.l)), len(i.l), T, "swath"); c.near(sw(i.l).length(), len(i.l), T, "swath-length"); } Fresh f; f.r = robot(0); f.d.setDiscretization(0.5); obj::CompleteTurnPathObj<pp::DubinsCurves> t(f.r, f.d); double wt = drive(v, std::ref(f)); c.near(t.computeCost(r), wt, 1e-6 * (1 + wt), "turn-route"); c.nontrivial(c.trace()); c.outcome(mc::str(want)); c.step(v.size());
}
static void turns(mc::Ctx& c) {   // turn-aware costs, with settings changed in between
  Route r; auto v = build(c, r, 2, 1, 2, true); int k = c.choose(2); c.note(name(v)); Fresh f; f.r = robot(k); f.d.setDiscretization(c.flag() ? 1.0 : 1.7); obj::CompleteTurnPathObj<pp::DubinsCurves> o(f.r, f.d);
  double want = drive(v, std::ref(f)), T = 1e-6 * (1 + want); c.near(o.computeCost(r), want, T, "turn-route"); c.near(o.computeCost(r), want, T, "turn-route-again"); Fresh f2 = f; f2.r = robot(1 - k); o.setRobot(f2.r); double w2 = drive(v, std::ref(f2)); c.near(o.computeCost(r), w2, T, "after-robot-change"); f2.d.setDiscretization(0.8); o.setTurnPlanner(f2.d); w2 = drive(v, std::ref(f2)); c.near(o.computeCostWithMinimizingSign(r), w2, T, "after-planner-change"); c.nontrivial(name(v)); c.outcome(mc::str(want)); c.step(4);
}
// A spy that shows which points and angles every overload measures between.
struct Spy : obj::RPObjective {
  using obj::RPObjective::computeCost; static double code(int tag, XY a, double u, XY b, double v) { return tag * 1e5 + a.x + 3.1 * a.y + 7.3 * b.x + 11.7 * b.y + 131 * u + 517 * v; }
  static XY xy(const F2CPoint& p) { return {p.getX(), p.getY()}; }
  double computeCost(const F2CPoint& a, const F2CPoint& b) override { return code(1, xy(a), 0, xy(b), 0); }
  double computeCost(const F2CPoint& a, double u, const F2CPoint& b) override { return code(2, xy(a), u, xy(b), 0); }
  double computeCost(const F2CPoint& a, const F2CPoint& b, double v) override { return code(3, xy(a), 0, xy(b), v); }
  double computeCost(const F2CPoint& a, double u, const F2CPoint& b, double v) override { return code(4, xy(a), u, xy(b), v); }
};
static double pathCode(const Line& l) { double d = 0; for (size_t i = 1; i < l.size(); ++i) d += Spy::code(1, l[i - 1], 0, l[i], 0); return d; }
static void overloads(mc::Ctx& c) {
  Spy s; auto& l = c.pick(SW); auto& m = c.pick(SW); XY p = c.pick(PS); double a = c.pick(std::vector<double>{0, 1.25, 4.5}); c.note("swath at ", l[0].x, " then ", m[0].x, " point ", p.x, " angle ", a); Swath S = sw(l), M = sw(m); double T = 1e-6;
  c.near(s.computeCost(S, pt(p)), Spy::code(2, en(l), outA(l), p, 0), T, "swath-point"); c.near(s.computeCost(S, pt(p), a), Spy::code(4, en(l), outA(l), p, a), T, "swath-point-angle"); c.near(s.computeCost(S, M), Spy::code(4, en(l), outA(l), st(m), inA(m)), T, "swath-swath"); c.near(s.computeCost(pt(p), S), Spy::code(3, p, 0, st(l), inA(l)), T, "point-swath"); c.near(s.computeCost(pt(p), a, S), Spy::code(4, p, a, st(l), inA(l)), T, "point-angle-swath"); c.near(s.computeCost(S), pathCode(l), T, "swath");
  Swaths two; two.emplace_back(S); two.emplace_back(M); c.near(s.computeCost(two), pathCode(l) + pathCode(m) + Spy::code(4, en(l), outA(l), st(m), inA(m)), T, "swaths"); Swaths none; c.near(s.computeCost(none), 0, 0, "no-swaths");
  for (int n = 0; n <= 3; ++n) { Line q; MultiPoint mp; std::vector<Point> vp; for (int i = 0; i < n; ++i) { q.push_back(i ? PS[i - 1] : p); mp.addPoint(pt(q[i])); vp.push_back(pt(q[i])); }
    c.near(s.computeCost(mp), pathCode(q), T, "points"); c.near(s.computeCost(vp), pathCode(q), T, "point-vector"); c.near(s.computeCost(S, mp), n ? Spy::code(2, en(l), outA(l), q[0], 0) : 0, T, "swath-points"); c.near(s.computeCost(two, mp), n ? Spy::code(2, en(m), outA(m), q[0], 0) : 0, T, "swaths-points"); c.near(s.computeCost(mp, S), n ? Spy::code(3, q.back(), 0, st(l), inA(l)) : 0, T, "points-swath"); c.near(s.computeCost(mp, two), n ? Spy::code(3, q.back(), 0, st(l), inA(l)) : 0, T, "points-swaths"); c.near(s.computeCost(none, mp), 0, 0, "no-swaths-points"); c.near(s.computeCost(mp, none), 0, 0, "points-no-swaths"); c.step(); }
  obj::RPObjective b; obj::DirectDistPathObj d; XY q = en(l); for (obj::RPObjective* o : {&b, static_cast<obj::RPObjective*>(&d)}) { c.near(o->computeCost(pt(p), pt(q)), dist(p, q), 1e-9, "distance"); c.near(o->computeCost(pt(p), a, pt(q)), dist(p, q), 1e-9, "distance"); c.near(o->computeCost(pt(p), pt(q), a), dist(p, q), 1e-9, "distance"); c.near(o->computeCost(pt(p), a, pt(q), 1.0), dist(p, q), 1e-9, "distance"); c.near(o->computeCost(S, M), dist(en(l), st(m)), 1e-9, "distance"); c.near(o->computeCost(two), len(l) + len(m) + dist(en(l), st(m)), 1e-9, "distance"); }
  Fresh f; f.r = robot(0); obj::CompleteTurnPathObj<pp::DubinsCurves> t(f.r); double w = f(p, a, q, 2.0); c.near(t.computeCost(pt(p), a, pt(q), 2.0), w, 1e-6 * (1 + w), "turn"); w = f(en(l), outA(l), st(m), inA(m)); c.near(t.computeCost(S, M), w, 1e-6 * (1 + w), "turn-swaths"); c.near(t.computeCost(S, pt(p)), dist(en(l), p), 1e-9, "turn-needs-both-angles"); c.near(t.computeCost(pt(p), S), dist(p, st(l)), 1e-9, "turn-needs-both-angles"); c.nontrivial(mc::str(l[0].x, m[0].x, p.x, a));
}
static void setup() { mc::add("large", large, 1); mc::add("routes", routes, 6); mc::add("longer", longer, 4); mc::add("turns", turns, 5); mc::add("bends", bends, 2); mc::add("overloads", overloads); }
MC_MAIN
