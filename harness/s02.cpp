// S02: best-angle search against an exhaustive scan of the multiples of the step, under every evaluation order and thread interleaving
// of the candidate evaluations (the parallel transform is replaced by a scheduler the explorer controls).
#include "geo.h"
#include <condition_variable>
#include <mutex>
#include <thread>
#include <execution>
using namespace geo;
using namespace f2c;
// ---- baton scheduler: tasks run on real threads, one at a time, switching only at yield points chosen by the explorer
struct Baton {
  std::mutex m; std::condition_variable cv; int turn{-1}; std::vector<char> done; bool on{false};
  static thread_local int me;
  void yield() { if (me < 0 || !on) return; std::unique_lock<std::mutex> l(m); turn = -1; cv.notify_all(); cv.wait(l, [&] { return turn == me; }); }
  void run(size_t n, const std::function<void(size_t)>& task, const std::function<int(const std::vector<int>&)>& pick) {
    on = true; done.assign(n, 0); std::vector<std::thread> th; std::exception_ptr err;
    for (size_t i = 0; i < n; ++i) th.emplace_back([&, i] { me = i; { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return turn == (int)i; }); } try { task(i); } catch (...) { std::unique_lock<std::mutex> l(m); err = std::current_exception(); } { std::unique_lock<std::mutex> l(m); done[i] = 1; turn = -1; } cv.notify_all(); });
    for (;;) { std::vector<int> en; for (size_t i = 0; i < n; ++i) if (!done[i]) en.push_back(i); if (en.empty()) break; int k = en[0]; if (!err) try { k = pick(en); } catch (...) { err = std::current_exception(); } std::unique_lock<std::mutex> l(m); turn = k; cv.notify_all(); cv.wait(l, [&] { return turn == -1; }); }
    for (auto& t : th) t.join(); on = false; if (err) std::rethrow_exception(err);
  }
};
thread_local int Baton::me = -1;
static Baton baton;
// objectives: the real ones, and one whose costs are assigned by the explorer; each yields at entry and exit
struct Obj : obj::SGObjective {
  int kind; bool maximize; std::vector<double> table; double step; bool fast;
  Obj(int k, bool mx) : kind(k), maximize(mx), step(1), fast(false) {}
  bool isMinimizing() const override { return kind == 3 ? false : !maximize; }
  bool isFastCompAvailable() const override { return kind == 1 || (kind == 5 && fast); }
  using obj::SGObjective::computeCost;
  double val(double ang) const { long i = std::lround(ang / step); return i >= 0 && i < (long)table.size() ? table[i] : 1e9; }
  double computeCost(double ang, double w, const F2CCell& p) override { baton.yield(); double r; if (kind == 1) { obj::NSwathModified o; r = o.computeCost(ang, w, p); } else r = val(ang); baton.yield(); return r; }
  double computeCost(const F2CCell& p, const F2CSwaths& s) override { return computeCost(F2CCells(p), s); }
  double computeCost(const F2CCells& p, const F2CSwaths& s) override {
    baton.yield(); double r = 0;
    if (kind == 0) { obj::NSwath o; r = o.computeCost(s); } else if (kind == 2) { obj::SwathLength o; r = o.computeCost(s); } else if (kind == 3) { obj::FieldCoverage o; r = o.computeCost(p, s); } else if (kind == 4) { obj::Overlaps o; r = o.computeCost(p, s); }
    else if (s.size()) r = val(Point::mod_2pi(s.at(0).getInAngle()));
    baton.yield(); return r; }
};
static double costAt(Obj& o, double a, double w, const Cell& cell) { if (o.isFastCompAvailable()) return o.computeCost(a, w, cell); sg::BruteForce g; return o.computeCost(cell, g.generateSwaths(a, w, cell)); }
static const std::vector<Poly> SH{{{{0, 0}, {30, 0}, {30, 12}, {0, 12}}}, {{{0, 0}, {20, 5}, {7, 31}}}, {{{0, 0}, {24, 0}, {24, 20}, {12, 8}, {0, 20}}, {{3, 2}, {6, 2}, {5, 4}}}, {{{1000, 500}, {1009, 503}, {1006, 512}, {997, 509}}}};
static bool sameSwaths(const Swaths& a, const Swaths& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { auto &x = a.at(i), &y = b.at(i); if (x.getId() != y.getId() || x.getWidth() != y.getWidth() || x.getType() != y.getType() || !(x.startPoint() == y.startPoint()) || !(x.endPoint() == y.endPoint())) return false; } return true; }
static void verify(mc::Ctx& c, sg::BruteForce& g, Obj& o, double step, double w, const Cell& cell, double best, const char* how) {
  double k = best / step; long kk = std::lround(k); std::string at = mc::str(how, " best ", best, " step ", step);
  c.near(k, kk, 1e-9, "not-a-multiple", at); c.check(best >= 0 && best < 2 * M_PI, "out-of-turn", at);
  double sgn = o.isMinimizing() ? 1 : -1, vb = sgn * costAt(o, best, w, cell), tol = 1e-9 * (1 + std::fabs(vb));
  for (long i = 0; i * step < 2 * M_PI - 1e-9; ++i) { double v = sgn * costAt(o, i * step, w, cell); c.step(); c.check(vb <= v + tol, "not-best", mc::str(at, " cost ", vb, " but ", i, " steps cost ", v)); }
  (void)g;
}
static void search(mc::Ctx& c) {   // real objectives, many step angles, both senses
  static const std::vector<double> ST{M_PI / 18, M_PI / 2, 1.0, 2 * M_PI, 2 * M_PI / 49, 3.0, M_PI, 0.77, 2.5, 2 * M_PI / 3, 6.0, 0.21};
  auto& q = c.pick(SH); Cell cell = toCell(q); int kind = c.choose(5); bool mx = kind != 3 && c.flag(); double step = c.pick(ST), w = c.pick(std::vector<double>{2, 5.5, 0.9}); c.require(c.thorough() || step > 0.5 || w > 1); c.note("objective ", kind, " max ", mx, " step ", step, " width ", w);
  sg::BruteForce g; g.setStepAngle(step); c.eq(g.getStepAngle(), step, "step"); Obj o(kind, mx); double b = g.computeBestAngle(o, w, cell); verify(c, g, o, step, w, cell, b, "search");
  sg::BruteForce h; Swaths s = g.generateBestSwaths(o, w, cell), e = h.generateSwaths(b, w, cell); c.check(sameSwaths(s, e), "best-swaths", "not the swaths of the best angle"); c.near(g.computeBestAngle(o, w, cell), b, 0, "repeat");
  double cc = g.computeCostOfAngle(o, b, w, cell), ce = (o.isMinimizing() ? 1 : -1) * costAt(o, b, w, cell); c.near(cc, ce, 1e-9 * (1 + std::fabs(ce)), "cost-of-angle");
  c.nontrivial(mc::str(kind, mx, step, w, q[0][1].x)); c.outcome(mc::str(b));
}
static void realObj(mc::Ctx& c) {   // the library's own objective classes, not wrapped
  auto& q = c.pick(SH); Cell cell = toCell(q); int k = c.choose(5); double step = c.pick(std::vector<double>{M_PI / 12, 1.0, 2 * M_PI / 7}), w = c.pick(std::vector<double>{2, 4.5}); c.note("objective ", k, " step ", step);
  std::unique_ptr<obj::SGObjective> o; if (k == 0) o.reset(new obj::NSwath); if (k == 1) o.reset(new obj::NSwathModified); if (k == 2) o.reset(new obj::SwathLength); if (k == 3) o.reset(new obj::FieldCoverage); if (k == 4) o.reset(new obj::Overlaps);
  sg::BruteForce g; g.setStepAngle(step); double b = g.computeBestAngle(*o, w, cell); Obj e(k, false); verify(c, g, e, step, w, cell, b, "library objective"); c.nontrivial(mc::str(k, step, w, q[0][1].x));
}
static void table(mc::Ctx& c) {   // every assignment of costs 0..2 to the candidate angles, both senses, fast and slow path
  int n = 2 + c.choose(c.tier(4, 5)); double step = 2 * M_PI / n * (c.flag() ? 1 : 0.999); int m = step * n < 2 * M_PI - 1e-9 ? n + 1 : n; Obj o(5, c.flag()); o.fast = true; o.step = step; for (int i = 0; i < m; ++i) o.table.push_back(c.choose(3)); c.note("steps ", n);
  sg::BruteForce g; g.setStepAngle(step); Cell cell = toCell(SH[0]); verify(c, g, o, step, 3, cell, g.computeBestAngle(o, 3, cell), "table"); std::string s; for (double x : o.table) s += mc::str(x); c.nontrivial(mc::str(n, s, o.maximize));
}
static void large(mc::Ctx& c) {   // hundreds of candidate angles, the best one anywhere among them; many cells
  if (c.flag()) { int n = c.pick(std::vector<int>{5, 12, 33}); Cells cs; MPoly m; for (int i = 0; i < n; ++i) { m.push_back(Frame{90.0 * i, 3.0 * i, 0.5 + 0.02 * (i % 7), 0.31 * i} * SH[i % 3]); cs.addGeometry(toCell(m.back())); } Obj o(c.choose(3), false); sg::BruteForce g; g.setStepAngle(M_PI / 5); c.note("cells ", n, " objective ", o.kind); auto r = g.generateBestSwaths(o, 2.3, cs); c.eq(r.size(), size_t(n), "cells"); for (int i = 0; i < n; ++i) { sg::BruteForce h; h.setStepAngle(M_PI / 5); Obj o2(o.kind, false); Cell k = toCell(m[i]); c.check(sameSwaths(r.at(i), h.generateBestSwaths(o2, 2.3, k)), "cell-not-alone", mc::str("cell ", i)); c.step(); } c.nontrivial(c.trace()); return; }
  int n = c.pick(c.thorough() ? std::vector<int>{17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 180, 256, 257, 360, 720, 1000, 1440, 3600, 10000} : std::vector<int>{17, 33, 64, 129, 180, 257, 360, 1440, 3600}); bool part = c.flag(), mx = c.flag(); double step = 2 * M_PI / (n - (part ? 0.3 : 0)); int m = step * n < 2 * M_PI - 1e-9 ? n + 1 : n; Obj o(5, mx); o.fast = true; o.step = step; int best = c.choose(c.tier(9, 33)); best = (long)best * (m - 1) / c.tier(8, 32); for (int i = 0; i < m; ++i) o.table.push_back((mx ? -1 : 1) * (i == best ? 0.0 : 1 + (i * 7) % 5)); c.note("steps ", n, " best ", best, " part ", part, " max ", mx);
  sg::BruteForce g; g.setStepAngle(step); Cell cell = toCell(SH[0]); double b = g.computeBestAngle(o, 3, cell); c.near(b / step, best, 1e-9 * n, "not-best", mc::str("angle ", b)); c.step(m); c.nontrivial(c.trace()); c.outcome(mc::str(n));
}
struct Unset { ~Unset() { f2c_par::scheduler() = nullptr; } };
static void orders(mc::Ctx& c) {   // every order in which the candidates can be evaluated
  int n = 3 + c.choose(c.tier(3, 4)); double step = 2 * M_PI / n; auto& q = c.pick(SH); Cell cell = toCell(q); int kind = c.choose(6); Obj o(kind, false); o.step = step; if (kind == 5) { o.fast = true; int k = c.choose(n); for (int i = 0; i < n; ++i) o.table.push_back(i == k ? 0 : 1 + i % 2); }
  if (n > 4 && kind != 5 && kind != 1) c.require(q[0].size() == 3); sg::BruteForce g; g.setStepAngle(step); double serial = g.computeBestAngle(o, 2.5, cell); auto perm = c.permutation(n); std::string s; for (int i : perm) s += mc::str(i); c.note("order ", s, " objective ", kind);
  Unset un; f2c_par::calls() = 0; f2c_par::scheduler() = [&](size_t k, const std::function<void(size_t)>& task) { if (k != perm.size()) { for (size_t i = k; i-- > 0;) task(i); return; } for (int i : perm) task(i); };
  double b = g.computeBestAngle(o, 2.5, cell); f2c_par::scheduler() = nullptr; c.near(b, serial, 0, "order-changes-result"); verify(c, g, o, step, 2.5, cell, b, "permuted"); c.count("parallel_transforms", f2c_par::calls()); c.state(mc::str(kind, s)); c.nontrivial(mc::str(kind, " ", s, q[0][1].x));
}
static void threads(mc::Ctx& c) {   // every interleaving of the candidate evaluations at the yield points of the objective
  int n = 2 + c.choose(2); double step = 2 * M_PI / n; auto& q = SH[1 + c.choose(2)]; Cell cell = toCell(q); int kind = c.choose(2) ? 2 : 5; Obj o(kind, false); o.step = step; if (kind == 5) { o.fast = true; int k = c.choose(n); c.require(c.thorough() || n < 3 || k == 1); for (int i = 0; i < n; ++i) o.table.push_back(i != k); } c.require(c.thorough() || n < 3 || &q == &SH[1]);
  sg::BruteForce g; g.setStepAngle(step); double serial = g.computeBestAngle(o, 2.5, cell); std::string s;
  Unset un; f2c_par::scheduler() = [&](size_t k, const std::function<void(size_t)>& task) { baton.run(k, task, [&](const std::vector<int>& en) { int t = en[en.size() == 1 ? 0 : c.choose(en.size())]; s += mc::str(t); c.step(); return t; }); };
  double b = g.computeBestAngle(o, 2.5, cell); f2c_par::scheduler() = nullptr; c.note("schedule ", s); c.near(b, serial, 0, "interleaving-changes-result"); c.state(mc::str(kind, n, s)); c.nontrivial(mc::str(kind, " ", s, q[0][1].x)); c.count("schedules");
}
static void sets(mc::Ctx& c) {   // one list per cell, in order, each as if alone
  int n = c.choose(4); MPoly m; Cells cs; for (int i = 0; i < n; ++i) { Poly p = SH[c.choose(3)]; Frame f{100.0 * i, 50.0 * i, 1, 0.4 * i}; m.push_back(f * p); cs.addGeometry(toCell(m.back())); }
  int kind = c.choose(4); Obj o(kind, false); sg::BruteForce g; g.setStepAngle(M_PI / 6); double w = 3; c.note("cells ", n, " objective ", kind); auto r = g.generateBestSwaths(o, w, cs); c.eq(r.size(), size_t(n), "cells"); auto fixed = g.generateSwaths(0.8, w, cs); c.eq(fixed.size(), size_t(n), "cells");
  for (int i = 0; i < n; ++i) { sg::BruteForce h; h.setStepAngle(M_PI / 6); Obj o2(kind, false); c.check(sameSwaths(r.at(i), h.generateBestSwaths(o2, w, toCell(m[i]))), "cell-not-alone", mc::str("cell ", i)); c.check(sameSwaths(fixed.at(i), h.generateSwaths(0.8, w, toCell(m[i]))), "cell-not-alone-fixed", mc::str("cell ", i)); c.step(); }
  c.nontrivial(mc::str(n, kind, str(m)));
}
static void setup() { mc::add("large", large, 4); mc::add("search", search, 4); mc::add("library-objectives", realObj, 4); mc::add("table", table); mc::add("orders", orders, 4); mc::add("threads", threads, 7); mc::add("sets", sets, 4); }
MC_MAIN
