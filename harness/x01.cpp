// X01: every small set of knots, in both modes, on fresh and used splines; every sequence of abscissae that must be rejected.
#include "mc.h"
#include "fields2cover/utils/spline.h"
using f2c::CubicSpline; using V = std::vector<double>;
static std::vector<double> probes(const V& x) { V q; for (size_t i = 0; i < x.size(); ++i) { q.push_back(x[i]); q.push_back(std::nextafter(x[i], 1e9)); q.push_back(std::nextafter(x[i], -1e9)); if (i + 1 < x.size()) for (int k = 1; k < 16; ++k) q.push_back(x[i] + (x[i + 1] - x[i]) * k / 16); } std::sort(q.begin(), q.end()); return q; }
static void judge(mc::Ctx& c, const CubicSpline& s, const V& x, const V& y, bool mono, const char* who) {
  double scale = 1, slope = 0; for (double v : y) scale = std::max(scale, std::fabs(v)); for (size_t i = 0; i + 1 < x.size(); ++i) slope = std::max(slope, std::fabs(y[i + 1] - y[i]) / (x[i + 1] - x[i])); double ratio = 1; for (size_t i = 0; i + 2 < x.size(); ++i) { double r = (x[i + 2] - x[i + 1]) / (x[i + 1] - x[i]); ratio = std::max({ratio, r, 1 / r}); }
  double t = 1e-9 * scale * ratio * ratio; auto why = [&](double q) { std::string r = mc::str(who, mono ? " monotone" : "", " at ", q, " gives ", s(q)); return r; };
  for (size_t i = 0; i < x.size(); ++i) { double e = 1e-9 * (1 + std::fabs(x[i])); if (!(std::fabs(s(x[i]) - y[i]) <= t)) c.fail("knot", why(x[i])); double w = t + e * slope * 64 * ratio * ratio; if (i > 0 && !(std::fabs(s(x[i] - e) - y[i]) <= w)) c.fail("jump", why(x[i] - e)); if (i + 1 < x.size() && !(std::fabs(s(x[i] + e) - y[i]) <= w)) c.fail("jump", why(x[i] + e)); c.step(3); }
  // slopes on both sides of every knot, exact for cubics; beyond the ends the curve is a straight line along the tangent
  auto side = [&](double q, double e) { return (-11 * s(q) + 18 * s(q + e) - 9 * s(q + 2 * e) + 2 * s(q + 3 * e)) / (6 * e); };
  for (size_t i = 0; i < x.size(); ++i) { double hl = i ? x[i] - x[i - 1] : x[1] - x[0], hr = i + 1 < x.size() ? x[i + 1] - x[i] : hl, l = side(x[i], -hl / 8), r = side(x[i], hr / 8), k = 100 * t / std::min(hl, hr) + 1e-9 * slope * ratio * ratio + 1e-13 * std::fabs(x[i]) * slope / std::min(hl, hr); if (!(std::fabs(l - r) <= k)) c.fail("kink", mc::str(who, mono ? " monotone" : "", " slopes at ", x[i], ": ", l, " and ", r)); c.step();
    if (i == 0 || i + 1 == x.size()) { double in = i ? l : r, sg = i ? 1 : -1; for (double d : {0.5, 3.0}) if (!(std::fabs(s(x[i] + sg * d * hl) - (y[i] + in * sg * d * hl)) <= 10 * k * hl * d)) c.fail("beyond-end", why(x[i] + sg * d * hl)); } }
  bool line = true; for (size_t i = 0; i < x.size(); ++i) line = line && std::fabs((y[i] - y[0]) * (x.back() - x[0]) - (y.back() - y[0]) * (x[i] - x[0])) < 1e-12 * scale;
  for (size_t i = 0; i + 1 < x.size(); ++i) { double h = x[i + 1] - x[i]; double last = s(x[i]); bool up = true, down = true; for (size_t k = std::max<size_t>(i, 1) - 1; k + 1 < std::min(i + 3, x.size()); ++k) { up = up && y[k] <= y[k + 1]; down = down && y[k] >= y[k + 1]; }
    for (int k = 1; k <= 16; ++k) { double q = x[i] + h * k / 16, v = s(q); c.step(); if (!(std::fabs(v - last) <= t + 16 * slope * ratio * ratio * h / 16)) c.fail("jump", why(q)); last = v; if (line && !(std::fabs(v - (y[0] + (y.back() - y[0]) * (q - x[0]) / (x.back() - x[0]))) <= t)) c.fail("line", why(q));
      if (mono && (up || down) && !(v >= std::min(y[i], y[i + 1]) - t && v <= std::max(y[i], y[i + 1]) + t)) c.fail("overshoot", why(q)); } }
}
static void same(mc::Ctx& c, const CubicSpline& a, const CubicSpline& b, const V& x, const char* key) { for (double q : probes(x)) { double u = a(q), v = b(q); if (!(u == v)) c.fail(key, mc::str("at ", q, ": ", u, " vs ", v)); c.step(); } for (double q : {x.front() - 1, x.front() - 1e6, x.back() + 1e-9, x.back() + 1, x.back() + 1e6}) { double u = a(q), v = b(q); if (!(u == v)) c.fail(key, mc::str("outside at ", q, ": ", u, " vs ", v)); } }
static const V GAP{1, 0.125, 7}, VAL{0, 1, -1, 6};
static void knots(mc::Ctx& c) {
  int n = 2 + c.choose(c.tier(4, 5)); double x0 = c.pick(V{0, -3.5}); V x, y; for (int i = 0; i < n; ++i) { x.push_back(i ? x.back() + (n > 5 ? (i % 3 == 0 ? 4.0 : 1.0) : c.pick(GAP)) : x0); y.push_back(n > 4 ? c.pick(V{0, 1, 6}) : c.pick(VAL)); } bool mono = c.flag(); c.note(n, " knots", mono ? " monotone" : ""); for (int i = 0; i < n; ++i) c.note(x[i], ",", y[i]);
  CubicSpline a(x, y, mono); judge(c, a, x, y, mono, "constructed"); CubicSpline b; b.SetPoints(x, y, mono); same(c, a, b, x, "set-differs"); CubicSpline d(a), e; e = a; same(c, a, d, x, "copy-differs"); same(c, a, e, x, "copy-differs");
  // a used one, with more, with fewer and with as many points before
  static const CubicSpline OLD[3] = {CubicSpline({-2, 5, 6, 9, 10, 20, 21}, {3, 9, -4, 4, 0, 8, 8}, true), CubicSpline({0, 1}, {50, -70}), CubicSpline({0, 1, 3}, {-9, 9, -9}, true)}; for (auto& o : OLD) { CubicSpline u(o); u.SetPoints(x, y, mono); same(c, a, u, x, "history"); }
  for (double q : V{NAN, INFINITY, -INFINITY, 1e308, -1e308}) { volatile double v = a(q); (void)v; } c.nontrivial(c.trace()); c.outcome(mc::str(n, mono)); c.state(c.trace());
}
static void lines(mc::Ctx& c) { int n = 2 + c.choose(c.tier(4, 6)); V x{c.pick(V{0, -3.5, 1e5})}, y; for (int i = 1; i < n; ++i) x.push_back(x.back() + c.pick(V{1, 0.3, 12})); double a = c.pick(V{0, 2.5, -1e4}), b = c.pick(V{0, 1, -0.37, 25}); for (double v : x) y.push_back(a + b * v); bool mono = c.flag(); CubicSpline s(x, y, mono); double t = 1e-9 * (1 + std::fabs(a) + std::fabs(b * x.back()) + std::fabs(b * x[0])) * 1600; c.note(n, " ", a, "+", b, "x from ", x[0]); for (double q : probes(x)) if (q >= x[0] && q <= x.back() && !(std::fabs(s(q) - (a + b * q)) <= t)) c.fail("line", mc::str("at ", q, " gives ", s(q), " instead of ", a + b * q)); c.step(n * 18); c.nontrivial(c.trace() + (mono ? "m" : "")); c.outcome(mc::str(n, mono)); }
// every sequence of set-points calls, some of which must be rejected and leave the spline as it was
static bool valid(const V& x, const V& y) { if (x.size() != y.size() || x.size() < 2) return false; for (size_t i = 0; i + 1 < x.size(); ++i) if (!(x[i] < x[i + 1])) return false; return true; }
static void requests(mc::Ctx& c) {
  V x, y; int n = c.choose(c.tier(5, 6)), m = n + c.choose(3) - 1; c.require(m >= 0); static const V A{0, 1, 2, -1, NAN}; for (int i = 0; i < n; ++i) x.push_back(n > 4 ? A[c.choose(4)] : c.pick(A)); for (int i = 0; i < m; ++i) y.push_back(i * i - 1.5 * i); bool mono = c.flag(), ok = valid(x, y); c.note(n, "/", m, mono ? " monotone" : ""); for (double v : x) c.note(v);
  bool thrown = false; try { CubicSpline s(x, y, mono); judge(c, s, x, y, mono, "accepted"); } catch (const std::exception&) { thrown = true; } if (thrown == ok) c.fail(ok ? "rejected-good" : "accepted-bad", "constructor");
  static const V OX{-4, -1, 0.5, 1, 2}, OY{1, 3, -2, 2, 2}; CubicSpline s(OX, OY, !mono), o(s); thrown = false; try { s.SetPoints(x, y, mono); } catch (const std::exception&) { thrown = true; } if (thrown == ok) c.fail(ok ? "rejected-good" : "accepted-bad", "SetPoints"); if (ok) same(c, s, CubicSpline(x, y, mono), x, "history"); else same(c, s, o, OX, "changed-by-rejection");
  CubicSpline e; thrown = false; try { e.SetPoints(x, y, mono); } catch (const std::exception&) { thrown = true; } if (!ok || n == 0) { CubicSpline& z = e; try { volatile double v = z(0.5); (void)v; } catch (const std::exception&) {} try { volatile double v = z(-7); (void)v; } catch (const std::exception&) {} }
  c.step(); c.nontrivial(c.trace()); c.outcome(ok ? "accepted" : "rejected"); c.state(mc::str(n, m, ok, mono));
}
static void sequences(mc::Ctx& c) {   // every history of settings
  static const std::vector<std::pair<V, V>> S{{{0, 1}, {4, 8}}, {{0, 1, 2}, {0, 5, 1}}, {{-1, 0, 3, 4}, {0, 0, 6, 6}}, {{0, 2, 3, 4, 9}, {9, 1, 1, 0, -7}}, {{0, 1, 1}, {0, 1, 2}}, {{3, 2, 5}, {1, 1, 1}}, {{0}, {0}}, {{0, 1, 2}, {1, 2}}}; CubicSpline s; int cur = -1; bool curm = false; int depth = c.tier(4, 5);
  for (int d = 0; d < depth; ++d) { int k = c.choose(S.size()); bool m = c.flag(), thrown = false; c.note(k, m ? "m" : ""); try { s.SetPoints(S[k].first, S[k].second, m); } catch (const std::exception&) { thrown = true; } if (thrown != (k > 3)) c.fail(thrown ? "rejected-good" : "accepted-bad", "SetPoints"); if (!thrown) { cur = k; curm = m; } c.state(mc::str(cur, curm)); }
  if (cur >= 0) same(c, s, CubicSpline(S[cur].first, S[cur].second, curm), S[cur].first, "history"); c.nontrivial(c.trace()); c.outcome(mc::str(cur, curm));
}
static void large(mc::Ctx& c) {   // curves of many knots
  int n = c.pick(c.thorough() ? std::vector<int>{6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 50, 63, 64, 65, 100, 129, 200, 257} : std::vector<int>{7, 8, 9, 11, 16, 17, 24, 33, 65, 100}), gaps = c.choose(4), vals = c.choose(6); bool mono = c.flag(); V x, y; for (int i = 0; i < n; ++i) { double g = gaps == 0 ? 1 : gaps == 1 ? (i % 2 ? 0.5 : 2) : gaps == 2 ? 0.3 + 0.25 * ((i * 7) % 5) : (i % 9 == 4 ? 4 : 1); x.push_back(i ? x.back() + g : gaps == 3 ? -7.5 : 0); double u = i; y.push_back(vals == 0 ? std::sin(0.7 * u) * 3 : vals == 1 ? i % 2 : vals == 2 ? (i / 3) * 2 : vals == 3 ? u * u : vals == 4 ? (i < n / 2 ? 0 : 5) : -0.37 * x[i] + 2); }
  c.note(n, " knots, gaps ", gaps, " values ", vals, mono ? " monotone" : ""); CubicSpline a(x, y, mono); judge(c, a, x, y, mono, "constructed"); CubicSpline b({0, 1, 3}, {-9, 9, -9}, true); b.SetPoints(x, y, mono); same(c, a, b, x, "history"); b.SetPoints({0, 1, 2}, {0, 5, 1}, mono); same(c, b, CubicSpline({0, 1, 2}, {0, 5, 1}, mono), {0, 1, 2}, "history");
  V bad = x; bad[n - 2] = bad[n - 3]; bool thrown = false; try { a.SetPoints(bad, y, mono); } catch (const std::exception&) { thrown = true; } c.check(thrown, "accepted-bad", "a repeated knot"); bad = x; std::swap(bad[n - 2], bad[n - 1]); thrown = false; try { a.SetPoints(bad, y, mono); } catch (const std::exception&) { thrown = true; } c.check(thrown, "accepted-bad", "knots out of order"); c.nontrivial(c.trace()); c.outcome(mc::str(vals, mono)); c.state(c.trace());
}
static void setup() { mc::add("large", large); mc::add("knots", knots, 3); mc::add("lines", lines, 3); mc::add("requests", requests, 3); mc::add("sequences", sequences); }
MC_MAIN
