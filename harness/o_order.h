// O01 / O02: every input order and direction of small swath lists through every ordering and variant.
#pragma once
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types;

struct In { Swaths s; std::vector<Point> a, b; std::vector<double> w; std::vector<SwathType> t; std::vector<int> ids; };

// geometry kinds: parallel swaths stacked in id order
static void endpoints(int kind, int i, Point& a, Point& b) {
  double len = 10 + (i * 7) % 5;
  switch (kind) {
    case 0: a = Point(0, i); b = Point(len, i); break;                                   // horizontal
    case 1: a = Point(2 * i, 0); b = Point(2 * i, len); break;                           // vertical
    case 2: a = Point(i + 1e-9 * (i % 2), 0); b = Point(i + 1e-9 * ((i + 1) % 2), len); break;  // vertical with rounding noise
    default: a = Point(3 * i, i); b = Point(3 * i - len, i + 2 * len); break;            // slanted, drawn against the canonical direction
  }
}
// dirs: 0 as given, 1 drawn the other way, 2 reversed after creation
static Swath mk(int kind, int pos, int id, int dir, double w, SwathType t, Point& a, Point& b) {
  endpoints(kind, pos, a, b);
  Swath s(dir == 1 ? LineString({b, a}) : LineString({a, b}), w, id, t);
  if (dir == 2) s.reverse();
  return s;
}
static int ID(int scheme, int i) { return scheme == 0 ? i : 3 * i - 4; }

static In build(mc::Ctx& c, int n, const std::vector<int>& perm, int kind, int scheme, int ndirs) {
  In in; in.a.resize(n); in.b.resize(n); in.w.resize(n); in.t.resize(n);
  std::string d;
  for (int k = 0; k < n; ++k) {
    int i = perm[k]; int dir = ndirs > 1 ? c.choose(ndirs) : 0;
    in.w[i] = 1 + 0.5 * i; in.t[i] = i % 3 == 1 ? SwathType::HEADLAND : SwathType::MAINLAND;
    in.s.push_back(mk(kind, i, ID(scheme, i), dir, in.w[i], in.t[i], in.a[i], in.b[i]));
    d += mc::str(i, "d", dir, " ");
  }
  c.note("kind ", kind, " input ", d);
  return in;
}
static bool same(const Point& p, const Point& q) { return p.X() == q.X() && p.Y() == q.Y(); }
static std::string dump(const Swaths& s) {
  std::string r; for (auto& x : s) { r += mc::str(x.getId(), "/", x.getWidth(), "/", (int)x.getType(), "/", x.getCreationDir(), ":");
    for (size_t k = 0; k < x.numPoints(); ++k) { Point p = x.getPoint(k); r += mc::str(p.X(), ",", p.Y(), " "); } r += ";"; }
  return r;
}
// orderings: 0 boustrophedon, 1 snake, 2.. spiral with size k (2 = default constructor argument given)
struct Ord { int kind; int size; };
static std::vector<int> expectOrder(const Ord& o, int n, int variant) {
  std::vector<int> base(n), r; for (int i = 0; i < n; ++i) base[i] = (variant & 1) ? n - 1 - i : i;
  if (o.kind == 0) r = base;
  if (o.kind == 1) { for (int i = 0; i < n; i += 2) r.push_back(base[i]); for (int i = n - 1 - (n % 2); i > 0; i -= 2) r.push_back(base[i]); }
  int size = std::max(1, o.size);
  if (o.kind == 2) for (int off = 0; off < n; off += size) {
    int lo = off, hi = std::min(off + size, n) - 1; bool last = off % 2 == 1;
    while (lo <= hi) { r.push_back(last ? base[hi--] : base[lo++]); last = !last; }
  }
  return r;
}
static Swaths run(const Ord& o, const Swaths& s, uint32_t v) {
  if (o.kind == 0) { f2c::rp::BoustrophedonOrder x; return v ? x.genSortedSwaths(s, v) : x.genSortedSwaths(s); }
  if (o.kind == 1) { f2c::rp::SnakeOrder x; return x.genSortedSwaths(s, v); }
  if (o.size >= 2) { f2c::rp::SpiralOrder x(o.size); return x.genSortedSwaths(s, v); }
  f2c::rp::SpiralOrder x(6); x.setSpiralSize(o.size); return x.genSortedSwaths(s, v);
}
static void checkPerm(mc::Ctx& c, const In& in, const Swaths& out, const std::vector<int>& want, int scheme) {
  c.eq(out.size(), want.size(), "size", "number of swaths");
  std::string got; for (auto& s : out) got += mc::str(s.getId(), " ");
  for (size_t k = 0; k < want.size(); ++k) {
    int i = want[k]; const Swath& s = out.at(k);
    c.check(s.getId() == ID(scheme, i), "pattern", mc::str("position ", k, " should hold id ", ID(scheme, i), "; order is ", got));
    c.check(s.getWidth() == in.w[i], "width", mc::str("id ", s.getId(), " width ", s.getWidth()));
    c.check(s.getType() == in.t[i], "type", mc::str("id ", s.getId(), " lost its type"));
    c.check(s.numPoints() == 2, "line-points");
    Point p = s.startPoint(), q = s.endPoint();
    c.check((same(p, in.a[i]) && same(q, in.b[i])) || (same(q, in.a[i]) && same(p, in.b[i])), "line", mc::str("id ", s.getId(), " line changed"));
  }
}
static void checkDirs(mc::Ctx& c, const Swaths& out, int variant) {
  for (size_t k = 0; k < out.size(); ++k) {
    Point p = out.at(k).startPoint(), q = out.at(k).endPoint(); double dx = q.X() - p.X(), dy = q.Y() - p.Y();
    if (k == 0) {
      bool canonical = p.X() < q.X() || (p.X() == q.X() && p.Y() < q.Y());
      c.check(canonical == !(variant & 2), "first-direction", mc::str("variant ", variant, " first swath driven from (", p.X(), ",", p.Y(), ")"));
    } else {
      Point r = out.at(k - 1).startPoint(), t = out.at(k - 1).endPoint();
      c.check(dx * (t.X() - r.X()) + dy * (t.Y() - r.Y()) < 0, "alternation", mc::str("swaths ", k - 1, " and ", k, " are driven in the same direction"));
    }
  }
}
static std::vector<Ord> orders(int n) {
  std::vector<Ord> o{{0, 0}, {1, 0}, {2, 1}, {2, 0}}; for (int s = 2; s <= n + 1; ++s) o.push_back({2, s}); return o;
}
static void one(mc::Ctx& c, const In& in, const Ord& o, int variant, int scheme, bool dirs) {
  std::string before = dump(in.s);
  Swaths out = run(o, in.s, variant);
  c.note("order ", o.kind, "/", o.size, " variant ", variant); c.step();
  int n = in.s.size();
  if (!dirs) {
    checkPerm(c, in, out, expectOrder(o, n, variant), scheme);
    c.check(dump(in.s) == before, "input-modified", "the caller's swaths changed");
    for (auto& s : out) s.setId(99); c.check(dump(in.s) == before, "input-shared");
  } else checkDirs(c, out, variant);
  c.state(dump(out)); c.nontrivial(dump(out)); c.validated();
}
static void full(mc::Ctx& c, int n, int ndirs, bool dirs) {
  int kind = c.choose(n <= 4 ? 4 : 2) ; if (n > 4) kind = kind == 0 ? 2 : 3;
  int scheme = n <= 3 ? c.choose(2) : kind & 1;
  auto perm = c.permutation(n);
  In in = build(c, n, perm, kind, scheme, ndirs);
  auto o = c.pick(orders(n)); int v = c.choose(4);
  one(c, in, o, v, scheme, dirs);
}
// long lists: sorted, reversed and rotated inputs
static void longLists(mc::Ctx& c, bool dirs) {
  int n = c.choose(c.tier(17, 41)); int shape = c.choose(4); int kind = c.choose(4); int dd = c.choose(3);
  std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = shape == 0 ? i : shape == 1 ? n - 1 - i : shape == 2 ? (i + n / 2) % n : (i % 2 ? n - 1 - i / 2 : i / 2);
  In in; in.a.resize(n); in.b.resize(n); in.w.resize(n); in.t.resize(n);
  for (int k = 0; k < n; ++k) { int i = perm[k]; in.w[i] = 1 + i; in.t[i] = SwathType(i & 1); in.s.push_back(mk(kind, i, i, dd == 0 ? 0 : (k * (dd + 1) / 3) % 3, in.w[i], in.t[i], in.a[i], in.b[i])); }
  c.note("n ", n, " shape ", shape, " kind ", kind);
  auto o = c.pick(orders(std::min(n, 12))); int v = c.choose(8);
  one(c, in, o, v, 0, dirs);
}
static void longer(mc::Ctx& c, bool dirs) {   // lists of some dozens of swaths
  int n = 17 + c.choose(c.tier(50, 120)); if (n == 66) n = 301; int shape = c.choose(3), kind = shape + c.thorough() * c.choose(2), dd = c.choose(2); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = shape == 0 ? i : shape == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2);
  In in; in.a.resize(n); in.b.resize(n); in.w.resize(n); in.t.resize(n); for (int k = 0; k < n; ++k) { int i = perm[k]; in.w[i] = 1 + i; in.t[i] = SwathType(i & 1); in.s.push_back(mk(kind, i, i, dd ? k * 2 / 3 % 3 : 0, in.w[i], in.t[i], in.a[i], in.b[i])); } c.note("n ", n, " shape ", shape, " kind ", kind);
  auto o = c.pick(std::vector<Ord>{{0, 0}, {1, 0}, {2, 2}, {2, 3}, {2, 6}, {2, 16}, {2, 17}, {2, 33}, {2, n - 1}, {2, n}, {2, n + 1}, {2, 1000}}); one(c, in, o, c.choose(4), 0, dirs); if (!dirs) { std::vector<size_t> ord; for (int i = 0; i < n; ++i) ord.push_back((i * 7 + shape) % n); std::set<size_t> u(ord.begin(), ord.end()); bool ok = (int)u.size() == n, threw = false; try { f2c::rp::CustomOrder co(ord); auto out = co.genSortedSwaths(in.s); if (ok) { std::vector<int> want(ord.begin(), ord.end()); checkPerm(c, in, out, want, 0); } } catch (const std::exception&) { threw = true; } c.check(threw == !ok, ok ? "valid-rejected" : "invalid-accepted"); }
}
static void customValid(mc::Ctx& c, int n, bool dirs) {
  auto perm = c.permutation(n); std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = n - 1 - i;
  int kind = c.choose(2) * 2 + 1; In in = build(c, n, id, kind, 0, n <= 3 ? 3 : 2); int v = c.choose(4);
  std::vector<size_t> ord(perm.begin(), perm.end()); std::string before = dump(in.s);
  f2c::rp::CustomOrder co(ord); Swaths out = co.genSortedSwaths(in.s, v); c.step();
  c.note("custom"); for (auto x : ord) c.note(x);
  std::vector<int> want; for (auto x : ord) want.push_back((v & 1) ? n - 1 - (int)x : (int)x);
  if (dirs) { checkDirs(c, out, v); }
  else {
    checkPerm(c, in, out, want, 0); c.check(dump(in.s) == before, "input-modified");
    f2c::rp::CustomOrder c2; c2.setCustomOrder(ord); c.check(dump(c2.genSortedSwaths(in.s, v)) == dump(out), "set-order", "constructor and setter disagree");
  }
  c.state(dump(out)); c.nontrivial(dump(out)); c.validated();
}
static void customInvalid(mc::Ctx& c) {
  int n = 1 + c.choose(c.tier(3, 4)); int len = c.choose(n + 2); std::vector<size_t> ord; std::set<size_t> u;
  for (int i = 0; i < len; ++i) { int x = c.choose(n + 2); size_t y = x == n + 1 ? (size_t)-1 : x; ord.push_back(y); u.insert(y); }
  int v = c.choose(4);
  std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i;
  In in = build(c, n, id, 0, 0, 1); std::string before = dump(in.s);
  bool valid = len == n && (int)u.size() == n && *u.rbegin() < (size_t)n, threw = false;
  c.note("n ", n, " custom"); for (auto x : ord) c.note(x); c.step();
  try { f2c::rp::CustomOrder co(ord); co.genSortedSwaths(in.s, v); } catch (const std::exception&) { threw = true; }
  c.check(threw == !valid, valid ? "valid-rejected" : "invalid-accepted");
  c.check(dump(in.s) == before, "input-modified-on-error");
  c.state(mc::str(n, threw, before)); c.nontrivial(c.trace()); c.validated(); c.count(threw ? "rejected" : "accepted");
}
