// P02: written paths read back, under every locale, into every path, cut after every byte.
#include "mc.h"
#include <filesystem>
#include <locale>
#include "fields2cover.h"
using namespace f2c::types; using namespace f2c;
struct Scratch { std::string d; Scratch() { char t[] = "p02_XXXXXX"; d = std::filesystem::absolute(mkdtemp(t)); } ~Scratch() { std::filesystem::remove_all(d); } };
static std::string file(int k = 0) { static Scratch s; return s.d + "/path" + std::to_string(k) + ".txt"; }
struct Num : std::numpunct<char> { int k; explicit Num(int k) : k(k) {} char do_decimal_point() const override { return k & 1 ? ',' : '.'; } char do_thousands_sep() const override { return k & 2 ? '.' : ','; } std::string do_grouping() const override { return k & 2 ? "\3" : ""; } };
struct Locale { std::locale old, now; explicit Locale(int k) : old(std::locale()), now(k ? std::locale(std::locale::classic(), new Num(k)) : std::locale::classic()) { std::locale::global(now); } ~Locale() { std::locale::global(old); } bool kept() const { return std::locale() == now; } };
static const std::vector<double>& values() { static std::vector<double> v{0, 1, -2.5, 1234567.891, -0.00123456789, 5812345.6789, 3.0 / 7, 1e-12, -1e21}; return v; }
static PathState state(mc::Ctx& c, int i, bool wide) {
  PathState s; auto& V = values(); int n = V.size(), k = wide ? c.choose(n) : (i * 4 + c.choose(3)) % n; s.point = Point(V[k], V[(k + 2) % n], V[(k + 5) % n]); s.angle = V[(k + 6) % n]; s.velocity = V[(k + 1) % n]; s.len = std::fabs(V[(k + 3) % n]); s.dir = c.flag() ? PathDirection::BACKWARD : PathDirection::FORWARD; s.type = (PathSectionType)(1 + c.choose(3)); c.note("state ", k, " ", (int)s.dir, " ", (int)s.type); return s;
}
static bool near(double a, double b, int prec) { return std::fabs(a - b) <= std::fabs(b) * 0.5001 * std::pow(10.0, 1 - std::max(prec, 1)) + (prec >= 17 ? 0 : 1e-300); }
static void same(mc::Ctx& c, const Path& p, size_t from, const std::vector<PathState>& v, int prec, const char* key) {
  c.eq(p.size(), from + v.size(), key, "states"); for (size_t i = 0; i < v.size(); ++i) { auto &a = p[from + i], &b = v[i]; struct F { double a, b; const char* n; } f[] = {{a.point.getX(), b.point.getX(), "x"}, {a.point.getY(), b.point.getY(), "y"}, {a.point.getZ(), b.point.getZ(), "z"}, {a.angle, b.angle, "heading"}, {a.velocity, b.velocity, "velocity"}, {a.len, b.len, "length"}}; for (auto& q : f) if (!near(q.a, q.b, prec)) c.fail(key, mc::str(q.n, " of state ", i, " got ", q.a, " expected ", q.b)); c.check(a.dir == b.dir, key, "direction"); c.check(a.type == b.type, key, "type"); }
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return {std::istreambuf_iterator<char>(i), {}}; }
static void roundtrip(mc::Ctx& c) {
  int save = c.choose(4), load = c.choose(4), n = c.choose(4), prec = c.pick(std::vector<int>{0, 3, 6, 10, 17}); bool into = c.flag(); Path p; std::vector<PathState> v; if (n == 3 && !c.thorough()) n = 2; c.note("locales ", save, " ", load, " precision ", prec);
  for (int i = 0; i < n; ++i) { v.push_back(state(c, i, n == 1 || c.thorough())); p.addState(v.back()); }
  { Locale l(save); if (prec) p.saveToFile(file(), prec); else p.saveToFile(file()); c.check(l.kept(), "locale-left", "saving changed the process's locale"); } std::string first = slurp(file());
  { Locale l(save); std::string s = prec ? p.serializePath(prec) : p.serializePath(); c.check(s == first, "serialized"); }
  Path q; std::vector<PathState> pre; if (into) { PathState s; s.point = Point(7, 8, 9); s.len = 3; q.addState(s); pre.push_back(s); }
  { Locale l(load); q.loadFile(file()); c.check(l.kept(), "locale-left", "loading changed the process's locale"); same(c, q, into, v, prec ? prec : 6, "roundtrip"); if (into) c.check(q[0].point.getX() == 7 && q[0].len == 3, "kept"); q.loadFile(file()); c.eq(q.size(), into + 2 * v.size(), "appends-again"); }
  c.nontrivial(c.trace()); c.outcome(first); c.step(3);
}
static void precise(mc::Ctx& c) {   // longer paths at full precision, saved over a longer file
  int n = c.choose(c.tier(6, 9)), k = c.choose(values().size()); Path old; for (int i = 0; i < 8; ++i) { PathState s; s.len = i; old.addState(s); } old.saveToFile(file()); Path p; std::vector<PathState> v; auto& V = values(); for (int i = 0; i < n; ++i) { PathState s; s.point = Point(V[(k + i) % 9] / 3, V[(k + 2 * i) % 9] / 7, V[(k + 3 * i) % 9]); s.angle = V[(k + i) % 9] / 11; s.len = i / 3.0; s.velocity = 1 + i / 7.0; s.dir = i % 2 ? PathDirection::BACKWARD : PathDirection::FORWARD; s.type = (PathSectionType)(1 + (i + k) % 3); v.push_back(s); p.addState(s); } p.saveToFile(file(), 17); Path q; q.loadFile(file()); same(c, q, 0, v, 17, "precise"); c.note(n, " ", k); c.nontrivial(c.trace()); c.step();
}
static void truncated(mc::Ctx& c) {   // cut after every byte
  int n = 1 + c.choose(2), prec = c.flag() ? 17 : 6; Path p; std::vector<PathState> v; for (int i = 0; i < n; ++i) { v.push_back(state(c, i, n == 1 || c.thorough())); p.addState(v.back()); } std::string text = p.serializePath(prec); bool into = c.flag();
  for (size_t cut = 0; cut <= text.size(); ++cut) { { std::ofstream o(file(1), std::ios::binary); o << text.substr(0, cut); } size_t complete = std::count(text.begin(), text.begin() + cut, '\n'); if (cut > 0 && cut < text.size() && text[cut] == '\n') ++complete; Path q; if (into) q.addState(PathState()); q.loadFile(file(1)); std::vector<PathState> w(v.begin(), v.begin() + complete); c.eq(q.size(), into + complete, "truncated", mc::str("states after a cut at byte ", cut)); same(c, q, into, w, prec, "truncated"); c.step(); }
  c.nontrivial(c.trace());
}
static void missing(mc::Ctx& c) { int k = c.choose(3); Path q; q.addState(PathState()); if (k == 0) q.loadFile(file(2)); if (k == 1) { std::ofstream(file(1)); q.loadFile(file(1)); } if (k == 2) q.loadFile("/nonexistent/dir/path"); c.eq(q.size(), size_t(1), "missing"); c.note(k); c.nontrivial(c.trace()); c.step(); }
static void large(mc::Ctx& c) {   // paths of every length up to some dozens of states, and a few far longer
  int n = 9 + c.choose(c.tier(64, 200)); if (n == 72) n = 1500; int prec = c.flag() ? 17 : 6, loc = c.choose(4); bool into = c.flag(); Path p; std::vector<PathState> v; auto& V = values(); c.note(n, " states, precision ", prec, " locale ", loc);
  for (int i = 0; i < n; ++i) { PathState s; s.point = Point(V[i % 9] + i, V[(2 * i + 1) % 9] / 7, V[(3 * i) % 9]); s.angle = V[(i + 4) % 9] / 11; s.len = i / 3.0; s.velocity = i % 5 ? 1 + i / 7.0 : 1e-3 * i; s.dir = i % 3 == 1 ? PathDirection::BACKWARD : PathDirection::FORWARD; s.type = (PathSectionType)(1 + (i / 2) % 3); v.push_back(s); p.addState(s); }
  Path q; if (into) { for (int i = 0; i < 33; ++i) q.addState(PathState()); } { Locale l(loc); p.saveToFile(file(3), prec); std::string s = p.serializePath(prec); c.check(s == slurp(file(3)), "serialized"); q.loadFile(file(3)); } same(c, q, into ? 33 : 0, v, prec, "large");
  std::string text = slurp(file(3)); size_t cut = 0; for (int k = 0; k <= n; ++k) { if (k % 8 == n % 8 || k + 2 > n) { { std::ofstream o(file(4), std::ios::binary); o << text.substr(0, cut); } Path t; t.loadFile(file(4)); same(c, t, 0, std::vector<PathState>(v.begin(), v.begin() + k), prec, "large-cut"); c.step(); } size_t e = text.find('\n', cut); cut = e == std::string::npos ? text.size() : e + 1; } c.nontrivial(c.trace());
}
static void setup() { mc::add("large", large, 1); mc::add("roundtrip", roundtrip, 5); mc::add("precise", precise); mc::add("truncated", truncated, 4); mc::add("missing", missing, 1); }
MC_MAIN
