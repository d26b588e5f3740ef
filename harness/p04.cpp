// P04: planned paths against the list of everything the route asks to drive: swath sections exact, everything between continuous in place and heading.
#include "mc.h"
#include "fields2cover.h"
using namespace f2c::types; using namespace f2c;
struct XY { double x, y; };
typedef std::vector<XY> Line;
static const std::vector<Line> SW{{{0, 0}, {10, 0}}, {{10.5, 3}, {0.25, 2.75}}, {{-1, 7}, {4, 7.5}, {9, 11}}, {{0, 30}, {9, 30}}};
static const std::vector<XY> PS{{20, 20}, {-7, 11}, {15, 3}};
static const std::vector<XY> RING{{-4, -4}, {6, -4}, {14, -4}, {14, 34}, {14.5, 34.2}, {-4, 34}, {-4, -4}};
static double dist(XY a, XY b) { return std::hypot(a.x - b.x, a.y - b.y); }
static double ang(XY a, XY b) { return std::atan2(b.y - a.y, b.x - a.x); }
static double wrap(double a) { return std::fabs(std::remainder(a, 2 * M_PI)); }
static Point pt(XY a) { return Point(a.x, a.y); } static XY xy(const Point& p) { return {p.getX(), p.getY()}; }
static Swath sw(const Line& l, int id) { LineString s; for (auto& p : l) s.addPoint(pt(p)); return Swath(s, 2.0, id); }
static double len(const Line& l) { double d = 0; for (size_t i = 1; i < l.size(); ++i) d += dist(l[i - 1], l[i]); return d; }
struct Item { bool swath; Line l; };
// A user's planner that shunts: forwards past the end, then backwards, all in straight pieces.
struct Shunt : pp::TurningBase {
  F2CPath createSimpleTurn(const F2CRobot& r, double d, double s, double e) override {
    F2CPath p; auto go = [&](XY a, XY b, bool back) { int n = std::max(2, (int)std::ceil(dist(a, b) / 0.2)); for (int i = 0; i < n; ++i) p.addState(Point(a.x + (b.x - a.x) * i / n, a.y + (b.y - a.y) * i / n), back ? ang(b, a) : ang(a, b), dist(a, b) / n, back ? PathDirection::BACKWARD : PathDirection::FORWARD, PathSectionType::TURN, r.getTurnVel()); };
    XY a{0, 0}, m{d / 2, 1.5 + d}, k{d / 2 + 1, 0.5}, z{d, 0}; (void)s; go(a, m, false); go(m, k, true); go(k, z, false); p.addState(Point(d, 0), e, 0, PathDirection::FORWARD, PathSectionType::TURN, r.getTurnVel()); return p;
  }
};
static std::unique_ptr<pp::TurningBase> planner(int k) {
  std::unique_ptr<pp::TurningBase> t; switch (k) { case 0: t = std::make_unique<pp::DubinsCurves>(); break; case 1: t = std::make_unique<pp::DubinsCurvesCC>(); break; case 2: t = std::make_unique<pp::ReedsSheppCurves>(); break; case 3: t = std::make_unique<pp::ReedsSheppCurvesHC>(); break; default: t = std::make_unique<Shunt>(); } t->setDiscretization(0.1); return t;
}
static std::string name(const std::vector<Item>& v) { std::string s; for (auto& i : v) { s += i.swath ? "S" : "c"; for (auto& p : i.l) s += mc::str("(", p.x, ",", p.y, ")"); s += " "; } return s; }
// What must be driven between the swaths: from where (and in which direction when it is known) to where.
static void verify(mc::Ctx& c, const F2CPath& p, const std::vector<Item>& v, const Robot& r, bool smooth, double radius) {
  const double T = smooth ? 0.12 : 0.25, H = 0.1 / radius + 0.08; size_t i = 0; double want = 0, got = 0; const Line* prev = nullptr; std::vector<XY> con;
  auto between = [&](const Line* next) {   // consumes the sections between two swaths (or before the first, after the last)
    size_t b = i; while (i < p.size() && p[i].type != PathSectionType::SWATH) ++i; size_t n = i - b; bool has_from = prev || (con.size() > 0 && (next || con.size() > 1 || prev)), has_to = next || (con.size() > 0 && (prev || con.size() > 1));
    if (!has_from || !has_to) { c.eq(n, size_t(0), "nothing-between", "sections"); return; }
    XY from = prev ? prev->back() : con.front(), to = next ? next->front() : con.back(); double out = prev ? ang((*prev)[prev->size() - 2], prev->back()) : con.size() > 1 ? ang(con[0], con[1]) : 0, in = next ? ang((*next)[0], (*next)[1]) : con.size() > 1 ? ang(con[con.size() - 2], con.back()) : 0; bool k_out = prev || con.size() > 1, k_in = next || con.size() > 1;
    if (n == 0) { c.check(dist(from, to) < T && (!k_out || !k_in || wrap(out - in) < 0.2), "no-turn", mc::str("nothing joins ", from.x, ",", from.y, " to ", to.x, ",", to.y)); return; }
    c.check(dist(xy(p[b].point), from) < T, "turn-start", mc::str("the turn starts at ", p[b].point.getX(), ",", p[b].point.getY(), " not ", from.x, ",", from.y)); c.check(dist(xy(p[i - 1].atEnd()), to) < T, "turn-end", mc::str("the turn ends at ", p[i - 1].atEnd().getX(), ",", p[i - 1].atEnd().getY(), " not ", to.x, ",", to.y));
    if (smooth) { if (k_out) c.check(wrap(p[b].angle - out) < H, "turn-start-heading"); if (k_in) c.check(wrap(p[i - 1].angle - in) < H, "turn-end-heading"); }
    for (size_t j = b; j < i; ++j) { if (p[j].type != PathSectionType::TURN) c.fail("turn-type", ""); if (p[j].velocity != r.getTurnVel()) c.fail("turn-velocity", ""); if (!(p[j].len >= 0 && p[j].len < 0.25)) c.fail("turn-step", ""); if (j + 1 < i) { if (!(dist(xy(p[j].atEnd()), xy(p[j + 1].point)) < T)) c.fail("jump", mc::str("between states ", j, " and ", j + 1, " of a turn")); if (smooth && !(wrap(p[j].angle - p[j + 1].angle) < H)) c.fail("heading-jump", mc::str("between states ", j, " and ", j + 1, " of a turn")); } }
  };
  for (auto& it : v) {
    if (!it.swath) { con.insert(con.end(), it.l.begin(), it.l.end()); continue; }
    between(&it.l); c.check(i + it.l.size() - 1 <= p.size(), "swath-missing", mc::str("swath at ", it.l[0].x, ",", it.l[0].y));
    for (size_t j = 0; j + 1 < it.l.size(); ++j, ++i) { auto& s = p[i]; c.check((int)s.type == (int)PathSectionType::SWATH && dist(xy(s.point), it.l[j]) < 1e-9 && dist(xy(s.atEnd()), it.l[j + 1]) < 1e-9 && wrap(s.angle - ang(it.l[j], it.l[j + 1])) < 1e-9, "swath-section", mc::str("swath at ", it.l[0].x, ",", it.l[0].y, " part ", j)); c.near(s.len, dist(it.l[j], it.l[j + 1]), 1e-9, "swath-length"); c.eq((int)s.dir, (int)PathDirection::FORWARD, "swath-direction"); c.near(s.velocity, r.getCruiseVel(), 1e-12, "swath-velocity"); got += s.len; }
    want += len(it.l); prev = &it.l; con.clear();
  }
  between(nullptr); c.eq(i, p.size(), "extra-sections", "states"); c.near(got, want, 1e-9 * (1 + want), "swath-total");
}
static Robot robot() { Robot r(2.0, 3.0); r.setMinTurningRadius(1.0); r.setMaxDiffCurv(0.5); r.setCruiseVel(2.5); r.setTurnVel(1.25); return r; }
static void run(mc::Ctx& c, const Route& r, const std::vector<Item>& v, int kind) {
  c.note(name(v), " planner ", kind); Robot rb = robot(); auto t = planner(kind); pp::PathPlanning pp; auto p = pp.planPath(rb, r, *t); verify(c, p, v, rb, kind < 4, 1.0); c.nontrivial(name(v) + mc::str(kind)); c.outcome(mc::str(p.size())); c.step(p.size());
}
static void routes(mc::Ctx& c) {
  Route r; std::vector<Item> v; int groups = c.choose(3), id = 0;
  for (int g = 0; g < groups; ++g) {
    int np = c.choose(3), ns = c.choose(g == 0 || c.thorough() ? 3 : 2); Item con{false, {}}; MultiPoint mp; Swaths s; for (int i = 0; i < np; ++i) { auto& p = PS[(c.choose(g || !c.thorough() ? 1 : 2) + g + i) % 3]; con.l.push_back(p); mp.addPoint(pt(p)); } v.push_back(con);
    for (int i = 0; i < ns; ++i) { auto l = SW[c.thorough() && g < 2 ? c.choose(4) : c.choose(2) * 2 + (g + i) % 2]; if (c.flag()) std::reverse(l.begin(), l.end()); v.push_back({true, l}); s.emplace_back(sw(l, id++)); }
    if (c.thorough() ? c.flag() : (np + ns + g) % 2) { r.addConnectedSwaths(mp, s); } else { r.addConnection(mp); r.addSwaths(s); }
  }
  if (c.flag()) { MultiPoint mp; Item con{false, {}}; int n = c.thorough() ? 1 + c.choose(2) : 1 + v.size() % 2; for (int i = 0; i < n; ++i) { mp.addPoint(pt(PS[i])); con.l.push_back(PS[i]); } r.addConnection(mp); v.push_back(con); }
  run(c, r, v, 0);
}
static void patterns(mc::Ctx& c) {   // every pattern of empty and non-empty groups and connections, on every planner
  int kind = c.choose(5), n = c.tier(3, 4); Route r; std::vector<Item> v; int id = 0;
  for (int g = 0; g < n; ++g) { Item con{false, {}}; MultiPoint mp; Swaths s; int np = c.choose(g == 1 ? 2 : 3); for (int i = 0; i < np; ++i) { mp.addPoint(pt(PS[(g + i) % 3])); con.l.push_back(PS[(g + i) % 3]); } v.push_back(con); int ns = c.choose(g == 1 ? 3 : 2); for (int i = 0; i < ns; ++i) { auto& l = SW[(g + i) % 4]; v.push_back({true, l}); s.emplace_back(sw(l, id++)); } r.addConnection(mp); r.addSwaths(s); }
  if (c.flag()) { r.addConnection(pt(PS[0])); v.push_back({false, {PS[0]}}); }
  run(c, r, v, kind);
}
static void headland(mc::Ctx& c) {   // long ways around the headland, of every length, start and direction
  int kind = c.choose(5); Line ring = RING; ring.pop_back(); int m = ring.size(), from = c.choose(m), n = 2 + c.choose(m - 1); bool back = c.flag(); Line way; for (int i = 0; i < n; ++i) way.push_back(ring[(from + (back ? m - i : i)) % m]);
  if (c.flag()) { Line w; for (size_t i = 0; i < way.size(); ++i) { w.push_back(way[i]); if (i + 1 < way.size()) { w.push_back({(way[i].x + way[i + 1].x) / 2, (way[i].y + way[i + 1].y) / 2}); if (c.thorough() && i % 2) w.push_back(w.back()); } } way = w; }
  const Line &a = SW[c.choose(2)], &b = SW[3 - c.choose(2)]; MultiPoint mp; for (auto& p : way) mp.addPoint(pt(p)); Route r; std::vector<Item> v; int form = c.choose(3);
  if (form != 1) { Swaths s; s.emplace_back(sw(a, 0)); r.addSwaths(s); v.push_back({true, a}); } r.addConnection(mp); v.push_back({false, way}); if (form != 2) { Swaths s; s.emplace_back(sw(b, 1)); r.addSwaths(s); v.push_back({true, b}); }
  run(c, r, v, kind);
}
// Long ways with corners far apart: the path passes near every corner but the first and the last, and the connection alone gives the same turns.
static void corners(mc::Ctx& c) {
  static const double SAFE = [] { double x = 0, y = 0, n = 200000, ds = 2.0 / n; for (int i = 0; i < n; ++i) { double s = (i + 0.5) * ds, a = 0.25 * s * s; x += std::cos(a) * ds; y += std::sin(a) * ds; } return std::hypot(x - std::sin(1.0), y + std::cos(1.0)); }();   // the radius of a full turn that starts and ends straight
  int kind = c.choose(5), n = 3 + c.choose(c.tier(3, 5)), shape = c.choose(4); double L = SAFE * (c.flag() ? 6.3 : 11.7), rot = c.choose(c.tier(3, 7)) * 0.9; bool mid = c.flag(), rev = c.flag(); Line cs{{0, 0}}; double h = 0;
  for (int i = 1; i <= n; ++i) { h = shape == 0 ? (i % 2 ? 0 : M_PI / 2) : shape == 1 ? (i % 4 < 2 ? 0.4 : -0.9) : shape == 2 ? i * 0.5 : (i % 2 ? 0.3 : -0.3) + i * 0.1; cs.push_back({cs.back().x + L * (1 + 0.1 * (i % 3)) * std::cos(h), cs.back().y + L * (1 + 0.1 * (i % 3)) * std::sin(h)}); }
  if (rev) std::reverse(cs.begin(), cs.end()); for (auto& p : cs) p = {3 + p.x * std::cos(rot) - p.y * std::sin(rot), -5 + p.x * std::sin(rot) + p.y * std::cos(rot)};
  Line way; for (size_t i = 0; i < cs.size(); ++i) { if (i && mid) way.push_back({(cs[i - 1].x + cs[i].x) / 2, (cs[i - 1].y + cs[i].y) / 2}); way.push_back(cs[i]); }
  auto before = [](XY a, XY b, double d) { double l = dist(a, b); return XY{a.x - (b.x - a.x) / l * d, a.y - (b.y - a.y) / l * d}; }; Line a{before(cs[0], cs[1], 4), cs[0]}, b{cs.back(), before(cs.back(), cs[cs.size() - 2], 4)};
  MultiPoint mp; for (auto& p : way) mp.addPoint(pt(p)); Swaths sa, sb; sa.emplace_back(sw(a, 0)); sb.emplace_back(sw(b, 1)); Route r; r.addSwaths(sa); r.addConnection(mp); r.addSwaths(sb); std::vector<Item> v{{true, a}, {false, way}, {true, b}}; run(c, r, v, kind);
  Robot rb = robot(); auto t = planner(kind); F2CPath p = pp::PathPlanning::planPath(rb, r, *t), q = pp::PathPlanning::planPathForConnection(rb, sa, mp, sb, *t), w = pp::PathPlanning::planPathForConnection(rb, sa[0].endPoint(), sa[0].getOutAngle(), mp, sb[0].startPoint(), sb[0].getInAngle(), *t);
  c.check(p.size() == q.size() + 2 && w.size() == q.size(), "connection-alone", mc::str(q.size(), " and ", w.size(), " of ", p.size())); for (size_t i = 0; i < q.size(); ++i) for (const F2CPath* o : {&q, &w}) c.check(dist(xy((*o)[i].point), xy(p[i + 1].point)) < 1e-9 && (*o)[i].len == p[i + 1].len && wrap((*o)[i].angle - p[i + 1].angle) < 1e-9, "connection-alone", mc::str("state ", i));
  std::vector<size_t> tc; for (size_t i = 1; i + 1 < cs.size(); ++i) if (wrap(ang(cs[i - 1], cs[i]) - ang(cs[i], cs[i + 1])) > 0.15) tc.push_back(i);
  if (dist(cs[0], cs.back()) > 6.05 * SAFE) for (size_t z = 1; z + 1 < tc.size(); ++z) {
    size_t i = tc[z]; bool far = dist(cs[i], cs[0]) > 4.1 * SAFE && dist(cs[i], cs.back()) > 4.1 * SAFE; for (size_t k = 0; k < cs.size(); ++k) far &= k == i || dist(cs[i], cs[k]) > 5.1 * SAFE; if (!far) continue; double d = 1e300; for (auto& s : q) d = std::min(d, dist(xy(s.point), cs[i])); c.check(d < 1.02 * SAFE + 0.1, "corner-cut", mc::str("the way turns at ", cs[i].x, ",", cs[i].y, ", the path passes ", d, " away")); }
}
static void groups(mc::Ctx& c) {   // a bare list of swaths
  int kind = c.choose(5), n = c.choose(kind == 0 || c.thorough() ? 4 : 3); Swaths s; std::vector<Item> v; for (int i = 0; i < n; ++i) { auto l = SW[c.choose(4)]; if (c.flag()) std::reverse(l.begin(), l.end()); v.push_back({true, l}); s.emplace_back(sw(l, i)); }
  c.note(name(v), " planner ", kind); Robot rb = robot(); auto t = planner(kind); pp::PathPlanning pp; auto p = pp.planPath(rb, s, *t); verify(c, p, v, rb, kind < 4, 1.0); c.eq(s.size(), size_t(n), "input-kept"); Path q = pp.planPath(rb, s, *t); c.eq(q.size(), p.size(), "repeatable"); c.nontrivial(name(v) + mc::str(kind)); c.step(p.size());
  if (kind == 0 && n == 2) { F2CPath turn; for (auto& st : p) if (st.type == PathSectionType::TURN) turn.addState(st); if (turn.size()) { auto f = planner(0); f->setUsingCache(false); double w = f->createTurn(rb, s[0].endPoint(), s[0].getOutAngle(), s[1].startPoint(), s[1].getInAngle()).length(); c.near(turn.length(), w, 0.02 * (1 + w), "turn-length"); } }
}
static void setup() { mc::add("routes", routes, 7, 60); mc::add("patterns", patterns, 4, 60); mc::add("headland", headland, 4, 60); mc::add("groups", groups, 3, 60); mc::add("corners", corners, 3, 60); }
MC_MAIN
