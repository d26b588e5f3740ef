// A small stateless model checker: every section is a body that asks for choices; the explorer runs
// the body once per complete choice vector, in lexicographic order, until the tree is exhausted.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
  return h;
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix(h, s.size());
}

struct Fail { std::string key, msg; };
struct Prune {};   // not this shard's subtree, or an alternative the section declares equivalent/invalid

template <class... A> std::string str(A&&... a) {
  std::ostringstream o; o.precision(12); (o << ... << a); return o.str();
}

class Ctx {
 public:
  // -- choices
  int choose(int n) {
    if (n <= 0) throw std::logic_error("choose(0)");
    int c;
    if (pos_ < stack_.size()) {
      if (stack_[pos_].second != n && !replay_)
        throw std::logic_error(str("nondeterministic branching at ", pos_, ": ", stack_[pos_].second, " vs ", n));
      c = stack_[pos_].first; stack_[pos_].second = n;
      if (c >= n) throw std::logic_error("choice out of range in replay");
    } else { c = 0; stack_.push_back({0, n}); }
    ++pos_;
    if (pos_ <= shard_depth_) {
      shard_idx_ = mix(shard_idx_, c + 1);
      if (pos_ == shard_depth_ && nshards_ > 1 && !replay_ && (shard_idx_ >> 7) % nshards_ != shard_) throw Prune();
    }
    return c;
  }
  bool flag() { return choose(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose(static_cast<int>(v.size()))]; }
  void require(bool ok) { if (!ok) throw Prune(); }
  // Fisher-Yates driven by choices: enumerates every permutation of 0..n-1 once.
  std::vector<int> permutation(int n) {
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + choose(n - i)]);
    return p;
  }
  // -- recording
  template <class... A> void note(A&&... a) {
    std::string n = str(std::forward<A>(a)...);
    if (replay_) std::cout << n << "; " << std::flush;   // visible even when the execution crashes
    trace_ += n; trace_ += "; ";
  }
  void state(uint64_t h) { st_.push_back(h); }
  void state(const std::string& s) { st_.push_back(hash_str(s)); }
  void step(uint64_t n = 1) { steps_ += n; }
  void outcome(const std::string& s) { oc_.push_back(hash_str(s)); }
  void nontrivial(const std::string& s) { nt_.push_back(hash_str(s)); }
  void validated(uint64_t n = 1) { val_ += n; }
  void count(const std::string& k, uint64_t n = 1) { cnt_[k] += n; }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
  void check(bool ok, const char* key, const std::string& msg = "") { if (!ok) fail(key, msg); }
  template <class A, class B> void eq(const A& a, const B& b, const char* key, const std::string& msg = "") {
    if (!(a == b)) fail(key, str(msg, " got ", a, " expected ", b));
  }
  void near(double a, double b, double tol, const char* key, const std::string& msg = "") {
    if (!(std::fabs(a - b) <= tol)) fail(key, str(msg, " got ", a, " expected ", b, " (tol ", tol, ")"));
  }
  const std::string& trace() const { return trace_; }
  bool thorough() const { return thorough_; }
  int tier(int q, int t) const { return thorough_ ? t : q; }

  std::vector<std::pair<int, int>> stack_;
  size_t pos_{0}; size_t shard_depth_{2}; uint64_t shard_idx_{0}; uint64_t nshards_{1}, shard_{0};
  bool replay_{false}, thorough_{false};
  std::string trace_; std::vector<uint64_t> st_, oc_, nt_; uint64_t steps_{0}, val_{0};
  std::map<std::string, uint64_t> cnt_;
};

using Body = std::function<void(Ctx&)>;
struct Section { std::string name; Body body; int shard_depth; int alarm_s; bool thorough_only; };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
inline void add(const std::string& name, Body b, int shard_depth = 2, int alarm_s = 20, bool thorough_only = false) {
  sections().push_back({name, std::move(b), shard_depth, alarm_s, thorough_only});
}
inline bool& g_thorough() { static bool t = false; return t; }

struct Slot { char text[8192]; };
inline Slot*& slot() { static Slot* s = nullptr; return s; }
inline void on_alarm(int) { const char m[] = "mc: case timed out\n"; (void)!write(2, m, sizeof m - 1); _exit(88); }

inline std::string enc(const std::string& sec, const std::vector<std::pair<int, int>>& st) {
  std::string r = sec + ":";
  for (size_t i = 0; i < st.size(); ++i) { if (i) r += "."; r += std::to_string(st[i].first); }
  return r;
}
inline std::string json_escape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

struct Hashes {
  std::unordered_set<uint64_t> s; bool capped{false};
  void put(const std::vector<uint64_t>& v) { for (auto h : v) { if (s.size() >= 3000000) { capped = true; return; } s.insert(h); } }
  void dump(const std::string& f) { std::ofstream o(f, std::ios::binary); for (auto h : s) o.write(reinterpret_cast<char*>(&h), 8); }
};

inline int main_impl(int argc, char** argv) {
  std::string out = "/dev/null", replay, resume, only; uint64_t shard = 0, n = 1; double deadline = 1e9;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = nxt(); else if (a == "--shard") shard = std::stoul(nxt()); else if (a == "--of") n = std::stoul(nxt());
    else if (a == "--replay") replay = nxt(); else if (a == "--resume") resume = nxt(); else if (a == "--only") only = nxt();
    else if (a == "--deadline") deadline = std::stod(nxt()); else if (a == "--thorough") g_thorough() = true;
  }
  if (out != "/dev/null") {
    int fd = open((out + ".case").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (ftruncate(fd, sizeof(Slot)) != 0) return 2;
    slot() = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  } else { slot() = new Slot(); }
  signal(SIGALRM, on_alarm);
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  auto decode = [](const std::string& s, std::string& sec, std::vector<std::pair<int, int>>& st) {
    auto p = s.find(':'); sec = s.substr(0, p); st.clear(); std::stringstream ss(s.substr(p + 1)); std::string t;
    while (std::getline(ss, t, '.')) if (!t.empty()) st.push_back({std::stoi(t), 0});
  };
  auto run1 = [&](const Section& sec, Ctx& c, std::string& key, std::string& msg) -> int {  // 0 ok 1 fail 2 prune
    alarm(sec.alarm_s);
    int r = 0;
    try { sec.body(c); }
    catch (const Prune&) { r = 2; }
    catch (const Fail& f) { key = f.key; msg = f.msg; r = 1; }
    catch (const std::logic_error& e) {
      std::string w = e.what();
      if (w.rfind("nondeterministic", 0) == 0 || w.rfind("choose(0)", 0) == 0 || w.rfind("choice out", 0) == 0) { std::cerr << "mc: " << w << " in " << enc(sec.name, c.stack_) << "\n"; _exit(3); }
      key = "uncaught-exception"; msg = w; r = 1; }
    catch (const std::exception& e) { key = "uncaught-exception"; msg = e.what(); r = 1; }
    catch (...) { key = "uncaught-exception"; msg = "unknown"; r = 1; }
    alarm(0);
    return r;
  };
  if (!replay.empty()) {
    std::string sn; std::vector<std::pair<int, int>> st; decode(replay, sn, st);
    for (auto& sec : sections()) if (sec.name == sn) {
      Ctx c; c.replay_ = true; c.thorough_ = g_thorough(); c.stack_ = st; c.shard_depth_ = 0;
      for (auto& p : c.stack_) p.second = 0;
      std::string key, msg; sec.alarm_s *= 3; int r = run1(sec, c, key, msg);
      std::cout << "\n";
      if (r == 1) { std::cout << "FAIL " << sn << "/" << key << " :: " << msg << "\n"; return 1; }
      std::cout << (r == 2 ? "PRUNED\n" : "OK\n"); return 0;
    }
    std::cerr << "no such section\n"; return 3;
  }
  std::string rsec; std::vector<std::pair<int, int>> rst; bool resuming = false;
  if (!resume.empty()) { decode(resume, rsec, rst); resuming = true; }
  std::ofstream js(out); js.precision(10);
  Hashes S, O, N; uint64_t leaves = 0, steps = 0, val = 0; std::map<std::string, uint64_t> cnt;
  std::vector<std::string> samples; std::ostringstream secjs; bool first = true; bool all_complete = true;
  std::map<std::string, int> failc; std::ostringstream fails; bool ff = true;
  for (auto& sec : sections()) {
    if (sec.thorough_only && !g_thorough()) continue;
    if (!only.empty() && only != sec.name) continue;
    if (resuming && sec.name != rsec) continue;
    std::vector<std::pair<int, int>> st; uint64_t sl = 0; bool complete = true; bool more = true;
    auto advance = [&](std::vector<std::pair<int, int>>& v) {
      while (!v.empty() && v.back().first + 1 >= v.back().second) v.pop_back();
      if (v.empty()) return false;
      ++v.back().first; return true;
    };
    bool replay_prefix = false;
    if (resuming) { st = rst; resuming = false; replay_prefix = true; }
    if (replay_prefix) {
      // The crashed leaf cannot be re-run to learn its arities: rebuild them from the recorded case file.
      std::ifstream ar(out + ".arity"); size_t i = 0; int x; while (ar >> x && i < st.size()) st[i++].second = x;
      more = advance(st);
    }
    double nextsave = 0;
    while (more) {
      Ctx c; c.stack_ = st; c.nshards_ = n; c.shard_ = shard; c.shard_depth_ = sec.shard_depth; c.thorough_ = g_thorough();
      // record the prefix before running (the crash report replays prefix + zeros), and keep it current
      struct Rec { Ctx& c; const Section& s; } rec{c, sec};
      (void)rec; (void)nextsave;
      { std::string e = enc(sec.name, st); std::string ar; for (auto& p : st) ar += std::to_string(p.second) + " ";
        snprintf(slot()->text, sizeof slot()->text, "%s\n%s\n", e.c_str(), ar.c_str()); }
      std::string key, msg; int r = run1(sec, c, key, msg);
      c.stack_.resize(c.pos_);
      bool mine = true;
      if (r != 2 && c.pos_ < c.shard_depth_ && n > 1 && (c.shard_idx_ >> 7) % n != shard) mine = false;
      if (r != 2 && mine) {
        ++leaves; ++sl; steps += c.steps_; val += c.val_; S.put(c.st_); O.put(c.oc_); N.put(c.nt_);
        for (auto& k : c.cnt_) cnt[k.first] += k.second;
        if (r == 0 && (sl == 3 || sl == 200) && samples.size() < 24) samples.push_back(sec.name + " " + enc("", c.stack_) + " " + c.trace_.substr(0, 400));
        if (r == 1) {
          int& fc = failc[sec.name + "/" + key];
          if (++fc <= 3) {
            fails << (ff ? "" : ",") << "{\"case\":\"" << json_escape(enc(sec.name, c.stack_)) << "\",\"key\":\"" << json_escape(sec.name + "/" + key)
                  << "\",\"msg\":\"" << json_escape(msg) << "\",\"trace\":\"" << json_escape(c.trace_.substr(0, 4000)) << "\"}"; ff = false;
          }
          if (fc > 2000 && failc.size() < 2) { complete = false; break; }
        }
      }
      st = c.stack_; more = advance(st);
      if (elapsed() > deadline) { complete = !more; break; }
    }
    secjs << (first ? "" : ",") << "\"" << sec.name << "\":{\"executions\":" << sl << ",\"complete\":" << (complete ? "true" : "false") << "}"; first = false;
    all_complete = all_complete && complete;
    if (elapsed() > deadline && &sec != &sections().back()) { /* later sections report zero executions */ }
  }
  S.dump(out + ".S"); O.dump(out + ".O"); N.dump(out + ".N");
  js << "{\"executions\":" << leaves << ",\"steps\":" << steps << ",\"validated\":" << val << ",\"complete\":" << (all_complete ? "true" : "false")
     << ",\"capped_sets\":" << ((S.capped || O.capped || N.capped) ? "true" : "false") << ",\"sections\":{" << secjs.str() << "},\"counts\":{";
  bool f2 = true; for (auto& k : cnt) { js << (f2 ? "" : ",") << "\"" << k.first << "\":" << k.second; f2 = false; }
  js << "},\"failcounts\":{"; f2 = true; for (auto& k : failc) { js << (f2 ? "" : ",") << "\"" << json_escape(k.first) << "\":" << k.second; f2 = false; }
  js << "},\"fails\":[" << fails.str() << "],\"samples\":["; f2 = true;
  for (auto& s : samples) { js << (f2 ? "" : ",") << "\"" << json_escape(s) << "\""; f2 = false; }
  js << "],\"wall\":" << elapsed() << "}\n"; js.close();
  return 0;
}

}  // namespace mc
#define MC_MAIN int main(int argc, char** argv) { setup(); return mc::main_impl(argc, argv); }
