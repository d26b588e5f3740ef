// Stand-in for or-tools routing (absent offline): the solver is an environment the harness owns.
// A tour visits every node once starting from the depot, all arcs with cost below kInf; which of the
// feasible tours is "found" is decided by the hook (every one of them in turn, or the optimum).
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace f2c_stub {
using Arc = std::function<int64_t(int64_t, int64_t)>;
// (number of nodes, depot, arc cost) -> order of the non-depot nodes; called on every solve.
using TourHook = std::function<std::vector<int>(int, int, const Arc&)>;
inline TourHook& tour_hook() { static TourHook h; return h; }
inline long& solves() { static long n = 0; return n; }
}
namespace operations_research {
struct Duration { void set_seconds(int64_t) {} };
struct FirstSolutionStrategy { enum Value { UNSET, AUTOMATIC, PATH_CHEAPEST_ARC, SAVINGS, CHRISTOFIDES, GLOBAL_CHEAPEST_ARC, LOCAL_CHEAPEST_INSERTION, PARALLEL_CHEAPEST_INSERTION }; };
struct LocalSearchMetaheuristic { enum Value { UNSET, AUTOMATIC, GREEDY_DESCENT, GUIDED_LOCAL_SEARCH, SIMULATED_ANNEALING, TABU_SEARCH }; };
struct RoutingSearchParameters {
  Duration d;
  void set_use_full_propagation(bool) {}
  void set_first_solution_strategy(FirstSolutionStrategy::Value) {}
  void set_local_search_metaheuristic(LocalSearchMetaheuristic::Value) {}
  Duration* mutable_time_limit() { return &d; }
  void set_log_search(bool) {}
};
inline RoutingSearchParameters DefaultRoutingSearchParameters() { return {}; }
class RoutingIndexManager {
 public:
  struct NodeIndex { int v; explicit NodeIndex(int x) : v(x) {} int value() const { return v; } };
  // indices: 0..n-1 stand for nodes; n is the end of the vehicle (node: depot)
  RoutingIndexManager(int n, int, NodeIndex depot) : n_(n), depot_(depot.v) {}
  NodeIndex IndexToNode(int64_t i) const { return NodeIndex(i >= n_ ? depot_ : static_cast<int>(i)); }
  int64_t NodeToIndex(NodeIndex i) const { return i.v; }
  int num_nodes() const { return n_; }
  int n_, depot_;
};
struct IntVar { int64_t i; };
struct Assignment { std::vector<int64_t> next; int64_t Value(const IntVar* v) const { return next.at(v->i); } };
class RoutingModel {
 public:
  explicit RoutingModel(const RoutingIndexManager& m) : m_(m) { for (int i = 0; i <= m.n_; ++i) vars_.push_back({i}); }
  template <class F> int RegisterTransitCallback(F f) { cb_ = f; return 0; }
  void SetArcCostEvaluatorOfAllVehicles(int) {}
  const Assignment* SolveWithParameters(const RoutingSearchParameters&) {
    ++f2c_stub::solves();
    auto tour = f2c_stub::tour_hook()(m_.n_, m_.depot_, cb_);
    a_.next.assign(m_.n_ + 1, -1);
    int64_t cur = m_.depot_;
    for (int t : tour) { a_.next[cur] = t; cur = t; }
    a_.next[cur] = m_.n_;
    return &a_;
  }
  int64_t Start(int) const { return m_.depot_; }
  bool IsEnd(int64_t i) const { return i == m_.n_; }
  const IntVar* NextVar(int64_t i) const { return &vars_.at(i); }
 private:
  RoutingIndexManager m_; std::vector<IntVar> vars_; Assignment a_; f2c_stub::Arc cb_;
};
}
