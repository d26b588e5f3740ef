From 5000e4da770b46051dc17ea01e01b4d4bb9d77d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 01/58] fix: Graph: forget cached shortest paths when an edge
 is removed

---
 src/fields2cover/types/Graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index f840669..32114b2 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -30,6 +30,9 @@ Graph& Graph::removeDirectedEdge(size_t from, size_t to) {
     return *this;
   }
   this->edges_.at(from).erase(to);
+  this->next_.clear();
+  this->distance_.clear();
+  this->shortest_paths_.clear();
   return *this;
 }
 Graph& Graph::removeEdge(size_t i, size_t j) {
-- 
2.43.0


From 1333bedf6ae93117e80bb586dbd859f26a5815f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 02/58] fix: Graph: cover sink, gap and isolated nodes in path
 matrices and queries

---
 include/fields2cover/types/Graph.h |  3 +++
 src/fields2cover/types/Graph.cpp   | 33 +++++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index f50b56d..2210f84 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -63,6 +63,9 @@ class Graph {
         int64_t INF = 1e15);
 
  protected:
+  /// Size of the matrices indexed by node: biggest node index plus one
+  size_t numIndices() const;
+
   void DFS(size_t from, size_t to,
     std::vector<std::vector<size_t>>& routes,
     std::vector<bool>& visited,
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index 32114b2..f36f66e 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -43,6 +43,17 @@ size_t Graph::numNodes() const {
   return this->edges_.size();
 }
 
+size_t Graph::numIndices() const {
+  size_t n = 0;
+  for (const auto& src : this->edges_) {
+    n = std::max(n, src.first + 1);
+    for (const auto& dest : src.second) {
+      n = std::max(n, dest.first + 1);
+    }
+  }
+  return n;
+}
+
 size_t Graph::numEdges() const {
   return std::accumulate(this->edges_.begin(), this->edges_.end(), 0,
       [](int sum, const auto& e) {return sum + e.second.size();});
@@ -72,7 +83,8 @@ int64_t Graph::getCostFromEdge(size_t from, size_t to, int64_t INF) const {
 
 std::vector<std::vector<size_t>> Graph::allPathsBetween(
     size_t from, size_t to) const {
-  std::vector<bool> visited(this->numNodes(), false);
+  std::vector<bool> visited(std::max(
+      this->numIndices(), std::max(from, to) + 1), false);
   std::vector<std::vector<size_t>> routes(1);
   int route_index = 0;
   this->DFS(from, to, routes, visited, route_index);
@@ -103,7 +115,7 @@ void Graph::DFS(
 }
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
-  const size_t N = this->numNodes();
+  const size_t N = this->numIndices();
   this->distance_.assign(N, std::vector<int64_t>(N, INF));
   this->next_.assign(N, std::vector<int64_t>(N, -1));
   initializeMatrices(distance_,next_, INF);
@@ -114,7 +126,7 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
     std::vector<std::vector<int64_t>>& next,
     int64_t INF) {
 
-  const size_t N = this->numNodes();
+  const size_t N = this->numIndices();
 
   // Initialize distances and paths for direct connections
   for (const auto& src : this->edges_) {
@@ -122,7 +134,9 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
       dist[src.first][dest.first] = dest.second;
       next[src.first][dest.first] = dest.first;
     }
-    dist[src.first][src.first] = 0;
+  }
+  for (size_t i = 0; i < N; ++i) {
+    dist[i][i] = 0;
   }
 
 
@@ -167,7 +181,7 @@ short_path_container_t& Graph::getPaths() {
     this->shortestPathsAndCosts();
   }
   if (shortest_paths_.empty()) {
-    const size_t N = this->numNodes();
+    const size_t N = this->numIndices();
     shortest_paths_.assign(N, std::vector<std::vector<size_t>>(N));
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
@@ -195,7 +209,8 @@ std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
 
 std::vector<size_t> Graph::reconstructPath(size_t from,
     size_t to, std::vector<std::vector<int64_t>>& next) const {
-  if (from != to && next[from][to] != -1) {
+  if (from != to && std::max(from, to) < next.size() &&
+      next[from][to] != -1) {
     std::vector<size_t> path = {from};
     size_t current = from;
     while (current != to) {
@@ -212,7 +227,11 @@ int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
   if (this->numNodes() > 0 && this->distance_.size() == 0) {
     this->shortestPathsAndCosts(INF);
   }
-  return this->distance_[from][to];
+  if (from != to && (std::max(from, to) >= this->next_.size() ||
+      this->next_[from][to] == -1)) {
+    return INF;
+  }
+  return from == to ? 0 : this->distance_[from][to];
 }
 
 }  // namespace f2c::types
-- 
2.43.0


From 105ae0dd3b44b79171e0f96719b588d530977e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 03/58] fix: Swath::clone: keep the swath type, accept swaths
 without width

---
 src/fields2cover/types/Swath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index 8c6929f..aba2464 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -115,8 +115,8 @@ Cells Swath::areaCovered(const Cells& polys) const {
 }
 
 Swath Swath::clone() const {
-  Swath new_s {this->path_.clone(), this->width_, this->id_};
-  new_s.setCreationDir(this->getCreationDir());
+  Swath new_s {*this};
+  new_s.setPath(this->path_.clone());
   return new_s;
 }
 
-- 
2.43.0


From ae1b78a58ba3f8a0ff00baaa615aea99dae32242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 04/58] fix: Swaths::reverseDirOddSwaths: alternate the driving
 direction of swaths drawn in different directions

---
 src/fields2cover/types/Swaths.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Swaths.cpp b/src/fields2cover/types/Swaths.cpp
index e3cfa76..ebed0a7 100644
--- a/src/fields2cover/types/Swaths.cpp
+++ b/src/fields2cover/types/Swaths.cpp
@@ -134,8 +134,11 @@ void Swaths::sort() {
 }
 
 void Swaths::reverseDirOddSwaths() {
+  auto dir = [] (const Swath& s) { return s.endPoint() - s.startPoint(); };
   for (size_t i = 1; i < this->size(); ++i) {
-    this->data_[i].targetOppositeDirAs(this->data_[i - 1]);
+    if (dir(this->data_[i]) * dir(this->data_[i - 1]) > 0.0) {
+      this->data_[i].reverse();
+    }
   }
 }
 
-- 
2.43.0


From e86e5db48d5f05403f786c2329fb0c715b35ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 05/58] fix: genSortedSwaths: apply the reversed start to the
 first swath of the ordered result

---
 .../route_planning/single_cell_swaths_order_base.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/route_planning/single_cell_swaths_order_base.cpp b/src/fields2cover/route_planning/single_cell_swaths_order_base.cpp
index 024018d..9edb595 100644
--- a/src/fields2cover/route_planning/single_cell_swaths_order_base.cpp
+++ b/src/fields2cover/route_planning/single_cell_swaths_order_base.cpp
@@ -17,6 +17,9 @@ F2CSwaths SingleCellSwathsOrderBase::genSortedSwaths(
     new_swaths.sort();
     this->changeStartPoint(new_swaths, variant);
     this->sortSwaths(new_swaths);
+    if (variant & 2) {
+      new_swaths[0].reverse();
+    }
     new_swaths.reverseDirOddSwaths();
   }
   return new_swaths;
@@ -27,9 +30,6 @@ void SingleCellSwathsOrderBase::changeStartPoint(
   if (variant & 1) {
     swaths.reverse();
   }
-  if (variant & 2) {
-    swaths[0].reverse();
-  }
 }
 
 
-- 
2.43.0


From ae800b6f732e20ffa6e47dd22886f9b3c95cae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 06/58] fix: SnakeOrder: do not rotate past the end of a single
 swath

---
 src/fields2cover/route_planning/snake_order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/route_planning/snake_order.cpp b/src/fields2cover/route_planning/snake_order.cpp
index 45e8f3c..0cdd281 100644
--- a/src/fields2cover/route_planning/snake_order.cpp
+++ b/src/fields2cover/route_planning/snake_order.cpp
@@ -9,6 +9,9 @@
 namespace f2c::rp {
 
 void SnakeOrder::sortSwaths(F2CSwaths& swaths) const {
+  if (swaths.size() < 2) {
+    return;
+  }
   size_t i;
   for (i = 1; i < (swaths.size() - 1) / 2 + 1; ++i) {
     std::rotate(swaths.begin() + i, swaths.begin() + i + 1, swaths.end());
-- 
2.43.0


From 20da42a59e0059377e15a0bf3ac4370b21956322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 07/58] fix: SpiralOrder::setSpiralSize: avoid dividing by a
 spiral size of zero

---
 src/fields2cover/route_planning/spiral_order.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/spiral_order.cpp b/src/fields2cover/route_planning/spiral_order.cpp
index bc474d2..78a6300 100644
--- a/src/fields2cover/route_planning/spiral_order.cpp
+++ b/src/fields2cover/route_planning/spiral_order.cpp
@@ -10,7 +10,7 @@ SpiralOrder::SpiralOrder(size_t sp_size) {
 SpiralOrder::~SpiralOrder() = default;
 
 void SpiralOrder::setSpiralSize(size_t sp_size) {
-  this->spiral_size = sp_size;
+  this->spiral_size = std::max<size_t>(1, sp_size);
 }
 
 void SpiralOrder::sortSwaths(F2CSwaths& swaths) const {
-- 
2.43.0


From 7ab9182063222eeed2f1d104dcb8485777d3b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 08/58] fix: MultiPoint::setGeometry: pad when setting a point
 past the end instead of crashing

---
 src/fields2cover/types/MultiPoint.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/types/MultiPoint.cpp b/src/fields2cover/types/MultiPoint.cpp
index 498b426..9c951f2 100644
--- a/src/fields2cover/types/MultiPoint.cpp
+++ b/src/fields2cover/types/MultiPoint.cpp
@@ -73,6 +73,9 @@ const Point MultiPoint::getLastPoint() const {
 
 
 void MultiPoint::setGeometry(size_t i, const Point& p) {
+    while (i >= static_cast<size_t>(data_->getNumGeometries())) {
+      this->addPoint(Point());
+    }
     OGRPoint* point = downCast<OGRPoint*>(data_->getGeometryRef(i));
     point->setX(p.getX());
     point->setY(p.getY());
-- 
2.43.0


From e2520ef2ed360a45812eac459c653e4be92f0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 09/58] fix: Cell, Cells: close rings added to a cell set,
 throw on cells and rings that do not exist

---
 src/fields2cover/types/Cell.cpp  |  7 +++++++
 src/fields2cover/types/Cells.cpp | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index e82add0..ea3605c 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -130,10 +130,17 @@ void Cell::addGeometry(const LinearRing& ring) {
 }
 
 const LinearRing Cell::getExteriorRing() const {
+  if (this->data_->getExteriorRing() == nullptr) {
+    throw std::out_of_range("Cell does not contain an exterior ring");
+  }
   return LinearRing(this->data_->getExteriorRing());
 }
 
 const LinearRing Cell::getInteriorRing(size_t i) const {
+  if (i >= static_cast<size_t>(this->data_->getNumInteriorRings())) {
+    throw std::out_of_range(
+        "Cell does not contain interior ring " + std::to_string(i));
+  }
   return LinearRing(this->data_->getInteriorRing(i));
 }
 
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index dd2bc96..6807a65 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -114,13 +114,11 @@ const Cell Cells::getCell(size_t i) const {
 }
 
 const LinearRing Cells::getCellBorder(size_t i) const {
-  return LinearRing(
-      downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->getExteriorRing());
+  return this->getGeometry(i).getExteriorRing();
 }
 
 const LinearRing Cells::getInteriorRing(size_t i_cell, size_t i_ring) const {
-  return LinearRing(downCast<OGRPolygon*>(this->data_->getGeometryRef(i_cell))
-      ->getInteriorRing(i_ring));
+  return this->getGeometry(i_cell).getInteriorRing(i_ring);
 }
 
 void Cells::addGeometry(const Cell& c) {
@@ -128,8 +126,13 @@ void Cells::addGeometry(const Cell& c) {
 }
 
 void Cells::addRing(size_t i, const LinearRing& ring) {
+  if (i >= static_cast<size_t>(this->data_->getNumGeometries())) {
+    throw std::out_of_range(
+        "Cells does not contain cell at " + std::to_string(i));
+  }
+  auto r = ring.clone();
   downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->addRing(
-      ring.clone().get());
+      r.closeRing().get());
 }
 
 size_t Cells::size() const {
-- 
2.43.0


From ac02d8920baed318b78ff05eb8df20372cae6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 10/58] fix: Route: skip empty connections and swath groups in
 the start and end points

---
 src/fields2cover/types/Route.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index f43a4fb..9ad5885 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -4,6 +4,7 @@
 //                        BSD-3 License
 //=============================================================================
 
+#include <algorithm>
 #include "fields2cover/types/Route.h"
 
 namespace f2c::types {
@@ -121,20 +122,25 @@ void Route::setConnection(size_t i, const MultiPoint& mp) {
 }
 
 Point Route::startPoint() const {
-  if (sizeConnections() > 0 && connections_[0].size() > 0) {
-    return connections_[0].getFirstPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_[0].size() > 0) {
-    return v_swaths_[0][0].startPoint();
+  for (size_t i = 0; i < sizeConnections() || i < sizeVectorSwaths(); ++i) {
+    if (i < sizeConnections() && connections_[i].size() > 0) {
+      return connections_[i].getFirstPoint();
+    } else if (i < sizeVectorSwaths() && v_swaths_[i].size() > 0) {
+      return v_swaths_[i][0].startPoint();
+    }
   }
   return {};
 }
 
 Point Route::endPoint() const {
-  if (sizeConnections() > sizeVectorSwaths() &&
-      connections_.back().size() > 0) {
-    return connections_.back().getLastPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_.back().size() > 0) {
-    return v_swaths_.back().back().endPoint();
+  for (size_t i = std::max(sizeConnections(), sizeVectorSwaths());
+      i-- > 0;) {
+    // Connection i is driven before swaths i
+    if (i < sizeVectorSwaths() && v_swaths_[i].size() > 0) {
+      return v_swaths_[i].back().endPoint();
+    } else if (i < sizeConnections() && connections_[i].size() > 0) {
+      return connections_[i].getLastPoint();
+    }
   }
   return {};
 }
-- 
2.43.0


From 0001417316cd9d47f91ac6af21ea7d1f3bd8fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 11/58] fix: Field::clone: keep the previous coordinate system
 and the reference point

---
 src/fields2cover/types/Field.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 95b32ee..ec79d3e 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -74,8 +74,12 @@ void Field::setField(const Cells& _field) {
 }
 
 Field Field::clone() const {
-  Field new_field {this->field_ + this->ref_point_, this->id_};
+  Field new_field;
+  new_field.id_ = this->id_;
   new_field.coord_sys_ = this->coord_sys_;
+  new_field.prev_coord_sys_ = this->prev_coord_sys_;
+  new_field.ref_point_ = this->ref_point_;
+  new_field.field_ = this->field_.clone();
   return new_field;
 }
 
-- 
2.43.0


From 205c6fb12906fa0f29ffe6ff330050a8eb45dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 12/58] fix: Point: keep moved-from points usable so that
 points can be swapped

---
 src/fields2cover/types/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Point.cpp b/src/fields2cover/types/Point.cpp
index f0ff44f..526a07f 100644
--- a/src/fields2cover/types/Point.cpp
+++ b/src/fields2cover/types/Point.cpp
@@ -17,7 +17,7 @@ Point::Point(double _x, double _y, double _z) : Geometry() {
 }
 
 Point::Point(const Point& p) : Geometry(p.clone()) {}
-Point::Point(Point&& p) = default;
+Point::Point(Point&& p) : Geometry(p.clone()) {}
 Point::~Point() = default;
 
 Point& Point::operator=(Point&& p) {
-- 
2.43.0


From 98fe749797993d65d54ed6b20c84639ba2b1d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 13/58] fix: Geometries::clone: keep empty children and every
 digit of the coordinates

---
 include/fields2cover/types/Geometries_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 01e2ff6..00a4a78 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -18,7 +18,7 @@ double Geometries<SAMETYPE, T, R, CHILDRENTYPE>::area() const {
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
 SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::clone() const {
   SAMETYPE cloned;
-  cloned.importFromWkt(this->exportToWkt());
+  static_cast<Geometry<T, R>&>(cloned) = Geometry<T, R>(this->get());
   return cloned;
 }
 
-- 
2.43.0


From 85068e895758023e17ce0483fbbb66a6d679ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 14/58] fix: Robot: take the absolute value of curvatures given
 at construction

---
 src/fields2cover/types/Robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Robot.cpp b/src/fields2cover/types/Robot.cpp
index 6836ac6..e38f2dd 100644
--- a/src/fields2cover/types/Robot.cpp
+++ b/src/fields2cover/types/Robot.cpp
@@ -12,7 +12,7 @@ namespace f2c::types {
 Robot::Robot(double width, double cov_width,
     double max_curv, double max_diff_curv) :
       width_(width), cov_width_(cov_width),
-      max_icc_(max_curv), linear_curv_change_(max_diff_curv) {
+      max_icc_(fabs(max_curv)), linear_curv_change_(fabs(max_diff_curv)) {
   if (width <= 0.0 || cov_width < 0.0) {
     throw std::out_of_range("Robot widths have to be greater than 0.");
   }
-- 
2.43.0


From a84ec59c0e378e125f0a236003dbebc49b213a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 15/58] fix: Cell::createLineUntilBorder: do not jump over the
 outside of the cell

---
 src/fields2cover/types/Cell.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index ea3605c..4748aa6 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -202,7 +202,11 @@ LineString Cell::createLineUntilBorder(
   const auto intersections(ray.intersection(*this));
   Point best_point{p};
   double min_dist {std::numeric_limits<double>::max()};
+  const bool is_p_in_cell {this->distance(p) < 1e-5};
   for (auto&& line : intersections) {
+    if (is_p_in_cell && line.distance(p) > 1e-5) {
+      continue;  // The ray leaves the cell before reaching this line
+    }
     for (auto&& p_l : line) {
       double dist = p_l.distance(p);
       if (dist > 1e-5 && min_dist > dist) {
-- 
2.43.0


From 59204ba471118bfe788a5381add7405868b389c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 16/58] fix: MultiLineString: keep the lines of geometry
 collections

---
 src/fields2cover/types/MultiLineString.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 3d27195..973ff21 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -65,6 +65,11 @@ void MultiLineString::append(const OGRGeometry* geom) {
         data_->addGeometry(ring);
       }
     }
+  } else if (wkbFlatten(geom->getGeometryType()) ==
+      OGRwkbGeometryType::wkbGeometryCollection) {
+    for (auto&& g : *geom->toGeometryCollection()) {
+      this->append(g);
+    }
   }
 }
 
-- 
2.43.0


From 2098e126e31fa0de5d370dbc74e2a8daf21541c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 17/58] fix: Cell::isConvex: test every corner, ignore
 collinear vertices and orientation

---
 src/fields2cover/types/Cell.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index 4748aa6..727f242 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -150,22 +150,23 @@ bool Cell::isConvex() const {
     return false;
   }
   auto border = this->getExteriorRing();
-  if (border.size() < 2) {
-    return false;
-  }
-  auto getAng = [&border] (size_t i) {
-    return Point::getAngleFromPoints(
-        border.getGeometry(i),
-        border.getGeometry(i + 1),
-        border.getGeometry(i + 2));
-  };
-  bool inv = M_PI > getAng(0);
-  for (size_t i = 1; i < border.size() - 2; ++i) {
-    if (inv != (getAng(i) < M_PI)) {
-      return false;
+  std::vector<Point> edges;
+  for (size_t i = 0; i < border.size(); ++i) {
+    auto edge = border.getGeometry((i + 1) % border.size()) -
+      border.getGeometry(i);
+    edge.setZ(0.0);
+    if (edge * edge > 0) {
+      edges.emplace_back(edge / sqrt(edge * edge));
     }
   }
-  return true;
+  bool turns_left {false};
+  bool turns_right {false};
+  for (size_t i = 0; i < edges.size(); ++i) {
+    const double turn = Point::det(edges[i], edges[(i + 1) % edges.size()]);
+    turns_left = turns_left || turn > 1e-9;
+    turns_right = turns_right || turn < -1e-9;
+  }
+  return !(turns_left && turns_right);
 }
 
 LineString Cell::createSemiLongLine(const Point& point, double angle) const {
-- 
2.43.0


From 3c041a152c7f85d632a73821e6d9687c20f490e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 18/58] fix: BruteForce: try every multiple of the step angle
 within a turn

---
 src/fields2cover/swath_generator/brute_force.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/swath_generator/brute_force.cpp b/src/fields2cover/swath_generator/brute_force.cpp
index 78ceb0f..44a5dd0 100644
--- a/src/fields2cover/swath_generator/brute_force.cpp
+++ b/src/fields2cover/swath_generator/brute_force.cpp
@@ -5,6 +5,7 @@
 //=============================================================================
 
 #include <algorithm>
+#include <cmath>
 #ifdef ALLOW_PARALLELIZATION
 #include <execution>
 #endif
@@ -25,8 +26,9 @@ void BruteForce::setStepAngle(double d) {
 
 double BruteForce::computeBestAngle(f2c::obj::SGObjective& obj,
     double op_width, const F2CCell& poly) {
-  int n = static_cast<int>(
-      boost::math::constants::two_pi<double>() / step_angle);
+  // Number of multiples of step_angle in [0, 2*pi)
+  int n = static_cast<int>(std::ceil(
+      boost::math::constants::two_pi<double>() / step_angle - 1e-9));
   std::vector<double> costs(n);
   std::vector<int> ids(n);
   std::iota(ids.begin(), ids.end(), 0);
-- 
2.43.0


From eb521374168a8fc1d788486d6a4a7650776c0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 19/58] fix: NSwathModified: use the real predecessor of the
 first vertex

---
 src/fields2cover/objectives/sg_obj/n_swath_modified.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
index e468216..a0ac6a3 100644
--- a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
+++ b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
@@ -15,9 +15,9 @@ double NSwathModified::computeCost(
   }
   double n_turns {0.0};
   for (auto&& ring : cell) {
-    for (size_t i = 0; i < ring.size(); ++i) {
+    for (size_t i = 1; i < ring.size(); ++i) {
       auto p = ring.getGeometry(i);
-      auto p_1 = ring.getGeometry((i - 1) % ring.size());
+      auto p_1 = ring.getGeometry(i - 1);
       n_turns += p.distance(p_1) *
         fabs(sin(ang - (p - p_1).getAngleFromPoint()));
     }
-- 
2.43.0


From b1a2612952102744a179e14f39ddc2e7010d3f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 20/58] fix: Overlaps: compare every pair of swaths

---
 src/fields2cover/objectives/sg_obj/overlaps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/overlaps.cpp b/src/fields2cover/objectives/sg_obj/overlaps.cpp
index 5349cdb..4d452d3 100644
--- a/src/fields2cover/objectives/sg_obj/overlaps.cpp
+++ b/src/fields2cover/objectives/sg_obj/overlaps.cpp
@@ -15,9 +15,9 @@ double Overlaps::computeCost(const F2CCell& poly, const F2CSwaths& swaths) {
 double Overlaps::computeCost(const F2CCells& poly, const F2CSwaths& swaths) {
   double area_overlaped {0.0};
   std::vector<F2CCells> areas;
-  for (int i = swaths.size() - 1; i >= 0; --i) {
+  for (size_t i = 0; i < swaths.size(); ++i) {
     areas.emplace_back(swaths[i].areaCovered(poly));
-    for (int j = i + 1; j < areas.size(); ++j) {
+    for (size_t j = 0; j < i; ++j) {
       if (areas[i].intersects(areas[j])) {
         area_overlaped += F2CCells(areas[i]).intersection(areas[j]).area();
       }
-- 
2.43.0


From fbc9b869114c29d6b23182ab70e3ab69efe39e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 21/58] fix: FieldCoverage: no swaths cover nothing instead of
 reading past the end

---
 src/fields2cover/objectives/sg_obj/field_coverage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index f29b834..96190f3 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -15,6 +15,9 @@ double FieldCoverage::computeCost(
 
 double FieldCoverage::computeCost(
     const F2CCells& poly, const F2CSwaths& swaths) {
+  if (swaths.size() == 0) {
+    return 0.0;
+  }
   F2CMultiLineString lines;
   for (const auto& s : swaths) {
     lines.addGeometry(s.getPath());
-- 
2.43.0


From 25d8206da03a1047d63828580b6b9c933e6820c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 22/58] fix: FieldCoverage: use the width of every swath

---
 .../objectives/sg_obj/field_coverage.cpp           | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index 96190f3..b3b4d5f 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -4,6 +4,7 @@
 //                        BSD-3 License
 //=============================================================================
 
+#include <map>
 #include "fields2cover/objectives/sg_obj/field_coverage.h"
 
 namespace f2c::obj {
@@ -18,13 +19,16 @@ double FieldCoverage::computeCost(
   if (swaths.size() == 0) {
     return 0.0;
   }
-  F2CMultiLineString lines;
+  std::map<double, F2CMultiLineString> lines_by_width;
   for (const auto& s : swaths) {
-    lines.addGeometry(s.getPath());
+    lines_by_width[s.getWidth()].addGeometry(s.getPath());
   }
-
-  double area_covered {poly.getCellsInside(
-      F2CCells::buffer(lines, swaths[0].getWidth() / 2.0)).area()};
+  F2CCells covered;
+  for (const auto& [width, lines] : lines_by_width) {
+    auto strip = F2CCells::buffer(lines, width / 2.0);
+    covered = covered.isEmpty() ? strip : covered.unionOp(strip);
+  }
+  double area_covered {poly.getCellsInside(covered).area()};
   return area_covered / poly.area();
 }
 
-- 
2.43.0


From a4922a91e49bca2d2c18f1f2b5130fcf13bbe209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 23/58] fix: RPObjective: count the links across empty
 connections of a route

---
 .../objectives/rp_obj/rp_objective.cpp        | 40 ++++++++++++++-----
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/fields2cover/objectives/rp_obj/rp_objective.cpp b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
index fb06c83..3a44a95 100644
--- a/src/fields2cover/objectives/rp_obj/rp_objective.cpp
+++ b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
@@ -79,7 +79,7 @@ double RPObjective::computeCost(const F2CSwath& s, const F2CMultiPoint& ps) {
 }
 
 double RPObjective::computeCost(const F2CSwaths& s, const F2CMultiPoint& ps) {
-  if (ps.isEmpty()) {
+  if (ps.isEmpty() || s.size() == 0) {
     return 0.0;
   }
   return computeCost(s.back(), ps);
@@ -94,6 +94,9 @@ double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwath& s) {
 }
 
 double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwaths& s) {
+  if (s.size() == 0) {
+    return 0.0;
+  }
   return computeCost(ps, s[0]);
 }
 
@@ -119,16 +122,31 @@ double RPObjective::computeCost(const F2CSwaths& swaths) {
 
 double RPObjective::computeCost(const F2CRoute& r) {
   double dist {0.0};
-  for (auto&& s : r.getVectorSwaths()) {
-    dist += computeCost(s);
-  }
-  for (auto&& s : r.getConnections()) {
-    dist += computeCost(s);
-  }
-  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) {
-    dist += computeCost(r.getConnection(i), r.getSwaths(i));
-    if (i + 1 < r.sizeConnections()) {
-      dist += computeCost(r.getSwaths(i), r.getConnection(i + 1));
+  // What was driven before: either swaths or the points of a connection
+  F2CSwaths prev_swaths;
+  F2CMultiPoint prev_ps;
+  for (size_t i = 0; i < r.sizeConnections() || i < r.sizeVectorSwaths(); ++i) {
+    if (i < r.sizeConnections() && !r.getConnection(i).isEmpty()) {
+      const auto& ps = r.getConnection(i);
+      dist += computeCost(ps);
+      if (prev_swaths.size() > 0) {
+        dist += computeCost(prev_swaths, ps);
+      } else if (!prev_ps.isEmpty()) {
+        dist += computeCost(prev_ps.getLastPoint(), ps.getFirstPoint());
+      }
+      prev_ps = ps;
+      prev_swaths = F2CSwaths();
+    }
+    if (i < r.sizeVectorSwaths() && r.getSwaths(i).size() > 0) {
+      const auto& swaths = r.getSwaths(i);
+      dist += computeCost(swaths);
+      if (prev_swaths.size() > 0) {
+        dist += computeCost(prev_swaths.back(), swaths[0]);
+      } else {
+        dist += computeCost(prev_ps, swaths);
+      }
+      prev_swaths = swaths;
+      prev_ps = F2CMultiPoint();
     }
   }
   return dist;
-- 
2.43.0


From 3d683d09ea4bd9f9eb26513fe7e0475f83465095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 24/58] fix: Path::at: do not fall off the end of the path by
 rounding

---
 src/fields2cover/types/Path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 5fd6657..dc9dff7 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -233,14 +233,14 @@ PathState Path::at(double len) const {
   PathState state_at;
   for (size_t i = 0; i < this->size(); ++i) {
     double len_state = fabs(states_[i].len);
-    if (len_state < len) {
+    if (len_state < len && i + 1 < this->size()) {
       len -= len_state;
     } else {
       state_at = states_[i];
       Point p = states_[i].point;
       double ang = states_[i].angle;
 
-      len *= static_cast<double>(states_[i].dir);
+      len = fmin(len, len_state) * static_cast<double>(states_[i].dir);
       state_at.point = Point(p.getX() + len * cos(ang),
                              p.getY() + len * sin(ang));
       break;
-- 
2.43.0


From 248ee35a5aa7407b1c4da76b62fdcde944ecfefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 25/58] fix: Path: read and write paths independently of the
 global locale, leave it alone

---
 src/fields2cover/types/Path.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index dc9dff7..9e76bf9 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -257,31 +257,16 @@ Point Path::atEnd() const {
   return states_.back().atEnd();
 }
 
-template<typename CharT>
-class DecimalSeparator : public std::numpunct<CharT>{
- public:
-  explicit DecimalSeparator(CharT Separator) : m_Separator(Separator) {}
-
- protected:
-  CharT do_decimal_point() const {
-    return m_Separator;
-  }
-
- private:
-  CharT m_Separator;
-};
-
 std::string to_string(double d, const int precision = 6) {
   std::stringstream ss;
   ss.precision(precision);
-  ss.imbue(std::locale(std::locale(), new DecimalSeparator<char>('.')));
+  ss.imbue(std::locale::classic());
   ss << d;
   return ss.str();
 }
 
 
 std::string Path::serializePath(size_t digit_precision) const {
-  std::locale::global(std::locale::classic());
   std::string res = "";
 
   for (size_t i = 0; i < size(); ++i) {
@@ -329,6 +314,7 @@ void Path::saveToFile(const std::string& file, size_t precision) const {
 
 void Path::loadFile(const std::string& file) {
   std::ifstream in(file);
+  in.imbue(std::locale::classic());
   double x, y, z, ang, vel, len, dir, d_type;
   while (in >> x >> y >> z >> ang >> vel >> len >> dir >> d_type) {
     PathState s;
-- 
2.43.0


From 48ee054519f6c5db17e44dd99e4ecf4b88d945eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 26/58] fix: Path, TurningBase: accept empty paths in
 toLineString and isTurnValid

---
 src/fields2cover/path_planning/turning_base.cpp | 3 +++
 src/fields2cover/types/Path.cpp                 | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index c95ab81..67810fc 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -100,6 +100,9 @@ F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
 bool TurningBase::isTurnValid(const types::Path& path,
     double dist_start_end, double end_angle,
     double max_dist, double max_rot_error) {
+  if (path.size() == 0) {
+    return false;
+  }
   for (auto&& s : path) {
     if (s.point.getY() < -max_dist) {
       return false;
diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 9e76bf9..9f3a113 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -413,7 +413,9 @@ LineString Path::toLineString() const {
   for (auto&& s : this->states_) {
     line.addPoint(s.point);
   }
-  line.addPoint(this->atEnd());
+  if (this->size() > 0) {
+    line.addPoint(this->atEnd());
+  }
   return line;
 }
 
-- 
2.43.0


From 8f3178d16432185eee76a0d8dba834e8343c2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 27/58] fix: TurningBase: key cached turns by turn velocity and
 discretization, to micrometres

---
 .../fields2cover/path_planning/turning_base.h  |  5 +++--
 .../path_planning/turning_base.cpp             | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/fields2cover/path_planning/turning_base.h b/include/fields2cover/path_planning/turning_base.h
index f14446b..2c9ec84 100644
--- a/include/fields2cover/path_planning/turning_base.h
+++ b/include/fields2cover/path_planning/turning_base.h
@@ -8,6 +8,7 @@
 #ifndef FIELDS2COVER_PATH_PLANNING_TURNING_BASE_H_
 #define FIELDS2COVER_PATH_PLANNING_TURNING_BASE_H_
 
+#include <cstdint>
 #include <memory>
 #include <map>
 #include <vector>
@@ -87,8 +88,8 @@ class TurningBase {
 
  protected:
   // To prevent memory consumption and comparative errors because of doubles
-  // ints are used multiplied by 1000.
-  std::map<std::vector<int>, F2CPath> path_cache_;
+  // ints are used multiplied by 1e6.
+  std::map<std::vector<int64_t>, F2CPath> path_cache_;
   double discretization {0.01};
   bool using_cache {true};
 };
diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index 67810fc..3d399c9 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -4,6 +4,7 @@
 //                        BSD-3 License
 //=============================================================================
 
+#include <cmath>
 #include "fields2cover/path_planning/turning_base.h"
 
 namespace f2c::pp {
@@ -80,12 +81,17 @@ void TurningBase::correctPath(F2CPath& path, const F2CPoint& start_pos,
 
 F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
     double dist_start_end, double start_angle, double end_angle) {
-  std::vector<int> v_turn {
-        static_cast<int>(1e3 * robot.getMaxCurv()),
-        static_cast<int>(1e3 * robot.getMaxDiffCurv()),
-        static_cast<int>(1e3 * dist_start_end),
-        static_cast<int>(1e3 * start_angle),
-        static_cast<int>(1e3 * end_angle)
+  auto to_key = [] (double v) {
+    return static_cast<int64_t>(std::llround(1e6 * v));
+  };
+  std::vector<int64_t> v_turn {
+        to_key(robot.getMaxCurv()),
+        to_key(robot.getMaxDiffCurv()),
+        to_key(robot.getTurnVel()),
+        to_key(this->discretization),
+        to_key(dist_start_end),
+        to_key(start_angle),
+        to_key(end_angle)
   };
   auto it = path_cache_.find(v_turn);
   if (it != path_cache_.end()) {
-- 
2.43.0


From c69ffb98f02d762bdcdddea867cefae63d06677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 28/58] fix: PathPlanning: join swaths across empty groups of a
 route

---
 .../path_planning/path_planning.cpp           | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/path_planning/path_planning.cpp b/src/fields2cover/path_planning/path_planning.cpp
index f4723ab..6c6fa96 100644
--- a/src/fields2cover/path_planning/path_planning.cpp
+++ b/src/fields2cover/path_planning/path_planning.cpp
@@ -12,15 +12,24 @@ namespace f2c::pp {
 F2CPath PathPlanning::planPath(const F2CRobot& robot,
     const F2CRoute& route, TurningBase& turn) {
   F2CPath path;
-  for (size_t i = 0; i < route.sizeVectorSwaths(); ++i) {
-    auto prev_swaths = (i >0) ? route.getSwaths(i-1) : F2CSwaths();
+  F2CSwaths prev_swaths;
+  F2CMultiPoint connection;
+  for (size_t i = 0; i < route.sizeConnections(); ++i) {
+    for (auto&& p : route.getConnection(i)) {
+      connection.addPoint(p);
+    }
+    if (i >= route.sizeVectorSwaths() || route.getSwaths(i).size() == 0) {
+      continue;
+    }
     path += planPathForConnection(robot,
-        prev_swaths, route.getConnection(i), route.getSwaths(i), turn);
+        prev_swaths, connection, route.getSwaths(i), turn);
     path += planPath(robot, route.getSwaths(i), turn);
+    prev_swaths = route.getSwaths(i);
+    connection = F2CMultiPoint();
   }
-  if (route.sizeConnections() > route.sizeVectorSwaths()) {
+  if (connection.size() > 0) {
     path += planPathForConnection(robot,
-      route.getLastSwaths(), route.getLastConnection(), F2CSwaths(), turn);
+      prev_swaths, connection, F2CSwaths(), turn);
   }
   return path;
 }
-- 
2.43.0


From e99275ffa6c4641ac88dada5b7faa7504dbdbf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 29/58] fix: PathPlanning: accept connections of a single point
 at the ends of a route

---
 src/fields2cover/path_planning/path_planning.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/path_planning/path_planning.cpp b/src/fields2cover/path_planning/path_planning.cpp
index 6c6fa96..16eec6b 100644
--- a/src/fields2cover/path_planning/path_planning.cpp
+++ b/src/fields2cover/path_planning/path_planning.cpp
@@ -65,7 +65,15 @@ F2CPath PathPlanning::planPathForConnection(const F2CRobot& robot,
     ang1 = s1.back().getOutAngle();
   } else if (mp.size() > 0) {
     p1 = mp[0];
-    ang1 = mp.getOutAngle(0);
+    if (mp.size() > 1) {
+      ang1 = mp.getOutAngle(0);
+    } else if (s2.size() > 0) {
+      auto dir = s2[0].startPoint() - p1;
+      ang1 = dir == F2CPoint(0, 0) ?
+        s2[0].getInAngle() : dir.getAngleFromPoint();
+    } else {
+      return {};
+    }
   } else {
     return {};
   }
@@ -74,7 +82,11 @@ F2CPath PathPlanning::planPathForConnection(const F2CRobot& robot,
     ang2 = s2[0].getInAngle();
   } else if (mp.size() > 0) {
     p2 = mp.getLastPoint();
-    ang2 = mp.getInAngle(mp.size()-1);
+    if (mp.size() > 1) {
+      ang2 = mp.getInAngle(mp.size() - 1);
+    } else {
+      ang2 = p2 == p1 ? ang1 : (p2 - p1).getAngleFromPoint();
+    }
   } else {
     return {};
   }
-- 
2.43.0


From abfe8555830d16eaa7171dfe76045219eca7a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 30/58] fix: ConstHL: no headland swaths when none are
 requested from the inside out

---
 src/fields2cover/headland_generator/constant_headland.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index a129ae9..a68388b 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -26,7 +26,7 @@ std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
     for (int i = 0; i < n_swaths; ++i) {
       hl.emplace_back(field.buffer(-swath_width * (i + 0.5)));
     }
-  } else {
+  } else if (n_swaths > 0) {
     hl.emplace_back(field.buffer(-swath_width * (n_swaths - 0.5)));
     for (int i = 1; i < n_swaths; ++i) {
       hl.emplace_back(hl.back().buffer(swath_width));
-- 
2.43.0


From 92de7b5589631f3a14322f95d399524776e50f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 31/58] fix: ConstHL: keep headland swaths generated from the
 inside out within the field

---
 src/fields2cover/headland_generator/constant_headland.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index a68388b..f46e772 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -29,7 +29,7 @@ std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
   } else if (n_swaths > 0) {
     hl.emplace_back(field.buffer(-swath_width * (n_swaths - 0.5)));
     for (int i = 1; i < n_swaths; ++i) {
-      hl.emplace_back(hl.back().buffer(swath_width));
+      hl.emplace_back(hl.back().buffer(swath_width).intersection(field));
     }
   }
   return hl;
-- 
2.43.0


From 16f19bea228ccedada1ea7af0a071ad1b623b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 32/58] fix: Cells::splitByLine cuts lines ending at the border
 and keeps the whole area

---
 src/fields2cover/types/Cells.cpp | 102 ++++++++++++++++++++++++++++---
 1 file changed, 94 insertions(+), 8 deletions(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 6807a65..6f6d64a 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -4,7 +4,11 @@
 //                        BSD-3 License
 //=============================================================================
 
+#include <geos_c.h>
+#include <ogr_api.h>
 #include <algorithm>
+#include <memory>
+#include <vector>
 #include "fields2cover/types/Cells.h"
 
 namespace f2c::types {
@@ -180,20 +184,102 @@ Cells Cells::unionCascaded() const {
   return destroyResGeom<Cells>(this->data_->UnionCascaded());
 }
 
-Cells Cells::splitByLine(const LineString& line) const {
-  Cells cells = this->difference(this->buffer(line, 1e-8));
-  for (auto&& c : cells) {
-    c = Cell::buffer(c, 1e-8 * 0.5);
+// Union of two sets of lines where the ones that coincide are merged into one
+static OGRGeometry* unionOnGrid(const OGRGeometry& a, const OGRGeometry& b) {
+  const double grid {1e-8};
+  GEOSContextHandle_t ctxt = OGRGeometry::createGEOSContext();
+  GEOSGeom g_a = a.exportToGEOS(ctxt);
+  GEOSGeom g_b = b.exportToGEOS(ctxt);
+  OGRGeometry* res = nullptr;
+  if (g_a != nullptr && g_b != nullptr) {
+    GEOSGeom g = GEOSUnionPrec_r(ctxt, g_a, g_b, grid);
+    if (g != nullptr) {
+      res = OGRGeometryFactory::createFromGEOS(ctxt, g);
+      GEOSGeom_destroy_r(ctxt, g);
+    }
   }
-  return cells;
+  if (g_a != nullptr) {GEOSGeom_destroy_r(ctxt, g_a);}
+  if (g_b != nullptr) {GEOSGeom_destroy_r(ctxt, g_b);}
+  OGRGeometry::freeGEOSContext(ctxt);
+  return res;
+}
+
+Cells Cells::splitByLine(const LineString& line) const {
+  MultiLineString lines;
+  lines.addGeometry(line);
+  return this->splitByLine(lines);
 }
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
-  Cells cells{*this};
+  // Lines go on a bit further, as those ending on a border may fall short of it
+  const double ext {1e-6};
+  // Narrower pieces are the space between lines or borders that coincide
+  const double min_width {1e-6};
+  // Half of the gap left between the cells, so they do not share any border
+  const double half_gap {0.5e-8};
+
+  MultiLineString cuts;
   for (auto&& line : lines) {
-    cells = cells.splitByLine(line);
+    const size_t n = line.size();
+    if (n < 2 || line.length() <= 0.0) {continue;}
+    LineString cut;
+    const auto begin = line.getGeometry(0);
+    const auto end = line.getGeometry(n - 1);
+    const double ang0 = (begin - line.getGeometry(1)).getAngleFromPoint();
+    const double ang1 = (end - line.getGeometry(n - 2)).getAngleFromPoint();
+    cut.addPoint(begin.getPointFromAngle(ang0, ext));
+    for (auto&& p : line) {
+      cut.addPoint(p);
+    }
+    cut.addPoint(end.getPointFromAngle(ang1, ext));
+    cuts.addGeometry(cut);
+  }
+
+  Cells res;
+  for (auto&& cell : *this) {
+    std::unique_ptr<OGRGeometry> border(cell->Boundary());
+    std::unique_ptr<OGRGeometry> edges(border && cell->Intersects(cuts.get()) ?
+        unionOnGrid(*border, *cuts.get()) : nullptr);
+    std::unique_ptr<OGRGeometry> faces(edges ? edges->Polygonize() : nullptr);
+    std::vector<Cell> parts;
+    if (faces) {
+      const auto* gc = faces->toGeometryCollection();
+      for (int i = 0; i < gc->getNumGeometries(); ++i) {
+        Cell part(gc->getGeometryRef(i));
+        double border {0.0};
+        for (auto&& ring : part) {
+          border += ring.length();
+        }
+        std::unique_ptr<OGRGeometry> p(OGRGeometry::FromHandle(
+            OGR_G_PointOnSurface(OGRGeometry::ToHandle(part.get()))));
+        if (part.area() > min_width * border && p && cell->Contains(p.get())) {
+          parts.emplace_back(part);
+        }
+      }
+    }
+    if (parts.size() < 2) {
+      res.addGeometry(cell);
+      continue;
+    }
+    // Parts are given clockwise around the center of the cell, from the south
+    OGRPoint center;
+    cell->Centroid(&center);
+    const auto angle = [&center] (const Cell& part) {
+      OGRPoint p;
+      part->Centroid(&p);
+      return mod_2pi(
+          atan2(center.getX() - p.getX(), center.getY() - p.getY()));
+    };
+    std::stable_sort(parts.begin(), parts.end(),
+        [&angle] (const Cell& a, const Cell& b) {
+          return angle(a) < angle(b);
+        });
+    for (auto&& part : parts) {
+      const Cells shrunk = Cells::buffer(part, -half_gap);
+      res.addGeometry(shrunk.size() == 1 ? shrunk.getGeometry(0) : part);
+    }
   }
-  return cells;
+  return res;
 }
 
 LineString Cells::createSemiLongLine(const Point& point, double angle) const {
-- 
2.43.0


From 975f7770de072e000c9b13366438b98abae7f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 33/58] fix: GML import keeps holes and any spacing, and
 rejects incomplete files with an exception

---
 src/fields2cover/utils/parser.cpp | 77 ++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 27 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 9c8866c..f33009a 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -40,35 +40,58 @@ F2CField Parser::importFieldGml(
     id = e_result;
   }
 
-  auto* p_field = p_parcel->FirstChildElement("Field");
-
-  auto* p_polygon = p_field\
-            ->FirstChildElement("geometry")\
-            ->FirstChildElement("gml:Polygon");
-
-  std::string coord_sys = p_polygon->Attribute("srsName");
-
-  std::string p_coords = std::string(
-            p_polygon->FirstChildElement("gml:outerBoundaryIs")\
-            ->FirstChildElement("gml:LinearRing")\
-            ->FirstChildElement("gml:coordinates")\
-            ->GetText());
-  auto findAndReplaceAll =
-      [](std::string& data, std::string toSearch, std::string replaceStr) {
-            size_t pos = data.find(toSearch);
-            while (pos != std::string::npos) {
-                data.replace(pos, toSearch.size(), replaceStr);
-                pos = data.find(toSearch, pos + replaceStr.size());
-            }
-            return;
-      };
-  findAndReplaceAll(p_coords, ",", ";");
-  findAndReplaceAll(p_coords, " ", ", ");
-  findAndReplaceAll(p_coords, ";", " ");
-  p_coords = "POLYGON ((" + p_coords + "))";
+  auto getChild = [] (const tinyxml2::XMLElement* elem, const char* name) {
+    auto* child = elem->FirstChildElement(name);
+    if (child == nullptr) {
+      throw std::invalid_argument(
+          std::string("Element not found in GML file: ") + name);
+    }
+    return child;
+  };
+  // Coordinates of a ring as they are written in WKT
+  auto getRing = [&getChild] (const tinyxml2::XMLElement* boundary) {
+    const char* text = getChild(
+        getChild(boundary, "gml:LinearRing"), "gml:coordinates")->GetText();
+    std::istringstream tuples(text == nullptr ? "" : text);
+    std::string tuple, ring;
+    while (tuples >> tuple) {
+      std::replace(tuple.begin(), tuple.end(), ',', ' ');
+      std::istringstream coords(tuple);
+      std::string coord, point;
+      while (coords >> coord) {
+        // Plus signs are valid in GML, but not in WKT
+        point += (point.empty() ? "" : " ") +
+          coord.substr(coord.front() == '+' ? 1 : 0);
+      }
+      ring += (ring.empty() ? "" : ", ") + point;
+    }
+    return "(" + ring + ")";
+  };
+
+  auto* p_field = getChild(p_parcel, "Field");
+
+  auto* p_polygon = getChild(getChild(p_field, "geometry"), "gml:Polygon");
+
+  const char* srs_name = p_polygon->Attribute("srsName");
+  if (srs_name == nullptr) {
+    throw std::invalid_argument("Coordinate system not found in GML file");
+  }
+  std::string coord_sys = srs_name;
+
+  std::string p_coords = "POLYGON (" +
+    getRing(getChild(p_polygon, "gml:outerBoundaryIs"));
+  for (auto* p_inner = p_polygon->FirstChildElement("gml:innerBoundaryIs");
+      p_inner != nullptr;
+      p_inner = p_inner->NextSiblingElement("gml:innerBoundaryIs")) {
+    p_coords += ", " + getRing(p_inner);
+  }
+  p_coords += ")";
   OGRGeometry* new_geom{};
   auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
-  OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
+  if (OGRGeometryFactory::createFromWkt(
+        p_coords.c_str(), spt_ref.get(), &new_geom) != OGRERR_NONE) {
+    throw std::invalid_argument("Coordinates not recognized in GML file");
+  }
 
   F2CField field(F2CCells(new_geom), id);
   field.setCRS(coord_sys);
-- 
2.43.0


From 419747da4f46ab855d880b6c92287577c7ef03ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 34/58] fix: JSON import rejects files without the expected
 members with an exception

---
 src/fields2cover/utils/parser.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index f33009a..b830e11 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -103,9 +103,9 @@ F2CField Parser::importFieldGml(
 
 F2CPoint getPointFromJson(const json& ps) {
   if (ps.size() == 3) {
-    return F2CPoint(ps[0], ps[1], ps[2]);
+    return F2CPoint(ps.at(0), ps.at(1), ps.at(2));
   } else if (ps.size() == 2) {
-    return F2CPoint(ps[0], ps[1]);
+    return F2CPoint(ps.at(0), ps.at(1));
   }
   return F2CPoint();
 }
@@ -119,7 +119,7 @@ F2CCell getCellFromJson(const json& imported_cell) {
     return ring;
   };
   F2CCell cell;
-  auto json_rings = imported_cell["geometry"]["coordinates"];
+  auto json_rings = imported_cell.at("geometry").at("coordinates");
   for (int i = 0; i < json_rings.size(); ++i) {
     cell.addRing(jsonToF2CRing(json_rings[i]));
   }
@@ -131,10 +131,10 @@ int Parser::importJson(const std::string& file, F2CFields& fields) {
   std::ifstream f(file);
   json imported_field = json::parse(f);
 
-  for (auto&& imported_cell : imported_field["features"]) {
+  for (auto&& imported_cell : imported_field.at("features")) {
     fields.emplace_back(
       F2CField(F2CCells(getCellFromJson(imported_cell)),
-        imported_cell["properties"]["Name"]));
+        imported_cell.at("properties").at("Name")));
   }
   return 0;
 }
@@ -142,21 +142,21 @@ int Parser::importJson(const std::string& file, F2CFields& fields) {
 F2CCell Parser::importCellJson(const std::string& file) {
   std::ifstream f(file);
   json imported_field = json::parse(f);
-  return getCellFromJson(imported_field["features"][0]);
+  return getCellFromJson(imported_field.at("features").at(0));
 }
 
 F2CSwaths Parser::importSwathsJson(const std::string& file) {
   std::ifstream f(file);
   json imported_swaths = json::parse(f);
   F2CSwaths swaths;
-  for (auto&& imported_swath : imported_swaths["features"]) {
+  for (auto&& imported_swath : imported_swaths.at("features")) {
     F2CLineString line;
-    for (auto&& ps : imported_swath["geometry"]["coordinates"]) {
+    for (auto&& ps : imported_swath.at("geometry").at("coordinates")) {
       line.addPoint(getPointFromJson(ps));
     }
     swaths.emplace_back(line,
-      imported_swath["properties"]["width"],
-      imported_swath["properties"]["path_id"]);
+      imported_swath.at("properties").at("width"),
+      imported_swath.at("properties").at("path_id"));
   }
   return swaths;
 }
@@ -165,9 +165,9 @@ F2CStrips Parser::importStripsJson(const std::string& file) {
   std::ifstream f(file);
   json imported_strips = json::parse(f);
   F2CStrips strips;
-  for (auto&& imported_strip : imported_strips["features"]) {
+  for (auto&& imported_strip : imported_strips.at("features")) {
     F2CStrip strip;
-    strip.setName(imported_strip["properties"]["crop_id"]);
+    strip.setName(imported_strip.at("properties").at("crop_id"));
     strip.setCell(getCellFromJson(imported_strip));
     strips.emplace_back(strip);
   }
-- 
2.43.0


From e76c08999a18f825828f3535febc9a84b3d491c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 35/58] fix: UTM zones with one digit keep their zone and
 hemisphere

---
 src/fields2cover/types/Field.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index ec79d3e..c92a6c7 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -166,7 +166,8 @@ Cells Field::getCellsAbsPosition() const {
 }
 
 std::string Field::getUTMZone(const std::string& coord_sys) {
-  return getUTMCoordSystem(coord_sys).substr(0, 2);
+  const std::string utm {getUTMCoordSystem(coord_sys)};
+  return utm.substr(0, utm.find_first_not_of("0123456789"));
 }
 
 std::string Field::getUTMZone() const {
@@ -174,7 +175,8 @@ std::string Field::getUTMZone() const {
 }
 
 std::string Field::getUTMHemisphere(const std::string& coord_sys) {
-  std::string hemisphere {getUTMCoordSystem(coord_sys).substr(2, 1)};
+  const std::string utm {getUTMCoordSystem(coord_sys)};
+  const std::string hemisphere {utm.substr(getUTMZone(coord_sys).size(), 1)};
   if (hemisphere == "n" || hemisphere == "N") {
     return "+north";
   } else if (hemisphere == "s" || hemisphere == "S") {
-- 
2.43.0


From 19e9eaac5c1c421fc529991a56cb0501b9e379b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 36/58] fix: coordinate systems that do not exist are rejected

---
 src/fields2cover/types/Field.cpp          |  8 ++++++--
 src/fields2cover/utils/transformation.cpp | 11 +++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index c92a6c7..30f3712 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -136,8 +136,12 @@ bool Field::isCoordSystemEPSG() const {
 }
 
 int Field::getEPSGCoordSystem(const std::string& coord_sys) {
-  return isCoordSystemEPSG(coord_sys) ?
-    std::stoi(coord_sys.substr(5)) : -1;
+  std::smatch match;
+  if (std::regex_search(coord_sys, match,
+        std::regex("EPSG:\\s*(-?\\d{1,9})(?!\\d)"))) {
+    return std::stoi(match.str(1));
+  }
+  return -1;
 }
 
 int Field::getEPSGCoordSystem() const {
diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index d6897c5..9de907b 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -247,8 +247,10 @@ std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)>
       OGRSpatialReference::DestroySpatialReference(ref);});
   if (coord_sys.empty() && !fail_silently) {
     throw std::invalid_argument("Coordinate system empty");
-  } else if (F2CField::isCoordSystemEPSG(coord_sys)) {
-    spt_ref->importFromEPSG(F2CField::getEPSGCoordSystem(coord_sys));
+  }
+  OGRErr err {OGRERR_UNSUPPORTED_SRS};
+  if (F2CField::isCoordSystemEPSG(coord_sys)) {
+    err = spt_ref->importFromEPSG(F2CField::getEPSGCoordSystem(coord_sys));
   } else if (F2CField::isCoordSystemUTM(coord_sys)) {
     std::string proj = (
       std::string("+proj=utm +zone=") + F2CField::getUTMZone(coord_sys) + " " +
@@ -257,8 +259,9 @@ std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)>
         " +ellps=GRS80 +towgs84=0,0,0,0,0,0,0 +type=crs" :
         " +datum=" + F2CField::getUTMDatum(coord_sys))
       + " +units=m +no_defs ");
-    spt_ref->importFromProj4(proj.c_str());
-  } else if (!fail_silently) {
+    err = spt_ref->importFromProj4(proj.c_str());
+  }
+  if (err != OGRERR_NONE && !fail_silently) {
     throw std::invalid_argument("Coordinate system not recognized");
   }
   if (GDALVersionInfo("VERSION_NUM")[0] == '3') {
-- 
2.43.0


From d6001a8af307c9cf2729b4d236d48d110edfdf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 37/58] fix: a field keeps its geometry when its transformation
 is rejected

---
 src/fields2cover/utils/transformation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 9de907b..543a87b 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -19,9 +19,9 @@ std::unique_ptr<OGRCoordinateTransformation,
 
 void Transform::transform(F2CField& field, const std::string& coord_sys_to) {
   if (!field.isEmpty()) {
+    auto coords = generateCoordTransf(field.getCRS(), coord_sys_to);
     field.setField(field.getField() + field.getRefPoint());
-    field.getField()->transform(
-        generateCoordTransf(field.getCRS(), coord_sys_to).get());
+    field.getField()->transform(coords.get());
     field.setRefPoint(field.getField().getCellBorder(0).startPoint());
     field.setField(field.getField() - field.getRefPoint());
   } else {
-- 
2.43.0


From 1657d800217e6fa7fba06f49a8715dbfb5619144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 38/58] fix: longitude 180 belongs to UTM zone 1

---
 src/fields2cover/utils/transformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 543a87b..c53ca03 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -186,7 +186,7 @@ void Transform::transformToUTM(F2CField& field, bool is_etrs89_opt) {
 
   std::string utm_zone = std::string("UTM:") + \
       std::to_string(static_cast<size_t>(
-            floor((field.getRefPoint().getX() + 180) / 6) + 1)) + \
+            floor(fmod(field.getRefPoint().getX() + 180, 360) / 6) + 1)) + \
       (field.getRefPoint().getY() > 0 ? "N" : "S") + \
       " datum:" + (field.getCRS() == "EPSG:4258" ? "ETRS89" : "WGS84");
   transform(field, utm_zone);
-- 
2.43.0


From 825462e0642ed09ced2314af1c8ad24bb20d569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 39/58] fix: transformed swaths keep their type and creation
 direction

---
 src/fields2cover/utils/transformation.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index c53ca03..2054956 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -87,9 +87,10 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
 
 F2CSwath Transform::transformSwathWithFieldRef(const F2CSwath& swath,
       const F2CField& field, const std::string& coord_sys_to) {
-  return F2CSwath(transform(
-        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to),
-      swath.getWidth(), swath.getId());
+  F2CSwath new_swath {swath};
+  new_swath.setPath(transform(
+        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to));
+  return new_swath;
 }
 
 F2CSwaths Transform::transformSwathsWithFieldRef(const F2CSwaths& swaths,
@@ -132,8 +133,9 @@ F2CSwaths Transform::transformSwaths(const F2CSwaths& swaths,
 
 F2CSwath Transform::transformSwath(const F2CSwath& swath,
       const std::string& coord_sys_from, const std::string& coord_sys_to) {
-  return F2CSwath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
-                   swath.getWidth(), swath.getId());
+  F2CSwath new_swath {swath};
+  new_swath.setPath(transform(swath.getPath(), coord_sys_from, coord_sys_to));
+  return new_swath;
 }
 
 F2CPath Transform::transformPath(const F2CPath& path,
-- 
2.43.0


From 794fb0e308d18d6c8e6340780456a0a9c70c5ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 40/58] fix: transformed paths keep their heading when driven
 backwards

---
 src/fields2cover/utils/transformation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 2054956..185679e 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -66,10 +66,13 @@ F2CPath Transform::transformPathWithFieldRef(const F2CPath& path,
   }
   for (size_t i = 0; i < new_path.size() - 1; ++i) {
     new_path[i].len = new_path[i].point.distance(new_path[i+1].point);
-    new_path[i].angle = (new_path[i+1].point - new_path[i].point).getAngleFromPoint();
+    if (new_path[i].len > 0.0) {
+      new_path[i].angle = F2CPoint::mod_2pi(
+          (new_path[i+1].point - new_path[i].point).getAngleFromPoint() +
+          (new_path[i].dir == f2c::types::PathDirection::BACKWARD ? M_PI : 0.0));
+    }
   }
 
-
   return new_path;
 }
 
-- 
2.43.0


From 43fd161bc8a1b6ca527532e7555538429e73d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 41/58] fix: CubicSpline passes through its second point

---
 src/fields2cover/utils/spline.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 071787d..128dc02 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -105,6 +105,10 @@ double CubicSpline::operator()(double x) const {
   double xi2 = xi * xi;
   double xi3 = xi2 * xi;
 
+  // Before the first point, the spline follows its tangent
+  if (xs < x_vec_[0]) {
+    return y_vec_[0] + b_vec_[0] * xi;
+  }
   return y_vec_[idx] + b_vec_[idx] * xi + c_vec_[idx] * xi2 + d_vec_[idx] * xi3;
 }
 
@@ -187,7 +191,6 @@ void CubicSpline::SetSplineCubic() {
     }
   }
 
-  d_vec_[0] = 0.;
   d_vec_[size_ - 1] = 0.;
 }
 
-- 
2.43.0


From d65fbc885f1b0ca936c37de7bac26a835988bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 42/58] fix: CubicSpline rejects any unsorted points and keeps
 the previous ones

---
 src/fields2cover/utils/spline.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 128dc02..ba64f9e 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -50,6 +50,11 @@ CubicSpline::CubicSpline(
       "In CubicSpline initialization, x vector size != y vector size\n");
   check_error(x.size() > 1,
       "In CubicSpline initialization, array size must be larger than 1\n");
+  for (size_t i = 1; i < x.size(); ++i) {
+    check_error(x[i] > x[i - 1],
+        "In CubicSpline SetPoints, x array is not sorted"
+        "from smallest to largest\n");
+  }
   size_ = x.size();
   x_vec_ = x;
   y_vec_ = y;
@@ -72,6 +77,11 @@ void CubicSpline::SetPoints(
       "In CubicSpline SetPoints, x vector size != y vector size\n");
   check_error(x.size() > 1,
       "In CubicSpline initialization, array size must be larger than 1\n");
+  for (size_t i = 1; i < x.size(); ++i) {
+    check_error(x[i] > x[i - 1],
+        "In CubicSpline SetPoints, x array is not sorted"
+        "from smallest to largest\n");
+  }
   size_ = x.size();
   x_vec_ = x;
   y_vec_ = y;
@@ -128,9 +138,6 @@ void CubicSpline::SetSplineCubic() {
   c_vec_[size_ - 1] = 0.;
 
   for (unsigned int i = 1; i < size_ - 1; i++) {
-    check_error(x_vec_[i + 1] > x_vec_[i],
-        "In CubicSpline SetSpline, x array is not sorted"
-        "from smallest to largest\n");
     h[i] = x_vec_[i + 1] - x_vec_[i];
 
     alpha[i] = 3. / h[i] * (y_vec_[i + 1] - y_vec_[i]) - 3. /
-- 
2.43.0


From a7633d595732521b02e25caff9181cd7cc98a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 43/58] fix: CubicSpline: correct monotonic splines without
 reading past the last point

---
 src/fields2cover/utils/spline.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index ba64f9e..2602372 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -155,6 +155,11 @@ void CubicSpline::SetSplineCubic() {
     d_vec_[i] = (c_vec_[i + 1] - c_vec_[i]) / (3. * h[i]);
   }
 
+  // Slope at the last point
+  const double h_end = h[size_ - 2];
+  b_vec_[size_ - 1] = b_vec_[size_ - 2] +
+    h_end * (2. * c_vec_[size_ - 2] + 3. * h_end * d_vec_[size_ - 2]);
+
   // Monotonic correction
   if (monotonic_) {
     bool changed = false;
@@ -170,12 +175,14 @@ void CubicSpline::SetSplineCubic() {
         b_vec_[i] = 0.0;
         changed = true;
       }
+    }
 
-      double slope = (y_vec_[i_high] - y_vec_[i]) / h[i];
-      if (slope == 0.0 && (b_vec_[i] != 0.0 || b_vec_[i + 1] != 0.0)) {
+    for (unsigned int i = 0; i < size_ - 1; i++) {
+      double slope = (y_vec_[i + 1] - y_vec_[i]) / h[i];
+      if (slope == 0.0) {
+        changed = changed || b_vec_[i] != 0.0 || b_vec_[i + 1] != 0.0;
         b_vec_[i] = 0.0;
         b_vec_[i + 1] = 0.0;
-        changed = true;
       } else {
         double r = sqrt(b_vec_[i] * b_vec_[i] + b_vec_[i + 1] * b_vec_[i + 1]) /
             fabs(slope);
@@ -188,7 +195,7 @@ void CubicSpline::SetSplineCubic() {
     }
 
     if (changed) {
-      for (unsigned int i = 0; i < size_; i++) {
+      for (unsigned int i = 0; i < size_ - 1; i++) {
         double inv_h = 1.0 / h[i];
         c_vec_[i] = inv_h * (3.0 * inv_h * (y_vec_[i + 1] - y_vec_[i])
                              - 2.0 * b_vec_[i] - b_vec_[i + 1]);
-- 
2.43.0


From 64cb249ae35b112e86b1724c948cd8e75622d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 44/58] fix: CubicSpline without points throws instead of
 reading past the end

---
 src/fields2cover/utils/spline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 2602372..c007852 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -96,6 +96,7 @@ void CubicSpline::SetPoints(
 
 
 double CubicSpline::operator()(double x) const {
+  check_error(size_ > 1, "CubicSpline is evaluated without points\n");
   const auto xs = static_cast<double>(x);
 
   int l = 0;
-- 
2.43.0


From e2929ffa78596ea4cfd520ea6f76c6807795c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 45/58] fix: Graph2D: points equal within the tolerance are
 always one node

---
 include/fields2cover/types/Graph2D.h | 12 +++++-
 src/fields2cover/types/Graph2D.cpp   | 57 +++++++++++++++++++++++-----
 2 files changed, 59 insertions(+), 10 deletions(-)

diff --git a/include/fields2cover/types/Graph2D.h b/include/fields2cover/types/Graph2D.h
index 6364bca..d8a252c 100644
--- a/include/fields2cover/types/Graph2D.h
+++ b/include/fields2cover/types/Graph2D.h
@@ -8,6 +8,8 @@
 #ifndef FIELDS2COVER_TYPES_GRAPH2D_H_
 #define FIELDS2COVER_TYPES_GRAPH2D_H_
 
+#include <map>
+#include <utility>
 #include <vector>
 #include <unordered_map>
 #include "fields2cover/types/Graph.h"
@@ -53,7 +55,15 @@ class Graph2D : public Graph {
         int64_t INF = 1<<30);
 
  protected:
-  std::unordered_map<Point, size_t> nodes_to_index_;
+  /// Index of the node equal to p, or the number of nodes if there is none
+  size_t findNode(const Point& p) const;
+
+  /// Index of the node equal to p, that is added if there is none
+  size_t insertNode(const Point& p);
+
+ protected:
+  // Nodes on each square of a grid, as equal points may differ slightly
+  std::map<std::pair<double, double>, std::vector<size_t>> grid_;
   std::unordered_map<size_t, Point> index_to_nodes_;
 
  private:
diff --git a/src/fields2cover/types/Graph2D.cpp b/src/fields2cover/types/Graph2D.cpp
index 1b50c57..601ddcd 100644
--- a/src/fields2cover/types/Graph2D.cpp
+++ b/src/fields2cover/types/Graph2D.cpp
@@ -4,18 +4,17 @@
 //                        BSD-3 License
 //=============================================================================
 
+#include <cmath>
 #include <numeric>
+#include <stdexcept>
 #include "fields2cover/types/Graph2D.h"
 
 namespace f2c::types {
 
 Graph2D& Graph2D::addDirectedEdge(
     const Point& from, const Point& to, int64_t cost) {
-  size_t p_from = this->nodes_to_index_.insert(
-      std::make_pair(from, nodes_to_index_.size())).first->second;
-  size_t p_to   = this->nodes_to_index_.insert(
-      std::make_pair(to,   nodes_to_index_.size())).first->second;
-  this->index_to_nodes_.insert({{p_from, from}, {p_to, to}});
+  size_t p_from = this->insertNode(from);
+  size_t p_to   = this->insertNode(to);
   this->addDirectedEdge(p_from, p_to, cost);
   return *this;
 }
@@ -55,19 +54,59 @@ Graph2D& Graph2D::removeEdge(const Point& i, const Point& j) {
 }
 
 size_t Graph2D::numNodes() const {
-  return this->nodes_to_index_.size();
+  return this->index_to_nodes_.size();
 }
 
 std::vector<Point> Graph2D::getNodes() const {
   std::vector<Point> nodes;
-  for (auto&& n : nodes_to_index_) {
-    nodes.emplace_back(n.first);
+  for (size_t i = 0; i < this->numNodes(); ++i) {
+    nodes.emplace_back(this->indexToNode(i));
   }
   return nodes;
 }
 
 size_t Graph2D::nodeToIndex(const Point& p) const {
-  return this->nodes_to_index_.at(p);
+  const size_t id = this->findNode(p);
+  if (id >= this->numNodes()) {
+    throw std::out_of_range("Point is not a node of the graph");
+  }
+  return id;
+}
+
+namespace {
+
+constexpr double node_grid = 1e-6;  // Bigger than the tolerance of Point ==
+
+std::pair<double, double> gridSquare(double x, double y) {
+  return {std::floor(x / node_grid), std::floor(y / node_grid)};
+}
+
+}  // namespace
+
+size_t Graph2D::findNode(const Point& p) const {
+  const double d = 0.25 * node_grid;
+  size_t id = this->numNodes();
+  for (double x : {p.getX() - d, p.getX() + d}) {
+    for (double y : {p.getY() - d, p.getY() + d}) {
+      auto it = this->grid_.find(gridSquare(x, y));
+      if (it == this->grid_.end()) {continue;}
+      for (size_t i : it->second) {
+        if (i < id && this->indexToNode(i) == p) {
+          id = i;
+        }
+      }
+    }
+  }
+  return id;
+}
+
+size_t Graph2D::insertNode(const Point& p) {
+  const size_t id = this->findNode(p);
+  if (id >= this->numNodes()) {
+    this->index_to_nodes_.insert({id, p});
+    this->grid_[gridSquare(p.getX(), p.getY())].emplace_back(id);
+  }
+  return id;
 }
 
 Point Graph2D::indexToNode(size_t id) const {
-- 
2.43.0


From b7a5084f4f3c14d178db1dc8eb228d74fb4bb338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 46/58] fix: RoutePlannerBase: routes can start and end where a
 swath does

---
 .../route_planning/route_planner_base.cpp            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 4bbbc86..5151f09 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -127,16 +127,16 @@ F2CGraph2D RoutePlannerBase::createCoverageGraph(
     }
   }
 
-  F2CPoint deposit(-1e8, -1e8);  // Arbitrary point
-  if (this->r_start_end) {
-    deposit = *this->r_start_end;
-  }
+  // Arbitrary point, so the deposit is not the end of a swath
+  const F2CPoint deposit(-1e8, -1e8);
 
   for (auto&& swaths : swaths_by_cells) {
     for (auto&& s : swaths) {
       if (this->r_start_end) {
-        g.addEdge(s.startPoint(), deposit, shortest_graph);
-        g.addEdge(s.endPoint(), deposit, shortest_graph);
+        g.addEdge(s.startPoint(), deposit,
+            shortest_graph.shortestPathCost(s.startPoint(), *r_start_end));
+        g.addEdge(s.endPoint(), deposit,
+            shortest_graph.shortestPathCost(s.endPoint(), *r_start_end));
       } else {
         g.addEdge(s.startPoint(), deposit, 0);
         g.addEdge(s.endPoint(), deposit, 0);
-- 
2.43.0


From bd6eda8842bcd2ee7e0229a2f9e589056590aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 47/58] fix: RoutePlannerBase: no swaths need no route

---
 src/fields2cover/route_planning/route_planner_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 5151f09..7069f8c 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -22,6 +22,9 @@ F2CRoute RoutePlannerBase::genRoute(
     const F2CCells& cells, const F2CSwathsByCells& swaths,
     bool show_log, double d_tol, bool redirect_swaths,
     long int time_limit_seconds, bool search_for_optimum) {
+  if (swaths.sizeTotal() == 0) {
+    return {};
+  }
   F2CGraph2D shortest_graph = createShortestGraph(cells, swaths, d_tol);
 
   F2CGraph2D cov_graph = createCoverageGraph(
-- 
2.43.0


From 776b5d17138648d6ec8bf097c2644de53e92b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 48/58] fix: Cell, Cells: the closest border point of empty
 cells is rejected with an exception

---
 src/fields2cover/types/Cell.cpp  | 4 ++++
 src/fields2cover/types/Cells.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index 727f242..59e57ab 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -223,9 +223,13 @@ Point Cell::closestPointOnBorderTo(const Point& p) const {
   std::vector<double> dist;
   std::vector<Point> ps;
   for (auto&& ring : *this) {
+    if (ring.size() < 2) {continue;}
     ps.emplace_back(ring.closestPointTo(p));
     dist.emplace_back(ps.back().distance(p));
   }
+  if (ps.empty()) {
+    throw std::out_of_range("Cell does not have a border");
+  }
   return ps[std::min_element(dist.begin(), dist.end()) - dist.begin()];
 }
 
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 6f6d64a..160a558 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -336,9 +336,13 @@ Point Cells::closestPointOnBorderTo(const Point& p) const {
   std::vector<double> dist;
   std::vector<Point> ps;
   for (auto&& cell : *this) {
+    if (cell.isEmpty()) {continue;}
     ps.emplace_back(cell.closestPointOnBorderTo(p));
     dist.emplace_back(ps.back().distance(p));
   }
+  if (ps.empty()) {
+    throw std::out_of_range("Cells do not have a border");
+  }
   return ps[std::min_element(dist.begin(), dist.end()) - dist.begin()];
 }
 
-- 
2.43.0


From c12b290389088d2b3ce64048a945b1698a04487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 49/58] fix: Route: do not drive from the origin to the first
 swath after an empty connection

---
 src/fields2cover/types/Route.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index 9ad5885..be3871f 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -55,7 +55,9 @@ void Route::addSwath(const Swath& s) {
 }
 
 void Route::addSwath(const Swath& s, Graph2D& g) {
-  if (!this->isEmpty()) {
+  const auto has_items = [] (const auto& v) {return v.size() > 0;};
+  if (std::any_of(connections_.begin(), connections_.end(), has_items) ||
+      std::any_of(v_swaths_.begin(), v_swaths_.end(), has_items)) {
     this->addConnection(g.shortestPath(this->endPoint(), s.startPoint()));
   }
   this->addSwath(s);
-- 
2.43.0


From d2e845b593d62f277683a49eddc86783b1482d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 50/58] fix: planCovRoute: constant headlands of no passes use
 the border of the field

---
 src/fields2cover.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover.cpp b/src/fields2cover.cpp
index 5ada573..934071d 100644
--- a/src/fields2cover.cpp
+++ b/src/fields2cover.cpp
@@ -98,7 +98,9 @@ F2CRoute planCovRoute(const F2CRobot& robot, const F2CCells& cells,
           cells, robot.getWidth(), opt.hg_swaths);
       auto hl_swaths = const_hl.generateHeadlandSwaths(
           cells, robot.getWidth(), opt.hg_swaths);
-      fast_hl_rings = hl_swaths[floor(0.5*opt.hg_swaths)];
+      // With no headland passes, the border of the field is the only ring
+      fast_hl_rings = hl_swaths.empty() ?
+          cells : hl_swaths[floor(0.5*opt.hg_swaths)];
       break;
     }
   }
-- 
2.43.0


From 91564e4898b266ea08c2e507b5fced88a14594ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 51/58] fix: Swaths::append: appending a list to itself

---
 src/fields2cover/types/Swaths.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swaths.cpp b/src/fields2cover/types/Swaths.cpp
index ebed0a7..d09ed49 100644
--- a/src/fields2cover/types/Swaths.cpp
+++ b/src/fields2cover/types/Swaths.cpp
@@ -119,8 +119,9 @@ void Swaths::append(const MultiLineString& lines, const Cells& polys,
 }
 
 void Swaths::append(const Swaths& swaths) {
-  for (auto&& s : swaths) {
-    this->emplace_back(s);
+  const size_t n = swaths.size();  // swaths may be this same list
+  for (size_t i = 0; i < n; ++i) {
+    this->emplace_back(swaths.at(i));
   }
 }
 
-- 
2.43.0


From 06e69020dbf0632dc46e624c56f5076f0dff3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 52/58] fix: Path::operator+=: appending a path to itself

---
 src/fields2cover/types/Path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 9f3a113..da6b1b8 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -97,8 +97,9 @@ PathState& Path::back() {
 }
 
 Path& Path::operator+=(const Path& path) {
-  for (auto&& new_state : path) {
-    this->states_.emplace_back(new_state);
+  const size_t n = path.size();  // path may be this same path
+  for (size_t i = 0; i < n; ++i) {
+    this->states_.emplace_back(path.states_[i]);
   }
   return *this;
 }
-- 
2.43.0


From be35175f5b4b2741e8fa1b88a13bd15b22e80df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 53/58] fix: MultiLineString::getLineSegments: an empty line
 has no segments

---
 src/fields2cover/types/MultiLineString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 973ff21..e50c802 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -134,7 +134,7 @@ void MultiLineString::addGeometry(const MultiLineString& lines) {
 
 MultiLineString MultiLineString::getLineSegments(const LineString& line) {
   MultiLineString res;
-  for (size_t i = 0; i < line.size()-1; ++i) {
+  for (size_t i = 0; i + 1 < line.size(); ++i) {
     res.addGeometry(LineString({line.getGeometry(i), line.getGeometry(i+1)}));
   }
   return res;
-- 
2.43.0


From f33e70f6924bc6558e85cce1467331991043bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 54/58] fix: BoustrophedonDecomp: cut at the ends of edges
 parallel to the split angle

Whether a ray that runs along an edge of the field is inside of it is a matter
of rounding. When it was not, no cut was made at either end of the edge and
lines in the split angle could meet a cell twice.
---
 .../decomposition/boustrophedon_decomp.h      |  4 +-
 .../decomposition/boustrophedon_decomp.cpp    | 50 ++++++++-----------
 2 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/include/fields2cover/decomposition/boustrophedon_decomp.h b/include/fields2cover/decomposition/boustrophedon_decomp.h
index 0890861..c2176a2 100644
--- a/include/fields2cover/decomposition/boustrophedon_decomp.h
+++ b/include/fields2cover/decomposition/boustrophedon_decomp.h
@@ -29,7 +29,9 @@ class BoustrophedonDecomp : public TrapezoidalDecomp {
       const obj::DecompObjective& obj = obj::DecompObjective()) override;
 
  private:
-  bool isLinePartOfLinearRing(const F2CLinearRing & ring, const F2CLineString & line) const;
+  /// Follow the edges of the ring that go from a point in the given direction
+  F2CPoint endOfParallelEdges(
+      const F2CLinearRing& ring, const F2CPoint& p, double angle) const;
 };
 
 }  // namespace f2c::decomp
diff --git a/src/fields2cover/decomposition/boustrophedon_decomp.cpp b/src/fields2cover/decomposition/boustrophedon_decomp.cpp
index 62b6af3..8f8e6d4 100644
--- a/src/fields2cover/decomposition/boustrophedon_decomp.cpp
+++ b/src/fields2cover/decomposition/boustrophedon_decomp.cpp
@@ -9,28 +9,26 @@
 namespace f2c::decomp
 {
 
-bool BoustrophedonDecomp::isLinePartOfLinearRing(
-  const F2CLinearRing & ring,
-  const F2CLineString & line) const
-{
-  if (ring.size() == 0 || line.size() == 0) {return false;}
-
-  // Iterate over the edges (segments) of the ring
-  for (int i = 0; i < ring.size() - 1; ++i) { // Exclude the last point to avoid looping twice
-    auto ringPointStart = ring.getGeometry(i);
-    auto ringPointEnd = ring.getGeometry(i + 1);
-
-    // Check if the line matches the current edge of the ring
-    if ((line.startPoint() == ringPointStart && line.endPoint() == ringPointEnd) ||
-      (line.startPoint() == ringPointEnd && line.endPoint() == ringPointStart))
-    {
-      // The line matches one of the ring edges
-      return true;
+F2CPoint BoustrophedonDecomp::endOfParallelEdges(
+    const F2CLinearRing& ring, const F2CPoint& p, double angle) const {
+  F2CPoint end {p};
+  bool moved {true};
+  for (size_t n = 1; n < ring.size() && moved; ++n) {
+    moved = false;
+    for (size_t i = 0; i + 1 < ring.size() && !moved; ++i) {
+      const F2CPoint edge[] {ring.getGeometry(i), ring.getGeometry(i + 1)};
+      for (int j = 0; j < 2 && !moved; ++j) {
+        const F2CPoint dir {edge[1 - j] - end};
+        const double along {dir.getX() * cos(angle) + dir.getY() * sin(angle)};
+        const double across {dir.getY() * cos(angle) - dir.getX() * sin(angle)};
+        if (edge[j] == end && along > 1e-5 && fabs(across) < 1e-6) {
+          end = edge[1 - j];
+          moved = true;
+        }
+      }
     }
   }
-
-  // If the line doesn't match any edge of the ring, return false
-  return false;
+  return end;
 }
 
 F2CMultiLineString BoustrophedonDecomp::genSplitLines(
@@ -40,14 +38,10 @@ F2CMultiLineString BoustrophedonDecomp::genSplitLines(
   for (auto && cell : cells) {
     for (auto && ring : cell) {
       for (auto && p : ring) {
-        auto line1 = cell.createLineUntilBorder(p, split_angle);
-        while (isLinePartOfLinearRing(ring, line1)) {
-          line1 = cell.createLineUntilBorder(line1.endPoint(), split_angle);
-        }
-        auto line2 = cell.createLineUntilBorder(p, split_angle + M_PI);
-        while (isLinePartOfLinearRing(ring, line2)) {
-          line2 = cell.createLineUntilBorder(line2.endPoint(), split_angle + M_PI);
-        }
+        auto line1 = cell.createLineUntilBorder(
+            endOfParallelEdges(ring, p, split_angle), split_angle);
+        auto line2 = cell.createLineUntilBorder(
+            endOfParallelEdges(ring, p, split_angle + M_PI), split_angle + M_PI);
 
         if (line1.length() > 1e-5 && line2.length() > 1e-5) {
           split_lines.addGeometry(line1);
-- 
2.43.0


From 7ab3ecb6610b31099dd016d3bdc4693774ba8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 55/58] fix: buffers of shapes with points that almost repeat
 do not cross themselves

GEOS returned such buffers for the headland swaths from the inside out of some
L-shaped fields, whose intersection with the field then failed and crashed.
---
 include/fields2cover/types/Geometry_impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fields2cover/types/Geometry_impl.hpp b/include/fields2cover/types/Geometry_impl.hpp
index dc40a8a..db73b36 100644
--- a/include/fields2cover/types/Geometry_impl.hpp
+++ b/include/fields2cover/types/Geometry_impl.hpp
@@ -294,6 +294,13 @@ OGRGeometry* Geometry<T, R>::OGRBuffer(double dfDist, int side) const {
   GEOSContextHandle_t hGEOSCtxt = OGRGeometry::createGEOSContext();
   GEOSGeom hGeosGeom = this->data_->exportToGEOS(hGEOSCtxt);
   if (hGeosGeom != nullptr) {
+    // Points that almost repeat can make the buffer cross itself
+    GEOSGeom hNoRepeated = GEOSTopologyPreserveSimplify_r(
+        hGEOSCtxt, hGeosGeom, 1e-9);
+    if (hNoRepeated != nullptr) {
+      GEOSGeom_destroy_r(hGEOSCtxt, hGeosGeom);
+      hGeosGeom = hNoRepeated;
+    }
     GEOSBufferParams* hBufParams = GEOSBufferParams_create_r(hGEOSCtxt);
     GEOSBufferParams_setEndCapStyle_r(hGEOSCtxt, hBufParams,
         GEOSBufCapStyles::GEOSBUF_CAP_FLAT);
-- 
2.43.0


From cd368f2242d4b1d1b588d6e26bf7fbb2fc2b6b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 56/58] fix: swaths that end in different places are not equal

---
 src/fields2cover/types/Swath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index aba2464..c002c72 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -31,7 +31,10 @@ bool Swath::operator!=(const Swath& s) const {
   }
   Point this_p {this->startPoint()};
   Point s_p = (this->hasSameDir(s) ? s.startPoint() : s.endPoint());
+  Point this_e {this->endPoint()};
+  Point s_e = (this->hasSameDir(s) ? s.endPoint() : s.startPoint());
   return (this_p.getX() != s_p.getX() || this_p.getY() != s_p.getY()) ||
+    (this_e.getX() != s_e.getX() || this_e.getY() != s_e.getY()) ||
     s.length() != this->length();
 }
 
-- 
2.43.0


From 81d390ad4727a9939560a74f95a8df3bfa8a000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 57/58] fix: a bent swath stays equal to itself when it is
 reversed

---
 src/fields2cover/types/Swath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index c002c72..5a65f39 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -4,6 +4,7 @@
 //                        BSD-3 License
 //=============================================================================
 
+#include <cmath>
 #include "fields2cover/types/Swath.h"
 
 namespace f2c::types {
@@ -35,7 +36,7 @@ bool Swath::operator!=(const Swath& s) const {
   Point s_e = (this->hasSameDir(s) ? s.endPoint() : s.startPoint());
   return (this_p.getX() != s_p.getX() || this_p.getY() != s_p.getY()) ||
     (this_e.getX() != s_e.getX() || this_e.getY() != s_e.getY()) ||
-    s.length() != this->length();
+    std::fabs(s.length() - this->length()) > 1e-9 * this->length();
 }
 
 bool Swath::operator==(const Swath& s) const {
-- 
2.43.0


From 28ae1ac250bf6fd4d613152f5fc7b001389610b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 58/58] fix: Graph: paths do not depend on the limit of the
 query that computed them

---
 src/fields2cover/types/Graph.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index f36f66e..916fe3f 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -6,6 +6,7 @@
 
 #include <numeric>
 #include <algorithm>
+#include <limits>
 #include "fields2cover/types/Graph.h"
 
 namespace f2c::types {
@@ -141,12 +142,13 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
 
 
   // Floyd-Warshall
+  const int64_t max_cost = std::numeric_limits<int64_t>::max();
   for (size_t k = 0; k < N; ++k) {
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
-        if (dist[i][k] < INF && \
-            dist[k][j] < INF && \
-            dist[i][j] > dist[i][k] + dist[k][j]) {
+        if (i != j && next[i][k] != -1 && next[k][j] != -1 &&
+            dist[i][k] <= max_cost - dist[k][j] &&
+            (next[i][j] == -1 || dist[i][j] > dist[i][k] + dist[k][j])) {
             dist[i][j] = dist[i][k] + dist[k][j];
             next[i][j] = next[i][k];
         }
@@ -202,7 +204,7 @@ short_path_container_t& Graph::getPaths() {
 
 std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
   if (this->numNodes() > 0 && (this->next_.empty() || this->distance_.empty())) {
-    this->shortestPathsAndCosts(INF);
+    this->shortestPathsAndCosts();
   }
   return this->reconstructPath(from, to, next_);
 }
@@ -225,7 +227,7 @@ std::vector<size_t> Graph::reconstructPath(size_t from,
 
 int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
   if (this->numNodes() > 0 && this->distance_.size() == 0) {
-    this->shortestPathsAndCosts(INF);
+    this->shortestPathsAndCosts();
   }
   if (from != to && (std::max(from, to) >= this->next_.size() ||
       this->next_[from][to] == -1)) {
-- 
2.43.0

