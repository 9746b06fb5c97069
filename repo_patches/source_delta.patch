From bbfc8c45029a84b97e764a7b8db7ac21c04f9eaf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:08:16 +0000
Subject: [PATCH 01/22] fix: Graph::removeEdge rejects the one-past-the-end
 edge id

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c6e1319..ae906ce 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -2,6 +2,7 @@
 #define NDT_GSLAM_POSE_GRAPH
 
 #include <Eigen/Eigen>
+#include <algorithm>
 #include <iostream>
 #include <map>
 #include <memory>
@@ -99,7 +100,7 @@ typename Graph<P, T>::Id Graph<P, T>::addEdge(E&& edg)
 template <typename P, typename T>
 bool Graph<P, T>::removeEdge(Id edge_id)
 {
-  if (edge_id > edges_.size())
+  if (edge_id >= edges_.size())
     return false;
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
-- 
2.43.0


From 55ac0d150fad76fa155cbfb79f8e522e955e803b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:08:16 +0000
Subject: [PATCH 02/22] fix: Graph::removeEdge drops the removed edge from the
 adjacency lists of its nodes

---
 .../ndt_gslam/slam_optimizer/pose_graph.h     | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index ae906ce..0c54598 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -105,6 +105,10 @@ bool Graph<P, T>::removeEdge(Id edge_id)
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
     return false;
+  // nodes must not keep pointers to the edge which is going to be deleted
+  E* edge = edges_[edge_id].get();
+  nodes_[edge->getFrom()->getId()]->removeEdge(edge);
+  nodes_[edge->getTo()->getId()]->removeEdge(edge);
   id_edge_pool_.push_back(edge_id);
   edges_[edge_id].reset(nullptr);
   return true;
@@ -402,8 +406,7 @@ public:
   bool addEdgeIn(Edge<P, T>* e);
   edge_list_t& getEdgesIn();
   edge_list_t& getEdgesOut();
-  //    bool removeEdge(Id id);
-  //    bool removeEdge(Edge * e);
+  void removeEdge(Edge<P, T>* e);
   void setId(Id id);
   Id getId() const;
   bool isVisited() const;
@@ -485,16 +488,14 @@ typename Node<P, T>::edge_list_t& Node<P, T>::getEdgesOut()
   return edges_out_;
 }
 
-// template<typename T,typename P>
-// bool Node<P>::removeEdge(Id id){
-//     auto it = std::find(edges_.begin(),edges_.end(),id);
-//     if(it != edges_.end()){
-//         // edge exist ..can be erased.
-//         edges_.erase(it);
-//         return true;
-//     }
-//     return false;
-// }
+template <typename P, typename T>
+void Node<P, T>::removeEdge(Edge<P, T>* e)
+{
+  edges_out_.erase(std::remove(edges_out_.begin(), edges_out_.end(), e),
+                   edges_out_.end());
+  edges_in_.erase(std::remove(edges_in_.begin(), edges_in_.end(), e),
+                  edges_in_.end());
+}
 
 template <typename P, typename T>
 void Node<P, T>::setId(Id id)
-- 
2.43.0


From 41ff01e9db254c3d028b1412d38ea36eaae762f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:08:16 +0000
Subject: [PATCH 03/22] fix: graph iterators never point to or dereference a
 removed slot

---
 .../include/ndt_gslam/slam_optimizer/pose_graph.h    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 0c54598..c7dfb51 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -265,12 +265,16 @@ public:
   ListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // first element can be an empty field too
+    while (current_ != end_ && *current_ == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && *current_ == nullptr) {
       ++current_;
     }
     return *this;
@@ -323,12 +327,16 @@ public:
   ConstListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // first element can be an empty field too
+    while (current_ != end_ && *current_ == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && *current_ == nullptr) {
       ++current_;
     }
     return *this;
-- 
2.43.0


From 29d8971b43168598fc1e64f2dbb0cc98ae14f0b5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:08:16 +0000
Subject: [PATCH 04/22] fix: post-increment of a graph iterator returns the
 element it stood on

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c7dfb51..797faab 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -281,12 +281,13 @@ public:
   }
   self_type operator++(int)
   {
+    self_type old(*this);
     ++current_;
     // in case of empty field in list skip this field and go on
     while (current_ != end_ && current_->get() == nullptr) {
       ++current_;
     }
-    return *this;
+    return old;
   }
   reference operator*()
   {
@@ -343,12 +344,13 @@ public:
   }
   self_type operator++(int)
   {
+    self_type old(*this);
     ++current_;
     // in case of empty field in list skip this field and go on
     while (current_ != end_ && current_->get() == nullptr) {
       ++current_;
     }
-    return *this;
+    return old;
   }
   reference operator*()
   {
-- 
2.43.0


From 71f2c515e9db44c7459a0e1c46cc444e3f0b0baf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:37:55 +0000
Subject: [PATCH 05/22] fix: covarInverse compares every eigenvalue, not the
 first column of the diagonal matrix

---
 ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
index 34f3223..5fd50a0 100644
--- a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
+++ b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
@@ -31,7 +31,7 @@ bool covarInverse(const Eigen::Matrix<Scalar, 3, 3> &cov,
     double max_eval = evals.maxCoeff();
     // test if every eigenval is big enough
     for (int i = 0; i < evals.cols(); ++i) {
-      if (max_eval > evals(i) * eval_factor) {
+      if (max_eval > evals(i, i) * eval_factor) {
         evals(i, i) = max_eval / eval_factor;
         recalc = true;
       }
-- 
2.43.0


From 58316243836cf821268fa277335a15d15a806069 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 06/22] fix: copying a voxel grid keeps its layout and its
 empty cells

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 05de2c7..8ccb760 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -309,10 +309,13 @@ VoxelGrid2D<CellType>::VoxelGrid2D(const VoxelGrid2D& other)
   , height_down_(other.height_down_)
   , valid_cells_(other.valid_cells_)
 {
-  cells_.resize(other.cells_.size());
+  cells_.reserve(other.cells_.size());
   for (const std::unique_ptr<CellType>& cell : other.cells_) {
-    CellType* new_cell = new CellType;
-    *new_cell = *cell;
+    CellType* new_cell = nullptr;
+    if (cell.get() != nullptr) {
+      new_cell = new CellType;
+      *new_cell = *cell;
+    }
     cells_.emplace_back(new_cell);
   }
 }
-- 
2.43.0


From f1a41290b61d6cef823053c4702ec9deab3fb803 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 07/22] fix: VoxelGrid2D::removeCell returns a value on every
 path

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 8ccb760..4da2a29 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -389,6 +389,7 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
     --valid_cells_;
   }
   cells_[idx].reset(nullptr);
+  return true;
 }
 
 template <typename CellType>
-- 
2.43.0


From b3680ec70ea0f98edbaa7de17c593c5fbe1341a1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 08/22] fix: VoxelGrid2D::getCentroid compiles

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 4da2a29..f0c3740 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -473,9 +473,9 @@ VoxelGrid2D<CellType>::getCentroid(const Point& pt) const
 {
   std::pair<size_t, size_t> coords = calcCoordinates(pt);
   double x =
-      (static_cast<long>(coords.first) - static_cast<long>(left)) * cell_size_;
+      (static_cast<long>(coords.first) - static_cast<long>(left())) * cell_size_;
   double y =
-      -(static_cast<long>(coords.second) - static_cast<long>(up)) * cell_size_;
+      -(static_cast<long>(coords.second) - static_cast<long>(up())) * cell_size_;
   return std::pair<double, double>(x, y);
 }
 
-- 
2.43.0


From 0364da98d422a98e1c1840c4da37f1767222d779 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 09/22] fix: VoxelGrid2D::validCells counts the initialized
 cells after clear, translate and rayTrace

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index f0c3740..d0071b7 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -550,6 +550,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
 
   if (cells_[idx_current].get() == nullptr) {
     cells_[idx_current].reset(new CellType());
+    ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
@@ -559,6 +560,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     if (idx_current != idx_old) {
       if (cells_[idx_current].get() == nullptr) {
         cells_[idx_current].reset(new CellType());
+        ++valid_cells_;
       }
       res.push_back(cells_[idx_current].get());
       // std::cout << p.transpose() << std::endl;
@@ -599,6 +601,12 @@ void VoxelGrid2D<CellType>::translate(const Eigen::Vector2i& translation,
   moveRight(right);
   moveUp(up);
   moveDown(down);
+  // cells moved out of the grid are gone
+  valid_cells_ = 0;
+  for (auto&& cell : cells_) {
+    if (cell.get() != nullptr)
+      ++valid_cells_;
+  }
 }
 
 template <typename CellType>
@@ -607,6 +615,7 @@ void VoxelGrid2D<CellType>::clear()
   for (auto&& cell : cells_) {
     cell.reset(nullptr);
   }
+  valid_cells_ = 0;
 }
 
 template <typename CellType>
-- 
2.43.0


From 33b8c4f09deb34fcb2a721832f8e5c95872e9385 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 10/22] fix: a point on the right or lower border of a voxel
 grid is outside, as its cell is

---
 .../include/ndt_gslam/ndt/voxel_grid2d.h      | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index d0071b7..1bccecb 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -268,10 +268,10 @@ private:
   std::pair<size_t, size_t> calcCoordinates(const Point& pt) const;
 
   void enlargeToFit(const Point& pt);
-  size_t calcIncLeft(float pt) const;
-  size_t calcIncRight(float pt) const;
-  size_t calcIncUp(float pt) const;
-  size_t calcIncDown(float pt) const;
+  size_t calcIncLeft(double pt) const;
+  size_t calcIncRight(double pt) const;
+  size_t calcIncUp(double pt) const;
+  size_t calcIncDown(double pt) const;
   void enlargeGrid(size_t left, size_t right, size_t up, size_t down);
   void moveLeft(size_t move);
   void moveRight(size_t move);
@@ -397,8 +397,8 @@ bool VoxelGrid2D<CellType>::isInside(const Point& pt) const
 {
   if (pt(0) >=
           -static_cast<double>(width_left_) * cell_size_ - cell_size_half_ &&
-      pt(0) <= width_right_ * cell_size_ + cell_size_half_ &&
-      pt(1) >=
+      pt(0) < width_right_ * cell_size_ + cell_size_half_ &&
+      pt(1) >
           -static_cast<double>(height_down_) * cell_size_ - cell_size_half_ &&
       pt(1) <= height_up_ * cell_size_ + cell_size_half_)
     return true;
@@ -679,38 +679,40 @@ void VoxelGrid2D<CellType>::enlargeToFit(const Point& pt)
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncLeft(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncLeft(double pt) const
 {
-  float minx = -static_cast<float>(width_left_) * cell_size_ - cell_size_half_;
+  double minx =
+      -static_cast<double>(width_left_) * cell_size_ - cell_size_half_;
   if (pt < minx)
     return static_cast<size_t>(std::ceil((minx - pt) / cell_size_));
   return 0;
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncRight(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncRight(double pt) const
 {
-  float maxx = width_right_ * cell_size_ + cell_size_half_;
-  if (pt > maxx)
-    return static_cast<size_t>(std::ceil((pt - maxx) / cell_size_));
+  double maxx = width_right_ * cell_size_ + cell_size_half_;
+  if (pt >= maxx)
+    return static_cast<size_t>(std::floor((pt - maxx) / cell_size_)) + 1;
   return 0;
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncUp(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncUp(double pt) const
 {
-  float maxy = height_up_ * cell_size_ + cell_size_half_;
+  double maxy = height_up_ * cell_size_ + cell_size_half_;
   if (pt > maxy)
     return static_cast<size_t>(std::ceil((pt - maxy) / cell_size_));
   return 0;
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncDown(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncDown(double pt) const
 {
-  float miny = -static_cast<float>(height_down_) * cell_size_ - cell_size_half_;
-  if (pt < miny)
-    return static_cast<size_t>(std::ceil((miny - pt) / cell_size_));
+  double miny =
+      -static_cast<double>(height_down_) * cell_size_ - cell_size_half_;
+  if (pt <= miny)
+    return static_cast<size_t>(std::floor((miny - pt) / cell_size_)) + 1;
   return 0;
 }
 
-- 
2.43.0


From c6e43ade896577f2185eb14bf825a32f1aee5945 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 11/22] fix: VoxelGrid2D::rayTrace of a ray shorter than a cell
 ends at its end

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 1bccecb..9fb8881 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -554,7 +554,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
-  for (size_t i = 0; i < 2 * static_cast<size_t>(std::floor(length)) - 1; ++i) {
+  for (size_t i = 0; i + 1 < 2 * static_cast<size_t>(std::floor(length)); ++i) {
     // total_dist += delta_dist;
     // if program  is still in the same cell like last time just step forward
     if (idx_current != idx_old) {
-- 
2.43.0


From d6944ea37cc7e3fb8b408ad3f2a0bbccd580b953 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 12/22] fix: the checks for a point inside a voxel grid and its
 cell index round alike

---
 .../include/ndt_gslam/ndt/voxel_grid2d.h      | 66 +++++++++----------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 9fb8881..dbe27f0 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -2,6 +2,7 @@
 #define NDT_GSLAM_VOXEL_GRID2D
 
 #include <Eigen/Dense>
+#include <cmath>
 #include <iomanip>
 #include <iostream>
 #include <memory>
@@ -264,6 +265,17 @@ private:
 
   size_t calcIndex(const Point& pt) const;
   size_t calcIndex(const std::pair<size_t, size_t>& coords) const;
+  // Coordinates of the cell containing the point. They are relative to the
+  // centroid cell and do not depend on the size of the grid. Every other
+  // conversion from points is based on them, so that all of them agree.
+  double cellX(const double x) const
+  {
+    return std::floor((x + cell_size_half_) / cell_size_);
+  }
+  double cellY(const double y) const
+  {
+    return -std::floor((-y + cell_size_half_) / cell_size_);
+  }
   // <colls, rows> of table
   std::pair<size_t, size_t> calcCoordinates(const Point& pt) const;
 
@@ -395,12 +407,12 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
 template <typename CellType>
 bool VoxelGrid2D<CellType>::isInside(const Point& pt) const
 {
-  if (pt(0) >=
-          -static_cast<double>(width_left_) * cell_size_ - cell_size_half_ &&
-      pt(0) < width_right_ * cell_size_ + cell_size_half_ &&
-      pt(1) >
-          -static_cast<double>(height_down_) * cell_size_ - cell_size_half_ &&
-      pt(1) <= height_up_ * cell_size_ + cell_size_half_)
+  double x = cellX(pt(0));
+  double y = cellY(pt(1));
+  if (x >= -static_cast<double>(width_left_) &&
+      x <= static_cast<double>(width_right_) &&
+      y >= -static_cast<double>(height_down_) &&
+      y <= static_cast<double>(height_up_))
     return true;
   else
     return false;
@@ -522,12 +534,6 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   Point start_in;
   bool end_indise = false;
   Point delta;
-  double minx =
-      -static_cast<double>(width_left_) * cell_size_ - cell_size_half_;
-  double maxx = width_right_ * cell_size_ + cell_size_half_;
-  double miny =
-      -static_cast<double>(height_down_) * cell_size_ - cell_size_half_;
-  double maxy = height_up_ * cell_size_ + cell_size_half_;
 
   if (!isInside(start)) {
     return res;
@@ -566,7 +572,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
       // std::cout << p.transpose() << std::endl;
     }
     p += delta;
-    if (p(0) >= maxx || p(0) <= minx || p(1) >= maxy || p(1) <= miny)
+    if (!isInside(p))
       return res;
     idx_old = idx_current;
     idx_current = calcIndex(p);
@@ -658,12 +664,8 @@ std::pair<size_t, size_t>
 VoxelGrid2D<CellType>::calcCoordinates(const Point& pt) const
 {
   std::pair<size_t, size_t> coords;
-  float minx = cell_size_ * width_left_;
-  float maxy = cell_size_ * height_up_;
-  coords.first = static_cast<size_t>(
-      std::floor((pt(0) + minx + cell_size_half_) / cell_size_));
-  coords.second = static_cast<size_t>(
-      std::floor((-pt(1) + maxy + cell_size_half_) / cell_size_));
+  coords.first = static_cast<size_t>(cellX(pt(0)) + width_left_);
+  coords.second = static_cast<size_t>(height_up_ - cellY(pt(1)));
   return coords;
 }
 
@@ -681,38 +683,36 @@ void VoxelGrid2D<CellType>::enlargeToFit(const Point& pt)
 template <typename CellType>
 size_t VoxelGrid2D<CellType>::calcIncLeft(double pt) const
 {
-  double minx =
-      -static_cast<double>(width_left_) * cell_size_ - cell_size_half_;
-  if (pt < minx)
-    return static_cast<size_t>(std::ceil((minx - pt) / cell_size_));
+  double inc = -cellX(pt) - width_left_;
+  if (inc > 0)
+    return static_cast<size_t>(inc);
   return 0;
 }
 
 template <typename CellType>
 size_t VoxelGrid2D<CellType>::calcIncRight(double pt) const
 {
-  double maxx = width_right_ * cell_size_ + cell_size_half_;
-  if (pt >= maxx)
-    return static_cast<size_t>(std::floor((pt - maxx) / cell_size_)) + 1;
+  double inc = cellX(pt) - width_right_;
+  if (inc > 0)
+    return static_cast<size_t>(inc);
   return 0;
 }
 
 template <typename CellType>
 size_t VoxelGrid2D<CellType>::calcIncUp(double pt) const
 {
-  double maxy = height_up_ * cell_size_ + cell_size_half_;
-  if (pt > maxy)
-    return static_cast<size_t>(std::ceil((pt - maxy) / cell_size_));
+  double inc = cellY(pt) - height_up_;
+  if (inc > 0)
+    return static_cast<size_t>(inc);
   return 0;
 }
 
 template <typename CellType>
 size_t VoxelGrid2D<CellType>::calcIncDown(double pt) const
 {
-  double miny =
-      -static_cast<double>(height_down_) * cell_size_ - cell_size_half_;
-  if (pt <= miny)
-    return static_cast<size_t>(std::floor((miny - pt) / cell_size_)) + 1;
+  double inc = -cellY(pt) - height_down_;
+  if (inc > 0)
+    return static_cast<size_t>(inc);
   return 0;
 }
 
-- 
2.43.0


From 465c6ded145fa0e8e2cb7a9b67ac37f4e4c6e5e7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 13/22] fix: a cell whose covariance is not positive is no
 Gaussian

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index f3294eb..7a19460 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -219,6 +219,7 @@ void NDTCell::rescaleCovar()
   Eigen::SelfAdjointEigenSolver<Matrix> solver(cov_);
   Matrix evacs = solver.eigenvectors();
   Matrix evals = solver.eigenvalues().asDiagonal();
+  gaussian_ = true;
   if (evals(0, 0) < 0 || evals(1, 1) < 0 || evals(2, 2) <= 0)
     gaussian_ = false;
 
@@ -232,7 +233,6 @@ void NDTCell::rescaleCovar()
   if (icov_.maxCoeff() == std::numeric_limits<float>::infinity() ||
       icov_.minCoeff() == -std::numeric_limits<float>::infinity())
     gaussian_ = false;
-  gaussian_ = true;
 }
 
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
-- 
2.43.0


From 3d3787717bd60744a4a688574fd243965c3999b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 14/22] fix: a ray of zero length leaves the occupancy of a
 cell as it is

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index 7a19460..c7d27a7 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -238,7 +238,11 @@ void NDTCell::rescaleCovar()
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
                                         Vector &pt) const
 {
-  Vector l = (end - start) / (end - start).norm();
+  pt = end;
+  const double length = (end - start).norm();
+  if (length == 0)
+    return 1.0;
+  Vector l = (end - start) / length;
   Vector a = icov_ * l;
   Vector b = (end - mean_);
   double sigma = a.cwiseProduct(l).sum();
-- 
2.43.0


From be903f4836f73ddce6deb351627ef504a0c39ad3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 15/22] fix: NDTCell::setOccupancy scales its argument to the
 range of the occupancy

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
index 28ec657..7f2911a 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
@@ -139,7 +139,9 @@ public:
    */
   void setOccupancy(int8_t occup)
   {
-    occup_ = occup;
+    occup_ = occup < 0 ? MIN_OCCUPANCY : occup / 100.0f;
+    if (occup_ > MAX_OCCUPANCY)
+      occup_ = MAX_OCCUPANCY;
   }
 
   /**
-- 
2.43.0


From 680f006a81bab105e51b75db49a65b7c41b4111e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 16/22] fix: NDTCell::getOccupancy returns -1 for an unoccupied
 cell

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
index 7f2911a..adecc75 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
@@ -119,8 +119,8 @@ public:
   {
     if (occup_ >= MAX_OCCUPANCY)
       return 100;
-    if (occup_ < MIN_OCCUPANCY)
-      return 0;
+    if (occup_ < 0)
+      return -1;
     return static_cast<int8_t>(std::floor(occup_ * 100));
   }
   /**
-- 
2.43.0


From dac152845721b81b35cbea7ea4066d3859e0721b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 17/22] fix: a switch variable follows the estimate that g2o
 restores

---
 .../switchable_constraints/vertex_switchLinear.h             | 2 +-
 .../switchable_constraints/vertex_switchLinear.cpp           | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
index c8b104d..2548507 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
@@ -32,7 +32,7 @@ public:
 
   double x() const
   {
-    return _x;
+    return _estimate;
   };
 
   //! The gradient at the current estimate is always 1;
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index 676c512..9a415de 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -23,7 +23,7 @@ bool VertexSwitchLinear::read(std::istream& is)
 
 bool VertexSwitchLinear::write(std::ostream& os) const
 {
-  os << _x;
+  os << _estimate;
   return os.good();
 }
 
@@ -41,7 +41,8 @@ void VertexSwitchLinear::setEstimate(const double& et)
 
 void VertexSwitchLinear::oplusImpl(const double* update)
 {
-  _x += update[0];
+  // g2o restores the estimate on its own, so that is what a step starts from
+  _x = _estimate + update[0];
 
   if (_x < 0)
     _x = 0;
-- 
2.43.0


From 0ad94cc54bcbe7cbdd23c69062044b8e48b6e8f7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 18/22] fix: a new mixture has no best component, a filled one
 only its own determinants

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp  | 3 ++-
 .../slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 7b65199..7c893b9 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE2Mixture::EdgeSE2Mixture() : g2o::EdgeSE2::EdgeSE2()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2Mixture::~EdgeSE2Mixture()
@@ -59,6 +59,7 @@ void EdgeSE2Mixture::initializeComponents(std::vector<g2o::EdgeSE2*>& _edges,
 {
   this->allEdges = _edges;
   this->weights = _weights;
+  this->determinants.clear();
 
   numberComponents = _edges.size();
   for (unsigned int i = 0; i < numberComponents; i++)
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 36ce3f2..c91e0c5 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -41,7 +41,7 @@ EdgeSE2PointXYMixture::EdgeSE2PointXYMixture()
   : g2o::EdgeSE2PointXY::EdgeSE2PointXY()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2PointXYMixture::~EdgeSE2PointXYMixture()
@@ -60,6 +60,7 @@ void EdgeSE2PointXYMixture::initializeComponents(
 {
   this->allEdges = _edges;
   this->weights = _weights;
+  this->determinants.clear();
   // UpdateBelief(0);
   numberComponents = _edges.size();
   for (unsigned int i = 0; i < numberComponents; i++)
-- 
2.43.0


From 065ab9d6f50bcfba76e6029e36022832fea762d9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 19/22] fix: a loop search starts with zero walked distance and
 zero covariance

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 3917b2a..7cd4ca5 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -32,8 +32,10 @@ struct EdgeCov {
   }
   explicit EdgeCov(size_t start_id)
     : start_id_(start_id)
-    , cov_()
+    , node_id_(start_id)
+    , cov_(Covar::Zero())
     , t_(Transform::Identity())
+    , distance_(0)
     , hop_(0)
     , det_cov_(0)
   {
-- 
2.43.0


From 48e270ab5425eac7782552908d33ea6c9c815545 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 20/22] fix: EdgeCov::operator+ concatenates the new step
 behind the walked path

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 7cd4ca5..926156b 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -59,7 +59,7 @@ struct EdgeCov {
             computeJacc1(co, si, new_e.t_.translation()).transpose() +
         computeJacc2(co, si) * new_e.cov_ * computeJacc2(co, si).transpose();
     e.det_cov_ = e.cov_.determinant();
-    e.t_ = new_e.t_ * this->t_;
+    e.t_ = this->t_ * new_e.t_;
     e.distance_ = this->distance_ + new_e.distance_;
     return e;
   }
-- 
2.43.0


From a987d6c4d8050d315cd8210d76d48f75b2b288f4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 21/22] fix: the loop search stops when no node is left to
 visit

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 926156b..696e40d 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -234,7 +234,8 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
   }
   size_t depth = 0;
   // repeat while some nodes are unvisited
-  while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_) {
+  while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_ &&
+         !fringe.empty()) {
     size_t curr_node_id = fringe.top().node_id_;
     std::cout << "node: " << curr_node_id << std::endl;
     Node &target_n = graph_->getNode(node_id);
-- 
2.43.0


From cb41f5f785632e6f19049b21afeea84616b3b29c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 22/22] fix: the loop search examines every node at most once

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 696e40d..b7a0d13 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -237,6 +237,11 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
   while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_ &&
          !fringe.empty()) {
     size_t curr_node_id = fringe.top().node_id_;
+    // node was already reached by another path
+    if (graph_->getNode(curr_node_id).isVisited()) {
+      fringe.pop();
+      continue;
+    }
     std::cout << "node: " << curr_node_id << std::endl;
     Node &target_n = graph_->getNode(node_id);
     Node &source_n = graph_->getNode(curr_node_id);
-- 
2.43.0

