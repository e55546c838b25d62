From fa95fa138d79bbb201f9ecdeb0b7f64ca45b6116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 01/21] fix: do not write past the end of the knot vectors in
 the IGES export

---
 Bembel/src/Geometry/GeometryIGS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/Geometry/GeometryIGS.hpp b/Bembel/src/Geometry/GeometryIGS.hpp
index f14b130..1c96d43 100644
--- a/Bembel/src/Geometry/GeometryIGS.hpp
+++ b/Bembel/src/Geometry/GeometryIGS.hpp
@@ -393,9 +393,9 @@ std::vector<std::string> writePatchData(const Patch& patch,
          "We can not handle internal knots");
 
   std::vector<double> knots_x(2 * degree_x, 0);
-  for (auto i = 0; i <= degree_x; ++i) knots_x[degree_x + i] = 1;
+  for (auto i = 0; i < degree_x; ++i) knots_x[degree_x + i] = 1;
   std::vector<double> knots_y(2 * degree_y, 0);
-  for (auto i = 0; i <= degree_y; ++i) knots_y[degree_y + i] = 1;
+  for (auto i = 0; i < degree_y; ++i) knots_y[degree_y + i] = 1;
 
   const std::array<double, 2> span_x = {0, 1};
   const std::array<double, 2> span_y = {0, 1};
-- 
2.43.0


From f8fee0e8c7f7786cb723faa734a7eb934c0df76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 02/21] fix: take the geometry file type from the last dot of
 the path

---
 Bembel/src/Geometry/Geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/Geometry/Geometry.hpp b/Bembel/src/Geometry/Geometry.hpp
index 8cd6dc8..cb08bb4 100644
--- a/Bembel/src/Geometry/Geometry.hpp
+++ b/Bembel/src/Geometry/Geometry.hpp
@@ -87,7 +87,7 @@ class Geometry {
    * \param filename Filename of a .dat or .igs file.
    */
   inline void init_Geometry(const std::string &filename) {
-    std::string file_suffix = filename.substr(filename.find('.') + 1);
+    std::string file_suffix = filename.substr(filename.rfind('.') + 1);
     PatchVector tmp;
 
     if (file_suffix.compare("dat") == 0)
-- 
2.43.0


From 8bc98258937caeb0b01d7c28d15d8aac4d29486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 03/21] fix: reset the stream after the header line of a DAT
 geometry

---
 Bembel/src/Geometry/GeometryIO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Bembel/src/Geometry/GeometryIO.hpp b/Bembel/src/Geometry/GeometryIO.hpp
index c1eba6e..9cc64a9 100644
--- a/Bembel/src/Geometry/GeometryIO.hpp
+++ b/Bembel/src/Geometry/GeometryIO.hpp
@@ -46,6 +46,7 @@ inline std::vector<Patch> LoadGeometryFileDAT(
 
     infoInt[i] = stoi(word);
   }
+  iss.clear();
   // main loop - patches
   for (int patchNr = 1; patchNr <= infoInt[2]; patchNr++) {
     Bembel::Patch tempPatch;
-- 
2.43.0


From f788c74beb149415ea6a516d4ab43f0cc0c6e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 04/21] fix: scale patch derivatives by the knot span for
 patches with internal knots

---
 Bembel/src/Geometry/Patch.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/Bembel/src/Geometry/Patch.hpp b/Bembel/src/Geometry/Patch.hpp
index 4c0a121..829f0cf 100644
--- a/Bembel/src/Geometry/Patch.hpp
+++ b/Bembel/src/Geometry/Patch.hpp
@@ -221,11 +221,16 @@ class Patch {
     // Eigen::Vector3d out;
 
     double bot = 1. / (tmp[3] * tmp[3]);
+    // chain rule for the rescaling of the knot spans
+    const double botx = bot / (unique_knots_x_[x_location + 1] -
+                               unique_knots_x_[x_location]);
+    const double boty = bot / (unique_knots_y_[y_location + 1] -
+                               unique_knots_y_[y_location]);
 
 #pragma omp simd
     for (int k = 0; k < 3; k++) {
-      out(k, 0) = (tmpDx[k] * tmp[3] - tmp[k] * tmpDx[3]) * bot;
-      out(k, 1) = (tmpDy[k] * tmp[3] - tmp[k] * tmpDy[3]) * bot;
+      out(k, 0) = (tmpDx[k] * tmp[3] - tmp[k] * tmpDx[3]) * botx;
+      out(k, 1) = (tmpDy[k] * tmp[3] - tmp[k] * tmpDy[3]) * boty;
     }
 
     return out;
@@ -346,7 +351,11 @@ class Patch {
     }
 
     const double bot = 1. / tmp[3];
-    const double botsqr = bot * bot;
+    // chain rule for the rescaling of the knot spans
+    const double botsqr_x = bot * bot / (unique_knots_x_[x_location + 1] -
+                                         unique_knots_x_[x_location]);
+    const double botsqr_y = bot * bot / (unique_knots_y_[y_location + 1] -
+                                         unique_knots_y_[y_location]);
 
     (*srf_pt)(0) = xi(0);
     (*srf_pt)(1) = xi(1);
@@ -354,12 +363,12 @@ class Patch {
     (*srf_pt)(3) = tmp[0] * bot;
     (*srf_pt)(4) = tmp[1] * bot;
     (*srf_pt)(5) = tmp[2] * bot;
-    (*srf_pt)(6) = (tmpDx[0] * tmp[3] - tmp[0] * tmpDx[3]) * botsqr;
-    (*srf_pt)(7) = (tmpDx[1] * tmp[3] - tmp[1] * tmpDx[3]) * botsqr;
-    (*srf_pt)(8) = (tmpDx[2] * tmp[3] - tmp[2] * tmpDx[3]) * botsqr;
-    (*srf_pt)(9) = (tmpDy[0] * tmp[3] - tmp[0] * tmpDy[3]) * botsqr;
-    (*srf_pt)(10) = (tmpDy[1] * tmp[3] - tmp[1] * tmpDy[3]) * botsqr;
-    (*srf_pt)(11) = (tmpDy[2] * tmp[3] - tmp[2] * tmpDy[3]) * botsqr;
+    (*srf_pt)(6) = (tmpDx[0] * tmp[3] - tmp[0] * tmpDx[3]) * botsqr_x;
+    (*srf_pt)(7) = (tmpDx[1] * tmp[3] - tmp[1] * tmpDx[3]) * botsqr_x;
+    (*srf_pt)(8) = (tmpDx[2] * tmp[3] - tmp[2] * tmpDx[3]) * botsqr_x;
+    (*srf_pt)(9) = (tmpDy[0] * tmp[3] - tmp[0] * tmpDy[3]) * botsqr_y;
+    (*srf_pt)(10) = (tmpDy[1] * tmp[3] - tmp[1] * tmpDy[3]) * botsqr_y;
+    (*srf_pt)(11) = (tmpDy[2] * tmp[3] - tmp[2] * tmpDy[3]) * botsqr_y;
     delete[] buffer;
     return;
   }
-- 
2.43.0


From 2213449f0b9d665c6e9eb3c1053b14d6a7fb4466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 05/21] fix: move all members in the move constructor of
 ElementTreeNode

---
 Bembel/src/ClusterTree/ElementTreeNode.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Bembel/src/ClusterTree/ElementTreeNode.hpp b/Bembel/src/ClusterTree/ElementTreeNode.hpp
index a0fa80a..ecbebd2 100644
--- a/Bembel/src/ClusterTree/ElementTreeNode.hpp
+++ b/Bembel/src/ClusterTree/ElementTreeNode.hpp
@@ -102,8 +102,11 @@ class ElementTreeNode {
     midpoint_.swap(other.midpoint_);
     llc_.swap(other.llc_);
     vertices_ = std::move(other.vertices_);
+    prev_ = other.prev_;
+    next_ = other.next_;
     radius_ = other.radius_;
     id_ = other.id_;
+    level_ = other.level_;
     patch_ = other.patch_;
     sons_ = std::move(other.sons_);
     adjcents_ = std::move(other.adjcents_);
-- 
2.43.0


From d57a74424be3830575177023cf7b1fb7eda4fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 06/21] fix: resolve the neighbourhood of patches which share
 more than one edge

---
 Bembel/src/ClusterTree/ElementTree.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/ClusterTree/ElementTree.hpp b/Bembel/src/ClusterTree/ElementTree.hpp
index 6c7bb1b..4b56246 100644
--- a/Bembel/src/ClusterTree/ElementTree.hpp
+++ b/Bembel/src/ClusterTree/ElementTree.hpp
@@ -520,7 +520,8 @@ class ElementTree {
             int k = 0;
             for (; k < 4; ++k)
               if (cur_neighbour.adjcents_[k] != nullptr &&
-                  cur_neighbour.adjcents_[k]->id_ == it->id_)
+                  cur_neighbour.adjcents_[k]->id_ == it->id_ &&
+                  isSameEdge(*it, j, cur_neighbour, k))
                 break;
             retval.push_back({it->id_, cur_neighbour.id_, j, k});
           }
@@ -576,6 +577,18 @@ class ElementTree {
       return ((v1 - v2).norm() < Constants::pt_comp_tolerance);
     }
   };
+  /**
+   * \brief Two elements may share more than one edge. This function checks if
+   * the i-th edge of el1 is the j-th edge of el2.
+   */
+  static bool isSameEdge(const ElementTreeNode &el1, int i,
+                         const ElementTreeNode &el2, int j) {
+    const int v1 = el1.vertices_[i];
+    const int v2 = el1.vertices_[(i + 1) % 4];
+    const int v3 = el2.vertices_[j];
+    const int v4 = el2.vertices_[(j + 1) % 4];
+    return (v1 == v3 && v2 == v4) || (v1 == v4 && v2 == v3);
+  }
   /**
    * \brief function to set up the local topology, i.e. the adjacents
    *        of a refined element
@@ -632,7 +645,8 @@ class ElementTree {
       // is there a neighbour?
       if (cur_el.adjcents_[i] != nullptr) {
         for (auto j = 0; j < 4; ++j)
-          if (cur_el.adjcents_[i]->adjcents_[j] == std::addressof(cur_el)) {
+          if (cur_el.adjcents_[i]->adjcents_[j] == std::addressof(cur_el) &&
+              isSameEdge(cur_el, i, *(cur_el.adjcents_[i]), j)) {
             refNeighbours[i] = j;
             break;
           }
-- 
2.43.0


From fdb4a08335e3043856cd1bb90eb0b6f3e6c405c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 07/21] fix: check the orientation of neighbouring patches
 instead of the position of their common edge

---
 Bembel/src/ClusterTree/ClusterTree.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Bembel/src/ClusterTree/ClusterTree.hpp b/Bembel/src/ClusterTree/ClusterTree.hpp
index 6b59723..2fc5f31 100644
--- a/Bembel/src/ClusterTree/ClusterTree.hpp
+++ b/Bembel/src/ClusterTree/ClusterTree.hpp
@@ -144,14 +144,19 @@ class ClusterTree {
     };
     const PatchVector& geo = element_tree_.get_geometry();
     for (auto edge : edges) {
-      if (edge[2] > 0 && edge[3] > 0) {
+      if (edge[2] >= 0 && edge[3] >= 0) {
         Eigen::Vector3d a = geo[edge[0]].eval(edge_midpoints[edge[2]]);
         Eigen::Vector3d b = geo[edge[1]].eval(edge_midpoints[edge[3]]);
-        Eigen::Vector3d na = geo[edge[0]].evalNormal(edge_midpoints[edge[2]]);
-        Eigen::Vector3d nb = geo[edge[1]].evalNormal(edge_midpoints[edge[3]]);
+        // the orientations match if the patches run through their common edge
+        // in opposite directions
+        const std::vector<int>& va =
+            element_tree_.root().sons_[edge[0]].vertices_;
+        const std::vector<int>& vb =
+            element_tree_.root().sons_[edge[1]].vertices_;
         assert((a - b).norm() < Constants::pt_comp_tolerance &&
                "These points should coincide according to the element tree");
-        assert(a.dot(b) > 0 &&
+        assert(va[edge[2]] == vb[(edge[3] + 1) % 4] &&
+               va[(edge[2] + 1) % 4] == vb[edge[3]] &&
                "Normals across patches are oriented the same way");
       }
     }
-- 
2.43.0


From d81fc4a564ae037648926ce6cc0399a8a520a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 08/21] fix: refine patches which share more than one edge

---
 Bembel/src/ClusterTree/ElementTree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/ClusterTree/ElementTree.hpp b/Bembel/src/ClusterTree/ElementTree.hpp
index 4b56246..5fcad79 100644
--- a/Bembel/src/ClusterTree/ElementTree.hpp
+++ b/Bembel/src/ClusterTree/ElementTree.hpp
@@ -746,7 +746,10 @@ class ElementTree {
     cur_el.sons_[3].vertices_.push_back(ptIds[4]);
     cur_el.sons_[3].vertices_.push_back(ptIds[2]);
     cur_el.sons_[3].vertices_.push_back(cur_el.vertices_[3]);
-    // fix adjecency relations
+    // fix adjecency relations, a neighbour at two edges must only appear once
+    std::sort(elements.begin(), elements.end());
+    elements.erase(std::unique(elements.begin(), elements.end()),
+                   elements.end());
     updateTopology(elements);
 
     return;
-- 
2.43.0


From ed5dc3bad9bbbf4ab491d5435f15f9a16e4fbd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 09/21] fix: do not conjugate complex data in the tangential
 trace

---
 Bembel/src/LinearForm/TangentialTrace.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/LinearForm/TangentialTrace.hpp b/Bembel/src/LinearForm/TangentialTrace.hpp
index fc79f9e..79fe22b 100644
--- a/Bembel/src/LinearForm/TangentialTrace.hpp
+++ b/Bembel/src/LinearForm/TangentialTrace.hpp
@@ -59,7 +59,12 @@ class TangentialTrace : public LinearFormBase<TangentialTrace<Scalar>, Scalar> {
 
     // tangential component + quadrature weights
     Eigen::Matrix<Scalar, 3, 1> fun_x_f = function_(x_f);
-    Eigen::Matrix<Scalar, 3, 1> tangential_component = fun_x_f.cross(x_n) * ws;
+    // (Eigen's cross() conjugates the result for complex vectors)
+    Eigen::Matrix<Scalar, 3, 1> tangential_component;
+    for (int i = 0; i < 3; ++i)
+      tangential_component(i) =
+          ws * (fun_x_f((i + 1) % 3) * x_n((i + 2) % 3) -
+                fun_x_f((i + 2) % 3) * x_n((i + 1) % 3));
 
     // extract tangential component
     Scalar component_x = x_f_dx.dot(tangential_component);
-- 
2.43.0


From c64b0af0e7478648025c55ae580ea4b0e4a821ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 10/21] fix: assign the element ordering of a function
 evaluator

Without it, evaluateOnPatch of an assigned evaluator reads from an empty
vector.
---
 Bembel/src/AnsatzSpace/FunctionEvaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp b/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
index 9f6f731..6248fa9 100644
--- a/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
+++ b/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
@@ -31,6 +31,7 @@ class FunctionEvaluator {
     fun_ = other.fun_;
     polynomial_degree_plus_one_squared_ =
         other.polynomial_degree_plus_one_squared_;
+    reordering_vector_ = other.reordering_vector_;
     return *this;
   }
   explicit FunctionEvaluator(const AnsatzSpace<Derived> &ansatz_space) {
-- 
2.43.0


From 08c301b5340d9b730d9fbf305e4fe27b16617b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:30 +0000
Subject: [PATCH 11/21] fix: form the dense copy of complex compressed matrices

---
 Bembel/src/H2Matrix/H2Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/H2Matrix/H2Matrix.hpp b/Bembel/src/H2Matrix/H2Matrix.hpp
index 92554b1..31197e5 100644
--- a/Bembel/src/H2Matrix/H2Matrix.hpp
+++ b/Bembel/src/H2Matrix/H2Matrix.hpp
@@ -255,7 +255,7 @@ class H2Matrix : public H2MatrixBase<H2Matrix<ScalarT>> {
     Eigen::Matrix<ScalarT, Eigen::Dynamic, Eigen::Dynamic> dense(rows(),
                                                                  cols());
     for (int i = 0; i < cols(); ++i) {
-      Eigen::VectorXd unit(cols());
+      Eigen::Matrix<ScalarT, Eigen::Dynamic, 1> unit(cols());
       unit.setZero();
       unit(i) = 1.;
       dense.col(i) = (*this) * unit;
-- 
2.43.0


From 269e1cfb273c3608ae39f87af1a80e1e6f460ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 12/21] fix: scale and weight the last terms of the spherical
 harmonics series

---
 Bembel/src/util/Sphericals.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/Bembel/src/util/Sphericals.hpp b/Bembel/src/util/Sphericals.hpp
index 1ba7438..c6482a9 100644
--- a/Bembel/src/util/Sphericals.hpp
+++ b/Bembel/src/util/Sphericals.hpp
@@ -192,10 +192,11 @@ double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     z1[1] = root_2 * (y(0) * z1_start[1] + y(1) * z1_start[0]);
   }
 
+  // the last term has n = m = deg - 1 > 0
   if (grad) {
-    fac_tot = fac * deg * pow_int(norm, deg - 1);
+    fac_tot = 2.0 * (deg - 1) * pow_int(norm, deg - 2);
   } else {
-    fac_tot *= norm;
+    fac_tot = 2.0 * pow_int(norm, deg - 1);
   }
   r += fac_tot * cs((deg - 1) * (deg + 1)) * z1[0];
   return r;
@@ -283,9 +284,10 @@ Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
   // + a[(na-1)*(na-1)]*z1[1]) for imaginary coefficients;
   dr(1) -= (deg - 1) * (2 * cs((deg - 1) * (deg + 1)) * z1[1]);
   // - a[(na-1)*(na-1)]*z1[0]) for imaginary coefficients;
-  dr(2) += 2 * sqrt(2 * (deg - 1))
-      * (cs(deg * (deg - 1) + (deg - 2)) * z1[0]
-          + cs(deg * (deg - 1) - (deg - 2)) * z1[1]);
+  fac = (deg == 2) ? 1.0 : 2.0;
+  dr(2) += fac * sqrt(2 * (deg - 1))
+      * (cs(deg * (deg - 1) + (deg - 2)) * z1[0]);
+  // + a[deg*(deg-1)-(deg-2)]*z1[1]) for imaginary coefficients;
 
   return dr;
 }
@@ -367,12 +369,13 @@ Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
     z1[0] = root_2 * (y(0) * z1_start[0] - y(1) * z1_start[1]);
     z1[1] = root_2 * (y(0) * z1_start[1] + y(1) * z1_start[0]);
   }
-  r_n3 *= norm;
+  // the last terms have n = deg - 1
+  r_n3 = pow_int(norm, static_cast<int>(deg) - 4);
+  fac = (deg == 2) ? 1.0 : 2.0;
   dr(0) += (deg - 1) * r_n3 * (2 * cs((deg - 1) * (deg + 1)) * z1[0]);
   dr(1) -= (deg - 1) * r_n3 * (2 * cs((deg - 1) * (deg + 1)) * z1[1]);
-  dr(2) += 2 * r_n3 * sqrt(2 * (deg - 1))
-      * (cs(deg * (deg - 1) + (deg - 2)) * z1[0]
-          + cs(deg * (deg - 1) - (deg - 2)) * z1[1]);
+  dr(2) += fac * r_n3 * sqrt(2 * (deg - 1))
+      * (cs(deg * (deg - 1) + (deg - 2)) * z1[0]);
 
   return dr;
 }
@@ -681,6 +684,10 @@ Eigen::VectorXd legendreFull(unsigned int N, double t) {
   /* n = 0 */
   L(0) = 1;
 
+  if (N == 0) {
+    return L;
+  }
+
   /* n = 1 */
   L(1) = t;
   L(2) = 1;
-- 
2.43.0


From 4470e8eed57ef72f0caf9e0175c8d8be51220a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 13/21] fix: remove every emptied identification of degrees of
 freedom

Erasing inside the loop skipped the entry after the erased one, so that two
neighbouring emptied entries left one behind, and stepped past the end when
the last entry was empty.
---
 Bembel/src/AnsatzSpace/Glue.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Bembel/src/AnsatzSpace/Glue.hpp b/Bembel/src/AnsatzSpace/Glue.hpp
index a1c0d7a..89a789f 100644
--- a/Bembel/src/AnsatzSpace/Glue.hpp
+++ b/Bembel/src/AnsatzSpace/Glue.hpp
@@ -482,11 +482,10 @@ struct glue_identificationmaker_<Derived, DifferentialForm::Continuous> {
     }
     // Now we need to clean up the empty dofsets, since subsequent routines
     // assume there to be at least one element.
-    for (auto x = out.begin(); x != out.end(); ++x) {
-      if ((*x).dofs.size() == 0) {
-        out.erase(x);
-      }
-    }
+    out.erase(std::remove_if(
+                  out.begin(), out.end(),
+                  [](const dofIdentification &d) { return d.dofs.empty(); }),
+              out.end());
     return out;
   }
 };
-- 
2.43.0


From 854802070f7a23e7bf2ed5dba71a4602ea865d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 14/21] fix: write point data of any magnitude

std::to_string prints six decimals, so that data below 1e-6 was exported as
zero. Use the format of the surface and domain exports.
---
 Bembel/src/IO/VTKPointExport.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/IO/VTKPointExport.hpp b/Bembel/src/IO/VTKPointExport.hpp
index 25eea8c..9a1b786 100644
--- a/Bembel/src/IO/VTKPointExport.hpp
+++ b/Bembel/src/IO/VTKPointExport.hpp
@@ -45,9 +45,14 @@ class VTKPointExport {
                              "\" NumberOfComponents=\"" +
                              std::to_string(mat.cols()) +
                              "\" format=\"ascii\">\n";
+    std::ostringstream out;
+    out.precision(6);
     for (int i = 0; i < mat.rows(); ++i) {
       for (int j = 0; j < cols; ++j) {
-        data_ascii.append(std::to_string(mat(i, j)) + " ");
+        out << std::scientific << mat(i, j);
+        data_ascii.append(out.str() + " ");
+        out.str("");
+        out.clear();
       }
       data_ascii.append("\n");
     }
-- 
2.43.0


From 7d4b0127ba2cc78db287b57a215b330886a1e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 15/21] fix: open log files in the requested mode

---
 Bembel/src/IO/Logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/IO/Logger.hpp b/Bembel/src/IO/Logger.hpp
index a1dcd3f..823ea7a 100644
--- a/Bembel/src/IO/Logger.hpp
+++ b/Bembel/src/IO/Logger.hpp
@@ -63,7 +63,7 @@ class Logger {
   template <typename T, typename... Args>
   void file(T t, Args... arg) {
     if (!(_file.is_open())) {
-      _file.open(name_, std::fstream::out | std::fstream::trunc);
+      _file.open(name_, std::fstream::out | _mode);
     }
     _file << std::setprecision(N - 4) << std::setw(N + _sep.size()) << std::left
           << t << _sep;
@@ -72,7 +72,7 @@ class Logger {
   template <typename T>
   void file(T t) {
     if (!(_file.is_open())) {
-      _file.open(name_, std::fstream::out | std::fstream::trunc);
+      _file.open(name_, std::fstream::out | _mode);
     }
     std::setprecision(N);
     _file << std::setprecision(N - 4) << std::setw(N + _sep.size()) << std::left
-- 
2.43.0


From c2f480142b8a5be34ed199f65d39a1d747365568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 16/21] fix: copy geometries which have not been initialized

---
 Bembel/src/Geometry/Geometry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/Geometry/Geometry.hpp b/Bembel/src/Geometry/Geometry.hpp
index cb08bb4..79ce4dd 100644
--- a/Bembel/src/Geometry/Geometry.hpp
+++ b/Bembel/src/Geometry/Geometry.hpp
@@ -46,8 +46,8 @@ class Geometry {
    * might be useful if we want to modify the geometry object.
    */
   Geometry(const Geometry &other) {
-    geometry_ = std::make_shared<PatchVector>();
-    *geometry_ = *(other.geometry_);
+    if (other.geometry_)
+      geometry_ = std::make_shared<PatchVector>(*(other.geometry_));
   }
   /**
    * \brief Copy constructor.
-- 
2.43.0


From 3b353c532d1c66d3605d48ba542a6fc30a9a179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 17/21] fix: copy block cluster trees which have not been
 initialized

---
 Bembel/src/H2Matrix/BlockClusterTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Bembel/src/H2Matrix/BlockClusterTree.hpp b/Bembel/src/H2Matrix/BlockClusterTree.hpp
index bed3633..fb4fb43 100644
--- a/Bembel/src/H2Matrix/BlockClusterTree.hpp
+++ b/Bembel/src/H2Matrix/BlockClusterTree.hpp
@@ -277,6 +277,8 @@ class BlockClusterTree {
     return r;
   }
   void updateLeafPointers() {
+    // there are no leafs if the tree has not been initialized
+    if (cluster1_ == nullptr) return;
     // make sure we have the root of the block cluster tree calling this method
     if (cluster1_->id_ != -1 || cluster1_ != cluster2_) {
       return;
-- 
2.43.0


From 710697efb90077bb26bd0c77867f4da18073b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:15 +0000
Subject: [PATCH 18/21] fix: sum the series in spherical harmonics up to and
 including the degree

---
 Bembel/src/util/Sphericals.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Bembel/src/util/Sphericals.hpp b/Bembel/src/util/Sphericals.hpp
index c6482a9..16f6f9b 100644
--- a/Bembel/src/util/Sphericals.hpp
+++ b/Bembel/src/util/Sphericals.hpp
@@ -73,6 +73,7 @@ double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
 
   assert(abs(x.norm() - 1) < Constants::generic_tolerance);
 
+  ++deg;  // the recursions below run over all degrees less than deg
   r = z1[1] = 0;
   z1[0] = 0.5 / sqrt(pi);
   if (deg <= 1) {
@@ -132,6 +133,7 @@ double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
   double r, fac, rootTimesZ, root_2, root_3, norm, fac_tot;
   Eigen::Vector3d y;
 
+  ++deg;  // the recursions below run over all degrees less than deg
   r = z1[1] = 0;
   z1[0] = 0.5 / sqrt(pi);
   if (grad && deg <= 1) {
@@ -220,6 +222,7 @@ Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
 
   assert(abs(x.norm() - 1) < Constants::generic_tolerance);
 
+  ++deg;  // the recursions below run over all degrees less than deg
   z1[0] = sqrt(0.375 / pi);
   z1[1] = 0;
 
@@ -308,6 +311,7 @@ Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
   Eigen::Vector3d dr, y;
   double fac, rootTimesZ, root_2, root_3, norm, r_n3;
 
+  ++deg;  // the recursions below run over all degrees less than deg
   z1[0] = sqrt(0.375 / pi);
   z1[1] = 0;
 
-- 
2.43.0


From 4c240e6609802e7ce27d36336d6fe561d503b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 19/21] fix: keep small coefficients of smooth splines in the
 projector

The coefficients of smooth B-splines of degree five and higher in terms of
Bernstein polynomials are smaller than the tolerance with which the noise of
the linear solver is filtered, so that they were dropped. With the noise of
high degrees the number of entries of the two components can be different.
---
 Bembel/src/AnsatzSpace/Projector.hpp | 1 -
 Bembel/src/util/Constants.hpp        | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/Bembel/src/AnsatzSpace/Projector.hpp b/Bembel/src/AnsatzSpace/Projector.hpp
index 666cff1..62b8128 100644
--- a/Bembel/src/AnsatzSpace/Projector.hpp
+++ b/Bembel/src/AnsatzSpace/Projector.hpp
@@ -384,7 +384,6 @@ struct projector_matrixmaker_<Derived, DifferentialForm::DivConforming> {
         super_space.get_polynomial_degree() + 1, knotrepetition);
     const int size1 = info1.vals.size();
     const int size2 = info2.vals.size();
-    assert(size1 == size2);
     std::vector<Eigen::Triplet<double>> trips;
     for (int k = 0; k < size1; ++k) {
       trips.push_back(
diff --git a/Bembel/src/util/Constants.hpp b/Bembel/src/util/Constants.hpp
index 8ff6a66..bb3226e 100644
--- a/Bembel/src/util/Constants.hpp
+++ b/Bembel/src/util/Constants.hpp
@@ -34,7 +34,7 @@ constexpr size_t Bembel_alloc_size = 100;
 // the interpolation problem solved during the assembly of the projector needs
 // to filter some almost-zero coefficients that might be introduced during the
 // solution of the linear system
-constexpr double projector_tolerance = 1e-4;
+constexpr double projector_tolerance = 1e-10;
 ////////////////////////////////////////////////////////////////////////////////
 /// methods
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 26053f42a2e7c0e0bf03915aeb86d0aa7e687220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:31 +0000
Subject: [PATCH 20/21] fix: wrap long items of the IGES global section

makeSection() breaks lines only between items.  An item longer than a line,
such as a file name of more than 72 characters, ran over the columns of the
section letter and the line counter: the written file has lines of more than
80 characters and reading it back fails.
---
 Bembel/src/Geometry/GeometryIGS.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Bembel/src/Geometry/GeometryIGS.hpp b/Bembel/src/Geometry/GeometryIGS.hpp
index 1c96d43..5676f54 100644
--- a/Bembel/src/Geometry/GeometryIGS.hpp
+++ b/Bembel/src/Geometry/GeometryIGS.hpp
@@ -222,6 +222,11 @@ std::vector<std::string> makeSection(std::vector<std::string> data,
       line = "";
     }
     line += item;
+    // an item which is longer than a line continues on the next lines
+    while (static_cast<int>(line.length()) > linewidth) {
+      out.push_back(line.substr(0, linewidth));
+      line = line.substr(linewidth);
+    }
   }
   out.push_back(line);
   return out;
-- 
2.43.0


From 1eca1904b5ac3bc59c49e2cdac94eb97dacf776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:45 +0000
Subject: [PATCH 21/21] fix: product with a compressed matrix may be assigned
 to its argument

H2Matrix::operator*() returned an alias free product although it was not asked
to: y = H * y set y to zero first and silently returned zero, while
y = (H + G) * y was right.  Like other matrices of Eigen, the product is now
evaluated into a temporary unless noalias() is given.
---
 Bembel/src/H2Matrix/H2Matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/H2Matrix/H2Matrix.hpp b/Bembel/src/H2Matrix/H2Matrix.hpp
index 31197e5..b05c813 100644
--- a/Bembel/src/H2Matrix/H2Matrix.hpp
+++ b/Bembel/src/H2Matrix/H2Matrix.hpp
@@ -77,9 +77,9 @@ class H2Matrix : public H2MatrixBase<H2Matrix<ScalarT>> {
   Index cols() const { return transformation_matrix_.cols(); }
   // Definition of the matrix multiplication
   template <typename Rhs>
-  Product<H2Matrix, Rhs, AliasFreeProduct> operator*(
+  Product<H2Matrix, Rhs, DefaultProduct> operator*(
       const MatrixBase<Rhs>& x) const {
-    return Product<H2Matrix, Rhs, AliasFreeProduct>(*this, x.derived());
+    return Product<H2Matrix, Rhs, DefaultProduct>(*this, x.derived());
   }
   //////////////////////////////////////////////////////////////////////////////
   /// constructors
-- 
2.43.0

