From 8a8fa8dda419f2cc172b70c828ed8633218e256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 01/72] fix: parallel_for skipped all the work when
 hardware_concurrency() is unknown (0)

---
 include/delfem2/thread.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 74e2bbf..94ff53c 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -8,6 +8,7 @@
 #ifndef DFM2_THREAD_H
 #define DFM2_THREAD_H
 
+#include <algorithm>
 #include <functional>
 #include <future>
 #include <mutex>
@@ -26,7 +27,7 @@ inline void parallel_for(
   auto futures = std::vector<std::future<void>>{};
 
   const unsigned int nthreads = (target_concurrency == 0) ?
-                                std::thread::hardware_concurrency() : target_concurrency;
+                                std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<T> next_idx(0);
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
@@ -56,7 +57,7 @@ inline void parallel_for(
     unsigned int target_concurrency = 0) {
   auto futures = std::vector<std::future<void>>{};
   const unsigned int nthreads = (target_concurrency == 0) ?
-                                std::thread::hardware_concurrency() : target_concurrency;
+                                std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<T> next_idx(0);
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
-- 
2.43.0


From 68ff748d501799f5c269617200a161bcc5014672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 02/72] fix: parallel_for index counter wrapped around for
 narrow index types

---
 include/delfem2/thread.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 94ff53c..1cef094 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -28,15 +28,16 @@ inline void parallel_for(
 
   const unsigned int nthreads = (target_concurrency == 0) ?
                                 std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
-  std::atomic<T> next_idx(0);
+  std::atomic<unsigned long long> next_idx(0); // wide enough not to wrap around past the end
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
     futures.emplace_back(
         std::async(std::launch::async, [&func, &next_idx, &has_error, num]() {
           try {
             while (true) {
-              auto idx = next_idx.fetch_add(1);
-              if (idx >= num) break;
+              const auto cnt = next_idx.fetch_add(1);
+              if (num <= 0 || cnt >= static_cast<unsigned long long>(num)) break;
+              const auto idx = static_cast<T>(cnt);
               if (has_error) break;
               func(idx);
             }
@@ -58,15 +59,16 @@ inline void parallel_for(
   auto futures = std::vector<std::future<void>>{};
   const unsigned int nthreads = (target_concurrency == 0) ?
                                 std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
-  std::atomic<T> next_idx(0);
+  std::atomic<unsigned long long> next_idx(0); // wide enough not to wrap around past the end
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
     futures.emplace_back(std::async(
         std::launch::async, [&func, &next_idx, &has_error, num1, num2]() {
           try {
             while (true) {
-              auto j = next_idx.fetch_add(1);
-              if (j >= num2) break;
+              const auto cnt = next_idx.fetch_add(1);
+              if (num2 <= 0 || cnt >= static_cast<unsigned long long>(num2)) break;
+              const auto j = static_cast<T>(cnt);
               if (has_error) break;
               for (auto i = (T) 0; i < num1; i++) func(i, j);
             }
-- 
2.43.0


From 092edb8749b90a6f32f7d710c880dc768f40ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 03/72] fix: parallel_for counters were destroyed before the
 workers using them were joined on error

---
 include/delfem2/thread.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 1cef094..fb1c92d 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -24,12 +24,11 @@ inline void parallel_for(
     T num,
     Func &&func,
     [[maybe_unused]] unsigned int target_concurrency = 0) {
-  auto futures = std::vector<std::future<void>>{};
-
   const unsigned int nthreads = (target_concurrency == 0) ?
                                 std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<unsigned long long> next_idx(0); // wide enough not to wrap around past the end
   std::atomic<bool> has_error(false);
+  auto futures = std::vector<std::future<void>>{}; // destroyed (joined) before the counters above
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
     futures.emplace_back(
         std::async(std::launch::async, [&func, &next_idx, &has_error, num]() {
@@ -56,11 +55,11 @@ inline void parallel_for(
     T num2,
     Func &&func,
     unsigned int target_concurrency = 0) {
-  auto futures = std::vector<std::future<void>>{};
   const unsigned int nthreads = (target_concurrency == 0) ?
                                 std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<unsigned long long> next_idx(0); // wide enough not to wrap around past the end
   std::atomic<bool> has_error(false);
+  auto futures = std::vector<std::future<void>>{}; // destroyed (joined) before the counters above
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
     futures.emplace_back(std::async(
         std::launch::async, [&func, &next_idx, &has_error, num1, num2]() {
-- 
2.43.0


From 76a832d0664cf2cc1109fed0b05fe44bdbd8b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 04/72] fix: parallel image ray casting swapped width and
 height (wrong / out-of-bounds pixels)

---
 include/delfem2/srch_trimesh3_class.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index a77cea9..e88bc9b 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -472,7 +472,7 @@ void Intersection_ImageRay_TriMesh3(
     aPointElemSurf[ih * nwidth + iw] = pos_mesh;
   };
   if( is_parallel ) {
-    parallel_for(nwidth, nheight, func);
+    parallel_for(nheight, nwidth, func); // func takes (ih, iw)
   }
   else {
     for (unsigned int ih = 0; ih < nheight; ++ih) {
-- 
2.43.0


From 592e124d0a1bbcccc97da5be01494060a2016503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 05/72] fix: image ray casting left stale hits of a previous
 cast in missed pixels

---
 include/delfem2/srch_trimesh3_class.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index e88bc9b..8836cf1 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -459,7 +459,7 @@ void Intersection_ImageRay_TriMesh3(
     const std::vector<double> &aXYZ, // 3d points
     const std::vector<unsigned int> &aTri,
     bool is_parallel) {
-  aPointElemSurf.resize(nheight * nwidth);
+  aPointElemSurf.assign(nheight * nwidth, PointOnSurfaceMesh<double>()); // forget hits of a previous cast
   const std::array<double, 16> mMVPd_inv = Inverse_Mat4(mMVPd);
   auto func = [&](int ih, int iw) {
     const std::pair<CVec3d, CVec3d> ray = RayFromInverseMvpMatrix(mMVPd_inv.data(), iw, ih, nwidth, nheight);
-- 
2.43.0


From 93a199933abb0b89ff75b00008264099df9fd811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 06/72] fix: the last edge of a tetrahedron was listed as (2,2)
 instead of (2,3)

---
 include/delfem2/mshelm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mshelm.h b/include/delfem2/mshelm.h
index d43e3cb..e045794 100644
--- a/include/delfem2/mshelm.h
+++ b/include/delfem2/mshelm.h
@@ -149,7 +149,7 @@ const int noelElemEdge_Tet[6][2] = {
   { 0, 3},
   { 1, 2},
   { 1, 3},
-  { 2, 2},
+  { 2, 3},
 };
 const int noelElemEdge_Quad[4][2] = {
   { 0, 1},
-- 
2.43.0


From a2742140126008e8241fbfce3038d83dfa34be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 07/72] fix: adding the first element to an empty mixed mesh
 tripped an assertion

---
 include/delfem2/msh_topology_mix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 24f39a4..5d29b0a 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -19,7 +19,7 @@ DFM2_INLINE void delfem2::AddElement
   //
   std::copy(aElemIn.begin(), aElemIn.end(), std::back_inserter(aElem));
   //
-  assert( aElemInd.size() >= 2 );
+  assert( aElemInd.size() >= 1 );
   const std::size_t nelem0 = aElemInd.size()-1;
   const int nei0 = aElemInd[nelem0];
   aElemInd.reserve(aElemInd.size()+nElemIn);
-- 
2.43.0


From dc92e5a4cff8bca6ffb152f98b45f0675bebba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 08/72] fix: the search grid read past its object list before
 checking the end

---
 include/delfem2/srchgrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srchgrid.h b/include/delfem2/srchgrid.h
index 497809b..81a974f 100644
--- a/include/delfem2/srchgrid.h
+++ b/include/delfem2/srchgrid.h
@@ -97,7 +97,7 @@ public:
     {
       unsigned int i0 = 0;
       for (unsigned int ig = 0; ig < ng; ++ig) {
-        while (aGrid2Obj[i0].igrid <= ig && i0 < aGrid2Obj.size()) { i0++; }
+        while (i0 < aGrid2Obj.size() && aGrid2Obj[i0].igrid <= ig) { i0++; }
         aGrid2Obj_ind[ig + 1] = i0;
       }
     }
-- 
2.43.0


From f228657546ae6014e766dc00e77db40cd81222a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 09/72] fix: edge and line tables and exponential maps kept the
 contents of a reused output

---
 include/delfem2/expmap_geo3dijk.h        | 4 ++--
 include/delfem2/jagarray.cpp             | 3 +--
 include/delfem2/msh_topology_uniform.cpp | 3 +++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/expmap_geo3dijk.h b/include/delfem2/expmap_geo3dijk.h
index 65f71a2..e543946 100644
--- a/include/delfem2/expmap_geo3dijk.h
+++ b/include/delfem2/expmap_geo3dijk.h
@@ -47,7 +47,7 @@ public:
       psup_ind(psup_ind_), psup(psup_) {
     const size_t np = aXYZ.size() / 3;
     aAxisX.resize(np, CVec3d(0, 0, 0));
-    aTex.resize(np * 2);
+    aTex.assign(np * 2, 0.0);
     aW.assign(np, 0.0);
 
     { // set kernel point information
@@ -116,7 +116,7 @@ public:
     const size_t ntri = aTri.size() / 3;
     assert(it_ker<ntri);
     aAxisX.resize(ntri, CVec3d(0, 0, 0));
-    aTex.resize(ntri * 2);
+    aTex.assign(ntri * 2, 0.0);
     aW.assign(ntri, 0.0);
     { // set kernel point information
       aTex[it_ker * 2 + 0] = 0.0;
diff --git a/include/delfem2/jagarray.cpp b/include/delfem2/jagarray.cpp
index bb66659..54ba3d6 100644
--- a/include/delfem2/jagarray.cpp
+++ b/include/delfem2/jagarray.cpp
@@ -21,8 +21,7 @@ DFM2_INLINE void delfem2::JArrayEdgeUnidir_PointSurPoint(
     const std::vector<unsigned int> &psup) {
   assert(psup_ind.size() >= 2);
   const std::size_t np = psup_ind.size() - 1;
-  edge_ind.resize(np + 1);
-  edge_ind[0] = 0;
+  edge_ind.assign(np + 1, 0);
   edge.clear();
   //
   for (unsigned int ip = 0; ip < np; ++ip) {
diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 21aab1f..bd4981b 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -76,6 +76,7 @@ DFM2_INLINE void delfem2::ElemQuad_DihedralTri(
       tri_vtx_idx, num_tri, MESHELEM_TRI,
       num_vtx);
   assert(aElSuEl.size() == num_tri * 3);
+  quad_vtx_idx.clear();
   for (unsigned int itri = 0; itri < num_tri; ++itri) {
     for (int iedtri = 0; iedtri < 3; ++iedtri) {
       const unsigned int jtri = aElSuEl[itri * 3 + iedtri];
@@ -373,6 +374,7 @@ DFM2_INLINE void delfem2::JArrayEdge_MeshElem(
   const std::size_t nPoint0 = elsup_ind.size() - 1;
   edge_ind.resize(nPoint0 + 1);
   edge_ind[0] = 0;
+  edge.clear();
   for (unsigned int ip = 0; ip < nPoint0; ++ip) {
     std::set<unsigned int> setIP;
     for (unsigned int ielsup = elsup_ind[ip]; ielsup < elsup_ind[ip + 1]; ++ielsup) {
@@ -402,6 +404,7 @@ DFM2_INLINE void delfem2::MeshLine_JArrayEdge(
     //
     const std::vector<unsigned int> &psup_ind,
     const std::vector<unsigned int> &psup) {
+  line_vtx.clear();
   line_vtx.reserve(psup.size() * 2);
   const std::size_t np = psup_ind.size() - 1;
   for (unsigned int ip = 0; ip < np; ++ip) {
-- 
2.43.0


From 8d04b57208420b170a9c8e16f8112d769e2de83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:23 +0000
Subject: [PATCH 10/72] fix: row sparsification kept stale entries of a reused
 output

---
 include/delfem2/rig_geo3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/rig_geo3.cpp b/include/delfem2/rig_geo3.cpp
index c9cef85..952e74d 100644
--- a/include/delfem2/rig_geo3.cpp
+++ b/include/delfem2/rig_geo3.cpp
@@ -89,8 +89,8 @@ void delfem2::SparsifyMatrixRow(
     }
     if (icnt > nbone_nonzeroweight) { nbone_nonzeroweight = icnt; }
   }
-  aWBone_RigSparse.resize(nbone_nonzeroweight * nrow);
-  aIdBone_RigSparse.resize(nbone_nonzeroweight * nrow);
+  aWBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0.0);
+  aIdBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0);
   for (unsigned int ip = 0; ip < nrow; ++ip) {
     unsigned icnt = 0;
     double w_sum = 0.0;
-- 
2.43.0


From edab20926f9b80139c97d4c9ecd1e5d8ad5ca70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:23 +0000
Subject: [PATCH 11/72] fix: preparing a linear program again kept the previous
 table

---
 include/delfem2/lp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index e7e30b7..e5e100b 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -294,7 +294,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
   const unsigned int ncol = (neq+1); // neq,trg
   const unsigned int nrow = (1+1+nvar+nslk+nart); // rhs,trg,var,slk,art
 //  std::cout << neq << " " << nvar << " " << nslk << " " << nart << "  " << ncol << " " << nrow << std::endl;
-  A.resize(ncol*nrow,0.0);
+  A.assign(ncol*nrow,0.0);
   for(unsigned int ieq=0;ieq<neq;++ieq){
     A[ieq*nrow] = aEq[ieq].rhs;
     for(size_t ic=0;ic<aEq[ieq].aCoeff.size();++ic){
-- 
2.43.0


From 91e943811e7ce52d30e51a382506e8a83f708e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 12/72] fix: a range error of an earlier call made the formula
 parser drop its numbers

---
 include/delfem2/parse_math_expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 531fc4d..323d031 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -438,6 +438,7 @@ bool MakeCmdAry(
     const SExpCompo &compo = exp_node_vec[iexp];
     if (compo.iOpeType == 0) { // numeric
       char *e;
+      errno = 0; // an error of some earlier call is not about this number
       double val = strtod(compo.sOpe.c_str(), &e);
       if (errno != ERANGE) {
         cmd_vec[iexp] = new COperand(val);
-- 
2.43.0


From cee5a61a435fbb6b15b2f5b215b685d6d9884776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 13/72] fix: building a point kd-tree leaked its nodes when
 memory ran out

---
 include/delfem2/srch_kdtree.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/srch_kdtree.h b/include/delfem2/srch_kdtree.h
index 796729d..63a1a9a 100644
--- a/include/delfem2/srch_kdtree.h
+++ b/include/delfem2/srch_kdtree.h
@@ -60,17 +60,31 @@ void ConstructNode(KDTNodePoint<VEC>* currentRoot, std::vector<VEC> pointList, c
 	}
 }
 
+template <typename VEC, typename SCALAR = typename VEC::Scalar>
+void DeleteKDT(KDTNodePoint<VEC>* root)
+{
+	if (root == nullptr) { return; }
+	DeleteKDT<VEC>(root->rightChild);
+	DeleteKDT<VEC>(root->leftChild);
+	delete root;
+}
+
 template <typename VEC, typename SCALAR = typename VEC::Scalar>
 KDTNodePoint<VEC>* ConstructKDT(const std::vector<VEC>& Points)
 {
 	assert(!Points.empty());
 
+	std::vector<VEC> pointList = Points;
+
 	KDTNodePoint<VEC>* root = new KDTNodePoint<VEC>;
 	root->parent		= nullptr;
 
-	std::vector<VEC> pointList = Points;
-
-	ConstructNode<VEC>(root, pointList, 0, pointList.size());
+	try {
+		ConstructNode<VEC>(root, pointList, 0, pointList.size());
+	} catch (...) { // out of memory: give back the nodes made so far
+		DeleteKDT<VEC>(root);
+		throw;
+	}
 
 	return root;
 }
-- 
2.43.0


From 0be68a3ebd428a1ddd08766a36bf382e20864ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 14/72] fix: walking around a point to find a crossing edge
 used wrong neighbour indices

---
 include/delfem2/dtri2_v2dtri.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index b062af1..79764f1 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -80,7 +80,7 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
       const unsigned int inotri2 = (inotri_cur + 1) % 3;
       const unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
       if (itri_nex == UINT_MAX) { break; }
-      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_nex], inotri2, aDTri);
+      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
       const unsigned int inotri3 = (jnob + 1) % 3;
       assert(itri_nex < aDTri.size());
       assert(aDTri[itri_nex].v[inotri3] == ipo0);
@@ -123,8 +123,9 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
     {
       const unsigned int inotri2 = (inotri_cur + 2) % 3;
       unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
+      if (itri_nex == UINT_MAX) { break; }
       unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
+      const unsigned int inotri3 = (jnob + 2) % 3;
       assert(aDTri[itri_nex].v[inotri3] == ipo0);
       if (itri_nex == itri_ini) {
         assert(0);
-- 
2.43.0


From 08dc496e05c84ac69c40b33959ed39b8c40d8afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 15/72] fix: OBJ readers: lines longer than 255 characters,
 short lines and long tokens no longer lose data or overflow

---
 include/delfem2/msh_io_obj.cpp | 74 +++++++++++++++-------------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index f387f97..41b85bf 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -34,7 +34,7 @@ DFM2_INLINE void ParseVtxObj_(
   for (unsigned int i = 0; i < n; ++i) {
     if (str[i] != '/') { continue; }
     str[i] = '\0';
-    aloc[icnt] = i;
+    if (icnt < 3) { aloc[icnt] = i; }
     icnt++;
   }
   ip = std::stoi(str);
@@ -266,13 +266,12 @@ DFM2_INLINE void delfem2::Read_Obj(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
-      double x, y, z;
+      std::string str;
+      double x = 0, y = 0, z = 0;
       {
         std::istringstream is(buff);
         is >> str >> x >> y >> z;
@@ -283,11 +282,11 @@ DFM2_INLINE void delfem2::Read_Obj(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
+      std::string str;
       int i0, i1, i2;
       {
         std::istringstream is(buff);
-        is >> str >> i0 >> i1 >> i2;
+        if (!(is >> str >> i0 >> i1 >> i2)) { continue; }
 //       sscanf(buff, "%s %d %d %d", str, &i0, &i1, &i2);
       }
       tri_vtx.push_back(i0 - 1);
@@ -311,13 +310,12 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
   quad_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   quad_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
-      double x, y, z;
+      std::string str;
+      double x = 0, y = 0, z = 0;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
 //      sscanf(buff, "%s %lf %lf %lf", str, &x, &y, &z);
@@ -326,10 +324,10 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
+      std::string str;
       int i0, i1, i2, i3;
       std::istringstream is(buff);
-      is >> str >> i0 >> i1 >> i2 >> i3;
+      if (!(is >> str >> i0 >> i1 >> i2 >> i3)) { continue; }
 //      sscanf(buff, "%s %d %d %d %d", str, &i0, &i1, &i2, &i3);
       quad_vtx.push_back(i0 - 1);
       quad_vtx.push_back(i1 - 1);
@@ -353,13 +351,12 @@ DFM2_INLINE void delfem2::Read_Obj2(
   aTri.clear();
   aXYZ.reserve(256 * 16);
   aTri.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
-      double x, y, z;
+      std::string str;
+      double x = 0, y = 0, z = 0;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
 //      sscanf(buff, "%s %lf %lf %lf", str, &x, &y, &z);
@@ -368,15 +365,12 @@ DFM2_INLINE void delfem2::Read_Obj2(
       aXYZ.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256], str0[256], str1[256], str2[256];
+      std::string str, str0, str1, str2;
       {
         std::istringstream is(buff);
-        is >> str >> str0 >> str1 >> str2;
+        if (!(is >> str >> str0 >> str1 >> str2)) { continue; }
 //        sscanf(buff, "%s %s %s %s", str, str0, str1, str2);
       }
-      for (unsigned int i = 0; i < strlen(str0); ++i) { if (str0[i] == '/') { str0[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str1); ++i) { if (str1[i] == '/') { str1[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str2); ++i) { if (str2[i] == '/') { str2[i] = '\0'; }}
       const int i0 = std::stoi(str0);
       const int i1 = std::stoi(str1);
       const int i2 = std::stoi(str2);
@@ -405,13 +399,12 @@ void delfem2::Read_Obj3(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
-      REAL x, y, z;
+      std::string str;
+      REAL x = 0, y = 0, z = 0;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
 //      sscanf(buff, "%s %lf %lf %lf", str, &x, &y, &z);
@@ -508,11 +501,10 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
   group_elem_index.clear();
   group_elem_index.push_back(0);
   //
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
+  std::string buff;
   fname_mtl.clear();
   std::string current_material_name;
-  while (fin.getline(buff, BUFF_SIZE)) {
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'm') {
       std::stringstream ss(buff);
@@ -522,8 +514,8 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
       continue;
     }
     if (buff[0] == 'v') {
-      char str[256];
-      T x, y, z;
+      std::string str;
+      T x = 0, y = 0, z = 0;
       std::istringstream is(buff);
       if (buff[1] == ' ') { // vertex
         is >> str >> x >> y >> z;
@@ -575,11 +567,9 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
         }
       }
       for (const auto &str0: vec_str) {
-        char buff1[256];
-        std::strncpy(buff1, str0.c_str(), str0.size());
-        buff1[str0.size()] = '\0';
+        std::string buff1 = str0;
         int ip0, it0, in0;
-        msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1);
+        msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1.data());
         elem_vtx_xyz.push_back(ip0);
         elem_vtx_tex.push_back(it0);
         elem_vtx_nrm.push_back(in0);
@@ -627,9 +617,8 @@ void delfem2::Read_WavefrontMaterial(
     return;
   }
   materials.clear();
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == '\n') { continue; }
     std::stringstream ss(buff);
@@ -641,6 +630,7 @@ void delfem2::Read_WavefrontMaterial(
       ss >> str1;
       materials[imtl0].name_mtl = str1;
     }
+    if (materials.empty()) { continue; } // no material to give the property to
     const int imtl0 = static_cast<int>(materials.size()) - 1;
     if (str0 == "Kd") {
       ss >> str1 >> str2 >> str3;
-- 
2.43.0


From de2d9ed4942d5601f3b44d9cf403792b82971792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 16/72] fix: PLY readers: broken or truncated files give an
 empty mesh instead of reading past the data or hanging

---
 include/delfem2/msh_io_ply.cpp | 122 +++++++++++++++++++--------------
 1 file changed, 70 insertions(+), 52 deletions(-)

diff --git a/include/delfem2/msh_io_ply.cpp b/include/delfem2/msh_io_ply.cpp
index 61d0225..f4c9b1a 100644
--- a/include/delfem2/msh_io_ply.cpp
+++ b/include/delfem2/msh_io_ply.cpp
@@ -11,7 +11,9 @@
 #include <fstream>
 #include <sstream>
 #include <vector>
-#include <cstring>
+#include <algorithm>
+#include <memory>
+#include <string>
 
 // ----------------------------------------------------
 
@@ -25,55 +27,58 @@ DFM2_INLINE void delfem2::Read_Ply(
     std::cout << "Fail Read Fail" << std::endl;
     return;
   }
-  const unsigned int nbuff = 256;
-  char buff[nbuff], buff1[nbuff], buff2[nbuff];
-  std::string str1, str2;
-  fin.getline(buff, nbuff);  // ply
-  fin.getline(buff, nbuff);  // format asi 1.0
+  aXYZ.clear();
+  aTri.clear();
+  std::string buff, buff1, buff2;
+  std::getline(fin, buff);  // ply
+  std::getline(fin, buff);  // format asi 1.0
   for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "comment ", 8) != 0) { break; }
+    if (!std::getline(fin, buff)) { break; }
+    if (buff.compare(0, 8, "comment ") != 0) { break; }
   }
   // ----
-  int nno;
+  int nno = 0;
   {
     std::istringstream is(buff);
-    is >> buff1 >> buff2 >> nno;
+    if (!(is >> buff1 >> buff2 >> nno) || nno < 0) { fin.setstate(std::ios::failbit); }
 //    sscanf(buff, "%s %s %d", buff1, buff2, &nno);
   }
   // ----
   for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "property ", 9) != 0) { break; }
+    if (!std::getline(fin, buff)) { break; }
+    if (buff.compare(0, 9, "property ") != 0) { break; }
   }
-  int ntri;
+  int ntri = 0;
   {
     std::istringstream is(buff);
-    is >> buff1 >> buff2 >> ntri;
+    if (!(is >> buff1 >> buff2 >> ntri) || ntri < 0) { fin.setstate(std::ios::failbit); }
 //    sscanf(buff, "%s %s %d", buff1, buff2, &ntri);
   }
-  aTri.resize(ntri * 3);
   // ----
-  fin.getline(buff, nbuff);  // property list int int vertex_indices
-  fin.getline(buff, nbuff);  // end header
+  std::getline(fin, buff);  // property list int int vertex_indices
+  std::getline(fin, buff);  // end header
   // ----
-  aXYZ.resize(nno * 3);
-  for (int ino = 0; ino < nno; ++ino) {
+  for (int ino = 0; ino < nno && fin; ++ino) {
     double x, y, z;
-    fin >> x >> y >> z;
+    if (!(fin >> x >> y >> z)) { break; }
     //    std::cout << ino << " " << x << " " << y << " " << z << std::endl;
-    aXYZ[ino * 3 + 0] = x;
-    aXYZ[ino * 3 + 1] = y;
-    aXYZ[ino * 3 + 2] = z;
+    aXYZ.push_back(x);
+    aXYZ.push_back(y);
+    aXYZ.push_back(z);
   }
-  for (int itri = 0; itri < ntri; ++itri) {
+  for (int itri = 0; itri < ntri && fin; ++itri) {
     int itmp, i1, i2, i3;
-    fin >> itmp >> i1 >> i2 >> i3;
-    aTri[itri * 3 + 0] = i1;
-    aTri[itri * 3 + 1] = i2;
-    aTri[itri * 3 + 2] = i3;
+    if (!(fin >> itmp >> i1 >> i2 >> i3)) { break; }
+    aTri.push_back(i1);
+    aTri.push_back(i2);
+    aTri.push_back(i3);
     //    std::cout << itri << " " << itmp << " " << i1 << " " << i2 << " " << i3 << std::endl;
   }
+  if (fin.fail()) { // the header or the data is broken or truncated
+    std::cout << "Fail Read Fail" << std::endl;
+    aXYZ.clear();
+    aTri.clear();
+  }
   //  if( is_norm_ ){ this->MakeNormal(); }
 }
 
@@ -152,57 +157,70 @@ DFM2_INLINE void delfem2::Read_Ply(
     std::cout << "Fail Read Fail" << std::endl;
     return;
   }
-  const unsigned int nbuff = 256;
-  char buff[nbuff];
+  nnode_ = ntri_ = 0;
+  pXYZs_ = nullptr;
+  aTri_ = nullptr;
+  std::string buff;
   //  char buff1[nbuff], buff2[nbuff];
   std::string sbuff1, sbuff2;
   std::string str1, str2;
-  fin.getline(buff, nbuff);  // ply
-  fin.getline(buff, nbuff);  // format asi 1.0
+  std::getline(fin, buff);  // ply
+  std::getline(fin, buff);  // format asi 1.0
   for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "comment ", 8) != 0) { break; }
+    if (!std::getline(fin, buff)) { break; }
+    if (buff.compare(0, 8, "comment ") != 0) { break; }
   }
   /////
   { // read number of points
     //    sscanf(buff, "%s %s %d", buff1, buff2, &nnode_);
     std::stringstream ss(buff);
-    ss >> sbuff1 >> sbuff2 >> nnode_;
+    if (!(ss >> sbuff1 >> sbuff2 >> nnode_) || nnode_ < 0) { fin.setstate(std::ios::failbit); }
     std::cout << "Nnode " << nnode_ << std::endl;
   }
   ////
   for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "property ", 9) != 0) { break; }
+    if (!std::getline(fin, buff)) { break; }
+    if (buff.compare(0, 9, "property ") != 0) { break; }
   }
   { // read number of triangles
     //    sscanf(buff, "%s %s %d", buff1, buff2, &ntri_);
     std::stringstream ss(buff);
-    ss >> sbuff1 >> sbuff2 >> ntri_;
+    if (!(ss >> sbuff1 >> sbuff2 >> ntri_) || ntri_ < 0) { fin.setstate(std::ios::failbit); }
     std::cout << "NTri " << ntri_ << std::endl;
   }
   /////
-  fin.getline(buff, nbuff);  // property list int int vertex_indices
-  fin.getline(buff, nbuff);  // end header
+  std::getline(fin, buff);  // property list int int vertex_indices
+  std::getline(fin, buff);  // end header
   ////
-  pXYZs_ = new double[nnode_ * 3];
-  for (int ino = 0; ino < (int) nnode_; ++ino) {
+  std::vector<double> aXYZ;
+  for (int ino = 0; ino < nnode_ && fin; ++ino) {
     double x, y, z;
-    fin >> x >> y >> z;
+    if (!(fin >> x >> y >> z)) { break; }
     //    std::cout << ino << " " << x << " " << y << " " << z << std::endl;
-    pXYZs_[ino * 3 + 0] = x;
-    pXYZs_[ino * 3 + 1] = y;
-    pXYZs_[ino * 3 + 2] = z;
+    aXYZ.push_back(x);
+    aXYZ.push_back(y);
+    aXYZ.push_back(z);
   }
-  aTri_ = new unsigned int[ntri_ * 3];
-  for (int itri = 0; itri < (int) ntri_; ++itri) {
+  std::vector<unsigned int> aTri;
+  for (int itri = 0; itri < ntri_ && fin; ++itri) {
     int itmp, i1, i2, i3;
-    fin >> itmp >> i1 >> i2 >> i3;
-    aTri_[itri * 3 + 0] = i1;
-    aTri_[itri * 3 + 1] = i2;
-    aTri_[itri * 3 + 2] = i3;
+    if (!(fin >> itmp >> i1 >> i2 >> i3)) { break; }
+    aTri.push_back(i1);
+    aTri.push_back(i2);
+    aTri.push_back(i3);
     //    std::cout << itri << " " << itmp << " " << i1 << " " << i2 << " " << i3 << std::endl;
   }
+  if (fin.fail()) { // the header or the data is broken or truncated
+    std::cout << "Fail Read Fail" << std::endl;
+    nnode_ = ntri_ = 0;
+    return;
+  }
+  std::unique_ptr<double[]> xyzs(new double[aXYZ.size()]);
+  std::unique_ptr<unsigned int[]> tris(new unsigned int[aTri.size()]);
+  std::copy(aXYZ.begin(), aXYZ.end(), xyzs.get());
+  std::copy(aTri.begin(), aTri.end(), tris.get());
+  pXYZs_ = xyzs.release();
+  aTri_ = tris.release();
   //  if( is_norm_ ){ this->MakeNormal(); }
 }
 
-- 
2.43.0


From 5d83b0a271c29feece8ccd38c809f496ad5fcaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 17/72] fix: TetGen, raw, VTK and Nastran readers: check counts
 and stream, no partial or uninitialised meshes

---
 include/delfem2/msh_io_misc.cpp | 143 ++++++++++++++++++++------------
 1 file changed, 88 insertions(+), 55 deletions(-)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index 5014ea9..1ccc9db 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -59,7 +59,7 @@ DFM2_INLINE void ParseVtxObj_(
   for (unsigned int i = 0; i < n; ++i) {
     if (str[i] != '/') { continue; }
     str[i] = '\0';
-    aloc[icnt] = i;
+    if (icnt < 3) { aloc[icnt] = i; }
     icnt++;
   }
   ip = std::stoi(str);
@@ -130,25 +130,32 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
   //    std::string fname("bunny_c.1");
   //  std::string fname("camel_c.1");
   //    std::string fname("camel_10000.1");
+  aXYZ.clear();
+  aTet.clear();
+  aTri.clear();
+  bool is_complete = true;
   {
     std::ifstream fin((fname + std::string(".node")).c_str());
-    unsigned int nnode;
+    unsigned int nnode = 0;
     unsigned int i1, i2, i3;
     fin >> nnode >> i1 >> i2 >> i3;
-    aXYZ.resize(nnode * 3);
-    for (unsigned int ino = 0; ino < nnode; ino++) {
-      fin >> i1 >> aXYZ[ino * 3 + 0] >> aXYZ[ino * 3 + 1] >> aXYZ[ino * 3 + 2];
+    for (unsigned int ino = 0; ino < nnode && fin; ino++) {
+      double p[3] = {};
+      fin >> i1 >> p[0] >> p[1] >> p[2];
+      aXYZ.insert(aXYZ.end(), p, p + 3);
       //        std::cout << i1 << " " << aXYZ[ino*3+0] << " " << aXYZ[ino*3+1] << " " << aXYZ[ino*3+2] << std::endl;
     }
+    if (fin.fail()) { is_complete = false; }
   }
   {
     std::ifstream fin((fname + std::string(".ele")).c_str());
-    unsigned int ntet;
+    unsigned int ntet = 0;
     unsigned int i1, i2;
     fin >> ntet >> i1 >> i2;
-    aTet.resize(ntet * 4);
-    for (unsigned int itet = 0; itet < ntet; itet++) {
-      fin >> i1 >> aTet[itet * 4 + 0] >> aTet[itet * 4 + 1] >> aTet[itet * 4 + 2] >> aTet[itet * 4 + 3];
+    for (unsigned int itet = 0; itet < ntet && fin; itet++) {
+      int v[4] = {};
+      fin >> i1 >> v[0] >> v[1] >> v[2] >> v[3];
+      aTet.insert(aTet.end(), v, v + 4);
       //        std::cout << i1 << " " << aTet[itet*4+0] << " ";
       //        std::cout << aTet[itet*4+1] << " ";
       //        std::cout << aTet[itet*4+2] << " ";
@@ -159,15 +166,15 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
       //        aTet[itet*4+3] -= 1;
 
     }
+    if (fin.fail()) { is_complete = false; }
   }
   {
     std::ifstream fin((fname + std::string(".face")).c_str());
-    int ntri;
+    int ntri = 0;
     unsigned int i1;
     fin >> ntri >> i1;
-    aTri.resize(ntri * 3);
     //      char buff[256];
-    for (int itri = 0; itri < ntri; itri++) {
+    for (int itri = 0; itri < ntri && fin; itri++) {
       /*
        int i2;
        fin.getline(buff, 256);
@@ -175,12 +182,20 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
        ss>>i1>>aTri[itri*3+0]>>aTri[itri*3+2]>>aTri[itri*3+1]>>i2;
        //        fin >> i1 >> aTri[itri*3+0] >> aTri[itri*3+2] >> aTri[itri*3+1] >> i2;
        */
-      fin >> i1 >> aTri[itri * 3 + 0] >> aTri[itri * 3 + 2] >> aTri[itri * 3 + 1];
+      int v[3] = {};
+      fin >> i1 >> v[0] >> v[2] >> v[1];
+      aTri.insert(aTri.end(), v, v + 3);
       //        aTri[itri*3+0] -= 1;
       //        aTri[itri*3+1] -= 1;
       //        aTri[itri*3+2] -= 1;
 
     }
+    if (fin.fail() || ntri < 0) { is_complete = false; }
+  }
+  if (!is_complete) { // some file is missing, broken or truncated
+    aXYZ.clear();
+    aTet.clear();
+    aTri.clear();
   }
 }
 
@@ -208,15 +223,23 @@ DFM2_INLINE void delfem2::Read_MeshTri3D(
     std::ifstream &fin,
     std::vector<double> &aXYZ,
     std::vector<int> &aTri) {
-  int nxyz, ntri;
+  aXYZ.clear();
+  aTri.clear();
+  int nxyz = 0, ntri = 0;
   fin >> nxyz >> ntri;
-  aXYZ.resize(nxyz * 3);
-  aTri.resize(ntri * 3);
-  for (int ixyz = 0; ixyz < nxyz; ++ixyz) {
-    fin >> aXYZ[ixyz * 3 + 0] >> aXYZ[ixyz * 3 + 1] >> aXYZ[ixyz * 3 + 2];
+  for (int ixyz = 0; ixyz < nxyz && fin; ++ixyz) {
+    double p[3] = {};
+    fin >> p[0] >> p[1] >> p[2];
+    aXYZ.insert(aXYZ.end(), p, p + 3);
+  }
+  for (int itri = 0; itri < ntri && fin; ++itri) {
+    int v[3] = {};
+    fin >> v[0] >> v[1] >> v[2];
+    aTri.insert(aTri.end(), v, v + 3);
   }
-  for (int itri = 0; itri < ntri; ++itri) {
-    fin >> aTri[itri * 3 + 0] >> aTri[itri * 3 + 1] >> aTri[itri * 3 + 2];
+  if (fin.fail() || nxyz < 0 || ntri < 0) { // the data is broken or truncated
+    aXYZ.clear();
+    aTri.clear();
   }
 }
 
@@ -569,74 +592,85 @@ DFM2_INLINE void delfem2::ReadVTK(
     std::vector<int> &aElem,
     std::vector<double> &aPointVal,
     const std::string &fpath) {
+  aXYZ.clear();
+  aElem.clear();
+  aPointVal.clear();
+  ielemtype = -1;
   std::ifstream fin(fpath.c_str());
 
-  const int nbuff = 512;
-  char buff[nbuff];
-  fin.getline(buff, nbuff);
-  fin.getline(buff, nbuff);
-  fin.getline(buff, nbuff);
-  fin.getline(buff, nbuff);
+  std::string buff;
+  std::getline(fin, buff);
+  std::getline(fin, buff);
+  std::getline(fin, buff);
+  std::getline(fin, buff);
 
   std::string str0, str1, str2, str3;
   fin >> str0 >> str1 >> str2;
   //  std::cout << str0 << " " << str1 << " " << str2 << std::endl;
 
+  std::vector<double> aXYZ0;
   int np = msh_iomisc::MyStoi_(str1);
-  aXYZ.resize(np * 3);
-  for (int ip = 0; ip < np; ++ip) {
+  for (int ip = 0; ip < np && fin; ++ip) {
     fin >> str0 >> str1 >> str2;
-    aXYZ[ip * 3 + 0] = msh_iomisc::MyStod_(str0);
-    aXYZ[ip * 3 + 1] = msh_iomisc::MyStod_(str1);
-    aXYZ[ip * 3 + 2] = msh_iomisc::MyStod_(str2);
+    aXYZ0.push_back(msh_iomisc::MyStod_(str0));
+    aXYZ0.push_back(msh_iomisc::MyStod_(str1));
+    aXYZ0.push_back(msh_iomisc::MyStod_(str2));
   }
 
   fin >> str0 >> str1 >> str2;
   //  std::cout << str0 << " " << str1 << " " << str2 << std::endl;
   int nelem = msh_iomisc::MyStoi_(str1);
   int nbuffelem = msh_iomisc::MyStoi_(str2);
-  std::vector<int> aElembuff(nbuffelem);
-  for (int i = 0; i < nbuffelem; ++i) { fin >> aElembuff[i]; }
+  std::vector<int> aElembuff;
+  for (int i = 0, j; i < nbuffelem && fin >> j; ++i) { aElembuff.push_back(j); }
 
   fin >> str0 >> str1;
   //  std::cout << str0 << " " << str1 << std::endl;
   int nelem1 = msh_iomisc::MyStoi_(str1);
-  std::vector<int> aElemType(nelem1);
-  for (int i = 0; i < nelem1; ++i) { fin >> aElemType[i]; }
+  std::vector<int> aElemType;
+  for (int i = 0, j; i < nelem1 && fin >> j; ++i) { aElemType.push_back(j); }
+  if (fin.fail() || np < 0 || nelem < 0 || nelem1 != nelem) { return; } // broken or truncated
 
-  fin >> str0 >> str1;
-  if (!fin.eof()) {
+  std::vector<double> aPointVal0;
+  if (fin >> str0 >> str1) {
     //  std::cout << str0 << " " << str1 << std::endl;
     int np1 = msh_iomisc::MyStoi_(str1);
-    assert(np1 == np);
+    if (np1 != np) { return; }
     fin >> str0;
+    size_t nval = 0;
     if (str0 == "VECTORS") {
       fin >> str1 >> str2;
-      aPointVal.resize(np1 * 3);
-      for (int i = 0; i < np1 * 3; ++i) { fin >> aPointVal[i]; }
+      nval = aXYZ0.size();
     }
     if (str0 == "SCALARS") {
       fin >> str1 >> str2 >> str3;
       fin >> str1 >> str2;
-      aPointVal.resize(np1);
-      for (int i = 0; i < np1; ++i) { fin >> aPointVal[i]; }
+      nval = aXYZ0.size() / 3;
     }
-  } else {
-    aPointVal.resize(0);
+    double val;
+    while (aPointVal0.size() < nval && fin >> val) { aPointVal0.push_back(val); }
+    if (fin.fail()) { return; }
+  } else if (fin.bad()) {
+    return;
   }
   fin.close();
   // ---------
-  assert(nelem1 == nelem);
-  ielemtype = aElemType[0];
+  if (nelem > 0) { ielemtype = aElemType[0]; }
+  bool is_consistent = true;
   for (int ie = 0; ie < nelem; ++ie) {
-    assert(aElemType[ie] == ielemtype);
+    if (aElemType[ie] != ielemtype) { is_consistent = false; }
   }
   int nnoel = 0;
   if (ielemtype == 5) { nnoel = 3; } // Tri
   if (ielemtype == 9) { nnoel = 4; } // Quad
   if (ielemtype == 10) { nnoel = 4; } // Tet
   if (ielemtype == 12) { nnoel = 8; } // Hex
-  assert((int) aElembuff.size() == nelem * (nnoel + 1));
+  if (!is_consistent || aElembuff.size() != size_t(nelem) * (nnoel + 1)) {
+    ielemtype = -1;
+    return;
+  }
+  aXYZ.swap(aXYZ0);
+  aPointVal.swap(aPointVal0);
   aElem.resize(nelem * nnoel);
   for (int ie = 0; ie < nelem; ++ie) {
     for (int ine = 0; ine < nnoel; ++ine) {
@@ -660,12 +694,10 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
   }
   // -----
   std::vector<int> map01;
-  const int nbuff = 256;
-  std::vector<char> buff(nbuff);
+  std::string buff;
   char buff1[16], buff2[16], buff3[16], buff4[16], buff5[16];
-  while (true) {
-    fin.getline(buff.data(), nbuff);
-    if (fin.eof()) { break; } // eof
+  while (std::getline(fin, buff)) {
+    if (buff.size() < 48) { buff.resize(48, '\0'); } // short line has empty fields
     if (buff[0] == 'G' && buff[1] == 'R' && buff[2] == 'I' && buff[3] == 'D') {
       for (int i = 0; i < 8; ++i) { buff1[i] = buff[i + 8]; }
       buff1[8] = '\0';
@@ -705,7 +737,7 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
       continue;
     }
   }
-  int np1 = map01[0];
+  int np1 = -1;
   for (int ip1 : map01) {
     np1 = (ip1 > np1) ? ip1 : np1;
   }
@@ -713,11 +745,12 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
   std::vector<unsigned int> map10(np1, UINT_MAX);
   for (unsigned int ip0 = 0; ip0 < map01.size(); ++ip0) {
     unsigned int ip1 = map01[ip0];
+    if (ip1 >= map10.size()) { continue; } // invalid id
     map10[ip1] = ip0;
   }
   for (unsigned int &i : aTri) {
     unsigned int j1 = i;
-    i = map10[j1];
+    i = (j1 < map10.size()) ? map10[j1] : UINT_MAX;
   }
 }
 
-- 
2.43.0


From bad791743a1d8fce96916fe7beee58dca8c8bcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 18/72] fix: NPY loader: check header and data size before
 reporting success

---
 include/delfem2/filenpy_str.cpp | 37 +++++++++++++--------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index c882ecf..277168b 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -47,18 +47,19 @@ DFM2_INLINE bool LoadNumpy(
   ndim0 = 0;
   ndim1 = 0;
   { // format
-    char buff[256];
+    std::string buff(npy.header_len, ' ');
 //    size_t n1 = fread(buff, 1, npy.header_len, fp);
 //    if( n1 != npy.header_len ){ return false; }
-    fp.read(buff,npy.header_len);
+    fp.read(buff.data(),npy.header_len);
     if( fp.fail() ){ return false; }
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
+    std::map<std::string, std::string> map0 = ReadDictionary_Python(buff);
     std::string str_shape = map0["'shape'"];
     str_shape = Get_Parentheses(str_shape,"()");
     std::vector<std::string> aToken = Split(str_shape,',');
     if( aToken.size() != 2 ){ return false; }
     ndim0 = myStoi(aToken[0]);
     ndim1 = myStoi(aToken[1]);
+    if( ndim0 < 0 || ndim1 < 0 ){ return false; }
   }
   return true;
 }
@@ -88,24 +89,15 @@ DFM2_INLINE delfem2::ReadDictionary_Python(
   std::string skey;
   for(unsigned int i=0;i<n;++i){
     if( buff[i] == ':' ){
-      char str[256];
-//      strncpy(str, pbuff+iend,i-iend);
-      for(unsigned int j=0;j<i-iend;++j){ str[j] = pbuff[iend+j]; }
-      str[i-iend] = '\0';
       //      std::cout << "key:" << str << "#" << std::endl;
-      skey = std::string(str);
+      skey = ( (int)i > iend ) ? std::string(pbuff+iend,pbuff+i) : std::string();
       //      if( buff[i+1] == ' ' ){ i+=1; }
       icolon = i;
     }
     if( buff[i] == ','){
-      assert( icolon != -1 );
-      if( is_parentheses ){ continue; }
-      char str[256];
-//      strncpy(str, pbuff+icolon+1,i-icolon-1);
-      for(unsigned int j=0;j<i-icolon-1;++j){ str[j] = pbuff[icolon+1+j]; }
-      str[i-icolon-1] = '\0';
+      if( is_parentheses || icolon == -1 ){ continue; }
       //      std::cout << "val:" << str << "#" << std::endl;
-      std::string svalue(str);
+      std::string svalue(pbuff+icolon+1,pbuff+i);
       map0.insert( std::make_pair(skey,svalue) );
       //      if( buff[i+1] == ' ' ){ i+=1; }
       iend = i+1;
@@ -133,12 +125,12 @@ DFM2_INLINE bool delfem2::LoadNumpy_2Dim(
 //  FILE* fp = fopen(path.c_str(),"rb");
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
-  funcs::LoadNumpy(ndim0, ndim1, fin);
-  int size = ndim0*ndim1;
+  if( !funcs::LoadNumpy(ndim0, ndim1, fin) ){ return false; }
+  const size_t size = size_t(ndim0)*size_t(ndim1);
   aData.resize(size);
 //  size_t n0 = fread(&aData[0], sizeof(float), size, fp);
 //  return (int) n0 == size;
-  fin.read( (char*)&aData[0], sizeof(REAL)*size );
+  fin.read( (char*)aData.data(), sizeof(REAL)*size );
   return !fin.fail();
 }
 #ifdef DFM2_STATIC_LIBRARY
@@ -178,13 +170,13 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
   
   ndim0 = 0;
   { // format
-    char buff[256];
+    std::string buff(npy.header_len, ' ');
 //    size_t n1 = fread(buff, 1, npy.header_len, fp);
 //    if( n1 != npy.header_len ){ return false; }
-    fin.read(buff,npy.header_len);
+    fin.read(buff.data(),npy.header_len);
     if(fin.fail()){ return false; }
     //    std::cout << buff << "###" << strlen(buff) << std::endl;
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
+    std::map<std::string, std::string> map0 = ReadDictionary_Python(buff);
     //    for(std::map<std::string, std::string>::iterator itr=map0.begin();itr!=map0.end();++itr){
     //      std::cout << itr->first << " --> " << itr->second << std::endl;
     //    }
@@ -193,6 +185,7 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
     std::vector<std::string> aToken = Split(str_shape,',');
     if( aToken.size() != 1 ){ return false; }
     ndim0 = myStoi(aToken[0]);
+    if( ndim0 < 0 ){ return false; }
   }
   //    std::cout << ndim0 << " " << ndim1 << std::endl;
   
@@ -202,6 +195,6 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
   //  double* aRes = (double*)malloc( sizeof(double)*size );
 //  size_t n2 = fread(&aData[0], sizeof(float), size, fp);
 //  return n2 == size;
-  fin.read( (char*)&aData[0], sizeof(float)*size );
+  fin.read( (char*)aData.data(), sizeof(float)*size );
   return !fin.fail();
 }
-- 
2.43.0


From 6d694b19712f5a77e78a245ab71c96a95797c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 19/72] fix: PPM loaders: parse the header by token and report
 short files

---
 include/delfem2/img_ioppm.cpp | 74 +++++++++++++++++------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/include/delfem2/img_ioppm.cpp b/include/delfem2/img_ioppm.cpp
index fb1838d..9887590 100644
--- a/include/delfem2/img_ioppm.cpp
+++ b/include/delfem2/img_ioppm.cpp
@@ -30,36 +30,34 @@ bool delfem2::LoadImage_PPMBinary(
   
   std::string header;
   {
-    char buff[256];
-    file.getline(buff, 256);
-    header = std::string(buff);
+    std::getline(file, header);
   }
-  if (header=="P6") { // binary format
-    {
-      int max;
-      char buff[256];
-      file.getline(buff,256);
-      if (buff[0]=='#'){
-        file>>width>>height>>max;
-      }
-      else{
-        std::stringstream ss(buff);
-        ss>>width>>height>>max;
+  if (header!="P6") { return false; } // binary format
+  {
+    int val[3]; // width, height, max
+    for (int &v: val) {
+      while ((file >> std::ws).peek()=='#') { // skip comment
+        std::string comment;
+        std::getline(file, comment);
       }
-      //      std::cout<<header<<" "<<width<<" "<<height<<" "<<max<<std::endl;
+      if (!(file >> v) || v < 0) { return false; }
     }
+    file.get(); // one white space between the header and the data
+    width = val[0];
+    height = val[1];
     // max is supporse to be 255
-    const int size = width*height*3+1;
+    const size_t size = size_t(width)*size_t(height)*3;
     std::vector<unsigned char> data(size);
-    file.read(reinterpret_cast<char*>(&(data[0])), size);
-    image.resize(3*height*width+256);
+    file.read(reinterpret_cast<char*>(data.data()), size);
+    if (!file) { return false; }
+    image.resize(size+256);
     for (int row = 0; row < height; ++row) {
       for (int col = 0; col < width; ++col) {
-        int dest_index = 3*((height-row-1) * width+col);
-        int src_index = (row * width+col)*3;
-        image[dest_index+0] = data[src_index+1];
-        image[dest_index+1] = data[src_index+2];
-        image[dest_index+2] = data[src_index+3];
+        size_t dest_index = 3*(size_t(height-row-1) * width+col);
+        size_t src_index = (size_t(row) * width+col)*3;
+        image[dest_index+0] = data[src_index+0];
+        image[dest_index+1] = data[src_index+1];
+        image[dest_index+2] = data[src_index+2];
       }
     }
   }
@@ -84,33 +82,35 @@ int delfem2::LoadImage_PPMAscii(
   width = height = 0;
   int vmax;
   {
-    const unsigned int buffSize = 256;
-    char buff[buffSize];
+    std::string buff;
     // get format
-    if( !fin.getline(buff, buffSize) ){ return 2; }
+    if( !std::getline(fin, buff) ){ return 2; }
     if( buff[0] != 'P' || buff[1] != '3'){ return 2; }
     // get size
-    if( !fin.getline(buff, buffSize) ){ return 2; }
+    if( !std::getline(fin, buff) ){ return 2; }
     {
       std::stringstream ss(buff);
       ss >> width >> height;
     }
-    if( !fin.getline(buff, buffSize) ){ return 2; }
+    if( !std::getline(fin, buff) ){ return 2; }
     {
       std::stringstream ss(buff);
       ss >> vmax;
     }
   }
-  image.resize(width*height*3);
-  const auto buffSize = (unsigned int)(4*3*width*1.2);
-  std::vector<char> buff(buffSize, 0);
-  unsigned int icnt = 0;
-  while (icnt<width*height*3) {
+  const size_t nval = size_t(width)*size_t(height)*3;
+  image.resize(nval);
+  size_t icnt = 0;
+  while (icnt<nval) {
     int ival;
-    fin >> ival;
-    unsigned int ih = icnt/(width*3);
-    unsigned int iw = (icnt-ih*width*3)/3;
-    unsigned int ich = icnt - ih*width*3 - iw*3;
+    if( !(fin >> ival) ){ // the data is broken or truncated
+      image.clear();
+      width = height = 0;
+      return 2;
+    }
+    const size_t ih = icnt/(size_t(width)*3);
+    const size_t iw = (icnt-ih*width*3)/3;
+    const size_t ich = icnt - ih*width*3 - iw*3;
     image[(height-ih-1)*width*3+iw*3+ich] = static_cast<unsigned char>(ival);
     icnt++;
   }
-- 
2.43.0


From 575dac5d483b59d8e7a4cb864024ede4d36ea168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 20/72] fix: BVH reader: reject broken or truncated motion
 files instead of using incomplete data

---
 include/delfem2/rig_bvh.cpp | 62 +++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/include/delfem2/rig_bvh.cpp b/include/delfem2/rig_bvh.cpp
index 893f1a5..e9111e2 100644
--- a/include/delfem2/rig_bvh.cpp
+++ b/include/delfem2/rig_bvh.cpp
@@ -103,35 +103,51 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
   bvh_header.clear();
   bones.clear();
   channels.clear();
-  //
+  nframe = 0;
+  frame_time = 0;
+  frame_channel.clear();
+  // the file is broken or truncated
+  auto fail = [&]() {
+    std::cout << "cannot read file" << std::endl;
+    bvh_header.clear();
+    bones.clear();
+    channels.clear();
+    nframe = 0;
+    frame_time = 0;
+    frame_channel.clear();
+  };
+  bool is_motion = false;
   std::string line;
   std::vector<int> stackIndBone;
   while (std::getline(fin, line)) {
-    if (line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
-    if (line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
     bvh_header += (line + '\n');
     line = rig_bvh::MyReplace(line, '\t', ' ');
     std::vector<std::string> aToken = rig_bvh::MySplit(line, ' ');
 //    std::cout << aToken[0] << std::endl;
+    if (aToken.empty()) { continue; }
     if (aToken[0] == "HIERARCHY") {
-      assert(bones.empty());
+      if (!bones.empty()) { fail(); return; }
     } else if (aToken[0] == "ROOT") {
-      assert(bones.empty());
+      if (!bones.empty() || aToken.size() != 2) { fail(); return; }
       CRigBone br;
-      assert(aToken.size() == 2);
       br.name = aToken[1];
       bones.push_back(br);
     } else if (aToken[0] == "{") {
+      if (bones.empty()) { fail(); return; }
       stackIndBone.push_back(static_cast<int>(bones.size() - 1));
       if (stackIndBone.size() > 1) {
         int ibp = stackIndBone[stackIndBone.size() - 2];
         auto ib = static_cast<unsigned int>(bones.size() - 1);
+        if (ibp == static_cast<int>(ib)) { fail(); return; } // no joint between braces
         bones[ib].ibone_parent = ibp;
       }
     } else if (aToken[0] == "}") {
+      if (stackIndBone.empty()) { fail(); return; }
       stackIndBone.resize(stackIndBone.size() - 1);
     } else if (aToken[0] == "OFFSET") {
-      assert(aToken.size() == 4);
+      if (bones.empty() || aToken.size() != 4) { fail(); return; }
       size_t ib = bones.size() - 1;
       double org_x = rig_bvh::myStod(aToken[1]);
       double org_y = rig_bvh::myStod(aToken[2]);
@@ -147,10 +163,9 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
         bones[ib].invBindMat[11] += bones[ibp].invBindMat[11];
       }
     } else if (aToken[0] == "CHANNELS") {
-      assert(aToken.size() >= 2);
+      if (bones.empty() || aToken.size() < 2) { fail(); return; }
       int nch = rig_bvh::myStoi(aToken[1]);
-      assert((int) aToken.size() == nch + 2);
-      assert(!bones.empty());
+      if ((long) aToken.size() != (long) nch + 2) { fail(); return; }
       const auto ib = static_cast<unsigned int>(bones.size() - 1);
       for (int ich = 0; ich < nch; ++ich) {
         const std::string &type_ch = aToken[ich + 2];
@@ -165,50 +180,51 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
         }
       }
     } else if (aToken[0] == "JOINT") {
+      if (aToken.size() != 2) { fail(); return; }
       CRigBone br;
-      assert(aToken.size() == 2);
       br.name = aToken[1];
       bones.push_back(br);
     } else if (aToken[0] == "End") {
-      assert(aToken[1] == "Site");
+      if (aToken.size() != 2 || aToken[1] != "Site") { fail(); return; }
       CRigBone br;
-      assert(aToken.size() == 2);
       br.name = aToken[1];
       bones.push_back(br);
     } else if (aToken[0] == "MOTION") {
+      is_motion = true;
       break;
     }
   }
-  nframe = 0;
+  if (!is_motion || !stackIndBone.empty()) { fail(); return; }
+  size_t nframe0 = 0;
   {
     std::string stmp0;
     std::getline(fin, line);  // Frames: ***
     std::stringstream ss(line);
-    ss >> stmp0 >> nframe;
+    if (!fin || !(ss >> stmp0 >> nframe0)) { fail(); return; }
     // std::cout << "frame: " << nframe << std::endl;
   }
   {
     std::string stmp0, stmp1;
     std::getline(fin, line);  // Frame Time: ***
     std::stringstream ss(line);
-    ss >> stmp0 >> stmp1 >> frame_time;
+    if (!fin || !(ss >> stmp0 >> stmp1 >> frame_time)) { fail(); return; }
     // std::cout << "frametime: " << frame_time << std::endl;
   }
 
   const size_t nchannel = channels.size();
-  frame_channel.resize(nframe * nchannel);
-  for (unsigned int iframe = 0; iframe < nframe; ++iframe) {
-    std::getline(fin, line);
+  for (size_t iframe = 0; iframe < nframe0; ++iframe) {
+    if (!std::getline(fin, line)) { fail(); return; }
     line = rig_bvh::MyReplace(line, '\t', ' ');
-    if (line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
-    if (line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
     std::vector<std::string> aToken = rig_bvh::MySplit(line, ' ');
 //    std::cout << aToken.size() << " " << aChannelRotTransBone.size() << std::endl;
-    assert(aToken.size() == channels.size());
+    if (aToken.size() != nchannel) { fail(); return; }
     for (unsigned int ich = 0; ich < nchannel; ++ich) {
-      frame_channel[iframe * nchannel + ich] = rig_bvh::myStod(aToken[ich]);
+      frame_channel.push_back(rig_bvh::myStod(aToken[ich]));
     }
   }
+  nframe = nframe0;
   // ---------------
   for (unsigned int ibone = 0; ibone < bones.size(); ++ibone) {
     CRigBone &bone = bones[ibone];
-- 
2.43.0


From 328d067ec7e0781eb64b72af226dad5d0dc143e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 21/72] fix: WriteCAD_DXF reports a failed write or close

---
 include/delfem2/cad2_io_dxf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/cad2_io_dxf.cpp b/include/delfem2/cad2_io_dxf.cpp
index 5a5c3e1..5689080 100644
--- a/include/delfem2/cad2_io_dxf.cpp
+++ b/include/delfem2/cad2_io_dxf.cpp
@@ -23,7 +23,6 @@ DFM2_INLINE bool delfem2::WriteCAD_DXF(
 {
   FILE *fp;
   if( (fp = ::fopen(file_name.c_str(),"w"))== nullptr ){
-    assert(0);
     return false;
   }
   CBoundingBox2<double> bb;
@@ -119,6 +118,7 @@ DFM2_INLINE bool delfem2::WriteCAD_DXF(
     }
   }
   fprintf(fp, "  0\nENDSEC\n  0\nEOF\n");
-  fclose(fp);
-  return true;
+  const bool is_write_fail = (ferror(fp) != 0);
+  const bool is_close_fail = (fclose(fp) != 0);
+  return !is_write_fail && !is_close_fail;
 }
-- 
2.43.0


From 811702d8cc1a6e9f8fb452391e7d4de6718e579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 22/72] fix: ReadCamera reports truncated files and limits the
 name length

---
 include/delfem2/cvcamera.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/cvcamera.h b/include/delfem2/cvcamera.h
index b621f27..2de22b6 100644
--- a/include/delfem2/cvcamera.h
+++ b/include/delfem2/cvcamera.h
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <fstream>
+#include <iomanip>
 #include <array>
 #include <cassert>
 
@@ -21,17 +22,21 @@ bool ReadCamera(
     const std::string &path_file) {
   std::ifstream fin(path_file);
   if (fin.fail()) { return false; }
-  int ncam;
-  fin >> ncam;
-  aCamera.resize(ncam);
+  aCamera.clear();
+  int ncam = 0;
+  if (!(fin >> ncam) || ncam < 0) { return false; }
   for (int icam = 0; icam < ncam; ++icam) {
     int icam0;
-    fin >> icam0;
-    assert(icam0 == icam);
-    fin >> aCamera[icam].name;
-    for (float &k: aCamera[icam].K) { fin >> k; }
-    for (float &t: aCamera[icam].t) { fin >> t; }
-    for (float &r: aCamera[icam].R) { fin >> r; }
+    CCvCamera cam;
+    fin >> icam0 >> std::setw(sizeof(cam.name)) >> cam.name;
+    for (float &k: cam.K) { fin >> k; }
+    for (float &t: cam.t) { fin >> t; }
+    for (float &r: cam.R) { fin >> r; }
+    if (fin.fail() || icam0 != icam) { // broken or truncated
+      aCamera.clear();
+      return false;
+    }
+    aCamera.push_back(cam);
   }
   return true;
 }
-- 
2.43.0


From 477d2af3e3e54447c52cabaa5b14e0216f793740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 23/72] fix: CCad3D::ReadFile clears the model when the file is
 broken or truncated

---
 include/delfem2/cad3d.cpp | 47 ++++++++++++++++++++++-----------------
 include/delfem2/cad3d.h   |  9 ++++----
 2 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/include/delfem2/cad3d.cpp b/include/delfem2/cad3d.cpp
index 3ba1ba4..1d0f12d 100644
--- a/include/delfem2/cad3d.cpp
+++ b/include/delfem2/cad3d.cpp
@@ -1616,34 +1616,41 @@ void delfem2::CCad3D::WriteFile(std::ofstream &fout) const {
 }
 
 void delfem2::CCad3D::ReadFile(std::ifstream &fin) {
+  Clear();
   int nv = 0;
   fin >> nv;
-  aVertex.resize(nv);
-  for (std::size_t iv = 0; iv < aVertex.size(); ++iv) {
-    unsigned int iv0;
-    fin >> iv0;
-    assert(iv0 == iv);
-    aVertex[iv].ReadFile(fin);
+  for (int iv = 0; iv < nv && fin; ++iv) {
+    int iv0;
+    if (!(fin >> iv0) || iv0 != iv) { fin.setstate(std::ios::failbit); break; }
+    aVertex.emplace_back();
+    aVertex.back().ReadFile(fin);
   }
   ////
-  int ne;
+  int ne = 0;
   fin >> ne;
-  aEdge.resize(ne);
-  for (std::size_t ie = 0; ie < aEdge.size(); ++ie) {
-    unsigned int ie0;
-    fin >> ie0;
-    assert(ie0 == ie);
-    aEdge[ie].ReadFile(fin);
+  for (int ie = 0; ie < ne && fin; ++ie) {
+    int ie0;
+    if (!(fin >> ie0) || ie0 != ie) { fin.setstate(std::ios::failbit); break; }
+    aEdge.emplace_back();
+    aEdge.back().ReadFile(fin);
+    const CCad3D_Edge &e = aEdge.back();
+    if (e.iv0 < 0 || e.iv0 >= nv || e.iv1 < 0 || e.iv1 >= nv) { fin.setstate(std::ios::failbit); }
   }
   ////
-  int nfc;
+  int nfc = 0;
   fin >> nfc;
-  aFace.resize(nfc);
-  for (std::size_t ifc = 0; ifc < aFace.size(); ++ifc) {
-    unsigned int ifc0;
-    fin >> ifc0;
-    assert(ifc0 == ifc);
-    aFace[ifc].ReadFile(fin);
+  for (int ifc = 0; ifc < nfc && fin; ++ifc) {
+    int ifc0;
+    if (!(fin >> ifc0) || ifc0 != ifc) { fin.setstate(std::ios::failbit); break; }
+    aFace.emplace_back();
+    aFace.back().ReadFile(fin);
+    for (const auto &ie : aFace.back().aIE) {
+      if (ie.first >= aEdge.size()) { fin.setstate(std::ios::failbit); }
+    }
+  }
+  if (fin.fail() || nv < 0 || ne < 0 || nfc < 0) { // the file is broken or truncated
+    Clear();
+    return;
   }
   {
     for (auto &iv: aVertex) {
diff --git a/include/delfem2/cad3d.h b/include/delfem2/cad3d.h
index aea84c6..b99e721 100644
--- a/include/delfem2/cad3d.h
+++ b/include/delfem2/cad3d.h
@@ -201,15 +201,14 @@ public:
     }
   }
   void ReadFile(std::ifstream& fin){
-    int nIE;
+    int nIE = 0;
     fin >> nIE;
-    aIE.resize(nIE);
+    aIE.clear();
     for(int iie=0;iie<nIE;++iie){
       int ie0;
       bool flg;
-      fin >> ie0 >> flg;
-      aIE[iie].first = ie0;
-      aIE[iie].second = flg;
+      if( !(fin >> ie0 >> flg) ){ break; }
+      aIE.emplace_back(ie0,flg);
     }
   }
 public:
-- 
2.43.0


From 32256d38bd81d4e269dd831fa3cbffac9c4fd7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 24/72] fix: ReadParam, WriteParam and GetFileContents report
 the state of the stream

---
 include/delfem2/file.cpp | 33 +++++++++++++--------------------
 include/delfem2/file.h   |  3 ++-
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 324496b..239d61d 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <cstdio>
 #include <cstring>
+#include <memory>
 #include <algorithm>
 
 #include "delfem2/file.h"
@@ -84,6 +85,7 @@ DFM2_INLINE std::string delfem2::pathGetExtension(const std::string& fpath)
 DFM2_INLINE std::string delfem2::getPathDir(const std::string& fpath)
 {
   const size_t iloc = fpath.find_last_of('/');
+  if( iloc == std::string::npos ){ return std::string(); } // no directory in the path
   std::string sres = std::string(fpath.begin(),fpath.begin()+iloc);
   return sres;
 }
@@ -98,13 +100,11 @@ DFM2_INLINE bool delfem2::ReadParam(
   fin.open(fname.c_str());
   if( !fin.is_open() ) return false;
   aPara.clear();
-  for(;;){
-    double d;
-    fin >> d;
-    if( fin.eof() ) break;
+  double d;
+  while( fin >> d ){
     aPara.push_back(static_cast<float>(d));
   }
-  return true;
+  return fin.eof() && !fin.bad(); // false if there is something unreadable
 }
 
 // ----------------------
@@ -113,21 +113,14 @@ DFM2_INLINE bool delfem2::GetFileContents(
     std::vector<char>& aC,
     const std::string& fpath)
 {
-  FILE* fp = nullptr;
-  size_t size;
-  
-  fp = fopen(fpath.c_str(), "rb");
-  if (!fp) goto error;
-  fseek(fp, 0, SEEK_END);
-  size = ftell(fp);
-  fseek(fp, 0, SEEK_SET);
-  aC.resize(size+1);
-  if (fread(aC.data(), 1, size, fp) != size) goto error;
+  std::unique_ptr<FILE, int (*)(FILE*)> fp(fopen(fpath.c_str(), "rb"), fclose);
+  if (!fp) return false;
+  if (fseek(fp.get(), 0, SEEK_END) != 0) return false;
+  const long size = ftell(fp.get());
+  if (size < 0) return false;
+  if (fseek(fp.get(), 0, SEEK_SET) != 0) return false;
+  aC.resize(size_t(size)+1);
+  if (fread(aC.data(), 1, size, fp.get()) != (size_t)size) return false;
   aC[size] = '\0';  // Must be null terminated.
-  fclose(fp);
   return true;
-  
-error:
-  if (fp) fclose(fp);
-  return false;
 }
\ No newline at end of file
diff --git a/include/delfem2/file.h b/include/delfem2/file.h
index 9700768..54abb97 100644
--- a/include/delfem2/file.h
+++ b/include/delfem2/file.h
@@ -50,7 +50,8 @@ DFM2_INLINE bool WriteParam(
   for(unsigned int ip=0;ip<aPara.size();++ip){
     fout << aPara[ip] << std::endl;
   }
-  return true;
+  fout.close();
+  return !fout.fail();
 }
 
 DFM2_INLINE std::string LoadFile(
-- 
2.43.0


From ba9b68e34012f6ed41b09aabac4e776ded1d8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 25/72] fix: UnifySeparateIndexing_PosTex starts from empty
 output lists

---
 include/delfem2/msh_topology_uniform.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index bd4981b..b56306b 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -522,7 +522,9 @@ void delfem2::UnifySeparateIndexing_PosTex(
   std::vector<unsigned int> elsup1_ind, elsup1;
   JArray_ElSuP_MeshTri(
       elsup1_ind, elsup1, elem_vtx_tex, vtx_tex.size()/2);
-  tri_uni.resize(elem_vtx_xyz.size(),UINT_MAX);
+  uni_xyz.clear();
+  uni_tex.clear();
+  tri_uni.assign(elem_vtx_xyz.size(),UINT_MAX);
   for(unsigned int itri=0;itri<elem_vtx_xyz.size()/3;++itri){
     for(unsigned int ino=0;ino<3;++ino){
       if( tri_uni[itri*3+ino] != UINT_MAX ) { continue; }
-- 
2.43.0


From 96a095478d3e089ff99c22a61ce03f560f7a3a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 26/72] fix: Str_SVGPolygon returned truncated text when memory
 ran out

---
 include/delfem2/str.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 6a2ccd5..011f04f 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -450,6 +450,7 @@ DFM2_INLINE std::string delfem2::Str_SVGPolygon
   return oss.str();
    */
   std::ostringstream oss;
+  oss.exceptions(std::ios_base::badbit);  // no truncated text when memory runs out
   oss << "<?xml version=\"1.0\"?>\n";
   oss << "<svg xmlns=\"http://www.w3.org/2000/svg\">\n";
   oss << "<polygon points=\"";
-- 
2.43.0


From c532c3ac154146389e9bbe26dde9353dd24d51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 27/72] fix: deleting points renumbers the point-to-triangle
 links with the new indices

---
 include/delfem2/dtri2_v2dtri.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 79764f1..7f0908f 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -577,9 +577,10 @@ DFM2_INLINE void delfem2::DeleteUnrefPoints(
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri_in[itri].v[ifatri];
       assert(map_po_del[ipo] != UINT_MAX);
-      aTri_in[itri].v[ifatri] = map_po_del[ipo];
-      aPo2D[ipo].e = itri;
-      aPo2D[ipo].d = ifatri;
+      const unsigned int ipo1 = map_po_del[ipo];
+      aTri_in[itri].v[ifatri] = ipo1;
+      aPo2D[ipo1].e = itri;
+      aPo2D[ipo1].d = ifatri;
     }
   }
 }
@@ -623,9 +624,11 @@ DFM2_INLINE void delfem2::DeletePointsFlag(
   for (unsigned int itri = 0; itri < aTri.size(); itri++) {
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri[itri].v[ifatri];
-      aTri[itri].v[ifatri] = map01[ipo];
-      aPo1[ipo].e = itri;
-      aPo1[ipo].d = ifatri;
+      const int ipo1 = map01[ipo];
+      assert(ipo1 >= 0 && ipo1 < npo1);
+      aTri[itri].v[ifatri] = ipo1;
+      aPo1[ipo1].e = itri;
+      aPo1[ipo1].d = ifatri;
     }
   }
 }
-- 
2.43.0


From 25d49ac0389925632710247d1986c5cf6523f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 28/72] fix: an edge collapse that runs out of memory leaves
 the dynamic mesh unchanged

---
 include/delfem2/dtri_topology.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/dtri_topology.cpp b/include/delfem2/dtri_topology.cpp
index 01a3c40..9613778 100644
--- a/include/delfem2/dtri_topology.cpp
+++ b/include/delfem2/dtri_topology.cpp
@@ -752,6 +752,7 @@ DFM2_INLINE bool delfem2::CollapseEdge_MeshDTri(
   assert(aTri[itD].v[inoD1] == ipoX);
   assert(aTri[itF].v[inoF1] == ipoZ);
 
+  std::vector<std::pair<unsigned int, unsigned int> > aItIn; // itri, inode
   { // check if elements around ipX and elements around ipZ share common triangles
     std::vector<unsigned int> ring1;
     { // set triangle index from point 0 to point 1
@@ -782,6 +783,7 @@ DFM2_INLINE bool delfem2::CollapseEdge_MeshDTri(
                                ring2.begin(), ring2.end(),
                                insc.begin());
     if (it != insc.begin()) { return false; } // ring1 and ring2 have intersection
+    aItIn.reserve(ring1.size() + 1); // no allocation once the mesh starts changing
   }
 
   assert(oldA.v[inoA1] == oldB.v[inoB2]);
@@ -825,7 +827,6 @@ DFM2_INLINE bool delfem2::CollapseEdge_MeshDTri(
   }
 
   { // set triangle vtx index from ipoZ to ipoX
-    std::vector<std::pair<unsigned int, unsigned int> > aItIn; // itri, inode
     unsigned int jtri = itF;
     unsigned int jnoel_c = inoF1;
     for (;;) { // MoveCCW cannot be used here
-- 
2.43.0


From c221f69d3994cfd4634bd6be8ce7d515f2761f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 29/72] fix: resampling a loop uses the number of points added
 on its own edge

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 18e0956..b381555 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -341,7 +341,7 @@ void delfem2::ResamplingLoop(
       const int ip_loop = loopIP0[iip_loop];
       loopIP1[ivtx0] = ip_loop;
       ivtx0++;
-      for (std::size_t iadd = 0; iadd < aPoInEd[ip_loop].size(); iadd++) {
+      for (std::size_t iadd = 0; iadd < aPoInEd[iip_loop].size(); iadd++) {
         loopIP1[ivtx0] = aPoInEd[iip_loop][iadd];
         ivtx0++;
       }
-- 
2.43.0


From 1b9ca4595a4d372de6f78a8bbe6db86fa939c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 30/72] fix: AddPointsMesh looks on for the triangle of a point
 beyond a boundary edge

---
 include/delfem2/dtri2_v2dtri.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 7f0908f..7c88b10 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -356,6 +356,7 @@ DFM2_INLINE void delfem2::AddPointsMesh
   int itri_in = -1;
   int iedge = -1;
   int iflg1 = 0, iflg2 = 0;
+  bool is_beyond_boundary = false;
   for (unsigned int itri = 0; itri < aTri.size(); itri++) {
     iflg1 = 0;
     iflg2 = 0;
@@ -379,7 +380,10 @@ DFM2_INLINE void delfem2::AddPointsMesh
       const unsigned int ipo_e0 = aTri[itri].v[(ied0 + 1) % 3];
       const unsigned int ipo_e1 = aTri[itri].v[(ied0 + 2) % 3];
       const unsigned int itri_s = aTri[itri].s2[ied0];
-      if (itri_s == UINT_MAX) { return; }
+      if (itri_s == UINT_MAX) { // on or beyond a boundary edge, another triangle may contain the point
+        is_beyond_boundary = true;
+        continue;
+      }
       const unsigned int jno0 = FindAdjEdgeIndex(aTri[itri], ied0, aTri);
       assert(aTri[itri_s].v[(jno0 + 2) % 3] == ipo_e0);
       assert(aTri[itri_s].v[(jno0 + 1) % 3] == ipo_e1);
@@ -397,6 +401,7 @@ DFM2_INLINE void delfem2::AddPointsMesh
       break;
     }
   }
+  if (itri_in == -1 && is_beyond_boundary) { return; }
   if (itri_in == -1) {
     std::cout << "super triangle failure " << iflg1 << " " << iflg2 << std::endl;
     assert(0);
-- 
2.43.0


From b6f407df73ea563f0d77bf76a0770b68ae686525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 31/72] fix: smoothing a triangle mesh keeps a point whose move
 would flip a triangle

---
 include/delfem2/dtri2_v2dtri.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 7c88b10..7165a74 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -36,7 +36,15 @@ DFM2_INLINE bool LaplacianArroundPoint
     if (!MoveCCW(itri0, ino0, UINT_MAX, aTri)) { return false; }
     if (itri0 == aPo[ipoin].e) { break; }
   }
-  aVec2[ipoin] = vec_delta / ntri_around;
+  const CVec2d pos_new = vec_delta / ntri_around;
+  for (;;) { // the point stays if the move flips a triangle around it
+    const CVec2d &p1 = aVec2[aTri[itri0].v[(ino0 + 1) % 3]];
+    const CVec2d &p2 = aVec2[aTri[itri0].v[(ino0 + 2) % 3]];
+    if (!(Area_Tri2(pos_new, p1, p2) > 0.)) { return false; }
+    MoveCCW(itri0, ino0, UINT_MAX, aTri);
+    if (itri0 == aPo[ipoin].e) { break; }
+  }
+  aVec2[ipoin] = pos_new;
   return true;
 }
 
-- 
2.43.0


From 1662f4cb788dffe88e787a68d37797bb5a04f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 32/72] fix: the volume of a point is that of its present
 position when refitted

---
 include/delfem2/srch_bvh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_bvh.h b/include/delfem2/srch_bvh.h
index 2210fe7..c3a7603 100755
--- a/include/delfem2/srch_bvh.h
+++ b/include/delfem2/srch_bvh.h
@@ -174,6 +174,7 @@ public:
   void SetVolume(BBOX& bb,
 	  unsigned int ielem) const {
     assert( ielem < nXYZ );
+    bb.Set_Inactive(); // forget the previous position
     bb.AddPoint(aXYZ+ielem*3, 0.0);
     return;
   }
-- 
2.43.0


From c0526dc474adfa688c96fae01feee1602e99202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 33/72] fix: contact elements of both kinds over the same
 points are kept apart

---
 include/delfem2/srch_selfintersection_bvh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index e56c482..1770bd7 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -234,6 +234,7 @@ public:
   }
   bool operator < (const CContactElement& p2) const
   {
+    if( is_fv != p2.is_fv ){ return is_fv; }
     if( ino0 != p2.ino0 ){ return ino0 < p2.ino0; }
     if( ino1 != p2.ino1 ){ return ino1 < p2.ino1; }
     if( ino2 != p2.ino2 ){ return ino2 < p2.ino2; }
-- 
2.43.0


From f5e39f6c340904c3b54bff276d4c59ba500c549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 34/72] fix: proximity contacts are tested in the box of their
 own triangle

---
 include/delfem2/srch_selfintersection_bvh.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index 1770bd7..d186910 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -296,22 +296,29 @@ void delfem2::GetContactElement_Proximity
     const CVec3d q0(aXYZ[jn0*3+0], aXYZ[jn0*3+1], aXYZ[jn0*3+2]);
     const CVec3d q1(aXYZ[jn1*3+0], aXYZ[jn1*3+1], aXYZ[jn1*3+2]);
     const CVec3d q2(aXYZ[jn2*3+0], aXYZ[jn2*3+1], aXYZ[jn2*3+2]);
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ichild0_0], delta) ){
+    BBOX bbi, bbj; // volumes that contain everything closer than delta
+    bbi.AddPoint(p0.data(), delta);
+    bbi.AddPoint(p1.data(), delta);
+    bbi.AddPoint(p2.data(), delta);
+    bbj.AddPoint(q0.data(), delta);
+    bbj.AddPoint(q1.data(), delta);
+    bbj.AddPoint(q2.data(), delta);
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, bbi, delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn0) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, bbi, delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn1) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, bbi, delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn2) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, bbj, delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in0) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, bbj, delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in1) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, bbj, delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in2) );
     }
     ////
-- 
2.43.0


From 3e68f795922919c43730b326121db9d317ac4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 35/72] fix: top-down BVH construction splits symmetric and
 coincident element sets

---
 include/delfem2/srch_bvh.cpp | 55 ++++--------------------------------
 1 file changed, 6 insertions(+), 49 deletions(-)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index f83f76d..9514041 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -66,9 +66,9 @@ DFM2_INLINE void DevideElemAryConnex(
     double lenx = x_max - x_min;
     double leny = y_max - y_min;
     double lenz = z_max - z_min;
-    if (lenx > leny && lenx > lenz) { dir[0] = 1; }
-    if (leny > lenz && leny > lenx) { dir[1] = 1; }
-    if (lenz > lenx && lenz > leny) { dir[2] = 1; }
+    if (lenx >= leny && lenx >= lenz) { dir[0] = 1; }
+    else if (leny >= lenz) { dir[1] = 1; }
+    else { dir[2] = 1; }
   }
   double org[3] = {(x_min + x_max) * 0.5, (y_min + y_max) * 0.5, (z_min + z_max) * 0.5};
   unsigned int itri_ker = UINT_MAX;
@@ -83,51 +83,8 @@ DFM2_INLINE void DevideElemAryConnex(
     itri_ker = itri0;
     break;
   }
-  if (itri_ker == UINT_MAX) {
-    org[0] = 0;
-    org[1] = 0;
-    org[2] = 0;
-    for (unsigned int itri0: list) { // center of the gravity of list
-      org[0] += aElemCenter[itri0 * 3 + 0];
-      org[1] += aElemCenter[itri0 * 3 + 1];
-      org[2] += aElemCenter[itri0 * 3 + 2];
-    }
-    org[0] = org[0] / static_cast<double>(list.size());
-    org[1] = org[1] / static_cast<double>(list.size());
-    org[2] = org[2] / static_cast<double>(list.size());
-    double mat[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
-    for (unsigned int itri0: list) {
-      const double vcg[3] = {
-          aElemCenter[itri0 * 3 + 0] - org[0],
-          aElemCenter[itri0 * 3 + 1] - org[1],
-          aElemCenter[itri0 * 3 + 2] - org[2]};
-      for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { mat[i][j] += vcg[i] * vcg[j]; }}
-    }
-    dir[0] = 1;
-    dir[1] = 1;
-    dir[2] = 1;
-    for (int i = 0; i < 10; i++) { // power method to find the max eigen value/vector
-      double tmp[3] = {
-          mat[0][0] * dir[0] + mat[0][1] * dir[1] + mat[0][2] * dir[2],
-          mat[1][0] * dir[0] + mat[1][1] * dir[1] + mat[1][2] * dir[2],
-          mat[2][0] * dir[0] + mat[2][1] * dir[1] + mat[2][2] * dir[2]};
-      double len = sqrt(tmp[0] * tmp[0] + tmp[1] * tmp[1] + tmp[2] * tmp[2]);
-      dir[0] = tmp[0] / len;
-      dir[1] = tmp[1] / len;
-      dir[2] = tmp[2] / len;
-    }
-    for (unsigned int itri0: list) {
-      double det = DetSide(aElemCenter.data() + itri0 * 3, org, dir);
-      if (fabs(det) < 1.0e-10) continue;
-      if (det < 0) {
-        dir[0] *= -1;
-        dir[1] *= -1;
-        dir[2] *= -1;
-      }
-      itri_ker = itri0;
-      break;
-    }
-  }
+  const bool is_coincident = (itri_ker == UINT_MAX); // all the centers are at the same position
+  if (is_coincident) { itri_ker = list[0]; } // only this element goes to the child node 0
   const auto inode_ch0 = static_cast<unsigned int>(aNodeBVH.size());
   const auto inode_ch1 = static_cast<unsigned int>(aNodeBVH.size() + 1);
   aNodeBVH.resize(aNodeBVH.size() + 2);
@@ -142,7 +99,7 @@ DFM2_INLINE void DevideElemAryConnex(
     aElem2Node[itri_ker] = inode_ch0;
     list_ch0.push_back(itri_ker);
     std::stack<unsigned int> stack;
-    stack.push(itri_ker);
+    if (!is_coincident) { stack.push(itri_ker); }
     while (!stack.empty()) {
       unsigned int itri0 = stack.top();
       stack.pop();
-- 
2.43.0


From 63e79c425e7ea859f4691e063f074cfebc42e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 36/72] fix: grid interpolation uses the clamped position
 outside the grid

---
 include/delfem2/fdm_array2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fdm_array2.h b/include/delfem2/fdm_array2.h
index 44261aa..3f34b8c 100644
--- a/include/delfem2/fdm_array2.h
+++ b/include/delfem2/fdm_array2.h
@@ -77,8 +77,8 @@ double LinearInterpolationOnGrid2(
   double v10 = data(i + 1, j + 0)[idim];
   double v01 = data(i + 0, j + 1)[idim];
   double v11 = data(i + 1, j + 1)[idim];
-  double rx = x - i;
-  double ry = y - j;
+  double rx = x1 - i;
+  double ry = y1 - j;
   return (1 - rx) * (1 - ry) * v00 + rx * (1 - ry) * v10 + (1 - rx) * ry * v01 + rx * ry * v11;
 }
 
-- 
2.43.0


From 2906b9250a9cd6bb2bb4df6ab90185b3244fe107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 37/72] fix: 3D shape matching uses the deformed z coordinate

---
 include/delfem2/pbd_geo3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/pbd_geo3.cpp b/include/delfem2/pbd_geo3.cpp
index 024e347..1e3e3db 100644
--- a/include/delfem2/pbd_geo3.cpp
+++ b/include/delfem2/pbd_geo3.cpp
@@ -133,7 +133,7 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
       const int ip = clstr[iip];
       const CVec3d dq = CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - qc; // undeform
-      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - pc; // deform
+      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]) - pc; // deform
       A[0 * 3 + 0] += dp[0] * dq[0];
       A[0 * 3 + 1] += dp[0] * dq[1];
       A[0 * 3 + 2] += dp[0] * dq[2];
-- 
2.43.0


From 07648cd50944d21092d7c61adaa1ebd4412fc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 38/72] fix: 3D shape matching accepts clusters that do not
 start at the first point

---
 include/delfem2/pbd_geo3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/pbd_geo3.cpp b/include/delfem2/pbd_geo3.cpp
index 1e3e3db..d497617 100644
--- a/include/delfem2/pbd_geo3.cpp
+++ b/include/delfem2/pbd_geo3.cpp
@@ -121,8 +121,9 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
   for (int iclstr = 0; iclstr < nclstr; ++iclstr) {
     CVec3d pc(0, 0, 0), qc(0, 0, 0);
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
+      assert(iip < nclstr0);
       const int ip = clstr[iip];
-      assert(ip < nclstr0);
+      assert(ip < nXYZ0);
       qc += CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]);
       pc += CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]);
     }
-- 
2.43.0


From 9c7eadfedc6fa1f1571720c6d231e2518e424327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 39/72] fix: the rotation of a 2D matrix with orthogonal
 columns is not zero

---
 include/delfem2/mat2.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 331017a..0bfd846 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -135,12 +135,16 @@ DFM2_INLINE void delfem2::RotationalComponentOfMatrix2(
       d = sqrt(d);
       l0 = 0.5 * (b + d);
       l1 = 0.5 * (b - d);
-      v0[0] = G[1];
-      v0[1] = G[3] - l1;
-      if (lcl::SquareLength2(v0) > eps) { lcl::Normalize2(v0); }
-      v1[0] = G[0] - l0;
-      v1[1] = G[2];
-      if (lcl::SquareLength2(v1) > eps) { lcl::Normalize2(v1); }
+      if (G[0] >= G[3]) { // choose the non-zero column (G can be diagonal)
+        v0[0] = G[0] - l1;
+        v0[1] = G[2];
+      } else {
+        v0[0] = G[1];
+        v0[1] = G[3] - l1;
+      }
+      lcl::Normalize2(v0);
+      v1[0] = -v0[1];
+      v1[1] = +v0[0];
     }
   }
   double V[4] = {v0[0], v1[0], v0[1], v1[1]};
-- 
2.43.0


From 6aaa9d0ca0d4e3981cceb9390692f17b37f9ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 40/72] fix: rigid impact zones use the inertia of the points

---
 include/delfem2/cloth_selfcollision.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/cloth_selfcollision.cpp b/include/delfem2/cloth_selfcollision.cpp
index a2d4a6c..44f3fce 100755
--- a/include/delfem2/cloth_selfcollision.cpp
+++ b/include/delfem2/cloth_selfcollision.cpp
@@ -332,9 +332,9 @@ void ApplyRigidImpactZone
       dfm2::CVec3d v(aUVWm0[ino*3+0],aUVWm0[ino*3+1],aUVWm0[ino*3+2]);
       L += Cross(p-gc,v-av);
       dfm2::CVec3d q = p-gc;
-      I[0] += v.dot(v) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
-      I[3] +=          - q[1]*q[0];  I[4] += v.dot(v) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
-      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += v.dot(v) - q[2]*q[2];
+      I[0] += q.dot(q) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
+      I[3] +=          - q[1]*q[0];  I[4] += q.dot(q) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
+      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += q.dot(q) - q[2]*q[2];
     }
     // 角速度を求める
     double Iinv[9];
-- 
2.43.0


From dbf77bcdfec250d7632198789a1aaed4454a6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 41/72] fix: collision impulses are computed over the time step

---
 include/delfem2/cloth_selfcollision.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/cloth_selfcollision.cpp b/include/delfem2/cloth_selfcollision.cpp
index 44f3fce..60265db 100755
--- a/include/delfem2/cloth_selfcollision.cpp
+++ b/include/delfem2/cloth_selfcollision.cpp
@@ -144,17 +144,17 @@ void SelfCollisionImpulse_CCD(
     {
       bool res = FindCoplanerInterp(
           t,
-          p0,p1,p2,p3, p0+v0,p1+v1,p2+v2,p3+v3);
+          p0,p1,p2,p3, p0+dt*v0,p1+dt*v1,p2+dt*v2,p3+dt*v3);
       if( !res ) continue;
       assert( t >= 0 && t <= 1 );
     }
     if( ce.is_fv ){ // face-vtx
       double w0,w1;
       {        
-        dfm2::CVec3d p0m = p0 + t*v0;
-        dfm2::CVec3d p1m = p1 + t*v1;
-        dfm2::CVec3d p2m = p2 + t*v2;
-        dfm2::CVec3d p3m = p3 + t*v3;
+        dfm2::CVec3d p0m = p0 + t*dt*v0;
+        dfm2::CVec3d p1m = p1 + t*dt*v1;
+        dfm2::CVec3d p2m = p2 + t*dt*v2;
+        dfm2::CVec3d p3m = p3 + t*dt*v3;
         double dist = DistanceFaceVertex(p0m, p1m, p2m, p3m, w0,w1);
         if( w0 < 0 || w0 > 1 ) continue;
         if( w1 < 0 || w1 > 1 ) continue;
@@ -185,10 +185,10 @@ void SelfCollisionImpulse_CCD(
     else{ // edge-edge
       double w01,w23;
       {
-        dfm2::CVec3d p0m = p0 + t*v0;
-        dfm2::CVec3d p1m = p1 + t*v1;
-        dfm2::CVec3d p2m = p2 + t*v2;
-        dfm2::CVec3d p3m = p3 + t*v3;
+        dfm2::CVec3d p0m = p0 + t*dt*v0;
+        dfm2::CVec3d p1m = p1 + t*dt*v1;
+        dfm2::CVec3d p2m = p2 + t*dt*v2;
+        dfm2::CVec3d p3m = p3 + t*dt*v3;
         double dist = Distance_Edge3_Edge3(p0m, p1m, p2m, p3m, w01, w23);
         if( w01 < 0 || w01 > 1 ) continue;
         if( w23 < 0 || w23 > 1 ) continue;
-- 
2.43.0


From b0c2537249a2668a0c05d3aebbb3efba845527a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 42/72] fix: an isolated vertex loop of a CAD face includes
 only its own vertex

---
 include/delfem2/cadtopo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index d329f52..886ee62 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -59,7 +59,7 @@ class CadTopo_Loop {
       const std::vector<CadTopo_Edge> &edges) const {
     if( iv != UINT_MAX ){
       assert( aIE.empty() );
-      return true;
+      return ivtx == iv;
     }
     for (auto [ie0,dir] : aIE) {
       assert( ie0 < edges.size() );
-- 
2.43.0


From 0ab428be06db5ca6b5bb09f3f0f157d9a98b23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 43/72] fix: CadTopo::VertexIndexs_Face reads the loops of the
 face, not the loop with the index of the face

---
 include/delfem2/cadtopo.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index 886ee62..82c9945 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -201,7 +201,13 @@ public:
       unsigned int iface) const
   {
     assert(iface < faces.size());
-    return loops[iface].GetArray_IdVertex(this->edges);
+    std::vector<unsigned int> res;
+    for(unsigned int il : faces[iface].aIL) {
+      if( loops[il].iv != UINT_MAX ) { res.push_back(loops[il].iv); }
+      const std::vector<unsigned int> aIdV = loops[il].GetArray_IdVertex(this->edges);
+      res.insert( res.end(), aIdV.begin(), aIdV.end() );
+    }
+    return res;
   }
 
   std::vector<std::pair<unsigned int,bool> > EdgeIndexes_Face(unsigned int iface) const
-- 
2.43.0


From b47fee550b6dd951d72d6411605735832507534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 44/72] fix: dragging a CAD face moves the vertices of that
 face

---
 include/delfem2/cad2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index c23121f..3516769 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -437,7 +437,7 @@ DFM2_INLINE void delfem2::Cad2_Ui::DragPicked(
     return;
   }
   if (iface_picked < cad.topo.faces.size()) {
-    std::vector<unsigned int> aIdV = cad.topo.loops[iface_picked].GetArray_IdVertex(cad.topo.edges);
+    std::vector<unsigned int> aIdV = cad.topo.VertexIndexs_Face(iface_picked);
     for (unsigned int iv1: aIdV) {
       cad.aVtx[iv1].pos.p[0] += p1x - p0x;
       cad.aVtx[iv1].pos.p[1] += p1y - p0y;
-- 
2.43.0


From d892b4fa4f16d399bc23600a15e7b090fc1c8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 45/72] fix: InvertLoop keeps the control point of quadratic
 edges

---
 include/delfem2/cad2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index 3516769..5506455 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -269,6 +269,10 @@ DFM2_INLINE std::vector<delfem2::CCad2D_EdgeGeo> delfem2::InvertLoop(
       eo.param[1] = (pB - eo.p0).y;
       eo.param[2] = (pA - eo.p1).x;
       eo.param[3] = (pA - eo.p1).y;
+    } else if (ei.type_edge == CCad2D_EdgeGeo::BEZIER_QUADRATIC) {
+      CVec2d pC = ei.p0 + CVec2d(ei.param[0], ei.param[1]);
+      eo.param[0] = (pC - eo.p0).x;
+      eo.param[1] = (pC - eo.p0).y;
     }
   }
   return aEdgeOut;
-- 
2.43.0


From b6d12bb57c1d2b7a8cb0c72242ebb9f90026612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 46/72] fix: dragging a handle of a cubic CAD edge puts the
 control point under the cursor

---
 include/delfem2/cad2.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index 5506455..7f4da83 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -426,14 +426,12 @@ DFM2_INLINE void delfem2::Cad2_Ui::DragPicked(
       CCad2D_EdgeGeo &edge = cad.aEdge[iedge_picked];
       if (edge.type_edge == 1) {
         assert(edge.param.size() == 4);
-        const CVec2d lx = (edge.p1 - edge.p0).normalized();
-        const CVec2d ly = CVec2d(lx.y, -lx.x);
         if (ipicked_elem == 1) {
-          edge.param[0] = (CVec2d(p1x, p1y) - edge.p0).dot(lx);
-          edge.param[1] = (CVec2d(p1x, p1y) - edge.p0).dot(ly);
+          edge.param[0] = p1x - edge.p0.x;
+          edge.param[1] = p1y - edge.p0.y;
         } else if (ipicked_elem == 2) {
-          edge.param[2] = (CVec2d(p1x, p1y) - edge.p1).dot(lx);
-          edge.param[3] = (CVec2d(p1x, p1y) - edge.p1).dot(ly);
+          edge.param[2] = p1x - edge.p1.x;
+          edge.param[3] = p1y - edge.p1.y;
         }
       }
     }
-- 
2.43.0


From 8e2ff1cddd6c4a9f722828c0c5111acc45a96432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 47/72] fix: WdWddW_Bend: the energy is the one whose
 derivative it returns

---
 include/delfem2/fem_quadratic_bending.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_quadratic_bending.cpp b/include/delfem2/fem_quadratic_bending.cpp
index 3cdcc3e..549fd4f 100644
--- a/include/delfem2/fem_quadratic_bending.cpp
+++ b/include/delfem2/fem_quadratic_bending.cpp
@@ -101,7 +101,7 @@ DFM2_INLINE void delfem2::WdWddW_Bend(
           dW[ino][idim] += ddW[ino][jno][idim][jdim] * c[jno][jdim];
         }
       }
-      W += dW[ino][idim] * c[ino][idim];
+      W += 0.5 * dW[ino][idim] * c[ino][idim];
     }
   }
 }
-- 
2.43.0


From 03e73b40bda6cd5bf034b795615bad2ce1b7573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 48/72] fix: MakePositiveDefinite_Sim22 keeps the tensile
 eigenvector of an indefinite stress

---
 include/delfem2/fem_stvk.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/fem_stvk.cpp b/include/delfem2/fem_stvk.cpp
index cc44675..5f9b972 100644
--- a/include/delfem2/fem_stvk.cpp
+++ b/include/delfem2/fem_stvk.cpp
@@ -243,9 +243,10 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t0 = 1.0/sqrt(sqlen_t0);
     t0[0] *= invlen_t0;
     t0[1] *= invlen_t0;
-    s3[0] = l*t0[0]*t0[0];
-    s3[1] = l*t0[1]*t0[1];
-    s3[2] = l*t0[0]*t0[1];
+    // t0 is orthogonal to the eigenvector of l
+    s3[0] = +l*t0[1]*t0[1];
+    s3[1] = +l*t0[0]*t0[0];
+    s3[2] = -l*t0[0]*t0[1];
   }
   else{
     if( sqlen_t1 < 1.0e-20 ){
@@ -257,9 +258,10 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t1 = 1.0/sqrt(sqlen_t1);
     t1[0] *= invlen_t1;
     t1[1] *= invlen_t1;
-    s3[0] = l*t1[0]*t1[0];
-    s3[1] = l*t1[1]*t1[1];
-    s3[2] = l*t1[0]*t1[1];
+    // t1 is orthogonal to the eigenvector of l
+    s3[0] = +l*t1[1]*t1[1];
+    s3[1] = +l*t1[0]*t1[0];
+    s3[2] = -l*t1[0]*t1[1];
   }
 }
 
-- 
2.43.0


From 21942e98642dc385d76dba407bafc40ba51718a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 49/72] fix: JArray_AddMasterSlavePattern makes room for slaves
 away from their master and for several masters

---
 include/delfem2/ls_masterslave.cpp | 92 ++++++------------------------
 1 file changed, 19 insertions(+), 73 deletions(-)

diff --git a/include/delfem2/ls_masterslave.cpp b/include/delfem2/ls_masterslave.cpp
index 2f69c15..ffbdde8 100755
--- a/include/delfem2/ls_masterslave.cpp
+++ b/include/delfem2/ls_masterslave.cpp
@@ -52,88 +52,34 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
   std::vector<unsigned int> aflg(nno,UINT_MAX);
   //
   for(unsigned int ino0=0;ino0<nno;++ino0){
-    aflg[ino0] = ino0;
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
+    const unsigned int ind0 = static_cast<unsigned int>(array.size());
+    auto add = [&](unsigned int jno){ // each point once, without the diagonal
+      if( aflg[jno] == ino0 ){ return; }
       aflg[jno] = ino0;
-      index[ino0+1]++;
-    }
-    for(int iino1=0;iino1<(int)mapM2S[ino0].size();++iino1){
-      const int ino1 = mapM2S[ino0][iino1];
-      if( aflg[ino1] != ino0 ){
-        aflg[ino1] = ino0;
-        index[ino0+1]++;
-      }
-      for(unsigned int jcrs=psup_ind0[ino1];jcrs<psup_ind0[ino1+1];++jcrs){
-        const unsigned int jno1 = psup0[jcrs];
-        if( aflg[jno1] == ino0 ){ continue; }
-        aflg[jno1] = ino0;
-        index[ino0+1]++;
-      }
-    }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
+      array.push_back(jno);
+    };
+    auto addMaster = [&](unsigned int jno){
       for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        index[ino0+1]++;
+        const unsigned int kdof = aMSFlag[jno*ndim+jdim];
+        if( kdof != UINT_MAX ){ add(kdof/ndim); }
       }
-    }
-  }
-  //
-  for(unsigned int ino=0;ino<nno;ino++){ index[ino+1] += index[ino]; }
-  const unsigned int narray = index[nno];
-  array.resize(narray);
-  for(unsigned int ino=0;ino<nno;ino++){ aflg[ino] = -1; }
-  //
-  for(unsigned int ino0=0;ino0<nno;++ino0){
+    };
     aflg[ino0] = ino0;
     for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      const unsigned int ind = index[ino0];
-      array[ind] = jno;
-      index[ino0]++;
-    }
-    for(std::size_t jjno=0;jjno<mapM2S[ino0].size();++jjno){
-      const int jno = mapM2S[ino0][jjno];
-      if( aflg[jno] != ino0 ){
-        aflg[jno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = jno;
-        index[ino0]++;
-      }
-      for(unsigned int jcrs=psup_ind0[jno];jcrs<psup_ind0[jno+1];++jcrs){
-        const unsigned int kno = psup0[jcrs];
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
+      add(psup0[icrs]);
     }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
+    for(int ino1 : mapM2S[ino0]){ // row of the slave is added to the row of the master
+      add(ino1);
+      for(unsigned int jcrs=psup_ind0[ino1];jcrs<psup_ind0[ino1+1];++jcrs){
+        add(psup0[jcrs]);
       }
     }
+    // column of the slave is added to the column of the master
+    const unsigned int ind1 = static_cast<unsigned int>(array.size());
+    addMaster(ino0);
+    for(unsigned int ind=ind0;ind<ind1;++ind){ addMaster(array[ind]); }
+    index[ino0+1] = static_cast<unsigned int>(array.size());
   }
-  // ---------
-  for(int ino=static_cast<int>(nno);ino>0;--ino){ index[ino] = index[ino-1]; }
-  index[0] = 0;
 }
 
 
-- 
2.43.0


From 0b1cc22f7f9d8852fa6040f8041edfe060a0c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 50/72] fix: BiCGStab returns the answer when half a step
 already reaches it

---
 include/delfem2/vecxitrsol.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 84d79fa..cca41c2 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -247,7 +247,7 @@ std::vector<REAL> Solve_BiCGStab(
     { // omega = ({As},{s}) / ({As},{As})
       const double denominator = Dot(As_vec, As_vec);
       const double numerator = Dot(As_vec, s_vec);
-      omega = numerator / denominator;
+      omega = (denominator != 0.) ? numerator / denominator : 0.; // zero if {s} is already zero
     }
     // ix += alpha*{p} + omega*{s} (update solution)
     AXPY(alpha, p_vec, x_vec);
@@ -410,7 +410,7 @@ std::vector<double> Solve_PBiCGStab(
     {  // calc omega
       const double denominator = Dot(AMs_vec,AMs_vec);
       const double numerator = Dot(s_vec,AMs_vec);
-      omega = numerator / denominator;
+      omega = (denominator != 0.) ? numerator / denominator : 0.; // zero if {s} is already zero
     }
     AXPY(alpha,Mp_vec.data(),x_vec,ndof);
     AXPY(omega,Ms_vec.data(),x_vec,ndof);
-- 
2.43.0


From 9cc3e9acc7549833eab50efe634e67dc8f69f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 51/72] fix: StepTime_InternalDynamics passes its right-hand
 side and unknowns to the solver in that order

---
 include/delfem2/cloth_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/cloth_internal.h b/include/delfem2/cloth_internal.h
index ecdca65..255f5e2 100755
--- a/include/delfem2/cloth_internal.h
+++ b/include/delfem2/cloth_internal.h
@@ -165,7 +165,7 @@ void StepTime_InternalDynamics(
     auto vs = delfem2::ViewAsVectorXd(tmp0);
     auto vt = delfem2::ViewAsVectorXd(tmp1);
     Solve_CG(
-        vx,vb,vs,vt,
+        vb,vx,vs,vt,
         conv_ratio, iteration, mat_A);
   }
   std::cout << "  conv_ratio:" << conv_ratio << "  iteration:" << iteration << std::endl;
-- 
2.43.0


From f914c7c188dee60a9e16a3718674bc4d3c737c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 52/72] fix: cloth stepping reads its boundary flags per degree
 of freedom; fixed velocities stay zero

---
 include/delfem2/cloth_internal.h | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/include/delfem2/cloth_internal.h b/include/delfem2/cloth_internal.h
index 255f5e2..046617d 100755
--- a/include/delfem2/cloth_internal.h
+++ b/include/delfem2/cloth_internal.h
@@ -146,11 +146,9 @@ void StepTime_InternalDynamics(
     mat_A.val_dia_[ip*9+2*3+2] += mass_point / (dt*dt);
   }
   mat_A.SetFixedBC(aBCFlag.data());
-  for(unsigned int ip=0;ip<np;ip++){
-    if( aBCFlag[ip] == 0 ) continue;
-    vec_b[ip*3+0] = 0;
-    vec_b[ip*3+1] = 0;
-    vec_b[ip*3+2] = 0;
+  for(unsigned int i=0;i<nDof;i++){
+    if( aBCFlag[i] == 0 ) continue;
+    vec_b[i] = 0;
   }
   // solve linear system
   std::vector<double> vec_x;
@@ -315,16 +313,9 @@ void UpdateIntermidiateVelocity
   W += AddWdW_Gravity(dW,
                       aXYZ,
                       gravity,mass_point);
-  for(unsigned int ip=0;ip<np;ip++){
-    if( aBCFlag[ip] == 0 ) continue;
-    aUVW[ip*3+0] = 0;
-    aUVW[ip*3+1] = 0;
-    aUVW[ip*3+2] = 0;
-  }
-  for(unsigned int ip=0;ip<np;ip++){
-    aUVW[ip*3+0] += -(0.5*dt/mass_point)*dW[ip*3+0];
-    aUVW[ip*3+1] += -(0.5*dt/mass_point)*dW[ip*3+1];
-    aUVW[ip*3+2] += -(0.5*dt/mass_point)*dW[ip*3+2];
+  for(unsigned int i=0;i<nDof;i++){
+    if( aBCFlag[i] != 0 ){ aUVW[i] = 0; continue; }
+    aUVW[i] += -(0.5*dt/mass_point)*dW[i];
   }
 }
 
-- 
2.43.0


From 9917e1b96271a95fee7c653ca8d219c83d67d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 53/72] fix: tell the camera-change callbacks about zooming
 with the page keys

---
 include/delfem2/glfw/viewer3.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/glfw/viewer3.cpp b/include/delfem2/glfw/viewer3.cpp
index 7ac08b6..17538f1 100644
--- a/include/delfem2/glfw/viewer3.cpp
+++ b/include/delfem2/glfw/viewer3.cpp
@@ -40,8 +40,10 @@ static void glfw_callback_key(
   if (action == GLFW_PRESS) {
     ::delfem2::CMouseInput& nav = pViewer3->nav;
     nav.imodifier = mods;
-    if (key == GLFW_KEY_PAGE_UP) { pViewer3->scale *= 1.03; }
-    if (key == GLFW_KEY_PAGE_DOWN) { pViewer3->scale *= (1.0 / 1.03); }
+    if (key == GLFW_KEY_PAGE_UP || key == GLFW_KEY_PAGE_DOWN) {
+      pViewer3->scale *= (key == GLFW_KEY_PAGE_UP) ? 1.03 : (1.0 / 1.03);
+      for(const auto& func : pViewer3->camerachange_callbacks){ func(); }
+    }
     pViewer3->key_press(key, mods);
     for(const auto& func : pViewer3->keypress_callbacks){ func(key, mods); }
   } else if (action == GLFW_RELEASE) { pViewer3->key_release(key, mods);
-- 
2.43.0


From e60ba7319f1f8f9a2651294511865980a56afca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 54/72] fix: set the viewport of the window that was resized

---
 include/delfem2/glfw/viewer2.cpp | 3 ++-
 include/delfem2/glfw/viewer3.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/glfw/viewer2.cpp b/include/delfem2/glfw/viewer2.cpp
index fb172b4..471374c 100644
--- a/include/delfem2/glfw/viewer2.cpp
+++ b/include/delfem2/glfw/viewer2.cpp
@@ -47,7 +47,8 @@ static void glfw_callback_key(
 }
 
 static void glfw_callback_resize(
-    [[maybe_unused]] GLFWwindow *window, int width, int height) {
+    GLFWwindow *window, int width, int height) {
+  glfwMakeContextCurrent(window); // the resized window is not always the one drawn last
   glViewport(0, 0, width, height);
 }
 
diff --git a/include/delfem2/glfw/viewer3.cpp b/include/delfem2/glfw/viewer3.cpp
index 17538f1..4ca81e9 100644
--- a/include/delfem2/glfw/viewer3.cpp
+++ b/include/delfem2/glfw/viewer3.cpp
@@ -52,8 +52,9 @@ static void glfw_callback_key(
 }
 
 static void glfw_callback_resize(
-    [[maybe_unused]] GLFWwindow *window,
+    GLFWwindow *window,
     int width, int height) {
+  glfwMakeContextCurrent(window); // the resized window is not always the one drawn last
   glViewport(0, 0, width, height);
 }
 
-- 
2.43.0


From eff0b4356c9f311fa31a655232482154f982517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 55/72] fix: keep the view while its window has no area

---
 include/delfem2/glfw/viewer2.cpp | 8 ++++++--
 include/delfem2/glfw/viewer3.cpp | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/glfw/viewer2.cpp b/include/delfem2/glfw/viewer2.cpp
index 471374c..0d9a35b 100644
--- a/include/delfem2/glfw/viewer2.cpp
+++ b/include/delfem2/glfw/viewer2.cpp
@@ -65,7 +65,9 @@ static void glfw_callback_mouse_button(
   int width, height;
   glfwGetWindowSize(window, &width, &height);
   //const float asp = static_cast<float>(width) / static_cast<float>(height);
-  {
+  const bool is_area = width > 0 && height > 0;  // false if the window is minimised
+  if (action == GLFW_PRESS && !is_area) { return; }  // nothing to press
+  if (is_area) {
     ::delfem2::CMouseInput &nav = pViewer2->nav;
     nav.imodifier = mods;
     double x, y;
@@ -105,6 +107,7 @@ static void glfw_callback_cursor_position(
   assert(pViewer2 != nullptr);
   int width, height;
   glfwGetWindowSize(window, &width, &height);
+  if (width <= 0 || height <= 0) { return; }  // the window is minimised
   const float asp = static_cast<float>(width) / static_cast<float>(height);
   { // update nav
     ::delfem2::CMouseInput &nav = pViewer2->nav;
@@ -232,7 +235,8 @@ void delfem2::glfw::CViewer2::ExitIfClosed() const {
 std::array<float,16> delfem2::glfw::CViewer2::GetProjectionMatrix() const {
   int w0, h0;
   glfwGetWindowSize(window, &w0, &h0);
-  float asp = static_cast<float>(w0)/h0;
+  const bool is_area = w0 > 0 && h0 > 0;  // false if the window is minimised
+  const float asp = is_area ? static_cast<float>(w0) / static_cast<float>(h0) : 1.f;
   std::array<float,16> m;
   const float si = view_height / scale;
   delfem2::Mat4_AffineProjectionOrtho(
diff --git a/include/delfem2/glfw/viewer3.cpp b/include/delfem2/glfw/viewer3.cpp
index 4ca81e9..822d1c8 100644
--- a/include/delfem2/glfw/viewer3.cpp
+++ b/include/delfem2/glfw/viewer3.cpp
@@ -72,6 +72,7 @@ static void glfw_callback_mouse_button(
   int width, height;
   glfwGetWindowSize(window, &width, &height);
   if (action == GLFW_PRESS) {  // "press callback"
+    if (width <= 0 || height <= 0) { return; }  // nothing to press in a window without area
     {
       ::delfem2::CMouseInput &nav = pViewer3->nav;
       nav.imodifier = mods;
@@ -136,7 +137,8 @@ std::array<float,16> delfem2::glfw::CViewer3::GetProjectionMatrix() const {
   int w0, h0;
   glfwGetWindowSize(window, &w0, &h0);
   const CMat4f mS = CMat4f::AffineScale((float)scale);
-  const float asp = static_cast<float>(w0) / static_cast<float>(h0);
+  const bool is_area = w0 > 0 && h0 > 0;  // false if the window is minimised
+  const float asp = is_area ? static_cast<float>(w0) / static_cast<float>(h0) : 1.f;
   const CMat4f mP = projection->GetMatrix(asp);
   return mP * mS;
 }
@@ -144,6 +146,7 @@ std::array<float,16> delfem2::glfw::CViewer3::GetProjectionMatrix() const {
 void delfem2::glfw::CViewer3::CursorPosition(double xpos, double ypos) {
   int width0, height0;
   glfwGetWindowSize(window, &width0, &height0);
+  if (width0 <= 0 || height0 <= 0) { return; }  // the window is minimised
   { // update nav
     const double mov_end_x = (2.0 * xpos - width0) / width0;
     const double mov_end_y = (height0 - 2.0 * ypos) / height0;
-- 
2.43.0


From fe35693e67caf9b81d4089fac57636e8598c0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 56/72] fix: pan the 2D viewer by the height of its view

---
 include/delfem2/glfw/viewer2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/glfw/viewer2.cpp b/include/delfem2/glfw/viewer2.cpp
index 0d9a35b..b6ba3f5 100644
--- a/include/delfem2/glfw/viewer2.cpp
+++ b/include/delfem2/glfw/viewer2.cpp
@@ -120,7 +120,7 @@ static void glfw_callback_cursor_position(
   }
   if (pViewer2->nav.ibutton == GLFW_MOUSE_BUTTON_LEFT && pViewer2->nav.imodifier == GLFW_MOD_SHIFT) {
     ::delfem2::CMouseInput &nav = pViewer2->nav;
-    const float si = 1.f / pViewer2->scale;
+    const float si = pViewer2->view_height / pViewer2->scale;
     pViewer2->trans[0] += static_cast<float>(nav.dx) * asp * si;
     pViewer2->trans[1] += static_cast<float>(nav.dy) * si;
     return;
-- 
2.43.0


From df5a5b9bbbb3c1f2902b12c7b582b60565ebff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 57/72] fix: always pivot when inverting a 4x4 matrix

---
 include/delfem2/mat4.cpp | 42 ++--------------------------------------
 1 file changed, 2 insertions(+), 40 deletions(-)

diff --git a/include/delfem2/mat4.cpp b/include/delfem2/mat4.cpp
index 9b9feb2..2c3e3d4 100644
--- a/include/delfem2/mat4.cpp
+++ b/include/delfem2/mat4.cpp
@@ -14,39 +14,6 @@
 
 namespace delfem2::mat4 {
 
-template<typename REAL>
-DFM2_INLINE void CalcInvMat(
-    REAL *a,
-    const unsigned int n,
-    int &info) {
-  REAL tmp1;
-
-  info = 0;
-  for (unsigned int i = 0; i < n; i++) {
-    if (fabs(a[i * n + i]) < 1.0e-30) {
-      info = 1;
-      return;
-    }
-    if (a[i * n + i] < 0.0) {
-      info--;
-    }
-    tmp1 = 1 / a[i * n + i];
-    a[i * n + i] = 1.0;
-    for (unsigned int k = 0; k < n; k++) {
-      a[i * n + k] *= tmp1;
-    }
-    for (unsigned int j = 0; j < n; j++) {
-      if (j != i) {
-        tmp1 = a[j * n + i];
-        a[j * n + i] = 0.0;
-        for (unsigned int k = 0; k < n; k++) {
-          a[j * n + k] -= tmp1 * a[i * n + k];
-        }
-      }
-    }
-  }
-}
-
 template<typename REAL>
 bool CalcInvMatPivot(REAL *a, unsigned int n, unsigned int *tmp) {
   unsigned int *row = tmp;
@@ -746,13 +713,8 @@ DFM2_INLINE void delfem2::Inverse_Mat4(
     REAL minv[16],
     const REAL m[16]) {
   for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-  int info;
-  mat4::CalcInvMat(minv, 4, info);
-  if (info != 0) {
-    for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-    unsigned int tmp[4];
-    mat4::CalcInvMatPivot(minv, 4, tmp);
-  }
+  unsigned int tmp[4];
+  mat4::CalcInvMatPivot(minv, 4, tmp);  // a small diagonal entry ruins the inverse without pivoting
 }
 #ifdef DFM2_STATIC_LIBRARY
 template void delfem2::Inverse_Mat4(float minv[], const float m[]);
-- 
2.43.0


From 7306d1cf4bd53fa3ebaacb778a66dfee9b8ac71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 58/72] fix: the rig gizmo acts on the bones' current pose,
 with or without a frame in between

---
 include/delfem2/glfw/ViewRig.h | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/glfw/ViewRig.h b/include/delfem2/glfw/ViewRig.h
index b94c9b0..5560976 100644
--- a/include/delfem2/glfw/ViewRig.h
+++ b/include/delfem2/glfw/ViewRig.h
@@ -31,6 +31,7 @@ public:
     if (mode_edit == ROT) {
       const CVec3d s0(src), d0(dir);
       if (ipicked_bone != -1) {
+        PlaceRotationGizmo(aBone);
         gizmo_rot.Pick(true, src, dir, 0.03);
         if (gizmo_rot.ielem_picked != -1) {
           return;
@@ -43,16 +44,10 @@ public:
         double len01 = (p0 - p1).norm();
         if (len01 < 0.03) {
           ipicked_bone = ib;
-          gizmo_rot.quat[0] = aBone[ipicked_bone].quatRelativeRot[0];
-          gizmo_rot.quat[1] = aBone[ipicked_bone].quatRelativeRot[1];
-          gizmo_rot.quat[2] = aBone[ipicked_bone].quatRelativeRot[2];
-          gizmo_rot.quat[3] = aBone[ipicked_bone].quatRelativeRot[3];
         }
       }
     } else if (mode_edit == TRNSL) {
-      gizmo_trnsl.pos[0] = aBone[0].transRelative[0];
-      gizmo_trnsl.pos[1] = aBone[0].transRelative[1];
-      gizmo_trnsl.pos[2] = aBone[0].transRelative[2];
+      PlaceTranslationGizmo(aBone);
       gizmo_trnsl.Pick(true, src, dir, 0.03);
     }
   }
@@ -62,8 +57,8 @@ public:
     if (mode_edit == ROT) {
       if (ipicked_bone == -1) { return false; }
       assert(ipicked_bone >= 0 && ipicked_bone < (int) aBone.size());
-      const delfem2::CVec3d hoge = aBone[ipicked_bone].RootPosition();
-      gizmo_rot.pos = hoge.cast<float>();
+      if (gizmo_rot.ielem_picked == -1) { return false; }
+      PlaceRotationGizmo(aBone);
       gizmo_rot.Drag(src0, src1, dir);
       {
         const int ibp = aBone[ipicked_bone].ibone_parent;
@@ -79,6 +74,8 @@ public:
       UpdateBoneRotTrans(aBone);
       return true;
     } else if (mode_edit == TRNSL) {
+      if (gizmo_trnsl.ielem_picked == -1) { return false; }
+      PlaceTranslationGizmo(aBone);
       gizmo_trnsl.Drag(src0, src1, dir);
       aBone[0].transRelative[0] = gizmo_trnsl.pos.x;
       aBone[0].transRelative[1] = gizmo_trnsl.pos.y;
@@ -89,6 +86,22 @@ public:
     return false;
   }
 
+  // put the gizmos where the bones are, whether or not a frame was drawn since the bones moved
+  void PlaceRotationGizmo(const std::vector<CRigBone> &aBone) {
+    const CVec3d pos0 = aBone[ipicked_bone].RootPosition();
+    gizmo_rot.pos = pos0.cast<float>();
+    CMat3d m3;
+    m3.SetMat4(aBone[ipicked_bone].affmat3Global);
+    const CQuatd qg = m3.GetQuaternion();
+    qg.CopyTo(gizmo_rot.quat);
+  }
+
+  void PlaceTranslationGizmo(const std::vector<CRigBone> &aBone) {
+    gizmo_trnsl.pos[0] = aBone[0].transRelative[0];
+    gizmo_trnsl.pos[1] = aBone[0].transRelative[1];
+    gizmo_trnsl.pos[2] = aBone[0].transRelative[2];
+  }
+
   // --------
   void SetSize(double size) {
     gizmo_rot.size = size;
-- 
2.43.0


From 59c36bf41c6f25fed72feb1bc1c516fac73c2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 59/72] fix: decide parallel lines by the size of a real
 determinant, not its integer part

---
 include/delfem2/geo_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 1d0e64d..c3b1abe 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -328,7 +328,7 @@ void delfem2::Nearest_Edge3_Line3(
   Nearest_Line3_Line3(
     D0, Da0, Db0, Dta0, Dtb0,
     lineseg_start, lineseg_end - lineseg_start, line_origin, line_direction);
-  if (abs(D0) < 1.0e-10) { // pararell
+  if (fabs(D0) < 1.0e-10) { // pararell
     nearest_lineseg = (lineseg_start + lineseg_end) * static_cast<T>(0.5);
     nearest_line = ::delfem2::Nearest_Line3_Point3<VEC>(
       nearest_lineseg, line_origin, line_direction);
-- 
2.43.0


From 039be787a4d1a72bf1de446f16062a0579901cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 60/72] fix: surface samplers accept draws on a boundary
 between triangles

---
 include/delfem2/sampler_trimesh.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/sampler_trimesh.h b/include/delfem2/sampler_trimesh.h
index b7bcfba..6238eab 100644
--- a/include/delfem2/sampler_trimesh.h
+++ b/include/delfem2/sampler_trimesh.h
@@ -40,14 +40,14 @@ class RandomSamplingOnMeshTri3 {
     double a0 = val01 * cumulative_area_sum[ntri];
     unsigned int itri_l = 0, itri_u = ntri;
     for (;;) {
-      assert(cumulative_area_sum[itri_l] < a0);
+      assert(cumulative_area_sum[itri_l] <= a0);
       assert(a0 < cumulative_area_sum[itri_u]);
       unsigned int itri_h = (itri_u + itri_l) / 2;
       if (itri_u - itri_l == 1) { break; }
-      if (cumulative_area_sum[itri_h] < a0) { itri_l = itri_h; }
+      if (cumulative_area_sum[itri_h] <= a0) { itri_l = itri_h; }
       else { itri_u = itri_h; }
     }
-    assert(cumulative_area_sum[itri_l] < a0);
+    assert(cumulative_area_sum[itri_l] <= a0);
     assert(a0 < cumulative_area_sum[itri_l + 1]);
     double r0 = (a0 - cumulative_area_sum[itri_l]) / (cumulative_area_sum[itri_l + 1] - cumulative_area_sum[itri_l]);
     double r1 = dist_01(rndeng);
@@ -97,14 +97,14 @@ class RandomSamplingOnMeshTri3Selective {
     double a0 = val01 * cumulative_area_sum[num_flaggedtri];
     unsigned int itri_l = 0, itri_u = num_flaggedtri;
     for (;;) {
-      assert(cumulative_area_sum[itri_l] < a0);
+      assert(cumulative_area_sum[itri_l] <= a0);
       assert(a0 < cumulative_area_sum[itri_u]);
       unsigned int itri_h = (itri_u + itri_l) / 2;
       if (itri_u - itri_l == 1) { break; }
-      if (cumulative_area_sum[itri_h] < a0) { itri_l = itri_h; }
+      if (cumulative_area_sum[itri_h] <= a0) { itri_l = itri_h; }
       else { itri_u = itri_h; }
     }
-    assert(cumulative_area_sum[itri_l] < a0);
+    assert(cumulative_area_sum[itri_l] <= a0);
     assert(a0 < cumulative_area_sum[itri_l + 1]);
     double r0 = (a0 - cumulative_area_sum[itri_l]) / (cumulative_area_sum[itri_l + 1] - cumulative_area_sum[itri_l]);
     double r1 = dist_01(rndeng);
-- 
2.43.0


From 8c3670ed06bbcf6a8ba792429e95b690785ef968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 61/72] fix: RandGaussVec3 stays finite when a draw is zero

---
 include/delfem2/sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/sampling.h b/include/delfem2/sampling.h
index 3a62c90..3c2f5ca 100644
--- a/include/delfem2/sampling.h
+++ b/include/delfem2/sampling.h
@@ -85,9 +85,9 @@ std::array<T, 3> RandGaussVec3(
     std::mt19937 &reng) {
   constexpr T pi = static_cast<T>(M_PI);
   std::uniform_real_distribution<T> dist(0, 1);
-  T a0 = dist(reng);
+  T a0 = 1 - dist(reng);  // (0,1] so that log is finite
   T a1 = dist(reng);
-  T a2 = dist(reng);
+  T a2 = 1 - dist(reng);  // (0,1] so that log is finite
   T a3 = dist(reng);
   return {
       std::sqrt(-2 * std::log(a0)) * std::cos(pi * 2 * a1),
-- 
2.43.0


From 7e1f08416972026debde8e20b71dff1444bce851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 62/72] fix: GaussianDistribution2 stays finite when rand()
 returns zero

---
 include/delfem2/vec2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/vec2.cpp b/include/delfem2/vec2.cpp
index 459dd8a..9bd6434 100644
--- a/include/delfem2/vec2.cpp
+++ b/include/delfem2/vec2.cpp
@@ -118,7 +118,7 @@ namespace delfem2 {
 
 template<>
 DFM2_INLINE void GaussianDistribution2(float noise[2]) {
-  float a0 = (float) (rand() / (RAND_MAX + 1.0));
+  float a0 = (float) ((rand() + 1.0) / (RAND_MAX + 1.0));  // (0,1] so that log is finite
   float a1 = (float) (rand() / (RAND_MAX + 1.0));
   noise[0] = (float) (sqrtf(-2.f * logf(a0)) * cosf(3.1415f * 2.f * a1));
   noise[1] = (float) (sqrtf(-2.f * logf(a0)) * sinf(3.1415f * 2.f * a1));
@@ -126,7 +126,7 @@ DFM2_INLINE void GaussianDistribution2(float noise[2]) {
 
 template<>
 DFM2_INLINE void GaussianDistribution2(double noise[2]) {
-  double a0 = rand() / (RAND_MAX + 1.0);
+  double a0 = (rand() + 1.0) / (RAND_MAX + 1.0);  // (0,1] so that log is finite
   double a1 = rand() / (RAND_MAX + 1.0);
   noise[0] = sqrt(-2.0 * log(a0)) * cos(3.1415 * 2 * a1);
   noise[1] = sqrt(-2.0 * log(a0)) * sin(3.1415 * 2 * a1);
-- 
2.43.0


From 0ab1b9006908de738ec0094a07b72632ee729c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 63/72] fix: MeshClustering stops when every element is a
 kernel

---
 include/delfem2/dijkstra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/dijkstra.h b/include/delfem2/dijkstra.h
index 342501a..eeecc2c 100644
--- a/include/delfem2/dijkstra.h
+++ b/include/delfem2/dijkstra.h
@@ -185,7 +185,7 @@ void MeshClustering(
         itri_maxdist = it;
       }
     }
-	assert(itri_maxdist != UINT_MAX);
+	if (itri_maxdist == UINT_MAX) { break; }  // every element is a kernel
     std::vector<unsigned int> aDist1(ntri, UINT_MAX);
     DijkstraElem_MeshElemTopo(
         aDist1,aOrder,
-- 
2.43.0


From 405037e9ecb5a1bcc339d40d8ca4b3899997a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 64/72] fix: Smooth4RotSym_RandomPermutation keeps the smoothed
 directions

---
 include/delfem2/4rotsym.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/4rotsym.h b/include/delfem2/4rotsym.h
index b5d5438..5336b29 100644
--- a/include/delfem2/4rotsym.h
+++ b/include/delfem2/4rotsym.h
@@ -129,7 +129,7 @@ void Smooth4RotSym_RandomPermutation(
       const CVec3d n1 = CVec3d(aNorm.data()+jp1*3);
       const CVec3d o1 = CVec3d(aOdir.data()+jp1*3);
       unsigned int idiff;
-      FindNearestOrientation(idiff,
+      o_new = FindNearestOrientation(idiff,
           o_new,n0, o1,n1,weight);
       weight += 1.0;
     }
-- 
2.43.0


From d769bec11e35da9d548027b71a77e6e3f7cb12d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 65/72] fix: hair points fixed in one coordinate keep moving in
 the others

---
 include/delfem2/hair_darboux_util.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/hair_darboux_util.cpp b/include/delfem2/hair_darboux_util.cpp
index 6b40225..3cd8d5f 100644
--- a/include/delfem2/hair_darboux_util.cpp
+++ b/include/delfem2/hair_darboux_util.cpp
@@ -114,10 +114,10 @@ DFM2_INLINE void delfem2::UpdateSolutionHair(
     }
   }
   for (unsigned int ip = 0; ip < aP.size(); ++ip) {
-    if (aBCFlag[ip * 4 + 0] != 0) continue;
-    aP[ip].p[0] += vec_x[ip * 4 + 0];
-    aP[ip].p[1] += vec_x[ip * 4 + 1];
-    aP[ip].p[2] += vec_x[ip * 4 + 2];
+    for (int idim = 0; idim < 3; ++idim) {
+      if (aBCFlag[ip * 4 + idim] != 0) continue;
+      aP[ip].p[idim] += vec_x[ip * 4 + idim];
+    }
   }
 }
 
-- 
2.43.0


From 40094c8c0a7c70747226eb09f18d93869d4cd1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 66/72] fix: contacts of hairs move fixed points

---
 include/delfem2/hair_darboux_collision.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/hair_darboux_collision.cpp b/include/delfem2/hair_darboux_collision.cpp
index 5888faa..3eb6f32 100644
--- a/include/delfem2/hair_darboux_collision.cpp
+++ b/include/delfem2/hair_darboux_collision.cpp
@@ -24,8 +24,9 @@ class CMatContact {
   CMatContact(
       const CMatrixSparse<double> &mats_,
       const std::vector<CContactHair> &aContact_,
-      const double stiffness_)
-      : mats(mats_), aContact(aContact_), stiffness(stiffness_) {}
+      const double stiffness_,
+      const std::vector<int> &aBCFlag_)
+      : mats(mats_), aContact(aContact_), stiffness(stiffness_), aBCFlag(aBCFlag_) {}
   void MatVec(double *y,
               double alpha, const double *x,
               double beta) const {
@@ -42,11 +43,15 @@ class CMatContact {
         unsigned int ip0 = aIP[iip];
         for (int jjp = 0; jjp < 4; ++jjp) {
           unsigned int jp0 = aIP[jjp];
-          double v0[3];
-          MatVec3(v0, NN.data(), x + jp0 * 4);
-          y[ip0 * 4 + 0] += alpha * stiffness * aW[iip] * aW[jjp] * v0[0];
-          y[ip0 * 4 + 1] += alpha * stiffness * aW[iip] * aW[jjp] * v0[1];
-          y[ip0 * 4 + 2] += alpha * stiffness * aW[iip] * aW[jjp] * v0[2];
+          double x0[3], v0[3];
+          for (int idim = 0; idim < 3; ++idim) { // the contact does not act on fixed values
+            x0[idim] = (aBCFlag[jp0 * 4 + idim] == 0) ? x[jp0 * 4 + idim] : 0.;
+          }
+          MatVec3(v0, NN.data(), x0);
+          for (int idim = 0; idim < 3; ++idim) {
+            if (aBCFlag[ip0 * 4 + idim] != 0) { continue; }
+            y[ip0 * 4 + idim] += alpha * stiffness * aW[iip] * aW[jjp] * v0[idim];
+          }
         }
       }
     }
@@ -55,6 +60,7 @@ class CMatContact {
   const CMatrixSparse<double> &mats;
   const std::vector<CContactHair> &aContact;
   const double stiffness;
+  const std::vector<int> &aBCFlag;
 };
 
 }
@@ -118,7 +124,7 @@ DFM2_INLINE void delfem2::Solve_RodHairContact(
   assert(mats.dof_bcflag.size() == np * 4);
   mats.matrix.SetFixedBC(mats.dof_bcflag.data());
   setRHS_Zero(mats.vec_r, mats.dof_bcflag, 0);
-  lcl::CMatContact mc(mats.matrix, aContact, stiff_contact);
+  lcl::CMatContact mc(mats.matrix, aContact, stiff_contact, mats.dof_bcflag);
   {
     const std::size_t n = mats.ndof();
     mats.vec_x.assign(n, 0.0);
-- 
2.43.0


From ed24cafb08abaa649cb62f2766952a412590264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 67/72] fix: pentadiagonal solver refuses three blocks, which
 its layout holds

---
 include/delfem2/ls_pentadiagonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/ls_pentadiagonal.h b/include/delfem2/ls_pentadiagonal.h
index 805b2e5..4e67a13 100644
--- a/include/delfem2/ls_pentadiagonal.h
+++ b/include/delfem2/ls_pentadiagonal.h
@@ -22,7 +22,7 @@ class BlockPentaDiagonalMatrix {
 
   void Initialize(size_t n) {
     this->nblk_ = n;
-    assert(nblk_ >= 4);
+    assert(nblk_ >= 3);
     const unsigned int nblks = 3 + 4 + 5 * (nblk_ - 4) + 4 + 3;
     v.resize(nblks * ndim * ndim);
   }
-- 
2.43.0


From 9dbdde5fff50dcfc82ff29ca6b598e65ec060815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:27 +0000
Subject: [PATCH 68/72] fix: pentadiagonal matrix keeps a size it found no
 memory for

---
 include/delfem2/ls_pentadiagonal.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/ls_pentadiagonal.h b/include/delfem2/ls_pentadiagonal.h
index 4e67a13..02035c5 100644
--- a/include/delfem2/ls_pentadiagonal.h
+++ b/include/delfem2/ls_pentadiagonal.h
@@ -21,10 +21,10 @@ class BlockPentaDiagonalMatrix {
   [[nodiscard]] unsigned int nblk() const { return nblk_; }
 
   void Initialize(size_t n) {
-    this->nblk_ = n;
-    assert(nblk_ >= 3);
-    const unsigned int nblks = 3 + 4 + 5 * (nblk_ - 4) + 4 + 3;
+    assert(n >= 3);
+    const size_t nblks = 3 + 4 + 5 * n - 20 + 4 + 3;
     v.resize(nblks * ndim * ndim);
+    this->nblk_ = n;
   }
 
   void Clear() {
-- 
2.43.0


From eae0251e767c7df03efc3fd3d2c647578b57770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 69/72] fix: InitBones_JointPosition keeps the pose of the
 bones it replaces

---
 include/delfem2/rig_geo3.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/rig_geo3.cpp b/include/delfem2/rig_geo3.cpp
index 952e74d..43803f0 100644
--- a/include/delfem2/rig_geo3.cpp
+++ b/include/delfem2/rig_geo3.cpp
@@ -348,6 +348,9 @@ delfem2::InitBones_JointPosition(
   for (unsigned int ib = 0; ib < nBone; ++ib) {
     unsigned int ibp = aIndBoneParent[ib];
     aBone[ib].ibone_parent = ibp;
+    aBone[ib].scale = 1;
+    Quat_Identity(aBone[ib].quatRelativeRot);
+    Mat4_Identity(aBone[ib].invBindMat);
     aBone[ib].invBindMat[3] = -aJntPos0[ib * 3 + 0];
     aBone[ib].invBindMat[7] = -aJntPos0[ib * 3 + 1];
     aBone[ib].invBindMat[11] = -aJntPos0[ib * 3 + 2];
-- 
2.43.0


From a97a46f1c58de7dd4efc6c02377de5e74c2c6efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 70/72] fix: weigh the off-diagonal SUPG advection terms like
 the diagonal ones

---
 include/delfem2/fem_navierstokes.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index 999bf45..ac6e9eb 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -97,6 +97,8 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(
         tmp_mat[1][1] += velo[ino][1]*velo[jno][1];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
     }
     for(int ino=0;ino<nno;ino++){
@@ -453,7 +455,13 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(
         tmp_mat[2][2] += velo[ino][2]*velo[jno][2];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[0][2] += velo[ino][0]*velo[ino][2];
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
+      tmp_mat[1][2] += velo[ino][1]*velo[ino][2];
+      tmp_mat[2][0] += velo[ino][2]*velo[ino][0];
+      tmp_mat[2][1] += velo[ino][2]*velo[ino][1];
       tmp_mat[2][2] += velo[ino][2]*velo[ino][2];
     }
     for(int ino=0;ino<nno;ino++){
-- 
2.43.0


From db169be183ec76167f0384c1fa25f2cce5a40bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 71/72] fix: PSPG of the inertia term carries the sign of the
 other PSPG terms

---
 include/delfem2/fem_navierstokes.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index ac6e9eb..5c75bd6 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -187,8 +187,8 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(
   double eMmat_pu[3][3][2];
   for(int ino=0;ino<nno;ino++){
     for(int jno=0;jno<nno;jno++){
-      eMmat_pu[ino][jno][0] = -tau*area*0.33333333333333333*dldx[ino][0];
-      eMmat_pu[ino][jno][1] = -tau*area*0.33333333333333333*dldx[ino][1];
+      eMmat_pu[ino][jno][0] =  tau*area*0.33333333333333333*dldx[ino][0];
+      eMmat_pu[ino][jno][1] =  tau*area*0.33333333333333333*dldx[ino][1];
     }
   }
   
@@ -572,9 +572,9 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(
   double eMmat_pu[4][4][3];
   for(int ino=0;ino<nno;ino++){
     for(int jno=0;jno<nno;jno++){
-      eMmat_pu[ino][jno][0] = -tau*vol*0.25*dldx[ino][0];
-      eMmat_pu[ino][jno][1] = -tau*vol*0.25*dldx[ino][1];
-      eMmat_pu[ino][jno][2] = -tau*vol*0.25*dldx[ino][2];
+      eMmat_pu[ino][jno][0] =  tau*vol*0.25*dldx[ino][0];
+      eMmat_pu[ino][jno][1] =  tau*vol*0.25*dldx[ino][1];
+      eMmat_pu[ino][jno][2] =  tau*vol*0.25*dldx[ino][2];
     }
   }
   
-- 
2.43.0


From 39025f0ed809048c3ed3528579ecde59a75f2106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 72/72] fix: Navier-Stokes 2D stabilisation of an inviscid
 fluid at rest is finite

---
 include/delfem2/fem_navierstokes.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index 5c75bd6..a7a5bc2 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -46,7 +46,10 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(
     const double h = sqrt( area / 3.14 )*2;
     const double tau_c = h*0.5/norm_v;
     const double cou_c = norm_v*dt/h;
-    if( norm_v*h*rho*1.0e-30 > myu ){ // Re = \infty
+    if( norm_v == 0.0 && myu == 0.0 ){ // inviscid fluid at rest: the limit of Re = \infty
+      tau = dt*0.5;
+    }
+    else if( norm_v*h*rho*1.0e-30 > myu ){ // Re = \infty
       const double dtmp1 = 1/(cou_c*cou_c)+1;
       tau = tau_c / sqrt(dtmp1);
     }
-- 
2.43.0

