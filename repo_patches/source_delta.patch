From 5fed5bb4097b6dbeec940efbe1c4839072af5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 01/31] fix: level-set construction reported a graph with as
 many levels as nodes as cyclic

---
 src/hdagg/hdagg.cpp        | 2 +-
 utils/sparse_inspector.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index b46dfd8..8ddd307 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -40,7 +40,7 @@ namespace HDAGG
             }
             cur_level++; //all nodes_ with zero indegree are processed.
             //assert(cur_level < n);
-            if (cur_level >= n)
+            if (cur_level > n)
                 return -1; // The input graph has a cycle
                 levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
                 while (inDegree[begin] == 1) // Why? Behrooz
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 90dc525..caf3ef6 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -34,7 +34,7 @@ namespace sym_lib {
    }
    cur_level++;//all nodes_ with zero indegree are processed.
    //assert(cur_level < n);
-   if (cur_level >= n)
+   if (cur_level > n)
     return -1; // The input graph has a cycle
    levelPtr[cur_level] = cur_levelCol;
    while (inDegree[begin] == 1) {
@@ -981,7 +981,7 @@ namespace sym_lib {
      }
      cur_level++; //all nodes_ with zero indegree are processed.
      //assert(cur_level < n);
-     if (cur_level >= n)
+     if (cur_level > n)
        return -1; // The input graph has a cycle
      levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
      while (inDegree[begin] == 1) // Why? Behrooz
-- 
2.43.0


From ef0129c7bb3672e229ad7119d4424646ec052431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 02/31] fix: partition pointer arrays of the coarsening drivers
 were one element too short

---
 src/lbc_blocked.cpp | 2 +-
 src/lbc_csc.cpp     | 2 +-
 src/lbc_csc_dag.cpp | 4 ++--
 src/lbc_tree.cpp    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 8b009f4..a325f2c 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -44,7 +44,7 @@ namespace sym_lib {
   int clusterCnt = 0;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
   int *inDegree = new int[n];
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0213797..9d5a4fd 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -37,7 +37,7 @@ namespace sym_lib {
   std::vector<std::vector<int>> newLeveledParList, mergedLeveledParList;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 8361691..6ced3aa 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -334,7 +334,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  finaLevelPtr[0] = 0;
 
@@ -419,7 +419,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  int *inDegree = new int[n];
  finaLevelPtr[0] = 0;
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index fc8552a..41ade6b 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -18,7 +18,7 @@ namespace sym_lib {
                               int minLevelDist,
                               int divRate,
                               double *nodeCost) {
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 //  auto *nodeColWidth = new int[n]();
   partNo = 0;
-- 
2.43.0


From 26c8e1638701ea7903bee5f6efcf12eac0eeeb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 03/31] fix: last window of the height partitioning ended one
 past the last level

---
 src/lbc_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 4b97bb0..30d71a8 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -253,7 +253,7 @@ namespace sym_lib{
    partition2Level[++lClusterCnt] = tmp;
    tmp += divRate;
   }
-  partition2Level[++lClusterCnt] = originalHeight + 1;
+  partition2Level[++lClusterCnt] = originalHeight;
   innerPartsSize.push_back(1);//The last partition has one element TODO is this true??
   delete[]accuSlackGroups;
   return lClusterCnt;
@@ -312,7 +312,7 @@ namespace sym_lib{
     }
    }
    if (f_spart){
-       partition2Level[++lClusterCnt] = originalHeight + 1;
+       partition2Level[++lClusterCnt] = originalHeight;
        innerPartsSize.push_back(1);//The last partition has one element
    }
   } else {
@@ -336,7 +336,7 @@ namespace sym_lib{
     preLevelCut = levelCut;
     levelCut = 0; // starting from the root
    }
-   partition2Level[++lClusterCnt] = originalHeight + 1;
+   partition2Level[++lClusterCnt] = originalHeight;
    innerPartsSize.push_back(1);//The last partition has one element
   }
   delete[]accuSlackGroups;
-- 
2.43.0


From 89c137847fd629901ef3ed07cf91ff1c9c45cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 04/31] fix: tree level sets wrote past the level counters for
 a single node

With n == 1 level_cnt has one element, and level_cnt[1] was cleared. The loop
above already clears every counter it has used.
---
 utils/sparse_inspector.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index caf3ef6..91e0ce9 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -487,7 +487,6 @@ namespace sym_lib {
    levelPtr[k] = levelPtr[k-1] + level_cnt[k-1];
    level_cnt[k-1] = 0;
   }
-  level_cnt[1]=0;
   for (int l = 0; l < n; ++l) {
    auto lev = node2level[l];
    if(!lev) continue;
-- 
2.43.0


From 92293e529a373f5aa00f095eab3eef9e2bb1f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 05/31] fix: csr_to_csc confused rows and columns of a
 rectangular matrix

The rows of A are the compressed dimension, so they take the place of the
columns in csc_to_csr, as in the overload for plain arrays.
---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 002a33d..d377f0f 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -109,7 +109,7 @@ namespace sym_lib {
      CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
      B->pre_alloc = false;
      B->is_pattern = false;
-     int st = csc_to_csr(A->m, A->n, A->p, A->i, A->x, B->p, B->i, B->x);
+     int st = csc_to_csr(A->n, A->m, A->p, A->i, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
      return B;
     }
-- 
2.43.0


From 6b10f6c5bb842c22e36c98df7f5da1b8372e22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 06/31] fix: make_half marked an upper half as a lower one

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index d377f0f..85fc337 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -222,7 +222,7 @@ namespace sym_lib {
       }
       Bp[i+1] = nnz_cnt;
      }
-     B->stype = -1;
+     B->stype = lower ? -1 : 1;
      return B;
     }
 
-- 
2.43.0


From e819509fe6a1084ebc0ace8affe93babdff3e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 07/31] fix: transpose_symmetric accepted n as an element of
 the permutation

Pinv[n] is past the end of the work space.
---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 85fc337..6d93fb3 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -306,7 +306,7 @@ namespace sym_lib {
       }
       for (k = 0; k < n; k++) {
        i = Perm[k];
-       if (i < 0 || i > n || Pinv[i] != EMPTY) {
+       if (i < 0 || i >= n || Pinv[i] != EMPTY) {
         return NULLPNTR;
        }
        Pinv[i] = k;
-- 
2.43.0


From 66836c4835c0f1dde48b4329d33db8a5ed800a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 08/31] fix: permute_general read the values of a pattern-only
 matrix

The loop copies values only where the result has room for them, but the result
was always made with values.
---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 6d93fb3..b641f7b 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1159,7 +1159,7 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
   int nz = 0, n, *Ap, *Ai, *Cp, *Ci ;
   double *Cx, *Ax ;
   int m = A->m; n = A->n ; Ap = A->p ; Ai = A->i ; Ax = A->x ;
-  CSC *C = new CSC(m, n, A->nnz);
+  CSC *C = new CSC(m, n, A->nnz, A->x == NULLPNTR);
   Cp = C->p ; Ci = C->i ; Cx = C->x ;
   for (int k = 0 ; k < n ; k++)
   {
-- 
2.43.0


From 1f3c19a338df6f8318ff2c53cb89a099eecd1c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 09/31] fix: costComputation wrote to an empty result vector

The vector was sized only if it had elements before.
---
 src/hdagg/hdagg.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 8ddd307..cd8a800 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2260,10 +2260,8 @@ namespace HDAGG
     void costComputation(int nodes, const int* CSC_Lp, const int* CSC_Li, const int* CSR_Lp, const int* CSR_Li,
                          Kernel kernel, const int* group_ptr, const int* group_set, bool grouped,
                          std::vector<double>& cost){
-        if(!cost.empty()){
-            cost.clear();
-            cost.resize(nodes, 0);
-        }
+        cost.clear();
+        cost.resize(nodes, 0);
         if(kernel == SpTrSv_LL || kernel == SpTrSv_RL){
             const int* Lp;
             if(kernel == SpTrSv_LL){
-- 
2.43.0


From f7da6e62d2ba7ac33cf0eefa1f75f2ef4305c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 10/31] fix: grouped SpILU0 cost left out nodes after empty
 rows

It compared a node with a position in the index array and stopped; the cost of a
group is the sum of the costs of its nodes, as computed without grouping.
---
 src/hdagg/hdagg.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index cd8a800..c861020 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2353,9 +2353,6 @@ namespace HDAGG
                     for(int node_ptr = group_ptr[group]; node_ptr < group_ptr[group + 1]; node_ptr++){
                         int node = group_set[node_ptr];
                         for (int j = CSR_Lp[node]; j < CSR_Lp[node + 1]; j++) {
-                            if(node > j){
-                                break;
-                            }
                             auto dep = CSR_Li[j];
                             cost[group] += (CSR_Lp[dep + 1] - CSR_Lp[dep]);
                         }
-- 
2.43.0


From eec3895dcfc2f8df0315e6a9ed6ab7e2e4d206c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 11/31] fix: merge_DAGs_with_partial_order announced entries it
 does not store

There is no identity edge between the graphs here as there is in merge_graph.
---
 utils/sparse_utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index b641f7b..55bc658 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -874,7 +874,6 @@ namespace sym_lib {
   for(int i = 0; i < ngraphs-1; i++){
    nnz += DGps[i][n];
   }
-  nnz += (ngraphs-1) * n;
   CSC *merged_graph = new CSC(n*ngraphs,n*ngraphs,nnz, true);
 
 /** allocate new graph space **/
-- 
2.43.0


From 2e0af5bed768910f41c58bf3408b79328814a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 12/31] fix: mult_size_t returned the wrapped product when the
 last addition overflows

The comment above promises 0 in case of an overflow.
---
 utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index 427cb57..dfb87df 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -38,7 +38,7 @@ namespace sym_lib{
     (*ok) = (*ok) && (p >= a);
    }
    k = k / 2;
-   if (!k) return (p);
+   if (!k) return ((*ok) ? p : 0);
    s = a + a;
    (*ok) = (*ok) && (s >= a);
    a = s;
-- 
2.43.0


From 4d043d776052e90fcbf2ddb68ca6be9a523dfe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 13/31] fix: partition_by_weight dropped trailing elements

Elements of zero weight at the end, or elements beyond the given target weights,
were in no part. partition_by_bfs adds what remains to the last part.
---
 utils/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index dfb87df..4dc471c 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -76,6 +76,8 @@ namespace sym_lib{
    }
    indices[i+1] = j;
   }
+  // if anything is remained add it to last part
+  indices[n_parts] = n;
   if(!target_weight)
    delete []even_weight;
   return indices;
-- 
2.43.0


From f19d59f8a03a7a1e5e542f67b40585fe67b359d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 14/31] fix: copy_from_to did not copy the pointers

---
 utils/sparse_utilities.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 55bc658..a114b48 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -517,8 +517,9 @@ namespace sym_lib {
     }
 
     void copy_from_to(CSR *src, CSR *dst){
+     dst->p[src->m] = src->p[src->m];
      for (int i = 0; i < src->m; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
@@ -527,8 +528,9 @@ namespace sym_lib {
     }
 
     void copy_from_to(CSC *src, CSC *dst){
+     dst->p[src->n] = src->p[src->n];
      for (int i = 0; i < src->n; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
-- 
2.43.0


From bbd96827475398f8d885dcd94d4625c5325854f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 15/31] fix: tridiag wrote an off-diagonal entry for size one

---
 utils/sparse_utilities.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index a114b48..1a25403 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -121,6 +121,12 @@ namespace sym_lib {
 
      int ind = 0;
      A->p[0] = 0;
+     if(n == 1) {
+      A->p[1] = 1;
+      A->i[0] = 0;
+      A->x[0] = a1;
+      return A;
+     }
      for(int i = 0; i < n; i++) {
       if(i == 0 || i == n-1) {
        A->p[i+1] = A->p[i] + 2;
-- 
2.43.0


From 13a61897c829e7e195729bfd40952b9519c4e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 16/31] fix: copy_sparse read the values of a pattern-only
 matrix

---
 utils/sparse_utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 1a25403..789008d 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -510,13 +510,13 @@ namespace sym_lib {
 
 
     CSC *copy_sparse(CSC *A){
-     CSC *clone = new CSC(A->m,A->n,A->nnz);
+     CSC *clone = new CSC(A->m,A->n,A->nnz,A->x==NULLPNTR);
      for (int i = 0; i < A->n+1; ++i) {
       clone->p[i] = A->p[i];
      }
      for (int j = 0; j < A->nnz; ++j) {
       clone->i[j] = A->i[j];
-      clone->x[j] = A->x[j];
+      if(A->x != NULLPNTR) clone->x[j] = A->x[j];
      }
      clone->stype = A->stype;
      return clone;
-- 
2.43.0


From a37e540e66f124f19e279da5493a36c399fb6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 17/31] fix: tree_to_csc announced n-1 entries for a forest
 with several roots

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 789008d..8a09c90 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -161,7 +161,7 @@ namespace sym_lib {
     CSC* tree_to_csc(int n, int *tree){
      int *Ai = new int[n](), *Ap = new int[n+1](), *cnt = new int[n]();
      populate_children(n, tree, Ap, Ai, cnt);
-     CSC *T = new CSC(n,n,n-1,Ap,Ai,0);
+     CSC *T = new CSC(n,n,Ap[n],Ap,Ai,0);
      delete []cnt;
      return T;
     }
-- 
2.43.0


From c986f8c09b724766cc822d4414fe7467c680f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 18/31] fix: height partitioning could leave the last levels in
 no window

With the level-width switch on, the last window was closed only when a narrow
level had ended the search before.
---
 src/lbc_utils.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 30d71a8..d6f1353 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -291,7 +291,6 @@ namespace sym_lib{
   }
   partition2Level[0] = 0;
   if (sw) {
-      bool f_spart=false;
    for (int i = minLevelDist; i < levelNo; i += minLevelDist) {
     //for leaves
     if (accuSlackGroups[i] >= divRate * innerPartsTmp) {
@@ -306,15 +305,12 @@ namespace sym_lib{
          innerPartsSize.push_back(tmp);
      }
      else{
-         f_spart= true;
          break;
      }
     }
    }
-   if (f_spart){
-       partition2Level[++lClusterCnt] = originalHeight;
-       innerPartsSize.push_back(1);//The last partition has one element
-   }
+   partition2Level[++lClusterCnt] = originalHeight;
+   innerPartsSize.push_back(1);//The last partition has one element
   } else {
    /*if(minLevelDist<=0)
     minLevelDist=2;//default parameter*/
-- 
2.43.0


From 0702aaab123c9f12825db790388d88839d32e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 19/31] fix: merge_inner_part stored the cost of a merged part
 in the slot of the next one

---
 src/lbc_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index d6f1353..f0bbd9a 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -134,8 +134,8 @@ namespace sym_lib{
       newLeveledParList[i].begin(), newLeveledParList[i].end());
     i++;
    }
-   lClusterCnt++;
    outCost[lClusterCnt] = curCost;
+   lClusterCnt++;
   }
   return lClusterCnt;
  }
-- 
2.43.0


From 2feea06a6c083b277b930fe3e55f08109419cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 20/31] fix: blocked level sets read past the in-degree array
 at the last level

---
 utils/sparse_inspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 91e0ce9..5a163bf 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -160,9 +160,9 @@ namespace sym_lib {
    assert((size_t) cur_levelCol >= 0);
    assert((size_t) cur_level <= blockNo);
    levelPtr[cur_level] = cur_levelCol;
-   while (inDegree[begin] == 1)
+   while (begin <= end && inDegree[begin] == 1)
     begin++;
-   while (inDegree[end] == 1 && begin <= end)
+   while (begin <= end && inDegree[end] == 1)
     end--;
    //Updating degrees after removing the nodes_
    for (int l = levelPtr[cur_level - 1]; l < levelPtr[cur_level]; ++l) {
-- 
2.43.0


From 861a6c45f3a8ca218ebf73323cda22b2b1fabf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 21/31] fix: grouping of rows followed the missing child of a
 row outside its arrays

---
 src/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group.cpp b/src/group.cpp
index c21f26d..3b148e7 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -221,7 +221,7 @@ namespace sym_lib
        visited[curIdx] = true;
        int chIdx = child[curIdx];
 
-       while ((chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
+       while (chIdx!=-1 && (chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
        {
         visited[chIdx]=true;
         pre[chIdx] = curIdx;
-- 
2.43.0


From b499ba3667ff6d81aa5505ed5c719bfd516bb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 22/31] fix: grouping of columns read past the last column

---
 src/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group.cpp b/src/group.cpp
index 3b148e7..40f3cbd 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -88,7 +88,7 @@ namespace sym_lib
 
         int tcurIdx = curIdx+1;
         int len=0;
-        while (child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
+        while (tcurIdx<ncol && child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
         {
          visited[tcurIdx] = true;
          next[tcurIdx-1]=tcurIdx;
-- 
2.43.0


From 465e81089354f278fd4acbb8e844ee796ceb063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 23/31] fix: postorder read the top of an empty stack

---
 src/hdagg/hdagg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index c861020..a789ab4 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -114,7 +114,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
@@ -257,7 +259,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
-- 
2.43.0


From 8b8410beb1f93c941130ea0bb839eddd8eaaaa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 24/31] fix: chain grouping of the postorder read past the last
 node's list

---
 src/hdagg/hdagg.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index a789ab4..e1179e7 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -136,7 +136,8 @@ namespace HDAGG
             if(i < n - 1){
                 next = post_order[i + 1];
                 in_edges = in_degree[next];
-                child = DAG_set[DAG_ptr[curr] + 1];//TODO: Ugly coding
+                //A node without successors has no entry after its own
+                child = DAG_ptr[curr + 1] - DAG_ptr[curr] > 1 ? DAG_set[DAG_ptr[curr] + 1] : -1;
             } else {
                 in_edges = 1;
                 child = next;
-- 
2.43.0


From 3e0029b705f4c566bf73d9805c9a3692e80363fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 25/31] fix: sequential sparsification wrote the cliques past
 the node array

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index e1179e7..6bd80f9 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2043,7 +2043,7 @@ namespace HDAGG
           int tid = omp_get_thread_num();
 #else
           int bins =1;
-       int tid=1;
+       int tid=0;
 #endif
                 int start_col = (n / bins) * tid;
                 int end_col = (n / bins) * (tid + 1);
-- 
2.43.0


From 8b6a500ad291bc39f3a7303e71e735f6160795f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 26/31] fix: row pattern unmarked an unset stack entry

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 6bd80f9..5875ad8 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -1343,7 +1343,7 @@ namespace HDAGG
             }
             while(len > 0) s[--top] = s[--len];
         }
-        for(int p = top; p < n; p++){
+        for(int p = top; p < n - 1; p++){
             w[s[p]] = false;
         }
         w[k] = false;
-- 
2.43.0


From c14a0829a28201acec9007675a068f0c49db98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 27/31] fix: compressed_BCSC_to_CSC stored an edge outside the
 graph past the end of its arrays

The entries it counts and allocates are those of the nodes x nodes graph.
---
 utils/BCSCMatrix.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ed835ee..8dd29a2 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -276,9 +276,6 @@ namespace sym_lib {
     inplace[temp[k]] = false;
    count = 0;
 
-   Ai[i] = j + nodes;
-   Ap[p]++;
-   i++;
    p++;
   }
 
-- 
2.43.0


From c2d3313116c863e2574de286db4f7853f12b25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 28/31] fix: blocked coarsening lost merged components

The first overlapped component was not renamed although it need not be the
smallest, and the component count was lowered while larger labels stay in use.
---
 src/lbc_blocked.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index a325f2c..e13e8fb 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -124,16 +124,17 @@ namespace sym_lib {
 
      isCC = needAliased.size() == 0;
      if (!isCC) {//There are some intersection between found CCs.
-      for (int j = 1; j < needAliased.size(); ++j) {//the first is min
+      for (int j = 0; j < needAliased.size(); ++j) {
        int tn = node2partition[needAliased[j]];
-       for (int i = 0; i < n; ++i) {
-        //Replace all needAliased node with their min part number.
-        if (node2partition[i] == tn) {
-         node2partition[i] = minAliasedPar;
+       if (tn != minAliasedPar) {
+        for (int i = 0; i < n; ++i) {
+         //Replace all needAliased node with their min part number.
+         if (node2partition[i] == tn) {
+          node2partition[i] = minAliasedPar;
+         }
         }
        }
       }
-      cc -= (needAliased.size() - 1);//TODO not sure
       needAliased.erase(needAliased.begin(), needAliased.end());
       //Set the nodes in the current cluster
       for (int i = stackStart; i < n; ++i) {
-- 
2.43.0


From d145a785d82daf04c9f51ab7a00a3e946b48db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:44 +0000
Subject: [PATCH 29/31] fix: packing of the partitions lost nodes when the
 costs left for the cores are zero

The bound of the core at which the distribution stops was never set, and a
single core ran past its cost array.
---
 src/hdagg/hdagg.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 5875ad8..571b24a 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -717,7 +717,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(cost[thread_id - 1] < cost_per_core || thread_id == cores){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -727,6 +727,7 @@ namespace HDAGG
                             cost_to_this_core += cost[thread_id - 1];
                             cost_per_core = (total_cost - cost_to_this_core) / (cores - thread_id);
                             //Let's do the next thread
+                            chunk_array[thread_id] = part;
                             thread_id++;
                             if(cost_per_core == 0){
                                 if(part != part_cnt - 1){
@@ -745,7 +746,7 @@ namespace HDAGG
                 }
 
                 //Fix the last partitions of chunk_array
-                for(int i = thread_id; i < cores; i++){
+                for(int i = thread_id - 1; i < cores; i++){
                     chunk_array[i + 1] = part_cnt;
                 }
 
@@ -935,7 +936,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(cost[thread_id - 1] < cost_per_core || thread_id == cores){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -945,6 +946,7 @@ namespace HDAGG
                             cost_to_this_core += cost[thread_id - 1];
                             cost_per_core = (total_cost - cost_to_this_core) / (cores - thread_id);
                             //Let's do the next thread
+                            chunk_array[thread_id] = part;
                             thread_id++;
                             if(cost_per_core == 0){
                                 if(part != part_cnt - 1){
@@ -963,7 +965,7 @@ namespace HDAGG
                 }
 
                 //Fix the last partitions of chunk_array
-                for(int i = thread_id; i < cores; i++){
+                for(int i = thread_id - 1; i < cores; i++){
                     chunk_array[i + 1] = part_cnt;
                 }
 
-- 
2.43.0


From e7e02f481dfb17a48f3e9136f858961455132340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:44 +0000
Subject: [PATCH 30/31] fix: automatic coarsening divided by zero for an empty
 graph and kept a stale first pointer

---
 src/hdagg/hdagg.cpp | 2 +-
 src/lbc_csc_dag.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 571b24a..89e1b72 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2570,7 +2570,7 @@ namespace HDAGG
                           bin_pack, postOrder);
   } else{ // fall back to basic wavefront for very sparse DAGs
    std::vector<int> node_to_level;
-   coarse_part_ptr.resize(n + 1);
+   coarse_part_ptr.assign(n + 1, 0);
    coarse_node_ptr.resize(n);
    node_to_level.resize(n);
    coarse_level_no = HDAGG::build_levelSet_CSC(n, Lp, Li, coarse_part_ptr.data(),
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 6ced3aa..082b762 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -15,7 +15,7 @@ namespace sym_lib {
 
  void lbc_config(int n, int nnz, int num_threads, int &lp, int &cp, int &ic,
                  bool &b_pack){
-  int ratio = nnz / n;
+  int ratio = n > 0 ? nnz / n : 0;
   b_pack = false;
   lp = num_threads;
   if(ratio < 10){
-- 
2.43.0


From ffc5efebf5b8aad34872c87772238025eeee0a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:42 +0000
Subject: [PATCH 31/31] fix: add() marks the sum pattern-only when either
 operand has no values

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 8a09c90..a3b7605 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1105,7 +1105,7 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
      x = !values ? new double[m]() : NULLPNTR;
      CSC *C = new CSC(m,n,anz+bnz,values);
      C->stype = A->stype;
-     C->is_pattern = A->is_pattern;
+     C->is_pattern = values;
      Cp = C->p ; Ci = C->i ; Cx = C->x ;
      for (j = 0 ; j < n ; j++){
       Cp [j] = nz ;                   /* column j of C starts here */
-- 
2.43.0

