From 7713ce35fc33bcb5314a32d0cdac300b6a9fb865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 01/56] fix: size the kernel buffers by the widest leaf of all
 trees, not of the last tree

---
 acv_explainers/base_agnostree.py | 2 +-
 acv_explainers/base_tree.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 7707083..9ce2e34 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -96,6 +96,7 @@ class BaseAgnosTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -122,7 +123,6 @@ class BaseAgnosTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 # self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 9980aea..50e5314 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -557,6 +557,7 @@ class BaseTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -583,7 +584,6 @@ class BaseTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
-- 
2.43.0


From e2c851dbffe1dee75c826f3049b5aad942032199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 02/56] fix: an observation on a split threshold belongs to one
 leaf only (half-open leaf regions in every kernel)

---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 94 ++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_cache.pyx |  8 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 72 +++++++--------
 3 files changed, 87 insertions(+), 87 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index da190b7..d4add8c 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -61,7 +61,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -74,7 +74,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -128,7 +128,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -141,7 +141,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -271,7 +271,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -290,7 +290,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -382,7 +382,7 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -400,10 +400,10 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -517,10 +517,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -532,7 +532,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True, num_threads=num_threads):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -582,10 +582,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -597,7 +597,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True, num_threads=num_threads):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -719,10 +719,10 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -731,7 +731,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -788,7 +788,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -797,7 +797,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1085,10 +1085,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1100,7 +1100,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1150,10 +1150,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1165,7 +1165,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2061,7 +2061,7 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
             for i in prange(N, nogil=True, num_threads=num_threads):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2079,10 +2079,10 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2298,7 +2298,7 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2338,10 +2338,10 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2737,10 +2737,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(data.shape[1]):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == data.shape[1]:
@@ -2752,7 +2752,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True, num_threads=num_threads):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -2798,10 +2798,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(data.shape[1]):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == data.shape[1]:
@@ -2813,7 +2813,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True, num_threads=num_threads):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2972,7 +2972,7 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -2989,10 +2989,10 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3170,7 +3170,7 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3187,10 +3187,10 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3894,7 +3894,7 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3911,10 +3911,10 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index f9f46ce..30791b1 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -568,14 +568,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -597,14 +597,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 58643f6..0bba6b3 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -55,7 +55,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -68,7 +68,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -122,7 +122,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -135,7 +135,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -265,7 +265,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -284,7 +284,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -376,7 +376,7 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -394,10 +394,10 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -511,10 +511,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -526,7 +526,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -576,10 +576,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -591,7 +591,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -713,10 +713,10 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -725,7 +725,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -782,7 +782,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -791,7 +791,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1079,10 +1079,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1094,7 +1094,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(N):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1144,10 +1144,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1159,7 +1159,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(N):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -1399,7 +1399,7 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -1416,10 +1416,10 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -2991,14 +2991,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3020,14 +3020,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3271,7 +3271,7 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -3311,10 +3311,10 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
-- 
2.43.0


From 74e0ecffa71bd0bcd85f381bbd665c32a6ae8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 03/56] fix: active Shapley values are not NaN when no
 background row agrees with a leaf

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 12 ++++++------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index d4add8c..248f10b 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1920,7 +1920,7 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star[va, leaf_numb]
+                        p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi_n[leaf_numb, i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1996,8 +1996,8 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -3465,7 +3465,7 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -3541,8 +3541,8 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 0bba6b3..a0d8865 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1854,7 +1854,7 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star
+                        p_si = (csi * lm)/lm_star if lm_star !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi[i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1930,8 +1930,8 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s
-                        p_si = (csi * lm)/lm_si
+                        p_s = (cs * lm)/lm_s if lm_s !=0 else 0
+                        p_si = (csi * lm)/lm_si if lm_si !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -2159,7 +2159,7 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -2235,8 +2235,8 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
-- 
2.43.0


From 5b7cf41c23321536247af6933cf70ba5e8e6bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 04/56] fix: projected-forest kernels no longer read before the
 node arrays at the missing children of leaves

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 56 ++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 248f10b..f1e2d86 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4052,6 +4052,8 @@ cdef double single_compute_sdp_rf_v0(double[:] & x, double & y_x,  double[:, :]
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
+                if nodes_level[it_node] < 0:  # the missing child of a leaf
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
@@ -4268,6 +4270,9 @@ cdef double single_compute_exp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -4357,6 +4362,8 @@ cdef double single_compute_quantile_rf(double[:] & x, double & y_x,  double[:, :
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
                 s = 0
+                if nodes_level[it_node] < 0:  # the missing child of a leaf
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
@@ -4451,6 +4458,8 @@ cdef double single_compute_quantile_diff_rf(double[:] & x, double & y_x,  double
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
+                if nodes_level[it_node] < 0:  # the missing child of a leaf
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
@@ -4537,6 +4546,8 @@ cdef double single_compute_cdf_rf(double[:] & x, double & y_x,  double[:, :] & d
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
+                if nodes_level[it_node] < 0:  # the missing child of a leaf
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
@@ -4712,6 +4723,8 @@ cdef double single_compute_sdp_rule_v0(double[:] & x, double & y_x,  double[:, :
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
+                if nodes_level[it_node] < 0:  # the missing child of a leaf
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
@@ -4842,6 +4855,8 @@ cdef double single_compute_sdp_rule_biased(double[:] & x, double & y_x, vector[i
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0:  # the missing child of a leaf
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
 
@@ -4993,6 +5008,8 @@ cdef double single_compute_sdp_rule_v0_weights(double[:] & x, double & y_x,  dou
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
+                if nodes_level[it_node] < 0:  # the missing child of a leaf
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
@@ -5160,6 +5177,9 @@ cdef double single_compute_sdp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5266,6 +5286,9 @@ cdef double single_compute_sdp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5432,6 +5455,9 @@ cdef double single_compute_ddp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5538,6 +5564,9 @@ cdef double single_compute_ddp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5674,6 +5703,9 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5829,6 +5861,9 @@ cdef double single_compute_sdp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5923,6 +5958,9 @@ cdef double single_compute_ddp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6509,6 +6547,9 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
@@ -6805,6 +6846,9 @@ cdef double single_compute_cdp_rule(double[:] & x, double & y_x, double & down,
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6912,6 +6956,9 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7066,6 +7113,9 @@ cdef double single_compute_cdp_rf(double[:] & x, double & y_x,  double & down, d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7317,6 +7367,9 @@ cdef double single_compute_cdp_rule_weights(double[:] & x, double & y_x, double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7452,6 +7505,9 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
-- 
2.43.0


From 0b6579a267149948121c2104671af50c51876024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:40 +0000
Subject: [PATCH 05/56] fix: the interventional target probability counts the
 target label, not every other label

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index f1e2d86..54f1abb 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -7568,7 +7568,7 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
         if classifier == 1:
             it = in_data.begin()
             while(it != in_data.end()):
-                sdp  += (1./(n_trees*in_data.size())) * (y_x != y_data[deref(it)])
+                sdp  += (1./(n_trees*in_data.size())) * (y_x == y_data[deref(it)])
                 w[deref(it)] += (1./(n_trees*in_data.size()))
                 inc(it)
         else:
-- 
2.43.0


From 2db102036326df0bea7db31150860d0696104818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 06/56] fix: compute_cdf_rf passed a matrix where the kernel
 takes one value per observation

---
 acv_explainers/acv_agnosticX.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index ccadcad..2b553f8 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1282,7 +1282,7 @@ class ACXplainer:
 
             min_node_size (int): The minimal node size of the Projected Forest
 
-            t (float): not used here
+            t (numpy.ndarray): 1-D array (# samples) the values at which the P-CDF is taken, the targets y by default
 
         Returns:
             exp (numpy.ndarray): A 1-D matrix (# samples), exp[i] contains the Conditional Expectation of observation i
@@ -1297,10 +1297,8 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        if t is None:
+            t = y
         sdp = cyext_acv.compute_cdf_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
-- 
2.43.0


From b37dda7afc6c9de948ba1384fb0c7ec44aa1d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:00 +0000
Subject: [PATCH 07/56] fix: a reported explanation no longer lists features of
 an earlier, larger candidate

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 22 +++++++++++++++++++++
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx |  6 ++++++
 acv_explainers/utils.py                     |  2 +-
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 54f1abb..ed4e827 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -936,6 +936,8 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1241,6 +1243,8 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3043,6 +3047,8 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3228,6 +3234,8 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3965,6 +3973,8 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -4212,6 +4222,8 @@ cpdef global_sdp_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data, doub
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6151,6 +6163,8 @@ cpdef global_ddp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6299,6 +6313,8 @@ cpdef global_sdp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6789,6 +6805,8 @@ cpdef global_ddp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -7309,6 +7327,8 @@ cpdef global_cdp_rf(double[:, :] X, double[::1] y_X, double[::1] DOWN, double[::
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -7747,6 +7767,8 @@ cpdef global_cdp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index a0d8865..1397ee0 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -930,6 +930,8 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1235,6 +1237,8 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1470,6 +1474,8 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # forget a previous larger coalition
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 8961492..0642e94 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -811,7 +811,7 @@ def get_null_coalition(s_star, len_s_star):
     index = list(range(s_star.shape[1]))
 
     for i in range(s_star.shape[0]):
-        s_star_index = [s_star[i, j] for j in range(s_star.shape[1])]
+        s_star_index = [s_star[i, j] for j in range(len_s_star[i])]
         null_coalition = list(set(index) - set(s_star_index))
         n_star[i, len_s_star[i]:] = np.array(null_coalition)
     return s_star, n_star
-- 
2.43.0


From a65b0bf16474beb599e62bd868ec6ab9c62f25e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 08/56] fix: sufficient_cxpl_rf returns the probabilities of
 every row, aligned with its sets

---
 acv_explainers/acv_agnosticX.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 2b553f8..f71cbc0 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1215,7 +1215,8 @@ class ACXplainer:
                                             pi_level, minimal, stop, search_space[:10])
 
         c_expl = [sufficient_coal[1:] for sufficient_coal in c_expl]
-        return c_expl, cdp_expl[1:], cdp_global
+        cdp_expl = [cdp_ind[1:] for cdp_ind in cdp_expl]
+        return c_expl, cdp_expl, cdp_global
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
         """
-- 
2.43.0


From 80b04ce4995f01b94bb3b433b84996f291380cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:37 +0000
Subject: [PATCH 09/56] fix: refitting an ACXplainer replaces the forest its
 explanations are computed from

---
 acv_explainers/acv_agnosticX.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index f71cbc0..23606f0 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -160,6 +160,7 @@ class ACXplainer:
         self.d = X.shape[1]
         self.model.fit(X=X, y=y, sample_weight=sample_weight, split_select_weights=split_select_weights,
                        always_split_features=always_split_features, categorical_features=categorical_features)
+        self.check_is_explain = False
 
     def fit_global_rules(self, X, y, rules, rules_s_star):
         # TODO: think about removing s_star ? add complexity ?
-- 
2.43.0


From 6c723959989fd3237a75c738498f9739ed6a922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 10/56] fix: the regression same-decision probability of a row
 does not use the previous row's tree weights

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 42 +++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 42 +++++++++++----------
 2 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index ed4e827..6921f6f 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -631,19 +631,20 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
         ss_d = 0
         ss_a = 0
         for b in range(n_trees):
+            n = 0
+            n_u = 0
+            n_d = 0
+            nb_leaf = leaves_nb[b]
+            for leaf_numb in range(nb_leaf):
+                n += p_n[b, leaf_numb, leaf_numb, i]
+                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
+                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+            norm[b] = n
+            norm_u[b] = n_u
+            norm_d[b] = n_d
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
                     nb_leaf = leaves_nb[b]
-                    for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
                     for leaf_numb in range(nb_leaf):
                         ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
                         ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
@@ -1201,19 +1202,20 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                 ss_d = 0
                 ss_a = 0
                 for b in range(n_trees):
+                    n = 0
+                    n_u = 0
+                    n_d = 0
+                    nb_leaf = leaves_nb[b]
+                    for leaf_numb in range(nb_leaf):
+                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                    norm[b] = n
+                    norm_u[b] = n_u
+                    norm_d[b] = n_d
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
                             nb_leaf = leaves_nb[b]
-                            for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
                                 ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
                                 ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 1397ee0..18c9c85 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -625,19 +625,20 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
         ss_d = 0
         ss_a = 0
         for b in range(n_trees):
+            n = 0
+            n_u = 0
+            n_d = 0
+            nb_leaf = leaves_nb[b]
+            for leaf_numb in range(nb_leaf):
+                n += p_n[b, leaf_numb, leaf_numb, i]
+                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
+                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+            norm[b] = n
+            norm_u[b] = n_u
+            norm_d[b] = n_d
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
                     nb_leaf = leaves_nb[b]
-                    for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
                     for leaf_numb in range(nb_leaf):
                         ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
                         ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
@@ -1195,19 +1196,20 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                 ss_d = 0
                 ss_a = 0
                 for b in range(n_trees):
+                    n = 0
+                    n_u = 0
+                    n_d = 0
+                    nb_leaf = leaves_nb[b]
+                    for leaf_numb in range(nb_leaf):
+                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                    norm[b] = n
+                    norm_u[b] = n_u
+                    norm_d[b] = n_d
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
                             nb_leaf = leaves_nb[b]
-                            for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
                                 ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
                                 ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-- 
2.43.0


From 5d91b6edb385a7fe2d1d8069fa12eef9b3568a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 11/56] fix: the regression same-decision probability keeps the
 contributions of different tree pairs apart

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 238 ++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 238 ++++++++++----------
 2 files changed, 240 insertions(+), 236 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 6921f6f..3efba92 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -478,30 +478,43 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef double value
     cdef double value_l
 
-    cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    cdef double[:, :, :, :] mean_forest_b
+    mean_forest_b = np.zeros((max_leaves, max_leaves, N, 3))
 
     cdef double[:] sdp
     sdp = np.zeros((N))
 
     cdef double[:] norm, norm_u, norm_d
-    norm = np.zeros((n_trees))
-    norm_u = np.zeros((n_trees))
-    norm_d = np.zeros((n_trees))
+    norm = np.zeros((N))
+    norm_u = np.zeros((N))
+    norm_d = np.zeros((N))
 
     cdef long[:] lm, lm_u, lm_d, lm_s
     cdef unsigned int it, it_s, a_it, b_it, p, p_s, p_u, p_d, p_su, p_sd, nb_leaf, nb_leaf_l, o_all, down, up
     cdef double ss
     cdef int b, l, leaf_numb, i, s, j, leaf_numb_l
 
-    cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :, :] p_n, p_u_n, p_d_n
+    p_n = np.zeros((max_leaves, max_leaves, N))
+    p_u_n = np.zeros((max_leaves, max_leaves, N))
+    p_d_n = np.zeros((max_leaves, max_leaves, N))
     cdef double n, n_u, n_d
+    cdef double[:, :] w, w_u, w_d
+    w = np.zeros((max_leaves, N))
+    w_u = np.zeros((max_leaves, N))
+    w_d = np.zeros((max_leaves, N))
+    cdef double[:] ss_a, ss_u, ss_d
+    ss_a = np.zeros((N))
+    ss_u = np.zeros((N))
+    ss_d = np.zeros((N))
 
     for b in range(n_trees):
-        for l in range(n_trees):
+        for l_0 in range(n_trees):
+            l = (b + l_0) % n_trees # the tree itself comes first, its leaf weights are used with the other trees
+            mean_forest_b[...] = 0
+            p_n[...] = 0
+            p_u_n[...] = 0
+            p_d_n[...] = 0
             if b == l:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -554,13 +567,13 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 p_d += lm[j]
                                 p_sd += lm_s[j]
 
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                        mean_forest_b[leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
+                        mean_forest_b[leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
+                        mean_forest_b[leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                        p_n[b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
-                        p_u_n[b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                        p_d_n[b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                        p_n[leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                        p_u_n[leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                        p_d_n[leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
             else:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -619,56 +632,47 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
-    for i in range(N):
-        ss_u = 0
-        ss_d = 0
-        ss_a = 0
-        for b in range(n_trees):
-            n = 0
-            n_u = 0
-            n_d = 0
-            nb_leaf = leaves_nb[b]
-            for leaf_numb in range(nb_leaf):
-                n += p_n[b, leaf_numb, leaf_numb, i]
-                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-            norm[b] = n
-            norm_u[b] = n_u
-            norm_d[b] = n_d
-            for l in range(n_trees):
+                            p_n[leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+
+            for i in range(N):
                 if b == l:
-                    nb_leaf = leaves_nb[b]
+                    norm[i] = 0
+                    norm_u[i] = 0
+                    norm_d[i] = 0
+                    for leaf_numb in range(nb_leaf):
+                        w[leaf_numb, i] = p_n[leaf_numb, leaf_numb, i]
+                        w_u[leaf_numb, i] = p_u_n[leaf_numb, leaf_numb, i]
+                        w_d[leaf_numb, i] = p_d_n[leaf_numb, leaf_numb, i]
+                        norm[i] += w[leaf_numb, i]
+                        norm_u[i] += w_u[leaf_numb, i]
+                        norm_d[i] += w_d[leaf_numb, i]
                     for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_a[i] += mean_forest_b[leaf_numb, leaf_numb, i, 0]/norm[i] if norm[i] !=0 else 0
+                        ss_u[i] += mean_forest_b[leaf_numb, leaf_numb, i, 1]/norm_u[i] if norm_u[i] !=0 else 0
+                        ss_d[i] += mean_forest_b[leaf_numb, leaf_numb, i, 2]/norm_d[i] if norm_d[i] !=0 else 0
                 else:
-                    nb_leaf = leaves_nb[b]
-                    nb_leaf_l = leaves_nb[l]
-
                     for leaf_numb in range(nb_leaf):
                         n = 0
                         n_u = 0
                         n_d = 0
                         for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                            n += p_n[leaf_numb, leaf_numb_l, i]
+                            n_u += p_u_n[leaf_numb, leaf_numb_l, i]
+                            n_d += p_d_n[leaf_numb, leaf_numb_l, i]
 
                         for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
-
+                            ss_a[i] += (w[leaf_numb, i]/norm[i])*(mean_forest_b[leaf_numb, leaf_numb_l, i, 0]/n) if n*norm[i] !=0  else 0
+                            ss_u[i] += (w_u[leaf_numb, i]/norm_u[i])*(mean_forest_b[leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[i] !=0 else 0
+                            ss_d[i] += (w_d[leaf_numb, i]/norm_d[i])*(mean_forest_b[leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[i] !=0 else 0
 
-        sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
+    for i in range(N):
+        sdp[i] = (ss_u[i] - ss_a[i])/(ss_u[i] - ss_d[i]) if ss_u[i] - ss_d[i] !=0 else 0
 
     return np.array(sdp)
 
@@ -989,8 +993,8 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef double[:, :] mean_forest
     mean_forest = np.zeros((N, 3))
 
-    cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    cdef double[:, :, :, :] mean_forest_b
+    mean_forest_b = np.zeros((max_leaves, max_leaves, N, 3))
 
     cdef double[:] sdp
     cdef double[:] sdp_global
@@ -999,16 +1003,24 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
 
     cdef long[:] lm, lm_u, lm_d, lm_s
     cdef unsigned int it, it_s, a_it, b_it, o_all, p, p_s, nb_leaf, p_u, p_d, p_su, p_sd, down, up
-    cdef double ss, ss_a, ss_u, ss_d
+    cdef double ss
     cdef int b, leaf_numb, i, s, s_0, s_1, S_size, j, max_size, size, leaf_numb_l
 
     cdef long[:] S, len_s_star
     len_s_star = np.zeros((N), dtype=np.int)
-    cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :, :] p_n, p_u_n, p_d_n
+    p_n = np.zeros((max_leaves, max_leaves, N))
+    p_u_n = np.zeros((max_leaves, max_leaves, N))
+    p_d_n = np.zeros((max_leaves, max_leaves, N))
     cdef double n, n_u, n_d
+    cdef double[:, :] w, w_u, w_d
+    w = np.zeros((max_leaves, N))
+    w_u = np.zeros((max_leaves, N))
+    w_d = np.zeros((max_leaves, N))
+    cdef double[:] ss_a, ss_u, ss_d
+    ss_a = np.zeros((N))
+    ss_u = np.zeros((N))
+    ss_d = np.zeros((N))
     cdef list power, va_id
 
     cdef vector[long] R, r
@@ -1021,9 +1033,9 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     R_buf = np.zeros((N), dtype=np.int)
 
     cdef double[:] norm, norm_u, norm_d
-    norm = np.zeros((n_trees))
-    norm_u = np.zeros((n_trees))
-    norm_d = np.zeros((n_trees))
+    norm = np.zeros((N))
+    norm_u = np.zeros((N))
+    norm_d = np.zeros((N))
 
     if C[0] != []:
         remove_va = [C[ci][cj] for ci in range(len(C)) for cj in range(len(C[ci]))]
@@ -1062,17 +1074,16 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
             for i in range(N):
                 R_buf[i] = R[i]
 
+            ss_a[...] = 0
+            ss_u[...] = 0
+            ss_d[...] = 0
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
-                        for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
-            for b in range(n_trees):
-                for l in range(n_trees):
+                for l_0 in range(n_trees):
+                    l = (b + l_0) % n_trees # the tree itself comes first, its leaf weights are used with the other trees
+                    mean_forest_b[...] = 0
+                    p_n[...] = 0
+                    p_u_n[...] = 0
+                    p_d_n[...] = 0
                     if b == l:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1125,13 +1136,13 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                         p_d += lm[j]
                                         p_sd += lm_s[j]
 
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                                mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
+                                mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
+                                mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                                p_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                p_u_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                p_d_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                p_n[leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                p_u_n[leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                p_d_n[leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
                     else:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1190,56 +1201,47 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
-            for i in range(N):
-                ss_u = 0
-                ss_d = 0
-                ss_a = 0
-                for b in range(n_trees):
-                    n = 0
-                    n_u = 0
-                    n_d = 0
-                    nb_leaf = leaves_nb[b]
-                    for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
-                    for l in range(n_trees):
+                                    p_n[leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+
+                    for i in range(N):
                         if b == l:
-                            nb_leaf = leaves_nb[b]
+                            norm[i] = 0
+                            norm_u[i] = 0
+                            norm_d[i] = 0
+                            for leaf_numb in range(nb_leaf):
+                                w[leaf_numb, i] = p_n[leaf_numb, leaf_numb, R_buf[i]]
+                                w_u[leaf_numb, i] = p_u_n[leaf_numb, leaf_numb, R_buf[i]]
+                                w_d[leaf_numb, i] = p_d_n[leaf_numb, leaf_numb, R_buf[i]]
+                                norm[i] += w[leaf_numb, i]
+                                norm_u[i] += w_u[leaf_numb, i]
+                                norm_d[i] += w_d[leaf_numb, i]
                             for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_a[i] += mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 0]/norm[i] if norm[i] !=0 else 0
+                                ss_u[i] += mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[i] if norm_u[i] !=0 else 0
+                                ss_d[i] += mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[i] if norm_d[i] !=0 else 0
                         else:
-                            nb_leaf = leaves_nb[b]
-                            nb_leaf_l = leaves_nb[l]
-
                             for leaf_numb in range(nb_leaf):
                                 n = 0
                                 n_u = 0
                                 n_d = 0
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n += p_n[leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_u += p_u_n[leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_d += p_d_n[leaf_numb, leaf_numb_l, R_buf[i]]
 
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                                    ss_a[i] += (w[leaf_numb, i]/norm[i])*(mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 0]/n) if n*norm[i] !=0  else 0
+                                    ss_u[i] += (w_u[leaf_numb, i]/norm_u[i])*(mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[i] !=0 else 0
+                                    ss_d[i] += (w_d[leaf_numb, i]/norm_d[i])*(mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[i] !=0 else 0
 
-
-                ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
+            for i in range(N):
+                ss = (ss_u[i] - ss_a[i])/(ss_u[i] - ss_d[i]) if ss_u[i] - ss_d[i] !=0 else 0
                 if ss >= sdp[R_buf[i]]:
                     sdp[R_buf[i]] = ss
                     len_s_star[R_buf[i]] = S_size
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 18c9c85..5647aef 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -472,30 +472,43 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef double value
     cdef double value_l
 
-    cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    cdef double[:, :, :, :] mean_forest_b
+    mean_forest_b = np.zeros((max_leaves, max_leaves, N, 3))
 
     cdef double[:] sdp
     sdp = np.zeros((N))
 
     cdef double[:] norm, norm_u, norm_d
-    norm = np.zeros((n_trees))
-    norm_u = np.zeros((n_trees))
-    norm_d = np.zeros((n_trees))
+    norm = np.zeros((N))
+    norm_u = np.zeros((N))
+    norm_d = np.zeros((N))
 
     cdef long[:] lm, lm_u, lm_d, lm_s
     cdef unsigned int it, it_s, a_it, b_it, p, p_s, p_u, p_d, p_su, p_sd, nb_leaf, nb_leaf_l, o_all, down, up
     cdef double ss
     cdef int b, l, leaf_numb, i, s, j, leaf_numb_l
 
-    cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :, :] p_n, p_u_n, p_d_n
+    p_n = np.zeros((max_leaves, max_leaves, N))
+    p_u_n = np.zeros((max_leaves, max_leaves, N))
+    p_d_n = np.zeros((max_leaves, max_leaves, N))
     cdef double n, n_u, n_d
+    cdef double[:, :] w, w_u, w_d
+    w = np.zeros((max_leaves, N))
+    w_u = np.zeros((max_leaves, N))
+    w_d = np.zeros((max_leaves, N))
+    cdef double[:] ss_a, ss_u, ss_d
+    ss_a = np.zeros((N))
+    ss_u = np.zeros((N))
+    ss_d = np.zeros((N))
 
     for b in range(n_trees):
-        for l in range(n_trees):
+        for l_0 in range(n_trees):
+            l = (b + l_0) % n_trees # the tree itself comes first, its leaf weights are used with the other trees
+            mean_forest_b[...] = 0
+            p_n[...] = 0
+            p_u_n[...] = 0
+            p_d_n[...] = 0
             if b == l:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -548,13 +561,13 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 p_d += lm[j]
                                 p_sd += lm_s[j]
 
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                        mean_forest_b[leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
+                        mean_forest_b[leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
+                        mean_forest_b[leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                        p_n[b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
-                        p_u_n[b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                        p_d_n[b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                        p_n[leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                        p_u_n[leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                        p_d_n[leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
             else:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -613,56 +626,47 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
-    for i in range(N):
-        ss_u = 0
-        ss_d = 0
-        ss_a = 0
-        for b in range(n_trees):
-            n = 0
-            n_u = 0
-            n_d = 0
-            nb_leaf = leaves_nb[b]
-            for leaf_numb in range(nb_leaf):
-                n += p_n[b, leaf_numb, leaf_numb, i]
-                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-            norm[b] = n
-            norm_u[b] = n_u
-            norm_d[b] = n_d
-            for l in range(n_trees):
+                            p_n[leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+
+            for i in range(N):
                 if b == l:
-                    nb_leaf = leaves_nb[b]
+                    norm[i] = 0
+                    norm_u[i] = 0
+                    norm_d[i] = 0
+                    for leaf_numb in range(nb_leaf):
+                        w[leaf_numb, i] = p_n[leaf_numb, leaf_numb, i]
+                        w_u[leaf_numb, i] = p_u_n[leaf_numb, leaf_numb, i]
+                        w_d[leaf_numb, i] = p_d_n[leaf_numb, leaf_numb, i]
+                        norm[i] += w[leaf_numb, i]
+                        norm_u[i] += w_u[leaf_numb, i]
+                        norm_d[i] += w_d[leaf_numb, i]
                     for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_a[i] += mean_forest_b[leaf_numb, leaf_numb, i, 0]/norm[i] if norm[i] !=0 else 0
+                        ss_u[i] += mean_forest_b[leaf_numb, leaf_numb, i, 1]/norm_u[i] if norm_u[i] !=0 else 0
+                        ss_d[i] += mean_forest_b[leaf_numb, leaf_numb, i, 2]/norm_d[i] if norm_d[i] !=0 else 0
                 else:
-                    nb_leaf = leaves_nb[b]
-                    nb_leaf_l = leaves_nb[l]
-
                     for leaf_numb in range(nb_leaf):
                         n = 0
                         n_u = 0
                         n_d = 0
                         for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                            n += p_n[leaf_numb, leaf_numb_l, i]
+                            n_u += p_u_n[leaf_numb, leaf_numb_l, i]
+                            n_d += p_d_n[leaf_numb, leaf_numb_l, i]
 
                         for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
-
+                            ss_a[i] += (w[leaf_numb, i]/norm[i])*(mean_forest_b[leaf_numb, leaf_numb_l, i, 0]/n) if n*norm[i] !=0  else 0
+                            ss_u[i] += (w_u[leaf_numb, i]/norm_u[i])*(mean_forest_b[leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[i] !=0 else 0
+                            ss_d[i] += (w_d[leaf_numb, i]/norm_d[i])*(mean_forest_b[leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[i] !=0 else 0
 
-        sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
+    for i in range(N):
+        sdp[i] = (ss_u[i] - ss_a[i])/(ss_u[i] - ss_d[i]) if ss_u[i] - ss_d[i] !=0 else 0
 
     return np.array(sdp)
 
@@ -983,8 +987,8 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef double[:, :] mean_forest
     mean_forest = np.zeros((N, 3))
 
-    cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    cdef double[:, :, :, :] mean_forest_b
+    mean_forest_b = np.zeros((max_leaves, max_leaves, N, 3))
 
     cdef double[:] sdp
     cdef double[:] sdp_global
@@ -993,16 +997,24 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
 
     cdef long[:] lm, lm_u, lm_d, lm_s
     cdef unsigned int it, it_s, a_it, b_it, o_all, p, p_s, nb_leaf, p_u, p_d, p_su, p_sd, down, up
-    cdef double ss, ss_a, ss_u, ss_d
+    cdef double ss
     cdef int b, leaf_numb, i, s, s_0, s_1, S_size, j, max_size, size, leaf_numb_l
 
     cdef long[:] S, len_s_star
     len_s_star = np.zeros((N), dtype=np.int)
-    cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :, :] p_n, p_u_n, p_d_n
+    p_n = np.zeros((max_leaves, max_leaves, N))
+    p_u_n = np.zeros((max_leaves, max_leaves, N))
+    p_d_n = np.zeros((max_leaves, max_leaves, N))
     cdef double n, n_u, n_d
+    cdef double[:, :] w, w_u, w_d
+    w = np.zeros((max_leaves, N))
+    w_u = np.zeros((max_leaves, N))
+    w_d = np.zeros((max_leaves, N))
+    cdef double[:] ss_a, ss_u, ss_d
+    ss_a = np.zeros((N))
+    ss_u = np.zeros((N))
+    ss_d = np.zeros((N))
     cdef list power, va_id
 
     cdef vector[long] R, r
@@ -1015,9 +1027,9 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     R_buf = np.zeros((N), dtype=np.int)
 
     cdef double[:] norm, norm_u, norm_d
-    norm = np.zeros((n_trees))
-    norm_u = np.zeros((n_trees))
-    norm_d = np.zeros((n_trees))
+    norm = np.zeros((N))
+    norm_u = np.zeros((N))
+    norm_d = np.zeros((N))
 
     if C[0] != []:
         remove_va = [C[ci][cj] for ci in range(len(C)) for cj in range(len(C[ci]))]
@@ -1056,17 +1068,16 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
             for i in range(N):
                 R_buf[i] = R[i]
 
+            ss_a[...] = 0
+            ss_u[...] = 0
+            ss_d[...] = 0
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
-                        for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
-            for b in range(n_trees):
-                for l in range(n_trees):
+                for l_0 in range(n_trees):
+                    l = (b + l_0) % n_trees # the tree itself comes first, its leaf weights are used with the other trees
+                    mean_forest_b[...] = 0
+                    p_n[...] = 0
+                    p_u_n[...] = 0
+                    p_d_n[...] = 0
                     if b == l:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1119,13 +1130,13 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                         p_d += lm[j]
                                         p_sd += lm_s[j]
 
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                                mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
+                                mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
+                                mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                                p_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                p_u_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                p_d_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                p_n[leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                p_u_n[leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                p_d_n[leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
                     else:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1184,56 +1195,47 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
-            for i in range(N):
-                ss_u = 0
-                ss_d = 0
-                ss_a = 0
-                for b in range(n_trees):
-                    n = 0
-                    n_u = 0
-                    n_d = 0
-                    nb_leaf = leaves_nb[b]
-                    for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
-                    for l in range(n_trees):
+                                    p_n[leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+
+                    for i in range(N):
                         if b == l:
-                            nb_leaf = leaves_nb[b]
+                            norm[i] = 0
+                            norm_u[i] = 0
+                            norm_d[i] = 0
+                            for leaf_numb in range(nb_leaf):
+                                w[leaf_numb, i] = p_n[leaf_numb, leaf_numb, R_buf[i]]
+                                w_u[leaf_numb, i] = p_u_n[leaf_numb, leaf_numb, R_buf[i]]
+                                w_d[leaf_numb, i] = p_d_n[leaf_numb, leaf_numb, R_buf[i]]
+                                norm[i] += w[leaf_numb, i]
+                                norm_u[i] += w_u[leaf_numb, i]
+                                norm_d[i] += w_d[leaf_numb, i]
                             for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_a[i] += mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 0]/norm[i] if norm[i] !=0 else 0
+                                ss_u[i] += mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[i] if norm_u[i] !=0 else 0
+                                ss_d[i] += mean_forest_b[leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[i] if norm_d[i] !=0 else 0
                         else:
-                            nb_leaf = leaves_nb[b]
-                            nb_leaf_l = leaves_nb[l]
-
                             for leaf_numb in range(nb_leaf):
                                 n = 0
                                 n_u = 0
                                 n_d = 0
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n += p_n[leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_u += p_u_n[leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_d += p_d_n[leaf_numb, leaf_numb_l, R_buf[i]]
 
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                                    ss_a[i] += (w[leaf_numb, i]/norm[i])*(mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 0]/n) if n*norm[i] !=0  else 0
+                                    ss_u[i] += (w_u[leaf_numb, i]/norm_u[i])*(mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[i] !=0 else 0
+                                    ss_d[i] += (w_d[leaf_numb, i]/norm_d[i])*(mean_forest_b[leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[i] !=0 else 0
 
-
-                ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
+            for i in range(N):
+                ss = (ss_u[i] - ss_a[i])/(ss_u[i] - ss_d[i]) if ss_u[i] - ss_d[i] !=0 else 0
                 if ss >= sdp[R_buf[i]]:
                     sdp[R_buf[i]] = ss
                     len_s_star[R_buf[i]] = S_size
-- 
2.43.0


From 479ea90e212fdffac6f803b84a7172b910d29d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 12/56] fix: the regression search over grouped features
 compares background rows on every feature

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 8 ++++----
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 3efba92..8e7dcde 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1098,14 +1098,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(data.shape[0], nogil=True):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1163,14 +1163,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(data.shape[0], nogil=True):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 5647aef..37fcc3b 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1092,14 +1092,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(data.shape[0]):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1157,14 +1157,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(data.shape[0]):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
-- 
2.43.0


From 050f8d3c1fd5ac362f23b37aec53055376620fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 13/56] fix: a search whose candidates are cut off at 2^15 does
 not read past the enumerated sizes

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 24 ++++++++++-----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx |  6 +++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 8e7dcde..48f07fa 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -922,7 +922,7 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1063,7 +1063,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -3154,7 +3154,7 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -4197,7 +4197,7 @@ cpdef global_sdp_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data, doub
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -4678,7 +4678,7 @@ cpdef sufficient_expl_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data,
     cdef vector[vector[vector[long]]] sufficient = [[[-1]] for i in range(N)]
     cdef vector[vector[double]] sufficient_sdp = [[-1] for i in range(N)]
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6131,7 +6131,7 @@ cpdef global_ddp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
     S = np.zeros((data.shape[1]), dtype=np.int)
     S_bar = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m+1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6288,7 +6288,7 @@ cpdef global_sdp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6408,7 +6408,7 @@ cpdef sufficient_expl_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, do
     cdef vector[vector[vector[long]]] sufficient = [[[-1]] for i in range(N)]
     cdef vector[vector[double]] sufficient_sdp = [[-1] for i in range(N)]
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6503,7 +6503,7 @@ cpdef sufficient_cxpl_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, do
     cdef vector[vector[vector[long]]] sufficient = [[[-1]] for i in range(N)]
     cdef vector[vector[double]] sufficient_sdp = [[-1] for i in range(N)]
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6778,7 +6778,7 @@ cpdef global_ddp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -7294,7 +7294,7 @@ cpdef global_cdp_rf(double[:, :] X, double[::1] y_X, double[::1] DOWN, double[::
     S = np.zeros((data.shape[1]), dtype=np.int)
     S_bar = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m+1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -7740,7 +7740,7 @@ cpdef global_cdp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 37fcc3b..0d2514b 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -916,7 +916,7 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1057,7 +1057,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1380,7 +1380,7 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
-- 
2.43.0


From 3b45e19fe21e508e190b4f94887aabf74bd15cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 14/56] fix: swing values compare the coalition's own Same
 Decision Probability with the one after adding the feature

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 16 ++++++++--------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 48f07fa..578f9c9 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2319,8 +2319,6 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
@@ -2428,9 +2426,9 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -2461,10 +2459,12 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
+            if len_va_id[va] == m: # all the features are known
+                ss_m = 1
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 0d2514b..7941e24 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3294,8 +3294,6 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
@@ -3403,9 +3401,9 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -3436,10 +3434,12 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
+            if len_va_id[va] == m: # all the features are known
+                ss_m = 1
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
-- 
2.43.0


From 247fbc8535365df992ea17ec143f02b263dd9fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 15/56] fix: the slow swing values use the same per-tree
 normalised leaf weights as the Same Decision Probability

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 578f9c9..8901849 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2056,6 +2056,10 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
     cdef double[:, :] mean_forest
     mean_forest = np.zeros((N, 3))
 
+    cdef double[:, :] mean_tree, weight_tree
+    mean_tree = np.zeros((N, 3))
+    weight_tree = np.zeros((N, 3))
+
     cdef double[:] sdp
     sdp = np.zeros((N))
 
@@ -2065,6 +2069,8 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
     cdef int b, leaf_numb, i, s, j, lm, lm_s
 
     for b in range(n_trees):
+        mean_tree[...] = 0
+        weight_tree[...] = 0
         for leaf_numb in range(leaves_nb[b]):
             for i in prange(N, nogil=True, num_threads=num_threads):
                 o_all = 0
@@ -2108,9 +2114,18 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
                         p_d += lm
                         p_sd += lm_s
 
-                mean_forest[i, 0] += (p * values[b, leaf_idx_trees[b, leaf_numb], fX[i]]) / (p_s) if p_s != 0 else 0
-                mean_forest[i, 1] += (p_u * values[b, leaf_idx_trees[b, leaf_numb], fX[i]]) / (p_su) if p_su != 0 else 0
-                mean_forest[i, 2] += (p_d * values[b, leaf_idx_trees[b, leaf_numb], fX[i]]) / (p_sd) if p_sd != 0 else 0
+                mean_tree[i, 0] += (p * values[b, leaf_idx_trees[b, leaf_numb], fX[i]]) / (p_s) if p_s != 0 else 0
+                mean_tree[i, 1] += (p_u * values[b, leaf_idx_trees[b, leaf_numb], fX[i]]) / (p_su) if p_su != 0 else 0
+                mean_tree[i, 2] += (p_d * values[b, leaf_idx_trees[b, leaf_numb], fX[i]]) / (p_sd) if p_sd != 0 else 0
+
+                weight_tree[i, 0] += (1.*p)/p_s if p_s != 0 else 0
+                weight_tree[i, 1] += (1.*p_u)/p_su if p_su != 0 else 0
+                weight_tree[i, 2] += (1.*p_d)/p_sd if p_sd != 0 else 0
+
+        for i in range(N):
+            for j in range(3):
+                if weight_tree[i, j] != 0:
+                    mean_forest[i, j] += mean_tree[i, j]/weight_tree[i, j]
 
     for i in prange(N, nogil=True, num_threads=num_threads):
         ss = (mean_forest[i, 0] - mean_forest[i, 2])/(mean_forest[i, 1] - mean_forest[i, 2]) if mean_forest[i, 1] - mean_forest[i, 2] !=0 else 0
-- 
2.43.0


From f3c4644845f87bbfdd482a372533abfcb76295b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 16/56] fix: the sequential Same Decision Probability and swing
 values of boosted binary classifiers use per-class leaf values

---
 acv_explainers/acv_tree.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index e67a762..4d958ea 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -399,6 +399,19 @@ class ACVTree(BaseTree):
                                                             self.max_var,
                                                             self.node_idx_trees, C, num_threads)
 
+    def _clf_values(self):
+        """
+                Leaf values with one column per class: the margins of a boosted binary classifier have a single column
+        """
+        if safe_isinstance(self.model, ["xgboost.sklearn.XGBClassifier", "catboost.core.CatBoostClassifier",
+                                        "lightgbm.sklearn.LGBMClassifier",
+                                        "sklearn.ensemble.GradientBoostingClassifier",
+                                        "sklearn.ensemble._gb.GradientBoostingClassifier",
+                                        "sklearn.ensemble.gradient_boosting.GradientBoostingClassifier"]) and \
+                self.num_outputs == 1:
+            return self.values_binary
+        return self.values
+
     def importance_sdp_clf_nopa(self, X, data, C=[[]], pi_level=0.9, minimal=0):
         """
                 Same as importance_sdp_clf, but does not use parallelism
@@ -407,7 +420,7 @@ class ACVTree(BaseTree):
         data = check_array(data, dtype=[np.double])
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self.values,
+        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self._clf_values(),
                                                   self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                                   self.scalings, C, pi_level, minimal)
 
@@ -420,7 +433,7 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self._clf_values(),
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -432,7 +445,7 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self._clf_values(),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -563,7 +576,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self._clf_values(),
                                              self.partition_leaves_trees,
                                              self.leaf_idx_trees, self.leaves_nb, self.scalings, C, thresholds,
                                              num_threads)
@@ -571,7 +584,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_nopa(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self._clf_values(),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, C,
                                                        thresholds, num_threads)
@@ -585,7 +598,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_slow(self, X, data, C=[[]], thresholds=0.9, num_threads=5):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self._clf_values(),
                                       self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                       C, thresholds, num_threads)
 
-- 
2.43.0


From c0f5c45ef73c892bd62f154f0b8eb95fe6da54c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 17/56] fix: loading an XGBoost model strips only the 'binf'
 header, not leading bytes of its base score

---
 acv_explainers/base_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 50e5314..c3bb24b 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1207,7 +1207,9 @@ class XGBTreeModelLoader(object):
 
     def __init__(self, xgb_model):
         # new in XGBoost 1.1, 'binf' is appended to the buffer
-        self.buf = xgb_model.save_raw().lstrip(b'binf')
+        self.buf = xgb_model.save_raw()
+        if self.buf[:4] == b'binf':
+            self.buf = self.buf[4:]
         self.pos = 0
 
         # load the model parameters
-- 
2.43.0


From 8dd8c81cd662c6454b68a3391f0e82999c75922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 18/56] fix: the base score of XGBoost models with a log link
 is taken on the margin scale

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index c3bb24b..294bd39 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1230,6 +1230,8 @@ class XGBTreeModelLoader(object):
         if LooseVersion(xgboost.__version__).version[0] >= 1:
             if self.name_obj in ["binary:logistic", "reg:logistic"]:
                 self.base_score = scipy.special.logit(self.base_score)  # pylint: disable=no-member
+            elif self.name_obj in ["count:poisson", "reg:gamma", "reg:tweedie", "survival:cox", "survival:aft"]:
+                self.base_score = np.log(self.base_score)
 
         assert self.name_gbm == "gbtree", "Only the 'gbtree' model type is supported, not '%s'!" % self.name_gbm
 
-- 
2.43.0


From a6132d799024d4d631650cb5209708c52f3d7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 19/56] fix: the nodes XGBoost pruned from a tree are not
 leaves covering the whole space

---
 acv_explainers/base_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 294bd39..ba38dfd 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -577,8 +577,10 @@ class BaseTree:
                 if np.min(self.trees[i].node_sample_weight) <= 0:
                     self.fully_defined_weighting = False
 
+                # nodes that are nobody's child were pruned from the tree (XGBoost keeps their slots)
+                in_tree = set(self.trees[i].children_left) | set(self.trees[i].children_right) | {0}
                 self.leaf_idx = [idx for idx in range(len(self.trees[i].features))
-                                 if self.trees[i].children_left[idx] < 0]
+                                 if self.trees[i].children_left[idx] < 0 and idx in in_tree]
 
                 self.leaves_nb.append(len(self.leaf_idx))
 
-- 
2.43.0


From 12db659e8d0d52bba08828598454940a86f3632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 20/56] fix: the base offset of a gradient boosting classifier
 with exponential loss is half the log odds

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index ba38dfd..4642224 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -284,6 +284,8 @@ class BaseTree:
                 self.tree_output = "log_odds"
             else:
                 assert False, "Unsupported init model type: " + str(type(model.init_))
+            if model.loss == "exponential":
+                self.base_offset = self.base_offset / 2.  # this loss starts from half the log odds
 
             self.trees = [SingleTree(e.tree_, scaling=model.learning_rate, data=data, data_missing=data_missing) for e
                           in model.estimators_[:, 0]]
-- 
2.43.0


From 2eebfb6e81c083dda5e698ddcae32eb121afee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 21/56] fix: multi-class XGBoost models keep the trees of every
 boosting round, and trees after early stopping are not explained

---
 acv_explainers/base_tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 4642224..4eb9ab7 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -511,6 +511,11 @@ class BaseTree:
         else:
             raise Exception("Model type not yet supported by TreeExplainer: " + str(type(model)))
 
+        # the model does not use the trees after its limit; the limit counts the trees of one of the stacked models
+        if self.trees is not None and self.tree_limit is not None:
+            self.tree_limit = self.tree_limit * self.num_stacked_models
+            self.trees = self.trees[:self.tree_limit]
+
         # build a dense numpy version of all the tree objects
         if self.trees is not None and self.trees:
             max_nodes = np.max([len(t.values) for t in self.trees])
-- 
2.43.0


From c41066d583c4b904083b3827c3f1d114997ea844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 22/56] fix: the trees of multi-class XGBoost models with
 several parallel trees belong to the class stored in the model

---
 acv_explainers/base_tree.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 4eb9ab7..4d52175 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -31,6 +31,7 @@ class BaseTree:
         self.data_missing = data_missing
         self.fully_defined_weighting = True  # does the background dataset land in every leaf (making it valid for the tree_path_dependent method)
         self.tree_limit = None  # used for limiting the number of trees we use by default (like from early stopping)
+        self.tree_groups = None  # which of the stacked models each tree belongs to (by default they alternate)
         self.num_stacked_models = 1  # If this is greater than 1 it means we have multiple stacked models with the same number of trees in each model (XGBoost multi-output style)
         self.cat_feature_indices = None  # If this is set it tells us which features are treated categorically
         self.model = model
@@ -333,6 +334,7 @@ class BaseTree:
             self.tree_output = tree_output_name_map.get(xgb_loader.name_obj, None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                self.tree_groups = xgb_loader.tree_groups
             # self.scaling = 1
         elif safe_isinstance(model, "xgboost.sklearn.XGBClassifier"):
             import xgboost
@@ -347,6 +349,7 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                self.tree_groups = xgb_loader.tree_groups
             if self.model_output == "predict_proba":
                 if self.num_stacked_models == 1:
                     self.model_output = "probability_doubled"  # with predict_proba we need to double the outputs to match
@@ -365,6 +368,7 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                self.tree_groups = xgb_loader.tree_groups
             # self.scaling = 1
         elif safe_isinstance(model, "xgboost.sklearn.XGBRanker"):
             import xgboost
@@ -378,6 +382,7 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                self.tree_groups = xgb_loader.tree_groups
             # self.scaling = 1
         elif safe_isinstance(model, "lightgbm.basic.Booster"):
             assert_import("lightgbm")
@@ -574,7 +579,7 @@ class BaseTree:
                 self.thresholds[i, :len(self.trees[i].thresholds)] = self.trees[i].thresholds
                 if self.num_stacked_models > 1:
                     # stack_pos = int(i // (num_trees / self.num_stacked_models))
-                    stack_pos = i % self.num_stacked_models
+                    stack_pos = i % self.num_stacked_models if self.tree_groups is None else self.tree_groups[i]
                     self.values[i, :len(self.trees[i].values[:, 0]), stack_pos] = self.trees[i].values[:, 0]
                 else:
                     self.values[i, :len(self.trees[i].values)] = self.trees[i].values
@@ -1305,6 +1310,9 @@ class XGBTreeModelLoader(object):
                 self.base_weight[-1][j] = self.read('f')
                 self.leaf_child_cnt[-1][j] = self.read('i')
 
+        # load the output group (class) of each tree
+        self.tree_groups = [self.read('i') for i in range(self.num_trees)]
+
     def get_trees(self, data=None, data_missing=None):
         shape = (self.num_trees, self.num_nodes.max())
         self.children_default = np.zeros(shape, dtype=np.int)
-- 
2.43.0


From 66a7bec63352a0231c4321535b45a7a52c32b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 23/56] fix: LightGBM models with a single-leaf tree are loaded
 instead of silently dropping all trees

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 4d52175..53d99ea 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -967,6 +967,8 @@ class SingleTree:
         elif type(tree) == dict and 'tree_structure' in tree:  # LightGBM model dump
             start = tree['tree_structure']
             num_parents = tree['num_leaves'] - 1
+            if num_parents == 0:  # the dump of a single leaf has its value only
+                start = dict({'leaf_index': 0, 'leaf_count': 0}, **start)
             self.children_left = np.empty((2 * num_parents + 1), dtype=np.int32)
             self.children_right = np.empty((2 * num_parents + 1), dtype=np.int32)
             self.children_default = np.empty((2 * num_parents + 1), dtype=np.int32)
-- 
2.43.0


From 091a1b2516686927de5a3a96b498f12bcfd25d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 24/56] fix: LightGBM splits without missing values in training
 send a missing value where 0 goes

---
 acv_explainers/base_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 53d99ea..c1a629d 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -990,7 +990,10 @@ class SingleTree:
                         else:
                             self.children_right[vertex['split_index']] = vertex['right_child'][
                                                                              'leaf_index'] + num_parents
-                        if vertex['default_left']:
+                        default_left = vertex['default_left']
+                        if vertex.get('missing_type') == 'None':  # a missing value is treated as 0
+                            default_left = 0 <= vertex['threshold']
+                        if default_left:
                             self.children_default[vertex['split_index']] = self.children_left[vertex['split_index']]
                         else:
                             self.children_default[vertex['split_index']] = self.children_right[vertex['split_index']]
-- 
2.43.0


From f0804c69cc889043241c20c0dc54a1fec580b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 25/56] fix: the trees of a multi-class LightGBM Booster are
 kept apart by class

---
 acv_explainers/base_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index c1a629d..46a9b32 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -387,6 +387,7 @@ class BaseTree:
         elif safe_isinstance(model, "lightgbm.basic.Booster"):
             assert_import("lightgbm")
             self.model_type = "lightgbm"
+            self.num_stacked_models = model.num_model_per_iteration()
             self.original_model = model
             tree_info = self.original_model.dump_model()["tree_info"]
             try:
-- 
2.43.0


From 2169175c2ce5f425645505df2911b5abe9154047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:46 +0000
Subject: [PATCH 26/56] fix: isolation forests whose trees use a single feature
 are loaded

---
 acv_explainers/base_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 46a9b32..ef37ac8 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1200,7 +1200,7 @@ class IsoTree(SingleTree):
                 self.values = (self.values.T / self.values.sum(1)).T
             self.values = self.values * scaling
             # re-number the features if each tree gets a different set of features
-            self.features = np.where(self.features >= 0, tree_features[self.features], self.features)
+            self.features = np.where(self.features >= 0, tree_features[np.maximum(self.features, 0)], self.features)
 
 
 def get_xgboost_json(model):
-- 
2.43.0


From 325085d5d7ba8cd2e307a91e55a71dfc3f6ff573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 27/56] fix: the marginal Same Decision Probability does not
 round the values of a row to the type of the background data

---
 acv_explainers/utils_sdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index 822912d..baf6a0d 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -367,7 +367,7 @@ def single_msdp(x, S, model, rg_data):
     # fx = np.argmax(model.predict(x), axis=1) # for acvtree
     fx = model.predict(x.reshape(1, -1))
     d = x.shape[0]
-    data = rg_data.copy()
+    data = rg_data.astype(np.result_type(rg_data, x))  # a copy that can hold the values of x
     data[:, S] = x[S]
 
     if len(S) != d:
@@ -486,7 +486,7 @@ def importance_msdp_clf_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
 def single_msdp_reg(x, S, model, rg_data, threshold=0.2):
     fx = model.predict(x.reshape(1, -1))
     d = x.shape[0]
-    data = rg_data.copy()
+    data = rg_data.astype(np.result_type(rg_data, x))  # a copy that can hold the values of x
     data[:, S] = x[S]
 
     if len(S) != d:
-- 
2.43.0


From 0709cb3611da1c86dab1cff4528cbe50a1120fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 28/56] fix: a marginal search whose candidates are cut off at
 2^15 ends instead of raising an IndexError

---
 acv_explainers/utils_sdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index baf6a0d..8face1c 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -441,7 +441,7 @@ def importance_msdp_clf_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
     s_star = -1 * np.ones((N, X.shape[1]), dtype=np.int)
     S = np.zeros((X.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, len(power_cpp[s_0])):
             for i in range(len(power_cpp[s_0][s_1])):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -559,7 +559,7 @@ def importance_msdp_reg_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
     s_star = -1 * np.ones((N, X.shape[1]), dtype=np.int)
     S = np.zeros((X.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, len(power_cpp[s_0])):
             for i in range(len(power_cpp[s_0][s_1])):
                 S[i] = power_cpp[s_0][s_1][i]
-- 
2.43.0


From 68ce1be7f801f0f3e6328cb81885b66608095eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 29/56] fix: global rules answer with the best rule among those
 with enough coverage, and leave a row uncovered instead of raising

---
 acv_explainers/utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 0642e94..568bd16 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -986,10 +986,11 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
                 y_rule.append(rule)
                 y_S.append(S[i])
 
-        y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.max(y_weights[np.array(y_coverage) >= min_cov]) >= min_acc:
-            max_weights = np.max(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == max_weights)
+        y_weights = np.array(y_weights, dtype=float)
+        # rules without enough coverage, or whose accuracy is unknown, are not used
+        y_weights[~(np.array(y_coverage) >= min_cov) | np.isnan(y_weights)] = -np.inf
+        if len(y_out) != 0 and np.max(y_weights) >= min_acc:
+            best_acc = np.argmax(y_weights)
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
@@ -1020,10 +1021,11 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
                 y_rule.append(rule)
                 y_S.append(S[i])
 
-        y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.min(y_weights[np.array(y_coverage) >= min_cov]) <= min_mse:
-            min_weights = np.min(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == min_weights)
+        y_weights = np.array(y_weights, dtype=float)
+        # rules without enough coverage, or whose error is unknown, are not used
+        y_weights[~(np.array(y_coverage) >= min_cov) | np.isnan(y_weights)] = np.inf
+        if len(y_out) != 0 and np.min(y_weights) <= min_mse and np.min(y_weights) < np.inf:
+            best_acc = np.argmin(y_weights)
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
-- 
2.43.0


From f93f7e6140949a686dadf1231ed5af4a2d532f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 30/56] fix: a global rule keeps its own features when another
 rule lies within rounding of it

---
 acv_explainers/utils.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 568bd16..de7819d 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -1090,15 +1090,8 @@ def unique_rules(rules, rules_output):
 
 
 def unique_rules_s_star(rules, rules_output):
-    rules_unique = np.unique(rules, axis=0)
-    rules_unique_output = []
-    for i in range(rules_unique.shape[0]):
-        rule = rules_unique[i]
-        for j in range(rules.shape[0]):
-            if np.allclose(rule, rules[j]):
-                rules_unique_output.append(rules_output[j])
-                break
-    return rules_unique, rules_unique_output
+    rules_unique, first = np.unique(rules, axis=0, return_index=True)
+    return rules_unique, [rules_output[i] for i in first]
 
 
 def find_nbor_r(rec_a, rec_b, S):
-- 
2.43.0


From 332374fd11545918c558988b88c60bc4c908aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 31/56] fix: the output of a global rule is the majority label
 also for labels other than 0 and 1

---
 acv_explainers/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index de7819d..06636df 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -1052,7 +1052,9 @@ def compute_rules_metrics(rules, data, y_data, S_star, classifier=True):
         where = np.prod([(data[:, s] <= rule[s, 1]) * (data[:, s] >= rule[s, 0])
                          for s in S], axis=0).astype(bool)
         if classifier:
-            rules_output.append(1 * (np.mean(y_data[where]) > 0.5))
+            labels, counts = np.unique(y_data[where], return_counts=True)
+            label = labels[np.argmax(counts)] if len(labels) else 0
+            rules_output.append(int(label) if label == int(label) else label)
             rules_output_proba.append((np.mean(y_data[where])))
             rules_acc.append(np.mean(y_data[where] == rules_output[-1]))
         else:
-- 
2.43.0


From 07cdaa8fb546e661f4be48dceb8df8106fdacc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 32/56] fix: cache_normalized=True computes its cached values
 also without cache=True

---
 acv_explainers/base_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index ef37ac8..d88ae29 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -656,11 +656,11 @@ class BaseTree:
                 else:
                     self.lm, self.lm_s, self.lm_si = self.leaves_cache_nopa(C=self.C)
 
-                if self.cache_normalized:
-                    if self.multi_threads:
-                        self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized(C=self.C)
-                    else:
-                        self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized_nopa(C=self.C)
+            if self.cache_normalized:
+                if self.multi_threads:
+                    self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized(C=self.C)
+                else:
+                    self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized_nopa(C=self.C)
 
             # make sure the base offset is a 1D array
             if not hasattr(self.base_offset, "__len__") or len(self.base_offset) == 0:
-- 
2.43.0


From 5514d3511f85f7204b09cd468c8f49e3e767f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 33/56] fix: values cached for some groups of variables are not
 used for other groups

---
 acv_explainers/acv_tree.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 4d958ea..d620f20 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -28,7 +28,7 @@ class ACVTree(BaseTree):
             shapley_values (numpy.ndarray): The Shapley Values of each sample (# samples X # features X # model's output)
         """
         X = check_array(X, dtype=[np.double])
-        if not self.cache:
+        if not (self.cache and self._same_groups(C)):
             return cyext_acv.shap_values_leaves_pa(X, self.data, self.values,
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.max_var,
@@ -374,16 +374,21 @@ class ACVTree(BaseTree):
                                                                self.node_idx_trees, S_star, N_star, size, C,
                                                                num_threads)
 
+    def _same_groups(self, C):
+        # the cached values depend on the groups of variables they were computed for
+        return [list(c) for c in C] == [list(c) for c in self.C]
+
     def shap_values_cache(self, X, C=[[]], num_threads=10):
         """
                 Same as **shap_values**, but use cached values to speed up computation
 
         """
         X = check_array(X, dtype=[np.double])
+        lm, lm_s, lm_si = (self.lm, self.lm_s, self.lm_si) if self._same_groups(C) else self.leaves_cache(C)
         return cyext_acv_cache.shap_values_leaves_cache(np.array(X, dtype=np.float), self.data, self.values,
                                                         self.partition_leaves_trees,
-                                                        self.leaf_idx_trees, self.leaves_nb, self.lm, self.lm_s,
-                                                        self.lm_si,
+                                                        self.leaf_idx_trees, self.leaves_nb, lm, lm_s,
+                                                        lm_si,
                                                         self.max_var,
                                                         self.node_idx_trees, C, num_threads)
 
@@ -392,10 +397,11 @@ class ACVTree(BaseTree):
                 Same as **shap_values** but use cached values and no parallelism
         """
         X = check_array(X, dtype=[np.double])
+        lm, lm_s, lm_si = (self.lm, self.lm_s, self.lm_si) if self._same_groups(C) else self.leaves_cache_nopa(C)
         return cyext_acv_nopa.shap_values_leaves_cache_nopa(np.array(X, dtype=np.float), self.data, self.values,
                                                             self.partition_leaves_trees,
-                                                            self.leaf_idx_trees, self.leaves_nb, self.lm, self.lm_s,
-                                                            self.lm_si,
+                                                            self.leaf_idx_trees, self.leaves_nb, lm, lm_s,
+                                                            lm_si,
                                                             self.max_var,
                                                             self.node_idx_trees, C, num_threads)
 
@@ -658,24 +664,26 @@ class ACVTree(BaseTree):
                                                      num_threads)
 
     def shap_values_normalized_cache(self, X, C=[[]], num_threads=10):
+        lm, lm_s, lm_si = (self.lm_n, self.lm_s_n, self.lm_si_n) if self._same_groups(C) else self.leaves_cache_normalized(C)
         return cyext_acv_cache.shap_values_leaves_normalized_cache(np.array(X, dtype=np.float), self.data, self.values,
                                                                    self.partition_leaves_trees,
-                                                                   self.leaf_idx_trees, self.leaves_nb, self.lm_n,
-                                                                   self.lm_s_n, self.lm_si_n,
+                                                                   self.leaf_idx_trees, self.leaves_nb, lm,
+                                                                   lm_s, lm_si,
                                                                    self.max_var,
                                                                    self.node_idx_trees, C, num_threads)
 
     def shap_values_normalized_cache_nopa(self, X, C=[[]], num_threads=10):
+        lm, lm_s, lm_si = (self.lm_n, self.lm_s_n, self.lm_si_n) if self._same_groups(C) else self.leaves_cache_normalized_nopa(C)
         return cyext_acv_nopa.shap_values_leaves_normalized_cache_nopa(np.array(X, dtype=np.float), self.data,
                                                                        self.values,
                                                                        self.partition_leaves_trees,
-                                                                       self.leaf_idx_trees, self.leaves_nb, self.lm_n,
-                                                                       self.lm_s_n, self.lm_si_n,
+                                                                       self.leaf_idx_trees, self.leaves_nb, lm,
+                                                                       lm_s, lm_si,
                                                                        self.max_var,
                                                                        self.node_idx_trees, C, num_threads)
 
     def shap_values_normalized(self, X, C=[[]], num_threads=10):
-        if not self.cache_normalized:
+        if not (self.cache_normalized and self._same_groups(C)):
             return cyext_acv.shap_values_leaves_normalized(np.array(X, dtype=np.float), self.data, self.values,
                                                            self.partition_leaves_trees,
                                                            self.leaf_idx_trees, self.leaves_nb, self.max_var,
-- 
2.43.0


From 71ae838f90f450f09a34186ccf319f9d3e1f3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 34/56] fix: a rule is extended only by a neighbouring box that
 covers its whole side

---
 acv_explainers/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 06636df..9e722fe 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -941,9 +941,10 @@ def extend_rec(rec_a, rec_b, S, axs, dim):
     a = 0
     for k in S:
         if k not in axs:
-            if not rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]:
+            if not (rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]):
                 a += 1
-    if a == 0:
+    # boxes that touch along several axes only share a corner
+    if a == 0 and len(axs) == 1:
         for i, k in enumerate(axs):
             rec_a[k, dim[i]] = rec_b[k, dim[i]]
     return rec_a
-- 
2.43.0


From 942e6177da570444e12eeb43fec7116a04fd0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 35/56] fix: removing contained counterfactual rules keeps the
 containing rule, and one of identical rules

---
 acv_explainers/utils_cr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index e90cbca..fea0078 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -799,10 +799,9 @@ def remove_in_wsdp(ra, sa, wa):
         for j in range(ra.shape[0]):
             if i != j and np.prod([(ra[i, s, 1] <= ra[j, s, 1]) * (ra[i, s, 0] >= ra[j, s, 0])
                                    for s in range(ra.shape[1])], axis=0).astype(bool):
-                # ra[i] = ra[j]
-                # sa[i] = sa[j]
-                # wa[i] = wa[j]
-                remove_list.append(j)
+                # the first one of identical rules is kept
+                if j < i or not np.array_equal(ra[i], ra[j]):
+                    remove_list.append(i)
     ra_b = np.delete(ra_b, remove_list, axis=0)
     sa_b = np.delete(sa_b, remove_list, axis=0)
     wa_b = np.delete(wa_b, remove_list, axis=0)
-- 
2.43.0


From 85b12220fcc8ed34e8a440a036b6b025a59550da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 36/56] fix: rows sampled within a counterfactual rule are not
 rounded to the type of the row

---
 acv_explainers/utils_cr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index fea0078..6ecd7e3 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -285,7 +285,7 @@ def print_rule(col_name, r, decision=None, sdp=True, output=None):
 def generate_candidate(x, S, x_train, cond, n_iterations):
     x_poss = [x_train[(cond[i, 0] <= x_train[:, i]) * (x_train[:, i] <= cond[i, 1]), i] for i in S]
 
-    x_cand = np.repeat(x.reshape(1, -1), repeats=n_iterations, axis=0)
+    x_cand = np.repeat(x.reshape(1, -1), repeats=n_iterations, axis=0).astype(np.double)
     for i in range(len(S)):
         # TODO: check if it's a good idea
         if x_poss[i].shape[0] == 0:
-- 
2.43.0


From f2ad2221507d9de3f52de5875e4e563f9913261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 37/56] fix: the bounds of counterfactual rules are not rounded
 to two decimals

---
 acv_explainers/utils_cr.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index 6ecd7e3..cc70a8a 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -82,8 +82,6 @@ def get_compatible_leaf(acvtree, x, y_target, S_star, S_bar_set, w, x_train, y_t
 
     compatible_leaves = np.unique(compatible_leaves, axis=0)
     compatible_leaves = remove_in(compatible_leaves)
-    #     compatible_leaves = np.rint(compatible_leaves)
-    compatible_leaves = np.round(compatible_leaves, 2)
 
     partition_leaf = compatible_leaves.copy()
     d = partition_leaf.shape[1]
@@ -431,7 +429,6 @@ def get_compatible_leaf_reg(acvtree, x, y_target, down, up, S_star, S_bar_set, w
                                             )
     compatible_leaves = np.unique(compatible_leaves, axis=0)
     compatible_leaves = remove_in(compatible_leaves)
-    compatible_leaves = np.round(compatible_leaves, 2)
 
     partition_leaf = compatible_leaves.copy()
     d = partition_leaf.shape[1]
-- 
2.43.0


From 3ad1a610aa64443fc1552c29e6b60332a8bffbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 38/56] fix: local counterfactual rules in regression use the
 given probability level and search parameters

---
 acv_explainers/counterfactual_rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 3853788..5b0e099 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -94,7 +94,12 @@ class CR:
                                                                                      self.x_train, self.y_train,
                                                                                      self.w_local,
                                                                                      acc_level=acc_level,
-                                                                                     pi_level=acc_level)
+                                                                                     pi_level=pi_level,
+                                                                                     p_best=p_best, n_try=n_try,
+                                                                                     batch=batch, max_iter=max_iter,
+                                                                                     temp=temp,
+                                                                                     max_iter_convergence=max_iter_convergence
+                                                                                     )
 
     def run_sampling_local_counterfactuals(self, x, y_target=None, down=None, up=None, batch=1000, max_iter=1000, temp=0.5):
         if y_target is None:
-- 
2.43.0


From 99e4d1eb843daad5bb1d0b6de8a45761f1c6e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 39/56] fix: data with a single feature can be explained

---
 acv_explainers/base_agnostree.py | 2 +-
 acv_explainers/base_tree.py      | 2 +-
 acv_explainers/utils.py          | 4 ++--
 acv_explainers/utils_cr.py       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 9ce2e34..f77e4c6 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -130,7 +130,7 @@ class BaseAgnosTree:
                     _ = get_partition(leaf_id, partition_leaf, node_id, self.trees[i].children_left,
                                       self.trees[i].children_right, self.trees[i].features, self.trees[i].thresholds)
 
-                    self.partition_leaves.append(np.squeeze(np.array(partition_leaf)))
+                    self.partition_leaves.append(np.array(partition_leaf).reshape(-1, 2))
                     self.node_idx.append(list(set(node_id[1:])))
                     self.max_var.append(len(self.node_idx[-1]))
                     # self.data_leaves.append(np.array([(self.data[:, s] <= self.partition_leaves[-1][s, 1]) * \
diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index d88ae29..86a4767 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -606,7 +606,7 @@ class BaseTree:
                     _ = get_partition(leaf_id, partition_leaf, node_id, self.trees[i].children_left,
                                       self.trees[i].children_right, self.trees[i].features, self.trees[i].thresholds)
 
-                    self.partition_leaves.append(np.squeeze(np.array(partition_leaf)))
+                    self.partition_leaves.append(np.array(partition_leaf).reshape(-1, 2))
                     self.node_idx.append(list(set(node_id[1:])))
                     self.max_var.append(len(self.node_idx[-1]))
                     # self.data_leaves.append(np.array([(self.data[:, s] <= self.partition_leaves[-1][s, 1]) * \
diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 9e722fe..10fa311 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -2123,7 +2123,7 @@ def rules_simulated_annealing(value_function, rule, left_by_var, right_by_var, x
 
     best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)
     best_eval = value_function(best, max_values, min_values)[0]
-    curr, curr_eval = np.squeeze(best[0]), best_eval
+    curr, curr_eval = best[0], best_eval
 
     move = 0
     for i in range(max_iter):
@@ -2168,7 +2168,7 @@ def rules_by_annealing(value_function, rules, rules_data, sdp_all, x_train, pi_l
                                                     bad_sample,
                                                     p_best, n_try,
                                                     batch, max_iter, temp, max_iter_convergence)
-        sr.append(np.squeeze(best))
+        sr.append(np.reshape(best, rule.shape))
         sr_eval.append(best_eval)
     return np.array(sr), sr_eval
 
diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index cc70a8a..2ca12fd 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -725,7 +725,7 @@ def rules_simulated_annealing(value_function, rule, left_by_var, right_by_var, x
 
     best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)
     best_eval = value_function(best, max_values, min_values)[0]
-    curr, curr_eval = np.squeeze(best[0]), best_eval
+    curr, curr_eval = best[0], best_eval
 
     move = 0
     for i in range(max_iter):
-- 
2.43.0


From 842139bb66ec6c931c63c18072c53fffc00b12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 40/56] fix: regional counterfactuals can be sampled without
 having sampled local ones before

---
 acv_explainers/counterfactual_rules.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 5b0e099..05cdb33 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -16,7 +16,7 @@ class CR:
         self.ddp_local, self.w_local = None, None
         self.counterfactuals_samples_local, self.counterfactuals_samples_sdp_local, \
         self.counterfactuals_samples_w_local = None, None, None
-        self.isolation = None, None
+        self.isolation = None
         self.dist_local = None
         self.score_local = None
         self.errs_local = None
@@ -40,6 +40,10 @@ class CR:
         self.accuracy_regional_original = None
         self.coverage_regional = None
 
+    def fit_isolation(self):
+        self.isolation = IsolationForest()
+        self.isolation.fit(self.x_train)
+
     def run_local_divergent_set(self, x, y_target=None, down=None, up=None, t=None, stop=True, pi_level=0.8):
         if y_target is None:
             y_target = np.zeros(shape=(x.shape[0]))
@@ -110,8 +114,7 @@ class CR:
             up = np.zeros(shape=(x.shape[0]))
 
         print('### Sampling using the local counterfactual rules of (x, y)')
-        self.isolation = IsolationForest()
-        self.isolation.fit(self.x_train)
+        self.fit_isolation()
         outlier_score = lambda x: self.isolation.decision_function(x)
 
         self.dist_local = []
@@ -213,6 +216,8 @@ class CR:
         down = self.down_up[:, 0]
         up = self.down_up[:, 1]
         print('### Sampling using the regional counterfactual rules')
+        if self.isolation is None:
+            self.fit_isolation()
         outlier_score = lambda x: self.isolation.decision_function(x)
         self.dist_regional = []
         self.score_regional = []
@@ -252,6 +257,8 @@ class CR:
         up = self.down_up[:, 1]
 
         print('### Sampling using the regional counterfactual rules')
+        if self.isolation is None:
+            self.fit_isolation()
         outlier_score = lambda x: self.isolation.decision_function(x)
 
         self.dist_regional = []
-- 
2.43.0


From f66f96bd9bdcffafee011b10aec02fb69f7405ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 41/56] fix: sampling counterfactuals for all test rows uses
 the whole rule of a region that covers the row

---
 acv_explainers/counterfactual_rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 05cdb33..8781d02 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -282,10 +282,10 @@ class CR:
         for i in tqdm(range(self.x_test.shape[0])):
             xi = self.x_test[i]
             best_id = best_counterfactuals[i]
-            if len(self.counterfactuals_samples_regional[best_id]) != 0:
+            if x_test_pb[best_id, i] > 0 and len(self.counterfactuals_samples_regional[best_id]) != 0:
                 a, sco = simulated_annealing(outlier_score, xi, self.S_star_regional[best_id], self.x_train,
                                              self.counterfactuals_samples_regional[best_id][
-                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])][0],
+                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])],
                                              batch, max_iter, temp)
                 self.dist_regional.append(np.squeeze(a))
                 self.score_regional.append(sco)
@@ -294,7 +294,7 @@ class CR:
                         self.dist_regional[-1].reshape(1, -1)) != self.acv_explainer.predict(xi.reshape(1, -1)))
                 else:
                     self.errs_regional.append(
-                        down[i] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[i])
+                        down[best_id] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[best_id])
 
                 if self.model != None:
                     self.errs_regional_original.append(self.model.predict(
-- 
2.43.0


From d2209d43d850fe5b86cf1e1dc67649342b5a527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 42/56] fix: trees over a single feature load again

---
 acv_explainers/base_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 86a4767..d88ae29 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -606,7 +606,7 @@ class BaseTree:
                     _ = get_partition(leaf_id, partition_leaf, node_id, self.trees[i].children_left,
                                       self.trees[i].children_right, self.trees[i].features, self.trees[i].thresholds)
 
-                    self.partition_leaves.append(np.array(partition_leaf).reshape(-1, 2))
+                    self.partition_leaves.append(np.squeeze(np.array(partition_leaf)))
                     self.node_idx.append(list(set(node_id[1:])))
                     self.max_var.append(len(self.node_idx[-1]))
                     # self.data_leaves.append(np.array([(self.data[:, s] <= self.partition_leaves[-1][s, 1]) * \
-- 
2.43.0


From f2df1f71077b69e395150309eb93e7f61b69f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 43/56] fix: compute_exp_normalized_nopa calls the function
 that exists

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index d620f20..32df772 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -658,7 +658,7 @@ class ACVTree(BaseTree):
                                                 num_threads)
 
     def compute_exp_normalized_nopa(self, X, S, data, num_threads=10):
-        return cyext_acv.compute_exp_normalized_nopa(np.array(X, dtype=np.float), S, data, self.values,
+        return cyext_acv_nopa.compute_exp_normalized(np.array(X, dtype=np.float), S, data, self.values,
                                                      self.partition_leaves_trees,
                                                      self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                                      num_threads)
-- 
2.43.0


From 8ba9f099c62cdd59bcd9a164fee805b084a25fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 44/56] fix: the level t of the forest estimators of ACVTree in
 regression defines the intervals they work on

---
 acv_explainers/acv_tree.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 32df772..b6f3ffe 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -849,6 +849,14 @@ class ACVTree(BaseTree):
                                             quantile=quantile)
         return exp
 
+    @staticmethod
+    def _rf_interval(y, t):
+        """The targets that count as the same decision in regression, one interval per observation: t is either the
+        level of (squared) variation around the target, as for compute_sdp_shaff, or the intervals themselves"""
+        if np.ndim(t) == 0:
+            return np.column_stack((y - np.sqrt(t), y + np.sqrt(t)))
+        return np.array(t, dtype=np.double)
+
     def compute_sdp_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
         """
          Estimate the Same Decision Probability (SDP) of a set of samples X given subset S using the consistent estimator
@@ -877,6 +885,7 @@ class ACVTree(BaseTree):
         X, y = check_X_y(X, y, dtype=np.double)
         data, y_data = check_X_y(data, y_data, dtype=np.double)
         y, y_data = as_float_array(y).astype(np.double), as_float_array(y_data).astype(np.double)
+        t = self._rf_interval(y, t)
         try:
             check_consistent_length(X, S)
         except ValueError as exp:
@@ -922,9 +931,9 @@ class ACVTree(BaseTree):
         except ValueError as exp:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
-
         sdp = cyext_acv.compute_cdf_rf(X, y, data, y_data, S, self.features, self.thresholds, self.children_left,
-                                       self.children_right, self.max_depth, min_node_size, classifier, t)
+                                       self.children_right, self.max_depth, min_node_size, classifier,
+                                       y if np.ndim(t) == 0 else t)
         return sdp
 
     def importance_sdp_rf(self, X, y, data, y_data, min_node_size=5, classifier=1, t=20,
@@ -979,6 +988,7 @@ class ACVTree(BaseTree):
         X, y = check_X_y(X, y, dtype=np.double)
         data, y_data = check_X_y(data, y_data, dtype=np.double)
         y, y_data = as_float_array(y).astype(np.double), as_float_array(y_data).astype(np.double)
+        t = self._rf_interval(y, t)
 
         if X.shape[1] > 10:
             try:
@@ -1043,6 +1053,7 @@ class ACVTree(BaseTree):
         X, y = check_X_y(X, y, dtype=np.double)
         data, y_data = check_X_y(data, y_data, dtype=np.double)
         y, y_data = as_float_array(y).astype(np.double), as_float_array(y_data).astype(np.double)
+        t = self._rf_interval(y, t)
         if X.shape[1] > 10:
 
             try:
@@ -1091,6 +1102,7 @@ class ACVTree(BaseTree):
         X, y = check_X_y(X, y, dtype=np.double)
         data, y_data = check_X_y(data, y_data, dtype=np.double)
         y, y_data = as_float_array(y).astype(np.double), as_float_array(y_data).astype(np.double)
+        t = self._rf_interval(y, t)
         try:
             check_consistent_length(X, S)
         except ValueError as exp:
-- 
2.43.0


From ef3ca03edd91ce27200473bc7ef81417a333f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 45/56] fix: importance_sdp_rf preselects the features of
 models without feature importances

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index b6f3ffe..037fe51 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -995,7 +995,7 @@ class ACVTree(BaseTree):
                 feature_importance = -np.array(self.model.feature_importances_)
                 search_space = list(np.argsort(feature_importance))
             except AttributeError:
-                flat_list = [item for t in self.ACXplainer.node_idx_trees for sublist in t for item in sublist]
+                flat_list = [item for t in self.node_idx_trees for sublist in t for item in sublist]
                 node_idx = pd.Series(flat_list)
                 search_space = []
                 for v in (node_idx.value_counts().keys()):
-- 
2.43.0


From aed87412159ef076a558556fbb0d5b32785c14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 46/56] fix: the Python estimators count a row on a threshold
 in the left leaf only

---
 acv_explainers/py_acv.py    |  6 +++---
 acv_explainers/utils_exp.py | 10 +++++-----
 acv_explainers/utils_sdp.py | 40 ++++++++++++++++++-------------------
 3 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 402b7c8..b5d122b 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -238,7 +238,7 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in N_star], axis=0)
 
                 lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
@@ -263,9 +263,9 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                         Sm += [c]
             for S in powerset(Sm):
 
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in chain_l(S) + convert_list(i) + N_star], axis=0)
-                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                   for s in chain_l(S) + N_star], axis=0)
 
                 coef = 0
diff --git a/acv_explainers/utils_exp.py b/acv_explainers/utils_exp.py
index 062d7f8..c763b6f 100644
--- a/acv_explainers/utils_exp.py
+++ b/acv_explainers/utils_exp.py
@@ -18,14 +18,14 @@ def compute_exp(X, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             p_ss = np.sum(p_s)
@@ -52,13 +52,13 @@ def compute_exp_cat(X, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
             value = model.values[b, leaf_id]
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index 8face1c..9bf78a9 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -28,16 +28,16 @@ def compute_sdp_reg(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
-                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                                    S], axis=0)
 
                     for i, x in enumerate(X):
@@ -77,19 +77,19 @@ def compute_sdp_reg(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
-                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                        for s in S], axis=0)
 
                         for i, x in enumerate(X):
@@ -146,13 +146,13 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
                     for i, x in enumerate(X):
@@ -193,15 +193,15 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
                         for i, x in enumerate(X):
@@ -264,12 +264,12 @@ def compute_sdp_clf_cat(X, tX, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
@@ -328,13 +328,13 @@ def compute_sdp_clf(X, tX, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             for i, x in enumerate(X):
-- 
2.43.0


From 509ebd4f4e0c5f1febbf9ef08b9f4fb723bfea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 47/56] fix: leaves without background observations do not make
 the Python Shapley values NaN

---
 acv_explainers/py_acv.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index b5d122b..4e9f63f 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -46,6 +46,9 @@ def shap_values_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves_nb,
                     node_id = node_id + c
             d += len(C)
 
+        if lm == 0:  # a leaf without background observations has no weight in any coalition
+            continue
+
         for i in va_id:
             if not set(convert_list(i)).issubset(node_id):
                 continue
@@ -148,6 +151,9 @@ def shap_values_leaves_v2(x, partition_leaves, data, node_idx, leaf_idx, leaves_
 
         node_id = node_id_v2.copy()
         # end handle coalition
+        if lm == 0:  # a leaf without background observations has no weight in any coalition
+            continue
+
         for i in va_id:
             if not i in node_id:
                 continue
@@ -235,6 +241,9 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                         node_id = node_id + c
                     d += 1
 
+        if lm == 0:  # a leaf without background observations has no weight in any coalition
+            continue
+
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-- 
2.43.0


From e457b48068708fee69ee5e5302884ae17efa4c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 48/56] fix: the Python active Shapley values handle the empty
 coalition and no null variables

---
 acv_explainers/py_acv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 4e9f63f..639b9dc 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -247,10 +247,10 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
+                comp_si = np.prod([np.ones(x.shape[0])] + [(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in N_star], axis=0)
 
-                lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
+                lm_si = np.sum(np.prod([np.ones(data.shape[0])] + [(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in N_star], axis=0))
 
                 p_si = comp_si * lm / lm_si
@@ -272,18 +272,18 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                         Sm += [c]
             for S in powerset(Sm):
 
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
+                comp_si = np.prod([np.ones(x.shape[0])] + [(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in chain_l(S) + convert_list(i) + N_star], axis=0)
-                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
+                comp_s = np.prod([np.ones(x.shape[0])] + [(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                   for s in chain_l(S) + N_star], axis=0)
 
                 coef = 0
                 for l in range(1, d - len(Sm)):
                     coef += comb(d - len(Sm) - 1, l) * comb(d - 1, l + len(S)) ** (-1)
 
-                lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
+                lm_si = np.sum(np.prod([np.ones(data.shape[0])] + [(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + convert_list(i) + N_star], axis=0))
-                lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
+                lm_s = np.sum(np.prod([np.ones(data.shape[0])] + [(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + N_star], axis=0))
 
                 p_si = comp_si * lm / lm_si
-- 
2.43.0


From a43ceb8f3ea4a23a552be010cca7377f5d0b2ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 49/56] fix: a declared group of one feature raised a
 ValueError in the Python estimators

---
 acv_explainers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 10fa311..38bdc3e 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -312,7 +312,7 @@ def chain_l(l):
         for it in l:
             if type(it) != list:
                 chain.append(it)
-            elif type(it) == list and len(it) > 1:
+            elif type(it) == list and len(it) > 0:
                 chain = chain + it
             else:
                 raise ValueError('problem...')
-- 
2.43.0


From e2891769a7d02ad0e6c3f8122f5a44041d02a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 50/56] fix: normalised conditional expectations were NaN when
 no background row agrees with a reachable leaf

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 2 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 8901849..a8234cc 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -143,7 +143,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 for s in range(S_size):
                     if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
-                if o_all > 0:
+                if o_all > 0 or p_ss == 0:
                     continue
 
                 p_n[b, leaf_numb, i] += (1.*lm)/p_ss
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 7941e24..db25f51 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -137,7 +137,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 for s in range(S_size):
                     if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
-                if o_all > 0:
+                if o_all > 0 or p_ss == 0:
                     continue
 
                 p_n[b, leaf_numb, i] += (1.*lm)/p_ss
-- 
2.43.0


From b5850a8c8e6e32df4b03f8f818e28fd19c4d6ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 51/56] fix: normalised Shapley values forgot the weights of
 earlier leaves after a leaf without weight

---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_cache.pyx | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index a8234cc..d4538e2 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1712,7 +1712,7 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb, leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
                         else:
@@ -1737,8 +1737,8 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_s = n_s + (cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                             p_s = (cs[va, leaf_numb, leaf_numb, counter] * lm)/(lm_s[va, leaf_numb, leaf_numb, counter] * n_s) if n_s*lm_s[va, leaf_numb, leaf_numb, counter] !=0 else 0
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb,  leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index 30791b1..bc950de 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -582,7 +582,7 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -611,8 +611,8 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index db25f51..c29e647 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3015,7 +3015,7 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -3044,8 +3044,8 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
-- 
2.43.0


From e66705fa050f7a22789d2173de6dc128f420b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 52/56] fix: the web application failed with a single test row
 and offered observations beyond the last one

---
 acv_app/app.py     | 4 ++--
 acv_app/sdp_app.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/acv_app/app.py b/acv_app/app.py
index 94ce07b..1b2a1d3 100644
--- a/acv_app/app.py
+++ b/acv_app/app.py
@@ -80,9 +80,9 @@ def main(LOAD_PATH):
     @st.cache
     def load_data():
         x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'))
-        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.squeeze()
+        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.squeeze(axis=1)
         x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'))
-        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.squeeze()
+        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.squeeze(axis=1)
         return x_train, x_test, y_train, y_test
 
     # data_load_state = st.sidebar.text('Loading data...')
diff --git a/acv_app/sdp_app.py b/acv_app/sdp_app.py
index 0e29f50..a386374 100644
--- a/acv_app/sdp_app.py
+++ b/acv_app/sdp_app.py
@@ -40,7 +40,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
 
     idx = st.selectbox(
         'Choose the observation you want to explain',
-        list(range(nb))
+        list(range(min(nb, x_test.shape[0])))
     )
 
     @st.cache(allow_output_mutation=True)
-- 
2.43.0


From 873b42a9f07cf69266ca4c24af35ad2aef8a1949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 53/56] fix: the web application read the saved data back with
 rounding errors

---
 acv_app/app.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acv_app/app.py b/acv_app/app.py
index 1b2a1d3..2e14fa5 100644
--- a/acv_app/app.py
+++ b/acv_app/app.py
@@ -79,10 +79,10 @@ def main(LOAD_PATH):
 
     @st.cache
     def load_data():
-        x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'))
-        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.squeeze(axis=1)
-        x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'))
-        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.squeeze(axis=1)
+        x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'), float_precision='round_trip')
+        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv'), float_precision='round_trip').values.squeeze(axis=1)
+        x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'), float_precision='round_trip')
+        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv'), float_precision='round_trip').values.squeeze(axis=1)
         return x_train, x_test, y_train, y_test
 
     # data_load_state = st.sidebar.text('Loading data...')
-- 
2.43.0


From 2333db548e2b3464b6903e824c08a2c68df1e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 54/56] fix: the Shapley page offered observations whose values
 it does not compute

---
 acv_app/sv_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_app/sv_app.py b/acv_app/sv_app.py
index 9d80176..0f084f8 100644
--- a/acv_app/sv_app.py
+++ b/acv_app/sv_app.py
@@ -12,7 +12,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
         return acvtree.ACXplainer.shap_values(x_test.values.astype(np.double)[:100], x_train.values.astype(np.double))
     idx = st.selectbox(
         'Choose the observation you want to explain',
-        list(range(x_test.shape[0]))
+        list(range(min(100, x_test.shape[0])))
     )
 
     col1, col2 = st.columns(2)
-- 
2.43.0


From 39198ff278002252406e2bc5abf24e9723667389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 55/56] fix: plots.bar_legacy returned an undefined name

---
 acv_app/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_app/plots.py b/acv_app/plots.py
index 34bdec7..e2d07d9 100644
--- a/acv_app/plots.py
+++ b/acv_app/plots.py
@@ -428,4 +428,4 @@ def bar_legacy(shap_values, features=None, feature_names=None, max_display=None,
 
     pl.xlabel("SHAP value (impact on model output)")
 
-    return fig
\ No newline at end of file
+    return pl.gcf()
\ No newline at end of file
-- 
2.43.0


From 1ee54c0a92d234008a5bfc31759e2a08e5766c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 56/56] fix: the trees of a loaded isolation forest could not
 predict (their features were int64)

---
 acv_explainers/base_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index d88ae29..dcefda7 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1200,7 +1200,7 @@ class IsoTree(SingleTree):
                 self.values = (self.values.T / self.values.sum(1)).T
             self.values = self.values * scaling
             # re-number the features if each tree gets a different set of features
-            self.features = np.where(self.features >= 0, tree_features[np.maximum(self.features, 0)], self.features)
+            self.features = np.where(self.features >= 0, tree_features[np.maximum(self.features, 0)], self.features).astype(np.int32)
 
 
 def get_xgboost_json(model):
-- 
2.43.0

