From d8aa4f3c77b2159c004cc2f0baaabb0a346f0953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:09 +0000
Subject: [PATCH 01/61] fix: accept time bounds with NumPy >= 2 (int() of a
 1-element array)

---
 src/flowstab/network_clustering.py | 2 +-
 src/flowstab/temporal_network.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e450807..e47bdb7 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -1903,7 +1903,7 @@ class FlowIntegralClustering:
                         t = self.time_list[self.time_list >= t].min()
 
 
-                k = int(np.where(self.time_list == t)[0])
+                k = int(np.where(self.time_list == t)[0][0])
                 self._k_integral_grid.append(k)
                 self._t_integral_grid.append(t)
 
diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index fb660fc..f09e869 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1134,7 +1134,7 @@ class ContTempNetwork:
             else:
                 t = self.times[self.times <= t].max()
 
-        k = int(np.where(self.times == t)[0])
+        k = int(np.where(self.times == t)[0][0])
 
         return t, k
 
-- 
2.43.0


From 78cf7573ce1deba738fe125de7e2213b9dd69faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:45 +0000
Subject: [PATCH 02/61] fix: keep int32 indices when row-normalising sparse
 matrices

---
 src/flowstab/sparse_stoch_mat.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index d71d46b..bc4941c 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -223,10 +223,10 @@ class SparseStochMat:
         """Normalize the rows in place
         """
 
-        self.T_small.indptr = self.T_small.indptr.astype(np.int64, copy=False)
-        self.T_small.indices = self.T_small.indices.astype(np.int64, copy=False)
-
-        _css.inplace_csr_row_normalize(self.T_small.data, self.T_small.indptr,
+        # only the kernel needs int64 pointers, the other sparse_stoch kernels
+        # need T_small to keep int32 indices
+        _css.inplace_csr_row_normalize(self.T_small.data,
+                                       self.T_small.indptr.astype(np.int64, copy=False),
                                        self.T_small.shape[0], row_sum)
 
         self.diag_val = row_sum
@@ -571,16 +571,16 @@ def inplace_csr_row_normalize(X, row_sum=1.0):
         #             X.data[X.indptr[i]:X.indptr[i+1]] -= row_sum_tmp/(X.indptr[i+1]-X.indptr[i])
         #         else:
         #             X.data[X.indptr[i]:X.indptr[i+1]] /= (row_sum_tmp/row_sum[i])
-        X.indptr = X.indptr.astype(np.int64, copy=False)
-        X.indices = X.indices.astype(np.int64, copy=False)
+        # only the kernel needs int64 pointers, X keeps its index dtype
+        indptr = X.indptr.astype(np.int64, copy=False)
         if isinstance(row_sum, float):
-            _css.inplace_csr_row_normalize(X.data, X.indptr,
+            _css.inplace_csr_row_normalize(X.data, indptr,
                                                 X.shape[0], row_sum)
 
         elif isinstance(row_sum, np.ndarray) and row_sum.dtype == np.float64:
             assert row_sum.shape[0] == X.shape[0] and len(row_sum.shape) == 1
 
-            _css.inplace_csr_row_normalize_array(X.data, X.indptr,
+            _css.inplace_csr_row_normalize_array(X.data, indptr,
                                                     X.shape[0], row_sum)
         else:
             raise TypeError("row_sum must by float or ndarray of floats")
-- 
2.43.0


From 15fd6b62fec26c132598cae14ed5a3da2a83a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:19 +0000
Subject: [PATCH 03/61] fix: stability move gains of a node with an empty row
 in PT read out of the row

---
 src/flowstab/_cython_sparse_stoch.pyx | 20 ++++++++------------
 src/flowstab/_cython_subst.py         | 16 ++++++----------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 91b32d2..f3877cf 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -753,7 +753,7 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -771,12 +771,10 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    # check if PT[k,k] is nonzero (row k can be empty)
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
@@ -843,7 +841,7 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -861,12 +859,10 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    # check if PT[k,k] is nonzero (row k can be empty)
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 12da289..636907b 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -419,12 +419,10 @@ def compute_delta_PT_moveto(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    # check if PT[k,k] is nonzero (row k can be empty)
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
@@ -500,12 +498,10 @@ def compute_delta_PT_moveout(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    # check if PT[k,k] is nonzero (row k can be empty)
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
-- 
2.43.0


From 2fd9c0226ee3268c48d34922957f55b81a27578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:41 +0000
Subject: [PATCH 04/61] fix: size the buffers of sparse_stoch_from_full_csr by
 the rows that are kept

---
 src/flowstab/_cython_sparse_stoch.pyx      | 6 +++++-
 src/flowstab/_cython_sparse_stoch_subst.py | 3 ++-
 src/flowstab/_cython_subst.py              | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index f3877cf..cf213bd 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -604,9 +604,13 @@ def sparse_stoch_from_full_csr(int[:] nz_rowcols,
         
         cdef Py_ssize_t k, its, tsrow, tbrow, i, nzr        
         
-        cdef Py_ssize_t Ts_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+        cdef Py_ssize_t Ts_nnz = 0
         cdef Py_ssize_t Ts_size = nz_rowcols.shape[0]
 
+        # number of stored elements in the kept rows
+        for tsrow in range(Ts_size):
+            tbrow = nz_rowcols[tsrow]
+            Ts_nnz += Tf_indptr[tbrow+1] - Tf_indptr[tbrow]
         
         cdef double[:] Ts_data = np.zeros(Ts_nnz, dtype=np.float64)
         cdef int[:] Ts_indices = -1*np.ones(Ts_nnz, dtype=np.int32)
diff --git a/src/flowstab/_cython_sparse_stoch_subst.py b/src/flowstab/_cython_sparse_stoch_subst.py
index 624f887..b4b75c6 100644
--- a/src/flowstab/_cython_sparse_stoch_subst.py
+++ b/src/flowstab/_cython_sparse_stoch_subst.py
@@ -3,7 +3,8 @@ import numpy as np
 def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_val):
     """Pure python implementation of the sparce_stoch_mat
     """
-    T_s_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+    # number of stored elements in the kept rows
+    T_s_nnz = sum(Tf_indptr[row+1] - Tf_indptr[row] for row in nz_rowcols)
 
     T_s_data = np.zeros(T_s_nnz, dtype=np.float64)
     T_s_indices = -1*np.ones(T_s_nnz, dtype=np.int32)
diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 636907b..8dd3d98 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -9,7 +9,8 @@ from scipy.sparse import (
 def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_val):
     """Pure python implementation of the sparce_stoch_mat
     """
-    T_s_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+    # number of stored elements in the kept rows
+    T_s_nnz = sum(Tf_indptr[row+1] - Tf_indptr[row] for row in nz_rowcols)
 
     T_s_data = np.zeros(T_s_nnz, dtype=np.float64)
     T_s_indices = -1*np.ones(T_s_nnz, dtype=np.int32)
-- 
2.43.0


From 15373514325d9709410f4126f8c70c38a742ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:41 +0000
Subject: [PATCH 05/61] fix: complete the pure Python substitutes of the
 sparse_stoch kernels

---
 src/flowstab/_cython_subst.py | 43 +++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 8dd3d98..a2d9262 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -43,7 +43,11 @@ def inplace_csr_row_normalize(Tf_data, Tf_indptr, n_row:int, row_sum:float):
     for i in range(n_row):
         row_sum_tmp = Tf_data[Tf_indptr[i]:Tf_indptr[i+1]].sum()
         if row_sum_tmp != 0:
-            Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)
+            if row_sum == 0:
+                Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] -= \
+                                row_sum_tmp/(Tf_indptr[i+1]-Tf_indptr[i])
+            else:
+                Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)
 
 class SPA:
     """sparse accumulator
@@ -372,7 +376,22 @@ def aggregate_csr_mat(
         
         performs B.shape[0]**2 operations
     """
-    raise NotImplementedError
+    Bdata = []
+    Brows = []
+    Bcols = []
+    new_size = idxptr.shape[0]-1
+
+    for row in range(new_size):
+        for col in range(new_size):
+            pt = get_submat_sum(Adata, Aindices, Aindptr,
+                                idxs_array[idxptr[row]:idxptr[row+1]],
+                                idxs_array[idxptr[col]:idxptr[col+1]])
+            if pt > 0.0:
+                Bdata.append(pt)
+                Brows.append(row)
+                Bcols.append(col)
+
+    return Bdata, Brows, Bcols, new_size
 
 def aggregate_csr_mat_2(
     Adata,
@@ -386,7 +405,23 @@ def aggregate_csr_mat_2(
         
         Performs Adata.size operations
     """
-    raise NotImplementedError
+    Bdata = []
+    Brows = []
+    Bcols = []
+    new_size = idxptr.shape[0]-1
+
+    # map indices of A to indicies of B
+    AtoB = {idxs_array[ka]: kb for kb in range(new_size)
+            for ka in range(idxptr[kb], idxptr[kb+1])}
+
+    # loop over values of A
+    for row in range(Aindptr.shape[0]-1):
+        for k in range(Aindptr[row], Aindptr[row+1]):
+            Bdata.append(Adata[k])
+            Brows.append(AtoB[row])
+            Bcols.append(AtoB[Aindices[k]])
+
+    return Bdata, Brows, Bcols, new_size
 
 def compute_delta_PT_moveto(
     PTdata,
@@ -507,7 +542,7 @@ def compute_delta_PT_moveout(
         
     return s
 
-def cython_compute_delta_S_moveout(
+def compute_delta_S_moveout(
     PTdata,
     PTindices,
     PTindptr,
-- 
2.43.0


From f8134c80efdf72a39478e76ec661f7e4ce561c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:41 +0000
Subject: [PATCH 06/61] fix: initialise the accumulator of cython_nvi_parallel

---
 src/flowstab/_cython_fast_funcs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_fast_funcs.pyx b/src/flowstab/_cython_fast_funcs.pyx
index 3f3c5d4..897c7e1 100644
--- a/src/flowstab/_cython_fast_funcs.pyx
+++ b/src/flowstab/_cython_fast_funcs.pyx
@@ -227,7 +227,7 @@ def cython_nvi_parallel(list clusters1, list clusters2, int N, int num_threads):
     cdef Py_ssize_t n1 = len(clusters1)
     cdef Py_ssize_t n2 = len(clusters2)
     cdef Py_ssize_t i, j
-    cdef double[:] VI_res = cvarray(shape=(n1,),itemsize=sizeof(double),format='d')
+    cdef double[:] VI_res = np.zeros(n1, dtype=np.float64)
     
     # version that requires much less memory
     for i in range(n1):
-- 
2.43.0


From f10debe917454be6d82f568f79dbdb6efb2a867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:17 +0000
Subject: [PATCH 07/61] fix: row normalisation substitute overwrote the data
 with a constant

---
 src/flowstab/_cython_sparse_stoch_subst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_sparse_stoch_subst.py b/src/flowstab/_cython_sparse_stoch_subst.py
index b4b75c6..a520106 100644
--- a/src/flowstab/_cython_sparse_stoch_subst.py
+++ b/src/flowstab/_cython_sparse_stoch_subst.py
@@ -38,4 +38,4 @@ def inplace_csr_row_normalize(X_data,
     for i in range(n_row):
         row_sum_tmp = X_data[X_indptr[i]:X_indptr[i+1]].sum()
         if row_sum_tmp != 0:
-            X_data[X_indptr[i]:X_indptr[i+1]] = (row_sum_tmp/row_sum)
+            X_data[X_indptr[i]:X_indptr[i+1]] /= (row_sum_tmp/row_sum)
-- 
2.43.0


From 270fd363ee76bf1d210407dcc351895a31efacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:17 +0000
Subject: [PATCH 08/61] fix: relabel the nodes of an events_table given as a
 DataFrame or CSV path

---
 src/flowstab/temporal_network.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f09e869..a625f34 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -175,7 +175,8 @@ class ContTempNetwork:
                         f"The file at {events_table} could not be parsed."
                     )
             elif isinstance(events_table, pd.DataFrame):
-                self.events_table = events_table
+                # work on a copy, its columns are modified below
+                self.events_table = events_table.copy()
             else:
                 raise ValueError(
                     "`events_table` must be a pandas DataFrame or the"
@@ -185,10 +186,14 @@ class ContTempNetwork:
             reset_event_table_index = False     
             if relabel_nodes:                   
                 all_nodes = set()
-                all_nodes.update(events_table.source_nodes.tolist())
-                all_nodes.update(events_table.target_nodes.tolist())
+                all_nodes.update(self.events_table.source_nodes.tolist())
+                all_nodes.update(self.events_table.target_nodes.tolist())
                 self.label_to_node_dict = {l : n for n, l in enumerate(sorted(all_nodes))}
                 self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}
+
+                for nodes in (self._SOURCES, self._TARGETS):
+                    self.events_table[nodes] = \
+                        self.events_table[nodes].map(self.label_to_node_dict)
             else:
                 self.node_to_label_dict=node_to_label_dict
 
-- 
2.43.0


From d2d8c0f50b4f259ccefe1d38ce0736627b64773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:17 +0000
Subject: [PATCH 09/61] fix: merging overlapping events truncated nested events
 and kept stale durations

---
 src/flowstab/temporal_network.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index a625f34..df2526d 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1788,7 +1788,7 @@ class ContTempNetwork:
         """Merge temporally overlapping undirected event between each pair of nodes.
             
         """
-        events_to_keep = np.ones(self.events_table.shape[0],dtype=bool)
+        events_to_keep = pd.Series(True, index=self.events_table.index)
 
         A = self.compute_static_adjacency_matrix()
 
@@ -1820,8 +1820,9 @@ class ContTempNetwork:
                     if ev2.starting_times < ev1.ending_times:
                         #merge
                         events_to_keep[ev2.Index] = False
-                        self.events_table.loc[ev1.Index,"ending_times"] = ev2.ending_times
-                        ev1._replace(ending_times=ev2.ending_times)
+                        end = max(ev1.ending_times, ev2.ending_times)
+                        self.events_table.loc[ev1.Index,"ending_times"] = end
+                        ev1 = ev1._replace(ending_times=end)
                         merged += 1
                     else:
                         ev1 = ev2
@@ -1832,7 +1833,10 @@ class ContTempNetwork:
 
         self.events_table = self.events_table.loc[events_to_keep]
 
-        self.events_table.reset_index(inplace=True, drop=True)
+        self.events_table = self.events_table.reset_index(drop=True)
+
+        self.events_table["durations"] = self.events_table.ending_times - \
+                            self.events_table.starting_times
 
         self.num_nodes = self.node_array.shape[0]
 
-- 
2.43.0


From 09246478a3752af1781f73b889afc1b55f73698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:17 +0000
Subject: [PATCH 10/61] fix: drop matrices derived from the previous Laplacians
 when they are recomputed

---
 src/flowstab/temporal_network.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index df2526d..cc26861 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1144,6 +1144,20 @@ class ContTempNetwork:
         return t, k
 
 
+    def _clear_derived_matrices(self):
+        """Remove the matrices that were computed from the Laplacians."""
+        for mat in ["adjacencies",
+                    "inter_T",
+                    "inter_T_lin",
+                    "T",
+                    "T_lin",
+                    "_stationary_trans",
+                    "delta_inter_T",
+                    "delta_inter_T_lin"]:
+            if hasattr(self, mat):
+                delattr(self, mat)
+
+
     def compute_laplacian_matrices(self, *, t_start=None, t_stop=None,
                                    save_adjacencies=False):
         """Computes the laplacian matrices and saves them in `self.laplacians`
@@ -1199,6 +1213,9 @@ class ContTempNetwork:
         S = I.copy()
 
 
+        # matrices derived from previous Laplacians are not valid anymore
+        self._clear_derived_matrices()
+
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
@@ -2019,6 +2036,9 @@ class ContTempInstNetwork(ContTempNetwork):
         S = I.copy()
 
 
+        # matrices derived from previous Laplacians are not valid anymore
+        self._clear_derived_matrices()
+
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
-- 
2.43.0


From 03168d140d1e450bded6e5f973a15ff0868936cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:17 +0000
Subject: [PATCH 11/61] fix: linear transition matrix of an empty window in the
 sparse format

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index cc26861..1ea85ba 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1574,7 +1574,7 @@ class ContTempNetwork:
                 logger.debug("no events, lin. trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T_lin[lamda].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    self.inter_T_lin[lamda][t_s].append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
                     self.inter_T_lin[lamda][t_s].append(eye(self.num_nodes,
                                                       dtype=np.float64,
-- 
2.43.0


From 575733ae6ee7c0386d7eca99ac714f25049bbc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:17 +0000
Subject: [PATCH 12/61] fix: initialise instantaneous networks created from an
 events_table (and loaded ones)

---
 src/flowstab/temporal_network.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 1ea85ba..20d3c9a 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1985,15 +1985,18 @@ class ContTempInstNetwork(ContTempNetwork):
 
             ending_times = [end_times_map[t] for t in starting_times]
 
-            super().__init__(source_nodes=source_nodes,
-                             target_nodes=target_nodes,
-                             starting_times=starting_times,
-                             ending_times=ending_times,
-                             relabel_nodes=relabel_nodes,
-                             reset_event_table_index=reset_event_table_index,
-                             node_to_label_dict=node_to_label_dict,
-                             merge_overlapping_events=False,
-                             events_table=events_table)
+        else:
+            ending_times = []
+
+        super().__init__(source_nodes=source_nodes,
+                         target_nodes=target_nodes,
+                         starting_times=starting_times,
+                         ending_times=ending_times,
+                         relabel_nodes=relabel_nodes,
+                         reset_event_table_index=reset_event_table_index,
+                         node_to_label_dict=node_to_label_dict,
+                         merge_overlapping_events=False,
+                         events_table=events_table)
 
 
         self.events_table["durations"] = [1.0]*self.events_table.shape[0]
-- 
2.43.0


From ad4ea516f1caf45dd238bd2fa908e74f315740e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:04 +0000
Subject: [PATCH 13/61] fix: keep negative differences when rounding delta
 transition matrices

---
 src/flowstab/temporal_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 20d3c9a..64b82a9 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1890,7 +1890,7 @@ class ContTempNetwork:
 
                 if round_zeros:
                     for M in self.delta_inter_T[lamda]:
-                        set_to_zeroes(M, tol=tol)
+                        set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -1918,7 +1918,7 @@ class ContTempNetwork:
 
                     if round_zeros:
                         for M in self.delta_inter_T_lin[lamda][t_s]:
-                            set_to_zeroes(M, tol=tol)
+                            set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
-- 
2.43.0


From a9609791f0e0de9aa25c43aeeef6cb864e4e7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:04 +0000
Subject: [PATCH 14/61] fix: save_inter_T(_lin) for all lamdas, without
 altering or reusing stale matrices

---
 src/flowstab/temporal_network.py | 99 +++++++++++---------------------
 1 file changed, 33 insertions(+), 66 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 64b82a9..39d479c 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -494,34 +494,23 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                assert not isinstance(self.inter_T[lamda][0],
-                                  SparseStochMat),\
-                                "inter_T must not be SparseStochMat"
-
-                if not hasattr(self, "delta_inter_T") and \
-                                    hasattr(self, "inter_T"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                if lamda is None:
+                    lamdas = self.inter_T.keys()
+                else:
+                    lamdas = [lamda]
+
+                for lamda in lamdas:
+                    assert not isinstance(self.inter_T[lamda][0],
+                                      SparseStochMat),\
+                                    "inter_T must not be SparseStochMat"
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T.keys()):
                     self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                                                  tol=tol)
 
                 if hasattr(self, "delta_inter_T"):
                     save_dict["inter_T"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T"][lamda] = dict()
                         save_dict["inter_T"][lamda]["delta_inter_T"] = self.delta_inter_T[lamda]
@@ -550,6 +539,7 @@ class ContTempNetwork:
                     save_dict["inter_T"][lamda] = []
                     for interT in self.inter_T[lamda]:
                         if round_zeros:
+                            interT = interT.copy()
                             interT.set_to_zeroes(tol)
                         save_dict["inter_T"][lamda].append(interT.to_dict())
 
@@ -616,21 +606,14 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                if not hasattr(self, "delta_inter_T_lin") and \
-                                    hasattr(self, "inter_T_lin"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T_lin.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                if lamda is None:
+                    lamdas = self.inter_T_lin.keys()
+                else:
+                    lamdas = [lamda]
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T_lin.keys()):
+                for lamda in lamdas:
                     self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-
+                                                  tol=tol)
 
                 if hasattr(self, "delta_inter_T_lin"):
 
@@ -638,11 +621,6 @@ class ContTempNetwork:
                     save_dict["inter_T_lin"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T_lin.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T_lin"][lamda] = dict()
                         for t_s in self.inter_T_lin[lamda].keys():
@@ -661,7 +639,7 @@ class ContTempNetwork:
                 save_dict["is_sparse_stoch"] = True
 
                 if lamda is None:
-                    lamdas = self.delta_inter_T_lin.keys()
+                    lamdas = self.inter_T_lin.keys()
                 else:
                     lamdas = [lamda]
 
@@ -675,6 +653,7 @@ class ContTempNetwork:
                         save_dict["inter_T_lin"][lamda][t_s] = []
                         for interT in self.inter_T_lin[lamda][t_s]:
                             if round_zeros:
+                                interT = interT.copy()
                                 interT.set_to_zeroes(tol=tol)
                             save_dict["inter_T_lin"][lamda][t_s].append(interT.to_dict())
 
@@ -1882,19 +1861,13 @@ class ContTempNetwork:
             if not hasattr(self, "delta_inter_T"):
                 self.delta_inter_T = dict()
 
-            if lamda not in self.delta_inter_T.keys():
-
-                self.delta_inter_T[lamda] = [self.inter_T[lamda][k+1] - \
-                                                  self.inter_T[lamda][k] for k in \
-                                                  range(len(self.inter_T[lamda])-1)]
-
-                if round_zeros:
-                    for M in self.delta_inter_T[lamda]:
-                        set_to_zeroes(M, tol=tol, use_absolute_value=True)
+            self.delta_inter_T[lamda] = [self.inter_T[lamda][k+1] - \
+                                              self.inter_T[lamda][k] for k in \
+                                              range(len(self.inter_T[lamda])-1)]
 
-            else:
-                print("PID ", os.getpid(), " : ",
-                      f"delta_inter_T has already been computed with lamda={lamda}")
+            if round_zeros:
+                for M in self.delta_inter_T[lamda]:
+                    set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
         else:
             print("PID ", os.getpid(), " : ", "delta_inter_T has not been computed")
@@ -1906,23 +1879,17 @@ class ContTempNetwork:
             if not hasattr(self, "delta_inter_T_lin"):
                 self.delta_inter_T_lin = dict()
 
-            if lamda not in self.delta_inter_T_lin.keys():
-
-                self.delta_inter_T_lin[lamda] = dict()
+            self.delta_inter_T_lin[lamda] = dict()
 
-                for t_s in self.inter_T_lin[lamda].keys():
+            for t_s in self.inter_T_lin[lamda].keys():
 
-                    self.delta_inter_T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k+1] - \
-                                                      self.inter_T_lin[lamda][t_s][k] for k in \
-                                                      range(len(self.inter_T_lin[lamda][t_s])-1)]
-
-                    if round_zeros:
-                        for M in self.delta_inter_T_lin[lamda][t_s]:
-                            set_to_zeroes(M, tol=tol, use_absolute_value=True)
+                self.delta_inter_T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k+1] - \
+                                                  self.inter_T_lin[lamda][t_s][k] for k in \
+                                                  range(len(self.inter_T_lin[lamda][t_s])-1)]
 
-            else:
-                print("PID ", os.getpid(), " : ",
-                      f"delta_inter_T_lin has already been computed with lamda={lamda}")
+                if round_zeros:
+                    for M in self.delta_inter_T_lin[lamda][t_s]:
+                        set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
         else:
             print("PID ", os.getpid(), " : ", "delta_inter_T_lin has not been computed")
-- 
2.43.0


From 4d996930243907d20965c220f15242db9e971f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:04 +0000
Subject: [PATCH 15/61] fix: load files that contain both SparseStochMat and
 csr transition matrices

---
 src/flowstab/temporal_network.py | 34 +++++++++-----------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 39d479c..cd3b2ed 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -987,38 +987,22 @@ class ContTempNetwork:
         if "T" in load_dict.keys():
             return_dict["T"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = \
-                        SparseStochMat(**load_dict["T"][lamda])
-
-            else:
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = load_dict["T"][lamda]
+            for lamda, T in load_dict["T"].items():
+                # SparseStochMat are saved as dict
+                return_dict["T"][lamda] = \
+                    SparseStochMat(**T) if isinstance(T, dict) else T
 
 
         if "T_lin" in load_dict.keys():
             return_dict["T_lin"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
-
-                    for t_s in load_dict["T_lin"][lamda].keys():
-
-                        return_dict["T_lin"][lamda][t_s] = \
-                            SparseStochMat(**load_dict["T_lin"][lamda][t_s])
-
-            else:
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
+            for lamda in load_dict["T_lin"].keys():
+                return_dict["T_lin"][lamda] = dict()
 
-                    for t_s in load_dict["T_lin"][lamda].keys():
+                for t_s, T in load_dict["T_lin"][lamda].items():
 
-                        return_dict["T_lin"][lamda][t_s] = \
-                                            load_dict["T_lin"][lamda][t_s]
+                    return_dict["T_lin"][lamda][t_s] = \
+                        SparseStochMat(**T) if isinstance(T, dict) else T
 
 
 
-- 
2.43.0


From 48ca27946b8da68a48947ea362b97bf94b64693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:04 +0000
Subject: [PATCH 16/61] fix: compute_transition_matrices with tol altered the
 interevent matrices

---
 src/flowstab/temporal_network.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index cd3b2ed..5516c96 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1583,18 +1583,18 @@ class ContTempNetwork:
                     # forcing the first matrix to csr, will ensure that
                     # all products are done in csr format,
                     # since CSR @ SparseStochMat t is not implemented
-                    self.T[lamda] = [self.inter_T[lamda][k_init].tocsr()]
+                    self.T[lamda] = [self.inter_T[lamda][k_init].tocsr().copy()]
                 else:
-                    self.T[lamda] = [self.inter_T[lamda][k_init]]
+                    self.T[lamda] = [self.inter_T[lamda][k_init].copy()]
 
                 if tol is not None:
                     set_to_zeroes(self.T[lamda][0],tol)
                     inplace_csr_row_normalize(self.T[lamda][0])
             else:
                 if force_csr:
-                    self.T[lamda] = self.inter_T[lamda][k_init].tocsr()
+                    self.T[lamda] = self.inter_T[lamda][k_init].tocsr().copy()
                 else:
-                    self.T[lamda] = self.inter_T[lamda][k_init]
+                    self.T[lamda] = self.inter_T[lamda][k_init].copy()
 
                 if tol is not None:
                     set_to_zeroes(self.T[lamda],tol)
@@ -1614,6 +1614,8 @@ class ContTempNetwork:
 
                 Tk = self.inter_T[lamda][k]
                 if tol is not None:
+                    # do not alter inter_T
+                    Tk = Tk.copy()
                     set_to_zeroes(Tk,tol)
                     inplace_csr_row_normalize(Tk)
 
-- 
2.43.0


From ef06b4d0b6c74521094c06e01f8fc3b9b4521ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:30 +0000
Subject: [PATCH 17/61] fix: recompute cached transition matrices when they are
 requested with other parameters

---
 src/flowstab/temporal_network.py | 52 +++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 5516c96..45ccbd6 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1107,6 +1107,18 @@ class ContTempNetwork:
         return t, k
 
 
+    def _set_params(self, name, key, params):
+        """Remember the parameters used to compute matrices `name[key]`."""
+        if not hasattr(self, "_mat_params"):
+            self._mat_params = dict()
+        self._mat_params[(name, key)] = params
+
+    def _same_params(self, name, key, params):
+        """Whether existing matrices `name[key]` were computed with `params`
+        (assumed for matrices that were not computed by this instance).
+        """
+        return getattr(self, "_mat_params", {}).get((name, key), params) == params
+
     def _clear_derived_matrices(self):
         """Remove the matrices that were computed from the Laplacians."""
         for mat in ["adjacencies",
@@ -1376,12 +1388,17 @@ class ContTempNetwork:
                         "interevent time")
             lamda = 1/np.median(np.diff(self.times))
 
-        # new value of lamda, we need to recompute
-        if lamda not in self.inter_T.keys():
+        # new value of lamda or other parameters, we need to recompute
+        if lamda not in self.inter_T.keys() or \
+                not self._same_params("inter_T", lamda,
+                                      (fix_tau_k, use_sparse_stoch)):
 
             logger.debug(
                 f"Computing interevent transition matrices for lamda={lamda}"
             )
+            self._set_params("inter_T", lamda, (fix_tau_k, use_sparse_stoch))
+            if hasattr(self, "T"):
+                self.T.pop(lamda, None)
             self.inter_T[lamda] = []
 
             t0 = time.time()
@@ -1475,7 +1492,9 @@ class ContTempNetwork:
         compute = True
 
         if lamda in self.inter_T_lin.keys():
-            if t_s in self.inter_T_lin[lamda].keys():
+            if t_s in self.inter_T_lin[lamda].keys() and \
+                    self._same_params("inter_T_lin", (lamda, t_s),
+                                      (fix_tau_k, use_sparse_stoch)):
                 compute = False
                 logger.debug(
                     "Interevent transition matrices already computed "
@@ -1483,6 +1502,10 @@ class ContTempNetwork:
                 )
 
         if compute:
+            self._set_params("inter_T_lin", (lamda, t_s),
+                             (fix_tau_k, use_sparse_stoch))
+            if hasattr(self, "T_lin") and lamda in self.T_lin.keys():
+                self.T_lin[lamda].pop(t_s, None)
             if lamda not in self.inter_T_lin.keys():
                 self.inter_T_lin[lamda] = dict()
                 self.inter_T_lin[lamda][t_s] = []
@@ -1577,7 +1600,10 @@ class ContTempNetwork:
             k_range = range(1,len(self.inter_T[lamda]))
 
 
-        if lamda not in self.T.keys():
+        params = (save_intermediate, reverse_time, force_csr, tol)
+        if lamda not in self.T.keys() or \
+                not self._same_params("T", lamda, params):
+            self._set_params("T", lamda, params)
             if save_intermediate:
                 if force_csr:
                     # forcing the first matrix to csr, will ensure that
@@ -1663,8 +1689,10 @@ class ContTempNetwork:
 
         compute = True
 
+        params = (save_intermediate, reverse_time)
         if lamda in self.T_lin.keys():
-            if t_s in self.T_lin[lamda].keys():
+            if t_s in self.T_lin[lamda].keys() and \
+                    self._same_params("T_lin", (lamda, t_s), params):
                 compute = False
                 logger.info("Transition matrices already computed "
                             f"for lamda={lamda}, t_s={t_s}")
@@ -1681,18 +1709,14 @@ class ContTempNetwork:
 
 
             # initial conditions
+            self._set_params("T_lin", (lamda, t_s), params)
             if lamda not in self.T_lin.keys():
                 self.T_lin[lamda] = dict()
-                if save_intermediate:
-                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]
-                else:
-                    self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]
 
-            if t_s not in self.T_lin[lamda].keys():
-                if save_intermediate:
-                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]
-                else:
-                    self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]
+            if save_intermediate:
+                self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]
+            else:
+                self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]
 
             logger.info(
                 f"Computing transition matrix for lamda={lamda}, t_s={t_s}"
-- 
2.43.0


From 7fbd0bd0861f66fb25e34de1a5e9494b08c99534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:21 +0000
Subject: [PATCH 18/61] fix: jaccard_distance did not return the distance

---
 src/flowstab/network_clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e47bdb7..7bb3e2d 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2182,6 +2182,12 @@ def jaccard_distance(clusters1, clusters2):
         if same_in_1 and not same_in_2:
             diff += 1
 
+    if same + diff == 0:
+        # no pair of nodes is clustered together in any of the two clusterings
+        return 0.0
+
+    return diff/(same + diff)
+
 
 def norm_mutual_information(clusters1, clusters2):
     """Returns the normalized mutial information between two
-- 
2.43.0


From be3598c2738724ad6f24710b3e307bc048fe7783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:21 +0000
Subject: [PATCH 19/61] fix: Louvain from an initial partition assigned nodes
 to the clusters of other nodes

---
 src/flowstab/network_clustering.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 7bb3e2d..9e5a778 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -923,6 +923,9 @@ class BaseClustering:
                                          rnd_state=self._rnd_state,
                                          **cluster_dict)
 
+        # the meta nodes of the first meta loop are the original nodes
+        self._update_to_singletons()
+
         delta_r_meta_loop = 1
         n_meta_loop = 0
         stop = False
@@ -1043,6 +1046,11 @@ class BaseClustering:
         self.source_part = Partition(num_nodes=self.num_nodes,
                                      cluster_list=[set(range(self.num_nodes))])
 
+    def _update_to_singletons(self):
+
+        self.target_part = Partition(num_nodes=self.num_nodes)
+        self.source_part = Partition(num_nodes=self.num_nodes)
+
     def _check_if_S_is_zero(self, thresh=1e-6):
 
         return np.abs(self._S).max()< thresh/(self.num_nodes**2)
@@ -1446,6 +1454,10 @@ class Clustering(BaseClustering):
         self.source_part = Partition(num_nodes=self.num_nodes,
                                      cluster_list=[set(range(self.num_nodes))])
 
+    def _update_to_singletons(self):
+
+        self.source_part = Partition(num_nodes=self.num_nodes)
+
 
     def find_louvain_clustering(self, delta_r_threshold=np.finfo(float).eps,
                                 n_meta_iter_max=1000,
-- 
2.43.0


From dd897e362dcc3c9df3f2d393471aa5578609b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:21 +0000
Subject: [PATCH 20/61] fix: aggregating clusters that have only zero rows in T

---
 src/flowstab/network_clustering.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 9e5a778..79fb027 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -856,8 +856,10 @@ class BaseClustering:
                 S[s,t] = self._S[s_cluster_to_node_list[s],
                                t_cluster_to_node_list[t]].sum()
 
-        # renormalize T
-        T = T/T.sum(axis=1)[:, np.newaxis]
+        # renormalize T (clusters may have only zero rows)
+        T_sum = T.sum(axis=1)
+        T_sum[T_sum == 0] = 1
+        T = T/T_sum[:, np.newaxis]
         #also normalize p1 and p2 for rounding errors
         p1 = p1/p1.sum()
         p2 = p2/p2.sum()
@@ -1404,8 +1406,10 @@ class Clustering(BaseClustering):
                                t_cluster_to_node_list[t]].sum()
                 S[s,t] = self._S[s_cluster_to_node_list[s],
                                t_cluster_to_node_list[t]].sum()
-        # renormalize T
-        T = T/T.sum(axis=1)[:, np.newaxis]
+        # renormalize T (clusters may have only zero rows)
+        T_sum = T.sum(axis=1)
+        T_sum[T_sum == 0] = 1
+        T = T/T_sum[:, np.newaxis]
         #also normalize p1 and p2 for rounding errors
         p1 = p1/p1.sum()
         p2 = p2/p2.sum()
-- 
2.43.0


From 945f6818732f800e76e0837b7630674280a6793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:21 +0000
Subject: [PATCH 21/61] fix: stationary distribution of directed networks is
 the eigenvector of eigenvalue 1

---
 src/flowstab/network_clustering.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 79fb027..92ca67f 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2472,9 +2472,10 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
 
         if is_csr:
 
-            w, v = eigs(Tstat.T, k=1, which="LM")
+            # other eigenvalues may also have modulus 1 (periodic networks)
+            w, v = eigs(Tstat.T, k=1, which="LR")
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            assert np.allclose(w[0], 1)
 
             pi = v.squeeze().real
             pi = pi/pi.sum()
@@ -2482,9 +2483,11 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         else:
             w, v = np.linalg.eig(Tstat.T)
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            k_stat = np.argmin(np.abs(w - 1))
 
-            pi = v[:,0].real
+            assert np.allclose(w[k_stat], 1)
+
+            pi = v[:,k_stat].real
             pi = pi/pi.sum()
     else:
         pi = degs/degs.sum()
-- 
2.43.0


From e2c52fddb0d95a13376d4e8e2a6ae36a9a8f3e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:47 +0000
Subject: [PATCH 22/61] fix: parallel sparse clustering rebuilt another
 autocovariance matrix in the workers

---
 src/flowstab/parallel_clustering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/parallel_clustering.py b/src/flowstab/parallel_clustering.py
index 8947f76..25fa4d1 100644
--- a/src/flowstab/parallel_clustering.py
+++ b/src/flowstab/parallel_clustering.py
@@ -77,6 +77,9 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
         PTindptr = RawArray("l", clustering._S.PT.indptr)
         PTdata = RawArray("d", clustering._S.PT.data)
 
+        # the autocovariance has its own p1 and p2 (possibly scalars)
+        p1raw = RawArray("d", np.broadcast_to(clustering._S.p1, N).tolist())
+        p2raw = RawArray("d", np.broadcast_to(clustering._S.p2, N).tolist())
 
 
         params_list = [(seed, verbose, n_meta_iter_max, n_sub_iter_max,
@@ -90,7 +93,8 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
                   initializer=_init_sub_worker_sparse,
                   initargs=(PTdata, PTindices,
                             PTindptr, N,
-                            p1raw, p2raw),
+                            p1raw, p2raw,
+                            clustering._S.PT_symmetric),
                     ) as pool:
             clusters, stabilites, seeds = \
                 zip(*pool.map(_compute_sym_sparse_clustering_fct, params_list,
-- 
2.43.0


From ea1d812220a5cf21b135dbbdc9efb66966db53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:47 +0000
Subject: [PATCH 23/61] fix: setting the temporal_network of a FlowStability
 did not set its state

---
 src/flowstab/flow_stability.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index bdf02ed..a378f8a 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -227,6 +227,7 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         if isinstance(temporal_network, ContTempNetwork):
             self._temporal_network = temporal_network
+            self.state.current = max(self.state.current, States.TEMP_NW)
             logger.info(
                 "Set the temporal network: "
                 f"{self.temporal_network}"
@@ -234,6 +235,7 @@ class FlowStability(metaclass=StateMeta, states=States):
         elif temporal_network is None:
             logger.info("Set an empty temporal network.")
             self._temporal_network = None
+            self.state.current = States.INITIAL
         else:
             logger.warning(
                 f"Object of type {type(temporal_network)} cannot be "
@@ -241,6 +243,7 @@ class FlowStability(metaclass=StateMeta, states=States):
                 "attribute to `None` and resetting the state of the analysis."
             )
             self._temporal_network = None
+            self.state.current = States.INITIAL
         return None
 
     @register(minimal_state=States.INITIAL, next_state=States.TEMP_NW)
-- 
2.43.0


From bb292fb46f51214b385c5c58c6fd008e7c4d6719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:47 +0000
Subject: [PATCH 24/61] fix: clustering in a single time direction was refused

---
 src/flowstab/flow_stability.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index a378f8a..7637035 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -682,6 +682,11 @@ class FlowStability(metaclass=StateMeta, states=States):
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
             logger.info("-> done.")
+        # only the requested directions are needed for the next step
+        if self.time_direction > 0:
+            self.state.properties_set['flow_clustering_backward'] = True
+        elif self.time_direction < 0:
+            self.state.properties_set['flow_clustering_forward'] = True
         return self
 
     @register(minimal_state=States.CLUSTERING, next_state=States.FINAL)
-- 
2.43.0


From 744dd4a514679151672ac731466a3ce47d146ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:47 +0000
Subject: [PATCH 25/61] fix: flow clustering of a time window used the event
 times of the whole network

---
 src/flowstab/flow_stability.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 7637035..2b9c346 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -624,6 +624,13 @@ class FlowStability(metaclass=StateMeta, states=States):
             )
             self._flow_clustering_backward[_time_scale] = None
 
+    def _laplacian_times(self):
+        """
+        Event times of the time window of the Laplacian matrices.
+        """
+        net = self.temporal_network
+        return net.times[net._k_start_laplacians:net._k_stop_laplacians + 1]
+
     @register(minimal_state=States.INTER_T, next_state=States.CLUSTERING)
     def set_flow_clustering(self, **kwargs):
         """
@@ -651,7 +658,7 @@ class FlowStability(metaclass=StateMeta, states=States):
             kwargs.update(dict(
                 T_inter_list=[T.toarray()
                               for T in self.temporal_network.inter_T[_lambda]],
-                time_list=self.temporal_network.times,
+                time_list=self._laplacian_times(),
             ))
             if self.time_direction <= 0:
                 logger.info(
-- 
2.43.0


From 5323d7c9683c15a3e40ec87011cb100904819f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:19 +0000
Subject: [PATCH 26/61] fix: time_scale and lamda arguments of
 compute_inter_transition_matrices

---
 src/flowstab/flow_stability.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 2b9c346..b6edf4a 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -522,11 +522,10 @@ class FlowStability(metaclass=StateMeta, states=States):
         else:
             to_compute = self._temporal_network.compute_inter_transition_matrices
 
-        _time_scale = None
-        if 'time_scale' in kwargs:
-            _time_scale = kwargs['time_scale']
-        elif 'lamda' in kwargs and kwargs['lamda'] is not None:
-            _time_scale = 1 / kwargs['lamba']
+        _time_scale = kwargs.pop('time_scale', None)
+        _lamda = kwargs.pop('lamda', None)
+        if _time_scale is None and _lamda is not None:
+            _time_scale = 1 / _lamda
         if _time_scale is not None:
             self.time_scale = _time_scale
         for _ts in self.time_scale:
-- 
2.43.0


From 26d1a82653394d8d85cfa7eb9a7823ce8e781dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:19 +0000
Subject: [PATCH 27/61] fix: flow clustering ignored the linear approximation
 of the transition matrices

---
 src/flowstab/flow_stability.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index b6edf4a..d62fc8d 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -136,6 +136,9 @@ class FlowStability(metaclass=StateMeta, states=States):
         self.time_direction = time_direction
         self._flow_clustering_forward = {}
         self._flow_clustering_backward = {}
+        # t_s of the linear approximation of the inter transition matrices,
+        # None if they are computed exactly
+        self._lin_t_s = None
         logger.info("Successfully initiated a FlowStability instance!")
 
     def __repr__(self):
@@ -519,8 +522,10 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         if linear_approx:
             to_compute = self._temporal_network.compute_lin_inter_transition_matrices
+            self._lin_t_s = kwargs.setdefault('t_s', 10)
         else:
             to_compute = self._temporal_network.compute_inter_transition_matrices
+            self._lin_t_s = None
 
         _time_scale = kwargs.pop('time_scale', None)
         _lamda = kwargs.pop('lamda', None)
@@ -654,9 +659,13 @@ class FlowStability(metaclass=StateMeta, states=States):
             else:
                 _lambda = 1 / _ts
 
+            if self._lin_t_s is None:
+                _inter_T = self.temporal_network.inter_T[_lambda]
+            else:
+                _inter_T = self.temporal_network.inter_T_lin[_lambda][
+                    self._lin_t_s]
             kwargs.update(dict(
-                T_inter_list=[T.toarray()
-                              for T in self.temporal_network.inter_T[_lambda]],
+                T_inter_list=[T.toarray() for T in _inter_T],
                 time_list=self._laplacian_times(),
             ))
             if self.time_direction <= 0:
-- 
2.43.0


From 3050aefda693a114390bf0e1853fffc992644f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:06 +0000
Subject: [PATCH 28/61] fix: individuals not listed by ID were simulated with
 the group and rates of others

---
 src/flowstab/synth_temp_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index 69807d5..abff655 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -268,7 +268,8 @@ class SynthTempNetwork:
         # number of individuals
         self.N = len(individuals)
 
-        # list of individuals
+        # list of individuals, individuals[i] is the individual with ID i
+        individuals = sorted(individuals, key=lambda ind: ind.ID)
         self.individuals = individuals
 
         # list of individual IDs
-- 
2.43.0


From 894a29f9d571ad84a0171a0a4cfc25cf18f52ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:00 +0000
Subject: [PATCH 29/61] fix: operations with a numpy array on the left of a
 SparseStochMat

---
 src/flowstab/sparse_stoch_mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index bc4941c..230c470 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -85,6 +85,9 @@ class SparseStochMat:
         
     """
 
+    # numpy arrays on the left of an operator defer to the reflected operators
+    __array_ufunc__ = None
+
     def __init__(self, size:int, data:NDArray, indices:NDArray, indptr:NDArray,
                  nz_rowcols:NDArray, diag_val:float=1.0):
         """Initialize SparseStochMat
-- 
2.43.0


From 3787de0945e7b0c534b4bc7e7346cdef50b41ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:00 +0000
Subject: [PATCH 30/61] fix: SparseClustering of a SparseStochMat transition
 matrix

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 92ca67f..cb39276 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -1570,7 +1570,7 @@ class SparseClustering(Clustering):
             # assert np.allclose(T.sum(1),np.ones(T.shape[1])),\
             #                     "Transition matrix must be stochastic"
 
-            self.T = T.copy()
+            self.T = T.copy().tocsr()
 
         if p1 is None:
             # uniform distribution
-- 
2.43.0


From c810c562eea847f843c5915fc9f0d66e0f5548ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:27 +0000
Subject: [PATCH 31/61] fix: diagonal scaling of 1x1 sparse matrices

---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 230c470..64b14f0 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -624,7 +624,7 @@ def inplace_csr_matmul_diag(A, diag_vec):
     """
     assert isinstance(diag_vec, np.ndarray)
 
-    diag_vec = diag_vec.squeeze()
+    diag_vec = np.atleast_1d(diag_vec.squeeze())
 
     assert diag_vec.shape[0] == diag_vec.size
 
@@ -656,7 +656,7 @@ def inplace_diag_matmul_csr(A:csr_matrix | csc_matrix, diag_vec: NDArray)->None:
     """
     assert isinstance(diag_vec, np.ndarray)
 
-    diag_vec = diag_vec.squeeze()
+    diag_vec = np.atleast_1d(diag_vec.squeeze())
 
     assert diag_vec.shape[0] == diag_vec.size
 
-- 
2.43.0


From fbed14d5be49c7fe8b338f140629564b6227fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:36 +0000
Subject: [PATCH 32/61] fix: aggregating a sparse autocovariance rescaled
 probabilities that do not sum to one

---
 src/flowstab/sparse_stoch_mat.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 64b14f0..12df10a 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -1005,9 +1005,10 @@ class SparseAutocovMat:
             newp1[k] = oldp1[idx].sum()
             newp2[k] = oldp2[idx].sum()
 
-        #normalize p1 and p2 for rounding errors
-        newp1 = newp1/newp1.sum()
-        newp2 = newp2/newp2.sum()
+        #normalize p1 and p2 for rounding errors (p2 does not sum to one if
+        # T has zero rows)
+        newp1 = newp1*(oldp1.sum()/newp1.sum())
+        newp2 = newp2*(oldp2.sum()/newp2.sum())
 
         return self.__class__(PT=newPT.tocsr(),
                               p1=newp1, p2=newp2,
-- 
2.43.0


From 9fe4484055d7d464b9165728abc902636bedb93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:58 +0000
Subject: [PATCH 33/61] fix: variation of information of clusterings with empty
 clusters

---
 src/flowstab/network_clustering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index cb39276..7ea0454 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2321,6 +2321,10 @@ def norm_var_information(clusters1, clusters2, N=None, use_clust_list=False):
         # make sure it is a list of sets
         clusters2 = [set(c) for c in clusters2]
 
+    # e.g. unused cluster numbers or clusters emptied by moves
+    clusters1 = [c for c in clusters1 if len(c) > 0]
+    clusters2 = [c for c in clusters2 if len(c) > 0]
+
     # num nodes
     if N is None:
         N = sum(len(clust) for clust in clusters1)
-- 
2.43.0


From a49c116b27af3b8d39f7aa88b055bfd14b7ef452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:58 +0000
Subject: [PATCH 34/61] fix: mutual information of two single-cluster
 clusterings divided by zero

---
 src/flowstab/network_clustering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 7ea0454..c902963 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2252,6 +2252,10 @@ def norm_mutual_information(clusters1, clusters2):
     n1 = len(clusters1)
     n2 = len(clusters2)
 
+    # both clusterings have all the nodes in one cluster (zero entropies)
+    if N in map(len, clusters1) and N in map(len, clusters2):
+        return 1.0
+
     if USE_CYTHON:
         return cython_nmi(clusters1, clusters2, N, n1, n2)
     else:
-- 
2.43.0


From b37983d2e80d989814cf3d4b4f097c8020c6b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:16 +0000
Subject: [PATCH 35/61] fix: a loaded network forgot the parameters of its
 matrices

---
 src/flowstab/temporal_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 45ccbd6..0d71399 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -300,7 +300,8 @@ class ContTempNetwork:
                       "_t_stop_laplacians",
                       "_k_stop_laplacians",
                       "_overlapping_events_merged",
-                      "is_directed"]
+                      "is_directed",
+                      "_mat_params"]
 
         if attributes_list is None:
             attributes_list = attributes
@@ -384,7 +385,8 @@ class ContTempNetwork:
                       "_t_stop_laplacians",
                       "_k_stop_laplacians",
                       "_overlapping_events_merged",
-                      "is_directed"]
+                      "is_directed",
+                      "_mat_params"]
 
         if attributes_list is None:
             attributes_list = attributes
-- 
2.43.0


From e21c444f38a74f241743f7d7c393dd2d5e3cb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:30 +0000
Subject: [PATCH 36/61] fix: contacts ending when another of the same pair
 starts, in tables that are not sorted

---
 src/flowstab/temporal_network.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 0d71399..802a901 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1276,8 +1276,13 @@ class ContTempNetwork:
             events_k = [self.events_table.loc[mid,["source_nodes","target_nodes"]].astype(np.int64) \
                                         for mid in meet_id.values]
 
+            # end the events started earlier before starting new ones (of the
+            # same nodes), whatever the order of their ids
+            ends_now = meet_id.isin(meet_id[is_starts])
+            order = np.argsort(np.where(is_starts, 1, 2*ends_now), kind="stable")
+
             #update instantaneous matrices
-            for event, is_start in zip(events_k, is_starts):
+            for event, is_start in ((events_k[i], is_starts[i]) for i in order):
                 # unweighted, undirected
                 if is_start:
                     # if they are not already connected (can happen if the
-- 
2.43.0


From 4076657d34eccad8898fa01a8e8aa8248ca259c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:27 +0000
Subject: [PATCH 37/61] fix: merging overlapping events could drop all the
 events of a pair

---
 src/flowstab/temporal_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 802a901..786c7be 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1810,6 +1810,9 @@ class ContTempNetwork:
 
             for n2 in (A[n1,:] > 0).nonzero()[1]:
 
+                if n2 < n1:
+                    # pair already merged
+                    continue
 
                 mask_12 = np.logical_and(self.events_table.source_nodes.values == n1,
                                          self.events_table.target_nodes.values == n2)
-- 
2.43.0


From 6439e762a13283a23b7e13bf6d75d3bf04ac7a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:44 +0000
Subject: [PATCH 38/61] fix: sparse outer product of a vector with a single
 non-zero entry

---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 12df10a..79f3d95 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -1133,11 +1133,11 @@ def sparse_outer(p, use_mkl=True, triu=True, verbose=False, log_message=""):
         if triu:
             Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size))[np.triu_indices(p.data.size)]
         else:
-            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).reshape(p.data.size**2,1).squeeze()
+            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).reshape(p.data.size**2)
     elif triu:
         Odata = np.outer(p.data,p.data)[np.triu_indices(p.data.size)]
     else:
-        Odata = np.outer(p.data,p.data).reshape(p.data.size**2,1).squeeze()
+        Odata = np.outer(p.data,p.data).reshape(p.data.size**2)
 
     if triu:
         indices_list = [p.indices[p.indices >= r] for r in p.indices]
-- 
2.43.0


From e825652d8b488a6b3f06598f10986d5be79ced75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 39/61] fix: Python substitutes of the index kernels accept the
 typed arrays the clustering passes

---
 src/flowstab/_cython_subst.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index a2d9262..1fa3486 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -350,8 +350,8 @@ def get_submat_sum(
     """
     s = 0.0
     col_set = []
-    num_row = row_idx.shape[0]
-    num_col = col_idx.shape[0]
+    num_row = len(row_idx)
+    num_col = len(col_idx)
     
     for i in range(num_col):
         col_set.append(col_idx[i])
@@ -439,7 +439,7 @@ def compute_delta_PT_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     idx_set = list()
     
     for i in range(num_idx):
@@ -481,7 +481,7 @@ def compute_delta_S_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     s = compute_delta_PT_moveto(PTdata,
                                 PTindices,
@@ -517,7 +517,7 @@ def compute_delta_PT_moveout(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     idx_set = list()
     
@@ -561,7 +561,7 @@ def compute_delta_S_moveout(
     """
     
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     s = compute_delta_PT_moveout(PTdata, PTindices, PTindptr,
                                  PTcscdata, PTcscindices, PTcscindptr,
                                  k, idx)
-- 
2.43.0


From fff14d1afbcccec8740fd00e2a9b5ade5b53f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 40/61] fix: block_probs with a group that does not initiate
 interactions

---
 src/flowstab/synth_temp_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index abff655..e7318b0 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -335,8 +335,10 @@ class SynthTempNetwork:
         if next_event_method == "block_probs":
             # make sure inter_group_probs is properly normalized
             # i.e. sum_j p[i,j] = 1 for all i
+            # (rows of groups that do not initiate interactions stay zero)
+            row_sums = self.inter_group_probs.sum(axis=1)
             self.inter_group_probs = \
-                (self.inter_group_probs.T/self.inter_group_probs.sum(axis=1)).T
+                (self.inter_group_probs.T/np.where(row_sums == 0, 1, row_sums)).T
 
         if next_event_method == "block_probs_mod":
             if block_prob_mod_func is None:
-- 
2.43.0


From dfd6735baf23f8e9966d37b9cf831de1343550f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:27 +0000
Subject: [PATCH 41/61] fix: a failed computation of the linear inter
 transition matrices changed the settings of the flow clustering

---
 src/flowstab/flow_stability.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index d62fc8d..1a20be7 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -522,10 +522,10 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         if linear_approx:
             to_compute = self._temporal_network.compute_lin_inter_transition_matrices
-            self._lin_t_s = kwargs.setdefault('t_s', 10)
+            _lin_t_s = kwargs.setdefault('t_s', 10)
         else:
             to_compute = self._temporal_network.compute_inter_transition_matrices
-            self._lin_t_s = None
+            _lin_t_s = None
 
         _time_scale = kwargs.pop('time_scale', None)
         _lamda = kwargs.pop('lamda', None)
@@ -546,6 +546,7 @@ class FlowStability(metaclass=StateMeta, states=States):
             ))
             to_compute(**kwargs)
             logger.info("-> done.")
+        self._lin_t_s = _lin_t_s
         return self
 
     @property
-- 
2.43.0


From ade4ae7c35381d9d3b7df48c8fb5f5b51803cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 42/61] fix: a failed set_flow_clustering left the clusterings
 of earlier settings in place

---
 src/flowstab/flow_stability.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 1a20be7..ecda64e 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -683,6 +683,10 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+                    # the clustering of earlier settings must not stand in
+                    self._flow_clustering_backward.pop(_ts, None)
+                    self.state.properties_set[
+                        'flow_clustering_backward'] = False
             if self.time_direction >= 0:
                 logger.info(
                     f"\t- Creating the time forward clustering."
@@ -697,6 +701,10 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+                    # the clustering of earlier settings must not stand in
+                    self._flow_clustering_forward.pop(_ts, None)
+                    self.state.properties_set[
+                        'flow_clustering_forward'] = False
             logger.info("-> done.")
         # only the requested directions are needed for the next step
         if self.time_direction > 0:
-- 
2.43.0


From 2ec7a939ea31856e56646986e781a7d149c6401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 43/61] fix: run_laplacians_transmats passed a verbose argument
 to methods that do not take one, so that nothing was computed

---
 src/flowstab/scripts/run_laplacians_transmats.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 2b17b09..8e605cc 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -204,8 +204,7 @@ if not compute_lin_transmat and not compute_expm_transmat:
 reverse_time_list = [False, True]
 
 # arguments for compute_transition_matrices
-args = {"verbose":verbose,
-        "save_intermediate": compute_intermediate,
+args = {"save_intermediate": compute_intermediate,
         "reverse_time" : None}
 
 #%%
@@ -352,7 +351,7 @@ def worker(net_start_stop):
 
             print(f"PID {os.getpid()}:",
                   f" computing Laplacians t_start={t_start}, t_stop={t_stop}")
-            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop, verbose=verbose)
+            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop)
 
             print(f"PID {os.getpid()}:",
                   f" k_start={net._k_start_laplacians}, k_stop={net._k_stop_laplacians}")
@@ -362,8 +361,7 @@ def worker(net_start_stop):
 
             if compute_lin_transmat:
                 print(f"PID {os.getpid()}:", " computing stationary dists")
-                net._compute_stationary_transition(verbose=verbose,
-                                                   use_sparse_stoch=use_sparse_stoch)
+                net._compute_stationary_transition(use_sparse_stoch=use_sparse_stoch)
 
                 t2 = time.time()
                 print(f"PID {os.getpid()}:",f"finished in {t2 - t1:.2f}")
@@ -390,7 +388,7 @@ def worker(net_start_stop):
                 # first compute inter trans matrices (does not depend on time direction)
                 if compute_expm_transmat:
                     print(f"PID {os.getpid()}:", " computing inter transition matrices")
-                    net.compute_inter_transition_matrices(lamda=lamda,verbose=verbose,
+                    net.compute_inter_transition_matrices(lamda=lamda,
                                                           use_sparse_stoch=use_sparse_stoch,
                                                           dense_expm=use_dense_expm)
 
@@ -416,7 +414,6 @@ def worker(net_start_stop):
                 if compute_lin_transmat:
                     print(f"PID {os.getpid()}:", " computing linear inter transition matrices")
                     net.compute_lin_inter_transition_matrices(lamda=lamda,
-                                                              verbose=verbose,
                                                               t_s=t_s,
                                                               use_sparse_stoch=use_sparse_stoch)
 
-- 
2.43.0


From dc43c224886d425b36457b5f539a33d43e35d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 44/61] fix: run_laplacians_transmats --save_flow_int used an
 attribute FlowIntegralClustering does not have

---
 src/flowstab/scripts/run_laplacians_transmats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 8e605cc..c98908e 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -468,7 +468,7 @@ def worker(net_start_stop):
                                          d = -1
                                     I = FlowIntegralClustering(T_list=net.T[lamda],
                                           time_list=net.times[net._k_start_laplacians:\
-                                                              net._k_stop_laplacians+1].values[::d]).I
+                                                              net._k_stop_laplacians+1].values[::d]).I_list[-1]
 
                                     pd.to_pickle(I,net_file + "_flow_int.pickle")
 
@@ -507,7 +507,7 @@ def worker(net_start_stop):
                                         d = -1
                                     I_lin = FlowIntegralClustering(T_list=net.T_lin[lamda][t_s],
                                               time_list=net.times[net._k_start_laplacians:\
-                                                                  net._k_stop_laplacians+1].values[::d]).I
+                                                                  net._k_stop_laplacians+1].values[::d]).I_list[-1]
 
                                     pd.to_pickle(I_lin,net_file + "_lin_flow_int.pickle")
 
-- 
2.43.0


From 0a0fa15b9a93b397b574fe376dc4d89d7d83d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 45/61] fix: run_laplacians_transmats skipped kinds of matrices
 requested in a later run

---
 src/flowstab/scripts/run_laplacians_transmats.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index c98908e..fec882a 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -339,8 +339,13 @@ def worker(net_start_stop):
         if (not glob.glob(net_file_inter_expm + "*")):
             all_inter_expm_exists = False
 
-    if (all_inter_expm_exists and all_inter_lin_exists and not save_slice_trans) or \
-        (all_expm_exists and all_lin_exists):
+    all_inter_exists = (all_inter_expm_exists or not compute_expm_transmat) and \
+                       (all_inter_lin_exists or not compute_lin_transmat)
+    all_trans_exists = (all_expm_exists or not compute_expm_transmat) and \
+                       (all_lin_exists or not compute_lin_transmat)
+
+    if (all_inter_exists or not save_inter_T) and \
+        (all_trans_exists or not save_slice_trans):
         print(f"PID {os.getpid()}:", "interval = ", int_index,
                           " all files already exists" )
     else:
-- 
2.43.0


From 27a160f7d9b897baeb97f0a6bc24fa7a3990eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 46/61] fix: run_cov_integrals failed to go on after an
 interruption with expm and lin together or without slice transition matrices

---
 src/flowstab/scripts/run_cov_integrals.py | 47 ++++++++++++-----------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 8ebb196..f427672 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -385,7 +385,9 @@ def worker(ind_start_tau_w):
                 # if its all True (no need to compute anything)
                 all_expm_exists = last_expm_exist +1 == integrals_expm_exists.size
 
-                if not all_expm_exists:
+                # partial results are only used if expm and lin are not done at
+                # the same time, otherwise both are computed from the start
+                if not all_expm_exists and not use_lin_transmats:
                     #load the last integral
                     int_stop = int_stops[last_expm_exist]
                     if os.path.isfile(ITPT_file.format(int_start, int_stop)):
@@ -400,15 +402,17 @@ def worker(ind_start_tau_w):
                     else:
                         load_range = range(int_start,int_stop,d)
 
-                    Tk, integration_time = load_trans_mat(load_range,
-                                           tau_w, lin=False, reverse_time=reverse_time)
-                    ITPT = ITPT_load["ITPT"]
+                    try:
+                        Tk, integration_time = load_trans_mat(load_range,
+                                               tau_w, lin=False, reverse_time=reverse_time)
+                    except FileNotFoundError:
+                        print("PID ", os.getpid(), " no trans_mat files, computing from the start")
+                    else:
+                        ITPT = ITPT_load["ITPT"]
 
-                    # update initial condition
-                    _int_start = int_stops[last_expm_exist]
-                    int_stops = int_stops[last_expm_exist+1:]
-                    #/!\ this won't work if expm and lin are done at the same time
-                    assert use_lin_transmats != use_expm_transmats
+                        # update initial condition
+                        _int_start = int_stops[last_expm_exist]
+                        int_stops = int_stops[last_expm_exist+1:]
 
                     del ITPT_load
 
@@ -424,7 +428,7 @@ def worker(ind_start_tau_w):
                 # if its all True (no need to compute anything)
                 all_lin_exists = last_lin_exist +1 == integrals_lin_exists.size
 
-                if not all_lin_exists:
+                if not all_lin_exists and not use_expm_transmats:
                     #load the last integral
                     int_stop = int_stops[last_lin_exist]
                     if os.path.isfile(ITPT_lin_file.format(int_start, int_stop)):
@@ -440,19 +444,20 @@ def worker(ind_start_tau_w):
                     else:
                         load_range = range(int_start,int_stop,d)
 
-                    Tk_lin, integration_time_lin = load_trans_mat(load_range,
-                                           tau_w, lin=True, reverse_time=reverse_time)
-
-                    ITPT_lin = ITPT_lin_load["ITPT"]
+                    try:
+                        Tk_lin, integration_time_lin = load_trans_mat(load_range,
+                                               tau_w, lin=True, reverse_time=reverse_time)
+                    except FileNotFoundError:
+                        print("PID ", os.getpid(), " no lin_trans_mat files, computing from the start")
+                    else:
+                        ITPT_lin = ITPT_lin_load["ITPT"]
 
-                    assert use_lin_transmats != use_expm_transmats
+                        # update initial condition
+                        _int_start = int_stops[last_lin_exist]
+                        int_stops = int_stops[last_lin_exist+1:]
 
                     del ITPT_lin_load
 
-                    # update initial condition
-                    _int_start = int_stops[last_lin_exist]
-                    int_stops = int_stops[last_lin_exist+1:]
-
 
 
         compute_expm = use_expm_transmats
@@ -469,10 +474,6 @@ def worker(ind_start_tau_w):
             print("PID ", os.getpid(),
                   f" lin trans integral from int {int_start} for tau_w {tau_w} already computed")
 
-        if compute_expm and compute_lin and last_expm_exist > -1 and last_lin_exist > 1:
-            raise NotImplementedError
-
-
         if compute_expm or compute_lin:
             for int_stop in int_stops:
 
-- 
2.43.0


From 90592cd21e79040e471d1df332e28eeb7da412f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 47/61] fix: run_clusterings --integral_rtol failed on
 integrals saved in coo format

---
 src/flowstab/scripts/run_clusterings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 1c4716a..557537e 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -253,7 +253,8 @@ def load_autocov_int(file, init_p1=False, direction=None):
             raise ValueError("File extension not recognised.")
 
         int_time = autocov["integration_time"]
-        ITPT = autocov["ITPT"]
+        # saved as the upper triangular part in coo format
+        ITPT = autocov["ITPT"].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
@@ -328,7 +329,7 @@ def load_autocov_int(file, init_p1=False, direction=None):
         else:
             raise ValueError("direction must be forward or backward")
 
-        ITPT = autocov[ITPT_key]
+        ITPT = autocov[ITPT_key].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
-- 
2.43.0


From 2fcf91129bf64e5acc43bea6e96c95b8bbc65d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 48/61] fix: run_clusterings --separate_comps counted the meta
 nodes in the stabilities and missed the singletons

---
 src/flowstab/scripts/run_clusterings.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 557537e..2a6acb1 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -803,6 +803,14 @@ def worker(file_args):
                                     zip(*pool.map(_compute_clustering_fct, params_list,
                                                   chunksize=1))
 
+                    if separate_comps:
+                        # stability of the merged partitions (the clusterings of the
+                        # components also contain the meta node of the other components)
+                        idx_lists = [[np.array(sorted(c), dtype=np.int32) for c in clust] \
+                                     for clust in sym_clusters]
+                        sym_stabilites = tuple(sum(S.get_submat_sum(idx, idx) for idx in idx_list) \
+                                               for idx_list in idx_lists)
+
                     if file in var_dict:
                         # free global memory
                         del var_dict[file]
-- 
2.43.0


From 795a7546e21326fadc82076b941d3b64087c4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 49/61] fix: run_clusterings failed to go on from temporary
 results

---
 src/flowstab/scripts/run_clusterings.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 2a6acb1..4dd2d1b 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -711,12 +711,15 @@ def worker(file_args):
 
                 # check if temp results have already been computed:
                 tmpsavefile = os.path.join(savedir,"tmpclusters_" + file)
-                if os.path.exists(tmpsavefile):
+                clustering_loaded = os.path.exists(tmpsavefile)
+                if clustering_loaded:
                     print("PID ", os.getpid(), " loading temp res from ", tmpsavefile)
                     with open(tmpsavefile, "rb") as fopen:
                         tmpres = pickle.load(fopen)
 
                     clust_counter_sym =  tmpres["clust_counter_sym"]
+                    sym_clusters = tmpres["sym_clusters"]
+                    sym_seeds = tmpres["sym_seeds"]
                     sym_stabilites = tmpres["sym_stabilites"]
                     avg_stab_sym = tmpres["avg_stab_sym"]
                     avg_nclust_sym = tmpres["avg_nclust_sym"]
@@ -731,14 +734,13 @@ def worker(file_args):
                     ITPT_sum_norm = tmpres["ITPT_sum_norm"]
 
                     save_clustering_before_nvarinf = False
-                    compute_clustering = False
                     compute_nvarinf = True
 
 
 
 
 
-                if compute_clustering:
+                if compute_clustering and not clustering_loaded:
                     params_list = [(file, seed) for seed in n_random_seeds(num_repeat)]
 
                     if nproc_clustering == 1:
@@ -839,7 +841,7 @@ def worker(file_args):
                 print("PID ", os.getpid(), f" symm clust, took {t1-t0:.2f}s, file ", file)
                 print("PID ", os.getpid(), " computing sym nvi ", ", file ", file)
 
-                if compute_clustering:
+                if compute_clustering and not clustering_loaded:
 
 
                     clust_counter_sym = Counter([tuple(sorted([tuple(sorted(c)) for c in clust])) \
@@ -856,6 +858,8 @@ def worker(file_args):
                     if save_clustering_before_nvarinf:
                         tmpres = {}
                         tmpres["clust_counter_sym"] = clust_counter_sym
+                        tmpres["sym_clusters"] = sym_clusters
+                        tmpres["sym_seeds"] = sym_seeds
                         tmpres["sym_stabilites"] = sym_stabilites
                         tmpres["avg_stab_sym"] = avg_stab_sym
                         tmpres["avg_nclust_sym"] = avg_nclust_sym
-- 
2.43.0


From 5476bbb93768d6aac0c928de8aecf383b9d084ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 50/61] fix: run_clusterings never saved the labels of the
 components

---
 src/flowstab/scripts/run_clusterings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 4dd2d1b..26c4c5d 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -671,7 +671,7 @@ def worker(file_args):
 
 
             S, T, p1, p2, largest_comp_nodes, S_list, comp_nodes_list, \
-                singletons, normalization, ncomp, label, max_S_row_diff, \
+                singletons, normalization, ncomp, comp_label, max_S_row_diff, \
                     ITPT_sum, max_S_row_diff_norm, \
                         ITPT_sum_norm = load_autocov_int(file,
                                                          init_p1,
-- 
2.43.0


From e352f6a38e21cac08cbe70a3b0ba6f80636b7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:25 +0000
Subject: [PATCH 51/61] fix: find_spectral_gap did not return the spectral gap

---
 src/flowstab/temporal_network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 786c7be..99e73b5 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2410,11 +2410,11 @@ def find_spectral_gap(L):
 
     Lsym = D12 @ Lcsr @ Dm12
 
-    # stationary solution
-    Pi = np.vstack([degs/degs.sum()]*L.shape[0])
+    # stationary solution (eigenvector of Lsym with eigenvalue 0), which
+    # is moved to the largest possible eigenvalue of Lsym
+    pi12 = np.sqrt(degs/degs.sum())
 
-
-    gap = eigsh(Lsym.toarray()-Pi,1,sigma=0,
+    gap = eigsh(Lsym.toarray() + 2*np.outer(pi12, pi12),1,sigma=0,
                 return_eigenvectors=False)
 
     return gap
-- 
2.43.0


From 2824374f3bb7e86e864b94b0ee65db5563ca0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:28 +0000
Subject: [PATCH 52/61] fix: trimming sparse stochastic matrices ignored
 use_absolute_value, so that delta-encoded linear matrices were saved wrong

---
 src/flowstab/temporal_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 99e73b5..4867bb4 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2669,7 +2669,8 @@ def set_to_zeroes(Tcsr, tol=1e-8, relative=True, use_absolute_value=False):
     """
     if tol is not None:
         if isinstance(Tcsr, SparseStochMat):
-            Tcsr.set_to_zeroes(tol, relative=relative)
+            Tcsr.set_to_zeroes(tol, relative=relative,
+                                use_absolute_value=use_absolute_value)
         elif isinstance(Tcsr, (csr_matrix,csc_matrix)):
             if Tcsr.data.size > 0:
                 if relative:
-- 
2.43.0


From 18ba2eabb5ee70617d07414e2a0731d8590705a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:28 +0000
Subject: [PATCH 53/61] fix: event tables with a named index or a column called
 index gave an error or wrong Laplacians

---
 src/flowstab/temporal_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 4867bb4..ece6e07 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1073,12 +1073,14 @@ class ContTempNetwork:
             index=range(self.events_table.shape[0]*2)
         )
         self.time_grid.iloc[:self.events_table.shape[0],[0,1]] = \
-                     self.events_table.reset_index()[["starting_times","index"]]
+                     self.events_table[["starting_times"]].rename_axis("index").reset_index()[
+                         ["starting_times","index"]]
         self.time_grid["is_start"] = False
         self.time_grid.loc[0:self.events_table.shape[0]-1,"is_start"] = True
 
         self.time_grid.iloc[self.events_table.shape[0]:,[0,1]] = \
-                      self.events_table.reset_index()[["ending_times","index"]]
+                      self.events_table[["ending_times"]].rename_axis("index").reset_index()[
+                         ["ending_times","index"]]
 
         self.time_grid.times = pd.to_numeric(self.time_grid.times)
 
-- 
2.43.0


From bc4aacb737b02b1c5bff77879bbe978153e57d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:28 +0000
Subject: [PATCH 54/61] fix: event tables with repeated index values lost
 contacts when merging overlapping ones

---
 src/flowstab/temporal_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ece6e07..e7aab3c 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -183,7 +183,9 @@ class ContTempNetwork:
                     "path to a CSV file. "
                     f"'{type(events_table)} is not acceptable."
                 )                               
-            reset_event_table_index = False     
+            # keep the index of the table, unless it does not identify the events
+            reset_event_table_index = not self.events_table.index.is_unique \
+                                        or self.events_table.index.nlevels > 1
             if relabel_nodes:                   
                 all_nodes = set()
                 all_nodes.update(self.events_table.source_nodes.tolist())
-- 
2.43.0


From 28ca4308427418a88df32e8efe9a3b863d0001f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:28 +0000
Subject: [PATCH 55/61] fix: time scales given as an iterator were used up
 before the analysis

---
 src/flowstab/flow_stability.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index ecda64e..eb81e88 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -46,8 +46,6 @@ ProcessException
 from __future__ import annotations
 from typing import Any, Iterable, Iterator
 
-from copy import copy
-
 
 import numpy as np
 
@@ -319,8 +317,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         elif isinstance(time_scale,
                         Iterable) and not isinstance(time_scale,
                                                      str):
-            # we use a shallow copy
-            _time_scale = copy(time_scale)
+            # we use a shallow copy (an iterator can only be used once)
+            _time_scale = list(time_scale)
         else:
             raise TypeError(f"Invalid type '{type(time_scale)}'.")
         # make sure only valid values are provided
-- 
2.43.0


From eb88c0aca2bd0086504b6f9ef1e4dab0987ee8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:23 +0000
Subject: [PATCH 56/61] fix: contacts without a duration ended other contacts
 of the same pair

A contact that starts and ends at one time switched off a contact of the
same two nodes that was active (or started) at that time.
---
 src/flowstab/temporal_network.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index e7aab3c..3df45d0 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1281,9 +1281,10 @@ class ContTempNetwork:
                                         for mid in meet_id.values]
 
             # end the events started earlier before starting new ones (of the
-            # same nodes), whatever the order of their ids
-            ends_now = meet_id.isin(meet_id[is_starts])
-            order = np.argsort(np.where(is_starts, 1, 2*ends_now), kind="stable")
+            # same nodes), whatever the order of their ids; events without a
+            # duration are never active
+            order = np.argsort(is_starts, kind="stable")
+            order = order[~meet_id.duplicated(keep=False)[order]]
 
             #update instantaneous matrices
             for event, is_start in ((events_k[i], is_starts[i]) for i in order):
-- 
2.43.0


From c187a3418e7cff9f4d708dd4bc307e7b2c2b947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:06 +0000
Subject: [PATCH 57/61] fix: networks saved under names with a dot overwrote
 one another

save('net0.5') and save('net0.75') both wrote net0.pickle.
---
 src/flowstab/temporal_network.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 3df45d0..64fc166 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -318,7 +318,11 @@ class ContTempNetwork:
                 save_dict[mat] = getattr(self,mat)
 
 
-        with open(os.path.splitext(filename)[0] + ".pickle", "wb") as fopen:
+        file = os.fspath(filename)
+        if os.path.splitext(file)[-1] != ".pickle":
+            file += ".pickle"
+
+        with open(file, "wb") as fopen:
             pickle.dump(save_dict, fopen)
 
 
@@ -396,7 +400,11 @@ class ContTempNetwork:
 
         # all in a pickle file
 
-        graph_dict = pd.read_pickle(os.path.splitext(filename)[0] +".pickle")
+        file = os.fspath(filename)
+        if os.path.splitext(file)[-1] != ".pickle":
+            file += ".pickle"
+
+        graph_dict = pd.read_pickle(file)
 
         events_table = graph_dict.pop("events_table")
 
-- 
2.43.0


From 32329940e4cdfcc5b68696678a886df430ac79e7 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 04:32:16 +0000
Subject: [PATCH 58/61] fix: interrupted computations passed for finished ones

---
 src/flowstab/network_clustering.py |  10 +-
 src/flowstab/temporal_network.py   | 150 +++++++++++++++++------------
 2 files changed, 94 insertions(+), 66 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index c902963..ad3b7b1 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2139,7 +2139,7 @@ class FlowIntegralClustering:
         else:
 
             if self.is_nparray:
-                self.clustering[k] = Clustering(p1=self.p1, p2=None,
+                clustering = Clustering(p1=self.p1, p2=None,
                                   T=self.T_list[self._k_integral_grid[k+1]-1],
                                   S=self.I_list[k],
                                   cluster_list=cluster_list,
@@ -2147,20 +2147,22 @@ class FlowIntegralClustering:
                                   rnd_state=rnd_state, rnd_seed=rnd_seed,
                                   S_threshold=S_threshold)
             else:
-                self.clustering[k] = SparseClustering(p1=self.p1, p2=None,
+                clustering = SparseClustering(p1=self.p1, p2=None,
                                   S=self.I_list[k],
                                   cluster_list=cluster_list,
                                   node_to_cluster_dict=node_to_cluster_dict,
                                   rnd_state=rnd_state, rnd_seed=rnd_seed)
 
-            n_loop = self.clustering[k].find_louvain_clustering(delta_r_threshold=delta_r_threshold,
+            n_loop = clustering.find_louvain_clustering(delta_r_threshold=delta_r_threshold,
                                 n_meta_iter_max=n_meta_iter_max,
                                 n_sub_iter_max=n_sub_iter_max,
                                 verbose=verbose,
                                 rnd_seed=rnd_seed,
                                 save_progress=save_progress)
 
-            self.partition[k] = self.clustering[k].partition
+            self.partition[k] = clustering.partition
+            # set only once complete
+            self.clustering[k] = clustering
 
             return n_loop
 
diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 64fc166..3bfa51a 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1134,8 +1134,9 @@ class ContTempNetwork:
         return getattr(self, "_mat_params", {}).get((name, key), params) == params
 
     def _clear_derived_matrices(self):
-        """Remove the matrices that were computed from the Laplacians."""
-        for mat in ["adjacencies",
+        """Remove the Laplacians and the matrices computed from them."""
+        for mat in ["laplacians",
+                    "adjacencies",
                     "inter_T",
                     "inter_T_lin",
                     "T",
@@ -1205,9 +1206,9 @@ class ContTempNetwork:
         # matrices derived from previous Laplacians are not valid anymore
         self._clear_derived_matrices()
 
-        self.laplacians = []
-        if save_adjacencies:
-            self.adjacencies = []
+        # set only once complete
+        laplacians = []
+        adjacencies = []
 
         # set boundary conditions : L_k is the laplacian during t_k and t_k+1
         if t_start is None:
@@ -1334,9 +1335,13 @@ class ContTempNetwork:
             # T_D = Dm1 @ (Acsc + S)
             # L = I - T_D
 
-            self.laplacians.append(I - Dm1 @ (Acsc + S))
+            laplacians.append(I - Dm1 @ (Acsc + S))
             if save_adjacencies:
-                self.adjacencies.append(A.copy())
+                adjacencies.append(A.copy())
+
+        if save_adjacencies:
+            self.adjacencies = adjacencies
+        self.laplacians = laplacians
 
         t_end = time.time()-t0
         self._compute_times["laplacians"] = t_end
@@ -1416,10 +1421,11 @@ class ContTempNetwork:
             logger.debug(
                 f"Computing interevent transition matrices for lamda={lamda}"
             )
-            self._set_params("inter_T", lamda, (fix_tau_k, use_sparse_stoch))
             if hasattr(self, "T"):
                 self.T.pop(lamda, None)
-            self.inter_T[lamda] = []
+            self.inter_T.pop(lamda, None)
+            # set only once complete
+            inter_T = []
 
             t0 = time.time()
             for k, tk in enumerate(self.times[self._k_start_laplacians:
@@ -1437,26 +1443,29 @@ class ContTempNetwork:
                     tau_k = self.times[self._k_start_laplacians+k+1] - tk
 
                 if use_sparse_stoch:
-                    self.inter_T[lamda].append(sparse_lapl_expm(self.laplacians[k],
-                                                                       tau_k*lamda,
-                                                                       dense_expm=dense_expm))
+                    inter_T.append(sparse_lapl_expm(self.laplacians[k],
+                                                    tau_k*lamda,
+                                                    dense_expm=dense_expm))
                 elif self.laplacians[k].getnnz() == 0:
                     # expm of zero = identity
-                    self.inter_T[lamda].append(eye(self.num_nodes,format="csr"))
+                    inter_T.append(eye(self.num_nodes,format="csr"))
                 elif dense_expm:
-                    self.inter_T[lamda].append(csr_matrix(expm(-tau_k*lamda*self.laplacians[k].toarray())))
+                    inter_T.append(csr_matrix(expm(-tau_k*lamda*self.laplacians[k].toarray())))
                 else:
-                    self.inter_T[lamda].append(expm(-tau_k*lamda*self.laplacians[k]).tocsr())
+                    inter_T.append(expm(-tau_k*lamda*self.laplacians[k]).tocsr())
 
-            if len(self.inter_T[lamda]) == 0:
+            if len(inter_T) == 0:
                 logger.info("no events, trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T[lamda].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    inter_T.append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
-                    self.inter_T[lamda].append(eye(self.num_nodes,
-                                                      dtype=np.float64,
-                                                      format="csr"))
+                    inter_T.append(eye(self.num_nodes,
+                                       dtype=np.float64,
+                                       format="csr"))
+
+            self._set_params("inter_T", lamda, (fix_tau_k, use_sparse_stoch))
+            self.inter_T[lamda] = inter_T
 
             t_end = time.time()-t0
 
@@ -1522,15 +1531,13 @@ class ContTempNetwork:
                 )
 
         if compute:
-            self._set_params("inter_T_lin", (lamda, t_s),
-                             (fix_tau_k, use_sparse_stoch))
             if hasattr(self, "T_lin") and lamda in self.T_lin.keys():
                 self.T_lin[lamda].pop(t_s, None)
             if lamda not in self.inter_T_lin.keys():
                 self.inter_T_lin[lamda] = dict()
-                self.inter_T_lin[lamda][t_s] = []
-            else:
-                self.inter_T_lin[lamda][t_s] = []
+            self.inter_T_lin[lamda].pop(t_s, None)
+            # set only once complete
+            inter_T_lin = []
 
             logger.debug(
                 "Computing interevent linear transition matrices for "
@@ -1562,7 +1569,7 @@ class ContTempNetwork:
 
                     nz_rowcols, = (nonzerosum_rowcols).nonzero()
 
-                    self.inter_T_lin[lamda][t_s].append(\
+                    inter_T_lin.append(\
                            sparse_lin_approx(I - Lcsr,
                                              tau_k*lamda,
                                              Pi=self._stationary_trans[k],
@@ -1570,21 +1577,25 @@ class ContTempNetwork:
                                              nz_rowcols=nz_rowcols))
                 else:
 
-                    self.inter_T_lin[lamda][t_s].append(\
+                    inter_T_lin.append(\
                            lin_approx_trans_matrix(I - Lcsr,
                                                    tau_k*lamda,
                                                    Pi=self._stationary_trans[k],
                                                    t_s=t_s))
 
-            if len(self.inter_T_lin[lamda][t_s]) == 0:
+            if len(inter_T_lin) == 0:
                 logger.debug("no events, lin. trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T_lin[lamda][t_s].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    inter_T_lin.append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
-                    self.inter_T_lin[lamda][t_s].append(eye(self.num_nodes,
-                                                      dtype=np.float64,
-                                                      format="csr"))
+                    inter_T_lin.append(eye(self.num_nodes,
+                                           dtype=np.float64,
+                                           format="csr"))
+
+            self._set_params("inter_T_lin", (lamda, t_s),
+                             (fix_tau_k, use_sparse_stoch))
+            self.inter_T_lin[lamda][t_s] = inter_T_lin
 
             t_end = time.time()-t0
             self._compute_times[f"tran_matrices_lin_{lamda}_{t_s}"] = t_end
@@ -1623,28 +1634,28 @@ class ContTempNetwork:
         params = (save_intermediate, reverse_time, force_csr, tol)
         if lamda not in self.T.keys() or \
                 not self._same_params("T", lamda, params):
-            self._set_params("T", lamda, params)
+            self.T.pop(lamda, None)
             if save_intermediate:
                 if force_csr:
                     # forcing the first matrix to csr, will ensure that
                     # all products are done in csr format,
                     # since CSR @ SparseStochMat t is not implemented
-                    self.T[lamda] = [self.inter_T[lamda][k_init].tocsr().copy()]
+                    T = [self.inter_T[lamda][k_init].tocsr().copy()]
                 else:
-                    self.T[lamda] = [self.inter_T[lamda][k_init].copy()]
+                    T = [self.inter_T[lamda][k_init].copy()]
 
                 if tol is not None:
-                    set_to_zeroes(self.T[lamda][0],tol)
-                    inplace_csr_row_normalize(self.T[lamda][0])
+                    set_to_zeroes(T[0],tol)
+                    inplace_csr_row_normalize(T[0])
             else:
                 if force_csr:
-                    self.T[lamda] = self.inter_T[lamda][k_init].tocsr().copy()
+                    T = self.inter_T[lamda][k_init].tocsr().copy()
                 else:
-                    self.T[lamda] = self.inter_T[lamda][k_init].copy()
+                    T = self.inter_T[lamda][k_init].copy()
 
                 if tol is not None:
-                    set_to_zeroes(self.T[lamda],tol)
-                    inplace_csr_row_normalize(self.T[lamda])
+                    set_to_zeroes(T,tol)
+                    inplace_csr_row_normalize(T)
 
 
 
@@ -1667,20 +1678,24 @@ class ContTempNetwork:
 
                 if save_intermediate:
 
-                    self.T[lamda].append(self.T[lamda][-1] @ Tk)
+                    T.append(T[-1] @ Tk)
 
                     #normalize T to correct precision errors
                     if tol is not None:
-                        set_to_zeroes(self.T[lamda][-1],tol)
+                        set_to_zeroes(T[-1],tol)
 
-                    inplace_csr_row_normalize(self.T[lamda][-1])
+                    inplace_csr_row_normalize(T[-1])
                 else:
-                    self.T[lamda] = self.T[lamda] @ Tk
+                    T = T @ Tk
                     if tol is not None:
-                        set_to_zeroes(self.T[lamda], tol)
+                        set_to_zeroes(T, tol)
 
                     #normalize T to correct precision errors
-                    inplace_csr_row_normalize(self.T[lamda])
+                    inplace_csr_row_normalize(T)
+
+            # set only once complete
+            self._set_params("T", lamda, params)
+            self.T[lamda] = T
 
             t_end = time.time()-t0
 
@@ -1729,14 +1744,14 @@ class ContTempNetwork:
 
 
             # initial conditions
-            self._set_params("T_lin", (lamda, t_s), params)
             if lamda not in self.T_lin.keys():
                 self.T_lin[lamda] = dict()
+            self.T_lin[lamda].pop(t_s, None)
 
             if save_intermediate:
-                self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]
+                T_lin = [self.inter_T_lin[lamda][t_s][k_init]]
             else:
-                self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]
+                T_lin = self.inter_T_lin[lamda][t_s][k_init]
 
             logger.info(
                 f"Computing transition matrix for lamda={lamda}, t_s={t_s}"
@@ -1749,17 +1764,21 @@ class ContTempNetwork:
                     logger.info(f"{k} over {len(self.inter_T_lin[lamda][t_s])}")
                     logger.info(f"{time.time()-t0:.2f}s")
                 if save_intermediate:
-                    self.T_lin[lamda][t_s].append(self.T_lin[lamda][t_s][-1] @ \
+                    T_lin.append(T_lin[-1] @ \
                                       self.inter_T_lin[lamda][t_s][k])
 
                     #normalize T to correct precision errors
-                    inplace_csr_row_normalize(self.T_lin[lamda][t_s][-1])
+                    inplace_csr_row_normalize(T_lin[-1])
                 else:
-                    self.T_lin[lamda][t_s] = self.T_lin[lamda][t_s] @ \
+                    T_lin = T_lin @ \
                                       self.inter_T_lin[lamda][t_s][k]
 
                     #normalize T to correct precision errors
-                    inplace_csr_row_normalize(self.T_lin[lamda][t_s])
+                    inplace_csr_row_normalize(T_lin)
+
+            # set only once complete
+            self._set_params("T_lin", (lamda, t_s), params)
+            self.T_lin[lamda][t_s] = T_lin
 
             t_end = time.time()-t0
 
@@ -1779,7 +1798,7 @@ class ContTempNetwork:
                                             t_stop=t_stop)
         logger.info("Computing stationary transition matrices")
 
-        self._stationary_trans = []
+        stationary_trans = []
 
         I = eye(self.num_nodes,
                 dtype=np.float64, format="csc")
@@ -1793,14 +1812,17 @@ class ContTempNetwork:
                 logger.info(f"{time.time()-t0:.2f}s")
 
             if use_sparse_stoch:
-                self._stationary_trans.append(\
+                stationary_trans.append(\
                   sparse_stationary_trans(I - self.laplacians[k]))
 
             else:
-                self._stationary_trans.append(\
+                stationary_trans.append(\
                       compute_stationary_transition(I - self.laplacians[k]))
 
 
+        # set only once complete
+        self._stationary_trans = stationary_trans
+
         t_end = time.time()-t0
 
         self._compute_times["_stationary_trans"] = t_end
@@ -2042,9 +2064,9 @@ class ContTempInstNetwork(ContTempNetwork):
         # matrices derived from previous Laplacians are not valid anymore
         self._clear_derived_matrices()
 
-        self.laplacians = []
-        if save_adjacencies:
-            self.adjacencies = []
+        # set only once complete
+        laplacians = []
+        adjacencies = []
 
         # set boundary conditions : L_k is the laplacian during t_k and t_k+1
         if t_start is None:
@@ -2117,9 +2139,9 @@ class ContTempInstNetwork(ContTempNetwork):
             # T_D = Dm1 @ (Acsc + S)
             # L = I - T_D
 
-            self.laplacians.append(I - Dm1 @ (Acsc + S))
+            laplacians.append(I - Dm1 @ (Acsc + S))
             if save_adjacencies:
-                self.adjacencies.append(A.copy())
+                adjacencies.append(A.copy())
 
             # reset matrices
             A.clear()
@@ -2127,6 +2149,10 @@ class ContTempInstNetwork(ContTempNetwork):
             Dm1.data.fill(1.0)
             degrees.fill(0.0)
 
+        if save_adjacencies:
+            self.adjacencies = adjacencies
+        self.laplacians = laplacians
+
         t_end = time.time()-t0
         self._compute_times["laplacians"] = t_end
         logger.info(f"Finished in {t_end}")
-- 
2.43.0


From 8ee561f83129c4b36b27d53c8086119d16ec0f77 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:06:33 +0000
Subject: [PATCH 59/61] fix: an analysis resumed after interrupted Laplacians
 ignored its window

---
 src/flowstab/flow_stability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index eb81e88..19bd7a8 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -540,7 +540,9 @@ class FlowStability(metaclass=StateMeta, states=States):
             else:
                 _lambda = 1 / _ts
             kwargs.update(dict(
-                lamda=_lambda
+                lamda=_lambda,
+                t_start=self.t_start,
+                t_stop=self.t_stop
             ))
             to_compute(**kwargs)
             logger.info("-> done.")
-- 
2.43.0


From 3dd3fbc0ac763a384ca5c24ff90bfe3d5385fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:27 +0000
Subject: [PATCH 60/61] fix: a file left by a killed run passed for a complete
 one

Results were written straight to their final name: a process killed while
writing left an unfinished file there, which the scripts take for a finished
result (they skip existing files) and readers cannot load. Write to a
temporary name and rename when everything is written.
---
 src/flowstab/helpers.py                       | 18 +++++++++++
 src/flowstab/scripts/run_clusterings.py       |  7 ++--
 src/flowstab/scripts/run_cov_integrals.py     | 31 ++++++++++--------
 .../scripts/run_laplacians_transmats.py       | 10 ++++--
 src/flowstab/temporal_network.py              | 32 +++++++++++--------
 5 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/src/flowstab/helpers.py b/src/flowstab/helpers.py
index 7ac4dbe..4c2567d 100644
--- a/src/flowstab/helpers.py
+++ b/src/flowstab/helpers.py
@@ -1,5 +1,7 @@
 """Unsorted collection of simple helper functions
 """
+import os
+from contextlib import contextmanager
 
 def include_doc_from(cls):
     """Decorator to include the docstring from a specified class."""
@@ -16,3 +18,19 @@ def inverted_iterator(iterator):
             yield val
         else:
             yield 1. / val
+
+@contextmanager
+def complete_file(filename):
+    """Path to write to, that replaces `filename` once everything is written.
+
+    A file named `filename` is thus always complete, also if the process is
+    killed while writing. Names of unfinished files end with ".tmp".
+    """
+    dirname, basename = os.path.split(filename)
+    tmp_file = os.path.join(dirname, f".{basename}.{os.getpid()}.tmp")
+    try:
+        yield tmp_file
+        os.replace(tmp_file, filename)
+    finally:
+        if os.path.exists(tmp_file):
+            os.remove(tmp_file)
diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 26c4c5d..e95b2b9 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -56,6 +56,7 @@ import pandas as pd
 from scipy.sparse import csr_matrix, diags
 from scipy.sparse.csgraph import connected_components
 
+from ..helpers import complete_file
 from ..network_clustering import SparseClustering, norm_var_information, static_clustering
 from ..sparse_stoch_mat import (
     inplace_csr_matmul_diag,
@@ -877,7 +878,8 @@ def worker(file_args):
                         # already saving clustering
                         tmpsavefile = os.path.join(savedir,"tmpclusters_" + file)
                         print("PID ", os.getpid(), " saving temp res to ", tmpsavefile)
-                        with open(tmpsavefile, "wb") as fopen:
+                        with complete_file(tmpsavefile) as tmp_file, \
+                                open(tmp_file, "wb") as fopen:
                             pickle.dump(tmpres, fopen)
 
                 if compute_nvarinf:
@@ -979,7 +981,8 @@ def worker(file_args):
 
 
 
-            with open(savefile, "wb") as fopen:
+            with complete_file(savefile) as tmp_file, \
+                    open(tmp_file, "wb") as fopen:
                 pickle.dump(res, fopen)
 
         except Exception:
diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index f427672..a1e53fa 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -53,6 +53,7 @@ import pandas as pd
 import psutil
 from scipy.sparse import csr_matrix, eye, triu
 
+from ..helpers import complete_file
 from ..sparse_stoch_mat import (
     inplace_csr_matmul_diag,
     inplace_csr_row_normalize,
@@ -205,7 +206,8 @@ print("Arguments:")
 for item in inargs.items():
     print(item)
 #%%
-all_files = os.listdir(datadir)
+# (without files that were not finished)
+all_files = [f for f in os.listdir(datadir) if not f.endswith(".tmp")]
 
 # get num nodes
 num_nodes = None
@@ -582,12 +584,13 @@ def worker(ind_start_tau_w):
                                     print("PID ", os.getpid(), " saving intermediate results to ",
                                           ITPT_temp_file.format(int_start,  k+1))
 
-                                    pd.to_pickle({"ITPT" : ITPT,
-                                          "interval_start" : int_start,
-                                          "last_treated_interval" : k,
-                                          "integration_time" : integration_time,
-                                          "Tk": Tk},
-                                        ITPT_temp_file.format(int_start, k+1))
+                                    with complete_file(ITPT_temp_file.format(int_start, k+1)) as tmp_file:
+                                        pd.to_pickle({"ITPT" : ITPT,
+                                              "interval_start" : int_start,
+                                              "last_treated_interval" : k,
+                                              "integration_time" : integration_time,
+                                              "Tk": Tk},
+                                            tmp_file)
 
                     if compute_lin:
                         tk = time.time()
@@ -652,9 +655,10 @@ def worker(ind_start_tau_w):
                     if integration_time > 0:
                         print("PID ", os.getpid(), " saving to ", ITPT_file.format(int_start, int_stop))
 
-                        pd.to_pickle({"ITPT" : triu(ITPT),
-                                      "integration_time" : integration_time},
-                                     ITPT_file.format(int_start, int_stop))
+                        with complete_file(ITPT_file.format(int_start, int_stop)) as tmp_file:
+                            pd.to_pickle({"ITPT" : triu(ITPT),
+                                          "integration_time" : integration_time},
+                                         tmp_file)
                     else:
                         print("PID ", os.getpid(), f" integration time is zero, not saving {int_start} to {int_stop}")
 
@@ -665,9 +669,10 @@ def worker(ind_start_tau_w):
 
                         print("PID ", os.getpid(), "saving to ", ITPT_lin_file.format(int_start, int_stop))
 
-                        pd.to_pickle({"ITPT" : triu(ITPT_lin),
-                                      "integration_time" : integration_time_lin},
-                                     ITPT_lin_file.format(int_start, int_stop))
+                        with complete_file(ITPT_lin_file.format(int_start, int_stop)) as tmp_file:
+                            pd.to_pickle({"ITPT" : triu(ITPT_lin),
+                                          "integration_time" : integration_time_lin},
+                                         tmp_file)
 
                         if verbose:
                             print("PID ", os.getpid(),
diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index fec882a..aea4d19 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -39,6 +39,7 @@ from multiprocessing import Pool
 import numpy as np
 import pandas as pd
 
+from ..helpers import complete_file
 from ..network_clustering import FlowIntegralClustering
 from ..temporal_network import ContTempNetwork as NetClass
 
@@ -298,7 +299,8 @@ def worker(net_start_stop):
             t0 = time.time()
             A = net.compute_static_adjacency_matrix(start_time=t_start, end_time=t_stop)
 
-            pd.to_pickle(A, adj_file)
+            with complete_file(adj_file) as tmp_file:
+                pd.to_pickle(A, tmp_file)
 
             t1 = time.time()
             print(f"PID {os.getpid()}:",
@@ -475,7 +477,8 @@ def worker(net_start_stop):
                                           time_list=net.times[net._k_start_laplacians:\
                                                               net._k_stop_laplacians+1].values[::d]).I_list[-1]
 
-                                    pd.to_pickle(I,net_file + "_flow_int.pickle")
+                                    with complete_file(net_file + "_flow_int.pickle") as tmp_file:
+                                        pd.to_pickle(I, tmp_file)
 
                                 if isinstance(net.T[lamda], list):
                                     # we want flow_int but not save intermediate
@@ -514,7 +517,8 @@ def worker(net_start_stop):
                                               time_list=net.times[net._k_start_laplacians:\
                                                                   net._k_stop_laplacians+1].values[::d]).I_list[-1]
 
-                                    pd.to_pickle(I_lin,net_file + "_lin_flow_int.pickle")
+                                    with complete_file(net_file + "_lin_flow_int.pickle") as tmp_file:
+                                        pd.to_pickle(I_lin, tmp_file)
 
                                 if isinstance(net.T_lin[lamda][t_s], list):
                                     # in the case we want flow_int but not save intermediate
diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 3bfa51a..572bc14 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -42,6 +42,7 @@ from scipy.sparse import (
 from scipy.sparse.csgraph import connected_components
 from scipy.sparse.linalg import eigsh, expm
 
+from .helpers import complete_file
 from .parallel_expm import compute_subspace_expm_parallel
 from .sparse_stoch_mat import inplace_csr_row_normalize, SparseStochMat
 
@@ -322,7 +323,8 @@ class ContTempNetwork:
         if os.path.splitext(file)[-1] != ".pickle":
             file += ".pickle"
 
-        with open(file, "wb") as fopen:
+        with complete_file(file) as tmp_file, \
+                open(tmp_file, "wb") as fopen:
             pickle.dump(save_dict, fopen)
 
 
@@ -562,14 +564,15 @@ class ContTempNetwork:
 
                 print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-                with gzip.open(file,
-                               "wb", compresslevel=2) as fopen:
+                with complete_file(file) as tmp_file, \
+                        gzip.open(tmp_file, "wb", compresslevel=2) as fopen:
                     pickle.dump(save_dict, fopen)
             else:
 
                 print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-                with open(file, "wb") as fopen:
+                with complete_file(file) as tmp_file, \
+                        open(tmp_file, "wb") as fopen:
                     pickle.dump(save_dict, fopen)
 
 
@@ -677,14 +680,15 @@ class ContTempNetwork:
 
                 print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-                with gzip.open(file,
-                               "wb", compresslevel=2) as fopen:
+                with complete_file(file) as tmp_file, \
+                        gzip.open(tmp_file, "wb", compresslevel=2) as fopen:
                     pickle.dump(save_dict, fopen)
             else:
 
                 print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-                with open(file, "wb") as fopen:
+                with complete_file(file) as tmp_file, \
+                        open(tmp_file, "wb") as fopen:
                     pickle.dump(save_dict, fopen)
 
 
@@ -854,8 +858,8 @@ class ContTempNetwork:
 
             print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-            with gzip.open(file,
-                           "wb", compresslevel=2) as fopen:
+            with complete_file(file) as tmp_file, \
+                    gzip.open(tmp_file, "wb", compresslevel=2) as fopen:
                 pickle.dump(save_dict, fopen)
         else:
             ext = os.path.splitext(filename)[-1]
@@ -864,7 +868,8 @@ class ContTempNetwork:
 
             print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-            with open(file, "wb") as fopen:
+            with complete_file(file) as tmp_file, \
+                    open(tmp_file, "wb") as fopen:
                 pickle.dump(save_dict, fopen)
 
     def save_T_lin(self, filename, lamda=None, round_zeros=True, tol=1e-8,
@@ -941,8 +946,8 @@ class ContTempNetwork:
 
             print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-            with gzip.open(file,
-                           "wb", compresslevel=2) as fopen:
+            with complete_file(file) as tmp_file, \
+                    gzip.open(tmp_file, "wb", compresslevel=2) as fopen:
                 pickle.dump(save_dict, fopen)
         else:
             ext = os.path.splitext(filename)[-1]
@@ -951,7 +956,8 @@ class ContTempNetwork:
 
             print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-            with open(file, "wb") as fopen:
+            with complete_file(file) as tmp_file, \
+                    open(tmp_file, "wb") as fopen:
                 pickle.dump(save_dict, fopen)
 
     @staticmethod
-- 
2.43.0


From f512e3a9bee488dd302f5729268a7f1742ee85c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:06 +0000
Subject: [PATCH 61/61] fix: covariance integrals of a network were mixed up
 with other files of its directory

run_cov_integrals took the number of nodes, the slices and the waiting times
from all files of the data directory, also those of other networks, and failed
on network names with a part that starts with w (such as a_week).
---
 src/flowstab/scripts/run_cov_integrals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index a1e53fa..97b650d 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -206,8 +206,8 @@ print("Arguments:")
 for item in inargs.items():
     print(item)
 #%%
-# (without files that were not finished)
-all_files = [f for f in os.listdir(datadir) if not f.endswith(".tmp")]
+# slices of this network (unfinished files start with a dot)
+all_files = [f for f in os.listdir(datadir) if f.startswith(net_name + "_tau_w")]
 
 # get num nodes
 num_nodes = None
@@ -228,7 +228,7 @@ while num_nodes is None:
 intervals = set()
 tau_ws = set()
 for file in all_files:
-    for extract in os.path.splitext(file)[0].split("_"):
+    for extract in os.path.splitext(file[len(net_name)+1:])[0].split("_"):
         if re.search("int[0-9]{6}",extract):
             intervals.add(int(extract[3:]))
         elif extract.startswith("w"):
-- 
2.43.0

