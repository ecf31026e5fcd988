From a69d93a79f19369a75721913072fc7079c463cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 01/43] fix: event time lookup raises TypeError with NumPy >=
 2.5

np.where(...)[0] is a one-element array; recent NumPy refuses to convert it
with int(), so every use of t_start/t_stop or of an integral time grid failed.
---
 src/flowstab/network_clustering.py | 2 +-
 src/flowstab/temporal_network.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e450807..e47bdb7 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -1903,7 +1903,7 @@ class FlowIntegralClustering:
                         t = self.time_list[self.time_list >= t].min()
 
 
-                k = int(np.where(self.time_list == t)[0])
+                k = int(np.where(self.time_list == t)[0][0])
                 self._k_integral_grid.append(k)
                 self._t_integral_grid.append(t)
 
diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index fb660fc..f09e869 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1134,7 +1134,7 @@ class ContTempNetwork:
             else:
                 t = self.times[self.times <= t].max()
 
-        k = int(np.where(self.times == t)[0])
+        k = int(np.where(self.times == t)[0][0])
 
         return t, k
 
-- 
2.43.0


From 61510e372429a68e7f479facb1b9fc4f5269a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:26 +0000
Subject: [PATCH 02/43] fix: run_laplacians_transmats passes 'verbose' to
 methods that do not take it

Every interval failed with a TypeError that the worker swallowed, so the first
stage of the pipeline produced no file at all.
---
 src/flowstab/scripts/run_laplacians_transmats.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 2b17b09..8e605cc 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -204,8 +204,7 @@ if not compute_lin_transmat and not compute_expm_transmat:
 reverse_time_list = [False, True]
 
 # arguments for compute_transition_matrices
-args = {"verbose":verbose,
-        "save_intermediate": compute_intermediate,
+args = {"save_intermediate": compute_intermediate,
         "reverse_time" : None}
 
 #%%
@@ -352,7 +351,7 @@ def worker(net_start_stop):
 
             print(f"PID {os.getpid()}:",
                   f" computing Laplacians t_start={t_start}, t_stop={t_stop}")
-            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop, verbose=verbose)
+            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop)
 
             print(f"PID {os.getpid()}:",
                   f" k_start={net._k_start_laplacians}, k_stop={net._k_stop_laplacians}")
@@ -362,8 +361,7 @@ def worker(net_start_stop):
 
             if compute_lin_transmat:
                 print(f"PID {os.getpid()}:", " computing stationary dists")
-                net._compute_stationary_transition(verbose=verbose,
-                                                   use_sparse_stoch=use_sparse_stoch)
+                net._compute_stationary_transition(use_sparse_stoch=use_sparse_stoch)
 
                 t2 = time.time()
                 print(f"PID {os.getpid()}:",f"finished in {t2 - t1:.2f}")
@@ -390,7 +388,7 @@ def worker(net_start_stop):
                 # first compute inter trans matrices (does not depend on time direction)
                 if compute_expm_transmat:
                     print(f"PID {os.getpid()}:", " computing inter transition matrices")
-                    net.compute_inter_transition_matrices(lamda=lamda,verbose=verbose,
+                    net.compute_inter_transition_matrices(lamda=lamda,
                                                           use_sparse_stoch=use_sparse_stoch,
                                                           dense_expm=use_dense_expm)
 
@@ -416,7 +414,6 @@ def worker(net_start_stop):
                 if compute_lin_transmat:
                     print(f"PID {os.getpid()}:", " computing linear inter transition matrices")
                     net.compute_lin_inter_transition_matrices(lamda=lamda,
-                                                              verbose=verbose,
                                                               t_s=t_s,
                                                               use_sparse_stoch=use_sparse_stoch)
 
-- 
2.43.0


From f7adcd56fe42c2c64e119ac1e7fdeb41b8889dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:02 +0000
Subject: [PATCH 03/43] fix: row normalisation makes SparseStochMat unusable in
 products and sums

The in place row normalisation switched the indices of the matrix to int64,
which the cython add/sub/matmul refuse (Buffer dtype mismatch).
---
 src/flowstab/sparse_stoch_mat.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index d71d46b..a943f03 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -223,10 +223,9 @@ class SparseStochMat:
         """Normalize the rows in place
         """
 
-        self.T_small.indptr = self.T_small.indptr.astype(np.int64, copy=False)
-        self.T_small.indices = self.T_small.indices.astype(np.int64, copy=False)
-
-        _css.inplace_csr_row_normalize(self.T_small.data, self.T_small.indptr,
+        # T_small must keep int32 indices: products and sums rely on it
+        _css.inplace_csr_row_normalize(self.T_small.data,
+                                       self.T_small.indptr.astype(np.int64, copy=False),
                                        self.T_small.shape[0], row_sum)
 
         self.diag_val = row_sum
-- 
2.43.0


From 9df9a068488fd532359ba9795c00c5f044ce434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 04/43] fix: --save_flow_int always fails, no slice results are
 saved

FlowIntegralClustering has no attribute I: the integrals are in I_list.
---
 src/flowstab/scripts/run_laplacians_transmats.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 8e605cc..c7db5fa 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -466,11 +466,13 @@ def worker(net_start_stop):
                                     d = 1
                                     if reverse_time:
                                          d = -1
-                                    I = FlowIntegralClustering(T_list=net.T[lamda],
+                                    I_list = FlowIntegralClustering(T_list=net.T[lamda],
                                           time_list=net.times[net._k_start_laplacians:\
-                                                              net._k_stop_laplacians+1].values[::d]).I
+                                                              net._k_stop_laplacians+1].values[::d]).I_list
 
-                                    pd.to_pickle(I,net_file + "_flow_int.pickle")
+                                    # there is no integral over a slice without events
+                                    if len(I_list) > 0:
+                                        pd.to_pickle(I_list[0],net_file + "_flow_int.pickle")
 
                                 if isinstance(net.T[lamda], list):
                                     # we want flow_int but not save intermediate
@@ -505,11 +507,13 @@ def worker(net_start_stop):
                                     d = 1
                                     if reverse_time:
                                         d = -1
-                                    I_lin = FlowIntegralClustering(T_list=net.T_lin[lamda][t_s],
+                                    I_lin_list = FlowIntegralClustering(T_list=net.T_lin[lamda][t_s],
                                               time_list=net.times[net._k_start_laplacians:\
-                                                                  net._k_stop_laplacians+1].values[::d]).I
+                                                                  net._k_stop_laplacians+1].values[::d]).I_list
 
-                                    pd.to_pickle(I_lin,net_file + "_lin_flow_int.pickle")
+                                    # there is no integral over a slice without events
+                                    if len(I_lin_list) > 0:
+                                        pd.to_pickle(I_lin_list[0],net_file + "_lin_flow_int.pickle")
 
                                 if isinstance(net.T_lin[lamda][t_s], list):
                                     # in the case we want flow_int but not save intermediate
-- 
2.43.0


From de629be11587fc6595897e5a983150303f61024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:26 +0000
Subject: [PATCH 05/43] fix: an interrupted or failed write leaves a truncated
 result file

Results were written in place: a crash or a full disk left a truncated file
that later runs took for a finished result, and a failed save destroyed the
previous version. Write to a hidden temporary file and rename it.
---
 src/flowstab/helpers.py                       | 40 +++++++++++++++++++
 src/flowstab/scripts/run_clusterings.py       |  5 ++-
 src/flowstab/scripts/run_cov_integrals.py     | 29 ++++++++------
 .../scripts/run_laplacians_transmats.py       | 12 ++++--
 src/flowstab/temporal_network.py              | 23 +++++------
 5 files changed, 77 insertions(+), 32 deletions(-)

diff --git a/src/flowstab/helpers.py b/src/flowstab/helpers.py
index 7ac4dbe..c37445e 100644
--- a/src/flowstab/helpers.py
+++ b/src/flowstab/helpers.py
@@ -1,5 +1,45 @@
 """Unsorted collection of simple helper functions
 """
+import gzip
+import os
+import uuid
+from contextlib import contextmanager
+
+@contextmanager
+def atomic_write(filename, compressed=False):
+    """Open a binary file for writing that only becomes visible as `filename`
+    once it is complete and on disk.
+
+    The data is written to a hidden temporary file in the same directory,
+    which replaces `filename` when the block is left without an exception. If
+    writing fails, or if the process is killed, `filename` is left as it was.
+
+    Parameters
+    ----------
+    filename : str or Path
+        Name of the file to write.
+    compressed : bool, optional
+        Whether to compress the file with gzip. Default is False.
+    """
+    dirname, basename = os.path.split(os.fspath(filename))
+    tmpfile = os.path.join(dirname, f".tmp_{uuid.uuid4().hex}_{basename}")
+    try:
+        with open(tmpfile, "wb") as fraw:
+            if compressed:
+                with gzip.GzipFile(basename, "wb", compresslevel=2,
+                                   fileobj=fraw) as fopen:
+                    yield fopen
+            else:
+                yield fraw
+            fraw.flush()
+            os.fsync(fraw.fileno())
+        os.replace(tmpfile, filename)
+    except BaseException:
+        try:
+            os.unlink(tmpfile)
+        except OSError:
+            pass
+        raise
 
 def include_doc_from(cls):
     """Decorator to include the docstring from a specified class."""
diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 1c4716a..e80b382 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -56,6 +56,7 @@ import pandas as pd
 from scipy.sparse import csr_matrix, diags
 from scipy.sparse.csgraph import connected_components
 
+from ..helpers import atomic_write
 from ..network_clustering import SparseClustering, norm_var_information, static_clustering
 from ..sparse_stoch_mat import (
     inplace_csr_matmul_diag,
@@ -864,7 +865,7 @@ def worker(file_args):
                         # already saving clustering
                         tmpsavefile = os.path.join(savedir,"tmpclusters_" + file)
                         print("PID ", os.getpid(), " saving temp res to ", tmpsavefile)
-                        with open(tmpsavefile, "wb") as fopen:
+                        with atomic_write(tmpsavefile) as fopen:
                             pickle.dump(tmpres, fopen)
 
                 if compute_nvarinf:
@@ -966,7 +967,7 @@ def worker(file_args):
 
 
 
-            with open(savefile, "wb") as fopen:
+            with atomic_write(savefile) as fopen:
                 pickle.dump(res, fopen)
 
         except Exception:
diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 8ebb196..15d1c68 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -40,6 +40,7 @@ The value saved is the upper triangular part of:
 """
 import gc
 import os
+import pickle
 import re
 import sys
 import time
@@ -53,6 +54,7 @@ import pandas as pd
 import psutil
 from scipy.sparse import csr_matrix, eye, triu
 
+from ..helpers import atomic_write
 from ..sparse_stoch_mat import (
     inplace_csr_matmul_diag,
     inplace_csr_row_normalize,
@@ -205,7 +207,8 @@ print("Arguments:")
 for item in inargs.items():
     print(item)
 #%%
-all_files = os.listdir(datadir)
+# hidden files are the temporary files of interrupted jobs
+all_files = [f for f in os.listdir(datadir) if not f.startswith(".")]
 
 # get num nodes
 num_nodes = None
@@ -581,12 +584,12 @@ def worker(ind_start_tau_w):
                                     print("PID ", os.getpid(), " saving intermediate results to ",
                                           ITPT_temp_file.format(int_start,  k+1))
 
-                                    pd.to_pickle({"ITPT" : ITPT,
-                                          "interval_start" : int_start,
-                                          "last_treated_interval" : k,
-                                          "integration_time" : integration_time,
-                                          "Tk": Tk},
-                                        ITPT_temp_file.format(int_start, k+1))
+                                    with atomic_write(ITPT_temp_file.format(int_start, k+1)) as fopen:
+                                        pickle.dump({"ITPT" : ITPT,
+                                              "interval_start" : int_start,
+                                              "last_treated_interval" : k,
+                                              "integration_time" : integration_time,
+                                              "Tk": Tk}, fopen)
 
                     if compute_lin:
                         tk = time.time()
@@ -651,9 +654,9 @@ def worker(ind_start_tau_w):
                     if integration_time > 0:
                         print("PID ", os.getpid(), " saving to ", ITPT_file.format(int_start, int_stop))
 
-                        pd.to_pickle({"ITPT" : triu(ITPT),
-                                      "integration_time" : integration_time},
-                                     ITPT_file.format(int_start, int_stop))
+                        with atomic_write(ITPT_file.format(int_start, int_stop)) as fopen:
+                            pickle.dump({"ITPT" : triu(ITPT),
+                                         "integration_time" : integration_time}, fopen)
                     else:
                         print("PID ", os.getpid(), f" integration time is zero, not saving {int_start} to {int_stop}")
 
@@ -664,9 +667,9 @@ def worker(ind_start_tau_w):
 
                         print("PID ", os.getpid(), "saving to ", ITPT_lin_file.format(int_start, int_stop))
 
-                        pd.to_pickle({"ITPT" : triu(ITPT_lin),
-                                      "integration_time" : integration_time_lin},
-                                     ITPT_lin_file.format(int_start, int_stop))
+                        with atomic_write(ITPT_lin_file.format(int_start, int_stop)) as fopen:
+                            pickle.dump({"ITPT" : triu(ITPT_lin),
+                                         "integration_time" : integration_time_lin}, fopen)
 
                         if verbose:
                             print("PID ", os.getpid(),
diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index c7db5fa..b8b66f2 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -30,6 +30,7 @@ named {savedir}/{net_name}_tau_w{tau_w}_int{slice_number}__inter_trans_mat.{ext}
 """
 import glob
 import os
+import pickle
 import sys
 import time
 import traceback
@@ -37,8 +38,8 @@ from argparse import SUPPRESS, ArgumentDefaultsHelpFormatter, ArgumentParser
 from multiprocessing import Pool
 
 import numpy as np
-import pandas as pd
 
+from ..helpers import atomic_write
 from ..network_clustering import FlowIntegralClustering
 from ..temporal_network import ContTempNetwork as NetClass
 
@@ -298,7 +299,8 @@ def worker(net_start_stop):
             t0 = time.time()
             A = net.compute_static_adjacency_matrix(start_time=t_start, end_time=t_stop)
 
-            pd.to_pickle(A, adj_file)
+            with atomic_write(adj_file) as fopen:
+                pickle.dump(A, fopen)
 
             t1 = time.time()
             print(f"PID {os.getpid()}:",
@@ -472,7 +474,8 @@ def worker(net_start_stop):
 
                                     # there is no integral over a slice without events
                                     if len(I_list) > 0:
-                                        pd.to_pickle(I_list[0],net_file + "_flow_int.pickle")
+                                        with atomic_write(net_file + "_flow_int.pickle") as fopen:
+                                            pickle.dump(I_list[0], fopen)
 
                                 if isinstance(net.T[lamda], list):
                                     # we want flow_int but not save intermediate
@@ -513,7 +516,8 @@ def worker(net_start_stop):
 
                                     # there is no integral over a slice without events
                                     if len(I_lin_list) > 0:
-                                        pd.to_pickle(I_lin_list[0],net_file + "_lin_flow_int.pickle")
+                                        with atomic_write(net_file + "_lin_flow_int.pickle") as fopen:
+                                            pickle.dump(I_lin_list[0], fopen)
 
                                 if isinstance(net.T_lin[lamda][t_s], list):
                                     # in the case we want flow_int but not save intermediate
diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f09e869..ad31829 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -42,6 +42,7 @@ from scipy.sparse import (
 from scipy.sparse.csgraph import connected_components
 from scipy.sparse.linalg import eigsh, expm
 
+from .helpers import atomic_write
 from .parallel_expm import compute_subspace_expm_parallel
 from .sparse_stoch_mat import inplace_csr_row_normalize, SparseStochMat
 
@@ -310,7 +311,7 @@ class ContTempNetwork:
                 save_dict[mat] = getattr(self,mat)
 
 
-        with open(os.path.splitext(filename)[0] + ".pickle", "wb") as fopen:
+        with atomic_write(os.path.splitext(filename)[0] + ".pickle") as fopen:
             pickle.dump(save_dict, fopen)
 
 
@@ -555,14 +556,13 @@ class ContTempNetwork:
 
                 print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-                with gzip.open(file,
-                               "wb", compresslevel=2) as fopen:
+                with atomic_write(file, compressed=True) as fopen:
                     pickle.dump(save_dict, fopen)
             else:
 
                 print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-                with open(file, "wb") as fopen:
+                with atomic_write(file) as fopen:
                     pickle.dump(save_dict, fopen)
 
 
@@ -681,14 +681,13 @@ class ContTempNetwork:
 
                 print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-                with gzip.open(file,
-                               "wb", compresslevel=2) as fopen:
+                with atomic_write(file, compressed=True) as fopen:
                     pickle.dump(save_dict, fopen)
             else:
 
                 print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-                with open(file, "wb") as fopen:
+                with atomic_write(file) as fopen:
                     pickle.dump(save_dict, fopen)
 
 
@@ -858,8 +857,7 @@ class ContTempNetwork:
 
             print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-            with gzip.open(file,
-                           "wb", compresslevel=2) as fopen:
+            with atomic_write(file, compressed=True) as fopen:
                 pickle.dump(save_dict, fopen)
         else:
             ext = os.path.splitext(filename)[-1]
@@ -868,7 +866,7 @@ class ContTempNetwork:
 
             print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-            with open(file, "wb") as fopen:
+            with atomic_write(file) as fopen:
                 pickle.dump(save_dict, fopen)
 
     def save_T_lin(self, filename, lamda=None, round_zeros=True, tol=1e-8,
@@ -945,8 +943,7 @@ class ContTempNetwork:
 
             print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-            with gzip.open(file,
-                           "wb", compresslevel=2) as fopen:
+            with atomic_write(file, compressed=True) as fopen:
                 pickle.dump(save_dict, fopen)
         else:
             ext = os.path.splitext(filename)[-1]
@@ -955,7 +952,7 @@ class ContTempNetwork:
 
             print("PID ", os.getpid(), " : "," saving " + text + " to " + file)
 
-            with open(file, "wb") as fopen:
+            with atomic_write(file) as fopen:
                 pickle.dump(save_dict, fopen)
 
     @staticmethod
-- 
2.43.0


From c5b8761dca392aaa9157e23896a72406cc0f56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:34 +0000
Subject: [PATCH 06/43] fix: run_clusterings --integral_rtol fails on every
 file

The integrals are saved in COO format, set_to_zeroes needs CSR.
---
 src/flowstab/scripts/run_clusterings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index e80b382..12544c2 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -254,7 +254,7 @@ def load_autocov_int(file, init_p1=False, direction=None):
             raise ValueError("File extension not recognised.")
 
         int_time = autocov["integration_time"]
-        ITPT = autocov["ITPT"]
+        ITPT = autocov["ITPT"].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
@@ -329,7 +329,7 @@ def load_autocov_int(file, init_p1=False, direction=None):
         else:
             raise ValueError("direction must be forward or backward")
 
-        ITPT = autocov[ITPT_key]
+        ITPT = autocov[ITPT_key].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
-- 
2.43.0


From c71c4fe537c4c801445b3e53cf8bccd4d4415a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:45 +0000
Subject: [PATCH 07/43] fix: run_clusterings cannot resume from its temporary
 clustering results

The temporary results were saved without the clusterings and seeds, and
loading them switched off the computation of everything that follows.
---
 src/flowstab/scripts/run_clusterings.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 12544c2..9eae7c4 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -711,11 +711,14 @@ def worker(file_args):
 
                 # check if temp results have already been computed:
                 tmpsavefile = os.path.join(savedir,"tmpclusters_" + file)
-                if os.path.exists(tmpsavefile):
+                tmpres_loaded = False
+                if compute_clustering and os.path.exists(tmpsavefile):
                     print("PID ", os.getpid(), " loading temp res from ", tmpsavefile)
                     with open(tmpsavefile, "rb") as fopen:
                         tmpres = pickle.load(fopen)
 
+                    sym_clusters = tmpres["sym_clusters"]
+                    sym_seeds = tmpres["sym_seeds"]
                     clust_counter_sym =  tmpres["clust_counter_sym"]
                     sym_stabilites = tmpres["sym_stabilites"]
                     avg_stab_sym = tmpres["avg_stab_sym"]
@@ -730,15 +733,13 @@ def worker(file_args):
                     max_S_row_diff_norm = tmpres["max_S_row_diff_norm"]
                     ITPT_sum_norm = tmpres["ITPT_sum_norm"]
 
-                    save_clustering_before_nvarinf = False
-                    compute_clustering = False
-                    compute_nvarinf = True
+                    tmpres_loaded = True
 
 
 
 
 
-                if compute_clustering:
+                if compute_clustering and not tmpres_loaded:
                     params_list = [(file, seed) for seed in n_random_seeds(num_repeat)]
 
                     if nproc_clustering == 1:
@@ -831,7 +832,7 @@ def worker(file_args):
                 print("PID ", os.getpid(), f" symm clust, took {t1-t0:.2f}s, file ", file)
                 print("PID ", os.getpid(), " computing sym nvi ", ", file ", file)
 
-                if compute_clustering:
+                if compute_clustering and not tmpres_loaded:
 
 
                     clust_counter_sym = Counter([tuple(sorted([tuple(sorted(c)) for c in clust])) \
@@ -847,6 +848,8 @@ def worker(file_args):
 
                     if save_clustering_before_nvarinf:
                         tmpres = {}
+                        tmpres["sym_clusters"] = sym_clusters
+                        tmpres["sym_seeds"] = sym_seeds
                         tmpres["clust_counter_sym"] = clust_counter_sym
                         tmpres["sym_stabilites"] = sym_stabilites
                         tmpres["avg_stab_sym"] = avg_stab_sym
-- 
2.43.0


From 8efe4b1d4e646ebf4ba786b206fb29e66a3f3fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:06 +0000
Subject: [PATCH 08/43] fix: an interrupted computation is later taken for a
 complete one

Matrices and clusterings were stored in the instance while they were
being computed, so that after an exception (MemoryError,
KeyboardInterrupt, ...) the next call found a partial result, reported it
as already computed and returned. Store them once they are complete.
---
 src/flowstab/network_clustering.py |  10 +-
 src/flowstab/temporal_network.py   | 152 +++++++++++++++--------------
 2 files changed, 86 insertions(+), 76 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e47bdb7..6f46858 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2123,7 +2123,7 @@ class FlowIntegralClustering:
         else:
 
             if self.is_nparray:
-                self.clustering[k] = Clustering(p1=self.p1, p2=None,
+                clustering = Clustering(p1=self.p1, p2=None,
                                   T=self.T_list[self._k_integral_grid[k+1]-1],
                                   S=self.I_list[k],
                                   cluster_list=cluster_list,
@@ -2131,20 +2131,22 @@ class FlowIntegralClustering:
                                   rnd_state=rnd_state, rnd_seed=rnd_seed,
                                   S_threshold=S_threshold)
             else:
-                self.clustering[k] = SparseClustering(p1=self.p1, p2=None,
+                clustering = SparseClustering(p1=self.p1, p2=None,
                                   S=self.I_list[k],
                                   cluster_list=cluster_list,
                                   node_to_cluster_dict=node_to_cluster_dict,
                                   rnd_state=rnd_state, rnd_seed=rnd_seed)
 
-            n_loop = self.clustering[k].find_louvain_clustering(delta_r_threshold=delta_r_threshold,
+            n_loop = clustering.find_louvain_clustering(delta_r_threshold=delta_r_threshold,
                                 n_meta_iter_max=n_meta_iter_max,
                                 n_sub_iter_max=n_sub_iter_max,
                                 verbose=verbose,
                                 rnd_seed=rnd_seed,
                                 save_progress=save_progress)
 
-            self.partition[k] = self.clustering[k].partition
+            # only a complete clustering is made available
+            self.partition[k] = clustering.partition
+            self.clustering[k] = clustering
 
             return n_loop
 
diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ad31829..e6e622d 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1095,28 +1095,29 @@ class ContTempNetwork:
         Also creates `self.times`, an array with all the times values.
             
         """
-        self.time_grid = pd.DataFrame(
+        time_grid = pd.DataFrame(
             columns=["times", "id", "is_start"],
             index=range(self.events_table.shape[0]*2)
         )
-        self.time_grid.iloc[:self.events_table.shape[0],[0,1]] = \
+        time_grid.iloc[:self.events_table.shape[0],[0,1]] = \
                      self.events_table.reset_index()[["starting_times","index"]]
-        self.time_grid["is_start"] = False
-        self.time_grid.loc[0:self.events_table.shape[0]-1,"is_start"] = True
+        time_grid["is_start"] = False
+        time_grid.loc[0:self.events_table.shape[0]-1,"is_start"] = True
 
-        self.time_grid.iloc[self.events_table.shape[0]:,[0,1]] = \
+        time_grid.iloc[self.events_table.shape[0]:,[0,1]] = \
                       self.events_table.reset_index()[["ending_times","index"]]
 
-        self.time_grid.times = pd.to_numeric(self.time_grid.times)
+        time_grid.times = pd.to_numeric(time_grid.times)
 
-        self.time_grid.sort_values("times", inplace=True)
+        time_grid.sort_values("times", inplace=True)
 
         # group events with same times
-        self.time_grid.set_index(["times", "id"], inplace=True)
+        time_grid.set_index(["times", "id"], inplace=True)
 
-        self.time_grid.sort_index(inplace=True)
+        time_grid.sort_index(inplace=True)
 
-        self.times = self.time_grid.index.levels[0]
+        self.times = time_grid.index.levels[0]
+        self.time_grid = time_grid
 
 
     def _get_closest_time(self, t):
@@ -1394,7 +1395,7 @@ class ContTempNetwork:
             logger.debug(
                 f"Computing interevent transition matrices for lamda={lamda}"
             )
-            self.inter_T[lamda] = []
+            inter_T = []
 
             t0 = time.time()
             for k, tk in enumerate(self.times[self._k_start_laplacians:
@@ -1412,26 +1413,29 @@ class ContTempNetwork:
                     tau_k = self.times[self._k_start_laplacians+k+1] - tk
 
                 if use_sparse_stoch:
-                    self.inter_T[lamda].append(sparse_lapl_expm(self.laplacians[k],
-                                                                       tau_k*lamda,
-                                                                       dense_expm=dense_expm))
+                    inter_T.append(sparse_lapl_expm(self.laplacians[k],
+                                                    tau_k*lamda,
+                                                    dense_expm=dense_expm))
                 elif self.laplacians[k].getnnz() == 0:
                     # expm of zero = identity
-                    self.inter_T[lamda].append(eye(self.num_nodes,format="csr"))
+                    inter_T.append(eye(self.num_nodes,format="csr"))
                 elif dense_expm:
-                    self.inter_T[lamda].append(csr_matrix(expm(-tau_k*lamda*self.laplacians[k].toarray())))
+                    inter_T.append(csr_matrix(expm(-tau_k*lamda*self.laplacians[k].toarray())))
                 else:
-                    self.inter_T[lamda].append(expm(-tau_k*lamda*self.laplacians[k]).tocsr())
+                    inter_T.append(expm(-tau_k*lamda*self.laplacians[k]).tocsr())
 
-            if len(self.inter_T[lamda]) == 0:
+            if len(inter_T) == 0:
                 logger.info("no events, trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T[lamda].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    inter_T.append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
-                    self.inter_T[lamda].append(eye(self.num_nodes,
-                                                      dtype=np.float64,
-                                                      format="csr"))
+                    inter_T.append(eye(self.num_nodes,
+                                       dtype=np.float64,
+                                       format="csr"))
+
+            # only a complete list is made available
+            self.inter_T[lamda] = inter_T
 
             t_end = time.time()-t0
 
@@ -1495,11 +1499,7 @@ class ContTempNetwork:
                 )
 
         if compute:
-            if lamda not in self.inter_T_lin.keys():
-                self.inter_T_lin[lamda] = dict()
-                self.inter_T_lin[lamda][t_s] = []
-            else:
-                self.inter_T_lin[lamda][t_s] = []
+            inter_T_lin = []
 
             logger.debug(
                 "Computing interevent linear transition matrices for "
@@ -1531,7 +1531,7 @@ class ContTempNetwork:
 
                     nz_rowcols, = (nonzerosum_rowcols).nonzero()
 
-                    self.inter_T_lin[lamda][t_s].append(\
+                    inter_T_lin.append(\
                            sparse_lin_approx(I - Lcsr,
                                              tau_k*lamda,
                                              Pi=self._stationary_trans[k],
@@ -1539,21 +1539,24 @@ class ContTempNetwork:
                                              nz_rowcols=nz_rowcols))
                 else:
 
-                    self.inter_T_lin[lamda][t_s].append(\
+                    inter_T_lin.append(\
                            lin_approx_trans_matrix(I - Lcsr,
                                                    tau_k*lamda,
                                                    Pi=self._stationary_trans[k],
                                                    t_s=t_s))
 
-            if len(self.inter_T_lin[lamda][t_s]) == 0:
+            if len(inter_T_lin) == 0:
                 logger.debug("no events, lin. trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T_lin[lamda].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    inter_T_lin.append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
-                    self.inter_T_lin[lamda][t_s].append(eye(self.num_nodes,
-                                                      dtype=np.float64,
-                                                      format="csr"))
+                    inter_T_lin.append(eye(self.num_nodes,
+                                           dtype=np.float64,
+                                           format="csr"))
+
+            # only a complete list is made available
+            self.inter_T_lin.setdefault(lamda, dict())[t_s] = inter_T_lin
 
             t_end = time.time()-t0
             self._compute_times[f"tran_matrices_lin_{lamda}_{t_s}"] = t_end
@@ -1595,22 +1598,22 @@ class ContTempNetwork:
                     # forcing the first matrix to csr, will ensure that
                     # all products are done in csr format,
                     # since CSR @ SparseStochMat t is not implemented
-                    self.T[lamda] = [self.inter_T[lamda][k_init].tocsr()]
+                    T = [self.inter_T[lamda][k_init].tocsr()]
                 else:
-                    self.T[lamda] = [self.inter_T[lamda][k_init]]
+                    T = [self.inter_T[lamda][k_init]]
 
                 if tol is not None:
-                    set_to_zeroes(self.T[lamda][0],tol)
-                    inplace_csr_row_normalize(self.T[lamda][0])
+                    set_to_zeroes(T[0],tol)
+                    inplace_csr_row_normalize(T[0])
             else:
                 if force_csr:
-                    self.T[lamda] = self.inter_T[lamda][k_init].tocsr()
+                    T = self.inter_T[lamda][k_init].tocsr()
                 else:
-                    self.T[lamda] = self.inter_T[lamda][k_init]
+                    T = self.inter_T[lamda][k_init]
 
                 if tol is not None:
-                    set_to_zeroes(self.T[lamda],tol)
-                    inplace_csr_row_normalize(self.T[lamda])
+                    set_to_zeroes(T,tol)
+                    inplace_csr_row_normalize(T)
 
 
 
@@ -1631,20 +1634,23 @@ class ContTempNetwork:
 
                 if save_intermediate:
 
-                    self.T[lamda].append(self.T[lamda][-1] @ Tk)
+                    T.append(T[-1] @ Tk)
 
                     #normalize T to correct precision errors
                     if tol is not None:
-                        set_to_zeroes(self.T[lamda][-1],tol)
+                        set_to_zeroes(T[-1],tol)
 
-                    inplace_csr_row_normalize(self.T[lamda][-1])
+                    inplace_csr_row_normalize(T[-1])
                 else:
-                    self.T[lamda] = self.T[lamda] @ Tk
+                    T = T @ Tk
                     if tol is not None:
-                        set_to_zeroes(self.T[lamda], tol)
+                        set_to_zeroes(T, tol)
 
                     #normalize T to correct precision errors
-                    inplace_csr_row_normalize(self.T[lamda])
+                    inplace_csr_row_normalize(T)
+
+            # only a complete product is made available
+            self.T[lamda] = T
 
             t_end = time.time()-t0
 
@@ -1691,18 +1697,10 @@ class ContTempNetwork:
 
 
             # initial conditions
-            if lamda not in self.T_lin.keys():
-                self.T_lin[lamda] = dict()
-                if save_intermediate:
-                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]
-                else:
-                    self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]
-
-            if t_s not in self.T_lin[lamda].keys():
-                if save_intermediate:
-                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]
-                else:
-                    self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]
+            if save_intermediate:
+                T_lin = [self.inter_T_lin[lamda][t_s][k_init]]
+            else:
+                T_lin = self.inter_T_lin[lamda][t_s][k_init]
 
             logger.info(
                 f"Computing transition matrix for lamda={lamda}, t_s={t_s}"
@@ -1715,17 +1713,20 @@ class ContTempNetwork:
                     logger.info(f"{k} over {len(self.inter_T_lin[lamda][t_s])}")
                     logger.info(f"{time.time()-t0:.2f}s")
                 if save_intermediate:
-                    self.T_lin[lamda][t_s].append(self.T_lin[lamda][t_s][-1] @ \
+                    T_lin.append(T_lin[-1] @ \
                                       self.inter_T_lin[lamda][t_s][k])
 
                     #normalize T to correct precision errors
-                    inplace_csr_row_normalize(self.T_lin[lamda][t_s][-1])
+                    inplace_csr_row_normalize(T_lin[-1])
                 else:
-                    self.T_lin[lamda][t_s] = self.T_lin[lamda][t_s] @ \
+                    T_lin = T_lin @ \
                                       self.inter_T_lin[lamda][t_s][k]
 
                     #normalize T to correct precision errors
-                    inplace_csr_row_normalize(self.T_lin[lamda][t_s])
+                    inplace_csr_row_normalize(T_lin)
+
+            # only a complete product is made available
+            self.T_lin.setdefault(lamda, dict())[t_s] = T_lin
 
             t_end = time.time()-t0
 
@@ -1745,7 +1746,7 @@ class ContTempNetwork:
                                             t_stop=t_stop)
         logger.info("Computing stationary transition matrices")
 
-        self._stationary_trans = []
+        stationary_trans = []
 
         I = eye(self.num_nodes,
                 dtype=np.float64, format="csc")
@@ -1759,14 +1760,17 @@ class ContTempNetwork:
                 logger.info(f"{time.time()-t0:.2f}s")
 
             if use_sparse_stoch:
-                self._stationary_trans.append(\
+                stationary_trans.append(\
                   sparse_stationary_trans(I - self.laplacians[k]))
 
             else:
-                self._stationary_trans.append(\
+                stationary_trans.append(\
                       compute_stationary_transition(I - self.laplacians[k]))
 
 
+        # only a complete list is made available
+        self._stationary_trans = stationary_trans
+
         t_end = time.time()-t0
 
         self._compute_times["_stationary_trans"] = t_end
@@ -1855,14 +1859,16 @@ class ContTempNetwork:
 
             if lamda not in self.delta_inter_T.keys():
 
-                self.delta_inter_T[lamda] = [self.inter_T[lamda][k+1] - \
+                delta_inter_T = [self.inter_T[lamda][k+1] - \
                                                   self.inter_T[lamda][k] for k in \
                                                   range(len(self.inter_T[lamda])-1)]
 
                 if round_zeros:
-                    for M in self.delta_inter_T[lamda]:
+                    for M in delta_inter_T:
                         set_to_zeroes(M, tol=tol)
 
+                self.delta_inter_T[lamda] = delta_inter_T
+
             else:
                 print("PID ", os.getpid(), " : ",
                       f"delta_inter_T has already been computed with lamda={lamda}")
@@ -1879,18 +1885,20 @@ class ContTempNetwork:
 
             if lamda not in self.delta_inter_T_lin.keys():
 
-                self.delta_inter_T_lin[lamda] = dict()
+                delta_inter_T_lin = dict()
 
                 for t_s in self.inter_T_lin[lamda].keys():
 
-                    self.delta_inter_T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k+1] - \
+                    delta_inter_T_lin[t_s] = [self.inter_T_lin[lamda][t_s][k+1] - \
                                                       self.inter_T_lin[lamda][t_s][k] for k in \
                                                       range(len(self.inter_T_lin[lamda][t_s])-1)]
 
                     if round_zeros:
-                        for M in self.delta_inter_T_lin[lamda][t_s]:
+                        for M in delta_inter_T_lin[t_s]:
                             set_to_zeroes(M, tol=tol)
 
+                self.delta_inter_T_lin[lamda] = delta_inter_T_lin
+
             else:
                 print("PID ", os.getpid(), " : ",
                       f"delta_inter_T_lin has already been computed with lamda={lamda}")
-- 
2.43.0


From b14c0426c915d98ca538ed7b621aaf81a55da1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:35 +0000
Subject: [PATCH 09/43] fix: recomputing the Laplacians for another time window
 keeps old results

Transition matrices computed from the previous Laplacians were kept and
later used as if they belonged to the new time window.
---
 src/flowstab/temporal_network.py | 94 ++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 34 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index e6e622d..bc06278 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1192,33 +1192,32 @@ class ContTempNetwork:
         S = I.copy()
 
 
-        self.laplacians = []
-        if save_adjacencies:
-            self.adjacencies = []
+        laplacians = []
+        adjacencies = []
 
         # set boundary conditions : L_k is the laplacian during t_k and t_k+1
         if t_start is None:
-            self._t_start_laplacians = self.times[0]
-            self._k_start_laplacians = 0
+            t_start_lapl = self.times[0]
+            k_start_lapl = 0
         else:
             t, k = self._get_closest_time(t_start)
-            self._t_start_laplacians = t
-            self._k_start_laplacians = k
+            t_start_lapl = t
+            k_start_lapl = k
         if t_stop is None:
-            self._t_stop_laplacians = self.times[-1]
-            self._k_stop_laplacians = len(self.times)-1
+            t_stop_lapl = self.times[-1]
+            k_stop_lapl = len(self.times)-1
         else:
             t, k = self._get_closest_time(t_stop)
-            self._t_stop_laplacians = t
-            self._k_stop_laplacians = k
+            t_stop_lapl = t
+            k_stop_lapl = k
 
         t0 = time.time()
 
-        if self._k_start_laplacians > 0:
+        if k_start_lapl > 0:
             # initial conditions, we have to find the adjacency mat just before
             # _k_start_laplacians.
 
-            t_km1 = self.times[self._k_start_laplacians-1]
+            t_km1 = self.times[k_start_lapl-1]
 
             # find events that have started before or at t_k-1
             # and were still occuring at t_k-1
@@ -1255,15 +1254,15 @@ class ContTempNetwork:
         # time grid for this time range
         time_grid_range = self.time_grid.loc[\
                   (self.time_grid.index.get_level_values("times") >= \
-                       self._t_start_laplacians) & \
+                       t_start_lapl) & \
                   (self.time_grid.index.get_level_values("times") < \
-                       self._t_stop_laplacians)]
+                       t_stop_lapl)]
 
         for k, (tk, time_ev) in enumerate(time_grid_range.groupby(level="times")):
             if not k%1000:
                 logger.info(
                     f"{k} over "
-                    f"{self._k_stop_laplacians - self._k_start_laplacians}"
+                    f"{k_stop_lapl - k_start_lapl}"
                 )
                 logger.info( f"{time.time()-t0:.2f}s")
 
@@ -1315,9 +1314,23 @@ class ContTempNetwork:
             # T_D = Dm1 @ (Acsc + S)
             # L = I - T_D
 
-            self.laplacians.append(I - Dm1 @ (Acsc + S))
+            laplacians.append(I - Dm1 @ (Acsc + S))
             if save_adjacencies:
-                self.adjacencies.append(A.copy())
+                adjacencies.append(A.copy())
+
+        # make the complete list available, what was computed from the previous
+        # laplacians is no longer valid
+        for name in ["laplacians", "adjacencies", "_stationary_trans",
+                     "inter_T", "inter_T_lin", "T", "T_lin",
+                     "delta_inter_T", "delta_inter_T_lin"]:
+            self.__dict__.pop(name, None)
+        self._t_start_laplacians = t_start_lapl
+        self._k_start_laplacians = k_start_lapl
+        self._t_stop_laplacians = t_stop_lapl
+        self._k_stop_laplacians = k_stop_lapl
+        if save_adjacencies:
+            self.adjacencies = adjacencies
+        self.laplacians = laplacians
 
         t_end = time.time()-t0
         self._compute_times["laplacians"] = t_end
@@ -2015,25 +2028,24 @@ class ContTempInstNetwork(ContTempNetwork):
         S = I.copy()
 
 
-        self.laplacians = []
-        if save_adjacencies:
-            self.adjacencies = []
+        laplacians = []
+        adjacencies = []
 
         # set boundary conditions : L_k is the laplacian during t_k and t_k+1
         if t_start is None:
-            self._t_start_laplacians = self.times[0]
-            self._k_start_laplacians = 0
+            t_start_lapl = self.times[0]
+            k_start_lapl = 0
         else:
             t, k = self._get_closest_time(t_start)
-            self._t_start_laplacians = t
-            self._k_start_laplacians = k
+            t_start_lapl = t
+            k_start_lapl = k
         if t_stop is None:
-            self._t_stop_laplacians = self.times[-1]
-            self._k_stop_laplacians = len(self.times)-1
+            t_stop_lapl = self.times[-1]
+            k_stop_lapl = len(self.times)-1
         else:
             t, k = self._get_closest_time(t_stop)
-            self._t_stop_laplacians = t
-            self._k_stop_laplacians = k
+            t_stop_lapl = t
+            k_stop_lapl = k
 
         t0 = time.time()
 
@@ -2041,15 +2053,15 @@ class ContTempInstNetwork(ContTempNetwork):
         # time grid for this time range
         time_grid_range = self.time_grid.loc[\
                   (self.time_grid.index.get_level_values("times") >= \
-                       self._t_start_laplacians) & \
+                       t_start_lapl) & \
                   (self.time_grid.index.get_level_values("times") < \
-                       self._t_stop_laplacians)]
+                       t_stop_lapl)]
 
         for k, (tk, time_ev) in enumerate(time_grid_range.groupby(level="times")):
             if not k%1000:
                 logger.info(
                     f"{k} over "
-                    f"{self._k_stop_laplacians - self._k_start_laplacians}"
+                    f"{k_stop_lapl - k_start_lapl}"
                 )
                 print(f"PID {os.getpid()} : {time.time()-t0:.2f}s")
 
@@ -2090,9 +2102,9 @@ class ContTempInstNetwork(ContTempNetwork):
             # T_D = Dm1 @ (Acsc + S)
             # L = I - T_D
 
-            self.laplacians.append(I - Dm1 @ (Acsc + S))
+            laplacians.append(I - Dm1 @ (Acsc + S))
             if save_adjacencies:
-                self.adjacencies.append(A.copy())
+                adjacencies.append(A.copy())
 
             # reset matrices
             A.clear()
@@ -2100,6 +2112,20 @@ class ContTempInstNetwork(ContTempNetwork):
             Dm1.data.fill(1.0)
             degrees.fill(0.0)
 
+        # make the complete list available, what was computed from the previous
+        # laplacians is no longer valid
+        for name in ["laplacians", "adjacencies", "_stationary_trans",
+                     "inter_T", "inter_T_lin", "T", "T_lin",
+                     "delta_inter_T", "delta_inter_T_lin"]:
+            self.__dict__.pop(name, None)
+        self._t_start_laplacians = t_start_lapl
+        self._k_start_laplacians = k_start_lapl
+        self._t_stop_laplacians = t_stop_lapl
+        self._k_stop_laplacians = k_stop_lapl
+        if save_adjacencies:
+            self.adjacencies = adjacencies
+        self.laplacians = laplacians
+
         t_end = time.time()-t0
         self._compute_times["laplacians"] = t_end
         logger.info(f"Finished in {t_end}")
-- 
2.43.0


From 88a273db7ead7a5257f919ae147c9a54c94dc2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:38 +0000
Subject: [PATCH 10/43] fix: an error in one slice or waiting time spoils what
 is saved next

When the Laplacians of an interval could not be computed, transition
matrices were still computed and saved. A transition matrix that could
not be saved was saved again in the files of the next waiting times.
---
 src/flowstab/scripts/run_laplacians_transmats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index b8b66f2..05da7d9 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -378,6 +378,9 @@ def worker(net_start_stop):
                    file=sys.stderr)
             traceback.print_exc(file=sys.stderr)
 
+            # without the laplacians of this interval there is nothing to save
+            return
+
 
         for tau_w in tau_ws:
 
@@ -485,6 +488,7 @@ def worker(net_start_stop):
 
 
                                 net.save_T(net_file + "_trans_mat.pickle",
+                                               lamda=lamda,
                                                round_zeros=True,
                                                tol=tol,
                                                compressed=compress_slice_trans)
@@ -528,6 +532,7 @@ def worker(net_start_stop):
 
 
                                 net.save_T_lin(net_file + "_lin_trans_mat.pickle",
+                                               lamda=lamda,
                                                round_zeros=True,
                                                tol=tol,
                                                compressed=compress_slice_trans)
-- 
2.43.0


From 2b31c952f58e92eefb58c3e7c9808154d1f7f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:38 +0000
Subject: [PATCH 11/43] fix: run_laplacians_transmats skips intervals with
 missing files

Files of the kind that was not asked for decided whether an interval had
already been treated.
---
 src/flowstab/scripts/run_laplacians_transmats.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 05da7d9..d49040e 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -341,8 +341,18 @@ def worker(net_start_stop):
         if (not glob.glob(net_file_inter_expm + "*")):
             all_inter_expm_exists = False
 
-    if (all_inter_expm_exists and all_inter_lin_exists and not save_slice_trans) or \
-        (all_expm_exists and all_lin_exists):
+    # only consider the files that have to be saved
+    if not compute_expm_transmat or not save_slice_trans:
+        all_expm_exists = True
+    if not compute_lin_transmat or not save_slice_trans:
+        all_lin_exists = True
+    if not compute_expm_transmat or not save_inter_T:
+        all_inter_expm_exists = True
+    if not compute_lin_transmat or not save_inter_T:
+        all_inter_lin_exists = True
+
+    if all_inter_expm_exists and all_inter_lin_exists and \
+        all_expm_exists and all_lin_exists:
         print(f"PID {os.getpid()}:", "interval = ", int_index,
                           " all files already exists" )
     else:
-- 
2.43.0


From fb7ccbcb4666cf4fc4b0579a758986ce7e07ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 12/43] fix: run_cov_integrals fails for waiting times rounded
 in file names

1/tau_w computed from the rounded value in the file name is not the key
under which the matrices were saved (e.g. tau_w=1/3).
---
 src/flowstab/scripts/run_cov_integrals.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 15d1c68..a361978 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -256,6 +256,13 @@ else:
 
 #%%
 
+def find_lamda(lamdas, tau_w):
+    """returns the value in lamdas that corresponds to tau_w, which is rounded
+    in the filenames.
+    """
+    return min(lamdas, key=lambda lamda: abs(lamda*tau_w - 1))
+
+
 def load_trans_mat(k_range, tau_w, lin, reverse_time):
     """loads, computes and returns the transition matrix computed from k_range[0]
     to k_range[-1] and the corresponding time duration.
@@ -291,9 +298,9 @@ def load_trans_mat(k_range, tau_w, lin, reverse_time):
         TM = ContTempNetwork.load_T(T_file.format(k=k))
 
         if lin:
-            Tk = TM["T_lin"][1/tau_w][t_s]
+            Tk = TM["T_lin"][find_lamda(TM["T_lin"], tau_w)][t_s]
         else:
-            Tk = TM["T"][1/tau_w]
+            Tk = TM["T"][find_lamda(TM["T"], tau_w)]
 
         set_to_zeroes(Tk, tol=tol)
         inplace_csr_row_normalize(Tk)
@@ -521,9 +528,10 @@ def worker(ind_start_tau_w):
                                        "_inter_trans_mat")
 
                             tl = time.time()
-                            num_l = len(inter_Ts["inter_T"][1/tau_w])
+                            inter_T = inter_Ts["inter_T"][find_lamda(inter_Ts["inter_T"], tau_w)]
+                            num_l = len(inter_T)
                             # integrate T
-                            for l, (inter_Tk, dtk) in enumerate(zip(inter_Ts["inter_T"][1/tau_w][::d],
+                            for l, (inter_Tk, dtk) in enumerate(zip(inter_T[::d],
                                                d * np.diff(inter_Ts["times_k_start_to_k_stop+1"][::d]))):
 
 
@@ -601,7 +609,9 @@ def worker(ind_start_tau_w):
 
                         tk = time.time()
 
-                        for inter_Tk_lin, dtk in zip(inter_Ts_lin["inter_T_lin"][1/tau_w][t_s][::d],
+                        inter_T_lin = inter_Ts_lin["inter_T_lin"][find_lamda(inter_Ts_lin["inter_T_lin"],
+                                                                             tau_w)][t_s]
+                        for inter_Tk_lin, dtk in zip(inter_T_lin[::d],
                                            d * np.diff(inter_Ts_lin["times_k_start_to_k_stop+1"][::d])):
 
 
-- 
2.43.0


From ea15c12d01c5629f29a41c1d3b8d514e1ab95599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 13/43] fix: run_cov_integrals takes files of other networks
 into account

The results of several networks, told apart by --net_name, can be in the
same directory. A name with a part starting with 'w' was also not
possible.
---
 src/flowstab/scripts/run_cov_integrals.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index a361978..ae15ac3 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -207,8 +207,10 @@ print("Arguments:")
 for item in inargs.items():
     print(item)
 #%%
-# hidden files are the temporary files of interrupted jobs
-all_files = [f for f in os.listdir(datadir) if not f.startswith(".")]
+# only the files of this network
+# (hidden files are the temporary files of interrupted jobs)
+file_pattern = re.compile(re.escape(net_name) + "_tau_w([^_]+)_int([0-9]{6})_")
+all_files = [f for f in os.listdir(datadir) if file_pattern.match(f)]
 
 # get num nodes
 num_nodes = None
@@ -229,11 +231,9 @@ while num_nodes is None:
 intervals = set()
 tau_ws = set()
 for file in all_files:
-    for extract in os.path.splitext(file)[0].split("_"):
-        if re.search("int[0-9]{6}",extract):
-            intervals.add(int(extract[3:]))
-        elif extract.startswith("w"):
-            tau_ws.add(float(extract[1:]))
+    tau_w, interval = file_pattern.match(file).groups()
+    intervals.add(int(interval))
+    tau_ws.add(float(tau_w))
 
 intervals = sorted(list(intervals))
 tau_ws = sorted(list(tau_ws))
-- 
2.43.0


From 219ba0131b564ada590d93270bcec19c43e1634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 14/43] fix: run_cov_integrals cannot be run again with expm
 and lin together

When only some of the integrals had been saved, every later run stopped
on an assertion, even if only the other kind was missing.
---
 src/flowstab/scripts/run_cov_integrals.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index ae15ac3..cd2b027 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -395,7 +395,8 @@ def worker(ind_start_tau_w):
                 # if its all True (no need to compute anything)
                 all_expm_exists = last_expm_exist +1 == integrals_expm_exists.size
 
-                if not all_expm_exists:
+                # restarting is not possible if expm and lin are done at the same time
+                if not all_expm_exists and not use_lin_transmats:
                     #load the last integral
                     int_stop = int_stops[last_expm_exist]
                     if os.path.isfile(ITPT_file.format(int_start, int_stop)):
@@ -417,9 +418,6 @@ def worker(ind_start_tau_w):
                     # update initial condition
                     _int_start = int_stops[last_expm_exist]
                     int_stops = int_stops[last_expm_exist+1:]
-                    #/!\ this won't work if expm and lin are done at the same time
-                    assert use_lin_transmats != use_expm_transmats
-
                     del ITPT_load
 
         if use_lin_transmats:
@@ -434,7 +432,8 @@ def worker(ind_start_tau_w):
                 # if its all True (no need to compute anything)
                 all_lin_exists = last_lin_exist +1 == integrals_lin_exists.size
 
-                if not all_lin_exists:
+                # restarting is not possible if expm and lin are done at the same time
+                if not all_lin_exists and not use_expm_transmats:
                     #load the last integral
                     int_stop = int_stops[last_lin_exist]
                     if os.path.isfile(ITPT_lin_file.format(int_start, int_stop)):
@@ -455,8 +454,6 @@ def worker(ind_start_tau_w):
 
                     ITPT_lin = ITPT_lin_load["ITPT"]
 
-                    assert use_lin_transmats != use_expm_transmats
-
                     del ITPT_lin_load
 
                     # update initial condition
@@ -479,9 +476,6 @@ def worker(ind_start_tau_w):
             print("PID ", os.getpid(),
                   f" lin trans integral from int {int_start} for tau_w {tau_w} already computed")
 
-        if compute_expm and compute_lin and last_expm_exist > -1 and last_lin_exist > 1:
-            raise NotImplementedError
-
 
         if compute_expm or compute_lin:
             for int_stop in int_stops:
-- 
2.43.0


From a36269e468e21c39722e43ab9e307186a2c9ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:49 +0000
Subject: [PATCH 15/43] fix: run_cov_integrals cannot restart from saved
 integrals

The saved slice transition matrices could not be multiplied when they are
sparse stochastic matrices, and when they had not been saved every later
run failed. Compute from the start in this case.
---
 src/flowstab/scripts/run_cov_integrals.py | 38 +++++++++++++++--------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index cd2b027..6e663e4 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -268,6 +268,8 @@ def load_trans_mat(k_range, tau_w, lin, reverse_time):
     to k_range[-1] and the corresponding time duration.
         
     used to quickly start again an integral computation.
+
+    returns None, None if the transition matrices of the slices are not available.
     """
     if reverse_time:
         time_direction_str = "reversed_"
@@ -295,7 +297,11 @@ def load_trans_mat(k_range, tau_w, lin, reverse_time):
     integr_time = 0
 
     for k in k_range:
-        TM = ContTempNetwork.load_T(T_file.format(k=k))
+        try:
+            TM = ContTempNetwork.load_T(T_file.format(k=k))
+        except FileNotFoundError:
+            # the transition matrices of the slices have not been saved
+            return None, None
 
         if lin:
             Tk = TM["T_lin"][find_lamda(TM["T_lin"], tau_w)][t_s]
@@ -305,7 +311,7 @@ def load_trans_mat(k_range, tau_w, lin, reverse_time):
         set_to_zeroes(Tk, tol=tol)
         inplace_csr_row_normalize(Tk)
 
-        T = T @ Tk
+        T = T @ Tk.tocsr()
         set_to_zeroes(T, tol=tol)
         inplace_csr_row_normalize(T)
 
@@ -411,13 +417,17 @@ def worker(ind_start_tau_w):
                     else:
                         load_range = range(int_start,int_stop,d)
 
-                    Tk, integration_time = load_trans_mat(load_range,
+                    T_load, time_load = load_trans_mat(load_range,
                                            tau_w, lin=False, reverse_time=reverse_time)
-                    ITPT = ITPT_load["ITPT"]
 
-                    # update initial condition
-                    _int_start = int_stops[last_expm_exist]
-                    int_stops = int_stops[last_expm_exist+1:]
+                    if T_load is not None:
+                        Tk, integration_time = T_load, time_load
+                        ITPT = ITPT_load["ITPT"]
+
+                        # update initial condition
+                        _int_start = int_stops[last_expm_exist]
+                        int_stops = int_stops[last_expm_exist+1:]
+
                     del ITPT_load
 
         if use_lin_transmats:
@@ -449,16 +459,18 @@ def worker(ind_start_tau_w):
                     else:
                         load_range = range(int_start,int_stop,d)
 
-                    Tk_lin, integration_time_lin = load_trans_mat(load_range,
+                    T_load, time_load = load_trans_mat(load_range,
                                            tau_w, lin=True, reverse_time=reverse_time)
 
-                    ITPT_lin = ITPT_lin_load["ITPT"]
+                    if T_load is not None:
+                        Tk_lin, integration_time_lin = T_load, time_load
+                        ITPT_lin = ITPT_lin_load["ITPT"]
 
-                    del ITPT_lin_load
+                        # update initial condition
+                        _int_start = int_stops[last_lin_exist]
+                        int_stops = int_stops[last_lin_exist+1:]
 
-                    # update initial condition
-                    _int_start = int_stops[last_lin_exist]
-                    int_stops = int_stops[last_lin_exist+1:]
+                    del ITPT_lin_load
 
 
 
-- 
2.43.0


From 50435e468194c78273baa9521ea5ceb653354fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:02 +0000
Subject: [PATCH 16/43] fix: compute_parallel_clustering clusters another
 matrix than the given one

The covariance was rebuilt in the processes with the probabilities of the
clustering instead of its own, and as if it were always symmetric.
---
 src/flowstab/parallel_clustering.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/parallel_clustering.py b/src/flowstab/parallel_clustering.py
index 8947f76..68d936b 100644
--- a/src/flowstab/parallel_clustering.py
+++ b/src/flowstab/parallel_clustering.py
@@ -90,7 +90,10 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
                   initializer=_init_sub_worker_sparse,
                   initargs=(PTdata, PTindices,
                             PTindptr, N,
-                            p1raw, p2raw),
+                            p1raw, p2raw,
+                            # not necessarily those of the clustering
+                            clustering._S.p1, clustering._S.p2,
+                            clustering._S.PT_symmetric),
                     ) as pool:
             clusters, stabilites, seeds = \
                 zip(*pool.map(_compute_sym_sparse_clustering_fct, params_list,
@@ -118,7 +121,8 @@ def _init_sub_worker(Sraw, Traw, N, p1raw, p2raw):
     var_dict["T"] = np.frombuffer(Traw, dtype=np.float64).reshape((N,N))
 
 
-def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw, PT_symmetric=True):
+def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw,
+                            S_p1, S_p2, PT_symmetric):
     # reconstruct A from shared arrays
 
     PT = csr_matrix((np.frombuffer(PTdata, dtype=np.float64),
@@ -126,17 +130,14 @@ def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw, PT_sym
                                   np.frombuffer(PTindptr, dtype=np.int64)),
                                  shape=(N,N))
 
-    S = SparseAutocovMat(PT,
-                           np.frombuffer(p1raw, dtype=np.float64),
-                           np.frombuffer(p2raw, dtype=np.float64),
-                           PT_symmetric=PT_symmetric)
+    S = SparseAutocovMat(PT, S_p1, S_p2, PT_symmetric=PT_symmetric)
 
     global var_dict
 
     var_dict["N"] = N
     var_dict["S"] = S
-    var_dict["p1"] = S.p1
-    var_dict["p2"] = S.p2
+    var_dict["p1"] = np.frombuffer(p1raw, dtype=np.float64)
+    var_dict["p2"] = np.frombuffer(p2raw, dtype=np.float64)
     var_dict["T"] = S.PT
 
 
-- 
2.43.0


From b9cf387157754aa21896160386a08fa982587f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:29 +0000
Subject: [PATCH 17/43] fix: networks from an events table are not relabelled

Node labels were only recorded, so that labels other than 0..n-1 failed
later, the table of the caller was modified, a CSV file could not be read
with relabel_nodes, and ContTempInstNetwork was left uninitialised.
---
 src/flowstab/temporal_network.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index bc06278..0ca1cfe 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -176,7 +176,8 @@ class ContTempNetwork:
                         f"The file at {events_table} could not be parsed."
                     )
             elif isinstance(events_table, pd.DataFrame):
-                self.events_table = events_table
+                # the table of the caller is left as it is
+                self.events_table = events_table.copy()
             else:
                 raise ValueError(
                     "`events_table` must be a pandas DataFrame or the"
@@ -186,10 +187,13 @@ class ContTempNetwork:
             reset_event_table_index = False     
             if relabel_nodes:                   
                 all_nodes = set()
-                all_nodes.update(events_table.source_nodes.tolist())
-                all_nodes.update(events_table.target_nodes.tolist())
+                all_nodes.update(self.events_table.source_nodes.tolist())
+                all_nodes.update(self.events_table.target_nodes.tolist())
                 self.label_to_node_dict = {l : n for n, l in enumerate(sorted(all_nodes))}
                 self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}
+
+                for col in ["source_nodes", "target_nodes"]:
+                    self.events_table[col] = self.events_table[col].map(self.label_to_node_dict)
             else:
                 self.node_to_label_dict=node_to_label_dict
 
@@ -1986,7 +1990,11 @@ class ContTempInstNetwork(ContTempNetwork):
                              node_to_label_dict=node_to_label_dict,
                              merge_overlapping_events=False,
                              events_table=events_table)
-
+        else:
+            super().__init__(relabel_nodes=relabel_nodes,
+                             reset_event_table_index=reset_event_table_index,
+                             node_to_label_dict=node_to_label_dict,
+                             events_table=events_table)
 
         self.events_table["durations"] = [1.0]*self.events_table.shape[0]
         self.instantaneous_events = True
-- 
2.43.0


From e8da11f8747060c05473fd84104da90e500c69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:00 +0000
Subject: [PATCH 18/43] fix: transition matrices saved as differences cannot be
 restored

All negative differences were rounded to zero, and saving the matrices of
all values of lamda, or of a new value of t_s, failed.
---
 src/flowstab/temporal_network.py | 66 +++++++++++---------------------
 1 file changed, 23 insertions(+), 43 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 0ca1cfe..ee37c74 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -494,34 +494,24 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                assert not isinstance(self.inter_T[lamda][0],
-                                  SparseStochMat),\
-                                "inter_T must not be SparseStochMat"
-
-                if not hasattr(self, "delta_inter_T") and \
-                                    hasattr(self, "inter_T"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                if lamda is None:
+                    #computes it for all lamda
+                    lamdas = list(self.inter_T.keys())
+                else:
+                    lamdas = [lamda]
+
+                for lamda in lamdas:
+                    assert not isinstance(self.inter_T[lamda][0],
+                                      SparseStochMat),\
+                                    "inter_T must not be SparseStochMat"
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T.keys()):
                     self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                                                  tol=tol)
 
                 if hasattr(self, "delta_inter_T"):
                     save_dict["inter_T"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T"][lamda] = dict()
                         save_dict["inter_T"][lamda]["delta_inter_T"] = self.delta_inter_T[lamda]
@@ -615,21 +605,15 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                if not hasattr(self, "delta_inter_T_lin") and \
-                                    hasattr(self, "inter_T_lin"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T_lin.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                if lamda is None:
+                    #computes it for all lamda
+                    lamdas = list(self.inter_T_lin.keys())
+                else:
+                    lamdas = [lamda]
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T_lin.keys()):
+                for lamda in lamdas:
                     self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-
+                                                  tol=tol)
 
                 if hasattr(self, "delta_inter_T_lin"):
 
@@ -637,11 +621,6 @@ class ContTempNetwork:
                     save_dict["inter_T_lin"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T_lin.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T_lin"][lamda] = dict()
                         for t_s in self.inter_T_lin[lamda].keys():
@@ -660,7 +639,7 @@ class ContTempNetwork:
                 save_dict["is_sparse_stoch"] = True
 
                 if lamda is None:
-                    lamdas = self.delta_inter_T_lin.keys()
+                    lamdas = self.inter_T_lin.keys()
                 else:
                     lamdas = [lamda]
 
@@ -1882,7 +1861,7 @@ class ContTempNetwork:
 
                 if round_zeros:
                     for M in delta_inter_T:
-                        set_to_zeroes(M, tol=tol)
+                        set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
                 self.delta_inter_T[lamda] = delta_inter_T
 
@@ -1900,7 +1879,8 @@ class ContTempNetwork:
             if not hasattr(self, "delta_inter_T_lin"):
                 self.delta_inter_T_lin = dict()
 
-            if lamda not in self.delta_inter_T_lin.keys():
+            if lamda not in self.delta_inter_T_lin.keys() or \
+                    self.inter_T_lin[lamda].keys() != self.delta_inter_T_lin[lamda].keys():
 
                 delta_inter_T_lin = dict()
 
@@ -1912,7 +1892,7 @@ class ContTempNetwork:
 
                     if round_zeros:
                         for M in delta_inter_T_lin[t_s]:
-                            set_to_zeroes(M, tol=tol)
+                            set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
                 self.delta_inter_T_lin[lamda] = delta_inter_T_lin
 
-- 
2.43.0


From 202618059105cac066f36d92f92b98bb13e76efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:11 +0000
Subject: [PATCH 19/43] fix: FlowStability clusterings of another window,
 direction or time scale

set_flow_clustering paired the matrices of the time window with the times
of the whole network and kept the results of earlier settings. With only
one time direction find_louvain_clustering was always refused.
---
 src/flowstab/flow_stability.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index bdf02ed..f04e934 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -636,6 +636,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         self : FlowStability
             The instance itself.
         """
+        _forward = {}
+        _backward = {}
         for _ts in self.time_scale:
             logger.info(
                 f"Creating a flow integral clustering for time_scale={_ts}."
@@ -645,10 +647,11 @@ class FlowStability(metaclass=StateMeta, states=States):
             else:
                 _lambda = 1 / _ts
 
+            _net = self.temporal_network
             kwargs.update(dict(
-                T_inter_list=[T.toarray()
-                              for T in self.temporal_network.inter_T[_lambda]],
-                time_list=self.temporal_network.times,
+                T_inter_list=[T.toarray() for T in _net.inter_T[_lambda]],
+                time_list=_net.times[_net._k_start_laplacians:
+                                     _net._k_stop_laplacians+1],
             ))
             if self.time_direction <= 0:
                 logger.info(
@@ -656,10 +659,7 @@ class FlowStability(metaclass=StateMeta, states=States):
                 )
                 try:
                     kwargs.update(dict(reverse_time=True))
-                    self.flow_clustering_backward = (
-                        _ts,
-                        FlowIntegralClustering(**kwargs)
-                    )
+                    _backward[_ts] = FlowIntegralClustering(**kwargs)
                 except ValueError as e:
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
@@ -670,15 +670,22 @@ class FlowStability(metaclass=StateMeta, states=States):
                 )
                 try:
                     kwargs.update(dict(reverse_time=False))
-                    self.flow_clustering_forward = (
-                        _ts,
-                        FlowIntegralClustering(**kwargs)
-                    )
+                    _forward[_ts] = FlowIntegralClustering(**kwargs)
                 except ValueError as e:
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
             logger.info("-> done.")
+        # only keep the results for the current settings, there is nothing to
+        # wait for in a direction that is not used.
+        self._flow_clustering_backward = {}
+        self._flow_clustering_forward = {}
+        self.state.properties_set["flow_clustering_backward"] = self.time_direction > 0
+        self.state.properties_set["flow_clustering_forward"] = self.time_direction < 0
+        for _result in _backward.items():
+            self.flow_clustering_backward = _result
+        for _result in _forward.items():
+            self.flow_clustering_forward = _result
         return self
 
     @register(minimal_state=States.CLUSTERING, next_state=States.FINAL)
-- 
2.43.0


From c33d3139445ee83b1960f1ad2f14e973a86771cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:11 +0000
Subject: [PATCH 20/43] fix: FlowStability ignores the linear approximation

The matrices computed with linear_approx were not the ones used in the
next step.
---
 src/flowstab/flow_stability.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index f04e934..471f9de 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -136,6 +136,7 @@ class FlowStability(metaclass=StateMeta, states=States):
         self.time_direction = time_direction
         self._flow_clustering_forward = {}
         self._flow_clustering_backward = {}
+        self._t_s = None
         logger.info("Successfully initiated a FlowStability instance!")
 
     def __repr__(self):
@@ -539,6 +540,8 @@ class FlowStability(metaclass=StateMeta, states=States):
             ))
             to_compute(**kwargs)
             logger.info("-> done.")
+        # which matrices are to be used in the next step
+        self._t_s = kwargs.get("t_s", 10) if linear_approx else None
         return self
 
     @property
@@ -648,8 +651,12 @@ class FlowStability(metaclass=StateMeta, states=States):
                 _lambda = 1 / _ts
 
             _net = self.temporal_network
+            if self._t_s is None:
+                _inter_T = _net.inter_T[_lambda]
+            else:
+                _inter_T = _net.inter_T_lin[_lambda][self._t_s]
             kwargs.update(dict(
-                T_inter_list=[T.toarray() for T in _net.inter_T[_lambda]],
+                T_inter_list=[T.toarray() for T in _inter_T],
                 time_list=_net.times[_net._k_start_laplacians:
                                      _net._k_stop_laplacians+1],
             ))
-- 
2.43.0


From 2fda38c8ed2c9d2d360205bbe1ccd609b5d2f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:11 +0000
Subject: [PATCH 21/43] fix: FlowStability state does not follow the temporal
 network

A network given to the constructor or set as attribute left the analysis
in its initial state, and an object that is not a network was taken as
one.
---
 src/flowstab/flow_stability.py | 1 +
 src/flowstab/state_tracking.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 471f9de..560542b 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -228,6 +228,7 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         if isinstance(temporal_network, ContTempNetwork):
             self._temporal_network = temporal_network
+            self.state.current = max(self.state.current, States.TEMP_NW)
             logger.info(
                 "Set the temporal network: "
                 f"{self.temporal_network}"
diff --git a/src/flowstab/state_tracking.py b/src/flowstab/state_tracking.py
index 87b7c51..1cc3087 100644
--- a/src/flowstab/state_tracking.py
+++ b/src/flowstab/state_tracking.py
@@ -343,7 +343,8 @@ class StateMeta(type):
                     def wrapped_setter(self, value):
                         # Run pre-run checks (if needed)
                         original_setter(self, value)
-                        if value is None and ignore_none:
+                        if ignore_none and (value is None or
+                                            func.fget(self) is None):
                             self._state.properties_set[func_name] = False
                         else:
                             self._state.properties_set[func_name] = True
-- 
2.43.0


From 865d91ea1db4a33a9d6e00433ca0ed859aaae4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:11 +0000
Subject: [PATCH 22/43] fix: FlowStability time scales given as argument or
 iterator fail

---
 src/flowstab/flow_stability.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 560542b..98ca3b5 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -46,9 +46,6 @@ ProcessException
 from __future__ import annotations
 from typing import Any, Iterable, Iterator
 
-from copy import copy
-
-
 import numpy as np
 
 from .logger import get_logger
@@ -315,8 +312,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         elif isinstance(time_scale,
                         Iterable) and not isinstance(time_scale,
                                                      str):
-            # we use a shallow copy
-            _time_scale = copy(time_scale)
+            # we use a shallow copy (iterators can only be used once)
+            _time_scale = list(time_scale)
         else:
             raise TypeError(f"Invalid type '{type(time_scale)}'.")
         # make sure only valid values are provided
@@ -523,9 +520,9 @@ class FlowStability(metaclass=StateMeta, states=States):
 
         _time_scale = None
         if 'time_scale' in kwargs:
-            _time_scale = kwargs['time_scale']
+            _time_scale = kwargs.pop('time_scale')
         elif 'lamda' in kwargs and kwargs['lamda'] is not None:
-            _time_scale = 1 / kwargs['lamba']
+            _time_scale = 1 / kwargs.pop('lamda')
         if _time_scale is not None:
             self.time_scale = _time_scale
         for _ts in self.time_scale:
-- 
2.43.0


From 0d0229f87ceacc705df347b2ec880a1264fdea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:16 +0000
Subject: [PATCH 23/43] fix: events tables that are not sorted by time give
 wrong Laplacians

Events that end when another event of the same pair starts were removed
from the network when the table does not list them in temporal order.
---
 src/flowstab/temporal_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ee37c74..8580538 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -184,7 +184,9 @@ class ContTempNetwork:
                     "path to a CSV file. "
                     f"'{type(events_table)} is not acceptable."
                 )                               
-            reset_event_table_index = False     
+            # events of a table may come in any order
+            self.events_table.sort_values(by=["starting_times", "ending_times"],
+                                          inplace=True)
             if relabel_nodes:                   
                 all_nodes = set()
                 all_nodes.update(self.events_table.source_nodes.tolist())
-- 
2.43.0


From c80978d5f4fb57f52c50700da0eecbb183d1b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:24 +0000
Subject: [PATCH 24/43] fix: transition matrices of another time direction are
 taken for the requested ones

---
 src/flowstab/temporal_network.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 8580538..21bc673 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -219,6 +219,7 @@ class ContTempNetwork:
 
         # to record compute times
         self._compute_times = {}
+        self._computed_with = {}
 
         self._overlapping_events_merged = False
         if merge_overlapping_events:
@@ -1581,6 +1582,11 @@ class ContTempNetwork:
         if not hasattr(self, "T"):
             self.T = dict()
 
+        # a product computed with other options is not the requested one
+        options = (save_intermediate, reverse_time, force_csr, tol)
+        if self._computed_with.get(("T", lamda), options) != options:
+            self.T.pop(lamda, None)
+
         if reverse_time:
             k_init = len(self.inter_T[lamda])-1
             k_range = reversed(range(k_init))
@@ -1649,6 +1655,7 @@ class ContTempNetwork:
 
             # only a complete product is made available
             self.T[lamda] = T
+            self._computed_with["T", lamda] = options
 
             t_end = time.time()-t0
 
@@ -1675,6 +1682,11 @@ class ContTempNetwork:
         if not hasattr(self, "T_lin"):
             self.T_lin = dict()
 
+        # a product computed with other options is not the requested one
+        options = (save_intermediate, reverse_time)
+        if self._computed_with.get(("T_lin", lamda, t_s), options) != options:
+            self.T_lin.get(lamda, dict()).pop(t_s, None)
+
         compute = True
 
         if lamda in self.T_lin.keys():
@@ -1725,6 +1737,7 @@ class ContTempNetwork:
 
             # only a complete product is made available
             self.T_lin.setdefault(lamda, dict())[t_s] = T_lin
+            self._computed_with["T_lin", lamda, t_s] = options
 
             t_end = time.time()-t0
 
-- 
2.43.0


From 617800bde2402ce029896b8affdf3a5a1dfc656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:26 +0000
Subject: [PATCH 25/43] fix: matrices computed with other options are taken for
 the requested ones

---
 src/flowstab/temporal_network.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 21bc673..40a6b1a 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1388,6 +1388,12 @@ class ContTempNetwork:
                         "interevent time")
             lamda = 1/np.median(np.diff(self.times))
 
+        # matrices computed with other options are not the requested ones
+        options = (fix_tau_k, use_sparse_stoch)
+        if self._computed_with.get(("inter_T", lamda), options) != options:
+            for name in ["inter_T", "delta_inter_T", "T"]:
+                getattr(self, name, dict()).pop(lamda, None)
+
         # new value of lamda, we need to recompute
         if lamda not in self.inter_T.keys():
 
@@ -1435,6 +1441,7 @@ class ContTempNetwork:
 
             # only a complete list is made available
             self.inter_T[lamda] = inter_T
+            self._computed_with["inter_T", lamda] = options
 
             t_end = time.time()-t0
 
@@ -1472,7 +1479,9 @@ class ContTempNetwork:
         I = eye(self.num_nodes,
                 dtype=np.float64, format="csr")
 
-        if not hasattr(self, "_stationary_trans"):
+        if not hasattr(self, "_stationary_trans") or \
+                self._computed_with.get("_stationary_trans",
+                                        use_sparse_stoch) != use_sparse_stoch:
             self._compute_stationary_transition(
                 t_start=t_start, t_stop=t_stop,
                 use_sparse_stoch=use_sparse_stoch
@@ -1487,6 +1496,13 @@ class ContTempNetwork:
             )
             lamda = 1/np.median(np.diff(self.times))
 
+        # matrices computed with other options are not the requested ones
+        options = (fix_tau_k, use_sparse_stoch)
+        if self._computed_with.get(("inter_T_lin", lamda, t_s),
+                                   options) != options:
+            for name in ["inter_T_lin", "delta_inter_T_lin", "T_lin"]:
+                getattr(self, name, dict()).get(lamda, dict()).pop(t_s, None)
+
         compute = True
 
         if lamda in self.inter_T_lin.keys():
@@ -1556,6 +1572,7 @@ class ContTempNetwork:
 
             # only a complete list is made available
             self.inter_T_lin.setdefault(lamda, dict())[t_s] = inter_T_lin
+            self._computed_with["inter_T_lin", lamda, t_s] = options
 
             t_end = time.time()-t0
             self._compute_times[f"tran_matrices_lin_{lamda}_{t_s}"] = t_end
@@ -1781,6 +1798,7 @@ class ContTempNetwork:
 
         # only a complete list is made available
         self._stationary_trans = stationary_trans
+        self._computed_with["_stationary_trans"] = use_sparse_stoch
 
         t_end = time.time()-t0
 
-- 
2.43.0


From 10be57052bf7a57db3d4f72dfbdc6b720dbc7fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:50 +0000
Subject: [PATCH 26/43] fix: Louvain started from given clusters returns
 another partition than it found

---
 src/flowstab/network_clustering.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 6f46858..036e32f 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -951,6 +951,9 @@ class BaseClustering:
                       f" finished meta loop: {n_meta_loop}, number of total sub loops: {n_sub_loops}")
 
             #update original node partition
+            if n_meta_loop == 1:
+                # the meta nodes are the nodes, not the initial clusters
+                self._update_to_singletons()
             self._update_original_partition(meta_clustering)
 
 
@@ -1036,6 +1039,11 @@ class BaseClustering:
         self.source_part = self._get_updated_partition(self.source_part,
                                                      meta_clustering.source_part)
 
+    def _update_to_singletons(self):
+
+        self.target_part = Partition(num_nodes=self.num_nodes)
+        self.source_part = Partition(num_nodes=self.num_nodes)
+
     def _update_to_fullpart(self):
 
         self.target_part = Partition(num_nodes=self.num_nodes,
@@ -1441,6 +1449,10 @@ class Clustering(BaseClustering):
         self.source_part = self._get_updated_partition(self.source_part,
                                                      meta_clustering.source_part)
 
+    def _update_to_singletons(self):
+
+        self.source_part = Partition(num_nodes=self.num_nodes)
+
     def _update_to_fullpart(self):
 
         self.source_part = Partition(num_nodes=self.num_nodes,
-- 
2.43.0


From a5f80557c0693db4468f42c45d81ad667b68188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:54 +0000
Subject: [PATCH 27/43] fix: Louvain fails on transition matrices with zero
 rows

---
 src/flowstab/network_clustering.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 036e32f..d3b0745 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -856,8 +856,10 @@ class BaseClustering:
                 S[s,t] = self._S[s_cluster_to_node_list[s],
                                t_cluster_to_node_list[t]].sum()
 
-        # renormalize T
-        T = T/T.sum(axis=1)[:, np.newaxis]
+        # renormalize T, rows may be zero
+        T_sums = T.sum(axis=1)
+        T_sums[T_sums == 0] = 1
+        T = T/T_sums[:, np.newaxis]
         #also normalize p1 and p2 for rounding errors
         p1 = p1/p1.sum()
         p2 = p2/p2.sum()
@@ -1404,8 +1406,10 @@ class Clustering(BaseClustering):
                                t_cluster_to_node_list[t]].sum()
                 S[s,t] = self._S[s_cluster_to_node_list[s],
                                t_cluster_to_node_list[t]].sum()
-        # renormalize T
-        T = T/T.sum(axis=1)[:, np.newaxis]
+        # renormalize T, rows may be zero
+        T_sums = T.sum(axis=1)
+        T_sums[T_sums == 0] = 1
+        T = T/T_sums[:, np.newaxis]
         #also normalize p1 and p2 for rounding errors
         p1 = p1/p1.sum()
         p2 = p2/p2.sum()
-- 
2.43.0


From 351caf8862a974c19293c25265e16479cccfa08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:42 +0000
Subject: [PATCH 28/43] fix: synthetic individuals not listed by ID get each
 other's group and times

---
 src/flowstab/synth_temp_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index 69807d5..e3b77f7 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -268,7 +268,8 @@ class SynthTempNetwork:
         # number of individuals
         self.N = len(individuals)
 
-        # list of individuals
+        # list of individuals, in the order of their IDs
+        individuals = sorted(individuals, key=lambda ind: ind.ID)
         self.individuals = individuals
 
         # list of individual IDs
-- 
2.43.0


From b690daca5a592657d047a6c3038bbc72f55ce5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:42 +0000
Subject: [PATCH 29/43] fix: synthetic groups without any possible partner make
 the simulation fail

---
 src/flowstab/synth_temp_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index e3b77f7..90cd63c 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -334,9 +334,10 @@ class SynthTempNetwork:
 
         if next_event_method == "block_probs":
             # make sure inter_group_probs is properly normalized
-            # i.e. sum_j p[i,j] = 1 for all i
+            # i.e. sum_j p[i,j] = 1 for all i (or 0 for no possible partners)
+            row_sums = self.inter_group_probs.sum(axis=1)
             self.inter_group_probs = \
-                (self.inter_group_probs.T/self.inter_group_probs.sum(axis=1)).T
+                (self.inter_group_probs.T/np.where(row_sums == 0, 1, row_sums)).T
 
         if next_event_method == "block_probs_mod":
             if block_prob_mod_func is None:
-- 
2.43.0


From 291962231658c98593998cda71382ba4a1aa30bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:42 +0000
Subject: [PATCH 30/43] fix: run_clusterings takes files of other networks into
 account

---
 src/flowstab/scripts/run_clusterings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 9eae7c4..a65d924 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -41,6 +41,7 @@ The results are saved in files named f'{savedir}/clusters_{netname}_tau_w{tau_w:
 """
 import os
 import pickle
+import re
 import sys
 import time
 import traceback
@@ -206,7 +207,8 @@ if only_largest_comp and separate_comps:
 
 #%%
 
-files = [f for f in os.listdir(datadir) if f.startswith(net_name + "_tau_w") and \
+file_pattern = re.compile(re.escape(net_name) + "_tau_w[^_]+_")
+files = [f for f in os.listdir(datadir) if file_pattern.match(f) and \
          ("temp_integration" not in f) and \
              ("pTpint" not in f)]
 
-- 
2.43.0


From 929e1113241d8b5b34e0900f4f8addad010055e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 31/43] fix: stabilities of clusterings of separate components
 do not belong to the merged partition

---
 src/flowstab/scripts/run_clusterings.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index a65d924..4d51a62 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -810,6 +810,14 @@ def worker(file_args):
                         # free global memory
                         del var_dict[file]
 
+                    if separate_comps:
+                        # the stability of the merged partition: the meta nodes
+                        # do not count and the singletons do
+                        idx_lists = [[np.array(sorted(c), dtype=np.int32) for c in clusters]
+                                     for clusters in sym_clusters]
+                        sym_stabilites = tuple(sum(S.get_submat_sum(idx, idx) for idx in idx_list)
+                                               for idx_list in idx_lists)
+
 
 
 
-- 
2.43.0


From 12e90eada9fc0c3e1c860e8974102f5d1ba312b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 32/43] fix: variation of information of static clusterings
 uses the size of the largest component

---
 src/flowstab/scripts/run_clusterings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 4d51a62..744e44e 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -918,7 +918,7 @@ def worker(file_args):
 
                     nvarinf_samples = [s for i,s in enumerate(combinations(sym_clusters_static,2)) if i in nvarinf_samples_idx]
 
-                    nvarinf_sym_static = np.mean([norm_var_information(c1,c2, N=T.shape[0],
+                    nvarinf_sym_static = np.mean([norm_var_information(c1,c2, N=A.shape[0],
                                                                 use_clust_list=True) for c1,c2 in nvarinf_samples])
 
                     clust_counter_sym_static = Counter([tuple(sorted([tuple(sorted(c)) for c in clust])) \
-- 
2.43.0


From dbc21d443586a820215cef52eae74157ddbe3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 33/43] fix: differences of transition matrices rounded for one
 file are saved in another

---
 src/flowstab/temporal_network.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 40a6b1a..5ccc3c3 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1880,6 +1880,12 @@ class ContTempNetwork:
         The length of self.delta_inter_T[lamda] is len(self.inter_T[lamda]) - 1
             
         """
+        # differences rounded in another way are not the requested ones
+        options = (round_zeros, tol)
+        for name in ["delta_inter_T", "delta_inter_T_lin"]:
+            if self._computed_with.get((name, lamda)) != options:
+                getattr(self, name, dict()).pop(lamda, None)
+
         if hasattr(self, "inter_T") and lamda in self.inter_T.keys():
 
 
@@ -1897,6 +1903,7 @@ class ContTempNetwork:
                         set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
                 self.delta_inter_T[lamda] = delta_inter_T
+                self._computed_with["delta_inter_T", lamda] = options
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -1928,6 +1935,7 @@ class ContTempNetwork:
                             set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
                 self.delta_inter_T_lin[lamda] = delta_inter_T_lin
+                self._computed_with["delta_inter_T_lin", lamda] = options
 
             else:
                 print("PID ", os.getpid(), " : ",
-- 
2.43.0


From 812f2001cf42f77b8da7778d47660e44dbc70e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 34/43] fix: merging overlapping events shortens or drops
 contacts

---
 src/flowstab/temporal_network.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 5ccc3c3..97746a9 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1822,6 +1822,10 @@ class ContTempNetwork:
 
             for n2 in (A[n1,:] > 0).nonzero()[1]:
 
+                # each pair once: the merged event must not be taken for one
+                # to merge
+                if n2 < n1:
+                    continue
 
                 mask_12 = np.logical_and(self.events_table.source_nodes.values == n1,
                                          self.events_table.target_nodes.values == n2)
@@ -1845,8 +1849,8 @@ class ContTempNetwork:
                     if ev2.starting_times < ev1.ending_times:
                         #merge
                         events_to_keep[ev2.Index] = False
-                        self.events_table.loc[ev1.Index,"ending_times"] = ev2.ending_times
-                        ev1._replace(ending_times=ev2.ending_times)
+                        ev1 = ev1._replace(ending_times=max(ev1.ending_times, ev2.ending_times))
+                        self.events_table.loc[ev1.Index,"ending_times"] = ev1.ending_times
                         merged += 1
                     else:
                         ev1 = ev2
@@ -1855,6 +1859,9 @@ class ContTempNetwork:
         num_merged = (events_to_keep == False).sum()
         logger.info(f"Merged {num_merged} events.")
 
+        self.events_table["durations"] = self.events_table.ending_times - \
+                            self.events_table.starting_times
+
         self.events_table = self.events_table.loc[events_to_keep]
 
         self.events_table.reset_index(inplace=True, drop=True)
-- 
2.43.0


From 8808746ef4f86875d317d69edbf1073f3d0f4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 35/43] fix: options of the matrices are lost when a network is
 saved

---
 src/flowstab/temporal_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 97746a9..1232acf 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -298,6 +298,7 @@ class ContTempNetwork:
                       "time_grid",
                       "num_nodes",
                       "_compute_times",
+                      "_computed_with",
                       "_t_start_laplacians",
                       "_k_start_laplacians",
                       "_t_stop_laplacians",
@@ -382,6 +383,7 @@ class ContTempNetwork:
                       "time_grid",
                       "num_nodes",
                       "_compute_times",
+                      "_computed_with",
                       "_t_start_laplacians",
                       "_k_start_laplacians",
                       "_t_stop_laplacians",
-- 
2.43.0


From eba31a212017db0b5c5d920abc112f9606e227a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:57 +0000
Subject: [PATCH 36/43] fix: guided analysis fails for the default time scale
 in a list of time scales

---
 src/flowstab/flow_stability.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 98ca3b5..cc6de47 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -643,12 +643,13 @@ class FlowStability(metaclass=StateMeta, states=States):
             logger.info(
                 f"Creating a flow integral clustering for time_scale={_ts}."
             )
+            _net = self.temporal_network
             if _ts is None:
-                _lambda = None
+                # the default of the inter transition matrices
+                _lambda = 1 / np.median(np.diff(_net.times))
             else:
                 _lambda = 1 / _ts
 
-            _net = self.temporal_network
             if self._t_s is None:
                 _inter_T = _net.inter_T[_lambda]
             else:
-- 
2.43.0


From 6fe4a7b6a1f0b89abc66ea97697c5cbb19ca663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:28 +0000
Subject: [PATCH 37/43] fix: failed step of a guided analysis takes away the
 matrices in use

Repeating the inter-transition step with other options removes the
matrices made with the previous ones first. When the computation then
failed, the analysis kept its state but the next step found no matrices.
---
 src/flowstab/flow_stability.py | 40 +++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index cc6de47..692a34e 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -44,6 +44,7 @@ ProcessException
     Exception raised for errors in the flow stability process.
 """
 from __future__ import annotations
+from copy import copy
 from typing import Any, Iterable, Iterator
 
 import numpy as np
@@ -525,19 +526,32 @@ class FlowStability(metaclass=StateMeta, states=States):
             _time_scale = 1 / kwargs.pop('lamda')
         if _time_scale is not None:
             self.time_scale = _time_scale
-        for _ts in self.time_scale:
-            logger.info(
-                f"Computing inter T matrices for time_scale={_ts}."
-            )
-            if _ts is None:
-                _lambda = None
-            else:
-                _lambda = 1 / _ts
-            kwargs.update(dict(
-                lamda=_lambda
-            ))
-            to_compute(**kwargs)
-            logger.info("-> done.")
+        # a failed computation leaves the matrices as they were
+        _net = self._temporal_network
+        _before = {
+            _name: {_key: copy(_val) for _key, _val in getattr(_net, _name).items()}
+            for _name in ["inter_T", "inter_T_lin", "delta_inter_T",
+                          "delta_inter_T_lin", "T", "T_lin", "_computed_with"]
+            if hasattr(_net, _name)
+        }
+        try:
+            for _ts in self.time_scale:
+                logger.info(
+                    f"Computing inter T matrices for time_scale={_ts}."
+                )
+                if _ts is None:
+                    _lambda = None
+                else:
+                    _lambda = 1 / _ts
+                kwargs.update(dict(
+                    lamda=_lambda
+                ))
+                to_compute(**kwargs)
+                logger.info("-> done.")
+        except BaseException:
+            for _name, _val in _before.items():
+                setattr(_net, _name, _val)
+            raise
         # which matrices are to be used in the next step
         self._t_s = kwargs.get("t_s", 10) if linear_approx else None
         return self
-- 
2.43.0


From 528f5777832a6058bb3f50259b1230cd48c8cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:28 +0000
Subject: [PATCH 38/43] fix: rounding of products and saved files changes the
 inter-event matrices

compute_transition_matrices(tol=...) and saving SparseStochMat matrices
with round_zeros rounded the matrices of the network in place: products
or files made later, with a smaller tolerance or none, were wrong.
---
 src/flowstab/temporal_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 1232acf..f8420d6 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -545,6 +545,7 @@ class ContTempNetwork:
                     save_dict["inter_T"][lamda] = []
                     for interT in self.inter_T[lamda]:
                         if round_zeros:
+                            interT = interT.copy()
                             interT.set_to_zeroes(tol)
                         save_dict["inter_T"][lamda].append(interT.to_dict())
 
@@ -658,6 +659,7 @@ class ContTempNetwork:
                         save_dict["inter_T_lin"][lamda][t_s] = []
                         for interT in self.inter_T_lin[lamda][t_s]:
                             if round_zeros:
+                                interT = interT.copy()
                                 interT.set_to_zeroes(tol=tol)
                             save_dict["inter_T_lin"][lamda][t_s].append(interT.to_dict())
 
@@ -1626,6 +1628,8 @@ class ContTempNetwork:
                     T = [self.inter_T[lamda][k_init]]
 
                 if tol is not None:
+                    # inter_T itself is not rounded
+                    T[0] = T[0].copy()
                     set_to_zeroes(T[0],tol)
                     inplace_csr_row_normalize(T[0])
             else:
@@ -1635,6 +1639,7 @@ class ContTempNetwork:
                     T = self.inter_T[lamda][k_init]
 
                 if tol is not None:
+                    T = T.copy()
                     set_to_zeroes(T,tol)
                     inplace_csr_row_normalize(T)
 
@@ -1652,6 +1657,7 @@ class ContTempNetwork:
 
                 Tk = self.inter_T[lamda][k]
                 if tol is not None:
+                    Tk = Tk.copy()
                     set_to_zeroes(Tk,tol)
                     inplace_csr_row_normalize(Tk)
 
-- 
2.43.0


From 68a96a7f198bbba3e4dfe83cfc1f472d84b21f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:36 +0000
Subject: [PATCH 39/43] fix: merged or table networks give wrong Laplacians
 after loading

Merging leaves the events out of order and loading numbers them again,
so that the saved time grid refers to other events. Merging also mixed
up positions and labels of an index that was to be kept.
---
 src/flowstab/temporal_network.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f8420d6..f48acd2 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -403,6 +403,7 @@ class ContTempNetwork:
 
         net = cls(events_table=events_table,
                            relabel_nodes=False,
+                           reset_event_table_index=False,
                            node_to_label_dict=graph_dict.pop("node_to_label_dict"))
 
         for k,val in graph_dict.items():
@@ -1821,6 +1822,9 @@ class ContTempNetwork:
         """Merge temporally overlapping undirected event between each pair of nodes.
             
         """
+        # events are kept or dropped by position
+        self.events_table.reset_index(inplace=True, drop=True)
+
         events_to_keep = np.ones(self.events_table.shape[0],dtype=bool)
 
         A = self.compute_static_adjacency_matrix()
@@ -1870,7 +1874,8 @@ class ContTempNetwork:
         self.events_table["durations"] = self.events_table.ending_times - \
                             self.events_table.starting_times
 
-        self.events_table = self.events_table.loc[events_to_keep]
+        self.events_table = self.events_table.loc[events_to_keep].\
+                                sort_values(by=["starting_times", "ending_times"])
 
         self.events_table.reset_index(inplace=True, drop=True)
 
-- 
2.43.0


From 12d94956b728d9c17532f56047820bd0aaad16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:40 +0000
Subject: [PATCH 40/43] fix: partitions made from one cluster list share their
 clusters

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index d3b0745..9cf0c78 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -102,7 +102,7 @@ class Partition:
             self.node_to_cluster_dict = {n : n for n in range(self.num_nodes)}
 
         elif cluster_list is not None and node_to_cluster_dict is None:
-            self.cluster_list = cluster_list
+            self.cluster_list = [set(clust) for clust in cluster_list]
             self.node_to_cluster_dict = {}
             for i, clust in enumerate(self.cluster_list):
                 for node in clust:
-- 
2.43.0


From 9f7efc9a2e38ad85b59238de3fe170c71b865a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:12 +0000
Subject: [PATCH 41/43] fix: sparse covariances with empty rows give wrong
 gains in Louvain

---
 src/flowstab/_cython_sparse_stoch.pyx | 28 ++++++++++-----------------
 src/flowstab/_cython_subst.py         | 24 ++++++++---------------
 2 files changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 91b32d2..35847e7 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -753,7 +753,7 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -770,14 +770,10 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
             s += PTcscdata[j]
                     
     # add PT_kk
-    j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
-        l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+    # check if PT[k,k] is nonzero, row k may be empty
+    for j in range(PTindptr[k],PTindptr[k+1]):
+        if PTindices[j] == k:
+            s += PTdata[j]
         
     return s
 
@@ -843,7 +839,7 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -860,14 +856,10 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
             s -= PTcscdata[j]
                     
     # add PT_kk
-    j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
-        l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+    # check if PT[k,k] is nonzero, row k may be empty
+    for j in range(PTindptr[k],PTindptr[k+1]):
+        if PTindices[j] == k:
+            s += PTdata[j]
         
     return s
     
diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 12da289..6a70c5f 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -418,14 +418,10 @@ def compute_delta_PT_moveto(
             s += PTcscdata[j]
                     
     # add PT_kk
-    j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
-        l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+    # check if PT[k,k] is nonzero, row k may be empty
+    for j in range(PTindptr[k],PTindptr[k+1]):
+        if PTindices[j] == k:
+            s += PTdata[j]
         
     return s
 
@@ -499,14 +495,10 @@ def compute_delta_PT_moveout(
             s -= PTcscdata[j]
                     
     # add PT_kk
-    j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
-        l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+    # check if PT[k,k] is nonzero, row k may be empty
+    for j in range(PTindptr[k],PTindptr[k+1]):
+        if PTindices[j] == k:
+            s += PTdata[j]
         
     return s
 
-- 
2.43.0


From a2d2a5f6a0329babb920580650037b7329a28ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:48 +0000
Subject: [PATCH 42/43] fix: dense integrals of a time grid are clustered with
 a wrong or missing transition matrix

---
 src/flowstab/network_clustering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 9cf0c78..d95a099 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2139,8 +2139,10 @@ class FlowIntegralClustering:
         else:
 
             if self.is_nparray:
+                # one integral for each different time after the first one
+                k_integrals = sorted(set(self._k_integral_grid) - {0})
                 clustering = Clustering(p1=self.p1, p2=None,
-                                  T=self.T_list[self._k_integral_grid[k+1]-1],
+                                  T=self.T_list[k_integrals[k]-1],
                                   S=self.I_list[k],
                                   cluster_list=cluster_list,
                                   node_to_cluster_dict=node_to_cluster_dict,
-- 
2.43.0


From f8a5b8ac3e19d2f71aad7caf735a245e9a4980ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:48 +0000
Subject: [PATCH 43/43] fix: sparse integrals lose values when nobody starts in
 a node

---
 src/flowstab/network_clustering.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index d95a099..01d1e88 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2035,10 +2035,12 @@ class FlowIntegralClustering:
                 # in order to avoid nan in PTk due to 0 * np.inf
                 pk[np.where(pk == 0)] = 1
 
-                # we compute Tk @ Pk^-1 @ Tk.T as (Tk @ Pk^-1/2) @ (Tk @ Pk^-1/2)^T
+                # we compute P1 @ Tk @ Pk^-1 @ Tk.T @ P1 as
+                # (P1 @ Tk @ Pk^-1/2) @ (P1 @ Tk @ Pk^-1/2)^T
 
                 PTk = Tk.copy().tocsr()
 
+                inplace_diag_matmul_csr(PTk, self.p1)
                 inplace_csr_matmul_diag(PTk,np.sqrt(1/pk))
 
                 PTk = sparse_gram_matrix(PTk, transpose=True,
@@ -2062,10 +2064,7 @@ class FlowIntegralClustering:
                 if self.is_nparray:
                     IPT_list.append(P(self.p1) @ IPT @ P(self.p1) * (1/total_time))
                 else:
-                    # multiply on left and right by P1
                     IPT_copy = IPT.copy()
-                    inplace_diag_matmul_csr(IPT_copy, self.p1)
-                    inplace_csr_matmul_diag(IPT_copy, self.p1)
                     IPT_copy.eliminate_zeros()
                     IPT_copy.data *= (1/total_time)
                     if USE_SPARSE_DOT_MKL:
-- 
2.43.0

