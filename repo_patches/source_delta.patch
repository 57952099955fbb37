From 51bf4cef34a7d0d533a051b7af161c54dbf817bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:27 +0000
Subject: [PATCH 01/17] fix: cSIL incremental distance of a new cluster to the
 other centroids

The expansion |x|^2 + |v|^2 - 2 x.v lacked the factor 2, so the incremental
value differed from the batch value whenever a cluster had a single sample.
---
 src/cvi/modules/cSIL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 93c0911..0935251 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -85,7 +85,7 @@ class cSIL(_base.CVI):
                     C = (
                         CP_new
                         + np.inner(self._v[cl, :], self._v[cl, :])
-                        - np.inner(G_new, self._v[cl, :])
+                        - 2 * np.inner(G_new, self._v[cl, :])
                     )
                     S_col_new[cl] = C
                     C = (
-- 
2.43.0


From 0b03334c04b18f7e96cad886ad755397b7c728be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:27 +0000
Subject: [PATCH 02/17] fix: batch mode selects samples by the labels given,
 not by 0..k-1

Any label vector whose unique values were not exactly 0..k-1 (1-based labels,
gaps, a -1 noise label) silently produced NaN, while incremental mode maps
arbitrary labels.
---
 src/cvi/modules/CH.py   | 2 +-
 src/cvi/modules/DB.py   | 2 +-
 src/cvi/modules/GD43.py | 2 +-
 src/cvi/modules/GD53.py | 2 +-
 src/cvi/modules/PS.py   | 2 +-
 src/cvi/modules/WB.py   | 2 +-
 src/cvi/modules/XB.py   | 2 +-
 src/cvi/modules/cSIL.py | 4 ++--
 src/cvi/modules/rCIP.py | 2 +-
 9 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 8a26113..47ee935 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -148,7 +148,7 @@ class CH(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/DB.py b/src/cvi/modules/DB.py
index 56275cd..a350aba 100644
--- a/src/cvi/modules/DB.py
+++ b/src/cvi/modules/DB.py
@@ -175,7 +175,7 @@ class DB(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD43.py b/src/cvi/modules/GD43.py
index 388780a..0ef6fba 100644
--- a/src/cvi/modules/GD43.py
+++ b/src/cvi/modules/GD43.py
@@ -169,7 +169,7 @@ class GD43(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD53.py b/src/cvi/modules/GD53.py
index 4134a40..640cece 100644
--- a/src/cvi/modules/GD53.py
+++ b/src/cvi/modules/GD53.py
@@ -170,7 +170,7 @@ class GD53(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/PS.py b/src/cvi/modules/PS.py
index 83b9101..4bd53b3 100644
--- a/src/cvi/modules/PS.py
+++ b/src/cvi/modules/PS.py
@@ -139,7 +139,7 @@ class PS(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index d1694eb..32998cc 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -150,7 +150,7 @@ class WB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/XB.py b/src/cvi/modules/XB.py
index 53dea02..d5b1e1c 100644
--- a/src/cvi/modules/XB.py
+++ b/src/cvi/modules/XB.py
@@ -166,7 +166,7 @@ class XB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 0935251..4339531 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -195,7 +195,7 @@ class cSIL(_base.CVI):
         D = np.zeros((self._n_samples, self._n_samples))
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
@@ -211,7 +211,7 @@ class cSIL(_base.CVI):
 
         for ix in range(self._n_clusters):
             for jx in range(self._n_clusters):
-                subset_ind = [x for x in range(len(labels)) if labels[x] == jx]
+                subset_ind = [x for x in range(len(labels)) if labels[x] == u[jx]]
                 self._S[jx, ix] = sum(D[ix, subset_ind]) / self._n[jx]
 
     @_base._add_docs(_base._evaluate_doc)
diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index e9bf5a4..5b3b419 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -175,7 +175,7 @@ class rCIP(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
-- 
2.43.0


From 9deb4ffd16b40cd2d022b3b53a4352214edf85db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:27 +0000
Subject: [PATCH 03/17] fix: reject incremental samples after a batch update

Switching from batch to incremental is documented as unsupported, but a 1-D
sample after a batch was applied to whichever cluster came first (or failed
with an IndexError), silently giving a wrong criterion value.
---
 src/cvi/modules/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index e931411..b611fa8 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -68,6 +68,7 @@ class CVI():
         self._n_clusters = 0
         self.criterion_value = 0.0
         self._is_setup = False
+        self._is_batch = False
 
     def _setup(self, sample: np.ndarray):
         """
@@ -102,6 +103,7 @@ class CVI():
         # Infer the data dimension and number of samples
         self._n_samples, self._dim = data.shape
         self._is_setup = True
+        self._is_batch = True
 
     @abstractmethod
     def _param_inc(self, sample: np.ndarray, label: int):
@@ -136,6 +138,13 @@ class CVI():
 
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
+
+            # Error until batch to incremental is supported
+            if self._is_batch:
+                raise ValueError(
+                    "Switching from batch to incremental not supported"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
-- 
2.43.0


From 3faa0bee28cdb208258e84bed7ebade465271de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:27 +0000
Subject: [PATCH 04/17] fix: compute on a private floating-point copy of the
 data

CH and WB kept a reference to the first sample, so a caller reusing one sample
buffer corrupted their running mean; cSIL and rCIP overflowed on small integer
dtypes.
---
 src/cvi/modules/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index b611fa8..e4a95ee 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -136,6 +136,9 @@ class CVI():
             The CVI's criterion value.
         """
 
+        # Work on a private floating-point copy of the caller's data
+        data = data.astype(float)
+
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
 
-- 
2.43.0


From 168172b6b790a6cb0631ed639f13c1c8c0600e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:27 +0000
Subject: [PATCH 05/17] fix: reject samples of another dimension before
 touching any state

Such a sample was either broadcast or failed half-way, after its label had been
registered, so every later sample of a new label was mishandled.
---
 src/cvi/modules/_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index e4a95ee..36abf02 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -148,6 +148,12 @@ class CVI():
                     "Switching from batch to incremental not supported"
                 )
 
+            # Error on a sample that does not fit the previous samples
+            if self._is_setup and len(data) != self._dim:
+                raise ValueError(
+                    f"Expected {self._dim} features, received {len(data)}"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
-- 
2.43.0


From 959ff39ee40da196fd881a238b5c73c318cf2258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:47 +0000
Subject: [PATCH 06/17] fix: cSIL incremental distance of a grown cluster to
 the other centroids

The new sample's cross term was subtracted twice: once inside |x - v|^2 and once
through the already updated sum G_new.
---
 src/cvi/modules/cSIL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 4339531..7bb9512 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -140,7 +140,7 @@ class cSIL(_base.CVI):
                     self._CP[i_label]
                     + np.inner(diff_x_v, diff_x_v)
                     + self._n[i_label] * np.inner(self._v[cl, :], self._v[cl, :])
-                    - 2 * np.inner(G_new, self._v[cl, :])
+                    - 2 * np.inner(self._G[i_label, :], self._v[cl, :])
                 )
                 S_col_new[cl] = C / n_new
                 # Row "bmu_temp" - E
-- 
2.43.0


From 93e347d1925f6617cedc03cd1337dd1616d2b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 07/17] fix: compat compactness update must not take the root
 of a negative

g is zero up to rounding, so its product with delta_v is negative noise half of
the time and turned the compactness of the cluster into NaN for good.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index b8f5d1a..4dd3295 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -213,7 +213,7 @@ def CP_update(
         cp_old
         + np.linalg.norm(z, q) ** p
         + n_old * np.linalg.norm(delta_v, q) ** p
-        + np.sqrt(2 * np.dot(delta_v, g_old)) ** p
+        + np.sqrt(2 * max(np.dot(delta_v, g_old), 0)) ** p
     )
 
     return cp_new, g_new, v_new, n_new
-- 
2.43.0


From 83114eb5b9ba5f00702e335658b74fbab647c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 08/17] fix: compat iXB kept a stale minimum center separation

The minimum could only decrease, although centers also move apart.
---
 src/cvi/compat/v0.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 4dd3295..26f9e2e 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -318,7 +318,15 @@ class iXB:
                     norm22(self.cluster_centers[c_i]-self.cluster_centers[j])
                 )
 
-        self.min_v = min([self.min_v, self.min_v_i[c_i]])
+        # A moved center may have increased the minimum, so search every pair
+        self.min_v = min(
+            [
+                norm22(self.cluster_centers[i] - self.cluster_centers[j])
+                for i in range(len(self.cluster_centers))
+                for j in range(i)
+            ],
+            default=np.inf
+        )
 
         self.output = (self.WGSS / self.N) / self.min_v
         return self.output
-- 
2.43.0


From d49bcab6cb7ef8769c1f3bb2b6e43151ffa23e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 09/17] fix: compat iCH crashed on the second cluster and kept
 stale separations

New clusters were detected with a list that is never filled, and only the
updated cluster's separation followed the moving data center.
---
 src/cvi/compat/v0.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 26f9e2e..f469b62 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -456,7 +456,7 @@ class iCH:
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
         )
-        if c_i == len(self.clusters):
+        if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
@@ -479,12 +479,12 @@ class iCH:
             )
             self.WGSS += self.WGSS_i[c_i]
 
-        self.BGSS -= self.BGSS_i[c_i]
-        self.BGSS_i[c_i] = (
-            self.cluster_sizes[c_i]
-            * norm22(self.cluster_centers[c_i] - self.data_center)
-        )
-        self.BGSS += self.BGSS_i[c_i]
+        # The data center moved, so the separation of every cluster changes
+        self.BGSS_i = [
+            size * norm22(center - self.data_center)
+            for size, center in zip(self.cluster_sizes, self.cluster_centers)
+        ]
+        self.BGSS = sum(self.BGSS_i)
 
         if (len(self.cluster_centers) > 1) and (self.N - len(self.cluster_centers) > 0):
             self.output = (
-- 
2.43.0


From 886290d8603dc14d1611b700b847c3384f3abb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 10/17] fix: compat iPS crashed on the second cluster

It summed a generator with np.sum, collapsed the mean center to a scalar,
refreshed only the updated cluster's term and never set the output once there
were two clusters.
---
 src/cvi/compat/v0.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index f469b62..ff4ccbd 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -384,30 +384,28 @@ class iPS:
         self.max_cluster_size = (
             np.maximum(self.max_cluster_size, self.cluster_sizes[c_i])
         )
-        b_ = ([
-            norm22(self.cluster_centers[c_i] - self.cluster_centers[c_j])
-            for c_j in range(len(self.cluster_centers))
-            if c_j != c_i
-        ])
-        if b_:
-            b = np.min(b_)
-            self.mean_cluster_center = (
-                np.sum(self.cluster_centers) / len(self.cluster_centers)
-            )
-            Bt = (
-                np.sum(
-                    norm22(cc - self.mean_cluster_center)
-                    for cc in self.cluster_centers
-                ) / len(self.cluster_centers)
-            )
-            self.PS_i[c_i] = (
-                self.cluster_sizes[c_i] / self.max_cluster_size
-                - np.exp(-b / Bt)
-            )
+        # Every center and size enters each cluster's term, so update them all
+        n_clusters = len(self.cluster_centers)
+        if n_clusters > 1:
+            self.mean_cluster_center = np.mean(self.cluster_centers, axis=0)
+            Bt = sum(
+                norm22(cc - self.mean_cluster_center)
+                for cc in self.cluster_centers
+            ) / n_clusters
+            for i in range(n_clusters):
+                b = min(
+                    norm22(self.cluster_centers[i] - self.cluster_centers[j])
+                    for j in range(n_clusters)
+                    if j != i
+                )
+                self.PS_i[i] = (
+                    self.cluster_sizes[i] / self.max_cluster_size
+                    - np.exp(-b / Bt)
+                )
         else:
             self.PS_i[c_i] = 0
 
-            self.output = np.sum(self.PS_i)
+        self.output = np.sum(self.PS_i)
         return self.output
 
 
-- 
2.43.0


From 2d2239e0fcf8d31889a28f0d0a76c08bb0dd43ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:10 +0000
Subject: [PATCH 11/17] fix: cSIL incremental mode lost precision on samples
 far from zero

---
 src/cvi/modules/cSIL.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 7bb9512..214b36e 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -38,6 +38,7 @@ class cSIL(_base.CVI):
         # cSIL-specific initialization
         self._S = np.empty([0, 0])   # n_clusters x dim
         self._sil_coefs = []         # dim
+        self._origin = np.zeros(0)   # dim
 
     @_base._add_docs(_base._setup_doc)
     def _setup(self, sample: np.ndarray):
@@ -48,6 +49,9 @@ class cSIL(_base.CVI):
         # Run the generic setup routine
         super()._setup(sample)
 
+        # cSIL-specific setup
+        self._origin = sample
+
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
         """
@@ -64,6 +68,10 @@ class cSIL(_base.CVI):
         if self._n_samples == 0:
             self._setup(sample)
 
+        # Sum squares relative to the first sample to avoid cancellation when
+        # the samples lie far from zero
+        sample = sample - self._origin
+
         # IF NEW CLUSTER LABEL
         # Correct for python 0-indexing
         if i_label > self._n_clusters - 1:
-- 
2.43.0


From 4ceec78e1d73a4f072191265d1b4d8eae754e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:14 +0000
Subject: [PATCH 12/17] fix: rCIP batch covariance lost precision on samples
 far from zero

---
 src/cvi/modules/rCIP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index 5b3b419..c31eb0f 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -181,10 +181,10 @@ class rCIP(_base.CVI):
             self._n[ix] = subset.shape[0]
             self._v[ix, :] = np.mean(subset, axis=0)
             if self._n[ix] > 1:
+                diff_x_v = subset - self._v[ix, :]
                 self._sigma[:, :, ix] = (
                     (1 / (self._n[ix] - 1)) * (
-                        np.transpose(subset) @ subset
-                        - self._n[ix] * np.outer(self._v[ix, :], self._v[ix, :])
+                        np.transpose(diff_x_v) @ diff_x_v
                     ) + self._delta_term
                 )
             else:
-- 
2.43.0


From 16661d2eaf55e82d33f039a0dc4d9a9005e40112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:44 +0000
Subject: [PATCH 13/17] fix: legacy XB, CH and PS refuse a skipped cluster
 number before changing state

---
 src/cvi/compat/v0.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index ff4ccbd..65a7770 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -285,14 +285,15 @@ class iXB:
             TODO
         """
 
+        if c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
+
         self.N += 1
         if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.min_v_i.append(np.inf)
-        elif c_i > len(self.cluster_sizes):
-            raise ValueError('Invalid Cluster Ordering')
         else:
             self.WGSS -= self.WGSS_i[c_i]
             (
@@ -368,7 +369,10 @@ class iPS:
             TODO
         """
 
-        if c_i >= len(self.cluster_centers):
+        if c_i > len(self.cluster_centers):
+            raise ValueError('Invalid Cluster Ordering')
+
+        if c_i == len(self.cluster_centers):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.PS_i.append(0)
@@ -450,6 +454,9 @@ class iCH:
             TODO
         """
 
+        if c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
+
         self.N += 1
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
@@ -459,8 +466,6 @@ class iCH:
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.BGSS_i.append(0)
-        elif c_i > len(self.cluster_sizes):
-            raise ValueError('Invalid Cluster Ordering')
         else:
             self.WGSS -= self.WGSS_i[c_i]
             (
-- 
2.43.0


From f644ad3cfbd90eae565a76f924426e0dc5bc9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:44 +0000
Subject: [PATCH 14/17] fix: legacy indices and clusters keep a private copy of
 each sample

---
 src/cvi/compat/v0.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 65a7770..2c80905 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -52,6 +52,8 @@ class Cluster:
         if not self.points:
             self.dim = len(x)
         assert self.dim == len(x)
+        # Keep a private floating-point copy of the caller's point
+        x = np.array(x, dtype=float)
         if self.radial:
             new_center = (self.center * self.len + x) / (self.len + 1)
             self.center = new_center
@@ -288,6 +290,9 @@ class iXB:
         if c_i > len(self.cluster_sizes):
             raise ValueError('Invalid Cluster Ordering')
 
+        # Keep a private floating-point copy of the caller's sample
+        x = np.array(x, dtype=float)
+
         self.N += 1
         if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
@@ -372,6 +377,9 @@ class iPS:
         if c_i > len(self.cluster_centers):
             raise ValueError('Invalid Cluster Ordering')
 
+        # Keep a private floating-point copy of the caller's sample
+        x = np.array(x, dtype=float)
+
         if c_i == len(self.cluster_centers):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
@@ -457,6 +465,9 @@ class iCH:
         if c_i > len(self.cluster_sizes):
             raise ValueError('Invalid Cluster Ordering')
 
+        # Keep a private floating-point copy of the caller's sample
+        x = np.array(x, dtype=float)
+
         self.N += 1
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
-- 
2.43.0


From fa776e9793057e260d8b277796c7672d0ed64cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:17 +0000
Subject: [PATCH 15/17] fix: legacy cluster box mode failed on the second point
 and kept refused points in the center

---
 src/cvi/compat/v0.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 2c80905..2e5ad6b 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -54,14 +54,15 @@ class Cluster:
         assert self.dim == len(x)
         # Keep a private floating-point copy of the caller's point
         x = np.array(x, dtype=float)
+        if self.box:
+            assert np.max(x) <= 1
+            assert np.min(x) >= 0
         if self.radial:
             new_center = (self.center * self.len + x) / (self.len + 1)
             self.center = new_center
         if self.box:
-            assert np.max(x) <= 1
-            assert np.min(x) >= 0
             cc_x = np.append(x, 1-x)
-            if self.bounding_box:
+            if len(self.bounding_box):
                 self.bounding_box = np.minimum(self.bounding_box, cc_x)
             else:
                 self.bounding_box = cc_x
-- 
2.43.0


From a3ffdbb26b49e1008ec48766b027da8a54127c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:17 +0000
Subject: [PATCH 16/17] fix: legacy within_bounding_box compared a plain point
 with the complement-coded box

---
 src/cvi/compat/v0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 2e5ad6b..4d7af16 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -132,8 +132,10 @@ class Cluster:
             TODO
         """
 
+        # The bounding box is complement coded, see add_point
+        cc_x = np.append(x, 1-x)
         return_val = np.array_equal(
-            np.minimum(x, self.bounding_box),
+            np.minimum(cc_x, self.bounding_box),
             self.bounding_box
         )
         return return_val
-- 
2.43.0


From d9aabfbf5428e5dcaaa20ac2486c24d6fb39a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:17 +0000
Subject: [PATCH 17/17] fix: legacy Clusters.from_list builds cluster objects
 from the points

---
 src/cvi/compat/v0.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 4d7af16..cf75066 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -146,10 +146,10 @@ class Clusters(list):
     Base clusters class.
     """
     def from_list(self, X, C):
-        for x, c in zip(X, C):
-            if c >= self.__len__():
-                self.append(Cluster)
-            self[c].add_point(c, c)
+        for i, (x, c) in enumerate(zip(X, C)):
+            while c >= self.__len__():
+                self.append(Cluster())
+            self[c].add_point(x, i)
 
 
 def norm22(x: np.ndarray):
-- 
2.43.0

