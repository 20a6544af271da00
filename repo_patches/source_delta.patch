From 569191225a53708fb6d9b1995e432f61eab3154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 01/26] fix: EEMD in parallel mode drew identical noise for the
 trials

The pool pickles `self`, including its random state, for each chunk of trials,
so every worker chunk started from the same state and produced the same noise.
The noise is now drawn in the parent process, which also makes the parallel
result equal to the sequential one for a given seed.
---
 PyEMD/EEMD.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index e4ebe2b..42ba861 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -196,7 +196,9 @@ class EEMD:
             map_pool = pool.map
         else:
             map_pool = map
-        all_IMFs = map_pool(self._trial_update, range(self.trials))
+        # Noise is drawn here, and not in workers, because each worker has its own copy of the same random state
+        noises = (self.generate_noise(scale, self._N) for _ in range(self.trials))
+        all_IMFs = map_pool(self._trial_update, noises)
 
         if self.parallel:
             pool.close()
@@ -229,12 +231,8 @@ class EEMD:
 
         return self.E_IMF
 
-    def _trial_update(self, trial) -> Tuple[np.ndarray, Optional[np.ndarray]]:
-        """A single trial evaluation, i.e. EMD(signal + noise).
-
-        *Note*: Although `trial` argument isn't used it's needed for the (multiprocessing) map method.
-        """
-        noise = self.generate_noise(self._scale, self._N)
+    def _trial_update(self, noise) -> Tuple[np.ndarray, Optional[np.ndarray]]:
+        """A single trial evaluation, i.e. EMD(signal + noise)."""
         imfs = self.emd(self._S + noise, self._T, self.max_imf)
         trend = None
         if self.separate_trends:
-- 
2.43.0


From 4f4ce43733add68bbb3d638657c9692b553944a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 02/26] fix: extrema detection on plateaus at the beginning of
 a signal

The check for a plateau which starts at the first sample used Matlab's 1-based
index. A plateau starting at the second sample was ignored, and one starting at
the first sample was compared with the *last* slope (index -1) and could be
reported as an extremum at the edge.
---
 PyEMD/EMD.py                 | 2 +-
 PyEMD/EMD_matlab.py          | 2 +-
 PyEMD/experimental/jitemd.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 7a82403..1a00d76 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -646,7 +646,7 @@ class EMD:
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
 
-            if len(debs) > 0 and debs[0] == 1:
+            if len(debs) > 0 and debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 30530e5..5e1bd5f 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -352,7 +352,7 @@ class EMD:
             dd = np.diff(np.append(np.append(0, bad), 0))
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
-            if debs[0] == 1:
+            if debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index efdc10d..3c8b4be 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -191,7 +191,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
         dd = nb_diff(np.append(np.append(0, same_values), 0))
         _left_idx = np.nonzero(dd == 1)[0]
         _right_idx = np.nonzero(dd == -1)[0]
-        if _left_idx[0] == 1:
+        if _left_idx[0] == 0:
             _left_idx = _left_idx[1:]
             _right_idx = _right_idx[1:]
 
-- 
2.43.0


From 763f322ee04bda0a2af1a0e031904efa2d068920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 03/26] fix: get_timeline with low precision floats on long
 signals

For float16 and more than 2049 samples (float32 and more than 2**24 + 1) the
timeline had repeated, or infinite, values. A wider float is used in such cases.
---
 PyEMD/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyEMD/utils.py b/PyEMD/utils.py
index ed91a26..990bd50 100644
--- a/PyEMD/utils.py
+++ b/PyEMD/utils.py
@@ -24,6 +24,12 @@ def get_timeline(range_max: int, dtype: Optional[np.dtype] = None) -> np.ndarray
     if timeline[-1] != range_max - 1:
         inclusive_dtype = smallest_inclusive_dtype(timeline.dtype, range_max)
         timeline = np.arange(0, range_max, dtype=inclusive_dtype)
+    if np.issubdtype(timeline.dtype, np.floating):
+        # Floats tell consecutive integers apart only up to 2**(nmant + 1)
+        for float_dtype in [np.float32, np.float64]:
+            if range_max - 1 <= 2 ** (np.finfo(timeline.dtype).nmant + 1):
+                break
+            timeline = np.arange(0, range_max, dtype=float_dtype)
     return timeline
 
 
-- 
2.43.0


From 103d47493dce961e30d0c6416189f8f65777cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 04/26] fix: get_imfs_and_trend raised IndexError when there
 are no IMFs

Decomposition of a signal of zeros has no IMFs and zero residue.
---
 PyEMD/EMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 1a00d76..603145a 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -954,7 +954,7 @@ class EMD:
             raise ValueError("No IMF found. Please, run EMD method or its variant first.")
 
         imfs, residue = self.get_imfs_and_residue()
-        if np.allclose(residue, 0):
+        if len(imfs) > 0 and np.allclose(residue, 0):
             return imfs[:-1].copy(), imfs[-1].copy()
         else:
             return imfs, residue
-- 
2.43.0


From bc75e025eafa439e90963a1f2f35c635973856dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 05/26] fix: CEEMDAN returned NaNs for a constant signal

Such signal has zero standard deviation, which is used for its normalization.
---
 PyEMD/CEEMDAN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 0761bfa..540d1cf 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -217,7 +217,7 @@ class CEEMDAN:
         components : np.ndarray
             CEEMDAN components.
         """
-        scale_s = np.std(S)
+        scale_s = np.std(S) or 1.0
         S = S / scale_s
 
         # Define all noise
-- 
2.43.0


From eec798070fa32a9b43ffc3a243dcbdf00e69e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 06/26] fix: plot_imfs raised TypeError for a single row

With a single row `plt.subplots` returns an Axes object which isn't iterable.
---
 PyEMD/visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index eb6578e..59ea762 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -59,7 +59,7 @@ class Visualisation(object):
         fig, axes = plt.subplots(num_rows, 1, figsize=(self.PLOT_WIDTH, num_rows * self.PLOT_HEIGHT_PER_IMF))
 
         if num_rows == 1:
-            axes = list(axes)
+            axes = fig.axes
 
         axes[0].set_title("Time series")
 
-- 
2.43.0


From 4df4dd7556e0293f196398bc5c98aff38f0b8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:16 +0000
Subject: [PATCH 07/26] fix: EMD2D returned NaNs for a constant image

The value range used for scaling the image is zero in such case.
---
 PyEMD/EMD2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2dbf5fb..1630f43 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -295,6 +295,8 @@ class EMD2D:
         image_min, image_max = np.min(image), np.max(image)
         offset = image_min
         scale = image_max - image_min
+        if scale == 0:  # Constant image
+            scale = 1
 
         image_s = (image - offset) / scale
 
-- 
2.43.0


From 058fc4836558fc1575dcce673049581afeb79eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:16 +0000
Subject: [PATCH 08/26] fix: JitEMD residue had an extra dimension

EEMD with `separate_trends` and JitEMD failed due to trends' inconsistent shapes.
---
 PyEMD/experimental/jitemd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 3c8b4be..0aaeb96 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -74,7 +74,7 @@ class JitEMD:
             config=self.config,
         )
         self.imfs = imfs[:-1, :]
-        self.residue = imfs[-1:, :]
+        self.residue = imfs[-1, :]
         return imfs
 
     def __call__(self, s, t, max_imf=-1):
-- 
2.43.0


From 90f5050ab9dbcc09215ed0a7712bdcd49d1f5b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:25 +0000
Subject: [PATCH 09/26] fix: JitEMD failed without time array, e.g. when used
 by CEEMDAN

CEEMDAN doesn't pass positions when it decomposes noise or checks end condition.
---
 PyEMD/experimental/jitemd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 0aaeb96..80aebcb 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -64,7 +64,9 @@ class JitEMD:
             return self.imfs[:-1].copy(), self.imfs[-1].copy()
         return self.imfs, self.residue
 
-    def emd(self, s, t, max_imf=-1):
+    def emd(self, s, t=None, max_imf=-1):
+        if t is None:
+            t = get_timeline(len(s), s.dtype)
         imfs = emd(
             s,
             t,
@@ -77,7 +79,7 @@ class JitEMD:
         self.residue = imfs[-1, :]
         return imfs
 
-    def __call__(self, s, t, max_imf=-1):
+    def __call__(self, s, t=None, max_imf=-1):
         return self.emd(s, t, max_imf=max_imf)
 
 
-- 
2.43.0


From 94bb9f006d539f20330d88309a3abaf19d93095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:25 +0000
Subject: [PATCH 10/26] fix: extrema and zero-crossings were missed on small
 values

Product of two small values of opposite signs can underflow to (negative) zero,
e.g. on 1e-4 amplitude in float16, and then the change of the sign wasn't seen.
---
 PyEMD/EMD.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 603145a..254b4ed 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -559,7 +559,7 @@ class EMD:
         """
         # Finds indexes of zero-crossings
         S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
+        indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
         if np.any(S == 0):
             indz = np.nonzero(S == 0)[0]
             if np.any(np.diff(indz) == 1):
@@ -620,7 +620,7 @@ class EMD:
 
         # Finds indexes of zero-crossings
         S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
+        indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
         if np.any(S == 0):
             indz = np.nonzero(S == 0)[0]
             if np.any(np.diff(indz) == 1):
@@ -635,7 +635,7 @@ class EMD:
         # Finds local extrema
         d = np.diff(S)
         d1, d2 = d[:-1], d[1:]
-        sign_change = d1 * d2 < 0
+        sign_change = np.sign(d1) * np.sign(d2) < 0
         indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1
         indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1
 
-- 
2.43.0


From adc1db11b83246a2dba42f230bccf774f950377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:24 +0000
Subject: [PATCH 11/26] fix: cubic spline over three knots failed for half
 precision

Linear solver doesn't support float16, so EMD of a half precision signal raised
TypeError whenever an envelope had three knots.
---
 PyEMD/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEMD/splines.py b/PyEMD/splines.py
index ea3cec4..1a69bc4 100644
--- a/PyEMD/splines.py
+++ b/PyEMD/splines.py
@@ -22,8 +22,8 @@ def cubic_spline_3pts(x, y, T):
     v3 = 3 * y2y1 * _x2x1 * _x2x1
     v2 = v1 + v3
 
-    M = np.array([[m11, m12, m13], [m21, m22, m23], [m31, m32, m33]])
-    v = np.array([v1, v2, v3]).T
+    M = np.array([[m11, m12, m13], [m21, m22, m23], [m31, m32, m33]], dtype=np.float64)
+    v = np.array([v1, v2, v3], dtype=np.float64).T
     k = np.linalg.solve(M, v)
 
     a1 = k[0] * x1x0 - y1y0
-- 
2.43.0


From 4d7b60cc11185cdec591a215210dc3e90c275421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:09 +0000
Subject: [PATCH 12/26] fix: small extrema and zero-crossings were missed in
 MATLAB-compatible and JIT versions too

Same as in EMD: a product of two small values of opposite signs can underflow to zero.
---
 PyEMD/EMD_matlab.py          | 6 +++---
 PyEMD/experimental/jitemd.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 5e1bd5f..63c7feb 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -323,7 +323,7 @@ class EMD:
 
         # Finds indexes of zero-crossings
         s1, s2 = s[:-1], s[1:]
-        indzer = np.nonzero(s1 * s2 < 0)[0]
+        indzer = np.nonzero(np.sign(s1) * np.sign(s2) < 0)[0]
         if np.any(s == 0):
             iz = np.nonzero(s == 0)[0]
             indz = []
@@ -341,8 +341,8 @@ class EMD:
         # Finds local extrema
         d = np.diff(s)
         d1, d2 = d[:-1], d[1:]
-        indmin = np.nonzero(np.r_[d1 * d2 < 0] & np.r_[d1 < 0])[0] + 1
-        indmax = np.nonzero(np.r_[d1 * d2 < 0] & np.r_[d1 > 0])[0] + 1
+        indmin = np.nonzero(np.r_[np.sign(d1) * np.sign(d2) < 0] & np.r_[d1 < 0])[0] + 1
+        indmax = np.nonzero(np.r_[np.sign(d1) * np.sign(d2) < 0] & np.r_[d1 > 0])[0] + 1
 
         # When two or more points have the same value
         if np.any(d == 0):
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 80aebcb..cf3f6d4 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -162,7 +162,7 @@ def nb_diff(s):
 def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # Finds indexes of zero-crossings
     S1, S2 = S[:-1], S[1:]
-    indzer = np.nonzero(S1 * S2 < 0)[0]
+    indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
     if np.any(S == 0):
         indz = np.nonzero(S == 0)[0]
         if np.any(nb_diff(indz) == 1):
@@ -180,8 +180,8 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # Finds local extrema
     d = S2 - S1
     d1, d2 = d[:-1], d[1:]
-    indmin = np.nonzero(np.logical_and(d1 * d2 < 0, d1 < 0))[0] + 1
-    indmax = np.nonzero(np.logical_and(d1 * d2 < 0, d1 > 0))[0] + 1
+    indmin = np.nonzero(np.logical_and(np.sign(d1) * np.sign(d2) < 0, d1 < 0))[0] + 1
+    indmax = np.nonzero(np.logical_and(np.sign(d1) * np.sign(d2) < 0, d1 > 0))[0] + 1
     indmin = indmin.astype(np.int64)
     indmax = indmax.astype(np.int64)
 
@@ -236,7 +236,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
 def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # Finds indexes of zero-crossings
     S1, S2 = S[:-1], S[1:]
-    indzer = np.nonzero(S1 * S2 < 0)[0]
+    indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
     if np.any(S == 0):
         indz = np.nonzero(S == 0)[0]
         if np.any(nb_diff(indz) == 1):
-- 
2.43.0


From 164b8d24d0e0ca43155ceba34717f880651cd501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:13 +0000
Subject: [PATCH 13/26] fix: JitEMD raised IndexError for a signal of zeros

---
 PyEMD/experimental/jitemd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index cf3f6d4..fe4a547 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -60,7 +60,7 @@ class JitEMD:
         self.residue = None
 
     def get_imfs_and_trend(self):
-        if np.allclose(self.residue, 0):
+        if len(self.imfs) > 0 and np.allclose(self.residue, 0):
             return self.imfs[:-1].copy(), self.imfs[-1].copy()
         return self.imfs, self.residue
 
@@ -76,7 +76,7 @@ class JitEMD:
             config=self.config,
         )
         self.imfs = imfs[:-1, :]
-        self.residue = imfs[-1, :]
+        self.residue = imfs[-1, :] if len(imfs) > 0 else np.zeros_like(s)
         return imfs
 
     def __call__(self, s, t=None, max_imf=-1):
-- 
2.43.0


From 48a3bf6fea2c90ae598a98aca6ffc43ba22fd7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:26 +0000
Subject: [PATCH 14/26] fix: JitEMD never returned when MAX_ITERATION was
 reached

Numba's loop lifting loses the exit from the sifting loop.
---
 PyEMD/experimental/jitemd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index fe4a547..8da2d04 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -788,6 +788,7 @@ def _normalize_time(t: np.ndarray) -> np.ndarray:
     ),
     nopython=False,
     forceobj=True,
+    looplift=False,
 )
 def emd(
     S: np.ndarray,
-- 
2.43.0


From f1f13b2fc5407c87e2cc7f3c14ec6942d38ab4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:11 +0000
Subject: [PATCH 15/26] fix: EEMD noise scale overflowed for narrow integer
 signals

---
 PyEMD/EEMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index 42ba861..f8d7735 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -182,7 +182,7 @@ class EEMD:
         if T is None:
             T = get_timeline(len(S), S.dtype)
 
-        scale = self.noise_width * np.abs(np.max(S) - np.min(S))
+        scale = self.noise_width * np.abs(float(np.max(S)) - float(np.min(S)))
         self._S = S
         self._T = T
         self._N = len(S)
-- 
2.43.0


From 75b3f0419bf04872e8c40abfd35dfd55f602b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:11 +0000
Subject: [PATCH 16/26] fix: EMD2D overflowed for narrow integer images

---
 PyEMD/EMD2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 1630f43..ad7b6c3 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -292,7 +292,7 @@ class EMD2D:
             Set of IMFs in form of numpy array where the first dimension
             relates to IMF's ordinary number.
         """
-        image_min, image_max = np.min(image), np.max(image)
+        image_min, image_max = float(np.min(image)), float(np.max(image))
         offset = image_min
         scale = image_max - image_min
         if scale == 0:  # Constant image
-- 
2.43.0


From 8f90c25f90b928412a9ea032f2fc0d7e7647ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:11 +0000
Subject: [PATCH 17/26] fix: simple extrema detection overflowed for narrow
 integer signals

---
 PyEMD/EMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 254b4ed..258a2ba 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -633,7 +633,7 @@ class EMD:
             indzer = np.sort(np.append(indzer, indz))
 
         # Finds local extrema
-        d = np.diff(S)
+        d = (S[1:] > S[:-1]).astype(int) - (S[1:] < S[:-1])  # Signs of differences, which can overflow
         d1, d2 = d[:-1], d[1:]
         sign_change = np.sign(d1) * np.sign(d2) < 0
         indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1
-- 
2.43.0


From 0c9a629d141795ec172d6ea341b95889719940c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:11 +0000
Subject: [PATCH 18/26] fix: narrow integer time arrays overflowed

---
 PyEMD/EMD.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 258a2ba..eb7979d 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -766,6 +766,8 @@ class EMD:
         Normalize time array so that it doesn't explode on tiny values.
         Returned array starts with 0 and the smallest increase is by 1.
         """
+        if np.issubdtype(t.dtype, np.integer):
+            t = t.astype(np.int64)  # Differences could overflow in narrower types
         d = np.diff(t)
         assert np.all(d != 0), "All time domain values needs to be unique"
         return (t - t[0]) / np.min(d)
-- 
2.43.0


From c26c24462903f78ebd2fc6fe437fa2a382185169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:40 +0000
Subject: [PATCH 19/26] fix: wrong extrema of images of unsigned integers

---
 PyEMD/BEMD.py  | 4 ++--
 PyEMD/EMD2d.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyEMD/BEMD.py b/PyEMD/BEMD.py
index 08e4195..c74ce31 100644
--- a/PyEMD/BEMD.py
+++ b/PyEMD/BEMD.py
@@ -111,11 +111,11 @@ class BEMD:
 
     @classmethod
     def extract_minima_positions(cls, image):
-        return BEMD.extract_maxima_positions(-image)
+        return BEMD.extract_maxima_positions(-image.astype(float))
 
     @classmethod
     def extract_maxima_positions(cls, image):
-        seed_min = image - 1
+        seed_min = image.astype(float) - 1
         dilated = reconstruction(seed_min, image, method="dilation")
         cleaned_image = image - dilated
         return np.where(cleaned_image > 0)[::-1]
diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index ad7b6c3..1da6fef 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -182,6 +182,8 @@ class EMD2D:
             Maxima positions.
         """
 
+        image = image.astype(float)  # Negative of unsigned integers wraps around
+
         # define an 3x3 neighborhood
         neighborhood = generate_binary_structure(2, 2)
 
-- 
2.43.0


From a9fb9abd0191f8a1a6e3ef1724f9dc733347d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:40 +0000
Subject: [PATCH 20/26] fix: parabolic extrema detection overflowed for narrow
 integer signals

---
 PyEMD/EMD.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index eb7979d..667d912 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -571,6 +571,9 @@ class EMD:
 
             indzer = np.sort(np.append(indzer, indz))
 
+        if not np.issubdtype(S.dtype, np.floating):
+            S = S.astype(np.float64)  # Differences of integers could overflow
+
         dt = float(T[1] - T[0])
         scale = 2.0 * dt * dt
 
-- 
2.43.0


From 987a7f1ad162c03bed23672a3817cbde308a50d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:19 +0000
Subject: [PATCH 21/26] fix: EMD2D compared normalised components with the raw
 image

The reconstruction in the end condition is of the normalised image, so it was only
recognised for images spanning from 0 to 1. Without a limit on the number of
components, a constant image was decomposed forever.
---
 PyEMD/EMD2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 1da6fef..9a1aaa3 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -370,7 +370,7 @@ class EMD2D:
             IMF = np.vstack((IMF, imf.copy()[None, :]))
             imfNo += 1
 
-            if self.end_condition(image, IMF) or (max_imf > 0 and imfNo >= max_imf):
+            if self.end_condition(image_s, IMF) or (max_imf > 0 and imfNo >= max_imf):
                 notFinished = False
                 break
 
-- 
2.43.0


From 8c9f930ae3ba94d18adf9d45d020f2e5c01b23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:06 +0000
Subject: [PATCH 22/26] fix: CEEMDAN returned NaNs for float16 signals whose
 squares overflow

---
 PyEMD/CEEMDAN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 540d1cf..c6cbb37 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -217,7 +217,7 @@ class CEEMDAN:
         components : np.ndarray
             CEEMDAN components.
         """
-        scale_s = np.std(S) or 1.0
+        scale_s = np.std(S, dtype=np.float64) or 1.0
         S = S / scale_s
 
         # Define all noise
-- 
2.43.0


From ef3a59131a2f540ce67e9c0ffc08d7b467c00b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:06 +0000
Subject: [PATCH 23/26] fix: energy of IMFs of narrow types overflowed in the
 white noise check

---
 PyEMD/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/checks.py b/PyEMD/checks.py
index 8818d11..9a7abb5 100644
--- a/PyEMD/checks.py
+++ b/PyEMD/checks.py
@@ -18,7 +18,7 @@ def mean_period(data):
 # helper function: find energy of signal/IMF
 def energy(data):
     """Return energy of signal."""
-    return sum(pow(data, 2))
+    return sum(pow(np.asarray(data, dtype=np.float64), 2))
 
 
 # helper function: find IMF significance in 'a priori' test
-- 
2.43.0


From 06b2de4cd0ebeeef104be0261c6435133607ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:06 +0000
Subject: [PATCH 24/26] fix: compact schemes wrapped around for narrow integers

---
 PyEMD/compact.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/compact.py b/PyEMD/compact.py
index caf4f82..8b49411 100644
--- a/PyEMD/compact.py
+++ b/PyEMD/compact.py
@@ -49,6 +49,7 @@ def filt6(f, alpha):
     Cc = (-3.0 + 6.0 * alpha) / 16.0
     Cd = (1.0 - 2.0 * alpha) / 32.0
 
+    f = np.asarray(f, dtype=np.float64)
     n = len(f)
 
     rhs = np.zeros(n)
@@ -97,6 +98,7 @@ def pade6(vec, h):
     Lele, S. K. - Compact finite difference schemes with spectral-like
     resolution. Journal of Computational Physics 103 (1992) 16-42
     """
+    vec = np.asarray(vec, dtype=np.float64)
     n = len(vec)
     rhs = np.zeros(n)
 
-- 
2.43.0


From 098e31eeb7375963ade25228ba3f6ba86fbd6936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:59 +0000
Subject: [PATCH 25/26] fix: parallel ensembles could leave their processes
 running, wait for them to end

---
 PyEMD/CEEMDAN.py | 2 ++
 PyEMD/EEMD.py    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index c6cbb37..0c3662e 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -330,6 +330,7 @@ class CEEMDAN:
             pool = Pool(processes=self.processes)
             all_noise_EMD = pool.map(self.emd, self.all_noises)
             pool.close()
+            pool.join()
         else:
             all_noise_EMD = [self.emd(noise, max_imf=-1) for noise in self.all_noises]
 
@@ -368,6 +369,7 @@ class CEEMDAN:
 
         if self.parallel:
             pool.close()
+            pool.join()
 
         return self.E_IMF / self.trials
 
diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index f8d7735..ea26164 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -202,6 +202,7 @@ class EEMD:
 
         if self.parallel:
             pool.close()
+            pool.join()
 
         self._all_imfs = defaultdict(list)
         it = iter if not progress else lambda x: tqdm(x, desc="EEMD", total=self.trials)
-- 
2.43.0


From d4cef750580ba942ba201610489040fcd3a08ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:14 +0000
Subject: [PATCH 26/26] fix: JitEMD couldn't be pickled, so ensembles with it
 failed in parallel mode

---
 PyEMD/experimental/jitemd.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 8da2d04..89b6b59 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -59,6 +59,17 @@ class JitEMD:
         self.imfs = None
         self.residue = None
 
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        state["config"] = dict(self.config)  # Numba's dictionaries can't be pickled
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.config = nb.typed.Dict.empty(key_type=unicode_type, value_type=float64)
+        for key, value in state["config"].items():
+            self.config[key] = value
+
     def get_imfs_and_trend(self):
         if len(self.imfs) > 0 and np.allclose(self.residue, 0):
             return self.imfs[:-1].copy(), self.imfs[-1].copy()
-- 
2.43.0

