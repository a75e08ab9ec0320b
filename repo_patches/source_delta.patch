From 9826f0b38b7afce43014a2c1836974b82ab1757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:07 +0000
Subject: [PATCH 01/16] fix: draw EEMD noise in the parent process so that
 parallel trials get distinct noise

Each worker process received a pickled copy of the random generator, so
with parallel=True trials handled by different workers (or chunks) were
perturbed by the same noise realisation and a seeded parallel run did not
match a serial one.
---
 PyEMD/EEMD.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index e4ebe2b..fd4ec1f 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -196,7 +196,10 @@ class EEMD:
             map_pool = pool.map
         else:
             map_pool = map
-        all_IMFs = map_pool(self._trial_update, range(self.trials))
+        # Noise is drawn here, and not in the workers, because each worker process has its own copy
+        # of the random generator and all copies would provide the same values.
+        noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))
+        all_IMFs = map_pool(self._trial_update, noises)
 
         if self.parallel:
             pool.close()
@@ -229,12 +232,8 @@ class EEMD:
 
         return self.E_IMF
 
-    def _trial_update(self, trial) -> Tuple[np.ndarray, Optional[np.ndarray]]:
-        """A single trial evaluation, i.e. EMD(signal + noise).
-
-        *Note*: Although `trial` argument isn't used it's needed for the (multiprocessing) map method.
-        """
-        noise = self.generate_noise(self._scale, self._N)
+    def _trial_update(self, noise: np.ndarray) -> Tuple[np.ndarray, Optional[np.ndarray]]:
+        """A single trial evaluation, i.e. EMD(signal + noise)."""
         imfs = self.emd(self._S + noise, self._T, self.max_imf)
         trend = None
         if self.separate_trends:
-- 
2.43.0


From 9ed59e94c195f76f1e6865550f96dfec61c40d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:43 +0000
Subject: [PATCH 02/16] fix: release worker pools when a trial raises

The pools opened by EEMD and CEEMDAN were only closed on the normal path,
so an exception in any trial left the worker processes running.
---
 PyEMD/CEEMDAN.py | 28 ++++++++++++++--------------
 PyEMD/EEMD.py    | 12 ++++--------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 0761bfa..c33c68c 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -327,9 +327,8 @@ class CEEMDAN:
 
     def _decompose_noise(self) -> List[np.ndarray]:
         if self.parallel:
-            pool = Pool(processes=self.processes)
-            all_noise_EMD = pool.map(self.emd, self.all_noises)
-            pool.close()
+            with Pool(processes=self.processes) as pool:
+                all_noise_EMD = pool.map(self.emd, self.all_noises)
         else:
             all_noise_EMD = [self.emd(noise, max_imf=-1) for noise in self.all_noises]
 
@@ -349,6 +348,9 @@ class CEEMDAN:
         self._N = N = len(S)
         self.max_imf = max_imf
 
+        self.E_IMF = np.zeros((1, N))
+        it = iter if not progress else lambda x: tqdm(x, desc="Decomposing noise", total=self.trials)
+
         # For trial number of iterations perform EMD on a signal
         # with added white noise
         if self.parallel:
@@ -357,17 +359,15 @@ class CEEMDAN:
         else:  # Not parallel
             map_pool = map
 
-        self.E_IMF = np.zeros((1, N))
-        it = iter if not progress else lambda x: tqdm(x, desc="Decomposing noise", total=self.trials)
-
-        for IMFs in it(map_pool(self._trial_update, range(self.trials))):
-            if self.E_IMF.shape[0] < IMFs.shape[0]:
-                num_new_layers = IMFs.shape[0] - self.E_IMF.shape[0]
-                self.E_IMF = np.vstack((self.E_IMF, np.zeros(shape=(num_new_layers, N))))
-            self.E_IMF[: IMFs.shape[0]] += IMFs
-
-        if self.parallel:
-            pool.close()
+        try:
+            for IMFs in it(map_pool(self._trial_update, range(self.trials))):
+                if self.E_IMF.shape[0] < IMFs.shape[0]:
+                    num_new_layers = IMFs.shape[0] - self.E_IMF.shape[0]
+                    self.E_IMF = np.vstack((self.E_IMF, np.zeros(shape=(num_new_layers, N))))
+                self.E_IMF[: IMFs.shape[0]] += IMFs
+        finally:
+            if self.parallel:
+                pool.terminate()
 
         return self.E_IMF / self.trials
 
diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index fd4ec1f..e4cb521 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -191,18 +191,14 @@ class EEMD:
 
         # For trial number of iterations perform EMD on a signal
         # with added white noise
-        if self.parallel:
-            pool = Pool(processes=self.processes)
-            map_pool = pool.map
-        else:
-            map_pool = map
         # Noise is drawn here, and not in the workers, because each worker process has its own copy
         # of the random generator and all copies would provide the same values.
         noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))
-        all_IMFs = map_pool(self._trial_update, noises)
-
         if self.parallel:
-            pool.close()
+            with Pool(processes=self.processes) as pool:
+                all_IMFs = pool.map(self._trial_update, noises)
+        else:
+            all_IMFs = map(self._trial_update, noises)
 
         self._all_imfs = defaultdict(list)
         it = iter if not progress else lambda x: tqdm(x, desc="EEMD", total=self.trials)
-- 
2.43.0


From 13cc937b7b4ae9dd8f209b18e3f6603f99bed67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:01 +0000
Subject: [PATCH 03/16] fix: accumulate CEEMDAN parallel trials in trial order

With imap_unordered the trials were summed in completion order, so two
runs with the same seed gave results that differ in the last bits, and
neither matched the serial run.
---
 PyEMD/CEEMDAN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index c33c68c..57e683f 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -355,7 +355,7 @@ class CEEMDAN:
         # with added white noise
         if self.parallel:
             pool = Pool(processes=self.processes)
-            map_pool = pool.imap_unordered
+            map_pool = pool.imap
         else:  # Not parallel
             map_pool = map
 
-- 
2.43.0


From 70db6c21235db29fc0d54d7e8e275b639c6b1007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:56 +0000
Subject: [PATCH 04/16] fix: do not repeat time stamps in float16 and float32
 timelines

A timeline in the dtype of a low precision signal silently repeated values
once it was longer than the range in which the dtype holds every integer
(2049 samples for float16).
---
 PyEMD/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/PyEMD/utils.py b/PyEMD/utils.py
index ed91a26..c99c27a 100644
--- a/PyEMD/utils.py
+++ b/PyEMD/utils.py
@@ -21,7 +21,11 @@ def get_timeline(range_max: int, dtype: Optional[np.dtype] = None) -> np.ndarray
 
     """
     timeline = np.arange(0, range_max, dtype=dtype)
-    if timeline[-1] != range_max - 1:
+    # Floats can go beyond the range where they represent every integer, and then samples share their time
+    is_inexact = (
+        np.issubdtype(timeline.dtype, np.floating) and range_max - 1 > 2 ** (np.finfo(timeline.dtype).nmant + 1)
+    )
+    if timeline[-1] != range_max - 1 or is_inexact:
         inclusive_dtype = smallest_inclusive_dtype(timeline.dtype, range_max)
         timeline = np.arange(0, range_max, dtype=inclusive_dtype)
     return timeline
@@ -50,10 +54,10 @@ def smallest_inclusive_dtype(ref_dtype: np.dtype, ref_value) -> np.dtype:
     # Float path
     if np.issubdtype(ref_dtype, np.floating):
         for dtype in [np.float16, np.float32, np.float64]:
-            if ref_value < np.finfo(dtype).max:
+            if ref_value <= 2 ** (np.finfo(dtype).nmant + 1):
                 return dtype
-        max_val = np.finfo(np.float64).max
-        raise ValueError("Requested too large integer range. Exceeds max( float64 ) == '{}.".format(max_val))
+        max_val = 2 ** (np.finfo(np.float64).nmant + 1)
+        raise ValueError("Requested too large integer range. Exceeds exact( float64 ) == '{}.".format(max_val))
 
     raise ValueError("Unsupported dtype '{}'. Only intX and floatX are supported.".format(ref_dtype))
 
-- 
2.43.0


From 22597e54e2ffc78c2ed2283cb1c3561fc295243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:57 +0000
Subject: [PATCH 05/16] fix: return an empty set of IMFs and a zero trend for a
 zero signal

get_imfs_and_trend raised IndexError after decomposing a signal with no
IMFs and no residue, e.g. all zeros.
---
 PyEMD/EMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 7a82403..d12ac38 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -954,7 +954,7 @@ class EMD:
             raise ValueError("No IMF found. Please, run EMD method or its variant first.")
 
         imfs, residue = self.get_imfs_and_residue()
-        if np.allclose(residue, 0):
+        if len(imfs) > 0 and np.allclose(residue, 0):
             return imfs[:-1].copy(), imfs[-1].copy()
         else:
             return imfs, residue
-- 
2.43.0


From 31bde7b89bf76040d79f6051a0e57fa240d03b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:38 +0000
Subject: [PATCH 06/16] fix: plot a single IMF without residue

plt.subplots returns a bare Axes for one panel, which is not iterable, so
plot_imfs with one IMF and include_residue=False raised TypeError.
---
 PyEMD/visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index eb6578e..59ea762 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -59,7 +59,7 @@ class Visualisation(object):
         fig, axes = plt.subplots(num_rows, 1, figsize=(self.PLOT_WIDTH, num_rows * self.PLOT_HEIGHT_PER_IMF))
 
         if num_rows == 1:
-            axes = list(axes)
+            axes = fig.axes
 
         axes[0].set_title("Time series")
 
-- 
2.43.0


From a7e4b7c34c3eb1305994c9c55556147d42cfde02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:50 +0000
Subject: [PATCH 07/16] fix: sift exactly FIXE times in EMD2D and BEMD

---
 PyEMD/BEMD.py  | 2 +-
 PyEMD/EMD2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEMD/BEMD.py b/PyEMD/BEMD.py
index 08e4195..07e9ebe 100644
--- a/PyEMD/BEMD.py
+++ b/PyEMD/BEMD.py
@@ -236,7 +236,7 @@ class BEMD:
 
                     # Fix number of iterations
                     if self.FIXE:
-                        if n >= self.FIXE + 1:
+                        if n >= self.FIXE:
                             stop_sifting = True
 
                     # Fix number of iterations after number of zero-crossings
diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2dbf5fb..1ef94a9 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -337,7 +337,7 @@ class EMD2D:
 
                     # Fix number of iterations
                     if self.FIXE:
-                        if n >= self.FIXE + 1:
+                        if n >= self.FIXE:
                             stop_sifting = True
 
                     # Fix number of iterations after number of zero-crossings
-- 
2.43.0


From 4c3f04aa5eeb0a91b9d50a41f5049ba327cad2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:56 +0000
Subject: [PATCH 08/16] fix: do not subtract the previous envelope mean a
 second time in EMD2D

---
 PyEMD/EMD2d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 1ef94a9..b267e31 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -325,9 +325,6 @@ class EMD2D:
 
                 self.logger.debug("min_peaks = %i  |  max_peaks = %i", len(min_peaks[0]), len(max_peaks[0]))
                 if len(min_peaks[0]) > 4 and len(max_peaks[0]) > 4:
-                    imf_old = imf.copy()
-                    imf = imf - mean_env
-
                     min_env, max_env = self.extract_max_min_spline(imf)
 
                     mean_env = 0.5 * (min_env + max_env)
-- 
2.43.0


From 97b4cd01d0973e5737433e53039252e1f7925225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:56 +0000
Subject: [PATCH 09/16] fix: test EMD2D's end condition on the scaled image its
 components add up to

---
 PyEMD/EMD2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index b267e31..9d2f937 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -363,7 +363,7 @@ class EMD2D:
             IMF = np.vstack((IMF, imf.copy()[None, :]))
             imfNo += 1
 
-            if self.end_condition(image, IMF) or (max_imf > 0 and imfNo >= max_imf):
+            if self.end_condition(image_s, IMF) or (max_imf > 0 and imfNo >= max_imf):
                 notFinished = False
                 break
 
-- 
2.43.0


From f650e2ed9bf0df3b5dabdf61237b297b3ea421b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:56 +0000
Subject: [PATCH 10/16] fix: honour mse_thr in BEMD's proto-IMF test

---
 PyEMD/BEMD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEMD/BEMD.py b/PyEMD/BEMD.py
index 07e9ebe..96799ae 100644
--- a/PyEMD/BEMD.py
+++ b/PyEMD/BEMD.py
@@ -176,8 +176,8 @@ class BEMD:
 
         # Everything relatively close to 0
         mse_proto_imf = np.mean(proto_imf * proto_imf)
-        if mse_proto_imf > self.mse_thr:
-            return False
+        if mse_proto_imf < self.mse_thr:
+            return True
 
         return False
 
-- 
2.43.0


From 88c212f63b5ee56743587f602925f272f018290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:33 +0000
Subject: [PATCH 11/16] fix: drop only plateaus touching the first sample when
 locating extrema

---
 PyEMD/EMD.py                 | 2 +-
 PyEMD/EMD_matlab.py          | 2 +-
 PyEMD/experimental/jitemd.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index d12ac38..603145a 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -646,7 +646,7 @@ class EMD:
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
 
-            if len(debs) > 0 and debs[0] == 1:
+            if len(debs) > 0 and debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 30530e5..5e1bd5f 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -352,7 +352,7 @@ class EMD:
             dd = np.diff(np.append(np.append(0, bad), 0))
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
-            if debs[0] == 1:
+            if debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index efdc10d..3c8b4be 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -191,7 +191,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
         dd = nb_diff(np.append(np.append(0, same_values), 0))
         _left_idx = np.nonzero(dd == 1)[0]
         _right_idx = np.nonzero(dd == -1)[0]
-        if _left_idx[0] == 1:
+        if _left_idx[0] == 0:
             _left_idx = _left_idx[1:]
             _right_idx = _right_idx[1:]
 
-- 
2.43.0


From 3e2b2ac69cc8eda3338a29f6ee5360f1f652cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:29 +0000
Subject: [PATCH 12/16] fix: read BEMD's envelope values at the extrema, not at
 the transposed pixel

The extrema positions are (x, y), but the image was indexed with them as
(row, column) and the evaluation grid used the sizes the other way round.
Square images got envelopes through the wrong values, other images raised.
---
 PyEMD/BEMD.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyEMD/BEMD.py b/PyEMD/BEMD.py
index 96799ae..e1e1ec2 100644
--- a/PyEMD/BEMD.py
+++ b/PyEMD/BEMD.py
@@ -70,9 +70,9 @@ class BEMD:
         max_env : numpy 2D array
             Top envelope in form of an image.
         """
-        xi, yi = np.meshgrid(np.arange(image.shape[0]), np.arange(image.shape[1]))
-        min_val = image[min_peaks_pos]
-        max_val = image[max_peaks_pos]
+        xi, yi = np.meshgrid(np.arange(image.shape[1]), np.arange(image.shape[0]))
+        min_val = image[min_peaks_pos[1], min_peaks_pos[0]]
+        max_val = image[max_peaks_pos[1], max_peaks_pos[0]]
         min_env = self.spline_points(min_peaks_pos[0], min_peaks_pos[1], min_val, xi, yi)
         max_env = self.spline_points(max_peaks_pos[0], max_peaks_pos[1], max_val, xi, yi)
         return min_env, max_env
-- 
2.43.0


From 5cd82eb873e166a224f9257df666fdc81746b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:22 +0000
Subject: [PATCH 13/16] fix: a posteriori white-noise test rescales by the
 reference IMF's energy

The energy density of the rescaling IMF was computed but not used, and the
upper limit it is moved to halved the exponential instead of its exponent, so the
verdicts changed with the amplitude of the signal.
---
 PyEMD/checks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyEMD/checks.py b/PyEMD/checks.py
index 8818d11..2c267af 100644
--- a/PyEMD/checks.py
+++ b/PyEMD/checks.py
@@ -116,16 +116,17 @@ def whitenoise_check(IMFs: np.ndarray, test_name: str = "aposteriori", rescaling
         scaling_imf_energy_density = math.log(energy(IMFs[rescaling_imf - 1]) / N)
 
         k = abs(stats.norm.ppf((1 - alpha) / 2))
-        up_limit = -scaling_imf_mean_period + (k * math.sqrt(2 / N) * math.exp(scaling_imf_mean_period) / 2)
+        up_limit = -scaling_imf_mean_period + (k * (math.sqrt(2 / N) * math.exp(scaling_imf_mean_period / 2)))
 
-        scaling_factor = math.exp(up_limit)
+        # Rescale energies so that the scaling IMF lies on the upper limit
+        scaling_factor = math.exp(scaling_imf_energy_density - up_limit)
 
         for idx, imf in enumerate(IMFs):
             log_T = math.log(mean_period(imf))
             if idx != rescaling_imf - 1:
                 scaled_energy_density = math.log((energy(imf) / N) / scaling_factor)
             else:
-                scaled_energy_density = math.log(scaling_factor)
+                scaled_energy_density = up_limit
 
             sig_aposteriori = significance_aposteriori(scaled_energy_density, log_T, N, alpha)
 
-- 
2.43.0


From 33140cf68edaf471fd2ec379a17feceb327a4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:03 +0000
Subject: [PATCH 14/16] fix: CEEMDAN keeps distinct default times for long half
 and single precision signals

---
 PyEMD/CEEMDAN.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 57e683f..4f209f6 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -17,6 +17,8 @@ from typing import Dict, List, Optional, Sequence, Tuple, Union
 import numpy as np
 from tqdm import tqdm
 
+from PyEMD.utils import get_timeline
+
 
 class CEEMDAN:
     """
@@ -341,7 +343,7 @@ class CEEMDAN:
 
     def _eemd(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1, progress=True) -> np.ndarray:
         if T is None:
-            T = np.arange(len(S), dtype=S.dtype)
+            T = get_timeline(len(S), S.dtype)
 
         self._S = S
         self._T = T
-- 
2.43.0


From 61fe93fd223cfad91802967035997b6a5d2d89bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:34 +0000
Subject: [PATCH 15/16] fix: CEEMDAN of a constant signal adds up to it instead
 of returning NaN

---
 PyEMD/CEEMDAN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 4f209f6..ca7f6bc 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -220,6 +220,8 @@ class CEEMDAN:
             CEEMDAN components.
         """
         scale_s = np.std(S)
+        if scale_s == 0:  # Constant signal
+            scale_s = 1.0
         S = S / scale_s
 
         # Define all noise
-- 
2.43.0


From 74ba2674f1cf0276e6020008be72f1c3a6b90a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:34 +0000
Subject: [PATCH 16/16] fix: EMD2D of a constant image adds up to it instead of
 returning NaN

---
 PyEMD/EMD2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 9d2f937..853ead8 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -295,6 +295,8 @@ class EMD2D:
         image_min, image_max = np.min(image), np.max(image)
         offset = image_min
         scale = image_max - image_min
+        if scale == 0:  # Constant image
+            scale = 1.0
 
         image_s = (image - offset) / scale
 
-- 
2.43.0

