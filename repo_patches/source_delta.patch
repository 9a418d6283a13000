From b90ad798566e024e31c24a788e606185d9a2767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:32 +0000
Subject: [PATCH 01/36] fix: full-volume FSIM, MS-SSIM, VIFp and VSI honour dim
 and reject invalid dim

---
 src/viqa/fr_metrics/fsim.py   | 6 ++++--
 src/viqa/fr_metrics/msssim.py | 6 ++++--
 src/viqa/fr_metrics/vif.py    | 6 ++++--
 src/viqa/fr_metrics/vsi.py    | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/viqa/fr_metrics/fsim.py b/src/viqa/fr_metrics/fsim.py
index 7809db6..562ee0e 100644
--- a/src/viqa/fr_metrics/fsim.py
+++ b/src/viqa/fr_metrics/fsim.py
@@ -238,13 +238,15 @@ class FSIM(FullReferenceMetricsInterface):
             elif (
                 dim is not None and im_slice is None
             ):  # if dim is given, but im_slice is not, calculate FSIM for full volume
+                if dim not in (0, 1, 2):
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
                 warn(
                     "im_slice is not given. Calculating FSIM for full volume.",
                     RuntimeWarning,
                 )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = fsim(
diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index ae20403..76bb901 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -241,13 +241,15 @@ class MSSSIM(FullReferenceMetricsInterface):
                 dim is not None and im_slice is None
             ):  # if dim is given, but im_slice is not, calculate MS-SSIM for full
                 # volume
+                if dim not in (0, 1, 2):
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
                 warn(
                     "im_slice is not given. Calculating MS-SSIM for full volume.",
                     RuntimeWarning,
                 )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = multi_scale_ssim(
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index c2e1b42..1838f2a 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -214,13 +214,15 @@ class VIFp(FullReferenceMetricsInterface):
             elif (
                 dim is not None and im_slice is None
             ):  # if dim is given, but im_slice is not, calculate VIFp for full volume
+                if dim not in (0, 1, 2):
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
                 warn(
                     "im_slice is not given. Calculating VIFp for full volume.",
                     RuntimeWarning,
                 )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vif_p(
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index c862272..0031c41 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -235,13 +235,15 @@ class VSI(FullReferenceMetricsInterface):
             elif (
                 dim is not None and im_slice is None
             ):  # if dim is given, but im_slice is not, calculate VSI for full volume
+                if dim not in (0, 1, 2):
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
                 warn(
                     "im_slice is not given. Calculating VSI for full volume.",
                     RuntimeWarning,
                 )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vsi(
-- 
2.43.0


From 3a7fca71fa0eb813ffb01c93da4d823acccf97fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:32 +0000
Subject: [PATCH 02/36] fix: warn for 2D images when dim or im_slice of 0 is
 ignored

---
 src/viqa/fr_metrics/fsim.py   | 2 +-
 src/viqa/fr_metrics/gsm.py    | 2 +-
 src/viqa/fr_metrics/mad.py    | 2 +-
 src/viqa/fr_metrics/msssim.py | 2 +-
 src/viqa/fr_metrics/vif.py    | 2 +-
 src/viqa/fr_metrics/vsi.py    | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/viqa/fr_metrics/fsim.py b/src/viqa/fr_metrics/fsim.py
index 562ee0e..8652e42 100644
--- a/src/viqa/fr_metrics/fsim.py
+++ b/src/viqa/fr_metrics/fsim.py
@@ -263,7 +263,7 @@ class FSIM(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate FSIM for 2D images
             img_r_tensor, img_m_tensor = _check_chromatic(
diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 85556a0..cd37dcc 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -243,7 +243,7 @@ class GSM(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2:
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate GSM for 2D images
             score_val = gradient_similarity(
diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 8443af2..7445f13 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -234,7 +234,7 @@ class MAD(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2:
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate MAD for 2D images
             score_val = most_apparent_distortion(
diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index 76bb901..46d93db 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -265,7 +265,7 @@ class MSSSIM(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate MS-SSIM for 2D images
             img_r_tensor, img_m_tensor = _check_chromatic(
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index 1838f2a..dac981d 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -238,7 +238,7 @@ class VIFp(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VIFp for 2D images
             img_r_tensor, img_m_tensor = _check_chromatic(
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 0031c41..29335fe 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -259,7 +259,7 @@ class VSI(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2:
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VSI for 2D images
             img_r_tensor, img_m_tensor = _check_chromatic(
-- 
2.43.0


From b92aaa41af3283feee63be60d174105cd814b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:32 +0000
Subject: [PATCH 03/36] fix: VSI treats RGB images as 2D images

---
 src/viqa/fr_metrics/vsi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 29335fe..712cd5b 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -186,7 +186,7 @@ class VSI(FullReferenceMetricsInterface):
         """
         img_r, img_m = self.load_images(img_r, img_m)
 
-        if img_r.ndim == 3:
+        if img_r.ndim == 3 and img_r.shape[-1] != 3:
             if (
                 dim is not None and type(im_slice) is int
             ):  # if dim and im_slice are given
@@ -258,7 +258,7 @@ class VSI(FullReferenceMetricsInterface):
                 raise ValueError(
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
-        elif img_r.ndim == 2:
+        elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
             if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VSI for 2D images
-- 
2.43.0


From 89472488a769ac2013bc102ac194b5d014b7924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:19 +0000
Subject: [PATCH 04/36] fix: VIFp passes the reference image as target of vif_p

---
 src/viqa/fr_metrics/vif.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index dac981d..5bd6b39 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -178,8 +178,8 @@ class VIFp(FullReferenceMetricsInterface):
                             self.parameters["chromatic"],
                         )
                         score_val = vif_p(
-                            img_r_tensor,
                             img_m_tensor,
+                            img_r_tensor,
                             data_range=self.parameters["data_range"],
                             **kwargs,
                         )
@@ -190,8 +190,8 @@ class VIFp(FullReferenceMetricsInterface):
                             self.parameters["chromatic"],
                         )
                         score_val = vif_p(
-                            img_r_tensor,
                             img_m_tensor,
+                            img_r_tensor,
                             data_range=self.parameters["data_range"],
                             **kwargs,
                         )
@@ -202,8 +202,8 @@ class VIFp(FullReferenceMetricsInterface):
                             self.parameters["chromatic"],
                         )
                         score_val = vif_p(
-                            img_r_tensor,
                             img_m_tensor,
+                            img_r_tensor,
                             data_range=self.parameters["data_range"],
                             **kwargs,
                         )
@@ -226,8 +226,8 @@ class VIFp(FullReferenceMetricsInterface):
                     self.parameters["chromatic"],
                 )
                 score_val = vif_p(
-                    img_r_tensor,
                     img_m_tensor,
+                    img_r_tensor,
                     data_range=self.parameters["data_range"],
                     **kwargs,
                 )
@@ -247,8 +247,8 @@ class VIFp(FullReferenceMetricsInterface):
                 self.parameters["chromatic"],
             )
             score_val = vif_p(
-                img_r_tensor,
                 img_m_tensor,
+                img_r_tensor,
                 data_range=self.parameters["data_range"],
                 **kwargs,
             )
-- 
2.43.0


From 6372f74fb02bd223897c5db214bda40682b47bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:55 +0000
Subject: [PATCH 05/36] fix: SNR of grayscale images is a number, not a tuple
 with bookkeeping data

---
 src/viqa/nr_metrics/snr.py | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 9b54718..78ddc73 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1098,27 +1098,4 @@ def signal_to_noise_ratio(
     else:
         snr_val = np.mean(signal) / np.std(signal)
 
-    parameters = {}
-    match region_type:
-        case "full" if auto_center:
-            parameters.update(
-                {
-                    "iterations": iterations,
-                    "lower_threshold": lower_threshold,
-                    "upper_threshold": upper_threshold,
-                }
-            )
-        case "full" if not auto_center:
-            region_type = "original"
-        case "original":
-            pass
-        case _:
-            parameters.update(
-                {
-                    "signal_center": signal_center,
-                    "radius": radius,
-                }
-            )
-    parameters.update({"region_type": region_type, "signal": signal})
-
-    return np.float64(snr_val), parameters
+    return np.float64(snr_val)
-- 
2.43.0


From 15527203a1da85a3181aaac32b452289b7a6e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:41 +0000
Subject: [PATCH 06/36] fix: UQI disables the stabilising constants K1 and K2
 as documented

---
 src/viqa/fr_metrics/uqi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/uqi.py b/src/viqa/fr_metrics/uqi.py
index 8b567cf..fcd2520 100644
--- a/src/viqa/fr_metrics/uqi.py
+++ b/src/viqa/fr_metrics/uqi.py
@@ -155,8 +155,8 @@ class UQI(FullReferenceMetricsInterface):
             img_r,
             img_m,
             data_range=self.parameters["data_range"],
-            k_1=0,
-            k_2=0,
+            K1=0,
+            K2=0,
             alpha=1,
             beta=1,
             gamma=1,
-- 
2.43.0


From 496b091132ff892eade0d2569a0d47b4f3fb9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:22 +0000
Subject: [PATCH 07/36] fix: print_score of MS-SSIM, VIFp and VSI warns when no
 score is available

---
 src/viqa/fr_metrics/msssim.py | 2 +-
 src/viqa/fr_metrics/vif.py    | 2 +-
 src/viqa/fr_metrics/vsi.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index 46d93db..0a5d61a 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -301,4 +301,4 @@ class MSSSIM(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("MS-SSIM: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for MS-SSIM. Run score() first.")
+            warn("No score value for MS-SSIM. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index 5bd6b39..adf8c7b 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -274,4 +274,4 @@ class VIFp(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VIFp: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VIFp. Run score() first.")
+            warn("No score value for VIFp. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 712cd5b..17e70ad 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -295,4 +295,4 @@ class VSI(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VSI: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VSI. Run score() first.")
+            warn("No score value for VSI. Run score() first.", RuntimeWarning)
-- 
2.43.0


From 2e1cc7156b2d98eef7fd2e1119e4f39b900759ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:03 +0000
Subject: [PATCH 08/36] fix: SNR results are exported under its name

---
 src/viqa/nr_metrics/snr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 78ddc73..0cb812f 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -106,6 +106,7 @@ class SNR(NoReferenceMetricsInterface):
         super().__init__(
             data_range=data_range, normalize=normalize, name=name, **kwargs
         )
+        self._name = name
 
     def score(self, img, **kwargs):
         """Calculate the signal-to-noise ratio (SNR) for an image.
-- 
2.43.0


From 24962da3b77e0f6c07cb225d1a2820e29d94f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:33 +0000
Subject: [PATCH 09/36] fix: MAD does not rescale the weights array passed by
 the caller in place

---
 src/viqa/fr_metrics/mad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 7445f13..fcd6c6a 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -740,7 +740,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
-    weights /= np.sum(weights)
+    weights = np.asarray(weights) / np.sum(weights)
     if len(weights) != scales_num:
         raise ValueError(f"weights must be of length scales_num ({scales_num}).")
 
-- 
2.43.0


From 641da6f8c84656175863203ee2428461086549db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:33 +0000
Subject: [PATCH 10/36] fix: export_results does not overwrite the score of an
 unscored metric

---
 src/viqa/utils/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index e2d0dd9..7ed0f1d 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -95,10 +95,10 @@ def export_results(metrics, output_path, filename, return_dict=False):
         writer.writerow(["Metric", "Value"])
         for metric in metrics:
             if metric.score_val is None:
-                metric.score_val = "n/a"
+                results_dict[metric._name] = "n/a"
             else:
                 writer.writerow([metric._name, metric.score_val])
-            results_dict[metric._name] = metric.score_val
+                results_dict[metric._name] = metric.score_val
     if return_dict:
         return results_dict
 
-- 
2.43.0


From 1001bde959d2608739a44085ad0a10f373a0c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:51 +0000
Subject: [PATCH 11/36] fix: batch results are only reused for the same region
 of interest and reference geometry

---
 src/viqa/multiple.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index a516f35..e60c93b 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -254,12 +254,23 @@ class BatchMetrics(_MultipleInterface):
         prev_ref_path = None
         modified_img = None
         prev_mod_path = None
+        prev_roi = None
+        prev_geometry = None
         metric_results = None
         for pair_num, pair in enumerate(tqdm(self.pairs)):
             reference_path = os.path.join(self.file_dir, pair["reference_image"])
             modified_path = os.path.join(self.file_dir, pair["modified_image"])
+            if self.global_roi is None and self.rois is not None:
+                roi = self.rois[pair_num]
+            # Previous results are only valid for the same region of interest
+            same_roi = roi == prev_roi
+            prev_roi = roi
             # Skip calculation if the images are the same as in the previous pair
-            if reference_path == prev_ref_path and modified_path == prev_mod_path:
+            if (
+                reference_path == prev_ref_path
+                and modified_path == prev_mod_path
+                and same_roi
+            ):
                 self.results[str(pair_num)] = metric_results
                 warn("Skipping calculation for identical image pair.", UserWarning)
                 continue
@@ -269,16 +280,19 @@ class BatchMetrics(_MultipleInterface):
                 prev_ref_path = reference_path
                 prev_result_reference = None
             else:
-                prev_result_reference = metric_results
+                prev_result_reference = metric_results if same_roi else None
+            # The modified image is resized to the reference image
+            geometry = (reference_img.shape, reference_img.dtype)
+            same_geometry = geometry == prev_geometry
+            prev_geometry = geometry
             if modified_path != prev_mod_path:
                 modified_img = load_data(modified_path, **kwargs)
                 prev_mod_path = modified_path
                 prev_result_modified = None
             else:
-                prev_result_modified = metric_results
-
-            if self.global_roi is None and self.rois is not None:
-                roi = self.rois[pair_num]
+                prev_result_modified = (
+                    metric_results if same_roi and same_geometry else None
+                )
 
             metric_results = _calc(
                 self.metrics,
-- 
2.43.0


From d928a13a7508bab34c3241e17d31c605cb905028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 12/36] fix: normalize_data does not wrap around for integer
 images and maps the maximum to the upper bound

---
 src/viqa/utils/loading.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ba93da4..523f0af 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -850,8 +850,10 @@ def normalize_data(
         raise ValueError("Data type not supported")
 
     # Check if data is already normalized
-    if info.max is not data_range_output[1] or info.min is not data_range_output[0]:
+    if info.max != data_range_output[1] or info.min != data_range_output[0]:
         # Normalize data
+        if np.issubdtype(img.dtype, np.integer):
+            img = img.astype(np.float64)  # Avoid integer overflow
         if automatic_data_range:
             img_min = np.min(img)  # Get minimum value of numpy array
             img_max = np.max(img)  # Get maximum value of numpy array
@@ -866,8 +868,8 @@ def normalize_data(
         # Normalize numpy array
         img = (
             (img - img_min)
-            * (data_range_output[1] - data_range_output[0])
             / (img_max - img_min)
+            * (data_range_output[1] - data_range_output[0])
         ) + data_range_output[0]
 
         # Change data type
-- 
2.43.0


From f3bb834c0107efa32bdc389fdfd2a77c92db0e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 13/36] fix: crop_image crops RGB images and regions that span
 a whole axis

---
 src/viqa/utils/loading.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 523f0af..5f66d7d 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -933,23 +933,24 @@ def crop_image(
     img_shape = np.array(img.shape)
 
     if img.ndim == 2 or (img.ndim == 3 and img.shape[-1] == 3):  # If image is 2D
+        img_shape = img_shape[:2]  # Color channels are not cropped
         crop_shape = np.array((x[1] - x[0], y[1] - y[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
+        if (crop_shape == img_shape).all():  # If image is already cropped
+            warn("Image is already cropped.", RuntimeWarning)
+            img_crop = img
+        elif (crop_shape <= img_shape).all():  # If cropping fits original image
             if z is not None:
                 warn("Image is 2D. Parameter z will be ignored.", RuntimeWarning)
             img_crop = img[x[0] : x[1], y[0] : y[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
-            warn("Image is already cropped.", RuntimeWarning)
-            img_crop = img
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     elif img.ndim == 3 and z is not None:  # If image is 3D
         crop_shape = np.array((x[1] - x[0], y[1] - y[0], z[1] - z[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
-            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
+        if (crop_shape == img_shape).all():  # If image is already cropped
             warn("Image is already cropped.", RuntimeWarning)
             img_crop = img
+        elif (crop_shape <= img_shape).all():  # If cropping fits original image
+            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     else:  # If image is not 2D or 3D
-- 
2.43.0


From 90f32c7b95b3c7519e707e84458f3f2647ac3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 14/36] fix: calculate_statistics stores the histogram of
 integer images

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 5f66d7d..76e2aaf 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -218,7 +218,7 @@ class ImageArray(np.ndarray):
         self.skewness = skew(self.view(), axis=None)
         self.kurtosis = kurtosis(self.view(), axis=None)
         if self.view().dtype.kind in ["u", "i"]:
-            self.view().histogram = np.histogram(
+            self.histogram = np.histogram(
                 self.view(), bins=np.iinfo(self.view().dtype).max
             )
         else:
-- 
2.43.0


From 9c7d70f1d8d7fda2567a90af72130d111bc2bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 15/36] fix: load_mhd closes the header file and reads its last
 line without a trailing newline

---
 src/viqa/utils/loading.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 76e2aaf..8cbc5b5 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -429,13 +429,14 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
     """
     file_path = os.path.join(file_dir, file_name)  # Complete file path
 
-    f = open(file=file_path)  # Open header file
+    with open(file=file_path) as f:  # Open header file
+        file_header_txt = f.read().splitlines()  # Extract header lines
 
-    file_header_txt = f.read().split("\n")  # Extract header lines
     # Create dictionary from lines
     file_header = {
         key: value
-        for line in file_header_txt[0:-1]
+        for line in file_header_txt
+        if line.strip()
         for key, value in [line.split(" = ")]
     }
 
-- 
2.43.0


From 30c9401a68caa57ac625e10d6e9394c3af29a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 16/36] fix: transform RGB to YUV with the documented matrix

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f897d97..f59be64 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -46,7 +46,7 @@ def _rgb_to_yuv(img):
             [0.615, -0.55861, -0.05639],
         ]
     )
-    img_yuv = img @ weights
+    img_yuv = img @ weights.T
     return img_yuv
 
 
-- 
2.43.0


From 866ddc2faa67afcc812ac8bf6bc53f66efa5958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 17/36] fix: use the cubic mask of RGB images as built

---
 src/viqa/utils/misc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f59be64..f57fadd 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -622,9 +622,6 @@ def _to_cubic(img, center, radius):
             center[0] - radius : center[0] + radius,
             center[1] - radius : center[1] + radius,
         ] = 1
-
-        if img.ndim == 3:  # 2D color image
-            mask = np.repeat(mask[:, :, np.newaxis], 3, axis=2)
     elif img.ndim == 3 and img.shape[-1] > 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
-- 
2.43.0


From 752f58db0b6e7368bd21e67dbed46c2705ffbbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 18/36] fix: reject CNR and SNR regions that cross the far
 border

---
 src/viqa/nr_metrics/cnr.py | 8 ++++++++
 src/viqa/nr_metrics/snr.py | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 430095f..0d44a45 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -818,6 +818,14 @@ def contrast_to_noise_ratio(
     if img.ndim != len(signal_center) or img.ndim != len(background_center):
         raise ValueError("Centers have to be in the same dimension as img.")
 
+    # check if a center is too close to the far border
+    for region_center in (signal_center, background_center):
+        for center, size in zip(region_center, img.shape, strict=True):
+            if abs(center) + radius > size:
+                raise ValueError(
+                    "Center has to be at least the radius away from the border."
+                )
+
     # Define regions
     if region_type in {"full", "original"}:
         if not auto_center:
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 0cb812f..9ae9fb7 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1038,6 +1038,13 @@ def signal_to_noise_ratio(
         if img.ndim != len(signal_center):
             raise ValueError("Center has to be in the same dimension as img.")
 
+    # Check if the center is too close to the far border
+    for center, size in zip(signal_center, img.shape, strict=False):
+        if abs(center) + radius > size:
+            raise ValueError(
+                "Center has to be at least the radius away from the border."
+            )
+
     # Color images
     if img.ndim == 3 and (img.shape[-1] == 3):  # 2D RGB image
         if yuv:
-- 
2.43.0


From 88d6fa1045fec4bf986463227f7aeeec06d70cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 19/36] fix: compute GSM of integer images in floating point

---
 src/viqa/fr_metrics/gsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index cd37dcc..b610301 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -405,6 +405,10 @@ def gradient_similarity(img_r, img_m, data_range=255, c=200, p=0.1):
         gradient similarity. IEEE Transactions on Image Processing, 21(4), 1500–1512.
         https://doi.org/10.1109/TIP.2011.2175935
     """
+    # Compute in floating point, gradients and differences wrap around in integer types
+    img_r = _to_float(img_r)
+    img_m = _to_float(img_m)
+
     gradients_r = []
     gradients_m = []
 
-- 
2.43.0


From a9ee7b60c5b28e57c91740870f3057d545caf420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:54 +0000
Subject: [PATCH 20/36] fix: keep MAD block statistics within non-square images

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index e89af3d..6401c5d 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -77,8 +77,8 @@ static PyObject
     cout=pymatrix_to_Carrayptrs(matout);
 
     // For each area of size istride x istride, calculate the standard deviation
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u = i; u < i+iblocksize; u++) {
@@ -108,8 +108,8 @@ static PyObject
     }
 
     // Calculate minimum standard deviation for each area
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Look for minimum standard deviation in blocks of size istride x istride
             val = tmp_data[i][j];
             for (u = i; u < (iblocksize/2); u += (istride+1)) {
@@ -170,8 +170,8 @@ static PyObject
     krt_data=pymatrix_to_Carrayptrs(krtout);
 
     // For each area of size istride x istride, calculate the standard deviation, skewness and kurtosis
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u=i; u<i+iblocksize; u++) {
-- 
2.43.0


From e5c8cc89e7e96fe766c21c337347599457fb3b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 21/36] fix: compute MAD block statistics of non-contiguous
 arrays correctly

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 6401c5d..e7e0bf1 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -62,6 +62,8 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    // Work on a contiguous two-dimensional array of doubles
+    matin = (PyArrayObject *) PyArray_FROMANY((PyObject *) matin, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
     if (NULL == matin) return NULL;
     // Get dimensions of input array
     n = dims[0] = matin->dimensions[0];
@@ -132,6 +134,7 @@ static PyObject
 
     // Free memory
     free_Carrayptrs(cin);
+    Py_DECREF(matin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
 
@@ -152,6 +155,8 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    // Work on a contiguous two-dimensional array of doubles
+    matin = (PyArrayObject *) PyArray_FROMANY((PyObject *) matin, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
     if (NULL == matin) return NULL;
 
     // Get dimensions of input array
@@ -221,6 +226,7 @@ static PyObject
 
     // Free memory
     free_Carrayptrs(cin);
+    Py_DECREF(matin);
     free_Carrayptrs(stdev_data);
     free_Carrayptrs(skw_data);
     free_Carrayptrs(krt_data);
-- 
2.43.0


From 3cf8603500ecd523ad5cb2568a642d6d6e8cc2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:54 +0000
Subject: [PATCH 22/36] fix: place MAD block values by the positions the blocks
 were taken from

---
 src/viqa/fr_metrics/mad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index fcd6c6a..9934b0d 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -646,8 +646,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - STRIDE * 3, STRIDE):
-        for y in range(0, i_org.shape[1] - STRIDE * 3, STRIDE):
+    for x in range(0, i_org.shape[0] - (BLOCK_SIZE - 1), STRIDE):
+        for y in range(0, i_org.shape[1] - (BLOCK_SIZE - 1), STRIDE):
             mu_org[x : x + STRIDE, y : y + STRIDE] = mu_org_p[block_n]
             std_err[x : x + STRIDE, y : y + STRIDE] = std_err_p[block_n]
             block_n += 1
-- 
2.43.0


From 7fae29df3822f5cb7c9b79f69c16aaef4b82e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 23/36] fix: release the arrays created for MAD block
 statistics

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index e7e0bf1..d3a9ee7 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -137,6 +137,7 @@ static PyObject
     Py_DECREF(matin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
+    Py_DECREF(tmp);
 
     // Return output array
     return PyArray_Return(matout);
@@ -231,8 +232,8 @@ static PyObject
     free_Carrayptrs(skw_data);
     free_Carrayptrs(krt_data);
 
-    // Return output arrays as Python tuple
-    return PyTuple_Pack(3, stdevout, skwout, krtout);
+    // Return output arrays as Python tuple, which takes over the references
+    return Py_BuildValue("(NNN)", stdevout, skwout, krtout);
 }
 
 /*
-- 
2.43.0


From 0725876cc9e929ab3445410449bf5570133429b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:07 +0000
Subject: [PATCH 24/36] fix: raise MemoryError when MAD block statistics cannot
 allocate memory

---
 .../fr_metrics/stat_utils/statisticsmodule.c  | 42 +++++++++++++++----
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index d3a9ee7..54376bc 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -72,11 +72,26 @@ static PyObject
     // Create output arrays
     matout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
     tmp=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    if (NULL == matout || NULL == tmp) {
+        Py_XDECREF(matout);
+        Py_XDECREF(tmp);
+        Py_DECREF(matin);
+        return NULL;
+    }
 
     // Convert input and output arrays to C pointers
     tmp_data=pymatrix_to_Carrayptrs(tmp);
     cin=pymatrix_to_Carrayptrs(matin);
     cout=pymatrix_to_Carrayptrs(matout);
+    if (NULL == tmp_data || NULL == cin || NULL == cout) {
+        free_Carrayptrs(cin);
+        free_Carrayptrs(cout);
+        free_Carrayptrs(tmp_data);
+        Py_DECREF(matout);
+        Py_DECREF(tmp);
+        Py_DECREF(matin);
+        return PyErr_NoMemory();
+    }
 
     // For each area of size istride x istride, calculate the standard deviation
     for (i = 0; i < n-(iblocksize-1); i += istride) {
@@ -168,12 +183,30 @@ static PyObject
     stdevout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
     skwout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
     krtout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    if (NULL == stdevout || NULL == skwout || NULL == krtout) {
+        Py_XDECREF(stdevout);
+        Py_XDECREF(skwout);
+        Py_XDECREF(krtout);
+        Py_DECREF(matin);
+        return NULL;
+    }
 
     // Convert input and output arrays to C pointers
     cin=pymatrix_to_Carrayptrs(matin);
     stdev_data=pymatrix_to_Carrayptrs(stdevout);
     skw_data=pymatrix_to_Carrayptrs(skwout);
     krt_data=pymatrix_to_Carrayptrs(krtout);
+    if (NULL == cin || NULL == stdev_data || NULL == skw_data || NULL == krt_data) {
+        free_Carrayptrs(cin);
+        free_Carrayptrs(stdev_data);
+        free_Carrayptrs(skw_data);
+        free_Carrayptrs(krt_data);
+        Py_DECREF(stdevout);
+        Py_DECREF(skwout);
+        Py_DECREF(krtout);
+        Py_DECREF(matin);
+        return PyErr_NoMemory();
+    }
 
     // For each area of size istride x istride, calculate the standard deviation, skewness and kurtosis
     for (i = 0; i < n-(iblocksize-1); i += istride) {
@@ -251,6 +284,7 @@ double
     n = arrayin->dimensions[0];
     m = arrayin->dimensions[1];
     c = ptrvector(n);
+    if (!c) return NULL;
     a = (double *) arrayin->data; /* pointer to arrayin data as double */
     for (i = 0; i < n; i++) {
         c[i] = a + i*m;
@@ -261,13 +295,7 @@ double
 double
 **ptrvector(long n)
 {
-    double **v;
-    v = (double **)malloc((size_t) (n*sizeof(double *)));
-    if (!v) {
-        printf("In **ptrvector. Allocation of memory for double array failed.");
-        exit(0);
-    }
-    return v;
+    return (double **)malloc((size_t) (n*sizeof(double *)));
 }
 
 void
-- 
2.43.0


From a555993ce04d3b70baff175f505d4ff0b72869c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 25/36] fix: keep MAD's block size and image extents local to
 each call

---
 src/viqa/fr_metrics/mad.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 9934b0d..e76027a 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -53,12 +53,6 @@ from viqa.utils import (
     gabor_convolve,
 )
 
-# Global preinitialized variables
-M = 0
-N = 0
-BLOCK_SIZE = 0
-STRIDE = 0
-
 
 class MAD(FullReferenceMetricsInterface):
     """Class to calculate the most apparent distortion (MAD) between two images.
@@ -493,10 +487,7 @@ def most_apparent_distortion(
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
-    # Set global variables
-    global M, N
     M, N = img_r.shape
-    global BLOCK_SIZE, STRIDE
     if block_size > M or block_size > N:
         raise ValueError("block_size must be smaller than the image dimensions.")
     elif block_size > 0:
@@ -524,9 +515,11 @@ def most_apparent_distortion(
             )
 
     # Hiqh quality index
-    d_detect = _high_quality(img_r, img_m, data_range=data_range, **kwargs)
+    d_detect = _high_quality(
+        img_r, img_m, BLOCK_SIZE, STRIDE, data_range=data_range, **kwargs
+    )
     # Low quality index
-    d_appear = _low_quality(img_r, img_m, **kwargs)
+    d_appear = _low_quality(img_r, img_m, BLOCK_SIZE, STRIDE, **kwargs)
 
     # Combine single metrics with weighting
     alpha = 1 / (1 + beta_1 * d_detect**beta_2)  # weighting factor
@@ -534,7 +527,13 @@ def most_apparent_distortion(
     return mad_index
 
 
-def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
+def _high_quality(
+    img_r: np.ndarray,
+    img_m: np.ndarray,
+    BLOCK_SIZE: int = 16,
+    STRIDE: int = 4,
+    **kwargs,
+) -> float:
     """Calculate the high-quality index of MAD.
 
     Notes
@@ -569,6 +568,7 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
+    M, N = img_r.shape
     account_monitor = kwargs.pop("account_monitor", False)
     # Account for display function of monitor
     if account_monitor:
@@ -702,7 +702,13 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     return d_detect
 
 
-def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
+def _low_quality(
+    img_r: np.ndarray,
+    img_m: np.ndarray,
+    BLOCK_SIZE: int = 16,
+    STRIDE: int = 4,
+    **kwargs,
+) -> float:
     """Calculate the low-quality index of MAD.
 
     Notes
@@ -765,7 +771,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     )
 
     # Calculate statistics for each filterband
-    stats = np.zeros((M, N))
+    stats = np.zeros(img_r.shape)
     for scale_n in range(scales_num):
         for orientation_n in range(orientations_num):
             # Legacy function
-- 
2.43.0


From f587c6ed6ad55d94ad26c996bbb066b4ab43e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 26/36] fix: correct the middle rows of the diagonal GSM
 kernels

---
 src/viqa/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/kernels.py b/src/viqa/kernels.py
index ed1df80..d7f199b 100644
--- a/src/viqa/kernels.py
+++ b/src/viqa/kernels.py
@@ -395,7 +395,7 @@ def gsm_kernel_2d_xy():
         [
             [0, 0, -1, 0, 0],
             [0, 0, -3, -8, 0],
-            [-1, -3, 0, 3, 1],
+            [1, 3, 0, -3, -1],
             [0, 8, 3, 0, 0],
             [0, 0, 1, 0, 0],
         ]
@@ -408,7 +408,7 @@ def gsm_kernel_2d_yx():
         [
             [0, 0, -1, 0, 0],
             [0, -8, -3, 0, 0],
-            [1, 3, 0, -3, -1],
+            [-1, -3, 0, 3, 1],
             [0, 0, 3, 8, 0],
             [0, 0, 1, 0, 0],
         ]
-- 
2.43.0


From ca8feeed3197449f65c50b7ec1838e45370c4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 27/36] fix: center correlate_convolve_abs windows on their
 pixel

---
 src/viqa/utils/misc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f57fadd..277d950 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -124,18 +124,19 @@ def correlate_convolve_abs(
     kernel_size = kernel.shape[0]  # Get kernel size
     ndim = len(img.shape)  # Get number of dimensions
 
-    # Pad image
+    # Pad image by the reach of the kernel, so that it is centered on each pixel
+    pad_width = kernel_size // 2
     match border_mode:
         case "constant":
-            origin = np.pad(img, kernel_size, mode="constant", constant_values=value)
+            origin = np.pad(img, pad_width, mode="constant", constant_values=value)
         case "reflect":
-            origin = np.pad(img, kernel_size, mode="reflect")
+            origin = np.pad(img, pad_width, mode="reflect")
         case "nearest":
-            origin = np.pad(img, kernel_size, mode="edge")
+            origin = np.pad(img, pad_width, mode="edge")
         case "mirror":
-            origin = np.pad(img, kernel_size, mode="symmetric")
+            origin = np.pad(img, pad_width, mode="symmetric")
         case "wrap":
-            origin = np.pad(img, kernel_size, mode="wrap")
+            origin = np.pad(img, pad_width, mode="wrap")
         case _:
             raise ValueError("Border mode not supported")
 
-- 
2.43.0


From f1f530485e9a8afe1021204c14eec6f57ebe4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:00 +0000
Subject: [PATCH 28/36] fix: 2D region plots show the image in the coordinates
 of the drawn region

---
 src/viqa/utils/visualization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 6af9c00..5e2e04f 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -56,7 +56,7 @@ def _visualize_cnr_2d(
 
     fig, axs = plt.subplots(1, 2, figsize=figsize, dpi=dpi)
     fig.suptitle("Regions for CNR Calculation", y=0.92)
-    axs[0].imshow(img, cmap="gray")
+    axs[0].imshow(img.T, cmap="gray")
     axs[0].set_title("Background")
     axs[0].set_xlabel("x")
     axs[0].set_ylabel("y")
@@ -86,7 +86,7 @@ def _visualize_cnr_2d(
     if patch_1:
         axs[0].add_patch(patch_1)
 
-    axs[1].imshow(img[..., ::-1], cmap="gray")
+    axs[1].imshow(img.T, cmap="gray")
     axs[1].set_title("Signal")
     axs[1].set_xlabel("x")
     axs[1].set_ylabel("y")
@@ -372,10 +372,10 @@ def _visualize_snr_2d(
     fig, ax = plt.subplots(1, 1, figsize=figsize, dpi=dpi)
     fig.suptitle("Signal Region for SNR Calculation", y=0.92)
 
-    ax.imshow(img[..., ::-1], cmap="gray")
+    ax.imshow(img.T, cmap="gray")
 
     if region_type == "full":
-        ax.imshow(signal, cmap="viridis", alpha=0.5)
+        ax.imshow(signal.T, cmap="viridis", alpha=0.5)
 
     ax.set_xlabel("x")
     ax.set_ylabel("y")
-- 
2.43.0


From 31655680bffb3d83e580f29bb76fbad8f04113d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:00 +0000
Subject: [PATCH 29/36] fix: export plots before they are shown, showing may
 close the figure

---
 src/viqa/utils/visualization.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 5e2e04f..1efa1e7 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -116,10 +116,10 @@ def _visualize_cnr_2d(
     if patch_2:
         axs[1].add_patch(patch_2)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_cnr_3d(
@@ -333,10 +333,10 @@ def _visualize_cnr_3d(
     if patch_6:
         axs[1][2].add_patch(patch_6)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_2d(
@@ -407,10 +407,10 @@ def _visualize_snr_2d(
     if patch:
         ax.add_patch(patch)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_3d(
@@ -566,10 +566,10 @@ def _visualize_snr_3d(
     if patch_3:
         axs[2].add_patch(patch_3)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _create_slider_widget(**kwargs):
@@ -631,9 +631,9 @@ def visualize_2d(img, export_path=None, **kwargs):
     plt.xlabel("x")
     plt.ylabel("y")
     plt.gca().invert_yaxis()
-    plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
 
 
 def visualize_3d(img, slices, export_path=None, **kwargs):
@@ -711,6 +711,6 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     axs[2].axvline(x=x, color="#1b9e77", linestyle="--")
     axs[2].set_title(f"z-axis, slice: {z}", c="#7570b3")
 
-    plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
-- 
2.43.0


From e8e798b4ddd0170d69aacc85e5ab0ded587df3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:00 +0000
Subject: [PATCH 30/36] fix: CNR region plots without a region type or with the
 whole image as region

---
 src/viqa/utils/visualization.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 1efa1e7..f61e408 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -46,7 +46,7 @@ def _visualize_cnr_2d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
@@ -82,6 +82,8 @@ def _visualize_cnr_2d(
             edgecolor="#ca0020",
             facecolor="none",
         )
+    else:
+        patch_1 = None
 
     if patch_1:
         axs[0].add_patch(patch_1)
@@ -112,6 +114,8 @@ def _visualize_cnr_2d(
             edgecolor="#0571b0",
             facecolor="none",
         )
+    else:
+        patch_2 = None
 
     if patch_2:
         axs[1].add_patch(patch_2)
@@ -127,7 +131,7 @@ def _visualize_cnr_3d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
@@ -168,6 +172,8 @@ def _visualize_cnr_3d(
             edgecolor="#ffffbf",
             facecolor="none",
         )
+    else:
+        patch_1 = None
 
     if patch_1:
         axs[0][0].add_patch(patch_1)
@@ -200,6 +206,8 @@ def _visualize_cnr_3d(
             edgecolor="#ffffbf",
             facecolor="none",
         )
+    else:
+        patch_2 = None
 
     if patch_2:
         axs[0][1].add_patch(patch_2)
@@ -232,6 +240,8 @@ def _visualize_cnr_3d(
             edgecolor="#ffffbf",
             facecolor="none",
         )
+    else:
+        patch_3 = None
 
     if patch_3:
         axs[0][2].add_patch(patch_3)
@@ -265,6 +275,8 @@ def _visualize_cnr_3d(
             edgecolor="#abd9e9",
             facecolor="none",
         )
+    else:
+        patch_4 = None
 
     if patch_4:
         axs[1][0].add_patch(patch_4)
@@ -297,6 +309,8 @@ def _visualize_cnr_3d(
             edgecolor="#abd9e9",
             facecolor="none",
         )
+    else:
+        patch_5 = None
 
     if patch_5:
         axs[1][1].add_patch(patch_5)
@@ -329,6 +343,8 @@ def _visualize_cnr_3d(
             edgecolor="#abd9e9",
             facecolor="none",
         )
+    else:
+        patch_6 = None
 
     if patch_6:
         axs[1][2].add_patch(patch_6)
-- 
2.43.0


From ba780e34eb95b804b60900fd86adef5f169c9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:22 +0000
Subject: [PATCH 31/36] fix: visualize_3d rejects a slice index one past the
 end

---
 src/viqa/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index f61e408..c8f17ec 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -690,7 +690,7 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     if img.ndim != 3:
         raise ValueError("The image must be 3D.")
     if not all(
-        -img.shape[i] <= slice_ <= img.shape[i] for i, slice_ in enumerate(slices)
+        -img.shape[i] <= slice_ < img.shape[i] for i, slice_ in enumerate(slices)
     ):
         raise ValueError("The slices are out of bounds.")
 
-- 
2.43.0


From 441a47e0ebf7431b5b86e1ff9130af47be0a62c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:22 +0000
Subject: [PATCH 32/36] fix: visualize_2d accepts the RGB images
 ImageArray.visualize passes to it

---
 src/viqa/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index c8f17ec..dbe2edb 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -633,7 +633,7 @@ def visualize_2d(img, export_path=None, **kwargs):
     -------
     None
     """
-    if img.ndim != 2:
+    if img.ndim != 2 and not (img.ndim == 3 and img.shape[-1] == 3):
         raise ValueError("The image must be 2D.")
 
     figsize = kwargs.pop("figsize", (6, 6))
-- 
2.43.0


From 8199d33598584b3aa3240b2f668d6df99f7104ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:22 +0000
Subject: [PATCH 33/36] fix: SNR.visualize_centers accepts a signal mask

---
 src/viqa/nr_metrics/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 9ae9fb7..6de94e9 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -234,7 +234,7 @@ class SNR(NoReferenceMetricsInterface):
                 region_type = self.parameters["region_type"]
             except KeyError:
                 raise ValueError("No region type provided.") from None
-        if not signal:
+        if signal is None:
             try:
                 signal = self._region
             except AttributeError:
-- 
2.43.0


From c2e334bf13229f95fd8a438ac44dd51409ca3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 34/36] fix: CNR.set_centers with parameters both given and
 stored

---
 src/viqa/nr_metrics/cnr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 0d44a45..fc67b80 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -424,6 +424,9 @@ class CNR(NoReferenceMetricsInterface):
             background_start = self.parameters["background_center"]
             signal_start = self.parameters["signal_center"]
             radius_start = self.parameters["radius"]
+            # The given parameters are superseded and no plot options
+            for parameter in ("background_center", "signal_center", "radius"):
+                kwargs.pop(parameter, None)
         else:
             background_start = kwargs.pop("background_center", center_point)
             signal_start = kwargs.pop("signal_center", center_point)
-- 
2.43.0


From 6f4ea451d285d15ac5658257647c3074f2756adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 35/36] fix: reopen SNR.set_centers after a region without
 center was saved

---
 src/viqa/nr_metrics/snr.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 6de94e9..14ae33a 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -546,45 +546,50 @@ class SNR(NoReferenceMetricsInterface):
 
         center_point = tuple(val // 2 for val in img.shape)
 
+        # Parameters without a meaning for the saved region type are stored as None
+        stored = {
+            key: value for key, value in self.parameters.items() if value is not None
+        }
+
         # Check if starting parameters are provided
         if "signal_center" not in kwargs.keys():
             try:
-                signal_start = self.parameters["signal_center"]
+                signal_start = stored["signal_center"]
             except KeyError:
                 signal_start = center_point
         else:
             signal_start = kwargs.pop("signal_center")
         if "radius" not in kwargs.keys():
             try:
-                radius_start = self.parameters["radius"]
+                radius_start = stored["radius"]
             except KeyError:
                 radius_start = 1
         else:
             radius_start = kwargs.pop("radius")
         if "region_type" not in kwargs.keys():
             try:
-                region_type_start = self.parameters["region_type"]
+                region_type_start = stored["region_type"]
             except KeyError:
                 region_type_start = "cubic"
         else:
             region_type_start = kwargs.pop("region_type")
         if "iterations" not in kwargs.keys():
             try:
-                iterations_start = self.parameters["iterations"]
+                iterations_start = stored["iterations"]
             except KeyError:
                 iterations_start = 2
         else:
             iterations_start = kwargs.pop("iterations")
         if "lower_threshold" not in kwargs.keys():
             try:
-                lower_threshold_start = self.parameters["lower_threshold"]
+                lower_threshold_start = stored["lower_threshold"]
             except KeyError:
                 lower_threshold_start = 90
         else:
             lower_threshold_start = kwargs.pop("lower_threshold")
         if "upper_threshold" not in kwargs.keys():
             try:
-                upper_threshold_start = self.parameters["upper_threshold"]
+                upper_threshold_start = stored["upper_threshold"]
             except KeyError:
                 upper_threshold_start = 99
         else:
-- 
2.43.0


From 169ba5d0e06fd61d51e3d9d046fe1d64434c6f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 36/36] fix: change the radius of 2D images in SNR.set_centers

---
 src/viqa/nr_metrics/snr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 14ae33a..52e72d5 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -667,11 +667,9 @@ class SNR(NoReferenceMetricsInterface):
             slider_signal_center_x.max = img.shape[0] - (change.new + 1)
             slider_signal_center_y.min = change.new + 1
             slider_signal_center_y.max = img.shape[1] - (change.new + 1)
-            try:
+            if slider_signal_center_z is not None:
                 slider_signal_center_z.min = change.new + 1
                 slider_signal_center_z.max = img.shape[2] - (change.new + 1)
-            except NameError:
-                pass
 
         slider_radius.observe(_update_values, "value")
 
-- 
2.43.0

