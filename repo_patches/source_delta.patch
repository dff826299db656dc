From 3dc66eb61852bc5649d8508df112cc2dcc4978a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 01/30] fix: keep MAP updates from accumulating priors in
 precomputed Hessians

solve_shape_map and _solve_all_map added the prior in place to the Hessian
they were given. Project-out and inverse compositional algorithms pass their
precomputed Hessian, so every iteration of every fit changed all later fits.
---
 menpofit/aam/algorithm/lk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 5c0de21..0875b42 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -8,13 +8,13 @@ from ..result import AAMAlgorithmResult
 
 
 def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
-    if n is not H.shape[0] - m:
+    if n != H.shape[0] - m:
         # Bidirectional Compositional case
         Js_prior = np.hstack((Js_prior, Js_prior))
         p = np.hstack((p, p))
         # compute and return MAP solution
     J_prior = np.hstack((Ja_prior, Js_prior))
-    H += np.diag(J_prior)
+    H = H + np.diag(J_prior)
     Je = J_prior * np.hstack((c, p)) + J.T.dot(e)
     dq = - np.linalg.solve(H, Je)
     return dq[:m], dq[m:]
@@ -224,12 +224,12 @@ class LucasKanadeBaseInterface(object):
         params : ``(n_params, )`` `ndarray`
             The MAP solution.
         """
-        if p.shape[0] is not H.shape[0]:
+        if p.shape[0] != H.shape[0]:
             # Bidirectional Compositional case
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
         # compute and return MAP solution
-        H += np.diag(J_prior)
+        H = H + np.diag(J_prior)
         Je = J_prior * p + J.T.dot(e)
         return - np.linalg.solve(H, Je)
 
-- 
2.43.0


From 8a52551f2e8294a9119c4070a09f46caf9242c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 02/30] fix: never attach temporary landmarks to the image that
 is being fitted

A fit that failed or was interrupted while preparing the image left the
__initial_shape/__gt_shape groups on the image of the caller, and two fits
working on the same image saw each other's groups.
---
 menpofit/fitter.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 63c9bf5..8b9e2df 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -334,6 +334,9 @@ class MultiScaleNonParametricFitter(object):
         scale_transforms : `list` of `menpo.shape.Scale`
             The list of inverse scaling transforms per scale.
         """
+        # Work on a copy, so that the image of the caller is never altered (not
+        # even if the fitting fails or gets interrupted)
+        image = image.copy()
         # Attach landmarks to the image, in order to make transforms easier
         image.landmarks['__initial_shape'] = initial_shape
         if gt_shape:
@@ -402,11 +405,6 @@ class MultiScaleNonParametricFitter(object):
         else:
             gt_shapes = None
 
-        # Detach added landmarks from image
-        del image.landmarks['__initial_shape']
-        if gt_shape:
-            del image.landmarks['__gt_shape']
-
         return (images, initial_shapes, gt_shapes, affine_transforms,
                 scale_transforms)
 
-- 
2.43.0


From 87cc449b24f2e6493927fe2bc673be7959318c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 03/30] fix: reuse the affine transform of the previous scale
 when features repeat

With features (A, B, B) the last scale reused the transform of A, so that its
shapes were mapped back to the wrong image frame.
---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 8b9e2df..a30f9fa 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -376,8 +376,8 @@ class MultiScaleNonParametricFitter(object):
                     initial_shape))
             else:
                 # If features are not extracted, then the affine transform
-                # should be identical with the one of the first (lowest) level.
-                affine_transforms.append(affine_transforms[0])
+                # should be identical with the one of the previous level.
+                affine_transforms.append(affine_transforms[-1])
 
             # Rescale images according to scales
             if self.scales[i] != 1:
-- 
2.43.0


From 6bc8dcaca9a6d416d2124b3bc53707d9f2a04753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:05 +0000
Subject: [PATCH 04/30] fix: make incremental regularized regression agree with
 batch training

The Woodbury update needs I + X V X'. The code added the regularization
parameter instead of the identity (or nothing, for alpha=0).
---
 menpofit/math/regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index c75af28..3b0d237 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -73,9 +73,9 @@ class IRLRegression(object):
             X = np.hstack((X, np.ones((X.shape[0], 1))))
 
         # incremental regularized linear regression
+        # (the regularization is already part of V, see train())
         U = X.dot(self.V).dot(X.T)
-        if self.alpha:
-            np.fill_diagonal(U, self.alpha + np.diag(U))
+        np.fill_diagonal(U, 1.0 + np.diag(U))
         U = np.linalg.inv(U)
         Q = self.V.dot(X.T).dot(U).dot(X)
         self.V = self.V - Q.dot(self.V)
-- 
2.43.0


From ee36a14ce128b095e3dd10c4ad3996d1de3c5cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:05 +0000
Subject: [PATCH 05/30] fix: compare the noise type by value

Identity comparison fails for equal strings that are not interned, e.g. after
the perturbation callable went through pickle.
---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index a30f9fa..d0be912 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -70,7 +70,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
 
-    if noise_type is 'gaussian':
+    if noise_type == 'gaussian':
         s = noise_percentage[0] * (0.5 / 3) * np.random.randn(1)[0]
         r = noise_percentage[1] * (180 / 3) * np.random.randn(1)[0]
         t = noise_percentage[2] * (target.range() / 3) * np.random.randn(2)
@@ -78,7 +78,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         s = scale_about_centre(target, 1 + s)
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
-    elif noise_type is 'uniform':
+    elif noise_type == 'uniform':
         s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
-- 
2.43.0


From 24a7279b31c0dc838802961e98fd95aeb8eb3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 06/30] fix: never leave partially downloaded fitters in the
 cache

Downloads were written directly to the name under which fitters are looked up,
so a crash, a dropped connection or a concurrent call made later calls fail on
a partial file. Purging could also fail and mask the actual error.
---
 menpofit/io.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index ce4c0fc..6a781e3 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -1,6 +1,8 @@
 from __future__ import absolute_import  # or menpofit.math causes trouble!
 from math import ceil
+import os
 import sys
+import uuid
 
 try:
     from urllib2 import urlopen  # Py2
@@ -285,7 +287,12 @@ def menpofit_data_dir_path():
     """
     data_path = menpofit_src_dir_path() / 'data'
     if not data_path.exists():
-        data_path.mkdir()
+        try:
+            data_path.mkdir()
+        except OSError:
+            # Another process may have created the directory in the meantime
+            if not data_path.is_dir():
+                raise
     return data_path
 
 
@@ -390,6 +397,13 @@ def download_file(url, destination, verbose=False):
 
     req.close()
 
+    # A connection that drops early simply looks like the end of the file
+    n_expected = req.headers['content-length']
+    n_received = os.path.getsize(str(destination))
+    if n_expected is not None and n_received != int(n_expected):
+        raise IOError('Incomplete download of {}: received {} out of {} '
+                      'bytes'.format(url, n_received, n_expected))
+
 
 def load_fitter(name):
     r"""
@@ -411,7 +425,18 @@ def load_fitter(name):
         print('Downloading {} fitter'.format(name))
         url = url_of_fitter(name)
         print(url, path)
-        download_file(url, path, verbose=True)
+        # Download to a temporary file that only takes its final name once it
+        # is complete. Thus, no matter how a download ends, there is never a
+        # partial file that later (or concurrent) calls could pick up.
+        tmp_path = path.with_name('{}.{}.part'.format(path.name,
+                                                      uuid.uuid4().hex))
+        try:
+            download_file(url, tmp_path, verbose=True)
+            # os.replace is not available in Python 2
+            getattr(os, 'replace', os.rename)(str(tmp_path), str(path))
+        finally:
+            if tmp_path.exists():
+                tmp_path.unlink()
     # Load the pickle and immediately invoke it.
     try:
         return import_pickle(path)()
@@ -420,5 +445,9 @@ def load_fitter(name):
         # Purge it so next time we will redownload.
         print('Error loading fitter - purging damaged file: {}'.format(path))
         print('Please try running again')
-        path.unlink()
+        try:
+            path.unlink()
+        except OSError:
+            # The file is already gone, do not mask the original error.
+            pass
         raise e
-- 
2.43.0


From a58f5e273fccb8d35165b305d65be8fa1ded40a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 07/30] fix: count the iterations of Lucas-Kanade image
 alignment correctly

The superclass already discounts the reconstructed initial shape of every
scale, so n_iters was short by the number of scales.
---
 menpofit/lk/result.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/menpofit/lk/result.py b/menpofit/lk/result.py
index 9a8309c..274cb74 100644
--- a/menpofit/lk/result.py
+++ b/menpofit/lk/result.py
@@ -84,8 +84,6 @@ class LucasKanadeResult(MultiScaleParametricIterativeResult):
         self._homogeneous_parameters = []
         for r in results:
             self._homogeneous_parameters += r.homogeneous_parameters
-        # Correct n_iters
-        self._n_iters -= len(scales)
 
     @property
     def homogeneous_parameters(self):
-- 
2.43.0


From c5946d752592ab2db14e4dda9b9b40ed7f56b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 08/30] fix: include the reconstructed initial shape in
 parametric SDM results

All parametric results hold the reconstruction of the initial shape followed by
one shape per iteration. It was missing here, so that n_iters was off by one and
the first iteration was reported as the reconstruction of the initial shape.
---
 menpofit/sdm/algorithm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 1bb8c1d..12104b3 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -574,7 +574,7 @@ def fit_parametric_shape(image, initial_shape, parametric_algorithm,
     parametric_algorithm.shape_model.set_target(initial_shape)
     current_shape = initial_shape.from_vector(
             parametric_algorithm.shape_model.target.as_vector().copy())
-    shapes = []
+    shapes = [current_shape]
     shape_parameters = [parametric_algorithm.shape_model.as_vector()]
 
     # Cascaded Regression loop
-- 
2.43.0


From 7f2ed1fbf9887a7f42209d120b8d40bb96cf5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 09/30] fix: reconstruct the appearance of every iteration of
 every scale

appearance_reconstructions() picked the appearance parameters of the wrong
iterations from the third scale on.
---
 menpofit/aam/base.py             | 4 ++--
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 4a6046b..5142127 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -557,7 +557,7 @@ class AAM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
@@ -1250,7 +1250,7 @@ class PatchAAM(AAM):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c).pixels
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 9917a09..3699335 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -483,7 +483,7 @@ class UnifiedAAMCLM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
-- 
2.43.0


From 0c94be7a571eabb6147d995256838f6c4c15573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 10/30] fix: keep one warped template per scale when
 incrementing an ATM

Every increment (or batch) appended another set of templates, so that the new
template was ignored by the fitters.
---
 menpofit/atm/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 72cbadd..7934fa9 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -282,7 +282,10 @@ class ATM(object):
                 scale_prefix,
                 verbose,
             )
-            self.warped_templates.append(warped_template[0])
+            if not increment:
+                self.warped_templates.append(warped_template[0])
+            else:
+                self.warped_templates[j] = warped_template[0]
 
             if verbose:
                 print_dynamic("{}Done\n".format(scale_prefix))
-- 
2.43.0


From 85b3604bbf1502876d5d92b77a3be9e2a2e79072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 11/30] fix: convert dlib detections with current numpy

np.vstack does not accept generators anymore, so DlibERT could not be trained.
---
 menpofit/dlib/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 17f1356..11bcdcc 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -12,7 +12,8 @@ def pointcloud_to_dlib_parts(pcloud):
 
 
 def dlib_full_object_detection_to_pointcloud(full_object_detection):
-    return PointCloud(np.vstack(all_parts(full_object_detection)), copy=False)
+    return PointCloud(np.vstack(list(all_parts(full_object_detection))),
+                      copy=False)
 
 
 def dlib_rect_to_bounding_box(rect):
-- 
2.43.0


From 066f95b8c54cef1a4a18a7944e7e2ae1a933923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 12/30] fix: never attach temporary landmarks to the training
 images of DlibERT

Training that failed or was interrupted left the __gt_bb group behind.
---
 menpofit/dlib/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 73fa109..0a1a13c 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -264,6 +264,9 @@ class DlibERT(MultiScaleNonParametricFitter):
         # Dlib does not support incremental builds, so we must be passed a list
         if not isinstance(original_images, list):
             original_images = list(original_images)
+        # Work on copies, so that the temporary landmark groups never end up on
+        # the images of the caller (not even if the training fails)
+        original_images = [i.copy() for i in original_images]
         # We use temporary landmark groups - so we need the group key to not be
         # None
         if group is None:
-- 
2.43.0


From a39eec2e3f586eeb2e60f386bcb9be79eff7a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 13/30] fix: attach a copy of the image to the results of
 wrapped fitters

As documented for all results. The live reference made the result change with
later modifications of the image.
---
 menpofit/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index 6a781e3..103a007 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -221,7 +221,7 @@ class PickleWrappedFitter(object):
                 proc_image, trans.pseudoinverse().apply(bounding_box),
                 **final_kwargs)
             # update result attributes
-            result._image = image
+            result._image = image.copy()
             result._final_shape = trans.apply(result.final_shape)
             result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
@@ -268,7 +268,7 @@ class PickleWrappedFitter(object):
                 proc_image, trans.pseudoinverse().apply(initial_shape),
                 **final_kwargs)
             # update result attributes
-            result._image = image
+            result._image = image.copy()
             result._final_shape = trans.apply(result.final_shape)
             result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
-- 
2.43.0


From 594177b4d156205e12abeab10ecc988279469721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 14/30] fix: do not extend the noise percentage list of the
 caller in place

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index d0be912..89a2375 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -65,7 +65,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     if isinstance(noise_percentage, float):
         noise_percentage = [noise_percentage] * 3
     elif len(noise_percentage) == 1:
-        noise_percentage *= 3
+        noise_percentage = list(noise_percentage) * 3
 
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
-- 
2.43.0


From 085aa736c59b3c0dc02fe779dc82a96cf48ed0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 15/30] fix: draw uniform scale noise from the uniform
 distribution

Like the rotation and the translation. Normal draws are unbounded (and biased
by the -1), so that perturbed boxes could even be mirrored.
---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 89a2375..df09936 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -79,7 +79,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
     elif noise_type == 'uniform':
-        s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
+        s = noise_percentage[0] * 0.5 * (2 * np.random.rand(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
 
-- 
2.43.0


From b062e3ee73e363c92078496f6662fd28fd9e3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 16/30] fix: train all the scales with all the initial bounding
 boxes

The scales after the first one only used the first n_perturbations shapes,
dropping the provided boxes and the perturbations of all but the first box.
---
 menpofit/dlib/fitter.py | 2 +-
 menpofit/sdm/fitter.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 0a1a13c..8d3fe40 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -348,7 +348,7 @@ class DlibERT(MultiScaleNonParametricFitter):
                 )
                 for ii in wrap(scaled_images):
                     c_bboxes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in list(range(len(generated_bb_func(ii)))):
                         c_key = "__ert_current_bbox_{}".format(k)
                         c_bboxes.append(ii.landmarks[c_key])
                     current_bounding_boxes.append(c_bboxes)
diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 3bae879..b108f57 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -320,7 +320,7 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                                end_with_newline=False, verbose=verbose)
                 for ii in wrap(scaled_images):
                     c_shapes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in list(range(len(generated_bb_func(ii)))):
                         c_key = '__sdm_current_shape_{}'.format(k)
                         c_shapes.append(ii.landmarks[c_key])
                     current_shapes.append(c_shapes)
-- 
2.43.0


From 2f6c3669aeac25f6c6c52a9116b7edc546e2c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 17/30] fix: MAP inference of the alternating AAM algorithms

The appearance increment multiplied by the appearance basis where its
transpose is required (and vice versa), so every fit with
map_inference=True raised a ValueError.
---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 0875b42..4966748 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -1206,7 +1206,7 @@ class Alternating(LucasKanade):
         while k < max_iters and eps > self.eps:
             # solve for increment on the appearance parameters
             if map_inference:
-                Ae_m_map = - self.s2_inv_S * c + self.A_m.dot(e_m + Jdp)
+                Ae_m_map = - self.s2_inv_S * c + self.A_m.T.dot(e_m + Jdp)
                 dc = np.linalg.solve(self.AA_m_map, Ae_m_map)
             else:
                 dc = self.pinv_A_m.dot(e_m + Jdp)
@@ -1218,7 +1218,7 @@ class Alternating(LucasKanade):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m - self.A_m.T.dot(dc), self.s2_inv_L,
+                    H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
                     self.transform.as_vector())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
-- 
2.43.0


From 4331e3eab3a4b85a31ffd2a139c8df22e8e87205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 18/30] fix: normalise the images of the ECC residual with
 current menpo

Image.normalize_norm_inplace() does not exist any more, so that no fitter
could be built with, or fit with, the ECC residual.
---
 menpofit/lk/residual.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index e8ce99b..44203fb 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -4,7 +4,7 @@ import numpy as np
 from numpy.fft import fftn, ifftn, fft2
 import scipy.linalg
 
-from menpo.feature import gradient
+from menpo.feature import gradient, normalize_norm
 
 
 # TODO: Do we want residuals to support masked templates?
@@ -485,11 +485,8 @@ class ECC(Residual):
         on Pattern Analysis and Machine Intelligence, 30(10): 1858-1865, 2008.
     """
     def _normalise_images(self, image):
-        # TODO: do we need to copy the image?
         # TODO: is this supposed to be per channel normalization?
-        norm_image = image.copy()
-        norm_image.normalize_norm_inplace()
-        return norm_image
+        return normalize_norm(image)
 
     def steepest_descent_images(self, image, dW_dp, forward=None):
         r"""
-- 
2.43.0


From b6d25b328e6b1e875d6429901723304099439156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 19/30] fix: uniform probability maps for constant responses

A patch without any variance (a landmark in a flat region or outside of the
image) made CLM fits fail with an IndexError.
---
 menpofit/clm/expert/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/clm/expert/base.py b/menpofit/clm/expert/base.py
index 6864605..3760c59 100644
--- a/menpofit/clm/expert/base.py
+++ b/menpofit/clm/expert/base.py
@@ -28,8 +28,9 @@ def probability_map(x, axes=(-2, -1)):
     if np.any(~nonzero):
         warnings.warn('some of x axes have 0 variance - uniform probability '
                       'maps are used them.')
-        x[nonzero] /= total[nonzero]
-        x[~nonzero] = 1 / np.prod(axes)
+        n_elements = np.prod(np.take(x.shape, axes)) if axes else x.size
+        x = np.where(nonzero, x / np.where(nonzero, total, 1),
+                     1. / n_elements)
     else:
         x /= total
     return x
-- 
2.43.0


From 9e146b6c84b21ffbfdc917fadc890e36b6490823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 20/30] fix: let wrapped fitters handle results without an
 initial shape

Wrapped DlibERT fitters always raised a TypeError if the image is
pre-processed (the default).
---
 menpofit/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index 103a007..bbed32a 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -223,7 +223,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = image.copy()
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
@@ -270,7 +271,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = image.copy()
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
-- 
2.43.0


From 155ddd79444357845fbd234a08afbff725cc3e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 21/30] fix: train on batches that hold a single shape

---
 menpofit/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/builder.py b/menpofit/builder.py
index 72f967a..b34358c 100644
--- a/menpofit/builder.py
+++ b/menpofit/builder.py
@@ -421,6 +421,9 @@ def align_shapes(shapes):
     """
     # centralize shapes
     centered_shapes = [Translation(-s.centre()).apply(s) for s in shapes]
+    if len(centered_shapes) == 1:
+        # There is nothing to align a single shape with (e.g. the last batch)
+        return centered_shapes
     # align centralized shape using Procrustes Analysis
     gpa = GeneralizedProcrustesAnalysis(centered_shapes)
     return [s.aligned_source() for s in gpa.transforms]
-- 
2.43.0


From 856dcf30b10acbd5af629329d949b6f2d2594c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 22/30] fix: increment every scale of a linear model in its own
 reference frame

---
 menpofit/aam/base.py | 22 ++++++++++++++--------
 menpofit/atm/base.py | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 5142127..83fde28 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -781,6 +781,8 @@ class LinearAAM(AAM):
         verbose=False,
         batch_size=None,
     ):
+        # The dense reference frame of every scale
+        self.reference_frames = []
         super(LinearAAM, self).__init__(
             images,
             group=group,
@@ -807,8 +809,9 @@ class LinearAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        reference_frame = build_reference_frame(mean_aligned_shape)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -817,7 +820,7 @@ class LinearAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -832,7 +835,7 @@ class LinearAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -958,6 +961,8 @@ class LinearMaskedAAM(AAM):
         # Check arguments
         n_scales = len(checks.check_scales(scales))
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
+        # The dense reference frame of every scale
+        self.reference_frames = []
         # Call superclass
         super(LinearMaskedAAM, self).__init__(
             images,
@@ -985,10 +990,11 @@ class LinearMaskedAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
+        reference_frame = build_patch_reference_frame(
             mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -996,7 +1002,7 @@ class LinearMaskedAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -1011,7 +1017,7 @@ class LinearMaskedAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 7934fa9..981a2d6 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -663,6 +663,8 @@ class LinearATM(ATM):
         verbose=False,
         batch_size=None,
     ):
+        # The dense reference frame of every scale
+        self.reference_frames = []
         super(LinearATM, self).__init__(
             template,
             shapes,
@@ -688,8 +690,9 @@ class LinearATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        reference_frame = build_reference_frame(mean_aligned_shape)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -698,7 +701,7 @@ class LinearATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -714,7 +717,7 @@ class LinearATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -825,6 +828,8 @@ class LinearMaskedATM(ATM):
     ):
         # Check arguments
         self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        # The dense reference frame of every scale
+        self.reference_frames = []
         # Call superclass
         super(LinearMaskedATM, self).__init__(
             template,
@@ -851,10 +856,11 @@ class LinearMaskedATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
+        reference_frame = build_patch_reference_frame(
             mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -862,7 +868,7 @@ class LinearMaskedATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -878,7 +884,7 @@ class LinearMaskedATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
-- 
2.43.0


From b85b12db3b0e264c2b7eb9e1b8d9edcb0e3d872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 23/30] fix: start new fitters from the mean shape of a model
 that was used before

Fitters use the shape models of the model that they are built from as their
state. Inverse compositional, project-out, CLM and APS algorithms evaluate
Jacobians when they are built, so a fitter that was built after another one of
the same model had been trained or used fitted differently.
---
 menpofit/aam/fitter.py             |  3 +++
 menpofit/aps/fitter.py             |  2 ++
 menpofit/atm/fitter.py             |  2 ++
 menpofit/clm/fitter.py             |  2 ++
 menpofit/modelinstance.py          | 16 ++++++++++++++++
 menpofit/unified_aam_clm/fitter.py |  2 ++
 6 files changed, 27 insertions(+)

diff --git a/menpofit/aam/fitter.py b/menpofit/aam/fitter.py
index 13e636a..77d3adb 100644
--- a/menpofit/aam/fitter.py
+++ b/menpofit/aam/fitter.py
@@ -10,6 +10,7 @@ from menpofit.fitter import (MultiScaleParametricFitter,
 from menpofit.sdm import SupervisedDescentFitter
 import menpofit.checks as checks
 from menpofit.result import MultiScaleParametricIterativeResult
+from menpofit.modelinstance import reset_shape_models
 
 from .algorithm.lk import WibergInverseCompositional
 from .algorithm.sd import ProjectOutNewton
@@ -146,6 +147,7 @@ class LucasKanadeAAMFitter(AAMFitter):
                  n_shape=None, n_appearance=None, sampling=None):
         # Check parameters
         checks.set_models_components(aam.shape_models, n_shape)
+        reset_shape_models(aam.shape_models)
         checks.set_models_components(aam.appearance_models, n_appearance)
         self._sampling = checks.check_sampling(sampling, aam.n_scales)
 
@@ -315,6 +317,7 @@ class SupervisedDescentAAMFitter(SupervisedDescentFitter):
         self.aam = aam
         # Check parameters
         checks.set_models_components(aam.shape_models, n_shape)
+        reset_shape_models(aam.shape_models)
         checks.set_models_components(aam.appearance_models, n_appearance)
         self._sampling = checks.check_sampling(sampling, aam.n_scales)
 
diff --git a/menpofit/aps/fitter.py b/menpofit/aps/fitter.py
index 4e5c4db..e4605cb 100644
--- a/menpofit/aps/fitter.py
+++ b/menpofit/aps/fitter.py
@@ -1,5 +1,6 @@
 from menpofit.fitter import MultiScaleParametricFitter
 import menpofit.checks as checks
+from menpofit.modelinstance import reset_shape_models
 
 from .result import APSResult
 from .algorithm.gn import GaussNewtonBaseInterface, Inverse
@@ -144,6 +145,7 @@ class GaussNewtonAPSFitter(APSFitter):
                  weight=200., sampling=None):
         # Check parameters
         checks.set_models_components(aps.shape_models, n_shape)
+        reset_shape_models(aps.shape_models)
         self._sampling = checks.check_sampling(sampling, aps.n_scales)
         self.weight = checks.check_multi_scale_param(
             aps.n_scales, (float, int), 'weight', weight)
diff --git a/menpofit/atm/fitter.py b/menpofit/atm/fitter.py
index 679565b..e1ead5f 100644
--- a/menpofit/atm/fitter.py
+++ b/menpofit/atm/fitter.py
@@ -1,5 +1,6 @@
 from menpofit import checks
 from menpofit.fitter import MultiScaleParametricFitter
+from menpofit.modelinstance import reset_shape_models
 
 from .algorithm import InverseCompositional
 
@@ -46,6 +47,7 @@ class LucasKanadeATMFitter(MultiScaleParametricFitter):
 
         # Check parameters
         checks.set_models_components(atm.shape_models, n_shape)
+        reset_shape_models(atm.shape_models)
         self._sampling = checks.check_sampling(sampling, atm.n_scales)
 
         # Get list of algorithm objects per scale
diff --git a/menpofit/clm/fitter.py b/menpofit/clm/fitter.py
index c686a70..359bb30 100644
--- a/menpofit/clm/fitter.py
+++ b/menpofit/clm/fitter.py
@@ -1,5 +1,6 @@
 from menpofit.fitter import MultiScaleParametricFitter
 from menpofit import checks
+from menpofit.modelinstance import reset_shape_models
 
 from .algorithm import RegularisedLandmarkMeanShift
 
@@ -76,6 +77,7 @@ class GradientDescentCLMFitter(CLMFitter):
 
         # Check parameter
         checks.set_models_components(clm.shape_models, n_shape)
+        reset_shape_models(clm.shape_models)
 
         # Get list of algorithm objects per scale
         algorithms = [gd_algorithm_cls(clm.expert_ensembles[i],
diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 4f2300a..c1fe35f 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -423,6 +423,22 @@ class PDM(ModelInstance):
         return str_out
 
 
+def reset_shape_models(shape_models):
+    r"""
+    Set the state of a list of point distribution models back to their mean
+    shape. A fitter uses the shape models of the model that it is built from as
+    its state and evaluates Jacobians when it is built, so they must not start
+    from what another fitter left behind.
+
+    Parameters
+    ----------
+    shape_models : `list` of :map:`PDM` or subclass
+        The shape models of all scales.
+    """
+    for shape_model in shape_models:
+        shape_model.set_target(shape_model.model.mean())
+
+
 class GlobalPDM(PDM):
     r"""
     Class for building a Point Distribution Model that also stores a Global
diff --git a/menpofit/unified_aam_clm/fitter.py b/menpofit/unified_aam_clm/fitter.py
index d83de4e..3a6b276 100644
--- a/menpofit/unified_aam_clm/fitter.py
+++ b/menpofit/unified_aam_clm/fitter.py
@@ -1,6 +1,7 @@
 from menpo.base import name_of_callable
 from menpofit import checks
 from menpofit.fitter import MultiScaleParametricFitter
+from menpofit.modelinstance import reset_shape_models
 
 from .algorithm import AlternatingRegularisedLandmarkMeanShift
 from .result import UnifiedAAMCLMResult
@@ -64,6 +65,7 @@ class UnifiedAAMCLMFitter(MultiScaleParametricFitter):
         self._model = unified_aam_clm
         # Check parameters
         checks.set_models_components(self._model.shape_models, n_shape)
+        reset_shape_models(self._model.shape_models)
         checks.set_models_components(self._model.appearance_models,
                                      n_appearance)
         self._sampling = checks.check_sampling(sampling, self._model.n_scales)
-- 
2.43.0


From fb2b86d992482f0a006b8f2e79debba8940471bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 24/30] fix: train with the right estimates when the features
 change between scales

The estimates of a scale whose holistic features rescale the images were
attached to the training images without undoing that rescaling, so that the
next scale was trained from misplaced shapes.
---
 menpofit/sdm/fitter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index b108f57..d117fa3 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -5,6 +5,7 @@ import warnings
 
 from menpo.feature import no_op
 from menpo.base import name_of_callable
+from menpo.transform import AlignmentAffine
 
 from menpofit.visualize import print_progress
 from menpofit.base import batch
@@ -343,12 +344,17 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
             if j < (self.n_scales - 1):
                 if self.holistic_features[j + 1] != self.holistic_features[j]:
                     # Features will be extracted, thus attach current_shapes on
-                    # the training images (image_batch)
+                    # the training images (image_batch). Note that the features
+                    # may have rescaled the images.
                     for jj, image_shapes in enumerate(current_shapes):
+                        features_transform = AlignmentAffine(
+                            feature_images[jj].landmarks[group],
+                            image_batch[jj].landmarks[group])
                         for k, shape in enumerate(image_shapes):
                             c_key = '__sdm_current_shape_{}'.format(k)
                             image_batch[jj].landmarks[c_key] = \
-                                scale_transforms[jj].apply(shape)
+                                features_transform.apply(
+                                    scale_transforms[jj].apply(shape))
                 else:
                     # Features won't be extracted;. the same feature_images will
                     # be used for the next scale, thus attach current_shapes on
-- 
2.43.0


From ee54eb88efe4a85f1a8b9590751356f0685a8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 25/30] fix: align from the updated mean after a shape model
 was incremented

The global transform of a GlobalPDM or OrthoPDM kept the mean of the first
batch as its source, so that parameters and shapes of an incremented model
no longer matched.
---
 menpofit/modelinstance.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index c1fe35f..74915d2 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -404,9 +404,17 @@ class PDM(ModelInstance):
                              verbose=verbose)
         if max_n_components is not None:
             self.model.trim_components(max_n_components)
+        self._sync_with_incremented_model()
         # Reset the target given the new model
         self.set_target(old_target)
 
+    def _sync_with_incremented_model(self):
+        r"""
+        Hook that allows for updating whatever was derived from the mean of the
+        model, which changes when the model is incremented.
+        """
+        pass
+
     def __str__(self):
         str_out = 'Point Distribution Model \n' \
                   ' - centred:              {}\n' \
@@ -467,6 +475,11 @@ class GlobalPDM(PDM):
         mean = self.model.mean()
         self.global_transform = global_transform_cls(mean, mean)
 
+    def _sync_with_incremented_model(self):
+        # The global transform aligns the mean shape, which has changed
+        mean = self.model.mean()
+        self.global_transform = type(self.global_transform)(mean, mean)
+
     @property
     def n_global_parameters(self):
         r"""
@@ -703,6 +716,7 @@ class OrthoPDM(GlobalPDM):
                              verbose=verbose)
         if max_n_components is not None:
             self.model.trim_components(max_n_components)
+        self._sync_with_incremented_model()
         # Re-orthonormalize
         self._construct_similarity_model()
         # Reset the target given the new models
-- 
2.43.0


From 7ce72912215706cc2f42a160be69337383a2a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 26/30] fix: weigh all samples equally when correlation filters
 are incremented

The auto and cross correlations are sums over the samples (mosse, mccf), but
imosse and imccf combined them as if they were means, and so weighted old and
new samples differently even with a forgetting factor of 1.
---
 menpofit/math/correlationfilter.py | 34 +++++++++---------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index 2b80d9e..6b41db1 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -148,15 +148,6 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -182,9 +173,11 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
         sXX += fft_ext_x.conj() * fft_ext_x
         sXY += fft_ext_x.conj() * fft_ext_y
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices; these are
+    # sums over all their samples, hence only the forgetting factor is needed
+    # to weight the old samples against the new ones
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # compute desired correlation filter
     fft_ext_f = sXY / (sXX + l)
     # reshape extended filter to extended image shape
@@ -354,15 +347,6 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -396,9 +380,11 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
         sXX += diag_fft_x.conj().T.dot(diag_fft_x)
         sXY += diag_fft_x.conj().T.dot(diag_fft_y)
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices; these are
+    # sums over all their samples, hence only the forgetting factor is needed
+    # to weight the old samples against the new ones
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # solve ext_d independent k x k linear systems (with regularization)
     # to obtain desired extended multi-channel correlation filter
     fft_ext_f = spsolve(sXX + l * speye(sXX.shape[-1]), sXY)
-- 
2.43.0


From 3e05f768b9e8dfccfa33d93a5989f617b199c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 27/30] fix: crop arrays without a margin

With a margin of zero the slices became empty, so that CLMs with patches of
less than six pixels predicted empty responses and could not be fitted.
---
 menpofit/math/fft_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 187d89b..75f5264 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -67,8 +67,8 @@ def crop(pixels, shape):
     w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
 
     return pixels[...,
-                  h_margin + h_corrector:-h_margin,
-                  w_margin + w_corrector:-w_margin]
+                  h_margin + h_corrector:h - h_margin,
+                  w_margin + w_corrector:w - w_margin]
 
 
 # TODO: Document me!
-- 
2.43.0


From 1ddd9c8e6544558ca46f96c197931bb0192084e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 28/30] fix: accept options per scale on current Python
 versions

collections.Iterable was removed in Python 3.10, so that lists of options per
scale (weights of APS fitters, numeric options of DlibERT) raised an
AttributeError.
---
 menpofit/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 96c944b..0f2329f 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -1,5 +1,5 @@
 import warnings
-import collections
+import collections.abc
 from functools import partial
 import numpy as np
 
@@ -151,7 +151,7 @@ def check_multi_scale_param(n_scales, types, param_name, param):
     # Could be a single value - or we have an error
     if isinstance(param, types):
         return [param] * n_scales
-    elif not isinstance(param, collections.Iterable):
+    elif not isinstance(param, collections.abc.Iterable):
         raise ValueError(error_msg)
 
     # Must be an iterable object
-- 
2.43.0


From d3c82d1b189ad87c2e6dc547dc3359a595c39e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:05 +0000
Subject: [PATCH 29/30] fix: similarity alignments keep their target up to date
 when composed in place

---
 menpofit/transform/homogeneous.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/menpofit/transform/homogeneous.py b/menpofit/transform/homogeneous.py
index 9396202..77d314f 100644
--- a/menpofit/transform/homogeneous.py
+++ b/menpofit/transform/homogeneous.py
@@ -185,6 +185,16 @@ class DifferentiableAlignmentSimilarity(AlignmentSimilarity, DP, DX):
         """
         return DifferentiableSimilarity(self.h_matrix, skip_checks=True)
 
+    def _compose_after_inplace(self, transform):
+        AlignmentSimilarity._compose_after_inplace(self, transform)
+        # keep the target in agreement with the new state
+        self._sync_target_from_state()
+
+    def _compose_before_inplace(self, transform):
+        AlignmentSimilarity._compose_before_inplace(self, transform)
+        # keep the target in agreement with the new state
+        self._sync_target_from_state()
+
     def d_dp(self, points):
         r"""
         The derivative with respect to the parametrisation changes evaluated at
-- 
2.43.0


From bd530dad5b3804626204d3097b4b743b03704400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:50 +0000
Subject: [PATCH 30/30] fix: trained models keep their own copies of the
 reference shape and the options

---
 menpofit/aam/base.py            | 2 ++
 menpofit/aps/base.py            | 2 ++
 menpofit/atm/base.py            | 2 ++
 menpofit/checks.py              | 6 +++---
 menpofit/clm/base.py            | 2 ++
 menpofit/clm/expert/ensemble.py | 2 ++
 menpofit/dlib/fitter.py         | 3 +++
 menpofit/sdm/fitter.py          | 3 +++
 8 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 83fde28..90fff3f 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -155,6 +155,8 @@ class AAM(object):
         self.scales = scales
         self.max_shape_components = max_shape_components
         self.max_appearance_components = max_appearance_components
+        if reference_shape is not None:
+            reference_shape = reference_shape.copy()
         self.reference_shape = reference_shape
         self._shape_model_cls = shape_model_cls
         self.shape_models = []
diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index 5e47dc5..79a712b 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -172,6 +172,8 @@ class GenerativeAPS(object):
         self.holistic_features = holistic_features
         self.patch_shape = patch_shape
         self.patch_normalisation = patch_normalisation
+        if reference_shape is not None:
+            reference_shape = reference_shape.copy()
         self.reference_shape = reference_shape
         self.use_procrustes = use_procrustes
         self.is_incremental = can_be_incremented
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 981a2d6..6d381de 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -132,6 +132,8 @@ class ATM(object):
         self.diagonal = diagonal
         self.scales = scales
         self.max_shape_components = max_shape_components
+        if reference_shape is not None:
+            reference_shape = reference_shape.copy()
         self.reference_shape = reference_shape
         self.shape_models = []
         self.warped_templates = []
diff --git a/menpofit/checks.py b/menpofit/checks.py
index 0f2329f..f6570c9 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -224,7 +224,7 @@ def check_patch_shape(patch_shape, n_scales):
         int/float with the same length as the number of scales
     """
     if len(patch_shape) == 2 and isinstance(patch_shape[0], int):
-        return [patch_shape] * n_scales
+        return [patch_shape[:] for _ in range(n_scales)]
     elif len(patch_shape) == 1:
         return check_patch_shape(patch_shape[0], 1)
     elif len(patch_shape) == n_scales:
@@ -271,7 +271,7 @@ def check_max_components(max_components, n_scales, var_name):
     elif len(max_components) == 1:
         max_components_list = [max_components[0]] * n_scales
     elif len(max_components) == n_scales:
-        max_components_list = max_components
+        max_components_list = list(max_components)
     else:
         raise ValueError(str_error)
     for comp in max_components_list:
@@ -315,7 +315,7 @@ def check_max_iters(max_iters, n_scales):
         raise ValueError('max_iters can be integer, integer list '
                          'containing 1 or {} elements or '
                          'None'.format(n_scales))
-    return np.require(max_iters, dtype=np.int64)
+    return np.array(max_iters, dtype=np.int64)
 
 
 def check_sampling(sampling, n_scales):
diff --git a/menpofit/clm/base.py b/menpofit/clm/base.py
index dab51f4..245e593 100644
--- a/menpofit/clm/base.py
+++ b/menpofit/clm/base.py
@@ -134,6 +134,8 @@ class CLM(object):
         self.max_shape_components = checks.check_max_components(
             max_shape_components, n_scales, "max_shape_components"
         )
+        if reference_shape is not None:
+            reference_shape = reference_shape.copy()
         self.reference_shape = reference_shape
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         self.patch_normalisation = patch_normalisation
diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index c19f058..cff5aa1 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -297,6 +297,8 @@ class CorrelationFilterExpertEnsemble(ConvolutionBasedExpertEnsemble):
         self.response_covariance = response_covariance
         self.patch_normalisation = patch_normalisation
         self.cosine_mask = cosine_mask
+        if sample_offsets is not None:
+            sample_offsets = np.array(sample_offsets)
         self.sample_offsets = sample_offsets
 
         # Generate cosine mask
diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 8d3fe40..b329d5d 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -160,6 +160,9 @@ class DlibERT(MultiScaleNonParametricFitter):
         # Dummy option that is required by _prepare_image of MultiFitter.
         holistic_features = checks.check_callable(no_op, n_scales)
 
+        if reference_shape is not None:
+            reference_shape = reference_shape.copy()
+
         # Call superclass
         super(DlibERT, self).__init__(
             scales=scales,
diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index d117fa3..3f8436c 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -166,6 +166,9 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
         holistic_features = checks.check_callable(holistic_features, n_scales)
         patch_shape = checks.check_patch_shape(patch_shape, n_scales)
 
+        if reference_shape is not None:
+            reference_shape = reference_shape.copy()
+
         # Call superclass
         super(SupervisedDescentFitter, self).__init__(
             scales=scales, reference_shape=reference_shape,
-- 
2.43.0

