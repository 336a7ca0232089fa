From 90bd3ac56a02b3dba7e30f3d208d11e83fcc51e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:34 +0000
Subject: [PATCH 01/30] fix: unwarp_chunk_slices_backward rejected
 stop_index=-1

The stop index is inclusive, so -1 must select the last row (height - 1).
---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index e86f39a..23e58fd 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -283,7 +283,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     (depth, height, width) = mat3D.shape
     index_list = np.arange(height, dtype=np.int16)
     if stop_index == -1:
-        stop_index = height
+        stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-- 
2.43.0


From 38dc4bac4ca2ab644bc989d7961386ca3f074267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:34 +0000
Subject: [PATCH 02/30] fix: 16-bit row indices overflow when unwarping slices
 of tall data

Rows beyond 32767 wrapped around: wrong slices were returned, or valid
indices were rejected.
---
 discorpy/post/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 23e58fd..97bddf5 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -218,8 +218,8 @@ def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = np.intp(np.floor(np.amin(yd_list)))
+    yd_max = np.intp(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     sino = np.zeros((depth, width), dtype=np.float32)
     indices = yd_list, xd_list
@@ -281,7 +281,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (len(mat3D.shape) < 3):
         raise ValueError("Input must be a 3D data")
     (depth, height, width) = mat3D.shape
-    index_list = np.arange(height, dtype=np.int16)
+    index_list = np.arange(height)
     if stop_index == -1:
         stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
@@ -297,8 +297,8 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     flist = np.sum(np.asarray(
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2))) + 1
+    yd_min = np.intp(np.floor(np.amin(yd_list1)))
+    yd_max = np.intp(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index + 1) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
-- 
2.43.0


From 6bd05bdcc1a01b26f2d4e266eb338df3e71ca9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:34 +0000
Subject: [PATCH 03/30] fix: unwarped lines were truncated to integers for
 integer input

---
 discorpy/post/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 97bddf5..46f7bb6 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -52,7 +52,7 @@ def unwarp_line_forward(list_lines, xcenter, ycenter, list_fact):
     list_ulines = []
     list_expo = np.arange(len(list_fact), dtype=np.int16)
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
@@ -89,7 +89,7 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
     """
     list_ulines = []
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
-- 
2.43.0


From c98fb2824145bfe7bf9d0d113c930c3a78b7b8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:34 +0000
Subject: [PATCH 04/30] fix: unwarp_video_cv2 never returned at the end of the
 stream

---
 discorpy/util/utility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discorpy/util/utility.py b/discorpy/util/utility.py
index 2a59ce3..9662e2e 100644
--- a/discorpy/util/utility.py
+++ b/discorpy/util/utility.py
@@ -510,5 +510,7 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
             c = cv2.waitKey(1)
             if c == 27:
                 break
+        else:
+            break
     cam_obj.release()
     cv2.destroyAllWindows()
-- 
2.43.0


From 36e9b20b6e4346b82b0ad25a3dcba9ade49851dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:40 +0000
Subject: [PATCH 05/30] fix: background normalization returned nan/inf where
 the background is zero

Numpy never raises ZeroDivisionError, so the replacement of zero background
values by the mean was dead code.
---
 discorpy/prep/preprocessing.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 5587641..6d28446 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -65,11 +65,8 @@ def normalization(mat, size=51):
     """
     mat_bck = ndi.median_filter(mat, size, mode="reflect")
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
@@ -150,11 +147,8 @@ def normalization_fft(mat, sigma=10, pad=100, mode='reflect'):
     """
     mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode)
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
-- 
2.43.0


From fa69cbd326ca4f07ad01c57b5f66de1b028efd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:47 +0000
Subject: [PATCH 06/30] fix: remove_points_using_parabola_mask failed for
 points outside the image

---
 discorpy/prep/preprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 6d28446..ee6f8e1 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -953,7 +953,8 @@ def remove_points_using_parabola_mask(points, height, width, hor_curviness=0.3,
     y_cors, x_cors = np.int32(points[:, 0]), np.int32(points[:, 1])
     valid_indices = ((y_cors >= 0) & (y_cors < height) &
                      (x_cors >= 0) & (x_cors < width) &
-                     (mask[y_cors, x_cors] == 1.0))
+                     (mask[np.clip(y_cors, 0, height - 1),
+                           np.clip(x_cors, 0, width - 1)] == 1.0))
     return points[valid_indices]
 
 
-- 
2.43.0


From ee2ecf81ec6dcd3f664df4f21334f8036e7a3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:56 +0000
Subject: [PATCH 07/30] fix: line grouping dropped lines with exactly the
 accepted number of dots

The accepted ratio is documented as 'equal to or larger than'; with
accepted_ratio=1.0 every line was dropped.
---
 discorpy/prep/preprocessing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index ee6f8e1..2ae0da3 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -655,8 +655,8 @@ def group_dots_hor_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
         if len(dots_selected) > 1:
             list_lines.append(dots_selected)
     list_len = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 0]))
     return lines_selected
@@ -727,8 +727,8 @@ def group_dots_ver_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
             dots_selected = np.fliplr(dots_selected)  # Swap back
             list_lines.append(dots_selected)
     list_length = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_length))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_length)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 1]))
     return lines_selected
@@ -1207,8 +1207,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 1].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     y_vals = [np.median(line[:, 0]) for line in lines_selected]
     ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
@@ -1385,8 +1385,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 0].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     x_vals = [np.median(line[:, 1]) for line in lines_selected]
     ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
-- 
2.43.0


From 45e2b6867efaf487e286f8cf230dc5200f5bd032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:04 +0000
Subject: [PATCH 08/30] fix: polyfit-based grouping reused the points of the
 previous group

A starting group of two points or less appended the previous line again,
rotated twice, or the whole set of points in the search window.
---
 discorpy/prep/preprocessing.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 2ae0da3..f02db31 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1200,7 +1200,6 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points, points, x_left, x_right, search_dist,
                         residual=residual, overlap_ratio=overlap_ratio,
                         order=order)
-                if len(selected_points) > 2:
                     selected_points = rotate_points(selected_points, -angle,
                                                     degree_unit=False)
                     selected_points = selected_points[
@@ -1378,7 +1377,6 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                     selected_points = _get_nearby_ver_points_iter(
                         selected_points, points, y_left, y_right, search_dist,
                         residual, overlap_ratio=overlap_ratio, order=order)
-                if len(selected_points) > 2:
                     selected_points = rotate_points(selected_points, -angle,
                                                     degree_unit=False)
                     selected_points = selected_points[
-- 
2.43.0


From 2a75167ac9e53c44abfe3c2f9635248a6d4e9e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 09/30] fix: dot selection mixed up dots with overlapping
 bounding boxes

Each dot is now measured and copied on its own, not together with the parts
of its neighbours inside its bounding box.
---
 discorpy/prep/preprocessing.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index f02db31..29f0fe9 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -346,11 +346,11 @@ def select_dots_based_size(mat, dot_size, ratio=0.3):
     max_size = dot_size + ratio * dot_size
     mat_label, _ = ndi.label(np.int16(mat))
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat, dtype=np.int16)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        mask = mat_label[j] == i + 1
+        if _check_dot_size(mat[j][mask], min_size, max_size):
+            mat1[j][mask] = mat[j][mask]
     return mat1
 
 
@@ -405,11 +405,11 @@ def select_dots_based_ratio(mat, ratio=0.3):
     mat = np.int16(mat)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_axes_ratio(mat[dot], ratio)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        mask = mat_label[j] == i + 1
+        if _check_axes_ratio(np.int16(mask), ratio):
+            mat1[j][mask] = mat[j][mask]
     return mat1
 
 
@@ -447,7 +447,8 @@ def select_dots_based_distance(mat, dot_dist, ratio=0.3):
         num = dist // dot_dist
         dist_error = (dist - num * dot_dist) / dot_dist
         if any(dist_error < ratio):
-            mat1[j] = mat[j]
+            mask = mat_label[j] == i + 1
+            mat1[j][mask] = mat[j][mask]
     return mat1
 
 
-- 
2.43.0


From 5d758b998a479f00a58e1b35586de5a8f0dbb6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:40 +0000
Subject: [PATCH 10/30] fix: get_tilted_profile overflows for images larger
 than 32767 pixels

---
 discorpy/prep/linepattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 18636f7..053c1ed 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -548,8 +548,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
         ylist = np.clip(index + ylist, 0, height - 1)
-        ymin = np.int16(np.floor(np.amin(ylist)))
-        ymax = np.int16(np.ceil(np.amax(ylist))) + 1
+        ymin = np.intp(np.floor(np.amin(ylist)))
+        ymax = np.intp(np.ceil(np.amax(ylist))) + 1
         indices = ylist - ymin, xlist
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
@@ -559,8 +559,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
         ylist = np.clip(ylist, 0, height - 1)
-        xmin = np.int16(np.floor(np.amin(xlist)))
-        xmax = np.int16(np.ceil(np.amax(xlist))) + 1
+        xmin = np.intp(np.floor(np.amin(xlist)))
+        xmax = np.intp(np.ceil(np.amax(xlist))) + 1
         indices = ylist, xlist - xmin
         profile = ndi.map_coordinates(mat[:, xmin:xmax], indices, order=3,
                                       mode='nearest')
-- 
2.43.0


From 4775bb0aaaf665d62d06764b85cf01f209abae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:48 +0000
Subject: [PATCH 11/30] fix: sliding_window_slope truncated slopes to integers
 for integer data

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 053c1ed..5f682ac 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -180,7 +180,7 @@ def sliding_window_slope(list_data, size=3, norm=True):
     radius = size // 2
     padded_data = np.pad(list_data, (radius, radius), 'edge')
     x_list = np.arange(size)
-    slopes = np.zeros_like(list_data)
+    slopes = np.zeros_like(list_data, dtype=np.float64)
     for i in range(len(list_data)):
         local_data = padded_data[i:i + size]
         slopes[i] = np.polyfit(x_list, local_data, 1)[0]
-- 
2.43.0


From dfd65cbf74ca708dfed8e132692a8a257251d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:33 +0000
Subject: [PATCH 12/30] fix: load_hdf_file failed, or lost a dimension, for
 some selections

Selecting one slice of a dataset having another dimension of size 1 returned
a 1D array (or raised IndexError); selecting a one-element range along axis 2
raised IndexError.
---
 discorpy/losa/loadersaver.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 21c70a5..3d226d8 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -298,7 +298,6 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, index, :])
                     else:
                         mat = np.float32(idata[:, :, index])
-                    axis = np.clip(axis, 0, 1)
                 except IndexError:
                     raise
             if isinstance(index, tuple) or isinstance(index, list):
@@ -322,10 +321,10 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, :, list_index])
                 except IndexError:
                     raise
-            if mat.shape[axis] == 1:
-                mat = np.swapaxes(mat, axis, 0)[0]
-            if mat.shape[axis] == 0:
-                raise ValueError("Empty indices!")
+                if mat.shape[axis] == 0:
+                    raise ValueError("Empty indices!")
+                if mat.shape[axis] == 1:
+                    mat = np.squeeze(mat, axis=axis)
     return mat
 
 
-- 
2.43.0


From dba51e353aea7efb3dd5d0872dd348a17cc128aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 13/30] fix: save_image overflowed when rescaling signed
 integer images

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 3d226d8..5810597 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -429,7 +429,7 @@ def save_image(file_path, mat, overwrite=True):
     file_ext = file_path.suffix
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
-            nmin, nmax = np.min(mat), np.max(mat)
+            nmin, nmax = float(np.min(mat)), float(np.max(mat))
             if nmax != nmin:
                 mat = np.uint8(255.0 * (mat - nmin) / (nmax - nmin))
             else:
-- 
2.43.0


From d026ce71fe7c7ce133af5b29c71bf09856449175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:52 +0000
Subject: [PATCH 14/30] fix: save_image reduced upper-case .TIF/.TIFF files to
 8 bits

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 5810597..11329b6 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -426,7 +426,7 @@ def save_image(file_path, mat, overwrite=True):
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
-    file_ext = file_path.suffix
+    file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
             nmin, nmax = float(np.min(mat)), float(np.max(mat))
-- 
2.43.0


From 0df80430a3612767f0f60941ef507e2c07e64509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 15/30] fix: calc_coef_backward failed when a line passes
 through the center

The undistorted intercept of such a line is zero and it carries no
information about the backward factor: skip it, as calc_coef_forward does.
---
 discorpy/proc/processing.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 79aaaec..56a9967 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -452,23 +452,27 @@ def calc_coef_backward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_hor_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_hor[i])
         uc_coef = np.float64(list_hor_uc[i])
-        for _, point in enumerate(line):
-            xd = np.float64(point[1])
-            yd = np.float64(point[0])
-            rd = np.sqrt(xd * xd + yd * yd)
-            Fb = (a_coef * xd * xd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+        if uc_coef != 0.0:
+            for _, point in enumerate(line):
+                xd = np.float64(point[1])
+                yd = np.float64(point[0])
+                rd = np.sqrt(xd * xd + yd * yd)
+                Fb = (a_coef * xd * xd + c_coef) / uc_coef
+                if Fb != 0.0:
+                    Amatrix.append(np.power(rd / Fb, list_expo))
+                    Bmatrix.append(Fb)
     for i, line in enumerate(list_ver_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_ver[i])
         uc_coef = np.float64(list_ver_uc[i])
-        for _, point in enumerate(line):
-            xd = np.float64(point[1])
-            yd = np.float64(point[0])
-            rd = np.sqrt(xd * xd + yd * yd)
-            Fb = (a_coef * yd * yd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+        if uc_coef != 0.0:
+            for _, point in enumerate(line):
+                xd = np.float64(point[1])
+                yd = np.float64(point[0])
+                rd = np.sqrt(xd * xd + yd * yd)
+                Fb = (a_coef * yd * yd + c_coef) / uc_coef
+                if Fb != 0.0:
+                    Amatrix.append(np.power(rd / Fb, list_expo))
+                    Bmatrix.append(Fb)
     Amatrix = np.asarray(Amatrix, dtype=np.float64)
     Bmatrix = np.asarray(Bmatrix, dtype=np.float64)
     list_fact = np.linalg.lstsq(Amatrix, Bmatrix, rcond=1e-64)[0]
-- 
2.43.0


From b6e736a794b4e48ea3076efa184bbb288f6217ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 16/30] fix: find_cod_fine drifted away from the center for
 grids aligned to the axes

The points of the horizontal parabolas nearest to the origin lie on a nearly
vertical line (and vice versa): fitting y against x is ill-conditioned, and
for an untilted grid it made the metric meaningless.
---
 discorpy/proc/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 56a9967..2cac10b 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -186,8 +186,8 @@ def _calc_error(list_coef_hor, list_coef_ver):
         xm = coefs[0] * ym ** 2 + coefs[1] * ym + coefs[2]
         list_vpoint[i, 0] = ym
         list_vpoint[i, 1] = xm
-    error_h = np.polyfit(list_hpoint[:, 0], list_hpoint[:, 1], 1)[-1]
-    error_v = np.polyfit(list_vpoint[:, 0], list_vpoint[:, 1], 1)[-1]
+    error_h = np.polyfit(list_hpoint[:, 1], list_hpoint[:, 0], 1)[-1]
+    error_v = np.polyfit(list_vpoint[:, 1], list_vpoint[:, 0], 1)[-1]
     return np.abs(error_h) + np.abs(error_v)
 
 
-- 
2.43.0


From 02fda4da611dfc6be8e74694be11f5928447c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:33 +0000
Subject: [PATCH 17/30] fix: correct_perspective_effect did not reject lines
 curved one way only

np.where returns a tuple, so the checks for missing curved lines never
fired, and nan coordinates were returned instead of an error.
---
 discorpy/proc/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 2cac10b..5113002 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1379,25 +1379,25 @@ def correct_perspective_effect(list_hor_lines, list_ver_lines, xcenter,
         raise ValueError("Need at least 2 horizontal lines!!!")
     if len(list_coef_ver) < 2:
         raise ValueError("Need at least 2 vertical lines!!!")
-    indices = np.where(list_coef_hor[:, 0] > 0)
+    indices = np.where(list_coef_hor[:, 0] > 0)[0]
     if len(indices) > 0:
         bh1, ch1 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open upwards !!!")
-    indices = np.where(list_coef_hor[:, 0] < 0)
+    indices = np.where(list_coef_hor[:, 0] < 0)[0]
     if len(indices) > 0:
         bh2, ch2 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open downwards !!!")
-    indices = np.where(list_coef_ver[:, 0] > 0)
+    indices = np.where(list_coef_ver[:, 0] > 0)[0]
     if len(indices) > 0:
         bv1, cv1 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open rightwards !!!")
-    indices = np.where(list_coef_ver[:, 0] < 0)
+    indices = np.where(list_coef_ver[:, 0] < 0)[0]
     if len(indices) > 0:
         bv2, cv2 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
-- 
2.43.0


From f2e3f58f94a177ee4752b692e7fe019b396435f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 18/30] fix: optimizing=True left the initial distance
 unchanged for single-precision intercepts

---
 discorpy/proc/processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 5113002..c965356 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -340,6 +340,8 @@ def _optimize_intercept(dist_hv, pos_hv, list_inter):
     """
     Find the optimum undistorted distance for radial-distortion correction.
     """
+    list_inter = np.float64(list_inter)
+    dist_hv = np.float64(dist_hv)
     list_arg = [list_inter[pos_hv], pos_hv]
     list_arg.extend(list_inter)
     minimum = optimize.minimize(_func_opt, dist_hv, args=tuple(list_arg))
@@ -921,6 +923,8 @@ def _optimize_intercept_perspective(dist_hv, pos_hv, list_inter):
     Find the optimum undistorted distance for perspective-distortion
     correction.
     """
+    list_inter = np.float64(list_inter)
+    dist_hv = np.float64(dist_hv)
     list_arg = [list_inter[pos_hv], pos_hv]
     list_arg.extend(list_inter)
     minimum = optimize.minimize(_func_opt_pers, dist_hv, args=tuple(list_arg))
-- 
2.43.0


From f23f217c90f7dc60e5f2ce086fef1ff8ccabead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:18 +0000
Subject: [PATCH 19/30] fix: unwarp_line_backward barely moved points given in
 single precision

---
 discorpy/post/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 46f7bb6..0672a1d 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -91,8 +91,8 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
     for _, line in enumerate(list_lines):
         uline = np.zeros_like(line, dtype=np.float64)
         for j, dot in enumerate(line):
-            xd = dot[1] - xcenter
-            yd = dot[0] - ycenter
+            xd = np.float64(dot[1]) - xcenter
+            yd = np.float64(dot[0]) - ycenter
             rd = np.sqrt(xd * xd + yd * yd)
             list_arg = [rd]
             list_arg.extend(list_fact)
-- 
2.43.0


From 823797fbecea6be2ea988e4e00f62d239c27bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:40 +0000
Subject: [PATCH 20/30] fix: coefficients were spoiled by rounding noise when a
 grid line passes through the center

The undistorted intercept of such a line is at the level of rounding, not
exactly zero, so its points entered the fit with arbitrary factors.
---
 discorpy/proc/processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index c965356..b3ca0bf 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -410,6 +410,9 @@ def _calc_undistor_intercept(list_hor_lines, list_ver_lines, xcenter, ycenter,
         dist = np.abs(i - pos_ver) * dist_ver
         list_ver_uc[i] = np.sign(list_coef_ver[i, 2]) * dist + list_coef_ver[
             pos_ver, 2]
+    # The intercept of a line through the center is only rounding noise.
+    list_hor_uc[np.abs(list_hor_uc) < 1e-4 * dist_hor] = 0.0
+    list_ver_uc[np.abs(list_ver_uc) < 1e-4 * dist_ver] = 0.0
     return list_hor_uc, list_ver_uc
 
 
-- 
2.43.0


From 640f7d72c3ec28e7a556b309405f2ae69fa751ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:41 +0000
Subject: [PATCH 21/30] fix: parabola grid regeneration picked a wrong crossing
 for grids far from the origin

---
 discorpy/proc/processing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index b3ca0bf..8fe381f 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -838,7 +838,12 @@ def regenerate_grid_points_parabola(list_hor_lines, list_ver_lines,
         if find_center is True:
             xcenter, ycenter = find_cod_bailey(list_hor_lines, list_ver_lines)
         else:
-            xcenter, ycenter = 0.0, 0.0
+            # Use the middle of the points as the origin. The cross-point
+            # search starts there; started far away from the grid it may
+            # settle at another crossing of the same two parabolas.
+            points = np.concatenate([np.asarray(line)
+                                     for line in list_hor_lines])
+            ycenter, xcenter = np.mean(points, axis=0, dtype=np.float64)
         list_coef_hor = _para_fit_hor(list_hor_lines, xcenter, ycenter)[0]
         list_coef_ver = _para_fit_ver(list_ver_lines, xcenter, ycenter)[0]
     num_hline, num_vline = len(list_coef_hor), len(list_coef_ver)
-- 
2.43.0


From ca249c967f6417872cd590ac7aad6b67b040ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 22/30] fix: background normalization of an image with zero
 background gave NaN

---
 discorpy/prep/preprocessing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 29f0fe9..980339d 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -65,6 +65,8 @@ def normalization(mat, size=51):
     """
     mat_bck = ndi.median_filter(mat, size, mode="reflect")
     mean_val = np.mean(mat_bck)
+    if mean_val == 0.0:
+        return 1.0 * mat  # There is no background to correct
     mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
     mat_cor = mean_val * mat / mat_bck
     return mat_cor
@@ -147,6 +149,8 @@ def normalization_fft(mat, sigma=10, pad=100, mode='reflect'):
     """
     mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode)
     mean_val = np.mean(mat_bck)
+    if mean_val == 0.0:
+        return 1.0 * mat  # There is no background to correct
     mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
     mat_cor = mean_val * mat / mat_bck
     return mat_cor
-- 
2.43.0


From 034de12a87cd410efde5f21c5c192356282c6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:15 +0000
Subject: [PATCH 23/30] fix: background normalization of a flat profile could
 hide every line

---
 discorpy/prep/linepattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 5f682ac..f917434 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -241,6 +241,7 @@ def get_local_extrema_points(list_data, option="min", radius=7, sensitive=0.1,
         ndrop = int(0.25 * num_point)
         (a1, a0) = np.polyfit(xlist[ndrop:-ndrop - 1],
                               list_sort[ndrop:-ndrop - 1], 1)[:2]
+        a1 = max(a1, 0.0)  # Sorted data; may be negative by round-off errors
         list_fit = a1 * xlist + a0
         l_thres, u_thres = a0, a1 * xlist[-1] + a0
         list_sort[(list_fit >= l_thres) & (list_fit <= u_thres)] = list_fit[
-- 
2.43.0


From 0e078d777b5e9c5cdbd898e21fc6dba9010be562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:35 +0000
Subject: [PATCH 24/30] fix: tilted profiles ran up to one pixel past the image
 and shifted cross points

---
 discorpy/prep/linepattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index f917434..bbc88a1 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -544,7 +544,7 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         raise ValueError("Input index is out of possible range: "
                          "[{0}, {1}]".format(min_idx, max_idx))
     if direction == "horizontal":
-        rlist = np.linspace(0, np.floor(width / np.cos(angle)), width)
+        rlist = np.linspace(0, (width - 1) / np.cos(angle), width)
         xlist = rlist * np.cos(angle)
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
@@ -555,7 +555,7 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
     else:
-        rlist = np.linspace(0, np.floor(height / np.cos(angle)), height)
+        rlist = np.linspace(0, (height - 1) / np.cos(angle), height)
         ylist = rlist * np.cos(angle)
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
-- 
2.43.0


From 9a0cb54c6490d4356c6219846f3656dacea1f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:31 +0000
Subject: [PATCH 25/30] fix: saving plots without a file extension overwrote
 earlier plots

---
 discorpy/losa/loadersaver.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 11329b6..17a6deb 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -475,7 +475,10 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = __get_path(file_path, check_exist=False)
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
+    file_path = str(file_path)
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -545,7 +548,10 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = __get_path(file_path, check_exist=False)
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
+    file_path = str(file_path)
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -688,6 +694,8 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
-- 
2.43.0


From 44fd8b6c8528ac0eba76876b1878da2933c07624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:34 +0000
Subject: [PATCH 26/30] fix: unwarp_video_cv2 dropped the first frame of the
 stream

The first frame was read only to learn its number of dimensions and never
shown; and when that first read failed but a later one worked, padding
used an undefined variable. Derive the pad width from each frame.
---
 discorpy/util/utility.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/discorpy/util/utility.py b/discorpy/util/utility.py
index 9662e2e..3e29bb6 100644
--- a/discorpy/util/utility.py
+++ b/discorpy/util/utility.py
@@ -489,13 +489,6 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
     yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
-    check, frame = cam_obj.read()
-    if check:
-        num_dim = len(frame.shape)
-        if num_dim == 2:
-            pad_width = [(t_pad, b_pad), (l_pad, r_pad)]
-        else:
-            pad_width = [(t_pad, b_pad), (l_pad, r_pad), (0, 0)]
     while True:
         check, frame = cam_obj.read()
         if check:
@@ -503,6 +496,9 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
                 uframe = mapping_cv2(frame, xd_mat, yd_mat, method=method,
                                      border=border)
             else:
+                pad_width = [(t_pad, b_pad), (l_pad, r_pad)]
+                if frame.ndim > 2:
+                    pad_width.append((0, 0))
                 frame_pad = np.pad(frame, pad_width, mode=pad_mode)
                 uframe = mapping_cv2(frame_pad, xd_mat, yd_mat, method=method,
                                      border=border)
-- 
2.43.0


From 7c82b185b2a24552bbe96c15df0d1174ad0fb29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:20 +0000
Subject: [PATCH 27/30] fix: unwarp_slice_backward answered for slices outside
 the data

An index below zero or beyond the last row gave a copy of border rows
instead of the error raised by unwarp_chunk_slices_backward.
---
 discorpy/post/postprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 0672a1d..8ae0503 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -211,6 +211,8 @@ def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
     if len(mat3D.shape) < 3:
         raise ValueError("Input must be a 3D data")
     (depth, height, width) = mat3D.shape
+    if index < 0 or index > height - 1:
+        raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
     yu = index - ycenter
     ru_list = np.sqrt(xu_list ** 2 + yu ** 2)
-- 
2.43.0


From 256a6ea8373ff45024a1137b4eda844693812bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 28/30] fix: coefficients were spoiled by noise when a grid
 line passes near the center

A line less than a few hundredths of the line distance away from the
center gives ratios dominated by sub-pixel noise of its points, which was
only excluded for exact crossings. Leave out lines nearer than a tenth of
the line distance; their points are used through the crossing lines.
---
 discorpy/proc/processing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 8fe381f..278b4cd 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -410,9 +410,10 @@ def _calc_undistor_intercept(list_hor_lines, list_ver_lines, xcenter, ycenter,
         dist = np.abs(i - pos_ver) * dist_ver
         list_ver_uc[i] = np.sign(list_coef_ver[i, 2]) * dist + list_coef_ver[
             pos_ver, 2]
-    # The intercept of a line through the center is only rounding noise.
-    list_hor_uc[np.abs(list_hor_uc) < 1e-4 * dist_hor] = 0.0
-    list_ver_uc[np.abs(list_ver_uc) < 1e-4 * dist_ver] = 0.0
+    # Ratios of positions to the intercept of a line (nearly) through the
+    # center are dominated by noise. Zero intercepts are not used.
+    list_hor_uc[np.abs(list_hor_uc) < 0.1 * dist_hor] = 0.0
+    list_ver_uc[np.abs(list_ver_uc) < 0.1 * dist_ver] = 0.0
     return list_hor_uc, list_ver_uc
 
 
-- 
2.43.0


From 3b9400093181de33a8e99ae240937c6b056ed765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:21 +0000
Subject: [PATCH 29/30] fix: save_residual_plot restores the matplotlib
 settings it found

The function reset every rcParam to the default of matplotlib, wiping the
user's own settings, and left its own font settings behind when the file
could not be written.
---
 discorpy/losa/loadersaver.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 17a6deb..8140b0b 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -555,22 +555,23 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
-    fig = plt.figure(frameon=False)
-    fig.set_size_inches(width / dpi, height / dpi)
-    m_size = 0.5 * min(height / dpi, width / dpi)
-    plt.rc('font', size=np.int16(m_size * 4))
-    if __check_font(font_family):
-        plt.rcParams['font.family'] = font_family
-    plt.rcParams['font.weight'] = 'bold'
-    plt.xlabel('Radius', fontweight='bold')
-    plt.ylabel('Residual', fontweight='bold')
-    plt.plot(list_data[:, 0], list_data[:, 1], '.', markersize=m_size)
-    try:
-        plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
-    except Exception as error:
-        raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    plt.close()
-    plt.rcParams.update(plt.rcParamsDefault)
+    with plt.rc_context():
+        fig = plt.figure(frameon=False)
+        fig.set_size_inches(width / dpi, height / dpi)
+        m_size = 0.5 * min(height / dpi, width / dpi)
+        plt.rc('font', size=np.int16(m_size * 4))
+        if __check_font(font_family):
+            plt.rcParams['font.family'] = font_family
+        plt.rcParams['font.weight'] = 'bold'
+        plt.xlabel('Radius', fontweight='bold')
+        plt.ylabel('Residual', fontweight='bold')
+        plt.plot(list_data[:, 0], list_data[:, 1], '.', markersize=m_size)
+        try:
+            plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
+        except Exception as error:
+            raise ValueError(f"Couldn't write to file: {file_path}. "
+                             f"Error {error}")
+        plt.close()
     return file_path
 
 
-- 
2.43.0


From 81a6c108ad489b6f5753036641d1123e0816a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:27 +0000
Subject: [PATCH 30/30] fix: order and tell apart grouped lines by their
 distance across the slope

Lines of a tilted grid were sorted, and by the polyfit variants checked for
duplicates, by their mean or median y (x). For lines with points missing on
one side this mixes up neighbours: they came in the wrong order or one of
them was dropped.
---
 discorpy/prep/preprocessing.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 980339d..5f58285 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -663,7 +663,8 @@ def group_dots_hor_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
     len_accepted = accepted_ratio * np.max(list_len)
     lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
-        lines_selected, key=lambda list_: np.mean(list_[:, 0]))
+        lines_selected,
+        key=lambda list_: np.mean(list_[:, 0] - slope * list_[:, 1]))
     return lines_selected
 
 
@@ -735,7 +736,8 @@ def group_dots_ver_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
     len_accepted = accepted_ratio * np.max(list_length)
     lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
-        lines_selected, key=lambda list_: np.mean(list_[:, 1]))
+        lines_selected,
+        key=lambda list_: np.mean(list_[:, 1] - slope * list_[:, 0]))
     return lines_selected
 
 
@@ -1213,7 +1215,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     list_len = [len(i) for i in list_lines]
     len_accepted = accepted_ratio * np.max(list_len)
     lines_selected = [line for line in list_lines if len(line) >= len_accepted]
-    y_vals = [np.median(line[:, 0]) for line in lines_selected]
+    y_vals = [np.median(line[:, 0] - slope * line[:, 1]) for line in
+              lines_selected]
     ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
         ids = np.insert(ids + 1, 0, 0)
@@ -1221,7 +1224,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                      idx in ids]
         lines_selected = lines_tmp
     lines_selected = sorted(
-        lines_selected, key=lambda list_: np.mean(list_[:, 0]))
+        lines_selected,
+        key=lambda list_: np.mean(list_[:, 0] - slope * list_[:, 1]))
     return lines_selected
 
 
@@ -1390,7 +1394,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     list_len = [len(i) for i in list_lines]
     len_accepted = accepted_ratio * np.max(list_len)
     lines_selected = [line for line in list_lines if len(line) >= len_accepted]
-    x_vals = [np.median(line[:, 1]) for line in lines_selected]
+    x_vals = [np.median(line[:, 1] - slope * line[:, 0]) for line in
+              lines_selected]
     ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
         ids = np.insert(ids + 1, 0, 0)
@@ -1398,5 +1403,6 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                      idx in ids]
         lines_selected = lines_tmp
     lines_selected = sorted(
-        lines_selected, key=lambda list_: np.mean(list_[:, 1]))
+        lines_selected,
+        key=lambda list_: np.mean(list_[:, 1] - slope * list_[:, 0]))
     return lines_selected
-- 
2.43.0

