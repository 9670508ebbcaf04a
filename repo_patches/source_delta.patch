From 92a94a8679e7c90360cb724a2d9d558a56946d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 01/28] fix: accept stop_index=-1 in
 unwarp_chunk_slices_backward

The sentinel was replaced by the height of the stack, which the range check
on the next line rejects, so asking for all slices always raised an error.
---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index e86f39a..23e58fd 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -283,7 +283,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     (depth, height, width) = mat3D.shape
     index_list = np.arange(height, dtype=np.int16)
     if stop_index == -1:
-        stop_index = height
+        stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-- 
2.43.0


From 7455dc79cb587c1f618694157d50d379f5f0efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 02/28] fix: unwarp slices of stacks with more than 32767 rows

Row indices were held in 16-bit integers: they wrapped round for tall stacks,
so the wrong rows were read, or valid ranges were rejected.
---
 discorpy/post/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 23e58fd..32ff18a 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -218,8 +218,8 @@ def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = int(np.floor(np.amin(yd_list)))
+    yd_max = int(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     sino = np.zeros((depth, width), dtype=np.float32)
     indices = yd_list, xd_list
@@ -281,7 +281,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (len(mat3D.shape) < 3):
         raise ValueError("Input must be a 3D data")
     (depth, height, width) = mat3D.shape
-    index_list = np.arange(height, dtype=np.int16)
+    index_list = np.arange(height)
     if stop_index == -1:
         stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
@@ -297,8 +297,8 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     flist = np.sum(np.asarray(
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2))) + 1
+    yd_min = int(np.floor(np.amin(yd_list1)))
+    yd_max = int(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index + 1) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
-- 
2.43.0


From d0b5a3f41bfe50c3a8569f201d8f6d2b68363aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 03/28] fix: keep sub-pixel results of unwarped lines with
 integer coordinates

The result array took the type of the input points, so unwarped positions of
points given as integers were truncated.
---
 discorpy/post/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 32ff18a..0695ed4 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -52,7 +52,7 @@ def unwarp_line_forward(list_lines, xcenter, ycenter, list_fact):
     list_ulines = []
     list_expo = np.arange(len(list_fact), dtype=np.int16)
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros(np.shape(line), dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
@@ -89,7 +89,7 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
     """
     list_ulines = []
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros(np.shape(line), dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
-- 
2.43.0


From 7d1026096ba5368bd5a62c5018410999ce831c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:58 +0000
Subject: [PATCH 04/28] fix: unwarp single-precision points with a backward
 model

The optimiser was started from a float32 radius, in which its numerical
derivative vanishes, so points given as float32 (e.g. regenerated grid
points) were returned unchanged.
---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 0695ed4..56b2a88 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -93,7 +93,7 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
-            rd = np.sqrt(xd * xd + yd * yd)
+            rd = np.float64(np.sqrt(xd * xd + yd * yd))
             list_arg = [rd]
             list_arg.extend(list_fact)
             minimum = optimize.minimize(_func_diff, rd, args=tuple(list_arg))
-- 
2.43.0


From aa749979e6ce77dad5634880a43639175820429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 05/28] fix: end unwarp_video_cv2 with the stream and show its
 first frame

The loop ignored a failed read, so the call never returned at the end of a
video (or for an empty one), and the frame read to find the number of
dimensions was dropped.
---
 discorpy/util/utility.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/discorpy/util/utility.py b/discorpy/util/utility.py
index 2a59ce3..0aa4480 100644
--- a/discorpy/util/utility.py
+++ b/discorpy/util/utility.py
@@ -496,19 +496,18 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
             pad_width = [(t_pad, b_pad), (l_pad, r_pad)]
         else:
             pad_width = [(t_pad, b_pad), (l_pad, r_pad), (0, 0)]
-    while True:
+    while check:
+        if (pad is False) or (pad == 0):
+            uframe = mapping_cv2(frame, xd_mat, yd_mat, method=method,
+                                 border=border)
+        else:
+            frame_pad = np.pad(frame, pad_width, mode=pad_mode)
+            uframe = mapping_cv2(frame_pad, xd_mat, yd_mat, method=method,
+                                 border=border)
+        cv2.imshow("Press ESC to exit", uframe)
+        c = cv2.waitKey(1)
+        if c == 27:
+            break
         check, frame = cam_obj.read()
-        if check:
-            if (pad is False) or (pad == 0):
-                uframe = mapping_cv2(frame, xd_mat, yd_mat, method=method,
-                                     border=border)
-            else:
-                frame_pad = np.pad(frame, pad_width, mode=pad_mode)
-                uframe = mapping_cv2(frame_pad, xd_mat, yd_mat, method=method,
-                                     border=border)
-            cv2.imshow("Press ESC to exit", uframe)
-            c = cv2.waitKey(1)
-            if c == 27:
-                break
     cam_obj.release()
     cv2.destroyAllWindows()
-- 
2.43.0


From da92889cad1148468381528199a2b89fd807380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:28 +0000
Subject: [PATCH 06/28] fix: compute perspective coefficients in double
 precision

Products of coordinates were formed in the type of the input points: 16-bit
integer points overflowed and single-precision ones lost accuracy.
---
 discorpy/proc/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 79aaaec..224709a 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1252,11 +1252,11 @@ def calc_perspective_coefficients(source_points, target_points,
 
     """
     if mapping == "forward":
-        s_points = np.fliplr(np.asarray(source_points))
-        t_points = np.fliplr(np.asarray(target_points))
+        s_points = np.fliplr(np.float64(source_points))
+        t_points = np.fliplr(np.float64(target_points))
     else:
-        s_points = np.fliplr(np.asarray(target_points))
-        t_points = np.fliplr(np.asarray(source_points))
+        s_points = np.fliplr(np.float64(target_points))
+        t_points = np.fliplr(np.float64(source_points))
     Amatrix = []
     for p1, p2 in zip(s_points, t_points):
         Amatrix.append(
-- 
2.43.0


From b0ee6de3cfa2ce55fc5679c965c0e388074504ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:10 +0000
Subject: [PATCH 07/28] fix: find the fine centre of distortion for patterns
 without tilt

---
 discorpy/proc/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 224709a..a5f0ab1 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -186,8 +186,8 @@ def _calc_error(list_coef_hor, list_coef_ver):
         xm = coefs[0] * ym ** 2 + coefs[1] * ym + coefs[2]
         list_vpoint[i, 0] = ym
         list_vpoint[i, 1] = xm
-    error_h = np.polyfit(list_hpoint[:, 0], list_hpoint[:, 1], 1)[-1]
-    error_v = np.polyfit(list_vpoint[:, 0], list_vpoint[:, 1], 1)[-1]
+    error_h = np.polyfit(list_hpoint[:, 1], list_hpoint[:, 0], 1)[-1]
+    error_v = np.polyfit(list_vpoint[:, 1], list_vpoint[:, 0], 1)[-1]
     return np.abs(error_h) + np.abs(error_v)
 
 
-- 
2.43.0


From 2bb39e83a5079874bc55843a09454e2b57a74942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:02 +0000
Subject: [PATCH 08/28] fix: ignore lines through the center when fitting
 distortion models

---
 discorpy/proc/processing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index a5f0ab1..3a75438 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -408,6 +408,9 @@ def _calc_undistor_intercept(list_hor_lines, list_ver_lines, xcenter, ycenter,
         dist = np.abs(i - pos_ver) * dist_ver
         list_ver_uc[i] = np.sign(list_coef_ver[i, 2]) * dist + list_coef_ver[
             pos_ver, 2]
+    # Lines through the center carry no information about the distortion.
+    list_hor_uc[np.abs(list_hor_uc) < 0.01 * np.abs(dist_hor)] = 0.0
+    list_ver_uc[np.abs(list_ver_uc) < 0.01 * np.abs(dist_ver)] = 0.0
     return list_hor_uc, list_ver_uc
 
 
@@ -452,6 +455,8 @@ def calc_coef_backward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_hor_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_hor[i])
         uc_coef = np.float64(list_hor_uc[i])
+        if uc_coef == 0.0:
+            continue
         for _, point in enumerate(line):
             xd = np.float64(point[1])
             yd = np.float64(point[0])
@@ -462,6 +467,8 @@ def calc_coef_backward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_ver_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_ver[i])
         uc_coef = np.float64(list_ver_uc[i])
+        if uc_coef == 0.0:
+            continue
         for _, point in enumerate(line):
             xd = np.float64(point[1])
             yd = np.float64(point[0])
-- 
2.43.0


From 146079246f33704dbcee35bfec2fcda6418a2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:24 +0000
Subject: [PATCH 09/28] fix: reject lines without the required curvature in
 correct_perspective_effect

---
 discorpy/proc/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 3a75438..6d930c7 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1382,25 +1382,25 @@ def correct_perspective_effect(list_hor_lines, list_ver_lines, xcenter,
         raise ValueError("Need at least 2 horizontal lines!!!")
     if len(list_coef_ver) < 2:
         raise ValueError("Need at least 2 vertical lines!!!")
-    indices = np.where(list_coef_hor[:, 0] > 0)
+    indices = np.where(list_coef_hor[:, 0] > 0)[0]
     if len(indices) > 0:
         bh1, ch1 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open upwards !!!")
-    indices = np.where(list_coef_hor[:, 0] < 0)
+    indices = np.where(list_coef_hor[:, 0] < 0)[0]
     if len(indices) > 0:
         bh2, ch2 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open downwards !!!")
-    indices = np.where(list_coef_ver[:, 0] > 0)
+    indices = np.where(list_coef_ver[:, 0] > 0)[0]
     if len(indices) > 0:
         bv1, cv1 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open rightwards !!!")
-    indices = np.where(list_coef_ver[:, 0] < 0)
+    indices = np.where(list_coef_ver[:, 0] < 0)[0]
     if len(indices) > 0:
         bv2, cv2 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
-- 
2.43.0


From f6e0b0a92c898665870109b0c0aa6ff7c1c34cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 10/28] fix: keep and measure only the pixels of a dot itself
 in dot selection

---
 discorpy/prep/preprocessing.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 5587641..27f0a20 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -352,11 +352,12 @@ def select_dots_based_size(mat, dot_size, ratio=0.3):
     max_size = dot_size + ratio * dot_size
     mat_label, _ = ndi.label(np.int16(mat))
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat, dtype=np.int16)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        # Other dots can reach into the bounding box of a dot
+        mask = mat_label[j] == i + 1
+        if _check_dot_size(mat[j] * mask, min_size, max_size):
+            mat1[j][mask] = mat[j][mask]
     return mat1
 
 
@@ -411,11 +412,12 @@ def select_dots_based_ratio(mat, ratio=0.3):
     mat = np.int16(mat)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_axes_ratio(mat[dot], ratio)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        # Other dots can reach into the bounding box of a dot
+        mask = mat_label[j] == i + 1
+        if _check_axes_ratio(mat[j] * mask, ratio):
+            mat1[j][mask] = mat[j][mask]
     return mat1
 
 
@@ -453,7 +455,8 @@ def select_dots_based_distance(mat, dot_dist, ratio=0.3):
         num = dist // dot_dist
         dist_error = (dist - num * dot_dist) / dot_dist
         if any(dist_error < ratio):
-            mat1[j] = mat[j]
+            mask = mat_label[j] == i + 1
+            mat1[j][mask] = mat[j][mask]
     return mat1
 
 
-- 
2.43.0


From 0e87c9625c1a5b22e2408220c25cab077006df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:07 +0000
Subject: [PATCH 11/28] fix: accept lines having exactly the accepted ratio of
 dots

---
 discorpy/prep/preprocessing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 27f0a20..b08a7ba 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -664,8 +664,8 @@ def group_dots_hor_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
         if len(dots_selected) > 1:
             list_lines.append(dots_selected)
     list_len = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 0]))
     return lines_selected
@@ -736,8 +736,8 @@ def group_dots_ver_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
             dots_selected = np.fliplr(dots_selected)  # Swap back
             list_lines.append(dots_selected)
     list_length = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_length))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_length)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 1]))
     return lines_selected
@@ -1215,8 +1215,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 1].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     y_vals = [np.median(line[:, 0]) for line in lines_selected]
     ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
@@ -1393,8 +1393,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 0].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     x_vals = [np.median(line[:, 1]) for line in lines_selected]
     ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
-- 
2.43.0


From 43f3ffb3a36c3487718bb69628758fc2cdeb34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 12/28] fix: do not add points of other lines for groups of two
 dots in polyfit grouping

---
 discorpy/prep/preprocessing.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index b08a7ba..82f4a75 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1208,7 +1208,6 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points, points, x_left, x_right, search_dist,
                         residual=residual, overlap_ratio=overlap_ratio,
                         order=order)
-                if len(selected_points) > 2:
                     selected_points = rotate_points(selected_points, -angle,
                                                     degree_unit=False)
                     selected_points = selected_points[
@@ -1386,7 +1385,6 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                     selected_points = _get_nearby_ver_points_iter(
                         selected_points, points, y_left, y_right, search_dist,
                         residual, overlap_ratio=overlap_ratio, order=order)
-                if len(selected_points) > 2:
                     selected_points = rotate_points(selected_points, -angle,
                                                     degree_unit=False)
                     selected_points = selected_points[
-- 
2.43.0


From b4a412f8d1e28b767692d53a1cd563e243124c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 13/28] fix: compare lines across the pattern when removing
 duplicates in polyfit grouping

---
 discorpy/prep/preprocessing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 82f4a75..7620168 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1216,7 +1216,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     list_len = [len(i) for i in list_lines]
     len_accepted = accepted_ratio * np.max(list_len)
     lines_selected = [line for line in list_lines if len(line) >= len_accepted]
-    y_vals = [np.median(line[:, 0]) for line in lines_selected]
+    y_vals = [np.median(rotate_points(line, angle, degree_unit=False)[:, 0])
+              for line in lines_selected]
     ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
         ids = np.insert(ids + 1, 0, 0)
@@ -1393,7 +1394,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     list_len = [len(i) for i in list_lines]
     len_accepted = accepted_ratio * np.max(list_len)
     lines_selected = [line for line in list_lines if len(line) >= len_accepted]
-    x_vals = [np.median(line[:, 1]) for line in lines_selected]
+    x_vals = [np.median(rotate_points(line, angle, degree_unit=False)[:, 1])
+              for line in lines_selected]
     ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
         ids = np.insert(ids + 1, 0, 0)
-- 
2.43.0


From db982008d3f380cfb24e3ad1962b7abb9cbc1a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:01 +0000
Subject: [PATCH 14/28] fix: remove points outside the image in
 remove_points_using_parabola_mask

---
 discorpy/prep/preprocessing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 7620168..7cc31be 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -960,9 +960,10 @@ def remove_points_using_parabola_mask(points, height, width, hor_curviness=0.3,
                               hor_margin=hor_margin, ver_margin=ver_margin,
                               rotate=rotate)
     y_cors, x_cors = np.int32(points[:, 0]), np.int32(points[:, 1])
-    valid_indices = ((y_cors >= 0) & (y_cors < height) &
-                     (x_cors >= 0) & (x_cors < width) &
-                     (mask[y_cors, x_cors] == 1.0))
+    valid_indices = ((y_cors >= 0) & (y_cors < height)
+                     & (x_cors >= 0) & (x_cors < width))
+    valid_indices[valid_indices] = mask[y_cors[valid_indices],
+                                        x_cors[valid_indices]] == 1.0
     return points[valid_indices]
 
 
-- 
2.43.0


From 75bb03171b2fc95d11fbf94c401e5ff1633cb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:22 +0000
Subject: [PATCH 15/28] fix: replace zeros of the background in normalization

---
 discorpy/prep/preprocessing.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 7cc31be..fc50a72 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -65,11 +65,9 @@ def normalization(mat, size=51):
     """
     mat_bck = ndi.median_filter(mat, size, mode="reflect")
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    # Numpy does not raise an error when dividing by zero
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
@@ -150,11 +148,9 @@ def normalization_fft(mat, sigma=10, pad=100, mode='reflect'):
     """
     mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode)
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    # Numpy does not raise an error when dividing by zero
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
-- 
2.43.0


From 09e8eb94ae93526ff713622a75a35643df12f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:44 +0000
Subject: [PATCH 16/28] fix: do not truncate sliding-window slopes of integer
 data

---
 discorpy/prep/linepattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 18636f7..c059ac0 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -180,7 +180,8 @@ def sliding_window_slope(list_data, size=3, norm=True):
     radius = size // 2
     padded_data = np.pad(list_data, (radius, radius), 'edge')
     x_list = np.arange(size)
-    slopes = np.zeros_like(list_data)
+    slopes = np.zeros(npoint,
+                      dtype=np.result_type(padded_data, np.float32))
     for i in range(len(list_data)):
         local_data = padded_data[i:i + size]
         slopes[i] = np.polyfit(x_list, local_data, 1)[0]
-- 
2.43.0


From ff8ac3a0fea4065814f90f6aea708d209b8674cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:33 +0000
Subject: [PATCH 17/28] fix: use the vertex of a parabola only if it is the
 requested extremum

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index c059ac0..924b82d 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -65,7 +65,7 @@ def locate_subpixel_point(list_point, option="min"):
         pos = np.argmin(list_point)
     else:
         pos = np.argmax(list_point)
-    if a != 0.0:
+    if (a > 0.0 and option == "min") or (a < 0.0 and option != "min"):
         num = - b / (2 * a)
         if (num >= 0) and (num < num_point):
             pos = num
-- 
2.43.0


From 533aecd3b70c2348afcd2e574b38b0df9bf09715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:33 +0000
Subject: [PATCH 18/28] fix: end tilted profiles at the edge of the image

---
 discorpy/prep/linepattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 924b82d..068bcdf 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -544,7 +544,7 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         raise ValueError("Input index is out of possible range: "
                          "[{0}, {1}]".format(min_idx, max_idx))
     if direction == "horizontal":
-        rlist = np.linspace(0, np.floor(width / np.cos(angle)), width)
+        rlist = np.linspace(0, (width - 1) / np.cos(angle), width)
         xlist = rlist * np.cos(angle)
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
@@ -555,7 +555,7 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
     else:
-        rlist = np.linspace(0, np.floor(height / np.cos(angle)), height)
+        rlist = np.linspace(0, (height - 1) / np.cos(angle), height)
         ylist = rlist * np.cos(angle)
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
-- 
2.43.0


From 06cbbeb3693681658928b936dd494688191f7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:34 +0000
Subject: [PATCH 19/28] fix: get tilted profiles of images with sides above
 32767 pixels

---
 discorpy/prep/linepattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 068bcdf..6c9741b 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -549,8 +549,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
         ylist = np.clip(index + ylist, 0, height - 1)
-        ymin = np.int16(np.floor(np.amin(ylist)))
-        ymax = np.int16(np.ceil(np.amax(ylist))) + 1
+        ymin = np.int32(np.floor(np.amin(ylist)))
+        ymax = np.int32(np.ceil(np.amax(ylist))) + 1
         indices = ylist - ymin, xlist
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
@@ -560,8 +560,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
         ylist = np.clip(ylist, 0, height - 1)
-        xmin = np.int16(np.floor(np.amin(xlist)))
-        xmax = np.int16(np.ceil(np.amax(xlist))) + 1
+        xmin = np.int32(np.floor(np.amin(xlist)))
+        xmax = np.int32(np.ceil(np.amax(xlist))) + 1
         indices = ylist, xlist - xmin
         profile = ndi.map_coordinates(mat[:, xmin:xmax], indices, order=3,
                                       mode='nearest')
-- 
2.43.0


From c03fd74a8814bf40f7b55924cff4393a0bff977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:51 +0000
Subject: [PATCH 20/28] fix: average color images over the channels in
 load_image

---
 discorpy/losa/loadersaver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 21c70a5..83fc5ed 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -101,8 +101,7 @@ def load_image(file_path, average=True):
     except Exception as error:
         raise ValueError(error)
     if len(mat.shape) > 2 and average is True:
-        axis_m = np.argmin(mat.shape)
-        mat = np.mean(mat, axis=axis_m)
+        mat = np.mean(mat, axis=-1)
     return mat
 
 
-- 
2.43.0


From 3213f2a5f30f8cf4f75e45675f225b6156ad7418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:51 +0000
Subject: [PATCH 21/28] fix: keep the values of images saved with upper-case
 tif extensions

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 83fc5ed..5dbfc2e 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -426,7 +426,7 @@ def save_image(file_path, mat, overwrite=True):
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
-    file_ext = file_path.suffix
+    file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
             nmin, nmax = np.min(mat), np.max(mat)
-- 
2.43.0


From 13229c6b0f545e59f99e3b8c71c5367f818e3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:51 +0000
Subject: [PATCH 22/28] fix: rescale integer and boolean images without
 overflow in save_image

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 5dbfc2e..d1cfaec 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -429,7 +429,7 @@ def save_image(file_path, mat, overwrite=True):
     file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
-            nmin, nmax = np.min(mat), np.max(mat)
+            nmin, nmax = float(np.min(mat)), float(np.max(mat))
             if nmax != nmin:
                 mat = np.uint8(255.0 * (mat - nmin) / (nmax - nmin))
             else:
-- 
2.43.0


From 47a929811605e064745cb1357d98682190d3f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:51 +0000
Subject: [PATCH 23/28] fix: remove only the sliced axis when loading part of a
 hdf dataset

---
 discorpy/losa/loadersaver.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index d1cfaec..7553f0c 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -289,7 +289,7 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
         if index is None:
             mat = np.float32(idata[:, :, :])
         else:
-            if isinstance(index, int):
+            if isinstance(index, (int, np.integer)):
                 try:
                     if axis == 0:
                         mat = np.float32(idata[index, :, :])
@@ -297,7 +297,6 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, index, :])
                     else:
                         mat = np.float32(idata[:, :, index])
-                    axis = np.clip(axis, 0, 1)
                 except IndexError:
                     raise
             if isinstance(index, tuple) or isinstance(index, list):
@@ -321,10 +320,10 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, :, list_index])
                 except IndexError:
                     raise
-            if mat.shape[axis] == 1:
-                mat = np.swapaxes(mat, axis, 0)[0]
-            if mat.shape[axis] == 0:
-                raise ValueError("Empty indices!")
+                if mat.shape[axis] == 0:
+                    raise ValueError("Empty indices!")
+                if mat.shape[axis] == 1:
+                    mat = np.take(mat, 0, axis=axis)
     return mat
 
 
-- 
2.43.0


From 388fa675e7ed9260979a1d18f859da12c8b5d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:51 +0000
Subject: [PATCH 24/28] fix: keep the user's plot settings in
 save_residual_plot

---
 discorpy/losa/loadersaver.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 7553f0c..92e4342 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -548,22 +548,22 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
-    fig = plt.figure(frameon=False)
-    fig.set_size_inches(width / dpi, height / dpi)
-    m_size = 0.5 * min(height / dpi, width / dpi)
-    plt.rc('font', size=np.int16(m_size * 4))
-    if __check_font(font_family):
-        plt.rcParams['font.family'] = font_family
-    plt.rcParams['font.weight'] = 'bold'
-    plt.xlabel('Radius', fontweight='bold')
-    plt.ylabel('Residual', fontweight='bold')
-    plt.plot(list_data[:, 0], list_data[:, 1], '.', markersize=m_size)
-    try:
-        plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
-    except Exception as error:
-        raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    plt.close()
-    plt.rcParams.update(plt.rcParamsDefault)
+    with plt.rc_context():
+        fig = plt.figure(frameon=False)
+        fig.set_size_inches(width / dpi, height / dpi)
+        m_size = 0.5 * min(height / dpi, width / dpi)
+        plt.rc('font', size=np.int16(m_size * 4))
+        if __check_font(font_family):
+            plt.rcParams['font.family'] = font_family
+        plt.rcParams['font.weight'] = 'bold'
+        plt.xlabel('Radius', fontweight='bold')
+        plt.ylabel('Residual', fontweight='bold')
+        plt.plot(list_data[:, 0], list_data[:, 1], '.', markersize=m_size)
+        try:
+            plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
+        except Exception as error:
+            raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
+        plt.close()
     return file_path
 
 
-- 
2.43.0


From dde09c6517583d94f03d83e4a78dd965f702546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:28 +0000
Subject: [PATCH 25/28] fix: never overwrite plots saved without a file
 extension

---
 discorpy/losa/loadersaver.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 92e4342..bb0372a 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -448,6 +448,17 @@ def save_image(file_path, mat, overwrite=True):
     return file_path
 
 
+def __get_plot_path(file_path):
+    """
+    Supplementary method to add the extension, which is used by matplotlib if
+    there's none, to a file path.
+    """
+    file_path = __get_path(file_path, check_exist=False)
+    if not file_path.suffix:
+        file_path = file_path.with_suffix("." + plt.rcParams["savefig.format"])
+    return file_path
+
+
 def save_plot_image(file_path, list_lines, height, width, overwrite=True,
                     dpi=100):
     """
@@ -474,7 +485,7 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = str(__get_plot_path(file_path))
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -544,7 +555,7 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = str(__get_plot_path(file_path))
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -686,7 +697,7 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = __get_path(file_path, check_exist=False).resolve()
+    file_path = __get_plot_path(file_path).resolve()
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
-- 
2.43.0


From 24d05f9c98773fb9e786c7d56f85ffc53b6d7e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:26 +0000
Subject: [PATCH 26/28] fix: raise IndexError for every out-of-range list of
 hdf indices

---
 discorpy/losa/loadersaver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index bb0372a..29366fa 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -311,6 +311,9 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                     list_index = list(range(start, stop))
                 else:
                     list_index = list(index)
+                if any(i >= shape[axis] for i in list_index):
+                    raise IndexError(
+                        f"Index out of range for axis {axis} of shape {shape}")
                 try:
                     if axis == 0:
                         mat = np.float32(idata[list_index, :, :])
-- 
2.43.0


From 26bd655e6f89efdc34a2fa109792065728af8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:04 +0000
Subject: [PATCH 27/28] fix: make the line-distance optimisation take effect

scipy evaluates the numerical gradient in the precision of the start value;
with a float32 start value the step vanishes, the gradient is NaN and
optimize.minimize() gives the start value back, so optimizing=True changed
nothing.
---
 discorpy/proc/processing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 6d930c7..73f9e75 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -342,7 +342,8 @@ def _optimize_intercept(dist_hv, pos_hv, list_inter):
     """
     list_arg = [list_inter[pos_hv], pos_hv]
     list_arg.extend(list_inter)
-    minimum = optimize.minimize(_func_opt, dist_hv, args=tuple(list_arg))
+    minimum = optimize.minimize(_func_opt, np.float64(dist_hv),
+                                args=tuple(list_arg))
     return minimum.x[0]
 
 
@@ -926,7 +927,8 @@ def _optimize_intercept_perspective(dist_hv, pos_hv, list_inter):
     """
     list_arg = [list_inter[pos_hv], pos_hv]
     list_arg.extend(list_inter)
-    minimum = optimize.minimize(_func_opt_pers, dist_hv, args=tuple(list_arg))
+    minimum = optimize.minimize(_func_opt_pers, np.float64(dist_hv),
+                                args=tuple(list_arg))
     return minimum.x[0]
 
 
-- 
2.43.0


From e1141065859733199b6f7a2c79ce2129022600aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:14 +0000
Subject: [PATCH 28/28] fix: small integer coordinates wrapped around with an
 integer centre

---
 discorpy/post/postprocessing.py | 12 ++++++------
 discorpy/proc/processing.py     |  6 +++---
 discorpy/util/utility.py        |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 56b2a88..b3c6951 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -54,8 +54,8 @@ def unwarp_line_forward(list_lines, xcenter, ycenter, list_fact):
     for _, line in enumerate(list_lines):
         uline = np.zeros(np.shape(line), dtype=np.float64)
         for j, dot in enumerate(line):
-            xd = dot[1] - xcenter
-            yd = dot[0] - ycenter
+            xd = np.float64(dot[1]) - xcenter
+            yd = np.float64(dot[0]) - ycenter
             rd = np.sqrt(xd * xd + yd * yd)
             factor = np.sum(list_fact * np.power(rd, list_expo))
             uline[j, 1] = xcenter + factor * xd
@@ -91,8 +91,8 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
     for _, line in enumerate(list_lines):
         uline = np.zeros(np.shape(line), dtype=np.float64)
         for j, dot in enumerate(line):
-            xd = dot[1] - xcenter
-            yd = dot[0] - ycenter
+            xd = np.float64(dot[1]) - xcenter
+            yd = np.float64(dot[0]) - ycenter
             rd = np.float64(np.sqrt(xd * xd + yd * yd))
             list_arg = [rd]
             list_arg.extend(list_fact)
@@ -338,7 +338,7 @@ def calc_residual_hor(list_ulines, xcenter, ycenter):
     """
     list_data = []
     for i, line in enumerate(list_ulines):
-        line = np.asarray(line)
+        line = np.asarray(line, dtype=np.float64)
         y_list = line[:, 0] - ycenter
         x_list = line[:, 1] - xcenter
         (a_fact, b_fact) = np.polyfit(x_list, y_list, 1)
@@ -375,7 +375,7 @@ def calc_residual_ver(list_ulines, xcenter, ycenter):
     """
     list_data = []
     for i, line in enumerate(list_ulines):
-        line = np.asarray(line)
+        line = np.asarray(line, dtype=np.float64)
         y_list = line[:, 0] - ycenter
         x_list = line[:, 1] - xcenter
         (a_fact, b_fact) = np.polyfit(y_list, x_list, 1)
diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 73f9e75..c0a5041 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -68,7 +68,7 @@ def _para_fit_hor(list_lines, xcenter, ycenter):
     list_coef = np.zeros((num_line, 3), dtype=np.float32)
     list_slines = []
     for i, iline in enumerate(list_lines):
-        line = np.asarray(iline)
+        line = np.asarray(iline, dtype=np.float64)
         list_coef[i] = np.asarray(np.polyfit(line[:, 1] - xcenter,
                                              line[:, 0] - ycenter, 2))
         list_temp = np.asarray(
@@ -101,7 +101,7 @@ def _para_fit_ver(list_lines, xcenter, ycenter):
     list_coef = np.zeros((num_line, 3), dtype=np.float32)
     list_slines = []
     for i, iline in enumerate(list_lines):
-        line = np.asarray(iline)
+        line = np.asarray(iline, dtype=np.float64)
         list_coef[i] = np.asarray(
             np.polyfit(line[:, 0] - ycenter, line[:, 1] - xcenter, 2))
         list_temp = np.asarray(
@@ -1298,7 +1298,7 @@ def update_center(list_lines, xcenter, ycenter):
     """
     updated_lines = []
     for i, iline in enumerate(list_lines):
-        line = np.asarray(iline)
+        line = np.asarray(iline, dtype=np.float64)
         list_temp = np.asarray(
             [(point[0] + ycenter, point[1] + xcenter) for point in line])
         updated_lines.append(list_temp)
diff --git a/discorpy/util/utility.py b/discorpy/util/utility.py
index 0aa4480..9892342 100644
--- a/discorpy/util/utility.py
+++ b/discorpy/util/utility.py
@@ -218,7 +218,7 @@ def find_point_to_point(points, xcenter, ycenter, list_fact,
     tuple of float
         x- and y-coordinate of the point in another space.
     """
-    xi, yi = points[1] - xcenter, points[0] - ycenter
+    xi, yi = np.float64(points[1]) - xcenter, np.float64(points[0]) - ycenter
     ri = np.sqrt(xi * xi + yi * yi)
     factor = np.float64(np.sum(
         list_fact * np.power(ri, np.arange(len(list_fact)))))
-- 
2.43.0

