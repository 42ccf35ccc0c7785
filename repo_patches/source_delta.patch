From b6d082b9e8af076e5278ac052850f03bfef034da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 01/28] fix: start newly detected points at their detected
 position

The mask of detected coordinates was tiled (m0, m1, m0, m1) while the filter
state is laid out point by point (m0, m0, m1, m1), so with a partial detection a
point seen for the first time was not moved to where it was detected.
---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 275ecee..32ac263 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -662,8 +662,8 @@ class TrackedObject:
         detected_at_least_once_mask = np.array(
             [(m,) * self.dim_points for m in self.detected_at_least_once_points]
         ).flatten()
-        now_detected_mask = np.hstack(
-            (points_over_threshold_mask,) * self.dim_points
+        now_detected_mask = np.array(
+            [(m,) * self.dim_points for m in points_over_threshold_mask]
         ).flatten()
         first_detection_mask = np.logical_and(
             now_detected_mask, np.logical_not(detected_at_least_once_mask)
-- 
2.43.0


From c998b4a5a14db5d76be1b3c0d5f000457661b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 02/28] fix: accept detections=None together with
 coord_transformations

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 32ac263..072b0c9 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,7 +176,7 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None:
+        if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
 
-- 
2.43.0


From 7e7e105eec616e8111148e41185f5309c365dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 03/28] fix: compute absolute_points from points on every
 update

A Detection passed to update more than once (or to several trackers) had the
transformation applied on top of the previous one.
---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 072b0c9..0305f7b 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -787,6 +787,4 @@ class Detection:
         self, coordinate_transformation: CoordinatesTransformation
     ):
         if coordinate_transformation is not None:
-            self.absolute_points = coordinate_transformation.rel_to_abs(
-                self.absolute_points
-            )
+            self.absolute_points = coordinate_transformation.rel_to_abs(self.points)
-- 
2.43.0


From 7395460dd628c40729f4ad3705a625fb2a73a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 04/28] fix: do not loop forever when matching with large
 thresholds

distance_threshold + 1 can round to a float32 below distance_threshold (e.g.
1000000020), so matched rows were picked again and update never returned.
---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 0305f7b..cd7079d 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -376,8 +376,8 @@ class Tracker:
                 obj_idx = flattened_arg_min % distance_matrix.shape[1]
                 det_idxs.append(det_idx)
                 obj_idxs.append(obj_idx)
-                distance_matrix[det_idx, :] = distance_threshold + 1
-                distance_matrix[:, obj_idx] = distance_threshold + 1
+                distance_matrix[det_idx, :] = np.inf
+                distance_matrix[:, obj_idx] = np.inf
                 current_min = distance_matrix.min()
 
             return det_idxs, obj_idxs
-- 
2.43.0


From f147ecd95213c86e13da84aa7e241a7b20b749c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 05/28] fix: stop the reid countdown when the object is matched
 again

An object matched in the very update in which its hit counter ran out kept
counting down reid_hit_counter and was destroyed later while being matched on
every frame.
---
 norfair/tracker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index cd7079d..61b75f7 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -626,6 +626,7 @@ class TrackedObject:
 
         self.last_detection = detection
         self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
+        self.reid_hit_counter = None
 
         if self.is_initializing and self.hit_counter > self.initialization_delay:
             self.is_initializing = False
-- 
2.43.0


From 5da4364a3fb74b0b21393886bdf1bb367da6a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 06/28] fix: only re-identify objects that were initialized

New objects could be merged into lost objects that never finished initializing:
the new object then vanished instead of being reported.
---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 61b75f7..a4696df 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -195,7 +195,7 @@ class Tracker:
                     tracked_objects.append(o)
                     if o.hit_counter_is_positive:
                         alive_objects.append(o)
-                    else:
+                    elif not o.is_initializing:
                         dead_objects.append(o)
             self.tracked_objects = tracked_objects
 
-- 
2.43.0


From fc02bdfd80d6141ae02c63e7428abccb94376d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 07/28] fix: keep global ids unique when trackers run in
 different threads

---
 norfair/tracker.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index a4696df..8d8b1b0 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -1,4 +1,5 @@
 from logging import warning
+from threading import Lock
 from typing import Any, Callable, Hashable, List, Optional, Sequence, Tuple, Union
 
 import numpy as np
@@ -387,6 +388,7 @@ class Tracker:
 
 class _TrackedObjectFactory:
     global_count = 0
+    _global_count_lock = Lock()
 
     def __init__(self) -> None:
         self.count = 0
@@ -426,8 +428,9 @@ class _TrackedObjectFactory:
 
     def get_ids(self) -> Tuple[int, int]:
         self.count += 1
-        _TrackedObjectFactory.global_count += 1
-        return self.count, _TrackedObjectFactory.global_count
+        with _TrackedObjectFactory._global_count_lock:
+            _TrackedObjectFactory.global_count += 1
+            return self.count, _TrackedObjectFactory.global_count
 
 
 class TrackedObject:
-- 
2.43.0


From b7f7624d381914a9bce4455fdda20dec14061216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 08/28] fix: compare labels by equality in vectorized distances

Labels were compared as strings of a numpy array: 1 matched "1", None matched
"None", and mixed types (1 and 2.5), bytes or tuples raised.
---
 norfair/distances.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index d7d7e4c..2555fca 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -151,26 +151,24 @@ class VectorizedDistance(Distance):
         if not objects or not candidates:
             return distance_matrix
 
-        object_labels = np.array([o.label for o in objects]).astype(str)
-        candidate_labels = np.array([c.label for c in candidates]).astype(str)
+        object_labels = {o.label for o in objects}
+        candidate_labels = {c.label for c in candidates}
 
         # iterate over labels that are present both in objects and detections
-        for label in np.intersect1d(
-            np.unique(object_labels), np.unique(candidate_labels)
-        ):
+        for label in object_labels & candidate_labels:
             # generate masks of the subset of object and detections for this label
-            obj_mask = object_labels == label
-            cand_mask = candidate_labels == label
+            obj_mask = np.array([o.label == label for o in objects])
+            cand_mask = np.array([c.label == label for c in candidates])
 
             stacked_objects = []
             for o in objects:
-                if str(o.label) == label:
+                if o.label == label:
                     stacked_objects.append(o.estimate.ravel())
             stacked_objects = np.stack(stacked_objects)
 
             stacked_candidates = []
             for c in candidates:
-                if str(c.label) == label:
+                if c.label == label:
                     if "Detection" in str(type(c)):
                         stacked_candidates.append(c.points.ravel())
                     else:
-- 
2.43.0


From 9e7066bc1d454c887514c2d1b4df1400a08492b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 09/28] fix: accept upper case hex colors, as in the documented
 "#FF0000"

---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index 40fc4d9..b38a9fb 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-f0-9]{6}$", hex_value):
+    if re.match("#[a-fA-F0-9]{6}$", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-f0-9]{3}$", hex_value):
+    if re.match("#[a-fA-F0-9]{3}$", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From 03ddaea3ea15b00f146454ba961e8688e5bf559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 10/28] fix: draw_points returns the frame when there is
 nothing to draw

---
 norfair/drawing/draw_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index e513e30..23edaf5 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -113,7 +113,7 @@ def draw_points(
     # end
 
     if drawables is None:
-        return
+        return frame
 
     if text_color is not None:
         text_color = parse_color(text_color)
-- 
2.43.0


From 103a264bee5abeb2efe63784f70ee0eab55102ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 11/28] fix: draw_points with hide_dead_points=False on objects
 without live points

The title was placed at the mean of no points, which made cv2.putText raise.
---
 norfair/drawing/draw_points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 23edaf5..e886ea3 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -160,7 +160,8 @@ def draw_points(
                     )
 
         if draw_labels or draw_ids or draw_scores:
-            position = d.points[d.live_points].mean(axis=0)
+            visible = d.live_points if d.live_points.any() else slice(None)
+            position = d.points[visible].mean(axis=0)
             position -= radius
             text = _build_text(
                 d, draw_labels=draw_labels, draw_ids=draw_ids, draw_scores=draw_scores
-- 
2.43.0


From 0771ad6672411d554769874b637d70db830d0f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 12/28] fix: get_cutout with points left of or above the image

Negative coordinates were interpreted as counting from the other end.
---
 norfair/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 98e0d90..c1947ab 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -60,10 +60,10 @@ def get_terminal_size(default: Tuple[int, int] = (80, 24)) -> Tuple[int, int]:
 
 def get_cutout(points, image):
     """Returns a rectangular cut-out from a set of points on an image"""
-    max_x = int(max(points[:, 0]))
-    min_x = int(min(points[:, 0]))
-    max_y = int(max(points[:, 1]))
-    min_y = int(min(points[:, 1]))
+    max_x = max(int(max(points[:, 0])), 0)
+    min_x = max(int(min(points[:, 0])), 0)
+    max_y = max(int(max(points[:, 1])), 0)
+    min_y = max(int(min(points[:, 1])), 0)
     return image[min_y:max_y, min_x:max_x]
 
 
-- 
2.43.0


From f9d540e01f479dc3e82513160d45ce8dba55cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 13/28] fix: print_objects_as_table with objects that were
 never matched

---
 norfair/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index c1947ab..4a03812 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -41,7 +41,7 @@ def print_objects_as_table(tracked_objects: Sequence):
             str(obj.id),
             str(obj.age),
             str(obj.hit_counter),
-            f"{obj.last_distance:.4f}",
+            "-" if obj.last_distance is None else f"{obj.last_distance:.4f}",
             str(obj.initializing_id),
         )
     console.print(table)
-- 
2.43.0


From c86a336c2cab0b780807e1c31bf7e60252960891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 14/28] fix: parse detection files with one row or none

---
 norfair/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b1e056d..3933500 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -110,7 +110,11 @@ class DetectionFileParser:
         # frame, id, bb_left, bb_top, bb_right, bb_down, conf, x, y, z
         detections_path = os.path.join(input_path, "det/det.txt")
 
-        self.matrix_detections = np.loadtxt(detections_path, dtype="f", delimiter=",")
+        self.matrix_detections = np.loadtxt(
+            detections_path, dtype="f", delimiter=",", ndmin=2
+        )
+        if self.matrix_detections.size == 0:
+            self.matrix_detections = np.empty((0, 7), dtype="f")
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From 602a85e44ec7eb109b437fed3eca60c6be58cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 15/28] fix: evaluate sequences with a single prediction

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 3933500..8c7f857 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -207,7 +207,7 @@ class Accumulators:
                 -1,
             ]
             if np.shape(self.matrix_predictions)[0] == 0:
-                self.matrix_predictions = new_row
+                self.matrix_predictions = np.array([new_row])
             else:
                 self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
         self.frame_number += 1
-- 
2.43.0


From c1e87fbfe137d095121e52a19192ec530bf80dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 16/28] fix: put the camera number in the generated output file
 name

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 83abbd4..58828e1 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -258,7 +258,7 @@ class Video:
         if self.input_path is not None:
             file_name = self.input_path.split("/")[-1].split(".")[0]
         else:
-            file_name = "camera_{self.camera}"
+            file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
 
         return os.path.join(self.output_path, file_name)
-- 
2.43.0


From bfe41daede05cbb25e2b359be789545fdbce09df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 17/28] fix: Video.show with a float downsample_ratio

---
 norfair/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 58828e1..29828d4 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -234,8 +234,8 @@ class Video:
             frame = cv2.resize(
                 frame,
                 (
-                    frame.shape[1] // downsample_ratio,
-                    frame.shape[0] // downsample_ratio,
+                    int(frame.shape[1] // downsample_ratio),
+                    int(frame.shape[0] // downsample_ratio),
                 ),
             )
         cv2.imshow("Output", frame)
-- 
2.43.0


From ca10ff00890c0d2393606067ecc53878d897f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 18/28] fix: compute IoU of small integer boxes without
 overflow

---
 norfair/distances.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/norfair/distances.py b/norfair/distances.py
index 2555fca..2db7225 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -365,6 +365,10 @@ def iou(candidates: np.ndarray, objects: np.ndarray) -> np.ndarray:
     """
     _validate_bboxes(candidates)
 
+    # Small integer types would overflow or wrap around below
+    candidates = candidates.astype(float)
+    objects = objects.astype(float)
+
     area_candidates = _boxes_area(candidates.T)
     area_objects = _boxes_area(objects.T)
 
-- 
2.43.0


From b9de2f02e472136f9a8891932d3b9ac6067dbd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 19/28] fix: accept fractional frame rates in seqinfo.ini

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 29828d4..827eeed 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -311,7 +311,7 @@ class VideoFromFrames:
             file_name = os.path.split(input_path)[1]
 
             # Search framerate on seqinfo.ini
-            fps = information_file.search(variable_name="frameRate")
+            fps = float(information_file.search(variable_name="frameRate"))
 
             # Search resolution in seqinfo.ini
             horizontal_resolution = information_file.search(variable_name="imWidth")
-- 
2.43.0


From 8b710f8c6219c4f2d14cbcc84ab491321268f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 20/28] fix: do not confuse information file entries that share
 a prefix

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 8c7f857..3d24100 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -26,7 +26,7 @@ class InformationFile:
 
     def search(self, variable_name):
         for line in self.lines:
-            if line[: len(variable_name)] == variable_name:
+            if line.startswith(variable_name + "="):
                 result = line[len(variable_name) + 1 :]
                 break
         else:
-- 
2.43.0


From df141db6b4b43dcefae1a329961e549816e67467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 21/28] fix: let Accumulators.update be called without
 predictions

---
 norfair/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 3d24100..48d7c71 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -192,6 +192,8 @@ class Accumulators:
         )
 
     def update(self, predictions=None):
+        if predictions is None:
+            predictions = []
         # Get the tracked boxes from this frame in an array
         for obj in predictions:
             new_row = [
-- 
2.43.0


From 3c2c424733de900968e2780004bb21c7c808657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 22/28] fix: reject hex colors followed by a newline

---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index b38a9fb..e71a5e3 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-fA-F0-9]{6}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{6}", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-fA-F0-9]{3}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{3}", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From 3ffe39a0c2508fd11820e05d3274cdd7bff358fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:06 +0000
Subject: [PATCH 23/28] fix: report the missing metrics dependencies instead of
 an undefined name

Without motmetrics, load_motchallenge failed with NameError: name 'pd' is
not defined, because the placeholder was bound to 'pandas'.
---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 48d7c71..a134ae8 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -13,7 +13,7 @@ except ImportError:
     from .utils import DummyMOTMetricsImport
 
     mm = DummyMOTMetricsImport()
-    pandas = DummyMOTMetricsImport()
+    pd = DummyMOTMetricsImport()
 from collections import OrderedDict
 
 
-- 
2.43.0


From c5cf3b374a01d03d1dde3cb77d0033c9c8e186df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:21 +0000
Subject: [PATCH 24/28] fix: deprecated color flags set to False do not change
 the color

---
 norfair/drawing/draw_boxes.py  | 6 ++++--
 norfair/drawing/draw_points.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/norfair/drawing/draw_boxes.py b/norfair/drawing/draw_boxes.py
index 57789db..756fa25 100644
--- a/norfair/drawing/draw_boxes.py
+++ b/norfair/drawing/draw_boxes.py
@@ -100,12 +100,14 @@ def draw_boxes(
         warn_once(
             'Parameter "random_color" is deprecated, set `color="random"` instead'
         )
-        color = "random"
+        if random_color:
+            color = "random"
     if color_by_label is not None:
         warn_once(
             'Parameter "color_by_label" is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once('Parameter "detections" is deprecated, use "drawables" instead')
         drawables = detections
diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index e886ea3..fe3da15 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -99,7 +99,8 @@ def draw_points(
         warn_once(
             'Parameter "color_by_label" on function draw_points is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once(
             "Parameter 'detections' on function draw_points is deprecated, use 'drawables' instead"
-- 
2.43.0


From f8e765ec291dabfc8b0c9ddb748ac70923311f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:23 +0000
Subject: [PATCH 25/28] fix: a clock that has not advanced does not end the
 video iteration

---
 norfair/video.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 827eeed..377a8ed 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -160,7 +160,9 @@ class Video:
                 ret, frame = self.video_capture.read()
                 if ret is False or frame is None:
                     break
-                process_fps = self.frame_counter / (time.time() - start)
+                elapsed = time.time() - start
+                # the clock may be too coarse to have advanced since the start
+                process_fps = self.frame_counter / elapsed if elapsed > 0 else 0
                 progress_bar.update(
                     self.task, advance=1, refresh=True, process_fps=process_fps
                 )
-- 
2.43.0


From 0a5399eac3f15629a7c886bd93534c7458fc9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:28 +0000
Subject: [PATCH 26/28] fix: a Detection used again without
 coord_transformations kept the absolute points of its last transformation

---
 norfair/tracker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 8d8b1b0..7897bf5 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -177,9 +177,13 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None and detections is not None:
+        if detections is not None:
             for det in detections:
-                det.update_coordinate_transformation(coord_transformations)
+                if coord_transformations is not None:
+                    det.update_coordinate_transformation(coord_transformations)
+                elif isinstance(det, Detection):
+                    # it may have been used before with a transformation
+                    det.absolute_points = det.points.copy()
 
         # Remove stale trackers and make candidate object real if the hit counter is positive
         alive_objects = []
-- 
2.43.0


From e7ba7d7337d0b180702143473feae0b844c8491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:33 +0000
Subject: [PATCH 27/28] fix: sampling of past_detections went wrong when a
 Detection was used more than once

---
 norfair/tracker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 7897bf5..7b26aa0 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -532,6 +532,8 @@ class TrackedObject:
             self.past_detections: Sequence["Detection"] = [initial_detection]
         else:
             self.past_detections: Sequence["Detection"] = []
+        # the detections' own `age` is overwritten when they are used again
+        self._past_detections_ages = [self.age]
 
         # Create Kalman Filter
         self.filter = filter_factory.create_filter(initial_detection.absolute_points)
@@ -717,10 +719,13 @@ class TrackedObject:
         if len(self.past_detections) < self.past_detections_length:
             detection.age = self.age
             self.past_detections.append(detection)
-        elif self.age >= self.past_detections[0].age * self.past_detections_length:
+            self._past_detections_ages.append(self.age)
+        elif self.age >= self._past_detections_ages[0] * self.past_detections_length:
             self.past_detections.pop(0)
+            self._past_detections_ages.pop(0)
             detection.age = self.age
             self.past_detections.append(detection)
+            self._past_detections_ages.append(self.age)
 
     def merge(self, tracked_object):
         """Merge with a not yet initialized TrackedObject instance"""
-- 
2.43.0


From a03668b98f372e03f4d28bbc82fc3ce9b77c61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:06 +0000
Subject: [PATCH 28/28] fix: vectorized distances accept any class derived from
 Detection

---
 norfair/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index 2db7225..753d037 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -169,7 +169,7 @@ class VectorizedDistance(Distance):
             stacked_candidates = []
             for c in candidates:
                 if c.label == label:
-                    if "Detection" in str(type(c)):
+                    if hasattr(c, "points"):  # a detection, of any class
                         stacked_candidates.append(c.points.ravel())
                     else:
                         stacked_candidates.append(c.estimate.ravel())
-- 
2.43.0

