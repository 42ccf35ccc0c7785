"""Source of properties.jsonl (kept as Python because it is easier to review than one-line JSON).
Run: python3 tools/gen_properties.py  -> rewrites /verif/properties.jsonl"""
import json, os
T = "norfair/tracker.py"; F = "norfair/filter.py"; D = "norfair/distances.py"; C = "norfair/camera_motion.py"
M = "norfair/metrics.py"; V = "norfair/video.py"; U = "norfair/utils.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Object identities are unique, stable and never reused",
  "Every object a tracker reports carries a positive integer id that no other object of that tracker, past or present, ever carries, and keeps it (and its global id) unchanged for as long as it exists; while it is initializing both are None. Ids are handed out consecutively from 1 in each tracker and total_object_count is the number handed out so far; initializing ids are unique within the tracker and never change. Global ids are unique across all trackers of the process, including trackers that are updated from different threads.",
  ["histories", "schedules", "configurations"],
  "For every tracker configuration, every sequence of updates (births, deaths, gaps, re-identifications), any number of trackers, and every interleaving of threads that each drive their own tracker.",
  "The tests check ids on one- and two-object histories with one tracker at a time; reuse after death, uniqueness across many trackers and threads need long mixed histories and schedules.",
  [T], [("_TrackedObjectFactory.get_ids / get_initializing_id", T), ("TrackedObject._acquire_ids called once at the end of initialization", T)],
  ["TrackedObject.id", "TrackedObject.global_id", "TrackedObject.initializing_id", "Tracker.total_object_count"],
  [dict(name="count/global_count/initializing_count", meaning="id allocators", where=T)])

p("C02", "Every detection is used exactly once",
  "In each update every detection passed in is either given to exactly one already tracked object or starts exactly one new object: none is lost, duplicated, or both matched and used to start an object. An object takes at most one detection per update, its last_detection is that detection, and only that detection's points reach its filter; an object that takes none keeps its previous last_detection. New objects appear only from detections of that update, one per unmatched detection, with the detection's number of points, label and position.",
  ["histories", "inputs", "configurations"],
  "For every sequence of detection lists of any size (empty, None, duplicates of the same position, many more detections than objects and vice versa) and any distances between them.",
  "Tests feed at most two well-separated detections, so contention, surplus and leftovers between the two matching stages are never exercised.",
  [T], [("Tracker._update_objects_in_place hands the unmatched remainder to the next stage", T), ("Tracker.update creates one object per remaining detection", T)],
  ["TrackedObject.last_detection", "filter factory and filter calls", "Tracker.tracked_objects"])

p("C03", "Matching is one-to-one, nearest first, and below the threshold",
  "Detections are first matched against initialized objects, and only those left over against objects still initializing. Within each stage, pairs are taken one-to-one in order of increasing distance, only while the distance is strictly below distance_threshold; no same-label pair below the threshold is left with both sides unmatched, and last_distance is the distance of the pair that was matched. This holds for any finite or infinite threshold and update always terminates.",
  ["inputs", "histories", "configurations"],
  "For every matrix of distances the user's distance function may produce (ties, zeros, negatives, infinities, values at the threshold) and every threshold, over all histories that lead to the set of objects being matched.",
  "Tests only exercise 1x1 and 2x2 well-separated matches; a greedy-order error needs a conflict structure no test produces.",
  [T], [("Tracker.match_dets_and_objs greedy loop", T), ("two calls of _update_objects_in_place in update", T)],
  ["user distance function arguments and return values", "TrackedObject.last_detection", "TrackedObject.last_distance"])

p("C04", "Objects and detections with different labels never match",
  "A detection is only ever matched to an object whose label equals its own (None counts as a label of its own), and re-identification only joins objects of equal label, whatever the distance would be; an object's label never changes. This holds for every distance kind (user function, predefined, vectorized, scipy) and for labels of any hashable type, alone or mixed in one frame, and detections of different labels may have different numbers of points. Objects and detections of one label behave exactly as they would if the other labels were not present.",
  ["inputs", "histories", "configurations"],
  "For every assignment of hashable labels (str, int, float, bool, bytes, tuple, enum, None and mixtures) to the detections of every frame.",
  "No tracker test uses labels (listed as a TODO in the test file), and the label filter is implemented separately in the scalar and the vectorized distance.",
  [D, T], [("label test in ScalarDistance.get_distances", D), ("per-label masks in VectorizedDistance.get_distances", D)],
  ["TrackedObject.label", "last_detection.label"])

p("C05", "Objects are born, kept and dropped exactly on the hit-counter schedule",
  "An object starts with a hit counter of `period`; each update takes one off, and each match adds 2*period up to hit_counter_max. It stops initializing in the update in which its counter first exceeds initialization_delay (default half of hit_counter_max), is reported while its counter is at least 0, and (without re-identification) is dropped for good in the update after its counter fell below 0. age counts the updates since it was created, so a tracker that stops receiving detections holds no objects after a bounded number of updates.",
  ["histories", "configurations"],
  "For all hit_counter_max, initialization_delay and period values (period may change between updates) and all match/miss patterns.",
  "Tests run three delays with an always-hit-then-never-hit pattern and period 1; irregular patterns and periods above 1 are untested.",
  [T], [("hit counter arithmetic in tracker_step / hit", T), ("filtering by hit_counter_is_positive in update", T)],
  ["Tracker.update return value", "Tracker.tracked_objects", "TrackedObject.hit_counter", "TrackedObject.age"])

p("C06", "Re-identification restores the old identity and nothing else kills a live object",
  "With re-identification enabled, an initialized object that stops being matched is no longer reported once its hit counter is below 0, but stays recoverable until its reid counter (started at reid_hit_counter_max when the hit counter runs out, one less per update) falls below 0; then it is dropped for good. While recoverable or unmatched, if an object in its initialization phase that was matched in this update lies strictly below reid_distance_threshold (nearest pairs first, one-to-one), the old object continues with its own id, taking over the new object's position, last detection, point status and (by the usual sampling) past detections, and the new object disappears. Only objects that were already initialized can be restored in this way, and an object that is matched again is never dropped while it keeps being matched.",
  ["histories", "configurations"],
  "For every interleaving of matches, misses, deaths and re-identifications, every reid_hit_counter_max, distance and threshold.",
  "One test covers one object with one revival; contention between several lost objects, repeated loss and recovery and the counter after a plain re-match are not tested.",
  [T], [("reid stage of Tracker.update", T), ("TrackedObject.merge", T), ("reid_hit_counter in tracker_step / hit", T)],
  ["reid distance callback", "TrackedObject.id", "Tracker.update return value"])

p("C07", "update reports exactly the active objects, consistently across the API",
  "update returns exactly the tracked objects that are initialized and have a non-negative hit counter, each once; get_active_objects returns the same objects, current_object_count is their number, and asking any of these does not change the tracker. Passing None, an empty list, or no argument as detections are equivalent and still advance every object by one frame. The object returned for a given id is the same Python object from one update to the next until it is dropped, so a handle the user keeps stays current.",
  ["histories", "configurations"],
  "For every history and configuration, with queries inserted at arbitrary points.",
  "Tests look at list lengths on single-object histories only.",
  [T], [("Tracker.get_active_objects", T), ("Tracker.current_object_count", T)],
  ["Tracker.update return value", "Tracker.get_active_objects()", "Tracker.current_object_count"])

p("C08", "The default filter is the standard constant-velocity Kalman filter",
  "With OptimizedKalmanFilterFactory(R, Q, pos_variance, pos_vel_covariance, vel_variance), each coordinate's estimate and estimate_velocity equal those of the textbook two-state constant-velocity Kalman filter with measurement noise R, process noise Q on both position and velocity and the given initial covariance, started at the first detection with zero velocity. In a frame without a match the position moves by exactly the estimated velocity and nothing else changes (the covariance is propagated once per received detection); coordinates masked out of a measurement only have their covariance propagated. Estimates stay finite and a static object's estimate stays on it, for any number of frames.",
  ["inputs", "histories", "configurations"],
  "For all parameter values, numbers and dimensions of points, measurement sequences and gaps.",
  "Tests only check that an estimate lies in a wide interval after four frames; the closed-form update has many terms none of which is pinned.",
  [F, T], [("OptimizedKalmanFilter.predict/update", F), ("OptimizedKalmanFilterFactory.create_filter", F), ("TrackedObject.hit builds H", T)],
  ["TrackedObject.estimate", "TrackedObject.estimate_velocity", "filter.x"])

p("C09", "The alternative filters do what they document",
  "FilterPyKalmanFilterFactory(R, Q, P) tracks like a dense constant-velocity Kalman filter with measurement noise R*I, process noise identity on positions and Q*I on velocities, and initial covariance identity on positions and P*I on velocities, predicting every frame. With NoFilterFactory the estimate is always the last detected position of each point and the velocity is zero. A user-supplied filter factory is called once per new object with the object's absolute initial points, and its filter gets one predict per later frame and one update per match.",
  ["inputs", "histories", "configurations"],
  "For all parameter values, point counts and dimensions, measurement sequences, gaps and partial detections.",
  "NoFilterFactory has no test at all and the FilterPy variant is only tested against wide intervals.",
  [F, T], [("FilterPyKalmanFilterFactory.create_filter", F), ("NoFilter.update", F), ("TrackedObject.tracker_step/hit", T)],
  ["TrackedObject.estimate", "TrackedObject.estimate_velocity", "custom filter calls"])

p("C10", "Low-score points never influence the track",
  "Points of a matched detection whose score is not above detection_threshold have no effect: replacing their coordinates by any finite values leaves every later estimate and velocity of every point that has been seen so far, and all live-point flags, unchanged. A point that was below the threshold until now and is detected for the first time takes exactly its detected position with zero velocity, whichever other points are seen in the same frame. Detections without scores count as fully seen.",
  ["inputs", "histories"],
  "For all score patterns over time, numbers and dimensions of points, thresholds and filters.",
  "Partial matches are listed as a TODO in the test file: no tracker test uses scores.",
  [T], [("TrackedObject.hit sensor masks and first-detection handling", T)],
  ["TrackedObject.estimate", "TrackedObject.estimate_velocity", "TrackedObject.live_points"],
  [dict(name="detected_at_least_once_points", meaning="which points have ever been seen", where=T)])

p("C11", "live_points follows the per-point inertia",
  "Each point of an object has its own counter: 1 at creation if the point was seen and 0 otherwise, one less per update, plus 2*period when seen in a match, never above the larger of pointwise_hit_counter_max and the period at creation, and raised back to 0 at a match if it had become negative; the point is live exactly while the counter is positive. live_points is a boolean array with one entry per point, and one point's flags never depend on other points.",
  ["histories", "configurations"],
  "For all score patterns, periods, pointwise_hit_counter_max values and match/miss histories.",
  "pointwise_hit_counter_max is listed as a TODO in the test file; live_points is never tested.",
  [T], [("point_hit_counter arithmetic in __init__/tracker_step/hit", T)], ["TrackedObject.live_points"])

p("C12", "past_detections is a bounded, chronological sample of real matches",
  "past_detections never holds more than past_detections_length detections (none if 0), and each entry is a detection that was matched to this object (or started it), in chronological order and, when detections are distinct, without repeats; its age is the object's age when it was matched. Until the buffer is full every match is kept; afterwards a match replaces the oldest entry exactly when the object's age has reached past_detections_length times the age of that oldest entry, so that the entries stay spread over the object's lifetime.",
  ["histories", "configurations"],
  "For all buffer lengths, track lengths and match/miss patterns.",
  "Past detections are listed as a TODO in the test file.",
  [T], [("TrackedObject._conditionally_add_to_past_detections", T)], ["TrackedObject.past_detections", "Detection.age"])

p("C13", "Tracking under camera motion is tracking in absolute coordinates",
  "When every update passes a coordinate transformation, a tracker behaves exactly like a tracker without transformations that is fed the absolute positions of the same detections: same matches and ids, get_estimate(absolute=True) and estimate_velocity equal the other tracker's values, and estimate equals the current transformation of the absolute estimate, also for objects that were not matched in that frame. A detection's absolute_points are the transformation of its points for that update, however often the detection has been used before, its points are never changed, and detections may be None. Without transformations, asking for the absolute estimate raises ValueError.",
  ["inputs", "histories"],
  "For all sequences of (invertible) transformations, detections and misses, with translations and homographies.",
  "One test makes a single update with a mocked transformation; moving cameras over several frames are not tested.",
  [T, C], [("Detection.update_coordinate_transformation", T), ("TrackedObject.get_estimate / abs_to_rel refreshed every update", T)],
  ["TrackedObject.get_estimate", "Detection.absolute_points"])

p("C14", "Trackers are deterministic, isolated from each other and from the caller's data",
  "A tracker's outputs are a function of its own configuration and update history: replaying it gives bitwise equal results (apart from global ids), and any other trackers in the process, interleaved in any way, configured in any way and even sharing the filter factory, do not change them. Updates never change the caller's list, or a detection's points, scores, data, label or embedding. Arrays and lists the tracker returns are snapshots: modifying them does not change what the tracker does later.",
  ["histories", "configurations", "inputs"],
  "For all histories, interleavings of several trackers and modifications of returned values.",
  "One test creates two trackers and looks at one counter each.",
  [T, F, D], [("per-tracker factory and per-object filter state", T), ("copies in get_estimate, create_filter, Detection.__init__", T)],
  ["everything update returns"])

p("C15", "Tracking does not depend on listing order, origin or units",
  "When no two distances tie, permuting the detections inside each frame yields the same trajectories - the same detections grouped into the same objects, with the same estimates, ages and live points - differing at most in how ids are numbered. Shifting every detection of a history by one constant vector shifts every estimate by that vector and leaves matches, ids and velocities unchanged (for the translation-invariant distances); measuring everything, including the distance threshold, in other units or along mirrored axes just converts the estimates and velocities.",
  ["inputs", "histories"],
  "For all histories without ties, all permutations and all shifts and units of ordinary magnitude.",
  "A relation between two runs over arbitrary histories cannot be stated by example tests.",
  [T, D, F], [("greedy matching by value, not position", T), ("linear filters", F)], ["TrackedObject.estimate", "last_detection"])

p("C16", "Dropped objects and their detections are released",
  "Once an object has been dropped, nothing in the library keeps it, its filter or its detections alive; an object in turn keeps alive at most past_detections_length detections plus the last one, and nothing in the library keeps alive a frame's detections beyond that. A tracker running over an unbounded stream therefore holds a number of objects and detections that depends only on the recent frames.",
  ["histories", "configurations"],
  "For all histories and configurations, with every distance kind, re-identification and camera motion.",
  "Tests never look at object lifetime; leaks only show over long runs.",
  [T, D, C], [("tracked_objects is rebuilt each update", T), ("bounded past_detections", T)], ["weak references", "gc"])

p("C17", "Predefined distances compute their documented formulas",
  "frobenius, mean_euclidean, mean_manhattan, the keypoint voting distance and the normalized mean euclidean distance return the value of their documented formula for any points of matching shape and any numeric dtype, without modifying their arguments. Keypoint voting counts the points closer than keypoint_distance_threshold whose scores in both the detection and the object's last detection are above detection_threshold, and returns 1/(1+count); the normalized distance divides x by width and y by height.",
  ["inputs", "configurations"],
  "For all point arrays (1 to many points, 2-D and for the unnormalized ones any dimension, int and float, small to large magnitudes) and all parameters.",
  "Tests check a handful of 2x2 integer examples.",
  [D], [("frobenius, mean_euclidean, mean_manhattan", D), ("create_keypoints_voting_distance, create_normalized_mean_euclidean_distance", D)],
  ["return values"])

p("C18", "The distance matrix pairs the right rows with the right columns",
  "get_distances(objects, candidates) returns a matrix with one row per candidate and one column per object, in the given order, whose entry is the distance between that candidate and that object if their labels are equal and infinity otherwise, also when either list is empty. A scalar function is called only for equal-label pairs with (candidate, object); vectorized and scipy distances, including those selected by name, receive the flattened points of the candidates and the flattened estimates of the objects, so that each entry equals the metric of that pair. Names select the documented distance, and unknown names raise ValueError.",
  ["inputs", "configurations"],
  "For all lists of detections or tracked objects as candidates, all label assignments and orders, all predefined and scipy metric names.",
  "Tests use one or two candidates with at most two labels.",
  [D], [("ScalarDistance/VectorizedDistance/ScipyDistance.get_distances", D), ("get_distance_by_name", D)], ["returned matrix", "callback arguments"])

p("C19", "IoU distance is one minus intersection over union",
  "For any two sets of well-formed boxes, iou(candidates, objects)[i, j] equals 1 minus the area of the intersection divided by the area of the union of box i and box j; hence it lies in [0, 1], is 0 only for identical boxes, 1 exactly for boxes without overlap, symmetric, and unchanged by shifting or scaling both boxes. iou_opt is the same function, and arrays that are not (N, 4) are rejected.",
  ["inputs"],
  "For all box sets (nested, touching, disjoint, identical, any numeric dtype and magnitude, any N and K).",
  "Tests check a few unit-square examples.",
  [D], [("iou", D), ("_validate_bboxes", D)], ["return value"])

p("C20", "Invalid inputs are rejected with an error instead of corrupting tracking",
  "Constructing a tracker with an unknown distance name, a distance that is neither name nor callable, a negative past_detections_length or an initialization_delay outside [0, hit_counter_max) raises ValueError, and every valid combination is accepted. A distance function (or re-identification distance function) that returns NaN for any pair makes update raise ValueError instead of matching; a track cannot be started from something that is not a Detection, and points of rank above 2 are rejected (ValueError both), while rank-1 points are treated as a single point.",
  ["inputs", "configurations"],
  "For all parameter combinations, and NaN at any position of any stage at any time of a history.",
  "Tests cover four invalid constructor calls; NaN handling is not tested.",
  [T, U, D], [("Tracker.__init__ validation", T), ("NaN check in _update_objects_in_place", T), ("validate_points", U)], ["exceptions"])

p("C21", "Coordinate transformations are exact inverses of each other",
  "For TranslationTransformation and HomographyTransformation, rel_to_abs and abs_to_rel undo each other up to rounding for every point away from the horizon. abs_to_rel adds the movement vector, respectively applies the homography with perspective division; points on the horizon give finite results; neither changes its argument or the transformation, results have the shape of the input, and each point is transformed independently of the others.",
  ["inputs"],
  "For all translation vectors, well-conditioned homographies and point arrays (any number of points).",
  "The transformation classes have no test; the tracker test replaces them with a mock.",
  [C], [("TranslationTransformation", C), ("HomographyTransformation", C)], ["return values"])

p("C22", "Transformation estimates accumulate motion since the first frame",
  "Given point pairs that follow one motion up to noise below half a bin and a minority of outliers, TranslationTransformationGetter returns the most frequent flow (to bin precision) and HomographyTransformationGetter the homography mapping reference to current points, fitted by the method and reprojection threshold it was given, composed with the motion accumulated up to the current reference frame, so the result maps first-frame coordinates to the current frame. They ask for a new reference frame exactly when the share of agreeing points is below proportion_points_used_threshold, and only then is the motion accumulated; with fewer than four points the homography getter asks for a new reference and returns the accumulated homography, or None if there is none.",
  ["inputs", "histories"],
  "For all motions, point clouds, outlier shares, bin sizes, thresholds and sequences of reference updates.",
  "The camera-motion module has no test at all.",
  [C], [("TranslationTransformationGetter.__call__", C), ("HomographyTransformationGetter.__call__", C)], ["returned flag and transformation"])

p("C23", "MotionEstimator recovers the camera's motion from the frames",
  "For a video of a static textured scene seen by a moving camera, the transformation returned for each frame maps scene points to where that frame shows them, within a tolerance that grows only with the number of reference updates; the first frame's transformation is the identity. Masked-out regions do not influence the estimate. Frames without texture, at any time, never make update raise (None is returned if nothing is known), and frames are not modified unless draw_flow is set, which marks the tracked points and their flow in flow_color (by default a dark red) and nothing else.",
  ["inputs", "histories"],
  "For all camera paths (pan, zoom, rotation within optical-flow range), scenes, masks and positions of degenerate frames.",
  "The camera-motion module has no test at all.",
  [C], [("MotionEstimator.update", C), ("_get_sparse_flow", C)], ["returned transformation", "frame contents"])

p("C24", "The predictions file records every reported object exactly once",
  "PredictionsTextFile writes, for each update in order, one MOTChallenge line per object - frame number, id, left, top, width, height of its box and four -1 fields - and nothing else; reading the file back gives exactly the reported values. Frame numbers count from 1 unless given, and after seqLength updates the file is complete on disk and closed.",
  ["inputs", "histories"],
  "For all sequences of predictions (empty frames included), box coordinates and explicit frame numbers.",
  "The metrics module has no unit test.",
  [M], [("PredictionsTextFile.update", M)], ["file contents"])

p("C25", "Detection files are parsed into one detection per row, under the right frame",
  "DetectionFileParser yields, for frame 1 to seqLength in order, exactly the detections of the rows of det.txt with that frame number: corner points (left, top) and (left+width, top+height) and the confidence as the score of both points. Rows may be in any order, frames may be empty, the file may hold any number of rows, and the parser can be iterated repeatedly with the same result.",
  ["inputs"],
  "For all det.txt contents (any row order, counts per frame, missing frames, 7 or 10 columns).",
  "The metrics module has no unit test.",
  [M], [("DetectionFileParser.__init__ / get_dets_from_frame / __next__", M), ("InformationFile.search", M)], ["iteration results"])

p("C26", "MOT metrics count exactly the errors that were made",
  "Accumulators evaluates each sequence against its own ground truth: predictions equal to the ground truth score MOTA 1 with no errors, and each dropped box counts as one miss, each extra box as one false positive (a box overlapping its object by less than half is both) and each identity change as one switch, in the per-sequence rows and in OVERALL; MOTP is the mean of one minus the overlap of the matched boxes, and ground-truth rows of zero confidence are ignored. This holds for any number of sequences, frames without predictions anywhere, and sequences with no or a single prediction; save_metrics writes the summary.",
  ["inputs", "histories"],
  "For all ground truths of well-separated boxes and all injected error patterns, over one or several sequences.",
  "The only metrics test needs a downloaded dataset and checks one number.",
  [M], [("Accumulators.update", M), ("load_motchallenge", M), ("eval_motChallenge", M)], ["summary_dataframe", "saved file"])

p("C27", "Video delivers and writes every frame exactly once, in order",
  "Iterating a Video yields every frame of the input file once, in order and unmodified, and then ends; every frame passed to write ends up in the output file once, in order, with the written frame's size and the input's frame rate (or output_fps), and the file is complete when iteration ends. The output goes to output_path, or, if that is a folder, to a file in it named after the input file or camera plus _out and the extension, with the codec chosen by the file extension or output_fourcc. Invalid sources raise an error, show can downsample by any ratio, and show and write return the key pressed. How fast frames are processed, or what the clock does, changes nothing.",
  ["inputs", "configurations"],
  "For all frame counts, sizes, rates, output options and ways of writing (all, some, none, resized frames).",
  "The video module has no test.",
  [V], [("Video.__iter__ / write / show", V), ("get_output_file_path / get_codec_fourcc", V)], ["frames", "output file"])

p("C28", "VideoFromFrames replays an image sequence faithfully",
  "Iterating VideoFromFrames yields images 1 to seqLength of the sequence's image folder, in order, with their exact contents, and can be restarted; with make_video, every frame passed to update is written in order to videos/<sequence>.mp4 with the size and frame rate in seqinfo.ini, and the file is complete after the last one. InformationFile.search returns the value of the named entry, as an int when it is a whole number, and raises ValueError if there is none.",
  ["inputs", "configurations"],
  "For all sequence lengths, image sizes, extensions and folder names.",
  "The video and metrics modules have no test.",
  [V, M], [("VideoFromFrames", V), ("InformationFile.search", M)], ["frames", "output file"])

p("C29", "Colors and palettes resolve consistently",
  "Hex colors of 6 or 3 digits in either case, names and BGR tuples parse to the BGR triple they denote, and malformed hex strings raise ValueError. Palette.choose_color always returns a color of the current palette (the default color for None), the same one for the same key, and integer keys cycle through the palette; Palette.set and set_default_color accept any color form, and an invalid palette leaves the current one in place.",
  ["inputs", "histories"],
  "For all color values, keys and sequences of palette changes.",
  "One test parses three hex strings.",
  ["norfair/drawing/color.py"], [("hex_to_bgr, parse_color", "norfair/drawing/color.py"), ("Palette", "norfair/drawing/color.py")], ["return values"])

p("C30", "Drawing marks exactly what it is given, in place, and nothing else",
  "draw_boxes outlines each drawable's box and draw_points marks each point (only live points unless hide_dead_points is off, and nothing of an object without live points) at its integer position in the color chosen by id, label or given color, on the given frame, which is also returned; pixels away from the drawn shapes and texts keep their value. Title text appears exactly when ids, labels or scores are requested and present. Drawing accepts Detections, TrackedObjects and Drawables anywhere inside or outside the frame without raising and never changes them, and the deprecated names and parameters give the same picture as their replacements.",
  ["inputs", "configurations"],
  "For all drawables, positions, frame sizes, color strategies and option combinations.",
  "Drawing has no test besides hex parsing.",
  ["norfair/drawing/draw_boxes.py", "norfair/drawing/draw_points.py", "norfair/drawing/drawer.py", "norfair/drawing/utils.py"],
  [("draw_boxes", "norfair/drawing/draw_boxes.py"), ("draw_points", "norfair/drawing/draw_points.py"), ("Drawer, Drawable", "norfair/drawing/drawer.py")], ["frame pixels"])

p("C31", "Path drawers show where objects have been",
  "Paths.draw returns the frame with a mark of the object's color at every point of interest drawn so far, faded by attenuation per call (never if 0), leaves pixels never visited by a path as they are in the frame, and does not modify the frame it is given. AbsolutePaths.draw marks the current position of each live object and connects it to at most max_history past positions, in the object's color and the fainter the older, all placed according to the current coordinate transformation, so that a static object stays one spot in the scene while the camera moves. Paths of different objects, and different drawers, do not influence each other.",
  ["histories", "inputs"],
  "For all object trajectories, camera motions, attenuation and history lengths.",
  "The path drawers have no test.",
  ["norfair/drawing/path.py"], [("Paths.draw", "norfair/drawing/path.py"), ("AbsolutePaths.draw", "norfair/drawing/path.py")], ["frame pixels"])

p("C32", "FixedCamera places each frame where the camera was looking",
  "FixedCamera.adjust_frame returns a canvas of the frame's size times scale in which the current frame appears unmodified at the center shifted by the camera's accumulated movement, cropped to the canvas, over the previous canvas dimmed by the attenuation. It never raises for any translation, however far outside the canvas, and never modifies the frame or canvases returned earlier.",
  ["inputs", "histories"],
  "For all frame sizes, scales, attenuations and sequences of translations.",
  "FixedCamera has no test.",
  ["norfair/drawing/fixed_camera.py"], [("FixedCamera.adjust_frame", "norfair/drawing/fixed_camera.py")], ["returned canvas"])

p("C33", "The absolute grid is drawn at fixed scene positions",
  "draw_absolute_grid marks, with crosses of the given color, exactly those points of a fixed latitude/longitude grid (equatorial, or polar if asked) centered on the first frame that the given coordinate transformation brings inside the frame; with no transformation this is the grid itself. The grid depends only on grid_size, frame size and polar, so repeated and interleaved calls with other transformations, sizes or options never change what a call draws, and pixels away from the crosses are unchanged.",
  ["inputs", "histories"],
  "For all frame and grid sizes, transformations and interleavings of calls.",
  "The grid has no test.",
  ["norfair/drawing/absolute_grid.py"], [("draw_absolute_grid, cached _get_grid", "norfair/drawing/absolute_grid.py")], ["frame pixels"])

p("C34", "Cut-outs and debug output reflect their objects",
  "get_cutout returns exactly the pixels of the image inside the (integer-truncated) bounding rectangle of the points, restricted to the image, whatever the order, number or position of the points, and does not change image or points. print_objects_as_table prints, under named columns, one row per object with its id, age, hit counter, last distance and initializing id, for objects in any state, including ones never matched, and printing or repr of objects changes nothing.",
  ["inputs", "histories"],
  "For all point sets (partly or fully outside the image) and all tracker states.",
  "utils has no test.",
  [U, T], [("get_cutout", U), ("print_objects_as_table", U), ("TrackedObject.__repr__", T)], ["return value", "stdout"])

p("C35", "Separated objects keep exactly one identity each",
  "When objects move steadily, are detected with bounded noise and gaps shorter than the hit counter, and stay (or are told apart by label) farther from each other than the distance threshold, each of them is reported from the end of its initialization to its departure under exactly one id of its own, close to its true position and velocity. It is forgotten once it has been gone longer than the hit counter allows, or gets its old id back if re-identification recognizes it, and total_object_count agrees with the number of objects seen. This holds with every predefined distance and filter, any period, and under a moving camera.",
  ["histories", "configurations", "inputs"],
  "For all such scenes: any number of objects, arrival and departure times, noise, detection gaps, speeds, distances, filters and camera motions.",
  "Tests follow one object, or two, for a few frames; the end-to-end guarantee is a statement about whole scenes under every configuration.",
  [T, D, F, C], [("Tracker.update", T), ("filters", F), ("distances", D)], ["Tracker.update return value", "TrackedObject.id"])

p("C36", "The optional dependencies are optional",
  "Without OpenCV or motmetrics (and pandas) installed, norfair imports, and tracking, filters, distances, transformations, cut-outs, tables, detection and prediction files give the same results as with them. Features that need a missing package (drawing, video, motion estimation; MOT metrics) raise ImportError naming the norfair extra to install, when they are used and not before, and features whose packages are installed are not affected.",
  ["configurations", "inputs"],
  "For every combination of missing optional packages and every use of the core features.",
  "The test environment has everything installed.",
  ["norfair/utils.py", "norfair/metrics.py", "norfair/video.py", "norfair/camera_motion.py", "norfair/drawing/drawer.py"],
  [("DummyOpenCVImport, DummyMOTMetricsImport", U), ("guarded imports", M)], ["exceptions raised", "results"])

p("C37", "Observing a tracker never changes what it does",
  "Drawing objects or detections, cutting them out, printing them, writing them to a predictions file, asking for estimates, distances, active objects or counts never changes what the tracker reports afterwards, nor the detections, whichever observers are used, in whatever order and however often. An observer without memory of its own gives the same answer when asked twice.",
  ["histories", "configurations"],
  "For all histories and all interleavings of updates with any selection of observers.",
  "Tests never combine tracking with drawing or file output; a stray in-place operation shows only in later frames.",
  [T, U, M, "norfair/drawing/draw_boxes.py", "norfair/drawing/draw_points.py", "norfair/drawing/path.py"],
  [("TrackedObject.get_estimate returns copies", T), ("Drawable", "norfair/drawing/drawer.py")], ["Tracker.update return value"])

p("C38", "Equivalent inputs and settings give the same tracking",
  "What the tracker reports depends on the values it is given and not on how they are said: points and scores in any array type or memory layout that holds the same numbers, a lone point as [x, y] or [[x, y]], a list or a tuple of detections, None or an empty list or nothing for a frame without detections, a default left out or spelled out, an argument by position or by name, and a distance named or passed as the function of that name.",
  ["inputs", "configurations", "histories"],
  "For all histories and every mixture of such representations within one history.",
  "Tests use one representation throughout.",
  [T, U, D], [("validate_points", U), ("Detection.__init__", T), ("Tracker.__init__", T)], ["Tracker.update return value"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
