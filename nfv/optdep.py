"""One random program over norfair's core features, runnable with optional packages hidden (a child process of C36, and C36 itself)."""
import hashlib
import json
import os
import sys


def core(nf, seed, tmp):
    """Uses everything that needs neither OpenCV nor motmetrics; returns a digest of each part's results."""
    import contextlib
    import io

    import numpy as np

    from norfair.camera_motion import HomographyTransformation, TranslationTransformation
    from norfair.filter import FilterPyKalmanFilterFactory, NoFilterFactory, OptimizedKalmanFilterFactory
    from norfair.metrics import DetectionFileParser, InformationFile, PredictionsTextFile

    g = np.random.default_rng(seed)
    out = {}

    def put(name, *vals):
        h = hashlib.blake2b(digest_size=8)
        for v in vals:
            if isinstance(v, np.ndarray):
                v = np.round(v, 6) + 0.0
                h.update(repr(v.tolist()).encode())
            else:
                h.update(repr(v).encode())
        out[name] = h.hexdigest()

    # files
    seq = os.path.join(tmp, "seq")
    os.makedirs(os.path.join(seq, "det"), exist_ok=True)
    with open(os.path.join(seq, "seqinfo.ini"), "w") as f:
        f.write("[Sequence]\nname=seq\nimDir=img1\nframeRate=25\nseqLength=25\nimWidth=80\nimHeight=60\nimExt=.jpg\n")
    rows = []
    for k in range(1, 26):
        for i in range(int(g.integers(1, 4))):
            x, y = 50 * i + 2 * k + g.normal(), 20 * i + k + g.normal()
            rows.append("%d,-1,%.3f,%.3f,%.3f,%.3f,%.2f,-1,-1,-1" % (k, x, y, 30, 40, g.random()))
    with open(os.path.join(seq, "det", "det.txt"), "w") as f:
        f.write("\n".join(rows) + "\n")
    info = InformationFile(os.path.join(seq, "seqinfo.ini"))
    put("information", info.search("seqLength"), info.search("frameRate"), info.search("imDir"))
    factory = [OptimizedKalmanFilterFactory(), FilterPyKalmanFilterFactory(), NoFilterFactory()][int(g.integers(3))]
    dist = ["iou", "euclidean", "frobenius", "mean_euclidean", "cityblock"][int(g.integers(5))]
    ct_kind = int(g.integers(3))
    kw = {}
    if g.random() < 0.3:
        kw = dict(reid_distance_function=lambda a, b: float(np.abs(a.estimate - b.estimate).mean()), reid_distance_threshold=60.0,
                  reid_hit_counter_max=20)
    tr = nf.Tracker(dist, 0.7 if dist == "iou" else 60.0, hit_counter_max=int(g.integers(2, 9)), filter_factory=factory, **kw)
    ptf = PredictionsTextFile(input_path=seq, save_path=tmp, information_file=info if g.random() < 0.5 else None)
    trace = []
    image = g.integers(0, 255, (60, 80, 3)).astype(np.uint8)
    fixed = nf.FixedCamera(scale=2)
    buf = io.StringIO()
    cuts, canvases = [], []
    for k, dets in enumerate(DetectionFileParser(seq, info)):
        akw = {}
        mv = np.array([1.5 * k, -0.5 * k])
        if ct_kind == 1:
            akw["coord_transformations"] = TranslationTransformation(mv)
        elif ct_kind == 2:
            akw["coord_transformations"] = HomographyTransformation(np.array([[1, 0.001, mv[0]], [0, 1, mv[1]], [0, 0, 1.0]]))
        act = tr.update(detections=dets, period=1 + k % 2, **akw)
        trace.append([(o.id, o.initializing_id, o.age, o.hit_counter, np.round(o.estimate, 6).tolist(), np.round(o.estimate_velocity, 6).tolist(),
                       o.live_points.tolist()) for o in act])
        if ct_kind:
            trace.append([np.round(o.get_estimate(absolute=True), 6).tolist() for o in act])
        ptf.update(predictions=act)
        for o in act:
            cuts.append(nf.get_cutout(o.estimate, image))
        if k == 20:
            with contextlib.redirect_stdout(buf):
                nf.print_objects_as_table(tr.tracked_objects)
        if k % 8 == 0:
            canvases.append(fixed.adjust_frame(image, TranslationTransformation(mv)).copy())
        trace.append([repr(o) for o in act])
    put("tracker", trace, tr.total_object_count)
    put("cutouts", *cuts)
    put("fixed_camera", *canvases)
    put("table", sorted(w for w in buf.getvalue().split() if w.isdigit()))
    del ptf
    pred = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(tmp, "predictions")) for f in fs]
    put("predictions", [open(p).read() for p in sorted(pred)])
    det = [nf.Detection(g.normal(size=(3, 2)) * 5, scores=g.random(3)) for _ in range(2)]
    t2 = nf.Tracker(nf.create_keypoints_voting_distance(4.0, 0.5), 0.9, hit_counter_max=3, initialization_delay=0, detection_threshold=0.5)
    put("voting", [len(t2.update([d])) for d in det])
    t3 = nf.Tracker(nf.create_normalized_mean_euclidean_distance(60, 80), 0.5, hit_counter_max=3, initialization_delay=0)
    put("normalized", [len(t3.update([d])) for d in det])
    put("colors", nf.Color.red, nf.hex_to_bgr("#a1b2c3") if hasattr(nf, "hex_to_bgr") else None, nf.Palette.choose_color(7))
    for m in (TranslationTransformation(g.normal(size=2)), HomographyTransformation(np.eye(3) + g.normal(size=(3, 3)) * 1e-3)):
        p = g.normal(size=(4, 2)) * 10
        put(type(m).__name__, m.rel_to_abs(p), m.abs_to_rel(p))
    return out, tr


def needs(nf, tr, tmp):
    """name -> (what it needs, callable) for the features that need an optional package."""
    import numpy as np

    from norfair import drawing, metrics
    from norfair.camera_motion import HomographyTransformation, HomographyTransformationGetter, MotionEstimator
    from norfair.camera_motion import TranslationTransformation, TranslationTransformationGetter
    from norfair.video import VideoFromFrames

    frame = np.zeros((60, 80, 3), np.uint8)
    det = [nf.Detection(np.array([[10.0, 12.0], [30.0, 35.0]]))]
    ct = TranslationTransformation(np.array([3.0, 2.0]))
    t = nf.Tracker("euclidean", 10, initialization_delay=0)
    objs = t.update(det, coord_transformations=ct)
    objs = t.update([nf.Detection(np.array([[11.0, 12.0], [31.0, 35.0]]))], coord_transformations=ct)
    vid = os.path.join(tmp, "v.mp4")
    open(vid, "wb").write(b"x")
    seq = os.path.join(tmp, "seq")
    cv, mm = "cv2", "motmetrics"

    def twice(d, *a):
        d.draw(frame.copy(), *a)
        d.draw(frame.copy(), *a)

    return {
        "draw_points": (cv, lambda: drawing.draw_points(frame.copy(), objs)),
        "draw_points_dets": (cv, lambda: drawing.draw_points(frame.copy(), det)),
        "draw_boxes": (cv, lambda: drawing.draw_boxes(frame.copy(), objs)),
        "draw_tracked_objects": (cv, lambda: nf.draw_tracked_objects(frame.copy(), objs)),
        "draw_tracked_boxes": (cv, lambda: nf.draw_tracked_boxes(frame.copy(), objs)),
        "paths": (cv, lambda: twice(drawing.Paths(), objs)),
        "absolute_paths": (cv, lambda: twice(drawing.AbsolutePaths(), objs, ct)),
        "grid": (cv, lambda: drawing.draw_absolute_grid(frame.copy(), ct)),
        "video": (cv, lambda: nf.Video(input_path=vid)),
        "camera": (cv, lambda: nf.Video(camera=63)),
        "motion_translation": (cv, lambda: MotionEstimator(transformations_getter=TranslationTransformationGetter()).update(frame)),
        "motion_homography": (cv, lambda: MotionEstimator().update(frame)),
        "homography_getter": (cv, lambda: HomographyTransformationGetter()(np.zeros((4, 2)), np.ones((4, 2)))),
        "video_from_frames": (cv, lambda: next(iter(VideoFromFrames(seq, save_path=tmp, make_video=False)))),
        "accumulate": (mm, lambda: metrics.Accumulators().create_accumulator(seq)),
        "compute": (mm, lambda: metrics.Accumulators().compute_metrics()),
        "eval": (mm, lambda: metrics.eval_motChallenge([np.zeros((1, 10))], [seq])),
        "load": (mm, lambda: metrics.load_motchallenge(np.zeros((1, 10)))),
        "compare": (mm, lambda: metrics.compare_dataframes({"a": 1}, {"a": 1})),
    }


class Hide:
    """Import hook: these packages are not installed (or, with a "!", installed but broken: a shared library is missing)."""

    def __init__(self, names):
        self.broken = {n[1:] for n in names if n[0] == "!"}
        self.names = {n for n in names if n[0] != "!"}

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.broken:
            raise ImportError("libGL.so.1: cannot open shared object file: No such file or directory")
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


def main():
    repo, hidden, seed, tmp, which = sys.argv[1:6]
    hidden = [h for h in hidden.split(",") if h]
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    sys.meta_path.insert(0, Hide(hidden))
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-nfv-cache"
    sys.path.insert(0, repo)
    res = {"hidden": hidden}
    stdout = sys.stdout
    sys.stdout = sys.stderr
    try:
        import norfair as nf
        import norfair.camera_motion  # noqa: F401

        res["where"] = os.path.dirname(os.path.abspath(nf.__file__))
        res["core"], tr = core(nf, int(seed), tmp)
        res["needs"] = {}
        for name, (pkg, fn) in needs(nf, tr, tmp).items():
            if which != "all" and name not in which.split("+"):
                continue
            try:
                fn()
                res["needs"][name] = [pkg, "ok", ""]
            except BaseException as e:
                res["needs"][name] = [pkg, type(e).__name__, str(e)[:300], isinstance(e, ImportError)]
    except BaseException as e:
        import traceback

        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-1500:]
    stdout.write("\nRESULT " + json.dumps(res) + "\n")
    stdout.flush()


if __name__ == "__main__":
    main()
