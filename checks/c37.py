"""C37: observing a tracker never changes what it does."""
import contextlib
import io
import os

import numpy as np

from checks.c14 import diff, row
from nfv import trk

PROP = "C37"
RULE = ("a seeded random history is run twice, once bare and once with a random selection of observers between the updates (drawing of objects and "
        "detections with every drawer, paths, grid, fixed camera, cut-outs, printed tables, prediction files, repr, estimates, distances, metrics); "
        "traces must be bitwise equal, and an observer asked twice must answer the same; non-trivial when drawers and others looked at live objects")
CASES = {"quick": 2400, "thorough": 5000}
FLOORS = {"other_views": 1, "own_list": 52, "observations": 340, "repeated": 130, "matched": 140, "abs_paths": 3, "camera_cases": 2, "files": 10,
          "detections_drawn": 61}


def object_state(objs, cam):
    out = []
    for o in objs:
        ests = [o.estimate, o.estimate_velocity, o.live_points] + ([o.get_estimate(absolute=True)] if cam else [])
        out.append((id(o), o.id, o.global_id, o.initializing_id, o.age, o.hit_counter, o.is_initializing, o.last_distance, repr(o.label),
                    id(o.last_detection), [id(d) for d in o.past_detections], [(a.shape, a.tobytes()) for a in ests]))
    return out


def state_of(objs):
    """Everything the observers could disturb in a set of objects or detections."""
    out = []
    for o in objs:
        if o is None:
            continue
        pts = getattr(o, "points", None)
        out.append((None if pts is None else np.asarray(pts).tobytes(), str(getattr(o, "label", None)),
                    None if getattr(o, "scores", None) is None else np.asarray(o.scores).tobytes(), getattr(o, "age", None)))
    return out


def case(ctx):
    rng, nf, g = ctx.rng, ctx.nf, ctx.nprng
    from norfair import drawing
    from norfair.camera_motion import HomographyTransformation, TranslationTransformation
    from norfair.metrics import Accumulators, PredictionsTextFile  # noqa: F401

    box = rng.random() < 0.5
    if rng.random() < 0.5:
        scn = trk.gen_geo_scn(rng, box=box, dim=2, spread=150.0, nframes=rng.choice([15, 25]))
    else:
        scn = trk.gen_table_scn(rng, dim=2, npts=2 if box else None, maxdets=4, nframes=rng.choice([15, 25]))
        for f in scn.frames:
            for d in f.dets:
                d.points = np.abs(d.points) / 3
                if box:
                    d.points = np.sort(d.points, axis=0) + np.array([[0, 0], [3, 3]])
    scn.filter = rng.choice([("opt", {}), ("opt", {}), ("filterpy", {}), ("none", {})])
    if rng.random() < 0.4:
        ctx.count("camera_cases")
        x = np.zeros(2)
        for f in scn.frames:
            x = x + g.normal(0, 4, 2)
            f.ct = TranslationTransformation(x.copy()) if rng.random() < 0.5 else \
                HomographyTransformation(np.array([[1, 0.01, x[0]], [-0.01, 1, x[1]], [0, 0, 1.0]]))
    cam = scn.frames[0].ct is not None
    is_box = all(d.points.shape == (2, 2) for f in scn.frames for d in f.dets)
    A = trk.Recorder(nf, scn)
    ref = [row(A.step(f)) for f in scn.frames]
    B = trk.Recorder(nf, trk.clone(scn))
    H, W = rng.choice([(60, 80), (120, 90)])
    paths = drawing.Paths(attenuation=rng.choice([0, 0.1]))
    apaths = drawing.AbsolutePaths(max_history=rng.choice([2, 20]))
    fixed = drawing.FixedCamera()
    ptf = None
    ctx.info = {"scenario": scn.describe(), "camera": cam}
    used = set()
    matched = seen = 0
    for fr, want in zip(B.scn.frames, ref):
        st = B.step(fr)
        matched += sum(1 for i in st.post_order if i in st.pre and st.post[i].last != st.pre[i].last)
        ctx.check(row(st) == want, "observing the tracker changed what it does", frame=st.k, observers=sorted(used), **diff(row(st), want))
        objs, dets = st.ret_objs, st.dets
        alive = B.tracker.tracked_objects
        own = bool(alive) and all(o.id is not None for o in alive) and rng.random() < 0.5
        if own:
            objs = alive  # the tracker's own list
            ctx.count("own_list")
        listed = list(objs), list(dets)
        before = state_of(dets)
        everything = object_state(alive, cam)
        names = rng.sample(["points", "boxes", "dpoints", "dboxes", "dold", "told", "paths", "apaths", "fixed", "grid", "cutout", "table", "repr", "est",
                            "api", "dist", "file", "drawable"], rng.choice([0, 3, 6]))
        for name in names:
            frame = g.integers(0, 255, (H, W, 3)).astype(np.uint8)

            def draw(fn, *a, twice=True, **k):
                f1 = frame.copy()
                r1 = fn(f1, *a, **k)
                if twice:
                    f2 = frame.copy()
                    r2 = fn(f2, *a, **k)
                    ctx.check(np.array_equal(f1, f2) and np.array_equal(r1, r2), "drawing the same objects twice gave two pictures", frame=st.k,
                              drawer=name)
                    ctx.count("repeated")

            if name == "points":
                draw(drawing.draw_points, objs, draw_ids=True, draw_labels=True, draw_scores=rng.random() < 0.5, hide_dead_points=rng.random() < 0.5)
            elif name == "boxes" and is_box:
                draw(drawing.draw_boxes, objs, draw_ids=True, draw_labels=rng.random() < 0.5, draw_scores=rng.random() < 0.5)
            elif name == "dpoints" and dets:
                draw(drawing.draw_points, dets, draw_scores=True)
                ctx.count("detections_drawn", len(dets))
            elif name == "dboxes" and dets and is_box:
                draw(drawing.draw_boxes, dets, draw_scores=True)
                ctx.count("detections_drawn", len(dets))
            elif name == "told":
                with contextlib.redirect_stderr(io.StringIO()):
                    draw(nf.draw_tracked_objects, objs)
            elif name == "dold" and is_box:
                with contextlib.redirect_stderr(io.StringIO()):
                    draw(nf.draw_tracked_boxes, objs)
            elif name == "paths" and objs:
                draw(paths.draw, objs, twice=False)
            elif name == "apaths" and cam and objs:
                ct = fr.ct
                if rng.random() < 0.3:
                    ct = TranslationTransformation(g.normal(0, 30, 2))  # shown in another view
                    ctx.count("other_views")
                draw(apaths.draw, objs, ct, twice=False)
                ctx.count("abs_paths")
            elif name == "fixed" and isinstance(fr.ct, TranslationTransformation):
                fixed.adjust_frame(frame, fr.ct)
            elif name == "grid":
                draw(drawing.draw_absolute_grid, fr.ct)
            elif name == "cutout":
                for o in objs:
                    a, b = nf.get_cutout(o.estimate, frame), nf.get_cutout(o.estimate, frame)
                    ctx.check(np.array_equal(a, b), "two cut-outs of one object differ", frame=st.k)
                for d in dets:
                    nf.get_cutout(d.points, frame)
            elif name == "table":
                with contextlib.redirect_stdout(io.StringIO()):
                    nf.print_objects_as_table(alive)
            elif name == "repr":
                ctx.check([repr(o) for o in alive] == [repr(o) for o in alive], "two repr of one object differ", frame=st.k)
            elif name == "est":
                for o in alive:
                    a = (o.estimate, o.get_estimate(), o.estimate_velocity, o.live_points) + ((o.get_estimate(absolute=True),) if cam else ())
                    b = (o.estimate, o.get_estimate(), o.estimate_velocity, o.live_points) + ((o.get_estimate(absolute=True),) if cam else ())
                    ctx.check(all(np.array_equal(x, y) for x, y in zip(a, b)), "asking twice for an estimate gave two answers", frame=st.k)
            elif name == "api":
                ids = [o.initializing_id for o in B.tracker.get_active_objects()]
                ctx.check(ids == st.ret and B.tracker.current_object_count == len(ids), "asking for the active objects gave another answer", frame=st.k,
                          returned=st.ret, asked=ids)
                B.tracker.total_object_count
            elif name == "dist" and B.table is None and alive and dets:
                if len({o.estimate.shape for o in alive} | {d.points.shape for d in dets}) == 1:
                    m1 = B.tracker.distance_function.get_distances(alive, dets)
                    m2 = B.tracker.distance_function.get_distances(alive, dets)
                    ctx.check(np.array_equal(m1, m2), "asking twice for the distances gave two answers", frame=st.k)
            elif name == "file" and is_box:
                if ptf is None:
                    d = os.path.join(ctx.tmp(), "seq%d" % ctx.index)
                    os.makedirs(d, exist_ok=True)
                    with open(os.path.join(d, "seqinfo.ini"), "w") as f:
                        f.write("[Sequence]\nname=s\nseqLength=1000\n")
                    ptf = PredictionsTextFile(input_path=d, save_path=ctx.tmp())
                ptf.update(predictions=objs)
                ctx.count("files")
            elif name == "drawable":
                for o in objs:
                    dr = drawing.Drawable(obj=o)
                    dr.points += 1000  # a drawable is a copy of what it shows
                    if dr.live_points is not None:
                        dr.live_points[...] = False
                for d in dets:
                    drawing.Drawable(obj=d)
            else:
                continue
            used.add(name)
            seen += bool(objs)
            ctx.count("observations")
        ctx.check(all(len(a) == len(b) and all(x is y for x, y in zip(a, b)) for a, b in zip(listed, (objs, dets))), "observing changed a list it was given",
                  frame=st.k, observers=names)
        ctx.check(object_state(B.tracker.tracked_objects, cam) == everything, "observing changed an object", frame=st.k, observers=names)
        ctx.check(state_of(dets) == before, "observing changed a detection", frame=st.k, observers=names)
    ctx.count("matched", matched)
    ctx.state(scn.style, scn.dist, scn.filter[0], cam, is_box, tuple(sorted(used)))
    if seen and matched:
        ctx.nontrivial(ctx.index, seen, matched)
        ctx.sample = dict(scn.describe(), observers=sorted(used), observed_frames=seen)
