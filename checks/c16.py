"""C16: dropped objects and their detections are released."""
import gc
import os
import weakref

import numpy as np

from nfv import trk

PROP = "C16"
RULE = ("seeded random streams of up to 300 frames, holding only weak references to detections, objects and filters; at random points, after a "
        "garbage collection, whatever is still alive must be reachable from the tracker's current objects (past detections plus the last one); "
        "objects are also drawn, traced by path drawers, cut out, printed and written to metrics files; non-trivial when objects were dropped")
CASES = {"quick": 1200, "thorough": 7000}
FLOORS = {"dropped_objects": 56000, "released_detections": 160000, "collections": 14000, "reid_merges": 1000, "drawn": 9900, "watched": 6400}


def case(ctx):
    rng = ctx.rng
    nf = ctx.nf
    style = rng.random()
    reid = rng.random() < 0.4
    scn = trk.gen_table_scn(rng, reid=reid, maxdets=4, hostile_T=0.02, nframes=rng.choice([40, 120, 300]), silence=rng.random() < 0.5)
    if rng.random() < 0.01:
        scn = trk.gen_long(rng, reid=reid)
    scn.dens = rng.choice([0.3, 0.7, 0.9])
    if style < 0.3:
        scn.dist = "euclidean" if len({len(d.points) for f in scn.frames for d in f.dets}) == 1 else "table"
        scn.T = 300.0 if scn.dist == "euclidean" else scn.T
    moving = rng.random() < 0.3 and scn.dim == 2
    hcm = scn.kw.get("hit_counter_max", 15)
    R = scn.kw.get("reid_hit_counter_max")
    L = scn.kw.get("past_detections_length", 4)
    ctx.info = {"scenario": scn.describe(), "moving_camera": moving}
    from norfair.camera_motion import TranslationTransformation
    from norfair.drawing import draw_boxes, draw_points
    from norfair.filter import FilterFactory
    from norfair.utils import get_cutout, print_objects_as_table

    table = trk.Table(scn) if scn.dist == "table" else None
    birth = {}
    kw = dict(scn.kw)
    rtable = None
    if scn.reid and scn.reid.get("fn", True):
        rtable = trk.Table(scn, "obj")
        kw["reid_distance_function"] = rtable
        kw["reid_distance_threshold"] = scn.reid["T"]
    for t in (table, rtable):
        if t is not None:
            t.birth = birth
    spec = rng.choice([("opt", {}), ("none", {}), ("filterpy", {})])
    inner = trk.make_filter_factory(nf, spec)
    filters = []

    class Factory(FilterFactory):
        def create_filter(self, initial_detection):
            f = inner.create_filter(initial_detection)
            filters.append(weakref.ref(f))
            return f

    tr = nf.Tracker(distance_function=table if table is not None else scn.dist, distance_threshold=scn.T, filter_factory=Factory(), **kw)
    dets, objs = {}, {}  # uid -> weakref, id of tracked object -> weakref
    maxp = max(f.period for f in scn.frames)
    window = max(hcm, 2 * maxp) + 3 + ((R + 3) if R is not None else 0)
    frame_of = {}
    npast = 0
    ever = set()
    npts = max(len(d.points) for f in scn.frames for d in f.dets) if any(f.dets for f in scn.frames) else 1
    gc.collect()
    gc.freeze()  # what existed before this case is not scanned again
    frame_img = np.zeros((40, 40, 3), np.uint8)
    watch = rng.random() < 0.4
    if watch:
        from norfair.drawing import AbsolutePaths, Paths
        from norfair.metrics import Accumulators, PredictionsTextFile

        paths, apaths, acc = Paths(), AbsolutePaths(max_history=3), Accumulators()
        seq = os.path.join(ctx.tmp(), "s%d" % ctx.index)
        os.makedirs(seq)
        with open(os.path.join(seq, "seqinfo.ini"), "w") as fh:
            fh.write("[Sequence]\nseqLength=100000\n")
        ptf = PredictionsTextFile(seq, save_path=seq)
        acc.create_accumulator(seq)
    for k, f in enumerate(scn.frames):
        for t in (table, rtable):
            if t is not None:
                t.frame, t.calls = k, []
        lst = [d.make(nf) for d in f.dets]
        for d in lst:
            dets[d.data["uid"]] = weakref.ref(d)
            frame_of[d.data["uid"]] = k
        args = {"period": f.period}
        if moving:
            args["coord_transformations"] = TranslationTransformation(np.array([float(k), 0.0]))
        before = {o.initializing_id: o.hit_counter for o in tr.tracked_objects}
        ret = tr.update(lst, **args)
        for o in tr.tracked_objects:
            if o.initializing_id not in objs:
                objs[o.initializing_id] = weakref.ref(o)
                birth[o.initializing_id] = o.last_detection.data["uid"]
        if ret and k % 9 == 0:
            if scn.dim == 2:
                draw_points(frame_img, ret, draw_ids=True)
            if all(o.estimate.shape == (2, 2) for o in ret):
                draw_boxes(frame_img, ret, draw_ids=True)
            if scn.dim == 2:
                get_cutout(ret[0].estimate, frame_img)
            if k % 27 == 0:
                print_objects_as_table(ret[:2])
            ctx.count("drawn")
        if ret and scn.dim == 2 and watch and k % 4 == 0:
            # the things that look at objects and have a memory of their own
            paths.draw(frame_img, ret)
            if moving:
                apaths.draw(frame_img, ret, args["coord_transformations"])
            if all(o.estimate.shape == (2, 2) for o in ret):
                ptf.update(ret)
                acc.update(ret)
            ctx.count("watched")
        o = d = None
        del lst, ret
        current = list(tr.tracked_objects)
        # bounded by the recent frames
        ndets = sum(len(x.dets) for x in scn.frames[max(0, k - window): k + 1])
        ctx.check(len(current) <= ndets, "more objects are held than there were detections in the recent frames", frame=k, objects=len(current),
                  recent_detections=ndets, window=window)
        if scn.reid:
            now = {o.initializing_id for o in current}
            ctx.count("reid_merges", sum(1 for i, hc in before.items() if i not in now and hc >= 0))
        for o in current:
            ctx.check(len(o.past_detections) <= L, "an object holds more than past_detections_length past detections", frame=k)
            ctx.check(k - frame_of[o.last_detection.data["uid"]] <= window, "an object outlives its last match by too much", frame=k,
                      iid=o.initializing_id, last_match=frame_of[o.last_detection.data["uid"]])
        o = None
        if rng.random() < 0.12 or k == len(scn.frames) - 1:
            gc.collect()
            allowed_d = {x.data["uid"] for o in current for x in list(o.past_detections) + [o.last_detection]}
            allowed_o = {o.initializing_id for o in current}
            allowed_f = {id(o.filter) for o in current}
            o = x = None
            leak = [u for u, w in dets.items() if u not in allowed_d and w() is not None]
            ctx.check(not leak, "detections are kept alive although no current object refers to them", frame=k, uids=leak[:10], number=len(leak))
            # an object that just disappeared may still be held by this frame's variables: none is, here
            leak = [i for i, w in objs.items() if i not in allowed_o and w() is not None]
            ctx.check(not leak, "a dropped object is kept alive", frame=k, iids=leak[:10], number=len(leak))
            leak = sum(1 for w in filters if w() is not None and id(w()) not in allowed_f)
            ctx.check(not leak, "the filter of a dropped object is kept alive", frame=k, number=leak)
            ctx.check(sum(1 for w in dets.values() if w() is not None) <= (L + 1) * len(current),
                      "more detections are alive than the objects may hold", frame=k)
            ctx.count("collections")
            for u in [u for u, w in dets.items() if w() is None]:
                del dets[u]
                ctx.count("released_detections")
            for i in [i for i, w in objs.items() if w() is None]:
                del objs[i]
                ever.add(i)
                ctx.count("dropped_objects")
            filters[:] = [w for w in filters if w() is not None]
            ctx.state(len(current), len(allowed_d))
        current = None
    if ever:
        ctx.nontrivial(ctx.index, len(ever))
        ctx.sample = {**scn.describe(), "dropped_objects": len(ever)}
