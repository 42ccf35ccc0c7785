"""C31: Path drawers show where objects have been."""
import warnings

import cv2
import numpy as np

from nfv import draw, vid

PROP = "C31"
RULE = ("seeded random histories of real trackers (several objects, gaps, deaths, off-frame tracks; for AbsolutePaths with camera motion by "
        "translations and homographies) fed to Paths / AbsolutePaths with random options, up to three drawers in turn; every returned frame is "
        "compared with a model: for Paths a fading layer painted with OpenCV primitives, for AbsolutePaths the exact set of pixels its marks "
        "and segments cover; non-trivial when paths of several calls were visible")
ASSUMPTIONS = ["frame size stays the same within a history", "positions fit 32-bit integers", "AbsolutePaths is given a coordinate transformation and "
               "objects of one tracker that have ids", "where a default radius or thickness applies, any sensible one is accepted"]
CASES = {"quick": 5000, "thorough": 40000}
FLOORS = {"other_layouts": 3700, "halts": 10000, "far_scenes": 180, "absolute_calls": 10000, "absolute_histories": 850, "dead_skipped": 2300,
          "exact": 10000, "history_full": 8200, "marks": 30000, "paths_calls": 15000, "paths_histories": 1100, "paths_marks": 36000,
          "segments": 110000, "static_spots": 3200, "own_color": 4500, "fading": 910, "big_histories": 60, "partly_live": 3100, "long_past": 750}


def history(ctx, w, h, frames, n, motion=False, homography=False):
    """Yield (frame number, tracked objects, coordinate transformation) of a real tracker."""
    from norfair.camera_motion import HomographyTransformation, TranslationTransformation

    rng, nf = ctx.rng, ctx.nf

    def dist(det, obj):
        return 0.0 if det.data == obj.last_detection.data else 1e6

    npts = rng.choice([1, 2, 3])
    weak = npts > 1 and rng.random() < 0.4  # points seen in some frames only
    tr = nf.Tracker(distance_function=dist, distance_threshold=1.0, hit_counter_max=rng.choice([2, 4, 15]), initialization_delay=0,
                    pointwise_hit_counter_max=rng.choice([1, 2, 4]), detection_threshold=0.5,
                    filter_factory=rng.choice([nf.OptimizedKalmanFilterFactory, nf.NoFilterFactory])())
    halt = [rng.choice([0, 0, 2, 5]) for _ in range(n)]  # stop and go
    pos = [np.array([rng.uniform(-0.1, 1.1) * w, rng.uniform(-0.1, 1.1) * h]) + ctx.nprng.normal(0, 5, (npts, 2)) for _ in range(n)]
    vel = [np.zeros(2) if rng.random() < 0.3 else ctx.nprng.normal(0, w / 20, 2) for _ in range(n)]
    gone = [rng.choice([None, rng.randrange(frames)]) for _ in range(n)]
    born = [rng.choice([0, 0, rng.randrange(max(1, frames // 2))]) for _ in range(n)]
    shift = np.zeros(2)
    if motion and not homography and rng.random() < 0.25:
        shift = ctx.nprng.choice([-1, 1], 2) * rng.choice([3e3, 2e4])  # the scene is far from the first frame
        pos = [p - shift for p in pos]
        ctx.count("far_scenes")
    far = shift
    pan = ctx.nprng.normal(0, w / 25, 2)
    if frames > 40:  # in sight all along
        pan, vel, gone = pan / 20, [v / 20 for v in vel], [None] * n
    H = np.eye(3)
    for t in range(frames):
        ct = None
        if motion:
            shift = shift + pan + ctx.nprng.normal(0, 1, 2)
            if homography:
                a = rng.uniform(-0.02, 0.02)
                step = np.array([[np.cos(a), -np.sin(a), pan[0]], [np.sin(a), np.cos(a), pan[1]], [rng.uniform(-1e-4, 1e-4), rng.uniform(-1e-4, 1e-4), 1]])
                H = step @ H if t else np.eye(3)
                H = H / H[2, 2]
                ct = HomographyTransformation(H)
            else:
                ct = TranslationTransformation(shift.copy() if t else far.copy())
        dets = []
        for i in range(n):
            if not halt[i] or t // halt[i] % 2 == 0:
                pos[i] = pos[i] + vel[i]
            else:
                ctx.count("halts")
            if t < born[i] or gone[i] is not None and gone[i] <= t < gone[i] + 3 or rng.random() < 0.08:
                continue
            p = pos[i] if ct is None else np.asarray(ct.abs_to_rel(pos[i]))
            if np.isfinite(p).all() and np.abs(p).max() < 1e5:
                s = None
                if weak:
                    s = np.where(ctx.nprng.random(npts) < 0.5, 0.9, 0.1)
                    s[t % npts] = 0.9
                dets.append(nf.Detection(p, data=i, label=str(i), scores=s))
        kw = {} if ct is None else {"coord_transformations": ct}
        objs = tr.update(dets, **kw)
        yield t, list(objs), ct


def interest(ctx):
    """(get_points_to_draw or None, function estimate -> points)"""
    r = ctx.rng.random()
    if r < 0.5:
        return None, lambda e: [np.mean(e, axis=0)]
    if r < 0.75:
        return (lambda e: [np.array([np.mean(e[:, 0]), np.max(e[:, 1])])]), lambda e: [np.array([np.mean(e[:, 0]), np.max(e[:, 1])])]
    return (lambda e: [p for p in e]), lambda e: [p for p in e]


def near_int(p):
    """A point whose integer position depends on the last bits."""
    p = np.asarray(p, float)
    return bool((np.abs(p - np.round(p)) < 1e-6).any())


def options(ctx):
    rng = ctx.rng
    kw = {}
    if rng.random() < 0.6:
        kw["radius"] = rng.choice([1, 2, 4])
    if rng.random() < 0.6:
        kw["thickness"] = rng.choice([1, 2, 3, -1])
    if rng.random() < 0.4:
        kw["color"] = tuple(rng.randrange(256) for _ in range(3))
    return kw


class PathsModel:
    """Layers for every (radius, thickness) still possible; given ones leave just one."""

    def __init__(self, ctx, w, h, kw, points, att):
        self.kw, self.points, self.f = kw, points, 1 - att
        rs = [kw["radius"]] if "radius" in kw else range(1, h // 50 + 4)
        ts = [kw["thickness"]] if "thickness" in kw else [1, 2, 3, 4, 5, -1]
        self.layers = {(r, t): np.zeros((h, w, 3), np.uint8) for r in rs for t in ts}
        self.marks = 0

    def step(self, ctx, frame, objs):
        pal = ctx.nf.Palette
        for (r, t), m in self.layers.items():
            m[:] = (m * self.f).astype(np.uint8)
            for o in objs:
                col = self.kw.get("color") or tuple(pal.choose_color(o.id))
                for p in self.points(o.estimate):
                    cv2.circle(m, draw.pt(p), r, col, t)
        self.marks += sum(len(self.points(o.estimate)) for o in objs)

    def judge(self, ctx, frame, got):
        left = {}
        worst = None
        for k, m in self.layers.items():
            exp = np.minimum(255, frame.astype(int) + m)
            d = np.abs(got.astype(int) - exp)
            if d.max() <= 2 and not (d[m.max(axis=-1) == 0]).any():
                left[k] = m
            elif worst is None or (d > 2).sum() < worst[0]:
                worst = (int((d > 2).sum()), exp.astype(np.uint8))
        ctx.check(left, "the frame does not show exactly the marks of the path so far", **(draw.diff_brief(worst[1], got) if worst and not left else {}))
        self.layers = left
        any_m = next(iter(left.values()))
        return int((any_m.max(axis=-1) > 0).sum())


def paths(ctx):
    rng, nf = ctx.rng, ctx.nf
    w, h = rng.choice([(60, 45), (90, 120), (40, 40), (160, 110)])
    frames = rng.choice([2, 4, 8, 15])
    n = rng.choice([1, 2, 4])
    big = rng.random() < 0.02
    if big:
        frames, n = rng.choice([(70, 2), (5, 90), (25, 30)])
        ctx.count("big_histories")
    drawers = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kw = options(ctx)
        if big:
            kw.update(radius=rng.choice([1, 2]), thickness=rng.choice([1, 2]))
        att = rng.choice([None, 0, 0.01, 0.05, 0.3, 0.5, 1, rng.random()])
        g, f = interest(ctx)
        full = dict(kw)
        if att is not None:
            full["attenuation"] = att
        if g is not None:
            full["get_points_to_draw"] = g
        drawers.append((nf.Paths(**full), PathsModel(ctx, w, h, kw, f, 0.01 if att is None else att), full))
    ctx.info = {"frame": [w, h], "drawers": [repr(d[2]) for d in drawers]}
    kept = []
    visible = 0
    for t, objs, _ in history(ctx, w, h, frames, n):
        frame = draw.frame(ctx, w, h)
        for d, m, _ in drawers:
            if rng.random() < 0.15:
                continue  # this drawer skips the frame
            some = objs if rng.random() < 0.8 else objs[:1]
            before = [draw.state_of(o) for o in some]
            keep = frame.copy()
            arg = rng.choice([list, tuple])(some)
            if rng.random() < 0.1:
                frame = vid.laid_out(rng, frame)
                ctx.count("other_layouts")
            got = d.draw(frame, arg)
            m.step(ctx, frame, some)
            ctx.info["call"] = t
            ctx.check(np.array_equal(frame, keep), "Paths changed the frame it was given")
            ctx.check(got is not None and got.shape == frame.shape and got.dtype == frame.dtype, "Paths does not return a frame")
            ctx.check(all(draw.same_state(b, draw.state_of(o)) is None for b, o in zip(before, some)), "Paths changed an object")
            visible += m.judge(ctx, frame, got) > 0
            for old, was in kept:
                ctx.check(np.array_equal(old, was), "Paths changed a frame it returned earlier")
            kept = (kept + [(got, got.copy())])[-4:]
            ctx.count("paths_calls")
            ctx.count("paths_marks", len(some))
            if rng.random() < 0.3:
                got[:] = rng.randrange(256)  # the result is the caller's
                kept.pop()
    if visible > 1:
        ctx.nontrivial("paths", w, h, [repr(sorted(d[2])) for d in drawers], visible, ctx.index)
        ctx.count("paths_histories")
        ctx.state("paths", len(drawers), frames, [d[2].get("attenuation") in (0, 1) for d in drawers])


def segment_masks(shape, marks, segments, r, t):
    c = np.zeros(shape[:2], np.uint8)
    s = np.zeros(shape[:2], np.uint8)
    for p in marks:
        cv2.circle(c, p, r, 255, t)
    for a, b in segments:
        cv2.line(s, a, b, 255, max(t, 1))
    return c > 0, s > 0


PRIMARIES = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (0, 255, 255), (255, 0, 255)]


def check_colors(ctx, got, own, r, th):
    """Where only one object has been, only its color shows; its connections get fainter with age."""
    prints = []
    for color, marks, ages in own:
        c, s = segment_masks(got.shape, marks, [x for seg in ages for x in seg], r, th)
        prints.append(c | s)
    total = np.sum([p.astype(int) for p in prints], axis=0) if prints else None
    for (color, marks, ages), p in zip(own, prints):
        alone = p & (total == 1)
        zero = [ch for ch in range(3) if color[ch] == 0]
        ctx.check(not got[alone][:, zero].any(), "a path is not drawn in its object's color", color=color, got=got[alone][:3])
        ctx.count("own_color", int(alone.any()))
        full = [ch for ch in range(3) if color[ch]]
        c, _ = segment_masks(got.shape, marks, [], r, th)
        layers = [segment_masks(got.shape, [], seg, r, th)[1] for seg in ages]
        cover = np.sum([x.astype(int) for x in layers], axis=0) if layers else None
        level = []
        for x in layers:
            only = x & (cover == 1) & ~c & alone
            if only.any():
                level.append(float(got[only][:, full].mean()))
        ctx.check(all(a >= b - 1 for a, b in zip(level, level[1:])), "an older connection is stronger than a newer one", levels=level)
        if len(level) > 1:
            ctx.check(level[0] > level[-1], "the oldest connection is as strong as the newest", levels=level)
        ctx.count("fading", len(level) > 1 and level[0] > level[-1])


def absolute(ctx):
    rng, nf = ctx.rng, ctx.nf
    w, h = rng.choice([(80, 60), (90, 120), (160, 110)])
    frames = rng.choice([2, 4, 8, 14])
    hom = rng.random() < 0.3
    colorful = rng.random() < 0.5
    n = rng.choice([1, 2, 3])
    big = rng.random() < 0.03
    if big:
        frames, n = rng.choice([(45, 2), (75, 1), (5, 100), (30, 12)])
        hom, colorful = False, colorful and n < 5
        ctx.count("big_histories")
    pal = list(PRIMARIES) if colorful else [(255, 255, 255), (255, 255, 254), (255, 254, 255)]
    rng.shuffle(pal)
    draw.reset_palette(nf, pal)
    drawers = []
    for _ in range(rng.choice([1, 1, 2])):
        kw = options(ctx)
        kw.pop("color", None)
        if big:
            kw.update(radius=rng.choice([1, 2]), thickness=rng.choice([1, 2]))
        if colorful and rng.random() < 0.4:
            kw["color"] = rng.choice(PRIMARIES)
        if kw.get("thickness") == -1:
            kw["thickness"] = 1  # lines cannot be filled
        mh = rng.choice([None, 0, 1, 2, 3, 5, 20, 24]) if not big else rng.choice([None, 3, 25, 35, 60])
        g, f = interest(ctx)
        full = dict(kw)
        if mh is not None:
            full["max_history"] = mh
        if g is not None:
            full["get_points_to_draw"] = g
        rs = [kw["radius"]] if "radius" in kw else range(1, h // 50 + 4)
        ts = [kw["thickness"]] if "thickness" in kw else [1, 2, 3, 4, 5]
        drawers.append({"d": nf.AbsolutePaths(**full), "f": f, "max": 20 if mh is None else mh, "rt": [(r, t) for r in rs for t in ts], "past": {}, "kw": full})
    ctx.info = {"frame": [w, h], "homography": hom, "drawers": [repr(d["kw"]) for d in drawers]}
    segs_seen = 0
    for t, objs, ct in history(ctx, w, h, frames, n, True, hom):
        bg = 0 if colorful else rng.choice([0, 0, 20])
        for D in drawers:
            if rng.random() < 0.1:
                continue
            frame = np.full((h, w, 3), bg, np.uint8)
            before = [draw.state_of(o) for o in objs]
            live = [o for o in objs if o.live_points.any()]
            marks, segments, doubt, far = [], [], False, False
            own = []  # per object: color, marks, its segments by age
            for o in live:
                cur = [np.array(p) for p in D["f"](o.get_estimate(absolute=True))]
                hist = [cur] + D["past"].get(o.id, [])[: D["max"]]
                rel = [np.asarray(ct.abs_to_rel(np.array(x)), float) for x in hist]
                far = far or not np.isfinite(np.array(rel)).all() or np.abs(np.array(rel)).max() > 1e8
                doubt = doubt or any(near_int(x) for x in rel)
                if not far:
                    marks += [draw.pt(p) for p in rel[0]]
                    own.append((D["kw"].get("color") or nf.Palette.choose_color(o.id), [draw.pt(p) for p in rel[0]],
                                [[(draw.pt(p), draw.pt(q)) for p, q in zip(a, b)] for a, b in zip(rel, rel[1:])]))
                    for a, b in zip(rel, rel[1:]):
                        segments += [(draw.pt(p), draw.pt(q)) for p, q in zip(a, b)]
                D["past"][o.id] = ([cur] + D["past"].get(o.id, []))[: max(D["max"], 0)]
            if far:
                return  # a homography folds over: positions do not fit a picture
            if rng.random() < 0.2:
                frame = vid.laid_out(rng, frame, ["window"])
                ctx.count("other_layouts")
            got = D["d"].draw(frame, objs, ct)
            ctx.info["call"] = t
            ctx.check(got is not None and got.shape == frame.shape and got.dtype == frame.dtype, "AbsolutePaths does not return a frame")
            ctx.check(all(draw.same_state(b, draw.state_of(o)) is None for b, o in zip(before, objs)), "AbsolutePaths changed an object")
            ctx.count("absolute_calls")
            changed = (got != bg).any(axis=-1)
            left, why = [], None
            for r, th in D["rt"]:
                c, s = segment_masks(frame.shape, marks, segments, r, th)
                grow = np.ones((3, 3), np.uint8)
                possible = c | s
                if doubt:
                    possible = cv2.dilate(possible.astype(np.uint8), grow) > 0
                    certain = np.zeros_like(c)
                else:
                    certain = c | s
                stray, missing = changed & ~possible, certain & ~changed
                faint = c & ~s & ((got.max(axis=-1) if colorful else got.min(axis=-1)) < 250) if not doubt else np.zeros_like(c)
                if not stray.any() and not missing.any() and not faint.any():
                    left.append((r, th))
                elif why is None:
                    why = {"stray": int(stray.sum()), "missing": int(missing.sum()), "faint_marks": int(faint.sum()),
                           "where": np.argwhere(stray | missing | faint)[:5].tolist()}
            ctx.check(left, "AbsolutePaths does not show exactly the current marks and their connections to the past", marks=marks,
                      segments=segments[:10], **(why or {}) if not left else {})
            D["rt"] = left
            if colorful and not doubt and len(left) == 1:
                check_colors(ctx, got, own, *left[0])
            ctx.count("doubtful" if doubt else "exact")
            ctx.count("marks", len(marks))
            ctx.count("segments", len(segments))
            ctx.count("dead_skipped", len(objs) - len(live))
            ctx.count("partly_live", sum(not o.live_points.all() for o in live))
            ctx.count("long_past", sum(len(v) > 20 for v in D["past"].values()))
            ctx.count("history_full", sum(len(v) == D["max"] > 0 for v in D["past"].values()))
            segs_seen += len(segments)
    if segs_seen:
        ctx.nontrivial("absolute", w, h, hom, segs_seen, ctx.index)
        ctx.count("absolute_histories")
        ctx.state("absolute", hom, [D["max"] for D in drawers])
        if ctx.index < 6:
            ctx.sample = {**ctx.info, "segments": segs_seen}


def static_scene(ctx):
    """A static object stays one spot of the scene while the camera moves."""
    from norfair.camera_motion import TranslationTransformation

    rng, nf = ctx.rng, ctx.nf
    w, h = 160, 120
    draw.reset_palette(nf, [(255, 255, 255)])
    tr = nf.Tracker("mean_euclidean", 20, initialization_delay=0)
    spot = np.array([[rng.uniform(40, 120), rng.uniform(30, 90)]])
    d = nf.AbsolutePaths(radius=2, thickness=1)
    shift = np.zeros(2)
    seen = 0
    for t in range(12):
        if t:
            shift = shift + ctx.nprng.uniform(-8, 8, 2)
        ct = TranslationTransformation(shift.copy())
        rel = spot + shift
        objs = tr.update([nf.Detection(rel)], coord_transformations=ct)
        frame = np.zeros((h, w, 3), np.uint8)
        got = d.draw(frame, objs, ct)
        ys, xs = np.nonzero(got.max(axis=-1))
        if len(xs):
            seen += 1
            ctx.check(np.hypot(xs - rel[0, 0], ys - rel[0, 1]).max() < 6, "the path of a static object leaves its spot while the camera moves",
                      spot=rel[0], ink=[int(xs.min()), int(xs.max()), int(ys.min()), int(ys.max())], call=t)
        x, y = rel[0]
        if 5 < x < w - 5 and 5 < y < h - 5:
            ctx.check(len(xs) > 0, "a live object inside the frame is not marked", call=t)
    ctx.count("static_spots", seen)
    ctx.nontrivial("static", spot.tolist())


def case(ctx):
    warnings.simplefilter("ignore")
    rng = ctx.rng
    draw.reset_palette(ctx.nf, draw.random_colors(rng, rng.choice([3, 7, 10])) if rng.random() < 0.6 else None)
    try:
        k = ctx.index % 10
        if k == 9:
            static_scene(ctx)
        elif k % 2:
            absolute(ctx)
        else:
            paths(ctx)
    finally:
        draw.reset_palette(ctx.nf)
