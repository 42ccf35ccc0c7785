"""C23: MotionEstimator recovers the camera's motion from the frames."""
import copy

import numpy as np

from nfv import vid

PROP = "C23"
RULE = ("seeded random camera paths (pan, zoom, rotation, pauses) over synthetic textured worlds rendered with known homographies, with both "
        "getters, moving foreground objects under masks, static overlays under masks, textureless frames anywhere and draw_flow on or off; a "
        "recording getter (handed to the estimator as user code) counts the reference updates; the returned maps are compared with the true ones "
        "on points of the frame; non-trivial when the camera moved and the maps were compared")
ASSUMPTIONS = ["tolerance per reference update: 0.3 px (translation), 4.5 px (homography): at least twice the largest error ever measured on some 250000 frames",
               "maps right after a textureless frame, whose motion cannot be known, are not judged; from the second one on they must agree with each other"]
CASES = {"quick": 1600, "thorough": 16000}
CASE_S = 120
FLOORS = {"covered_references": 180, "other_layouts": 570, "recovered": 400, "compared": 5300, "with_updates": 1400, "masked_foreground": 830,
          "blank_frames": 770, "blank_first": 110, "blank_none": 120, "draw_flow": 1000, "unmodified": 5500, "first_identity": 590,
          "translation_cases": 170, "homography_cases": 410, "default_getter": 820, "mostly_masked": 78, "flow_points": 180000,
          "released_masks": 140}

W, H = 320, 240
_worlds = {}


def world(seed, size=900, contrast=45):
    import cv2

    if (seed, contrast) not in _worlds:
        r = np.random.default_rng(seed)
        w = np.zeros((size, size), np.float32)
        for s, a in ((3, 60), (7, 60), (15, 50)):
            n = cv2.GaussianBlur(r.normal(size=(size, size)).astype(np.float32), (0, 0), s)
            w += a * n / n.std()
        w = (w - w.mean()) / w.std() * contrast + 127
        w = np.clip(w, 0, 255).astype(np.uint8)
        _worlds[(seed, contrast)] = cv2.merge([w, np.roll(w, 2, 0), w])
    return _worlds[(seed, contrast)]


def path(rng, kind, n):
    """World-to-frame homographies of a camera that pans, zooms and turns."""
    cx, cy, ang, z = 450.0, 450.0, 0.0, 1.0
    fast = rng.choice([1.0, 3.0, 6.0])
    v = [rng.uniform(-fast, fast), rng.uniform(-fast, fast)]
    va, vz = rng.uniform(-0.01, 0.01), rng.uniform(-0.01, 0.01)
    out = []
    for _ in range(n):
        c, s = np.cos(ang) * z, np.sin(ang) * z
        out.append(np.array([[1, 0, W / 2], [0, 1, H / 2], [0, 0, 1.0]]) @ np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
                   @ np.array([[1, 0, -cx], [0, 1, -cy], [0, 0, 1.0]]))
        cx, cy = cx + v[0], cy + v[1]
        if kind != "pan":
            ang, z = ang + va, z * (1 + vz)
        r = rng.random()
        if r < 0.15:
            v = [rng.uniform(-fast, fast), rng.uniform(-fast, fast)]
        elif r < 0.25:
            v = [0.0, 0.0]
    return out


def proj(M, p):
    q = np.column_stack([p, np.ones(len(p))]) @ M.T
    return q[:, :2] / q[:, 2:]


GRID = np.array([[x, y] for x in (40.0, 160.0, 280.0) for y in (40.0, 120.0, 200.0)])


class Log(list):
    flow = None


def check_flow(ctx, before, frame, flow, color):
    """draw_flow marks every tracked point, where it was and where it is, in the given color, and nothing else."""
    changed = np.any(frame != before, axis=2)
    ctx.check(np.all(frame[changed] == np.array(color)), "draw_flow draws in another color", color=color, got=frame[changed][:3])
    near = np.zeros(changed.shape, bool)
    ys, xs = np.mgrid[0:H, 0:W]
    for c, p in zip(*flow):
        c, p = c.astype(int), p.astype(int)
        for q in (c, p):
            if 0 <= q[0] < W and 0 <= q[1] < H:
                ctx.check(np.array_equal(frame[q[1], q[0]], color), "a tracked point is not marked", point=q, got=frame[q[1], q[0]])
        x0, x1, y0, y1 = [int(v) for v in (min(c[0], p[0]) - 6, max(c[0], p[0]) + 7, min(c[1], p[1]) - 6, max(c[1], p[1]) + 7)]
        x0, y0 = max(x0, 0), max(y0, 0)
        X, Y = xs[y0:y1, x0:x1] - p[0], ys[y0:y1, x0:x1] - p[1]
        d = (c - p).astype(float)
        n2 = float(d @ d)
        t = np.clip((X * d[0] + Y * d[1]) / n2, 0, 1) if n2 else np.zeros(X.shape)
        near[y0:y1, x0:x1] |= np.hypot(X - t * d[0], Y - t * d[1]) <= 5
    ctx.check(not np.any(changed & ~near), "draw_flow draws away from the tracked points", where=np.argwhere(changed & ~near)[:3])
    ctx.count("flow_points", len(flow[0]))


def make_getter(ctx, inner, log):
    class Rec(ctx.nf.camera_motion.TransformationGetter):
        def __init__(self, g):
            self.g = g

        def __call__(self, curr, prev):
            log.flow = None if curr is None or prev is None else (np.array(curr, float), np.array(prev, float))
            r = self.g(curr, prev)
            log.append(bool(r[0]))
            return r

        def __deepcopy__(self, memo):
            return Rec(copy.deepcopy(self.g, memo))

    return Rec(inner)


def released(ctx):
    """A mask counts for its own frame only: what it hid before is seen again, what it showed before may be hidden."""
    import cv2

    rng = ctx.rng
    cm = ctx.nf.camera_motion
    n, j = 9, rng.choice([2, 3, 4])
    world_img = world(rng.randrange(3))
    Hs = path(rng, "pan", n)
    frames = [cv2.warpPerspective(world_img, M, (W, H)) for M in Hs]
    fg = world(7, contrast=20)
    x, y = rng.randrange(15, W - 115), rng.randrange(15, H - 115)
    patch = np.zeros((H, W), np.uint8)
    patch[y:y + 100, x:x + 100] = 1
    later = rng.choice(["none", "ones", "rest"])
    masks = []
    for k in range(n):
        if k < j:
            masks.append(patch.copy())
        else:
            # from now on the window shows something that stays with the frame (a logo), the scene is around it
            frames[k][y - 5:y + 105, x - 5:x + 105] = fg[200:310, 300:410]
            m = np.ones((H, W), np.uint8)
            if later == "rest":
                m[max(y - 15, 0):y + 115, max(x - 15, 0):x + 115] = 0
            masks.append(None if later == "none" else m)
    est = cm.MotionEstimator(transformations_getter=cm.TranslationTransformationGetter(proportion_points_used_threshold=1.01), min_distance=10)
    ctx.info = {"mode": "released mask", "at": j, "later": later, "window": [x, y]}
    for k in range(n):
        T = est.update(frames[k]) if masks[k] is None else est.update(frames[k], masks[k])
        ctx.check(T is not None, "no transformation was returned for a textured frame", frame=k)
        if k in (j, j + 1):
            # the scene is covered between these two frames where the points were, so this step is not judged
            base = (np.asarray(T.abs_to_rel(GRID)) - GRID)[0], k
            continue
        want = proj(Hs[k] @ np.linalg.inv(Hs[0 if k < j else base[1]]), GRID) - GRID
        got = np.asarray(T.abs_to_rel(GRID)) - GRID - (0 if k < j else base[0])
        ctx.check(float(np.abs(got - want).max()) <= 0.35 * (k + 1), "a mask of an earlier frame influences the estimate", frame=k, got=got[0], want=want[0])
        ctx.count("released_masks", k > j)
    ctx.nontrivial("released", ctx.index)


def covered(ctx):
    """A new reference frame is looked at where its own mask allows, wherever the points of the earlier one were."""
    import cv2

    rng = ctx.rng
    cm = ctx.nf.camera_motion
    n, j = 9, rng.choice([2, 3, 4])
    v = np.array([rng.choice([-1, 1]) * rng.uniform(1, 3), rng.uniform(-2, 2)])
    Hs = [np.array([[1, 0, -290 - v[0] * k], [0, 1, -330 - v[1] * k], [0, 0, 1.0]]) for k in range(n)]
    img = world(rng.randrange(3))
    frames = [cv2.warpPerspective(img, M, (W, H)) for M in Hs]
    fg = world(7, contrast=60)
    side = rng.choice(["left", "right", "top", "bottom"])
    at = {"left": np.s_[:, :200], "right": np.s_[:, 120:], "top": np.s_[:150], "bottom": np.s_[90:]}[side]
    masks = [np.ones((H, W), np.uint8) for _ in range(n)]
    for k in range(j, n):
        masks[k][at] = 0
        frames[k][at] = fg[200:200 + H, 300:300 + W][at]  # from now on something stays there
    getter = cm.TranslationTransformationGetter(proportion_points_used_threshold=0.0)
    est = cm.MotionEstimator(transformations_getter=getter, min_distance=10)
    ctx.info = {"mode": "covered reference", "at": j, "side": side, "speed": v}
    for k in range(n):
        getter.proportion_points_used_threshold = 1.01 if k == j else 0.0
        T = est.update(frames[k], masks[k])
        ctx.check(T is not None, "no transformation was returned for a textured frame", frame=k)
        got = np.asarray(T.abs_to_rel(GRID)) - GRID
        if k == j:
            base = got[0]  # many points are covered in this step, which is not judged
            continue
        want = proj(Hs[k] @ np.linalg.inv(Hs[0 if k < j else j]), GRID) - GRID
        got = got - (0 if k < j else base)
        ctx.check(float(np.abs(got - want).max()) <= 0.8, "a masked region influences the estimate after the reference was renewed", frame=k, got=got[0],
                  want=want[0])
        ctx.count("covered_references", k > j)
    ctx.nontrivial("covered", ctx.index)


def recovery(ctx):
    """The motion during a textureless stretch cannot be known, but the maps after it agree with each other again."""
    import cv2

    rng = ctx.rng
    cm = ctx.nf.camera_motion
    n, j, gap = rng.choice([10, 14]), rng.choice([1, 2, 4]), rng.choice([1, 1, 2, 3])
    kind = rng.choice(["pan", "all"])
    Hs = path(rng, kind, n)
    img = world(rng.randrange(3))
    frames = [cv2.warpPerspective(img, M, (W, H)) for M in Hs]
    level = rng.choice([0, 127, 255])
    for k in range(j, j + gap):
        frames[k][:] = level
    log = Log()
    translation = kind == "pan" and rng.random() < 0.6
    # an estimate from the few points that seem to survive a textureless frame can be poor: every frame is a reference
    thr = rng.choice([1.01, 2.0])
    kw = {"proportion_points_used_threshold": thr}
    inner = (cm.TranslationTransformationGetter if translation else cm.HomographyTransformationGetter)(**kw)
    est = cm.MotionEstimator(transformations_getter=make_getter(ctx, inner, log))
    ctx.info = {"mode": "recovery", "path": kind, "getter": type(inner).__name__, "blank": [j, gap, level], "threshold": thr, "frames": n}
    base, updates, late = None, 0, 0
    for k in range(n):
        nlog = len(log)
        T = est.update(frames[k])
        if k <= j + gap:
            continue  # the frame after the stretch is the first one that can be a reference again
        ctx.info["frame"] = k
        if T is None:
            ctx.check(base is None and k <= j + gap + 1, "no transformation was returned long after a textureless frame")
            continue
        if base is None:
            back = np.asarray(T.abs_to_rel(T.rel_to_abs(GRID)))
            if not np.abs(back - GRID).max() < 0.01:
                ctx.count("lost_bases")
                return
            base = (k, T)
        else:
            want = proj(Hs[k] @ np.linalg.inv(Hs[base[0]]), GRID)
            got = np.asarray(T.abs_to_rel(base[1].rel_to_abs(GRID)))
            tol = (0.3 if translation else 2.0) * (2 + updates)
            e = float(np.abs(got - want).max())
            ctx.check(e <= tol, "maps after a textureless frame do not agree with each other", base=base[0], error=e, tolerance=tol)
            ctx.count("recovered")
            late += 1
        if len(log) > nlog and log[-1]:
            updates += 1
    ctx.state("recovery", kind, translation, min(updates, 5), late)
    if late:
        ctx.nontrivial("recovery", ctx.index)


def case(ctx):
    import cv2

    if ctx.index % 12 == 5:
        return released(ctx) if ctx.index % 24 == 5 else covered(ctx)
    if ctx.index % 12 == 9:
        return recovery(ctx)
    rng = ctx.rng
    cm = ctx.nf.camera_motion
    mode = rng.choice(["plain", "plain", "mask", "overlay", "blank", "blank", "draw"])
    kind = rng.choice(["pan", "all"])
    getter = "default"
    if kind == "pan" and rng.random() < 0.6:
        inner = cm.TranslationTransformationGetter(**({} if rng.random() < 0.6 else {"bin_size": 0.25, "proportion_points_used_threshold": 0.8}))
        getter = "translation"
    else:
        inner = cm.HomographyTransformationGetter(**({} if rng.random() < 0.6 else {"proportion_points_used_threshold": rng.choice([0.8, 0.95, 1.0])}))
    log = Log()
    kw = {}
    if rng.random() < 0.3:
        kw["max_points"] = rng.choice([150, 300])
    if rng.random() < 0.3:
        kw["min_distance"] = rng.choice([8, 12])
    if rng.random() < 0.2:
        kw["block_size"] = 5
    if rng.random() < 0.2:
        kw["quality_level"] = 0.02
    n = rng.choice([4, 8, 14, 14]) if ctx.tier == "quick" else rng.choice([4, 10, 20, 40])
    weak = mode in ("mask", "overlay")
    wseed = rng.randrange(3)
    world_img = world(wseed, contrast=18 if weak else 45)
    Hs = path(rng, kind, n)
    frames = [cv2.warpPerspective(world_img, M, (W, H)) for M in Hs]
    masks = [None] * n
    big = False  # more than half of the frame is masked: few points are left, many of them next to the foreground
    if mode == "mask":
        fg = world(7, contrast=60)
        fx, fy = rng.uniform(40, 140), rng.uniform(30, 90)
        ox, oy = rng.uniform(-3, 3), rng.uniform(-3, 3)
        bw, bh = (150, 120) if rng.random() < 0.5 else (228, 176)  # more than half of the frame
        if bw > 150:
            fx, fy = fx * 0.4, fy * 0.5
            big = True
            ctx.count("mostly_masked")
        for k in range(n):
            x, y = int(min(max(fx + ox * k, 0), W - bw)), int(min(max(fy + oy * k, 0), H - bh))
            frames[k][y:y + bh, x:x + bw] = fg[200 + 2 * k:200 + 2 * k + bh, 300 - 3 * k:300 - 3 * k + bw]
            m = np.ones((H, W), np.uint8)
            m[max(y - 12, 0):y + bh + 12, max(x - 12, 0):x + bw + 12] = 0
            masks[k] = m
    elif mode == "overlay":
        # a score board that does not move with the scene
        fg = world(7, contrast=60)
        m = np.ones((H, W), np.uint8)
        tall = rng.choice([80, 80, 130])
        m[:tall + 12] = 0
        big = tall > 80
        ctx.count("mostly_masked", big)
        for k in range(n):
            frames[k][:tall] = fg[100:100 + tall, 100:100 + W]
            masks[k] = m
    blanks = set()
    if mode == "blank":
        blanks = {rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))}
        if rng.random() < 0.3:
            blanks |= {0}
        if rng.random() < 0.2:
            blanks = set(range(n))
        for k in blanks:
            frames[k][:] = rng.choice([0, 127, 255])
        if rng.random() < 0.3:
            masks = [np.ones((H, W), np.uint8) if rng.random() < 0.7 else np.zeros((H, W), np.uint8) for _ in range(n)]
    draw = mode == "draw" or (mode == "blank" and rng.random() < 0.3)
    if draw:
        kw["draw_flow"] = True
        if rng.random() < 0.5:
            kw["flow_color"] = rng.choice([(0, 255, 0), (1, 2, 3)])
    default = getter == "default" and rng.random() < 0.2
    est = cm.MotionEstimator(**kw) if default else cm.MotionEstimator(transformations_getter=make_getter(ctx, inner, log), **kw)
    if default:
        inner = cm.HomographyTransformationGetter()
    plain = None
    if mode == "draw":
        plain = cm.MotionEstimator(transformations_getter=copy.deepcopy(inner), **{k: v for k, v in kw.items() if k not in ("draw_flow", "flow_color")})
    ctx.info = {"mode": mode, "path": kind, "getter": getter, "params": kw, "frames": n, "world": wseed, "blank_frames": sorted(blanks)}
    updates = 0
    seen_blank = False
    known = False
    kept = []
    worst = 0.0
    masked_all = any(m is not None and not m.any() for m in masks)
    for k in range(n):
        frame = frames[k]
        before = frame.copy()
        mask = masks[k]
        mcopy = None if mask is None else mask.copy()
        nlog = len(log)
        if not draw and rng.random() < 0.1:
            frame = vid.laid_out(rng, frame)
            ctx.count("other_layouts")
        T = est.update(frame) if mask is None else est.update(frame, mask)
        ctx.info["frame"] = k
        if draw:
            other = None
            if plain is not None:
                other = plain.update(before.copy())
                ctx.check((other is None) == (T is None), "drawing the flow changes the estimate", got=repr(T))
                if T is not None:
                    ctx.check(np.allclose(T.abs_to_rel(GRID), other.abs_to_rel(GRID), atol=1e-9), "drawing the flow changes the estimate")
                ctx.check(not np.array_equal(frame, before), "draw_flow draws nothing on a textured frame")
                if log.flow is not None and not default:
                    check_flow(ctx, before, frame, log.flow, kw.get("flow_color", (0, 0, 100)))
                ctx.count("draw_flow")
        else:
            ctx.check(np.array_equal(frame, before), "the frame was modified although draw_flow is off")
            ctx.count("unmodified")
        if mask is not None:
            ctx.check(np.array_equal(mask, mcopy), "the mask was modified")
        blank = k in blanks
        seen_blank |= blank or masked_all
        ctx.count("blank_frames", blank)
        ctx.count("blank_first", blank and k == 0)
        if seen_blank:
            ctx.check(T is None or (np.shape(T.abs_to_rel(GRID)) == GRID.shape), "the result is neither None nor a transformation", got=repr(T))
            if k == 0 and (blank or mask is not None and not mask.any()):
                ctx.check(T is None, "a transformation was made up from a textureless first frame", got=repr(T))
                ctx.count("blank_none")
            ctx.state("blank", getter, blank, T is None, k == 0)
            continue
        ctx.check(T is not None, "no transformation was returned for a textured frame")
        if k == 0:
            ctx.check(np.abs(T.abs_to_rel(GRID) - GRID).max() < 1e-3 and np.abs(T.rel_to_abs(GRID) - GRID).max() < 1e-3,
                      "the first frame's transformation is not the identity", got=T.abs_to_rel(GRID))
            ctx.count("first_identity")
        # judged on points of the visible, unmasked scene; first: where the frame's grid points are in the first frame
        pts = GRID if mask is None else GRID[[bool(mask[int(y), int(x)]) for x, y in GRID]]
        first = proj(Hs[0] @ np.linalg.inv(Hs[k]), pts)
        if not len(pts):
            continue
        # with the estimator's own default getter the updates cannot be counted
        tol = min(4.5 + 1.5 * k, 12.0) if default else (0.3 if getter == "translation" else 4.5) * (1 + updates)
        if big:
            tol *= 5 if getter == "translation" else 1
        ctx.count("default_getter", default)
        e1 = float(np.abs(T.abs_to_rel(first) - pts).max())
        e2 = float(np.abs(T.rel_to_abs(pts) - first).max())
        ctx.check(e1 <= tol and e2 <= tol * 1.5, "the transformation does not map the scene to the frame", error=e1, error_back=e2, tolerance=tol, updates=updates)
        worst = max(worst, e1)
        ctx.count("compared")
        ctx.count("with_updates", updates > 0)
        ctx.count("masked_foreground" if mode == "mask" else "plain_frames")
        ctx.state(mode, getter, kind, min(updates, 6), k)
        kept.append((T, T.abs_to_rel(GRID).copy()))
        if len(log) > nlog and log[-1]:
            updates += 1
    for T, d in kept:
        ctx.check(np.array_equal(T.abs_to_rel(GRID), d), "a transformation returned earlier changed later")
    ctx.count(getter.replace("default", "homography") + "_cases", bool(kept))
    moved = float(np.abs(proj(Hs[-1] @ np.linalg.inv(Hs[0]), GRID) - GRID).max())
    if kept and moved > 1:
        ctx.nontrivial(ctx.index)
        ctx.sample = {**ctx.info, "updates": updates, "moved_px": moved, "worst_error_px": worst}
