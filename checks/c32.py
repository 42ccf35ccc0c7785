"""C32: FixedCamera places each frame where the camera was looking."""
import warnings

import numpy as np

from nfv import vid

PROP = "C32"
RULE = ("seeded random histories of frames (several sizes, channels, scales, attenuations) and translations (still, pans, jumps far outside, "
        "fractions) through one or two FixedCameras; every canvas is compared with one composed from the previous canvas and the frame; "
        "non-trivial when the frame was visible at two different places")
ASSUMPTIONS = ["translations only (homographies are documented as unsupported)", "all frames of a history have one size",
               "the canvas has at least one pixel", "canvases are not written to by the caller"]
CASES = {"quick": 15000, "thorough": 100000}
FLOORS = {"other_layouts": 16000, "cropped": 18000, "frames": 81000, "outside": 31000, "style_far": 1600, "style_fractions": 1600,
          "style_jumps": 1600, "style_pan": 1600, "style_still": 1600, "whole": 31000, "deep_frames": 40000}


def offsets(v, c):
    """Possible integer offsets of a center shifted by -v (either side of a half)."""
    x = c - v
    r = {int(np.floor(x + 0.5 - 1e-9)), int(np.floor(x + 0.5 + 1e-9))}
    return sorted(r)


def compose(prev, f, frame, y, x):
    """The previous canvas dimmed, with the frame on top at (y, x), cropped; and which pixels are the frame."""
    bg = prev.astype(float) * f
    H, W = prev.shape[:2]
    h, w = frame.shape[:2]
    inside = np.zeros((H, W), bool)
    y0, y1, x0, x1 = max(y, 0), min(y + h, H), max(x, 0), min(x + w, W)
    if y0 < y1 and x0 < x1:
        bg[y0:y1, x0:x1] = frame[y0 - y:y1 - y, x0 - x:x1 - x]
        inside[y0:y1, x0:x1] = True
    return bg, inside


def case(ctx):
    from norfair.camera_motion import TranslationTransformation
    from norfair.drawing.fixed_camera import FixedCamera

    warnings.simplefilter("ignore")
    rng, nf = ctx.rng, ctx.nf
    cams = []
    for _ in range(rng.choice([1, 1, 2])):
        w, h = rng.choice([(32, 24), (33, 25), (24, 41), (7, 5), (64, 48), (50, 20)])
        kw = {}
        if rng.random() < 0.8:
            kw["scale"] = rng.choice([1, 1.5, 2, 3, 0.5, 1.1, 2.37, 4])
        if rng.random() < 0.8:
            kw["attenuation"] = rng.choice([0, 0.05, 0.5, 1, 0.2, rng.random()])
        s = kw.get("scale", 2)
        size = [{int(np.floor(v * s + 0.5 - 1e-9)), int(np.floor(v * s + 0.5 + 1e-9))} for v in (h, w)]
        cams.append({"c": FixedCamera(**kw), "wh": (w, h), "size": size, "f": 1 - kw.get("attenuation", 0.05), "prev": None,
                     "dtype": rng.choice([np.uint8, np.uint8, np.uint8, np.uint16, np.float32, np.float64]), "kw": kw, "ch": rng.choice([3, 3, 3, 1, 4])})
    ctx.info = {"cameras": [(c["wh"], c["ch"], c["kw"]) for c in cams]}
    kept = []
    places = set()
    style = rng.choice(["pan", "jumps", "still", "fractions", "far"])
    shift = np.zeros(2)
    for t in range(rng.choice([1, 3, 6, 12]) if rng.random() < 0.98 else rng.randrange(30, 150)):
        for cam in cams:
            w, h = cam["wh"]
            if style == "pan":
                shift = shift + np.array([rng.randrange(-6, 7), rng.randrange(-6, 7)])
            elif style == "jumps":
                shift = np.array([rng.randrange(-3 * w, 3 * w), rng.randrange(-3 * h, 3 * h)])
            elif style == "fractions":
                shift = shift + ctx.nprng.normal(0, 4, 2)
            elif style == "far":
                shift = np.array([rng.choice([0, -1, 1, 30, -30, 1e3, -1e3, 1e6, -1e6, 1e9, -1e9]), rng.choice([0, -1, 1, 30, -30, 1e3, -1e3, 1e6, -1e6])])
            mv = np.array(shift, dtype=float)
            ct = TranslationTransformation(mv.copy())
            top = {"u1": 256, "u2": 65536}.get(np.dtype(cam["dtype"]).str[1:], 0)
            frame = (ctx.nprng.integers(0, top, (h, w, cam["ch"])) if top else ctx.nprng.random((h, w, cam["ch"]))).astype(cam["dtype"])
            if rng.random() < 0.3:
                frame[:] = rng.choice([0, max(1, top - 1)])
            ctx.count("deep_frames", top != 256)
            keep = frame.copy()
            if rng.random() < 0.2:
                frame = vid.laid_out(rng, frame, ["window", "channels", "rows", "fortran"])
                ctx.count("other_layouts")
            got = cam["c"].adjust_frame(frame, ct)
            ctx.info["call"], ctx.info["movement"] = t, mv
            ctx.check(np.array_equal(frame, keep), "FixedCamera changed the frame it was given")
            ctx.check(got.dtype == frame.dtype and got.ndim == 3 and got.shape[0] in cam["size"][0] and got.shape[1] in cam["size"][1] and got.shape[2] == cam["ch"],
                      "the canvas does not have the size of the frame times the scale", got=got.shape, expected=[sorted(s) for s in cam["size"]])
            H, W = got.shape[:2]
            prev = cam["prev"] if cam["prev"] is not None else np.zeros(got.shape, cam["dtype"])
            ctx.check(prev.shape == got.shape, "the canvas changes its size")
            ok, best = False, None
            for y in offsets(mv[1], H // 2 - h // 2):
                for x in offsets(mv[0], W // 2 - w // 2):
                    bg, inside = compose(prev, cam["f"], frame, y, x)
                    diff = np.abs(got.astype(float) - bg)
                    bad = (diff[inside] != 0).any() or (diff[~inside] > (1 if top else 1e-5)).any()
                    if not bad:
                        ok = True
                        place = (y, x) if inside.any() else None
                        cropped = inside.sum() < h * w
                    best = (int((diff[inside] != 0).any(axis=-1).sum()), int((diff[~inside] > 1).any(axis=-1).sum()), (y, x)) if best is None else best
            ctx.check(ok, "the canvas is not the frame at its place over the dimmed previous canvas", wrong_inside=best[0], wrong_outside=best[1],
                      top_left=best[2], canvas=[H, W])
            for old, was in kept:
                ctx.check(np.array_equal(old, was), "a canvas returned earlier was modified")
            cam["prev"] = got.copy()
            kept = (kept + [(got, got.copy())])[-5:]
            ctx.count("frames")
            ctx.count("outside" if place is None else "cropped" if cropped else "whole")
            if place is not None:
                places.add((cams.index(cam),) + place)
            frame[:] = rng.randrange(256) if top else rng.random()  # the frame is the caller's again
            ctx.check(np.array_equal(got, kept[-1][1]), "the canvas is a view of the frame")
    if len(places) > 1:
        ctx.nontrivial(ctx.info["cameras"], style, sorted(places))
        ctx.state(style, cams[0]["kw"].get("scale"), cams[0]["ch"])
        if ctx.index < 5:
            ctx.sample = {"cameras": ctx.info["cameras"], "style": style, "top_left_corners": sorted(places)[:10]}
    ctx.count("style_" + style)
