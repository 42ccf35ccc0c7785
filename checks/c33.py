"""C33: The absolute grid is drawn at fixed scene positions."""
import functools
import warnings

import cv2
import numpy as np

from nfv import vid

PROP = "C33"
RULE = ("seeded random interleavings of draw_absolute_grid calls with changing frame sizes, grid sizes, options and transformations (none, "
        "translations, homographies) compared pixel by pixel with crosses painted at grid positions computed from the sphere itself; "
        "non-trivial when crosses were seen in several calls with different transformations")
ASSUMPTIONS = ["color frames", "points within 1e-6 of the frame border or of an integer may fall on either side"]
CASES = {"quick": 3400, "thorough": 60000}
FLOORS = {"other_layouts": 2100, "zoomed_out": 500, "calls": 10000, "crosses": 370000, "equator": 6700, "interleaved": 1600,
          "kind_homography": 2000, "kind_identity": 2100, "kind_none": 2100, "kind_translation": 4200, "on_integers": 8800, "polar": 3800,
          "fine_grids": 160}


@functools.lru_cache(64)
def grid(n, w, h, polar):
    """Intersections with the plane z=1 of the rays through the latitude/longitude grid, in first-frame pixels."""
    out = []
    ang = [-np.pi / 2 + np.pi / n * (i + 0.5) for i in range(n)]
    c = np.array([w // 2, h // 2])
    s = max(w, h)
    for th in ang:
        for fi in ang:
            if polar:
                v = np.array([np.sin(th) * np.cos(fi), np.sin(th) * np.sin(fi), np.cos(th)])
            else:
                v = np.array([np.cos(th) * np.sin(fi), np.sin(th), np.cos(th) * np.cos(fi)])
            with np.errstate(all="ignore"):
                out.append(v[:2] / v[2] * s + c)
    return np.array(out)


def cross(mask, p, r, t):
    x, y = p
    cv2.line(mask, (x, y - r), (x, y + r), 255, t)
    cv2.line(mask, (x - r, y), (x + r, y), 255, t)


def expected(ctx, frame, pts, r, t):
    """(pixels that must be colored, pixels that may be, number of certain crosses, alternatives for crosses at integers)"""
    h, w = frame.shape[:2]
    must, may = np.zeros((h, w), np.uint8), np.zeros((h, w), np.uint8)
    n = 0
    either = []
    for p in pts:
        if not np.isfinite(p).all():
            continue
        eps = 1e-6 * max(1.0, np.abs(p).max())
        if (p < -eps).any() or (p > np.array([w, h]) + eps).any():
            continue
        alt = {(int(a), int(b)) for a in (p[0] - eps, p[0] + eps) for b in (p[1] - eps, p[1] + eps)}
        inside = (p >= eps).all() and (p <= np.array([w, h]) - eps).all()
        for q in alt:
            cross(may, q, r, t)
        if inside and len(alt) == 1:
            cross(must, next(iter(alt)), r, t)
            n += 1
        elif inside:
            either.append([q for q in alt if q[0] < w and q[1] < h])
    return must > 0, may > 0, n, [e for e in either if e]


def case(ctx):
    from norfair.camera_motion import HomographyTransformation, TranslationTransformation

    warnings.simplefilter("ignore")
    rng, nf = ctx.rng, ctx.nf
    sizes = [(rng.choice([60, 80, 121]), rng.choice([50, 90, 61])) if rng.random() < 0.98 else (1280, 720) for _ in range(rng.choice([1, 2, 3]))]
    gsizes = [rng.choice([1, 2, 3, 5, 8, 20, 13]) if rng.random() < 0.98 else rng.randrange(40, 120) for _ in range(rng.choice([1, 2, 3]))]
    calls, seen, trans = 0, 0, set()
    for t in range(rng.choice([2, 5, 10])):
        w, h = rng.choice(sizes)
        g = rng.choice(gsizes)
        kind = rng.choice(["none", "identity", "translation", "homography", "translation"])
        if kind == "none":
            ct, fwd = None, lambda p: p
        elif kind in ("identity", "translation"):
            mv = np.zeros(2) if kind == "identity" else ctx.nprng.normal(0, rng.choice([5, w / 2, 3 * w]), 2)
            ct, fwd = TranslationTransformation(mv.copy()), lambda p, mv=mv: p + mv
        else:
            a = rng.uniform(-0.5, 0.5)
            H = np.array([[np.cos(a), -np.sin(a), rng.uniform(-20, 20)], [np.sin(a), np.cos(a), rng.uniform(-20, 20)],
                          [rng.uniform(-1e-4, 1e-4), rng.uniform(-1e-4, 1e-4), 1]])
            if rng.random() < 0.5:
                H[2, :2] = 0
            if rng.random() < 0.25:
                s = rng.choice([0.3, 0.1, 0.03, 0.005])  # far grid points come into sight
                H = np.array([[s, 0, w / 2 * (1 - s)], [0, s, h / 2 * (1 - s)], [0, 0, 1]]) @ H
                ctx.count("zoomed_out")
            ct = HomographyTransformation(H.copy())

            def fwd(p, H=H):
                q = np.hstack([p, np.ones((len(p), 1))]) @ H.T
                return q[:, :2] / q[:, 2:]
        kw = {}
        if rng.random() < 0.85:
            kw["grid_size"] = g
        if rng.random() < 0.7:
            kw["radius"] = rng.choice([0, 1, 2, 4, 4, 17, 40])
        if rng.random() < 0.7:
            kw["thickness"] = rng.choice([1, 2, 3])
        color = (0, 0, 0)
        if rng.random() < 0.7:
            color = tuple(rng.randrange(256) for _ in range(3))
            kw["color"] = color
        if rng.random() < 0.6:
            kw["polar"] = rng.random() < 0.6
        bg = tuple((c + rng.randrange(1, 256)) % 256 for c in color)
        frame = np.empty((h, w, 3), np.uint8)
        frame[:] = bg
        if rng.random() < 0.5:
            frame = ctx.nprng.integers(0, 256, (h, w, 3), dtype=np.uint8)
        keep = frame.copy()
        if rng.random() < 0.2:
            frame = vid.laid_out(rng, frame, ["window"])
            ctx.count("other_layouts")
        with np.errstate(all="ignore"):
            nf.draw_absolute_grid(frame, ct, **kw)
            pts = fwd(grid(kw.get("grid_size", 20), w, h, kw.get("polar", False)))
        must, may, n, either = expected(ctx, frame, pts, kw.get("radius", 2), kw.get("thickness", 1))
        ctx.info = {"call": t, "frame": [w, h], "transformation": kind, "options": kw}
        ok = (frame == np.array(color, np.uint8)).all(axis=-1)
        ctx.check(ok[must].all(), "a grid point inside the frame is not marked", missing=np.argwhere(must & ~ok)[:5].tolist(), crosses=n)
        for alts in either:
            ctx.check(any(ok[y, x] for x, y in alts), "a grid point inside the frame is not marked", at_one_of=alts)
        ctx.count("on_integers", len(either))
        same = (frame == keep).all(axis=-1)
        ctx.check(same[~may].all(), "pixels away from the grid changed", where=np.argwhere(~may & ~same)[:5].tolist(), crosses=n)
        ctx.check((ok | same).all(), "the grid is drawn in another color")
        calls += 1
        ctx.count("calls")
        ctx.count("fine_grids", kw.get("grid_size", 20) >= 40)
        ctx.count("crosses", n)
        ctx.count("kind_" + kind)
        ctx.count("polar" if kw.get("polar") else "equator")
        if n:
            seen += 1
            trans.add(kind)
    ctx.count("interleaved", len(sizes) > 1 or len(gsizes) > 1)
    if seen > 1 and len(trans) > 1:
        ctx.nontrivial(sizes, gsizes, calls, ctx.index)
        ctx.state(sorted(trans), len(sizes), len(gsizes))
        if ctx.index < 6:
            ctx.sample = {**ctx.info, "calls": calls, "frames": sizes, "grids": gsizes}
