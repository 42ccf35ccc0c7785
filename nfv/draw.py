"""Drawing workloads: frames, drawables in every state, and pictures painted independently with OpenCV primitives."""
import numpy as np

NAMED = {  # CSS names, written down independently of norfair (R, G, B)
    "black": (0, 0, 0), "white": (255, 255, 255), "red": (255, 0, 0), "lime": (0, 255, 0), "blue": (0, 0, 255), "yellow": (255, 255, 0),
    "cyan": (0, 255, 255), "magenta": (255, 0, 255), "orange": (255, 165, 0), "purple": (128, 0, 128), "green": (0, 128, 0),
    "gray": (128, 128, 128), "grey": (128, 128, 128), "navy": (0, 0, 128), "teal": (0, 128, 128), "gold": (255, 215, 0),
    "pink": (255, 192, 203), "brown": (165, 42, 42), "coral": (255, 127, 80), "crimson": (220, 20, 60), "salmon": (250, 128, 114),
    "tomato": (255, 99, 71), "steelblue": (70, 130, 180), "skyblue": (135, 206, 235), "orchid": (218, 112, 214), "olive": (128, 128, 0),
    "indigo": (75, 0, 130), "khaki": (240, 230, 140), "lavender": (230, 230, 250), "maroon": (128, 0, 0), "plum": (221, 160, 221),
    "rebeccapurple": (102, 51, 153), "aliceblue": (240, 248, 255), "darkslategray": (47, 79, 79), "yellowgreen": (154, 205, 50),
    "darkorange": (255, 140, 0), "hotpink": (255, 105, 180), "turquoise": (64, 224, 208), "violet": (238, 130, 238), "silver": (192, 192, 192),
}


def bgr(name):
    return NAMED[name][::-1]


def hexof(color, rng=None):
    s = "#%02x%02x%02x" % tuple(color[::-1])
    if rng is not None and rng.random() < 0.5:
        s = "".join(rng.choice([c.upper(), c.lower()]) for c in s)
    return s


def reset_palette(nf, colors=None, default=(0, 0, 0)):
    """Palette is process-wide state: every case starts from a known one."""
    from norfair.drawing import color as C

    nf.Palette.set("tab10" if colors is None else [tuple(c) for c in colors])
    nf.Palette.set_default_color(default)
    return C


def random_colors(rng, n):
    out = set()
    while len(out) < n:
        out.add((rng.randrange(256), rng.randrange(256), rng.randrange(256)))
    return sorted(out)


def frame(ctx, w, h, style=None):
    style = style or ctx.rng.choice(["noise", "flat", "black", "white"])
    if style == "noise":
        return ctx.nprng.integers(0, 256, (h, w, 3), dtype=np.uint8)
    if style == "flat":
        return np.full((h, w, 3), ctx.rng.randrange(256), np.uint8)
    return np.full((h, w, 3), 0 if style == "black" else 255, np.uint8)


def coord(rng, size):
    r = rng.random()
    if r < 0.55:
        v = rng.uniform(0, size - 1)
    elif r < 0.8:
        v = rng.uniform(-0.4 * size, 1.4 * size)
    elif r < 0.9:
        v = rng.choice([0, size - 1, size, -1, -0.5, 0.5, size - 0.5])
    else:
        v = rng.choice([-1, 1]) * 10 ** rng.uniform(2, 6)
    if rng.random() < 0.4:
        v = float(round(v))
    return v


def box(rng, w, h):
    p = [[coord(rng, w), coord(rng, h)], [coord(rng, w), coord(rng, h)]]
    if rng.random() < 0.8:
        p = [[min(p[0][0], p[1][0]), min(p[0][1], p[1][1])], [max(p[0][0], p[1][0]), max(p[0][1], p[1][1])]]
    return np.array(p)


def points(rng, w, h, n):
    return np.array([[coord(rng, w), coord(rng, h)] for _ in range(n)])


def tracked(ctx, n, shape, labels=None, ids=True, ct=None):
    """n TrackedObjects with real histories: some points dead, some objects entirely dead, some without id.

    shape() gives the points of one object."""
    rng, nf = ctx.rng, ctx.nf

    def dist(det, obj):
        return 0.0 if det.data == obj.last_detection.data else 1e6

    npts = None
    tracker = nf.Tracker(distance_function=dist, distance_threshold=1.0, hit_counter_max=12, initialization_delay=0 if ids else rng.choice([0, 2, 4]),
                         pointwise_hit_counter_max=rng.choice([1, 2, 4]), detection_threshold=0.5)
    base = [shape() for _ in range(n)]
    fate = [rng.choice(["alive", "partial", "dead", "alive"]) for _ in range(n)]
    masks = []
    for i in range(n):
        npts = len(base[i])
        m = [rng.random() < 0.6 for _ in range(npts)]
        masks.append(m)
    lab = [None if labels is None else rng.choice(labels) for _ in range(n)]
    steps = rng.choice([2, 4, 7, 10])
    scored = [rng.random() < 0.6 for _ in range(n)]
    last = [rng.choice([1, 1, steps // 2, steps - 1]) for _ in range(n)]  # dead ones are seen until then
    drift = [ctx.nprng.normal(0, 3, base[i].shape[1]) for i in range(n)]
    for t in range(steps):
        dets = []
        for i in range(n):
            if t == 0 or fate[i] == "alive" or fate[i] == "dead" and t < last[i]:
                s = np.ones(len(base[i])) if scored[i] or fate[i] == "partial" else None
            elif fate[i] == "partial":
                s = np.array([0.9 if ok else 0.1 for ok in masks[i]])
            else:
                continue
            dets.append(nf.Detection(base[i] + t * drift[i] + (0 if t == 0 else ctx.nprng.normal(0, 1, base[i].shape)), scores=s, data=i, label=lab[i]))
        kw = {} if ct is None else {"coord_transformations": ct}
        tracker.update(dets, **kw)
    objs = list(tracker.tracked_objects)
    rng.shuffle(objs)
    return objs


def state_of(d):
    """Everything drawing must leave alone."""
    out = []
    for k in ("points", "scores", "id", "label", "live_points", "estimate", "age", "hit_counter", "point_hit_counter", "last_detection",
              "last_distance", "initializing_id", "past_detections", "absolute_points"):
        v = getattr(d, k, None)
        out.append((k, v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, (list, tuple)) else v))
    return out


def same_state(a, b):
    for (k, x), (_, y) in zip(a, b):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if x is None or y is None or x.shape != y.shape or x.dtype != y.dtype or x.tobytes() != y.tobytes():
                return k
        elif isinstance(x, list):
            if len(x) != len(y) or any(p is not q for p, q in zip(x, y)):
                return k
        elif x is not y and not x == y:
            return k
    return None


def pt(p):
    """Integer position of a point."""
    return int(p[0]), int(p[1])


def diff_brief(a, b):
    d = (a != b).any(axis=-1) if a.ndim == 3 else a != b
    ys, xs = np.nonzero(d)
    return {"pixels": int(d.sum()), "where": [(int(x), int(y), a[y, x].tolist(), b[y, x].tolist()) for y, x in list(zip(ys, xs))[:6]]}
