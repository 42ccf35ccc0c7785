"""C19: the IoU distance is one minus intersection over union."""
from fractions import Fraction

import numpy as np

PROP = "C19"
RULE = ("seeded random box sets of many dtypes and magnitudes (nested, touching, sharing edges or corners, disjoint, identical, nearly equal, "
        "crossing) given to iou and iou_opt; every entry is compared with the exact value computed with rational arithmetic; malformed arrays "
        "must be rejected; non-trivial when some pair overlaps partially")
ASSUMPTIONS = ["boxes have positive area", "values are compared with 1e-9 (double), 1e-5 (single precision)"]
CASES = {"quick": 30000, "thorough": 250000}
FLOORS = {"pairs": 140000, "partial": 43000, "disjoint": 99000, "identical": 6100, "touching": 9000, "nested": 11000, "int_boxes": 8200,
          "rejected": 33000, "symmetric": 12000, "empty": 4300, "shifted": 2400}


def gen_box(rng, base, mag):
    r = rng.random()
    if base and r < 0.7:
        x1, y1, x2, y2 = rng.choice(base)
        w, h = x2 - x1, y2 - y1
        q = rng.random()
        if q < 0.2:
            return (x1, y1, x2, y2)
        if q < 0.35:  # touching along an edge or at a corner
            dx, dy = rng.choice([(w, 0), (-w, 0), (0, h), (0, -h), (w, h), (-w, -h)])
            return (x1 + dx, y1 + dy, x2 + dx, y2 + dy)
        if q < 0.5:  # nested
            return (x1 + w * 0.25, y1 + h * 0.25, x2 - w * 0.25, y2 - h * 0.125)
        if q < 0.6:  # crossing
            return (x1 - w * 0.5, y1 + h * 0.25, x2 + w * 0.5, y2 - h * 0.25)
        if q < 0.7:  # sharing two edges
            return (x1, y1, x1 + w * 0.5, y2)
        dx, dy = rng.uniform(-1.2, 1.2) * w, rng.uniform(-1.2, 1.2) * h
        return (x1 + dx, y1 + dy, x2 + dx, y2 + dy)
    x, y = rng.uniform(-mag, mag), rng.uniform(-mag, mag)
    w, h = rng.uniform(0.01, 1) * mag, rng.uniform(0.01, 1) * mag
    return (x, y, x + w, y + h)


def exact(a, b):
    a = [Fraction(float(v)) for v in a]
    b = [Fraction(float(v)) for v in b]
    i = max(Fraction(0), min(a[2], b[2]) - max(a[0], b[0])) * max(Fraction(0), min(a[3], b[3]) - max(a[1], b[1]))
    u = (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - i
    return 1 - i / u, i


def arr(rng, n, mag, dt, others=()):
    base, out = list(others), []
    for _ in range(n):
        b = gen_box(rng, base, mag)
        if np.issubdtype(dt, np.integer):
            info = np.iinfo(dt)
            b = [min(max(round(v), info.min if info.min < 0 else 0), info.max) for v in b]
            if not (b[0] < b[2] and b[1] < b[3]):
                b = [1, 2, 4, 7]
        b = np.array(b, dtype=dt)
        if not (b[0] < b[2] and b[1] < b[3]):
            b = np.array([0, 0, 1, 1], dtype=dt)
        base.append(tuple(float(v) for v in b))
        out.append(b)
    return np.array(out, dtype=dt).reshape(-1, 4), base


def case(ctx):
    rng = ctx.rng
    dist = ctx.nf.distances
    dt = rng.choice([float, float, float, float, np.float32, np.int64, np.int32, np.int16, np.uint16, np.uint8])
    mag = {np.uint8: 120, np.int16: 15000, np.uint16: 30000}.get(dt, rng.choice([1.0, 10.0, 500.0, 500.0, 4000.0, 30000.0]))
    if np.issubdtype(dt, np.integer):
        mag = max(mag, 10)
        if rng.random() < 0.3:
            mag = min(mag, 30)
        ctx.count("int_boxes")
    dt2 = dt if rng.random() < 0.6 else float
    C, base = arr(rng, rng.choice([0, 1, 1, 2, 3, 5, 9]), mag, dt)
    O, _ = arr(rng, rng.choice([0, 1, 1, 2, 3, 5, 9]), mag, dt2, base)
    ctx.info = {"candidates": C, "objects": O, "dtypes": (np.dtype(dt).name, np.dtype(dt2).name)}
    fn = rng.choice([dist.iou, dist.iou_opt])
    c0, o0 = C.copy(), O.copy()
    got = np.asarray(fn(C, O))
    ctx.check(np.array_equal(C, c0) and np.array_equal(O, o0), "iou modified its arguments")
    ctx.check(got.shape == (len(C), len(O)), "iou has the wrong shape", got=got.shape)
    single = np.float32 in (dt, dt2)
    tol = 1e-5 if single else 1e-9
    partial = 0
    ctx.count("empty", not len(C) or not len(O))
    for i in range(len(C)):
        for j in range(len(O)):
            want, inter = exact(C[i], O[j])
            g = float(got[i, j])
            ctx.check(abs(g - float(want)) <= tol, "iou is not 1 - intersection / union", row=i, column=j, got=g, want=float(want))
            ctx.check(-(tol if single else 0) <= g <= 1, "iou is outside [0, 1]", row=i, column=j, got=g)
            if inter == 0:
                ctx.check(g == 1, "boxes without overlap must be at distance 1", row=i, column=j, got=g)
                ctx.count("disjoint")
                ctx.count("touching", C[i][0] == O[j][2] or C[i][2] == O[j][0] or C[i][1] == O[j][3] or C[i][3] == O[j][1])
            elif want == 0:
                ctx.check(g == 0, "identical boxes must be at distance 0", row=i, column=j, got=g)
                ctx.count("identical")
            else:
                ctx.check(g > 0 or want < 1e-6, "only identical boxes are at distance 0", row=i, column=j, got=g)
                partial += 1
                ar = [Fraction(float(b[2]) - float(b[0])) * Fraction(float(b[3]) - float(b[1])) for b in (C[i], O[j])]
                ctx.count("nested", inter in ar)
            ctx.count("pairs")
    ctx.count("partial", partial)
    if len(C) and len(O):
        back = np.asarray(fn(O, C))
        ctx.check(np.allclose(back.T, got, atol=tol, rtol=0), "iou is not symmetric", there=got, back=back)
        ctx.count("symmetric")
        if not np.issubdtype(dt, np.integer) and not single and dt2 is float and rng.random() < 0.5:
            s, t = rng.choice([0.25, 0.5, 2.0, 8.0, 3.0]), np.array([rng.uniform(-mag, mag)] * 4)
            t[1] = t[3] = rng.uniform(-mag, mag)
            moved = np.asarray(fn(C * s + t, O * s + t))
            # boxes that touch may overlap by an ulp after moving: that changes the value by an ulp only
            ctx.check(np.allclose(moved, got, atol=1e-8, rtol=0), "iou changes when both boxes are moved and scaled", scale=s, shift=t)
            ctx.count("shifted")
    # malformed candidates
    bad = rng.choice([np.zeros((3, 5)), np.zeros((2, 3)), np.zeros((2, 8)), np.zeros(4), np.zeros((1, 2, 2)), np.zeros((0, 3)), [[0, 0, 1, 1]], np.zeros((2, 2, 4))])
    try:
        r = fn(bad, np.array([[0.0, 0.0, 1.0, 1.0]]))
    except Exception:
        ctx.count("rejected")
    else:
        ctx.fail("iou accepted an array that is not (N, 4)", shape=np.shape(bad), result=r)
    bad = rng.choice([np.zeros((3, 5)), np.zeros((2, 3)), np.zeros((2, 8)), np.zeros(4), np.zeros((1, 2, 2)), np.zeros((2, 6))])
    try:
        r = fn(np.array([[0.0, 0.0, 1.0, 1.0], [0, 0, 2, 2]]), bad)
    except Exception:
        ctx.count("rejected")
    else:
        ctx.fail("iou accepted objects that are not (N, 4)", shape=np.shape(bad), result=r)
    ctx.state(len(C), len(O), np.dtype(dt).name, partial > 0)
    if partial:
        ctx.nontrivial(C.tobytes(), O.tobytes())
        ctx.sample = {"candidates": C[:2], "objects": O[:2], "iou": got[:2, :2]}
