"""C17: the predefined scalar distances compute their documented formulas."""
import math
from fractions import Fraction

import numpy as np

PROP = "C17"
RULE = ("seeded random pairs of a real Detection and a real TrackedObject (points of many shapes, magnitudes and dtypes, boundary distances and "
        "scores exactly on the thresholds) given to every predefined scalar distance; the value is recomputed with Python floats / exact "
        "fractions and the arguments are compared with copies taken before; every case with a non-zero distance is non-trivial")
ASSUMPTIONS = ["unsigned detection points are compared with float estimates only (a tracked object's estimate is always float)"]
CASES = {"quick": 36000, "thorough": 400000}
FLOORS = {"frobenius": 19000, "mean_euclidean": 19000, "mean_manhattan": 19000, "voting": 19000, "normalized": 17000, "on_threshold": 3100,
          "score_on_threshold": 23000, "partial_votes": 5900, "unequal_scores": 16000, "int_points": 8700, "by_name": 11000}

DTYPES = [float, float, float, np.float32, np.int64, np.int32, np.int16, np.uint8, np.float16]


def gen_points(rng, n, d, base=None):
    mag = rng.choice([1.0, 10.0, 100.0, 100.0, 2000.0, 1e6])
    if base is not None:
        r = rng.random()
        if r < 0.15:
            return base.copy()
        if r < 0.6:
            s = rng.choice([0.01, 1.0, 10.0])
            return base + np.array([[rng.gauss(0, s) for _ in range(d)] for _ in range(n)])
    return np.array([[rng.uniform(-mag, mag) for _ in range(d)] for _ in range(n)])


def make_object(nf, points, scores, label=None):
    """A tracked object whose estimate is exactly `points` (NoFilter keeps the last detection)."""
    tr = nf.Tracker(lambda d, o: 1.0, distance_threshold=1, hit_counter_max=3, initialization_delay=0,
                    filter_factory=nf.filter.NoFilterFactory())
    return tr.update([nf.Detection(points, scores=scores, label=label)])[0]


def near(a, b, rel):
    return abs(a - b) <= rel * max(1.0, abs(b))


def case(ctx):
    rng, nf = ctx.rng, ctx.nf
    dist = nf.distances
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 17, 25, 70])
    d = rng.choice([2, 2, 2, 2, 3, 1, 4])
    dt = rng.choice(DTYPES)
    E = gen_points(rng, n, d)
    P = gen_points(rng, n, d, E)
    thr = rng.choice([0.5, 1.0, 5.0, 10.0, 65.0, 250.0])
    boundary = rng.random() < 0.4 and d >= 2
    if boundary:
        # offsets whose length is exactly the threshold, just below or just above it (all exact in floating point)
        E = np.rint(E)
        P = E.copy()
        for i in range(n):
            a, b = rng.choice([(3, 4), (4, 3), (0, 5), (5, 0), (-3, 4)])
            s = rng.choice([1.0, 0.5, 2.0, 0.25])
            P[i, 0] += a * s
            P[i, 1] += b * s
        thr = rng.choice([5.0, 2.5, 10.0, 1.25])
    if dt is np.uint8:
        P = np.clip(np.rint(np.abs(P)), 0, 255)
    if dt is np.int16:
        P = np.clip(P, -30000, 30000)
    if dt is np.float16:
        P = np.clip(P, -1000, 1000)
    if np.issubdtype(dt, np.integer):
        P = np.rint(P)
        ctx.count("int_points")
    P = P.astype(dt)
    sthr = rng.choice([0.0, 0.25, 0.5, 0.9, -1.0])

    def scores():
        out = []
        for _ in range(n):
            r = rng.random()
            out.append(sthr if r < 0.2 else sthr + rng.random() if r < 0.7 else sthr - rng.random())
        if any(s == sthr for s in out):
            ctx.count("score_on_threshold")
        return np.array(out)

    sd, so = scores(), scores()
    lay = rng.random()
    Pin = np.asfortranarray(P) if lay < 0.2 else np.repeat(P, 2, axis=0)[::2] if lay < 0.4 else P
    det = nf.Detection(Pin, scores=sd)
    obj = make_object(nf, E.copy(), so)
    # the object's last detection need not be where its estimate is
    if rng.random() < 0.3:
        obj.last_detection.points = obj.last_detection.points + 1000.0
    ctx.info = {"points": P, "dtype": np.dtype(dt).name, "estimate": E, "det_scores": sd, "obj_scores": so}
    before = (det.points.copy(), det.scores.copy(), obj.estimate.copy(), obj.last_detection.scores.copy(), det.absolute_points.copy(),
              obj.last_detection.points.copy())
    kinds = ["frobenius", "mean_euclidean", "mean_manhattan", "voting", "normalized"]
    rng.shuffle(kinds)
    diff = [[float(P[i, j]) - float(E[i, j]) for j in range(d)] for i in range(n)]
    lens = [math.sqrt(math.fsum(x * x for x in r)) for r in diff]
    # float16 / float32 points are converted exactly, the estimate is a float64: everything is computed in double precision
    rel = 1e-9
    total = 0.0
    for kind in kinds:
        ctx.info["kind"] = kind
        if kind == "voting":
            got = dist.create_keypoints_voting_distance(keypoint_distance_threshold=thr, detection_threshold=sthr)(det, obj)
            if boundary:
                votes = sum(1 for i in range(n) if sum(Fraction(x) ** 2 for x in diff[i]) < Fraction(thr) ** 2 and sd[i] > sthr and so[i] > sthr)
                if any(x == thr for x in lens):
                    ctx.count("on_threshold")
            else:
                if any(abs(x - thr) < 1e-6 for x in lens):
                    continue
                votes = sum(1 for i in range(n) if lens[i] < thr and sd[i] > sthr and so[i] > sthr)
            want = 1.0 / (1 + votes)
            ctx.check(float(got) == want, "keypoint voting distance is wrong", got=got, want=want, votes=votes, threshold=thr, score_threshold=sthr)
            ctx.count("partial_votes", 0 < votes < n)
            ctx.count("unequal_scores", any((a > sthr) != (b > sthr) for a, b in zip(sd, so)))
            ctx.count("voting")
            ctx.state("votes", votes, n)
            continue
        if kind == "normalized":
            if d < 2:
                continue
            h, w = rng.choice([(1080, 1920), (480, 640), (1, 1), (37, 11), (720.0, 1280.0), (4320, 7680), (30000, 20000), (2.5, 0.75)])
            got = dist.create_normalized_mean_euclidean_distance(height=h, width=w)(det, obj)
            want = math.fsum(math.sqrt(math.fsum([(r[0] / w) ** 2, (r[1] / h) ** 2] + [x * x for x in r[2:]])) for r in diff) / n
            ctx.info.update(height=h, width=w)
        elif kind == "frobenius":
            got, want = dist.frobenius(det, obj), math.sqrt(math.fsum(x * x for r in diff for x in r))
        elif kind == "mean_euclidean":
            got, want = dist.mean_euclidean(det, obj), math.fsum(lens) / n
        else:
            got, want = dist.mean_manhattan(det, obj), math.fsum(abs(x) for r in diff for x in r) / n
        ctx.check(np.ndim(got) == 0 and near(float(got), want, rel), "the %s distance is wrong" % kind, got=got, want=want)
        if kind != "normalized" and rng.random() < 0.2:
            m = dist.get_distance_by_name(kind).get_distances([obj], [det])
            ctx.check(m.shape == (1, 1) and near(float(m[0, 0]), want, 2e-6), "the distance named %s is wrong" % kind, got=m, want=want)
            ctx.count("by_name")
        total += want
        ctx.count(kind)
        ctx.state(kind, n, d, np.dtype(dt).name)
    after = (det.points, det.scores, obj.estimate, obj.last_detection.scores, det.absolute_points, obj.last_detection.points)
    for i, (a, b) in enumerate(zip(before, after)):
        ctx.check(a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b), "a distance modified its arguments", which=i, before=a, after=b)
    if total > 0:
        ctx.nontrivial(P.tobytes(), E.tobytes(), dt)
        ctx.sample = {"points": P[:3], "estimate": E[:3], "dtype": np.dtype(dt).name, "threshold": thr}
