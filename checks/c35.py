"""C35: well-separated objects keep exactly one identity each, from their first frames to their last."""
import math

import numpy as np

from nfv import trk

PROP = "C35"
RULE = ("seeded synthetic scenes with known truth: up to seven objects moving steadily in lanes that are farther apart than any prediction error, "
        "objects of different labels sharing a lane, bounded noise, gaps shorter than the hit counter, late arrivals, departures and (with "
        "re-identification) returns, camera motion, every filter and distance; each truth object must be reported under one id of its own in every "
        "frame from its initialization to its departure; non-trivial when several objects were followed to the end")
ASSUMPTIONS = ["the threshold is at least eight times the greatest motion between two detections plus noise, and a quarter of the lane distance"]
CASES = {"quick": 3000, "thorough": 14000}
FLOORS = {"followed": 5800, "gaps": 11000, "departed": 3400, "returned": 480, "shared_lanes": 1200, "camera_cases": 620, "longest_gaps": 410,
          "box_cases": 410, "voting_cases": 120, "velocity_checked": 14000, "positions_checked": 200000, "late_arrivals": 1800, "period_cases": 660}

DISTS = ["euclidean", "cityblock", "chebyshev", "sqeuclidean", "frobenius", "mean_euclidean", "mean_manhattan", "fn", "fn"]


class Truth:
    __slots__ = ("lane", "label", "x0", "v", "shape", "visits", "n", "seen", "id", "uids", "run", "since", "emb")


def pattern(rng, n, need, g):
    """Present for the first `need` frames, then gaps of at most g frames, each followed by enough detections."""
    out = [True] * min(need, n)
    while len(out) < n:
        if g and rng.random() < 0.3:
            out += [False] * rng.randint(1, g) + [True] * (g + 2)
        else:
            out += [True] * rng.choice([1, 3, 10])
    out = out[:n]
    for j in range(n - 1, -1, -1):  # ends detected
        if out[j]:
            break
        out[j] = True
    return out


def case(ctx):
    rng, nf, g_ = ctx.rng, ctx.nf, ctx.nprng
    hcm = rng.choice([2, 3, 5, 8, 15])
    delay = rng.choice([0, 1, hcm // 2, hcm - 1])
    delay = min(delay, hcm - 1)
    period = rng.choice([1, 1, 1, 2, 4])
    ctx.count("period_cases", period > 1)
    gap = rng.choice([0, max(0, min(hcm - 2, 4)), min(hcm, 10)])  # after as many misses as the counter's maximum the object is still alive
    ctx.count("longest_gaps", gap == hcm)
    need = max(delay, hcm) + gap + 4
    linger = max(hcm, period)
    n = rng.choice([40, 70, 120])
    box = rng.random() < 0.25
    reid = rng.random() < 0.3 and delay >= period  # without an initialization phase nothing can be re-identified
    vmax = rng.choice([0.0, 0.5, 3.0, 20.0])
    sigma = rng.choice([0.0, 0.2, 1.0])
    err = 8.0 * (vmax * (gap + 1) + sigma) + 0.5
    dim = 2 if box else rng.choice([2, 2, 3])
    npts = 2 if box else rng.choice([1, 2, 5])
    kind = rng.choice(["iou", "iou", "iou_opt", "euclidean", "mean_euclidean"]) if box else rng.choice(DISTS)
    if npts == 5 and rng.random() < 0.3:
        kind = "voting"
    scale = float(npts * dim)
    T = err * scale
    size = 10.0 * err
    if kind in ("iou", "iou_opt"):
        T = 0.9
    elif kind == "sqeuclidean":
        T = T * T
    elif kind == "voting":
        T = 0.5
    S = 4 * err * scale + 4 * size
    # -- how the tracker is told to compare
    if kind == "fn":
        dist = lambda d, o: float(np.abs(d.points - o.estimate).max())  # noqa: E731
    elif kind == "voting":
        dist = nf.distances.create_keypoints_voting_distance(keypoint_distance_threshold=err * 2, detection_threshold=0.5)
        ctx.count("voting_cases")
    else:
        dist = kind
    filt = rng.choice([("opt", {}), ("opt", {}), ("opt", {"R": 1.0}), ("filterpy", {}), ("none", {})])
    kw = {"hit_counter_max": hcm, "initialization_delay": delay, "filter_factory": trk.make_filter_factory(nf, filt)}
    if kind == "voting":
        kw["detection_threshold"] = 0.5
    if reid:
        kw.update(reid_distance_function=lambda a, b: 0.0 if a.last_detection.embedding == b.last_detection.embedding else 1.0,
                  reid_distance_threshold=0.5, reid_hit_counter_max=10 * n)
    tracker = nf.Tracker(distance_function=dist, distance_threshold=T, **kw)
    ctx.count("box_cases", box)
    # -- the scene
    nobj = rng.choice([1, 2, 4, 7])
    truths, lane = [], 0
    slots = {}
    for i in range(nobj):
        t = Truth()
        if i and rng.random() < 0.3:
            j = rng.randrange(len(truths))
            t.lane = truths[j].lane
            t.label = (truths[j].lane, i)
            if rng.random() < 0.5:
                t.x0, t.v, t.shape = truths[j].x0, truths[j].v, truths[j].shape
            else:
                t.x0 = None
            ctx.count("shared_lanes")
        else:
            t.lane, lane = lane, lane + 1
            t.label, t.x0 = rng.choice([None, "car", 7]), None
        if t.x0 is None:
            t.x0, t.v = rng.uniform(-200, 200), rng.uniform(-vmax, vmax)
            t.shape = np.array([[0.0, 0.0], [size, size * rng.uniform(1, 2)]]) if box else g_.uniform(-size / 4, size / 4, (npts, dim))
        a = rng.choice([0, 0, rng.randrange(n // 2)])
        ctx.count("late_arrivals", a > 0)
        length = min(n - a, rng.choice([need, need + 10, n]))
        t.visits = [[a, t.x0, t.lane, pattern(rng, length, need, gap)]]
        if reid:
            back = a + length + linger + 1 + rng.randrange(10)  # the update after the counter fell below 0 is the first that cannot match
            if back + need < n:
                # the object comes back somewhere else in its lane
                t.visits.append([back, t.x0 + rng.uniform(-5, 5) * size, t.lane, pattern(rng, min(n - back, need + 15), need, gap)])
        t.n, t.seen, t.id, t.uids, t.run, t.since, t.emb = 0, 0, None, set(), 0, None, "e%d" % i
        truths.append(t)
    cam = rng.choice([None, None, "t", "h"]) if dim == 2 and not (kind in ("iou", "iou_opt")) else rng.choice([None, "t"]) if dim == 2 else None
    ctx.count("camera_cases", cam is not None)
    ctx.info = {"hit_counter_max": hcm, "delay": delay, "period": period, "gap": gap, "distance": kind, "threshold": T, "lanes": S, "filter": filt,
                "points": [npts, dim], "speed": vmax, "noise": sigma, "camera": cam, "objects": nobj, "reid": reid, "frames": n}
    cx = np.zeros(2)
    owner = {}  # id -> truth index
    last_frame = [max(v[0] + len(v[3]) - 1 for v in t.visits) for t in truths]
    followed = 0
    for k in range(n):
        ct = None
        if cam:
            cx = cx + g_.normal(0, 5.0, 2)
            if cam == "t":
                ct = nf_trans(cx)
            else:
                th = 0.02 * math.sin(k / 7.0)
                ct = nf_homo(np.array([[math.cos(th), -math.sin(th), cx[0]], [math.sin(th), math.cos(th), cx[1]], [0, 0, 1.0]]))
        dets, now = [], {}
        for i, t in enumerate(truths):
            for vi, (a, x0, ln, pat) in enumerate(t.visits):
                if a <= k < a + len(pat):
                    center = np.zeros(dim)
                    center[0], center[1] = x0 + t.v * (k - a), ln * S
                    true = center + t.shape
                    if not pat[k - a]:
                        t.run = 0
                        ctx.count("gaps")
                        continue
                    if k == a:
                        t.since = t.run = 0
                    t.since += 1
                    t.run += 1
                    pts = true + g_.uniform(-sigma, sigma, true.shape)
                    sc = None
                    if kind == "voting":
                        sc = np.ones(npts)
                        if t.since > need and rng.random() < 0.5:
                            j = rng.randrange(npts)
                            sc[j], pts[j] = 0.1, g_.uniform(-1e4, 1e4, dim)
                    rel = ct.abs_to_rel(pts) if ct is not None else pts
                    d = nf.Detection(points=rel, scores=sc, label=t.label, data={"truth": i, "k": k}, embedding=t.emb)
                    dets.append(d)
                    now[i] = (true, vi, k - a, sc)
        rng.shuffle(dets)
        akw = {}
        if ct is not None:
            akw["coord_transformations"] = ct
        act = tracker.update(dets or None, period=period, **akw)
        by = {}
        for o in act:
            i = o.last_detection.data["truth"]
            if o.id not in owner:
                owner[o.id] = i
            ctx.check(owner[o.id] == i, "an id passed from one object to another", frame=k, id=o.id, was=owner[o.id], now=i)
            by.setdefault(i, []).append(o)
            t = truths[i]
            ctx.check(t.id in (None, o.id), "an object changed its id", frame=k, object=i, was=t.id, now=o.id)
            t.id = o.id
            ctx.check(o.label == t.label, "an object carries another object's label", frame=k, object=i)
        for i, os_ in by.items():
            ctx.check(len(os_) == 1, "one object is reported as several", frame=k, object=i, ids=[o.id for o in os_])
        for i, t in enumerate(truths):
            if i in now:
                true, vi, age, sc = now[i]
                if t.since > delay + 1:
                    ctx.check(i in by and by[i][0].last_detection.data["k"] == k, "a visible object is not followed", frame=k, object=i,
                              detections=t.since)
                if i in by and by[i][0].last_detection.data["k"] == k:
                    o = by[i][0]
                    est = np.asarray(o.get_estimate(absolute=True) if ct is not None else o.estimate)
                    e = float(np.abs(est - true).max()) if est.shape == true.shape else math.inf
                    ctx.check(e <= err, "the estimate is far from the object", frame=k, object=i, error=e, bound=err)
                    ctx.count("positions_checked")
                    if t.run >= 40 and filt[0] != "none" and kind != "voting":
                        vel = np.asarray(o.estimate_velocity)
                        tv = np.zeros(dim)
                        tv[0] = t.v
                        if cam is None:
                            ve = float(np.abs(vel - tv).max())
                            ctx.check(ve <= 0.25 * vmax + 0.6 * sigma + 1e-6, "the velocity estimate is far from the object's velocity", frame=k,
                                      object=i, estimate=vel, velocity=tv)
                            ctx.count("velocity_checked")
            elif i in by and k > last_frame[i] + linger:
                ctx.fail("a departed object is still reported", frame=k, object=i, left=last_frame[i])
            if any(a > k > pa + len(pp) - 1 + linger for (pa, _, _, pp), (a, _, _, _) in zip(t.visits, t.visits[1:])) and i in by:
                ctx.fail("an absent object is still reported", frame=k, object=i)
        born = sum(1 for t in truths if t.id is not None)
        extra = sum(1 for t in truths for v in t.visits[1:] if v[0] < k)  # a newcomer may be numbered in the update that restores the old id
        ctx.check(born <= tracker.total_object_count <= born + extra, "the number of objects counted is not the number of objects seen", frame=k,
                  counted=tracker.total_object_count, seen=born)
        ctx.check(len({t.id for t in truths if t.id is not None}) == born, "two objects share an id", frame=k)
    for i, t in enumerate(truths):
        ctx.check(t.id is not None, "an object was never reported", object=i)
        followed += 1
        ctx.count("departed", last_frame[i] + linger < n - 1)
        ctx.count("returned", len(t.visits) > 1)
    ctx.count("followed", followed)
    ctx.state(hcm, delay, period, gap, kind, filt[0], cam, reid, nobj)
    if followed > 1:
        ctx.nontrivial(ctx.index, followed)
        ctx.sample = dict(ctx.info, followed=followed)


def nf_trans(v):
    from norfair.camera_motion import TranslationTransformation

    return TranslationTransformation(np.array(v))


def nf_homo(m):
    from norfair.camera_motion import HomographyTransformation

    return HomographyTransformation(m)
