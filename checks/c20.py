"""C20: invalid inputs are rejected with an error instead of corrupting tracking."""
import functools
import math

import numpy as np

from nfv import trk

PROP = "C20"
RULE = ("seeded random (a) constructor arguments, each valid or invalid in known ways, (b) histories in which the distance, the re-identification "
        "distance or a vectorized distance yields NaN for one pair at a random call (first or second stage, any frame), and (c) things fed "
        "instead of detections and point arrays of every rank; the exception raised (or not) is compared with the rule, and after a NaN no "
        "object of that stage may have been matched; every case that expects an error is non-trivial")
ASSUMPTIONS = ["hit_counter_max is at least 1"]
CASES = {"quick": 11000, "thorough": 120000}
FLOORS = {"valid": 380, "invalid": 610, "both_invalid": 180, "nan_stage1": 950, "nan_stage2": 390, "nan_reid": 160, "nan_vector": 1000,
          "nan_several_calls": 1200, "not_detection": 1000, "rank_above_2": 500, "rank_1": 330, "nan_crowds": 41, "rank_2": 170}


class CallableClass:
    def __call__(self, a, b):
        return 1.0


def constructor(ctx):
    rng, nf = ctx.rng, ctx.nf
    good_dist = ["frobenius", "mean_euclidean", "mean_manhattan", "iou", "iou_opt", "euclidean", "cosine", "cityblock", "jaccard",
                 lambda a, b: 1.0, CallableClass(), functools.partial(lambda x, a, b: x, 1.0), nf.distances.frobenius, max,
                 nf.distances.create_keypoints_voting_distance(5, 0.5), nf.distances.create_normalized_mean_euclidean_distance(10, 10)]
    bad_dist = ["", "no_such_distance", "IOU", "frobenius ", None, 5, 3.5, ["frobenius"], ("iou",), {"a": 1}, np.zeros(3), object(),
                b"iou", nf.distances.ScalarDistance(max)]
    bad = []
    kw = {}
    if rng.random() < 0.75:
        dist = rng.choice(good_dist)
    else:
        dist = rng.choice(bad_dist)
        bad.append("distance_function")
    hcm = rng.choice([1, 2, 3, 4, 5, 10, 15, 30, None])
    if hcm is None:
        hcm = 15
    else:
        kw["hit_counter_max"] = hcm
    r = rng.random()
    if r < 0.25:
        pass
    elif r < 0.7:
        kw["initialization_delay"] = rng.choice([0, hcm - 1, rng.randrange(hcm), None])
    else:
        kw["initialization_delay"] = rng.choice([-1, -7, hcm, hcm + 1, hcm + 100])
        bad.append("initialization_delay")
    r = rng.random()
    if r < 0.3:
        pass
    elif r < 0.75:
        kw["past_detections_length"] = rng.choice([0, 1, 4, 50])
    else:
        kw["past_detections_length"] = rng.choice([-1, -2, -100])
        bad.append("past_detections_length")
    if rng.random() < 0.4:
        kw["pointwise_hit_counter_max"] = rng.choice([0, 1, 4, 9])
    if rng.random() < 0.3:
        kw["detection_threshold"] = rng.choice([0, 0.5, -1.0])
    if rng.random() < 0.3:
        kw["reid_distance_function"] = rng.choice([lambda a, b: 1.0, CallableClass()])
        kw["reid_distance_threshold"] = rng.choice([0, 1.5])
        if rng.random() < 0.7:
            kw["reid_hit_counter_max"] = rng.choice([0, 1, 10])
    if rng.random() < 0.3:
        kw["filter_factory"] = trk.make_filter_factory(nf, rng.choice([("opt", {}), ("filterpy", {}), ("none", {})]))
    T = rng.choice([0, 1, 0.5, 100.0, math.inf])
    ctx.info = {"distance": repr(dist), "threshold": T, "params": {k: repr(v) for k, v in kw.items()}, "invalid": bad}
    try:
        tr = nf.Tracker(dist, T, **kw) if rng.random() < 0.5 else nf.Tracker(distance_function=dist, distance_threshold=T, **kw)
    except ValueError as e:
        ctx.check(bool(bad), "a valid combination of parameters was rejected", error=str(e)[:300])
        ctx.count("invalid")
        ctx.count("both_invalid", len(bad) > 1)
        ctx.nontrivial("bad", repr(dist), sorted((k, str(v)) for k, v in kw.items() if k in bad), hcm)
    else:
        ctx.check(not bad, "invalid parameters were accepted")
        ctx.count("valid")
        want = kw.get("initialization_delay")
        want = int(hcm / 2) if want is None else want
        tr.update([nf.Detection(np.array([[1.0, 2.0], [3.0, 4.0]]))])
        for k in range(want + 1):
            got = len(tr.update(None)) if k == 0 and want == 0 else None
        if want == 0:
            ctx.check(got == 1, "initialization_delay=0 does not return objects at once", got=got)
    ctx.state("constructor", tuple(sorted(bad)), hcm, kw.get("initialization_delay"))


def nan_table(ctx):
    rng = ctx.rng
    stage = rng.choice(["det", "det", "reid"])
    if stage == "reid":
        reid = {"T": rng.choice([1.0, 5.0]), "dens": rng.choice([0.3, 0.8]), "vals": "mixed"}
        scn = trk.gen_table_scn(rng, maxdets=4, reid=reid, hostile_T=0.0)
    elif ctx.index % 200 < 6:
        scn = trk.gen_table_scn(rng, maxdets=140, mindets=80, nframes=3, hostile_T=0.0, silence=False, reid=False, labels=[None], npts=1, always=True)
        ctx.count("nan_crowds")
    else:
        scn = trk.gen_table_scn(rng, maxdets=5, hostile_T=0.1)
    rec = trk.Recorder(ctx.nf, scn)
    table = rec.rtable if stage == "reid" else rec.table
    if table is None:
        return
    # dry run on a clone to learn how many calls there are
    dry = trk.Recorder(ctx.nf, trk.clone(scn))
    dt = dry.rtable if stage == "reid" else dry.table
    stages = []
    total = 0
    for fr in dry.scn.frames:
        st = dry.step(fr)
        calls = st.reid_calls if stage == "reid" else st.dist_calls
        for c in calls:
            stages.append(st.pre[c[1]].init)
        total += len(calls)
    if not total:
        return
    if stage == "det" and any(stages) and not all(stages):
        kindw = rng.random() < 0.5
        target = rng.choice([i for i, s in enumerate(stages) if s == kindw])
    else:
        target = rng.randrange(total)
    real = table.value
    seen = [0]
    width = rng.choice([1, 1, 2, 1000])

    def value(a, b):
        k = seen[0]
        seen[0] += 1
        return float("nan") if target <= k < target + width else real(a, b)

    table.value = value
    ctx.info = {"scenario": scn.describe(), "stage": stage, "nan_call": target}
    for fr in scn.frames:
        pre_objs = list(rec.tracker.tracked_objects)
        pre = {o.initializing_id: (trk.uid_of(o.last_detection), o.is_initializing) for o in pre_objs}
        n0 = len(table.calls)
        try:
            rec.step(fr)
        except ValueError:
            ctx.check(seen[0] > target, "update raised ValueError without NaN", frame=rec.k)
            pairs = [c for c in table.calls if c[2] != c[2]]
            ctx.check(bool(pairs), "update raised ValueError although no NaN was returned", frame=rec.k)
            # objects of the stage that saw NaN must not have been matched
            if stage == "det":
                ini = pre[pairs[0][1]][1]
                for o in pre_objs:
                    if pre[o.initializing_id][1] == ini:
                        ctx.check(trk.uid_of(o.last_detection) == pre[o.initializing_id][0],
                                  "an object was matched in the stage whose distances contain NaN", frame=rec.k, object=o.initializing_id)
                ctx.count("nan_stage2" if ini else "nan_stage1")
            else:
                now = {o.initializing_id for o in rec.tracker.tracked_objects}
                for c in {p[0] for p in table.calls}:
                    ctx.check(c in now, "an object was merged in the stage whose distances contain NaN", frame=rec.k, object=c)
                ctx.count("nan_reid")
            ctx.count("nan_several_calls", len(table.calls) > 1)
            ctx.state("nan", stage, len(table.calls) > 1, rec.k)
            ctx.nontrivial("nan", ctx.index)
            ctx.sample = {**scn.describe(), "stage": stage, "nan_at_call": target, "frame": rec.k}
            return
        except AssertionError:
            raise
        ctx.check(seen[0] <= target, "update did not raise although a distance was NaN", frame=rec.k, calls=table.calls)
    ctx.fail("the NaN distance was never asked for", target=target, asked=seen[0])


def nan_vector(ctx):
    rng, nf = ctx.rng, ctx.nf
    name = rng.choice(["iou", "euclidean", "cosine", "cosine", "correlation", "frobenius", "mean_euclidean", "sqeuclidean"])
    tr = nf.Tracker(name, distance_threshold=rng.choice([0.9, 100.0, math.inf]), hit_counter_max=5, initialization_delay=rng.choice([0, 1, 2]))
    n = rng.randint(1, 4) if rng.random() < 0.95 else rng.choice([40, 140, 300])
    P = [np.array([[10.0 + 100 * i, 20.0], [40.0 + 100 * i, 70.0]]) for i in range(n)]
    labels = [rng.choice(["a", "b"]) if rng.random() < 0.3 else "a" for _ in range(n)]
    at = rng.randint(1, 3)
    for k in range(at):
        tr.update([nf.Detection(p + k * 0.5, label=l) for p, l in zip(P, labels)])
    bad = rng.randrange(n)
    Q = [p + at * 0.5 for p in P]
    if name == "cosine" and rng.random() < 0.5:
        Q[bad] = np.zeros((2, 2))
    elif name == "correlation" and rng.random() < 0.5:
        Q[bad] = np.full((2, 2), 7.0)
    else:
        Q[bad] = Q[bad].copy()
        Q[bad][rng.randrange(2), rng.randrange(2)] = np.nan
    pre = [(o, o.last_detection) for o in tr.tracked_objects]
    init = {o.is_initializing for o, _ in pre}
    ctx.info = {"distance": name, "points": Q, "labels": labels}
    try:
        with np.errstate(all="ignore"):
            tr.update([nf.Detection(p, label=l) for p, l in zip(Q, labels)])
    except ValueError:
        if len(init) == 1:
            for o, d in pre:
                ctx.check(o.last_detection is d, "an object was matched although distances contain NaN")
        ctx.count("nan_vector")
        ctx.state("vector", name, n, at)
        ctx.nontrivial("vector", name, n, bad, at, Q[bad].tobytes())
    else:
        ctx.fail("update did not raise although a distance was NaN")


class Duck:
    def __init__(self, nf):
        self.points = np.array([[1.0, 2.0]])
        self.absolute_points = self.points
        self.scores = self.data = self.label = self.embedding = self.age = None


def not_detection(ctx):
    rng, nf = ctx.rng, ctx.nf
    kind = rng.choice(["array", "none", "tuple", "dict", "duck", "str", "int", "object"])
    mk = {"array": lambda: np.zeros((2, 2)), "none": lambda: None, "tuple": lambda: (1, 2), "dict": lambda: {"points": 1}, "duck": lambda: Duck(nf),
          "str": lambda: "x", "int": lambda: 3}
    tr = nf.Tracker(lambda d, o: math.inf, distance_threshold=1)
    good = [nf.Detection(np.array([[5.0, 5.0 + i]])) for i in range(rng.randint(0, 2))]
    if kind == "object":
        # a tracked object of another tracker is not a detection either
        other = nf.Tracker("euclidean", distance_threshold=1, initialization_delay=0)
        item = other.update([nf.Detection(np.array([[1.0, 1.0]]))])[0]
    else:
        item = mk[kind]()
    if kind in ("duck", "object") and rng.random() < 0.6:
        tr.update([nf.Detection(np.array([[50.0, 50.0]]))])
    lst = good + [item]
    rng.shuffle(lst)
    ctx.info = {"fed": kind, "detections": len(good)}
    try:
        tr.update(lst)
    except ValueError:
        ctx.count("not_detection")
        ctx.nontrivial("notdet", kind, len(good), lst.index(item) if kind != "array" else 0)
        ctx.state("notdet", kind)
    else:
        ctx.fail("something that is not a Detection started a track")


def ranks(ctx):
    rng, nf = ctx.rng, ctx.nf
    rank = rng.choice([1, 1, 2, 3, 3, 4])
    d = rng.choice([2, 3])
    if rank == 1:
        p = ctx.nprng.uniform(-50, 50, d)
        det = nf.Detection(p.copy(), scores=np.array([0.5]) if rng.random() < 0.5 else None)
        ctx.check(det.points.shape == (1, d) and np.array_equal(det.points[0], p) and np.array_equal(det.absolute_points, det.points),
                  "rank-1 points are not treated as a single point", points=p, got=det.points)
        t1, t2 = (nf.Tracker("euclidean", distance_threshold=200, initialization_delay=1) for _ in range(2))
        for k in range(4):
            q = p + k * np.arange(1, d + 1)
            a, b = t1.update([nf.Detection(q.copy())]), t2.update([nf.Detection(q.copy()[None])])
            ctx.check(len(a) == len(b) and all(x.estimate.shape == (1, d) and np.array_equal(x.estimate, y.estimate) for x, y in zip(a, b)),
                      "rank-1 points are tracked differently from one rank-2 point", frame=k)
        ctx.count("rank_1")
        ctx.nontrivial("rank1", p.tobytes())
        return
    shape = tuple(rng.randint(1, 4) for _ in range(rank - 1)) + (d,)
    p = ctx.nprng.uniform(-50, 50, shape)
    if rank == 2:
        det = nf.Detection(p.copy())
        ctx.check(np.array_equal(det.points, p) and np.array_equal(det.absolute_points, p), "rank-2 points were changed")
        ctx.count("rank_2")
        return
    try:
        det = nf.Detection(p)
    except ValueError:
        ctx.count("rank_above_2")
        ctx.nontrivial("rank", shape)
    else:
        ctx.fail("points of rank above 2 were accepted", shape=shape)


def case(ctx):
    [constructor, nan_table, nan_table, nan_vector, not_detection, ranks][ctx.index % 6](ctx)
