"""C18: the distance matrix pairs the right candidates with the right objects."""
import numpy as np
from scipy.spatial.distance import cdist

from nfv import trk

PROP = "C18"
RULE = ("seeded random lists of real detections or real tracked objects as candidates and real tracked objects, with random labels in random "
        "order; asymmetric recording distance functions (scalar and vectorized) whose value identifies the ordered pair, all scipy metric "
        "names, the predefined names and custom Distance arguments; the matrix is compared entry by entry and the recorded calls with the "
        "equal-label pairs; non-trivial when at least two rows, two columns and one equal-label pair exist")
ASSUMPTIONS = ["metrics that depend on the whole sets (seuclidean, mahalanobis) are compared with cdist over the pairs' label group",
               "matrix entries are float32"]
CASES = {"quick": 36000, "thorough": 300000}
FLOORS = {"weighted": 710, "scalar": 3200, "vector": 3300, "scipy": 6000, "names": 3200, "tracked_candidates": 5100, "empty": 3500,
          "inf_entries": 690000, "entries": 820000, "interleaved_labels": 3700, "unknown_names": 16000, "mixed_shapes": 1500, "crowds": 79}

BOOLEAN = ["dice", "jaccard", "matching", "rogerstanimoto", "russellrao", "sokalsneath", "yule", "hamming", "kulczynski1", "sokalmichener"]
PAIR = {
    "euclidean": lambda a, b: float(np.sqrt(((a - b) ** 2).sum())),
    "sqeuclidean": lambda a, b: float(((a - b) ** 2).sum()),
    "cityblock": lambda a, b: float(np.abs(a - b).sum()),
    "chebyshev": lambda a, b: float(np.abs(a - b).max()),
    "minkowski": lambda a, b: float(np.sqrt(((a - b) ** 2).sum())),
    "cosine": lambda a, b: float(1 - (a @ b) / np.sqrt((a @ a) * (b @ b))),
    "correlation": lambda a, b: PAIR["cosine"](a - a.mean(), b - b.mean()),
    "canberra": lambda a, b: float((np.abs(a - b) / (np.abs(a) + np.abs(b))).sum()),
    "braycurtis": lambda a, b: float(np.abs(a - b).sum() / np.abs(a + b).sum()),
}


def population(ctx, n, labels, shapes, boolean, positive):
    rng, nf = ctx.rng, ctx.nf
    out = []
    for _ in range(n):
        lab = rng.choice(labels)
        k, d = shapes[lab]
        if boolean:
            p = np.array([[float(rng.random() < 0.5) for _ in range(d)] for _ in range(k)])
        elif positive:
            p = np.array([[rng.uniform(0.5, 50) for _ in range(d)] for _ in range(k)])
        else:
            p = np.array([[rng.uniform(-100, 100) for _ in range(d)] for _ in range(k)])
        out.append((p, lab))
    return out


def fresh(lab):
    """An equal label that is another object where Python allows it."""
    if isinstance(lab, str):
        return "".join(list(lab))
    if isinstance(lab, tuple):
        return tuple(fresh(x) for x in lab)
    if isinstance(lab, int) and not isinstance(lab, bool):
        return int(str(lab))
    return lab


def objects_from(nf, pop, moving=None):
    if not pop:
        return []
    if moving is not None:
        # estimates that are not the last detection's points
        tr = nf.Tracker(lambda d, o: 0.0 if d.data == o.last_detection.data else 9.0, distance_threshold=1, hit_counter_max=3,
                        initialization_delay=0)
        tr.update([nf.Detection(p - moving, label=fresh(l), data=i) for i, (p, l) in enumerate(pop)])
        objs = sorted(tr.update([nf.Detection(p.copy(), label=fresh(l), data=i) for i, (p, l) in enumerate(pop)]), key=lambda o: o.last_detection.data)
        assert len(objs) == len(pop)
        pop[:] = [(o.estimate.copy(), l) for o, (p, l) in zip(objs, pop)]
        return objs
    tr = nf.Tracker(lambda d, o: 1.0, distance_threshold=1, hit_counter_max=3, initialization_delay=0,
                    filter_factory=nf.filter.NoFilterFactory())
    objs = tr.update([nf.Detection(p.copy(), label=fresh(l)) for p, l in pop])
    assert len(objs) == len(pop)
    return list(objs)


def boxes(rng, pop):
    for i, (p, l) in enumerate(pop):
        a = np.array([rng.uniform(0, 50), rng.uniform(0, 50)])
        pop[i] = (np.vstack([a, a + [rng.uniform(5, 60), rng.uniform(5, 60)]]), l)


def case(ctx):
    rng, nf = ctx.rng, ctx.nf
    dist = nf.distances
    kind = rng.choice(["scalar", "vector", "scipy", "scipy", "names", "unknown"])
    if kind == "unknown":
        good = ["frobenius", "mean_euclidean", "mean_manhattan", "iou", "iou_opt"] + dist._SCIPY_DISTANCE_FUNCTIONS
        for _ in range(5):
            g = rng.choice(good)
            bad = rng.choice([g.upper(), g + " ", " " + g, g[:-1], g + "x", "", "keypoints_voting_distance", "l2", "manhattan", g.capitalize(),
                              g.replace("_", "-") if "_" in g else g + "_"])
            if bad in good:
                continue
            try:
                dist.get_distance_by_name(bad)
            except ValueError:
                ctx.count("unknown_names")
            else:
                ctx.fail("an unknown distance name was accepted", name=bad)
            try:
                nf.Tracker(bad, distance_threshold=1)
            except ValueError:
                pass
            else:
                ctx.fail("a tracker accepted an unknown distance name", name=bad)
        ctx.nontrivial("unknown", ctx.index)
        return
    labels = rng.choice([[None], [None], ["a", "b"], [1, 2, 3], [("x", 1), "x", None], [0, 1, 2, 3, 4], ["car"], [-1, -2], [0, 2**61 - 1, -1], [-2.0, -1, "a"], ["a car", "a bus"], [1000, 2000], [("x", 1000), ("x", 2000)]])
    k, d = rng.choice([(1, 2), (2, 2), (2, 2), (3, 2), (1, 3), (5, 2)])
    shapes = {l: (k, d) for l in labels}
    name = None
    if kind in ("scalar", "vector") and len(labels) > 1 and rng.random() < 0.4:
        # different classes may track different numbers of points
        shapes = {l: (rng.choice([1, 2, 4]), 2) for l in labels}
        ctx.count("mixed_shapes", len(set(shapes.values())) > 1)
    if kind == "scipy":
        name = rng.choice(dist._SCIPY_DISTANCE_FUNCTIONS)
    if kind == "names":
        name = rng.choice(["iou", "iou_opt", "frobenius", "mean_euclidean", "mean_manhattan"])
        if name.startswith("iou"):
            shapes = {l: (2, 2) for l in labels}
    no = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
    nc = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
    if kind in ("scalar", "vector") and ctx.index % 500 < 6:
        no, nc = rng.randint(100, 160), rng.randint(100, 160)
        ctx.count("crowds")
    if name in ("mahalanobis", "seuclidean"):
        labels = labels[:1]
        shapes = {labels[0]: (1, 2)}
        no, nc = rng.randint(3, 7), rng.randint(3, 7)
    boolean = name in BOOLEAN and rng.random() < 0.8
    po = population(ctx, no, labels, shapes, boolean, name == "jensenshannon")
    pc = population(ctx, nc, labels, shapes, boolean, name == "jensenshannon")
    if name and name.startswith("iou"):
        boxes(rng, po)
        boxes(rng, pc)
    moving = None if boolean or name in BOOLEAN or rng.random() < 0.5 else rng.uniform(0.01, 0.4)
    objs = objects_from(nf, po, moving)
    tracked = rng.random() < 0.4 and name not in ("frobenius", "mean_euclidean", "mean_manhattan")  # those take a Detection
    cands = objects_from(nf, pc, moving) if tracked else [nf.Detection(p.copy(), label=fresh(l)) for p, l in pc]
    ctx.count("tracked_candidates", tracked and nc > 0)
    ctx.info = {"kind": kind, "name": name, "objects": [(p, repr(l)) for p, l in po], "candidates": [(p, repr(l)) for p, l in pc],
                "tracked_candidates": tracked}
    # user-side functions whose value identifies the ordered pair
    w1, w2 = rng.uniform(1, 2), rng.uniform(3, 4)
    ordinal = {id(o): i for i, o in enumerate(cands)}
    oordinal = {id(o): i for i, o in enumerate(objs)}
    calls = []
    want = np.full((nc, no), np.inf)
    if kind == "scalar":
        def f(c, o):
            calls.append((ordinal.get(id(c)), oordinal.get(id(o))))
            return w1 * float(pc[ordinal[id(c)]][0].sum()) - w2 * float(po[oordinal[id(o)]][0].sum())

        D = dist.ScalarDistance(f)
    elif kind == "vector":
        def f(c, o):
            calls.append((np.array(c), np.array(o)))
            return w1 * c.sum(axis=1)[:, None] - w2 * o.sum(axis=1)[None, :]

        D = dist.VectorizedDistance(f)
    elif kind == "scipy":
        kw = {}
        if name == "minkowski" and rng.random() < 0.5:
            kw = {"p": rng.choice([1, 3, 4])}
        if name in ("minkowski", "euclidean", "cityblock", "chebyshev", "sqeuclidean", "canberra", "braycurtis", "cosine") and rng.random() < 0.3:
            kw["w"] = ctx.nprng.uniform(0.5, 3, k * d)
            ctx.count("weighted")
        if name in ("kulczynski1", "sokalmichener"):
            # dropped by the installed scipy: the name is still accepted and builds a scipy distance
            D = dist.get_distance_by_name(name)
            ctx.check(isinstance(D, dist.ScipyDistance), "a scipy name does not build a ScipyDistance", got=type(D).__name__)
            return
        D = dist.ScipyDistance(name, **kw) if kw or rng.random() < 0.4 else dist.get_distance_by_name(name)
    else:
        D = dist.get_distance_by_name(name)
    for i, (p, l) in enumerate(pc):
        for j, (q, m) in enumerate(po):
            if l != m:
                continue
            if kind in ("scalar", "vector"):
                want[i, j] = w1 * p.sum() - w2 * q.sum()
            elif kind == "scipy":
                if name in PAIR and not kw:
                    with np.errstate(all="ignore"):
                        want[i, j] = PAIR[name](p.ravel(), q.ravel())
                else:
                    G = [c for c, x in pc if x == l]
                    H = [c for c, x in po if x == l]
                    with np.errstate(all="ignore"):
                        M = cdist(np.array([c.ravel() for c in G]), np.array([c.ravel() for c in H]), metric=name, **kw)
                    gi = sum(1 for c, x in pc[:i] if x == l)
                    hj = sum(1 for c, x in po[:j] if x == l)
                    want[i, j] = M[gi, hj]
            else:
                if name.startswith("iou"):
                    x1, y1 = np.maximum(p[0], q[0])
                    x2, y2 = np.minimum(p[1], q[1])
                    inter = max(0.0, x2 - x1) * max(0.0, y2 - y1)
                    want[i, j] = 1 - inter / (np.prod(p[1] - p[0]) + np.prod(q[1] - q[0]) - inter)
                elif name == "frobenius":
                    want[i, j] = np.sqrt(((p - q) ** 2).sum())
                elif name == "mean_euclidean":
                    want[i, j] = np.sqrt(((p - q) ** 2).sum(axis=1)).mean()
                else:
                    want[i, j] = np.abs(p - q).sum(axis=1).mean()
    with np.errstate(all="ignore"):
        got = D.get_distances(objs, cands)
    ctx.check(isinstance(got, np.ndarray) and got.shape == (nc, no), "the distance matrix has the wrong shape", got=np.shape(got), want=(nc, no))
    ctx.count(kind)
    ctx.count("empty", nc == 0 or no == 0)
    infs = 0
    for i in range(nc):
        for j in range(no):
            g, w = float(got[i, j]), float(want[i, j])
            infs += w == np.inf
            if pc[i][1] != po[j][1]:
                ctx.check(g == np.inf, "entries of different labels must be infinite", row=i, column=j, got=g)
            elif w != w:
                ctx.check(g != g, "entry differs from the metric of its pair", row=i, column=j, got=g, want=w)
            else:
                ctx.check(abs(g - w) <= 2e-6 * max(1.0, abs(w), 100.0 * (kind in ("scalar", "vector"))) + (1e-6 if name in ("cosine", "correlation") else 0),
                          "entry differs from the distance of its pair", row=i, column=j, got=g, want=w)
    pairs = {(i, j) for i in range(nc) for j in range(no) if pc[i][1] == po[j][1]}
    if kind == "scalar":
        ctx.check(set(calls) == pairs, "the distance function was not called exactly for the equal-label pairs", calls=calls, pairs=sorted(pairs))
    if kind == "vector":
        rows = {tuple(p.ravel()) for p, _ in pc}
        cols = {tuple(p.ravel()) for p, _ in po}
        for c, o in calls:
            ctx.check(c.ndim == 2 and all(tuple(r) in rows for r in c), "the first argument is not the candidates' flattened points", got=c)
            ctx.check(o.ndim == 2 and all(tuple(r) in cols for r in o), "the second argument is not the objects' flattened estimates", got=o)
    for (p, l), c in zip(pc, cands):
        ctx.check(np.array_equal(c.estimate if tracked else c.points, p) and c.label == l, "get_distances modified a candidate")
    for (p, l), o in zip(po, objs):
        ctx.check(np.array_equal(o.estimate, p) and o.label == l, "get_distances modified an object")
    ctx.count("inf_entries", infs)
    ctx.count("entries", len(pairs))
    seq = [l for _, l in pc]
    if nc < 50:
        ctx.count("interleaved_labels", any(seq[i] == seq[k] != seq[j] for i in range(nc) for j in range(i, nc) for k in range(j, nc)))
    ctx.state(kind, name, nc, no, len(pairs))
    if nc > 1 and no > 1 and pairs:
        ctx.nontrivial(kind, name, ctx.index)
        ctx.sample = {"kind": kind, "name": name, "candidates": nc, "objects": no, "equal_label_pairs": len(pairs)}
