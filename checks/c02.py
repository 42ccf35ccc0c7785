"""C02: every detection is used exactly once."""
import numpy as np

from nfv import trk

PROP = "C02"
RULE = ("seeded random histories with uid-tagged detections (table distances giving arbitrary matching structures, predefined scalar, "
        "vectorized and scipy distances, labels, empty frames, varying periods, re-identification); after every update each uid is looked "
        "up in the objects and in the calls that reached the user-defined filter; non-trivial when detections were both matched and "
        "used to start objects")
CASES = {"quick": 2700, "thorough": 20000}
FLOORS = {"detections": 84000, "matched": 66000, "started": 17000, "empty_updates": 8400, "multi_det_frames": 20000, "reused_fed": 15000,
          "crowds": 31}


def reused(ctx):
    """Feeding Detection objects that were fed before is like feeding new ones with the same contents."""
    rng, nf = ctx.rng, ctx.nf
    n, npts = rng.choice([2, 3, 5, 8]), rng.choice([1, 1, 2, 3])
    thr = rng.choice([0.0, 0.4])
    pool = []
    for j in range(n):
        pts = np.array([[rng.uniform(-100, 100), rng.uniform(-100, 100)] for _ in range(npts)])
        pool.append(trk.DetSpec(j, pts, trk.gen_scores(rng, npts, thr), rng.choice([None, None, "a"])))
    objs = [d.make(nf) for d in pool]
    kw = trk.gen_params(rng)
    kw["detection_threshold"] = thr
    flt = rng.choice([("opt", {}), ("filterpy", {}), ("none", {})])
    T = rng.choice([20.0, 100.0, 1000.0])
    mk = lambda: nf.Tracker("mean_euclidean", T, filter_factory=trk.make_filter_factory(nf, flt), **kw)
    A, B = mk(), mk()
    ctx.info = {"params": kw, "filter": flt, "pool": [d.brief() for d in pool]}
    hits = 0
    hist = []
    for k in range(rng.choice([10, 25])):
        pick = [j for j in range(n) if rng.random() < rng.choice([0.3, 0.8])]
        rng.shuffle(pick)
        hist.append(pick)
        p = rng.choice([1, 1, 2])
        # the reused objects first: their ages etc. still stem from the updates before
        A.update([objs[j] for j in pick], period=p)
        B.update([pool[j].make(nf) for j in pick], period=p)
        va, vb = [[(o.age, o.hit_counter, o.is_initializing, o.last_detection.data["uid"], o.live_points.tolist(), o.last_distance)
                   for o in t.tracked_objects] for t in (A, B)]
        ctx.check(va == vb, "feeding detection objects again differs from feeding equal new ones", frame=k, history=hist, again=va, new=vb)
        for a, b in zip(A.tracked_objects, B.tracked_objects):
            ctx.check(trk.same(a.estimate, b.estimate), "the estimate of an object fed with reused detections does not come from its detections",
                      frame=k, history=hist, again=a.estimate, new=b.estimate)
            hits += a.age > 0
            ctx.count("reused_fed")
        ctx.count("reused_updates")
    if hits:
        ctx.nontrivial("reused", ctx.index, hits)


def case(ctx):
    rng = ctx.rng
    if ctx.index % 7 == 3:
        return reused(ctx)
    if ctx.index % 250 == 11:
        scn = trk.gen_crowd(rng, scores=True)
        ctx.count("crowds")
    elif rng.random() < 0.02:
        scn = trk.gen_table_scn(rng, maxdets=rng.choice([60, 150]), mindets=40, nframes=rng.choice([4, 8]), silence=False)
        ctx.count("crowds")
    elif rng.random() < 0.65:
        scn = trk.gen_table_scn(rng)
    else:
        scn = trk.gen_geo_scn(rng)
    scn.filter = rng.choice([("opt", {}), ("opt", {}), ("filterpy", {}), ("none", {})])
    ctx.info = {"scenario": scn.describe()}
    rec = trk.Recorder(ctx.nf, scn, record_filter=True)
    matched = started = 0
    for fr in scn.frames:
        lst_before = None
        st = rec.step(fr)
        st.decode(ctx)
        st.decode_filters(ctx, rec)
        k = st.k
        uids = [d.uid for d in fr.dets]
        hist = trk.brief_history(scn, k, 2)
        for u in uids:
            ctx.check(u in st.holder, "a detection was neither matched nor used to start an object", frame=k, uid=u, history=hist)
        for u in uids:
            ctx.check((u in st.direct) != (u in st.started), "a detection was not used exactly once (matched or started)", frame=k, uid=u,
                      direct=st.direct, started=st.started, history=hist)
        ctx.check(set(st.direct) | set(st.started) == set(uids), "an object took a detection that was not in this update", frame=k)
        ctx.check(len(st.new) == len(st.started), "more objects were started than there are unmatched detections", frame=k, new=st.new)
        for i in st.new:
            u = st.post[i].last
            ctx.check(u in st.started and u in uids, "a new object does not stem from a detection of this update", frame=k, iid=i, uid=u)
        # who holds it: the object that was hit, or (re-identification) the object that replaced that one
        for u, i in st.direct.items():
            h = st.holder[u]
            if h != i:
                ctx.check(i not in st.post, "a detection is held by another object than the one it was matched to", frame=k, uid=u,
                          matched=i, holder=h)
        for i in st.post_order:
            if i in st.pre and st.post[i].last not in uids:
                ctx.check(st.post[i].last == st.pre[i].last, "an unmatched object changed its last detection", frame=k, iid=i,
                          was=st.pre[i].last, now=st.post[i].last)
                ctx.check(i not in st.direct.values(), "an object was matched but does not hold the detection", frame=k, iid=i)
        byuid = {d.uid: d for d in fr.dets}
        made = {e[1]: e[2] for e in st.events if e[0] == "create"}
        ctx.check(len(made) == len(st.new), "filters were created for something else than new objects", frame=k)
        for u, i in st.started.items():
            d, o = byuid[u], st.post[i]
            ctx.check(o.est.shape == d.points.shape, "a new object has another shape than its detection", frame=k, uid=u, shape=o.est.shape)
            ctx.check(trk.close(o.est, d.points, 1e-9), "a new object does not start at its detection", frame=k, uid=u, estimate=o.est,
                      points=d.points)
            ctx.check(o.label == d.label, "a new object does not carry its detection's label", frame=k, uid=u)
            ctx.check(any(z.shape == d.points.shape and np.array_equal(z, d.points) for z in made.values()),
                      "the filter of a new object was not created from its detection", frame=k, uid=u)
        for spec, d in zip(fr.dets, st.dets):
            ctx.check(d.data["uid"] == spec.uid, "the caller's list was reordered", frame=k)
        matched += len(st.direct)
        started += len(st.started)
        ctx.count("detections", len(uids))
        ctx.count("matched", len(st.direct))
        ctx.count("started", len(st.started))
        ctx.count("reid_merges", len(st.merged))
        ctx.count("updates")
        if not uids:
            ctx.count("empty_updates")
        if len(uids) > 1:
            ctx.count("multi_det_frames")
        ctx.state(len(uids), len(st.direct), len(st.started), len(st.pre), len(st.merged))
    if matched and started:
        ctx.nontrivial(ctx.index, matched, started)
        ctx.sample = {**scn.describe(), "matched": matched, "started": started}
