"""C03: matching is one-to-one, nearest first, strictly below the threshold, initialized objects first; update terminates."""
import math

import numpy as np

from nfv import trk

PROP = "C03"
RULE = ("seeded random histories; distances are a pure table of (detection, object, frame) with ties, zeros, negative, infinite and "
        "exactly-threshold values and hostile thresholds (0, negative, inf, 1e9, not representable in float32), or predefined distances "
        "recomputed from the predicted estimates; every update's matches must be an outcome of nearest-first matching in two stages "
        "(no pair below the threshold passed over); non-trivial when some update had competing pairs")
ASSUMPTIONS = ["distances are compared in the float32 precision of norfair's distance matrix"]
CASES = {"quick": 900, "thorough": 26000}
FLOORS = {"matched": 25000, "competing_pairs": 620000, "stage2_matches": 4700, "exact_threshold_pairs": 96000, "hostile_thresholds": 90,
          "geo_matches": 6200, "crowds": 9, "masses": 1}


def point_dist(name, a, b):
    d = np.asarray(a, float) - np.asarray(b, float)
    f = d.ravel()
    if name in ("euclidean", "frobenius"):
        return float(np.sqrt((f * f).sum()))
    if name == "cityblock":
        return float(np.abs(f).sum())
    if name == "chebyshev":
        return float(np.abs(f).max())
    if name == "mean_euclidean":
        return float(np.sqrt((d * d).sum(axis=1)).mean())
    if name == "mean_manhattan":
        return float(np.abs(d).sum(axis=1).mean())
    if name in ("iou", "iou_opt"):
        (ax0, ay0), (ax1, ay1) = np.asarray(a, float)
        (bx0, by0), (bx1, by1) = np.asarray(b, float)
        w, h = min(ax1, bx1) - max(ax0, bx0), min(ay1, by1) - max(ay0, by0)
        inter = max(0.0, w) * max(0.0, h)
        return 1 - inter / ((ax1 - ax0) * (ay1 - ay0) + (bx1 - bx0) * (by1 - by0) - inter)
    raise KeyError(name)


def case(ctx):
    rng = ctx.rng
    table = rng.random() < 0.75
    mass = ctx.index % 4000 == 7
    crowd = mass or table and rng.random() < 0.02
    table = table or mass
    ctx.count("masses", mass)
    ctx.count("crowds", crowd)
    scn = trk.gen_table_scn(rng, maxdets=560 if mass else 300, mindets=520 if mass else 140, hostile_T=0.0, nframes=2 if mass else 3, silence=False, reid=False, labels=[None], hcm=5,
                            always=True) if crowd else \
        trk.gen_table_scn(rng, maxdets=rng.choice([3, 5, 8]), hostile_T=0.25) if table else trk.gen_geo_scn(rng, spread=120.0, maxtracks=6)
    if not table and scn.dist not in ("iou", "iou_opt"):
        # integer grids give exact ties
        if rng.random() < 0.3:
            for f in scn.frames:
                uniq = {}
                for d in f.dets:
                    d.points = np.round(d.points / 10) * 10
                    uniq[d.points.tobytes()] = d
                f.dets = list(uniq.values())
        scn.T = rng.choice([scn.T, scn.T / 3, 10.0])
    ctx.info = {"scenario": scn.describe()}
    rec = trk.Recorder(ctx.nf, scn, record_filter=True)
    T = scn.T
    compete = 0
    for fr in scn.frames:
        st = rec.step(fr)
        st.decode(ctx)
        # two objects hit by one detection or one object hit twice is a C03 matter as well
        st.decode_filters(ctx, rec)
        k = st.k
        byuid = {d.uid: d for d in fr.dets}
        if table:
            eps = 0.0

            def dist(u, i):
                if byuid[u].label != st.pre[i].label:
                    return None
                return rec.table.value(u, rec.birth[i])
        else:
            eps = 1e-3 if scn.dist not in ("iou", "iou_opt") else 1e-4
            cache = {}

            def dist(u, i):
                if (u, i) not in cache:
                    d, s = byuid[u], st.pre[i]
                    if d.label != s.label or d.points.shape != s.est.shape:
                        cache[u, i] = None
                    else:
                        cache[u, i] = point_dist(scn.dist, d.points, s.est + s.vel)
                return cache[u, i]
        alive = [i for i in st.pre_order if st.pre[i].hc >= 0]
        first = [i for i in alive if not st.pre[i].init]
        second = [i for i in alive if st.pre[i].init]
        m1 = {u: i for u, i in st.direct.items() if i in set(first)}
        m2 = {u: i for u, i in st.direct.items() if i in set(second)}
        other = {u: i for u, i in st.direct.items() if u not in m1 and u not in m2}
        ctx.check(not other, "a detection was matched to an object that was already gone", frame=k, matches=other)
        uids = [d.uid for d in fr.dets]
        n = trk.greedy_ok(ctx, "initialized objects", k, uids, first, dist, T, m1, eps, history=trk.brief_history(scn, k, 1))
        left = [u for u in uids if u not in m1]
        n += trk.greedy_ok(ctx, "initializing objects", k, left, second, dist, T, m2, eps, history=trk.brief_history(scn, k, 1))
        for u, i in st.direct.items():
            h = st.merged.get(i, i)
            if h in st.post:
                want = dist(u, i)
                got = st.post[h].ldist
                ok = trk.f32eq(got, want) if table else (got is not None and abs(got - want) <= eps * max(1, abs(want)))
                ctx.check(ok, "last_distance is not the distance of the pair that was matched", frame=k, uid=u, object=i, distance=want,
                          last_distance=got)
        for i in st.post_order:
            if i in st.pre and i not in st.direct.values() and i not in st.merged.values():
                ctx.check(trk.f32eq(st.post[i].ldist, st.pre[i].ldist), "last_distance of an unmatched object changed", frame=k, object=i,
                          was=st.pre[i].ldist, now=st.post[i].ldist)
        compete += n
        ctx.count("matched", len(st.direct))
        ctx.count("stage2_matches", len(m2))
        ctx.count("competing_pairs", n)
        ctx.count("updates")
        if table:
            for u in uids:
                for i in alive:
                    d = dist(u, i)
                    if d is not None and d == float(np.float32(T)):
                        ctx.count("exact_threshold_pairs")
        else:
            ctx.count("geo_matches", len(st.direct))
        ctx.state(len(uids), len(first), len(second), len(m1), len(m2), n)
    if T in trk.HOSTILE_THRESHOLDS or math.isinf(T):
        ctx.count("hostile_thresholds")
    if compete:
        ctx.nontrivial(ctx.index, compete)
        ctx.sample = {**scn.describe(), "competing_pairs": compete}
