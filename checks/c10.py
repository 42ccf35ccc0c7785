"""C10: low-score points never influence the track; a point seen for the first time starts at its position with zero velocity."""
import math

import numpy as np

from nfv import kf, trk

PROP = "C10"
RULE = ("seeded random histories with scores below, on and above detection_threshold, every filter kind; each history is replayed with the "
        "coordinates of all ignored points replaced by other finite values (zeros, far away, 1e9) and the traces are compared point by point "
        "(distances are from a table, so the matches are the same); every first sighting of a point is checked for position and velocity; "
        "non-trivial when ignored points and first sightings occurred")
ASSUMPTIONS = ["ignored points have finite coordinates"]
CASES = {"quick": 3600, "thorough": 18000}
FLOORS = {"ignored_points": 100000, "first_sightings": 30000, "on_threshold": 40000, "compared_points": 530000, "late_sightings_alone": 1700,
          "first_sighting_with_others": 4500}


def garbage(rng, pts, style):
    out = np.array(pts, dtype=float)
    if style == "zero":
        out[:] = 0
    elif style == "far":
        out[:] = [[rng.uniform(-1e5, 1e5) for _ in range(out.shape[1])] for _ in range(out.shape[0])]
    elif style == "huge":
        out[:] = rng.choice([1e9, -1e9])
    else:
        out += [[rng.uniform(-3, 3) for _ in range(out.shape[1])] for _ in range(out.shape[0])]
    return out


def gen(rng):
    scn = trk.gen_table_scn(rng, maxdets=3, hostile_T=0.0, npts=rng.choice([2, 3, 4, 6]), reid=rng.random() < 0.15)
    if rng.random() < 0.006:
        scn = trk.gen_long(rng, npts=rng.choice([2, 3]))
    scn.dens = rng.choice([0.7, 0.9, 1.0])
    thr = rng.choice([0.0, 0.3, 0.5, -1.0, 10.0])
    scn.kw["detection_threshold"] = thr
    if thr == 0.0 and rng.random() < 0.5:
        del scn.kw["detection_threshold"]
    # points that appear late, in groups or alone
    late = {}
    for k, f in enumerate(scn.frames):
        for d in f.dets:
            if rng.random() < 0.1:
                d.scores = None
                continue
            n = len(d.points)
            ph = late.setdefault(d.tid, [rng.choice([0, 0, 3, 6, 12]) for _ in range(n)])
            ph = (ph * n)[:n]
            sc = []
            for j in range(n):
                r = rng.random()
                if k < ph[j]:
                    sc.append(thr if r < 0.3 else thr - rng.random())
                else:
                    sc.append(thr + 0.01 + rng.random() if r < 0.7 else thr if r < 0.8 else thr - rng.random() if r < 0.95
                              else float(np.nextafter(thr, math.inf)))
            d.scores = np.array(sc)
            if rng.random() < 0.2:
                d.scores = d.scores.astype(np.float32).astype(float)
    scn.filter = rng.choice([("opt", {}), ("opt", {}), ("opt", {"R": 1.0, "Q": 1.0}), ("filterpy", {}), ("none", {})])
    return scn, thr


def case(ctx):
    rng = ctx.rng
    scn, thr = gen(rng)
    style = rng.choice(["zero", "far", "huge", "near"])
    other = trk.clone(scn)
    for f in other.frames:
        for d in f.dets:
            m = kf.seen_mask(d, thr)
            if (~m).any():
                d.points = np.array(d.points, dtype=float)
                d.points[~m] = garbage(rng, d.points[~m], style)
                ctx.count("ignored_points", int((~m).sum()))
                ctx.count("on_threshold", int((d.scores == thr).sum()))
    ctx.info = {"scenario": scn.describe(), "garbage": style}
    A, B = trk.Recorder(ctx.nf, scn), trk.Recorder(ctx.nf, other)
    seen = {}
    nfirst = 0
    for fa, fb in zip(scn.frames, other.frames):
        sa, sb = A.step(fa), B.step(fb)
        k = sa.k
        sa.decode(ctx)
        byuid = {d.uid: d for d in fa.dets}
        ctx.check(sa.post_order == sb.post_order and sorted(sa.ret) == sorted(sb.ret), "ignored points changed which objects there are", frame=k,
                  objects=sa.post_order, with_garbage=sb.post_order)
        got = {i: u for u, i in sa.taken.items()}
        hist = trk.brief_history(scn, k, 1)
        for i in sa.post_order:
            a, b = sa.post[i], sb.post[i]
            first = None
            if i not in sa.pre:
                seen[i] = kf.seen_mask(byuid[a.last], thr)
                first = seen[i].copy()
            elif i in got and scn.reid is None:
                m = kf.seen_mask(byuid[got[i]], thr)
                first = m & ~seen[i]
                if first.any():
                    ctx.count("late_sightings_alone" if (m == first).all() else "first_sighting_with_others")
                seen[i] = seen[i] | m
            elif i in got:
                # a match, or a re-identification that brought another object's points: only what this detection shows is surely seen
                m = kf.seen_mask(byuid[got[i]], thr)
                seen[i] = m if sa.gone else seen[i] | m
            if first is not None and first.any():
                u = a.last
                z = np.asarray(byuid[u].points, float)
                nfirst += int(first.sum())
                ctx.count("first_sightings", int(first.sum()))
                ctx.check(trk.close(a.est[first], z[first], 1e-9), "a point seen for the first time is not at its detected position", frame=k, iid=i,
                          points=np.flatnonzero(first), estimate=a.est, detected=z, scores=byuid[u].scores, threshold=thr)
                ctx.check((np.abs(a.vel[first]) <= 1e-9).all(), "a point seen for the first time has a velocity", frame=k, iid=i,
                          points=np.flatnonzero(first), velocity=a.vel, scores=byuid[u].scores)
            ctx.check((a.id, a.age, a.hc, a.init, a.last, a.ldist, a.past) == (b.id, b.age, b.hc, b.init, b.last, b.ldist, b.past),
                      "ignored points changed the state of an object", frame=k, iid=i)
            ctx.check(np.array_equal(a.live, b.live), "ignored points changed the live flags", frame=k, iid=i, live=a.live, with_garbage=b.live)
            s = seen[i]
            sc = max(1.0, float(np.abs(a.est).max()))
            ctx.check(trk.close(a.est[s], b.est[s], 1e-7, sc) and trk.close(a.vel[s], b.vel[s], 1e-7, sc),
                      "ignored points changed the estimate of other points or times", frame=k, iid=i, seen=s, estimate=a.est,
                      with_garbage=b.est, velocity=a.vel, velocity_with_garbage=b.vel, history=hist)
            ctx.count("compared_points", int(s.sum()))
            ctx.state(len(s), int(s.sum()), i in got, style)
    if nfirst:
        ctx.nontrivial(ctx.index, nfirst)
        ctx.sample = {**scn.describe(), "first_sightings": nfirst, "garbage": style}
