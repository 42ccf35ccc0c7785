"""C15: tracking does not depend on listing order or on the choice of origin or units."""
import math

import numpy as np

from checks.c03 import point_dist
from nfv import trk

PROP = "C15"
RULE = ("seeded random histories are replayed with the detections of every frame permuted, and (translation-invariant distances) with every "
        "detection shifted by one vector; objects are identified by the detection that started them; histories are compared up to the first frame "
        "with two equal (or, for shifts, nearly equal or nearly-threshold) distances; non-trivial when frames with competing detections were "
        "permuted, or matched after a shift")
ASSUMPTIONS = ["histories whose outcome hinges on two distances closer than 1e-3 are not judged from that frame on"]
CASES = {"quick": 2800, "thorough": 18000}
FLOORS = {"permuted_frames": 13000, "shifted_frames": 12000, "matched": 79000, "permuted_cases": 630, "shifted_cases": 510, "rescaled_cases": 220,
          "rescaled_frames": 5200, "reid_merges": 92, "crowds": 5}


def rows(rec, st):
    out = {}
    for i in st.post_order:
        s = st.post[i]
        out[rec.birth[i]] = (s.age, s.hc, bool(s.init), s.last, tuple(s.past), tuple(s.past_age), s.live.tolist(), i in st.ret, s.est, s.vel, s.ldist,
                             s.label)
    return out


def compare(ctx, k, a, b, shift, what, lin=1.0):
    """lin: a factor per coordinate (units, mirrored axes)."""
    ctx.check(set(a) == set(b), what + " changed which detections start objects", frame=k, base=sorted(a), other=sorted(b))
    for key in a:
        x, y = a[key], b[key]
        ctx.check(x[:8] == y[:8], what + " changed an object", frame=k, object=key, base=x[:8], other=y[:8])
        unit = float(np.abs(lin).max())
        sc = max(unit, float(np.abs(x[8] * lin).max()), float(np.abs(shift).max()) if np.ndim(shift) else unit)
        ctx.check(trk.close(x[8] * lin + shift, y[8], 1e-7, sc), what + " changed an estimate", frame=k, object=key, base=x[8], other=y[8])
        ctx.check(trk.close(x[9] * lin, y[9], 1e-7, sc), what + " changed a velocity", frame=k, object=key, base=x[9], other=y[9])


def permuted(ctx):
    rng = ctx.rng
    table = rng.random() < 0.7 and ctx.index % 250 != 1
    if table:
        scn = trk.gen_table_scn(rng, maxdets=rng.choice([3, 5, 8]), vals="distinct", hostile_T=0.0)
        if scn.reid:
            scn.reid["vals"] = "distinct"
            scn.reid["T"] = rng.choice([1.0, 5.0])
    elif ctx.index % 250 == 1:
        scn = trk.gen_crowd(rng, nframes=4)
        ctx.count("crowds")
    else:
        scn = trk.gen_geo_scn(rng, spread=rng.choice([60.0, 200.0]), maxtracks=7, clutter=0.4)
    other = trk.clone(scn)
    n = 0
    for f in other.frames:
        if len(f.dets) > 1:
            rng.shuffle(f.dets)
            n += 1
    return scn, other, table, n


def ties_table(rec, st):
    """Are two competing distances (one detection or one object in common) below the threshold equal in this frame?"""
    seen = set()
    for d in st.specs:
        for i in st.pre_order:
            if st.pre[i].label == d.label:
                v = rec.table.value(d.uid, rec.birth[i])
                if v < rec.scn.T:
                    if (v, "d", d.uid) in seen or (v, "o", i) in seen:
                        return True
                    seen |= {(v, "d", d.uid), (v, "o", i)}
    if rec.rtable is not None:
        seen = set()
        for c in st.pre_order:
            for o in st.pre_order:
                if c != o and st.pre[c].init and not st.pre[o].init and st.pre[c].label == st.pre[o].label:
                    v = rec.rtable.value(rec.birth[c], rec.birth[o])
                    if v < rec.scn.reid["T"]:
                        if (v, "c", c) in seen or (v, "o", o) in seen:
                            return True
                        seen |= {(v, "c", c), (v, "o", o)}
    return False


def ties_geo(scn, st, gap):
    vals = {}
    for j, d in enumerate(st.specs):
        for i in st.pre_order:
            s = st.pre[i]
            if s.label == d.label and s.est.shape == d.points.shape:
                v = point_dist(scn.dist, d.points, s.est + s.vel)
                if abs(v - scn.T) < gap:
                    return True
                if v < scn.T:
                    vals.setdefault(("d", j), []).append(v)
                    vals.setdefault(("o", i), []).append(v)
    return any(b - a < gap for vs in map(sorted, vals.values()) for a, b in zip(vs, vs[1:]))


def case(ctx):
    rng = ctx.rng
    lin = 1.0
    if ctx.index % 7 == 6:
        # other units (a power of two, so that every distance scales exactly), or mirrored axes
        table, shift, n = False, 0.0, 0
        scn = trk.gen_geo_scn(rng, spread=rng.choice([100.0, 400.0]), dist=None)
        boxes = scn.dist in ("iou", "iou_opt")
        unit = 2.0 ** rng.choice([-12, -7, -1, 1, 3, 10, 20])
        if boxes and unit < 1e-3:
            unit = 2.0 ** 5
        lin = unit * np.ones(scn.dim)
        what = "measuring in other units"
        if not boxes and rng.random() < 0.5:
            lin = np.array([rng.choice([-1.0, 1.0]) for _ in range(scn.dim)]) * rng.choice([1.0, unit])
            what = "mirroring the scene"
        unit = float(np.abs(lin).max())
        other = trk.clone(scn)
        if not boxes:
            other.T = scn.T * unit
        for f in other.frames:
            for d in f.dets:
                d.points = d.points * lin
        gap = 0.0
        ctx.info = {"scenario": scn.describe(), "relation": what, "factors": lin.tolist()}
    elif ctx.index % 5 < 3:
        scn, other, table, n = permuted(ctx)
        ctx.info = {"scenario": scn.describe(), "relation": "permutation"}
        shift, what, gap = 0.0, "permuting detections", 1e-3
    else:
        kw = {}
        table = False
        scn = trk.gen_geo_scn(rng, spread=rng.choice([100.0, 400.0]), dist=None)
        other = trk.clone(scn)
        mag = rng.choice([10.0, 300.0, 2000.0])
        shift = np.array([rng.uniform(-mag, mag) for _ in range(scn.dim)])
        some = [d for f in scn.frames for d in f.dets]
        if some and rng.random() < 0.5:
            # let a detected point (or a coordinate of one) come to lie exactly on the new origin
            q = rng.choice(some).points
            q = q[rng.randrange(len(q))]
            shift = -q if rng.random() < 0.6 else np.where(np.arange(scn.dim) == rng.randrange(scn.dim), -q, shift)
            ctx.count("origin_on_point")
        for f in other.frames:
            for d in f.dets:
                d.points = d.points + shift
        ctx.info = {"scenario": scn.describe(), "relation": "shift", "shift": shift.tolist()}
        what, gap, n = "shifting all detections", (2e-3 if scn.dist not in ("iou", "iou_opt") else 1e-4), 0
    scn.filter = other.filter = rng.choice([("opt", {}), ("opt", {"R": 1.0}), ("none", {}), ("filterpy", {})])
    A, B = trk.Recorder(ctx.nf, scn), trk.Recorder(ctx.nf, other)
    done = matched = 0
    for fa, fb in zip(scn.frames, other.frames):
        sa, sb = A.step(fa), B.step(fb)
        if scn.filter[0] == "none":
            for s in sa.pre.values():
                s.vel = np.zeros_like(s.vel)
        if np.ndim(lin):
            ctx.count("rescaled_frames", bool(fa.dets))
            done += 1
        elif (ties_table(A, sa) if table else ties_geo(scn, sa, gap if np.ndim(shift) else 1e-4)):
            ctx.count("stopped_at_tie")
            break
        compare(ctx, sa.k, rows(A, sa), rows(B, sb), shift, what, lin)
        matched += sum(1 for i in sa.post_order if i in sa.pre and sa.post[i].last != sa.pre[i].last)
        if scn.reid:
            ctx.count("reid_merges", sum(1 for i in sa.pre_order if i not in sa.post and sa.pre[i].hc >= 0))
        if np.ndim(shift):
            ctx.count("shifted_frames", bool(fa.dets))
            done += 1
        elif len(fa.dets) > 1 and not np.ndim(lin):
            ctx.count("permuted_frames")
            done += 1
        ctx.state(what, len(fa.dets), len(sa.pre), scn.dist)
    ctx.count("matched", matched)
    if done and matched:
        ctx.count("rescaled_cases" if np.ndim(lin) else "shifted_cases" if np.ndim(shift) else "permuted_cases")
        ctx.nontrivial(ctx.index, done, matched)
        ctx.sample = {**scn.describe(), "relation": what, "frames_compared": done, "matched": matched}
