"""C09: the alternative filters do what they document, and user-defined filters get the documented calls."""
import numpy as np

from checks import c08
from nfv import kf, trk

PROP = "C09"
RULE = ("seeded random histories tracked with FilterPyKalmanFilterFactory (random R, Q, P), NoFilterFactory, or a user-defined recording factory "
        "(also with coordinate transformations and re-identification); the first two are compared with a dense textbook filter / the last seen "
        "positions, for the third the create / predict / update events are checked; non-trivial when matches and gaps were seen")
ASSUMPTIONS = c08.ASSUMPTIONS
CASES = {"quick": 3600, "thorough": 16000}
FLOORS = {"filterpy_cases": 660, "nofilter_cases": 660, "protocol_cases": 660, "compared": 110000, "predict_events": 67000, "update_events": 28000,
          "create_events": 7800, "masked_points": 26000}


def protocol(ctx):
    rng = ctx.rng
    scn = trk.gen_table_scn(rng, hostile_T=0.02) if rng.random() < 0.7 else trk.gen_geo_scn(rng)
    scn.filter = rng.choice([("opt", {}), ("none", {}), ("filterpy", {})])
    moving = rng.random() < 0.5 and scn.dim == 2
    if moving:
        from norfair.camera_motion import TranslationTransformation

        v = np.zeros(2)
        for f in scn.frames:
            v = v + np.array([rng.uniform(-5, 5), rng.uniform(-5, 5)])
            f.ct = TranslationTransformation(v.copy())
    ctx.info = {"scenario": scn.describe(), "moving_camera": moving}
    ctx.count("protocol_cases")
    rec = trk.Recorder(ctx.nf, scn, record_filter=True)
    hits = gaps = 0
    for fr in scn.frames:
        st = rec.step(fr)
        owner_before = {f: i for f, i in rec.owner.items()}
        st.decode(ctx)
        st.decode_filters(ctx, rec)
        k = st.k
        shift = fr.ct.movement_vector if fr.ct is not None else 0.0
        byuid = {d.uid: d for d in fr.dets}
        creates = [e for e in st.events if e[0] == "create"]
        ctx.check(len(creates) == len(st.new), "the filter factory was not called once per new object", frame=k, calls=len(creates), new=st.new)
        left = [byuid[st.post[i].last].points - shift for i in st.new]
        for e in creates:
            j = [n for n, p in enumerate(left) if p.shape == e[2].shape and trk.close(p, e[2], 1e-9)]
            ctx.check(j, "a filter was not created from the absolute points of a new object", frame=k, points=e[2])
            left.pop(j[0])
        npred, nupd, order = {}, {}, {}
        for n, (kind, fid, z, H) in enumerate(st.events):
            if kind == "predict":
                npred[fid] = npred.get(fid, 0) + 1
            elif kind == "update":
                nupd[fid] = nupd.get(fid, 0) + 1
                ctx.check(fid in npred or fid in {e[1] for e in creates}, "a filter was updated before it was predicted", frame=k)
        for fid, i in owner_before.items():
            if i in st.post and i in st.pre:
                ctx.check(npred.get(fid, 0) == 1, "the filter of a living object did not get exactly one predict in a frame", frame=k, iid=i,
                          predicts=npred.get(fid, 0))
            elif i in st.post:
                ctx.check(npred.get(fid, 0) == 0 and nupd.get(fid, 0) == 0, "the filter of a new object was predicted or updated at once", frame=k,
                          iid=i)
        for u, i in st.direct.items():
            d = byuid[u]
            fid = [f for f, x in owner_before.items() if x == i][0]
            ev = [e for e in st.events if e[0] == "update" and e[1] == fid]
            ctx.check(len(ev) == 1, "a match did not update the object's filter exactly once", frame=k, iid=i, updates=len(ev))
            ctx.check(trk.close(ev[0][2], (d.points - shift).ravel(), 1e-9), "a filter was not updated with the absolute points of the detection",
                      frame=k, iid=i, got=ev[0][2], expected=(d.points - shift))
            H = ev[0][3]
            mask = np.repeat(kf.seen_mask(d, scn.kw.get("detection_threshold", 0.0)), d.points.shape[1]).astype(float)
            if H is not None:
                n = mask.size
                ctx.check(H.shape == (n, 2 * n) and np.array_equal(H, np.hstack([np.diag(mask), np.zeros((n, n))])),
                          "the measurement matrix does not select exactly the seen coordinates", frame=k, H=H, seen=mask)
            else:
                ctx.check(bool(mask.all()), "no measurement matrix although some points were not seen", frame=k)
        ctx.check(sum(nupd.values()) == len(st.direct), "filters were updated without a match", frame=k, updates=nupd)
        hits += len(st.direct)
        gaps += len([i for i in st.post_order if i in st.pre and i not in st.direct.values()])
        for e in st.events:
            ctx.count(e[0] + "_events")
        ctx.state("p", len(creates), len(st.direct), len(st.pre))
    if hits and gaps:
        ctx.nontrivial(ctx.index, "protocol", hits, gaps)


def case(ctx):
    rng = ctx.rng
    kind = ctx.index % 3
    if kind == 2:
        return protocol(ctx)
    scn, _ = c08.gen(rng)
    if kind == 0:
        kw = {}
        if rng.random() < 0.8:
            kw = {"R": rng.choice([1e-4, 0.01, 0.5, 1.0, 4.0, 25.0, 1e3]), "Q": rng.choice([1e-3, 0.1, 1.0, 5.0, 100.0]), "P": rng.choice([0.01, 0.1, 1.0, 10.0, 100.0, 1e3, 1e4])}
            for n in list(kw):
                if rng.random() < 0.3:
                    del kw[n]
        scn.filter = ("filterpy", kw)
        make = lambda p: kf.Dense(p, **kw)  # noqa: E731
        ctx.count("filterpy_cases")
    else:
        scn.filter = ("none", {})
        make = kf.Hold
        ctx.count("nofilter_cases")
    ctx.info = {"scenario": scn.describe()}
    hits, gaps = c08.run(ctx, scn, make)
    if hits >= 3 and gaps:
        ctx.nontrivial(ctx.index, kind, hits, gaps)
        ctx.sample = {**scn.describe(), "matches": hits, "unmatched": gaps}
