"""C11: live_points follows the per-point inertia."""
import numpy as np

from nfv import kf, trk

PROP = "C11"
RULE = ("seeded random histories over pointwise_hit_counter_max, periods, scores around the threshold, gaps; every object's live_points is "
        "compared after every update with one counter per point; non-trivial when points came to life again after having gone stale")
CASES = {"quick": 4800, "thorough": 24000}
FLOORS = {"flags": 750000, "revived": 53000, "went_stale": 83000, "raised_to_zero": 46000, "capped": 95000, "period_cap": 2600}


def case(ctx):
    rng = ctx.rng
    scn = trk.gen_table_scn(rng, reid=False, maxdets=3, hostile_T=0.02, npts=rng.choice([1, 2, 3, 5]))
    if rng.random() < 0.006:
        scn = trk.gen_long(rng, scores=rng.random() < 0.7)
    elif ctx.index % 100 == 13:
        scn = trk.gen_table_scn(rng, reid=False, maxdets=2, hostile_T=0.0, npts=rng.choice([70, 133, 300]), nframes=20)
    scn.dens = rng.choice([0.5, 0.8, 1.0])
    if rng.random() < 0.5:
        scn.kw["hit_counter_max"] = rng.choice([8, 15, 30])
        scn.kw.pop("initialization_delay", None)
    thr = scn.kw.get("detection_threshold", 0.0)
    if rng.random() < 0.6:
        for f in scn.frames:
            for d in f.dets:
                d.scores = trk.gen_scores(rng, len(d.points), thr, 0.9)
    pmax = scn.kw.get("pointwise_hit_counter_max", 4)
    ctx.info = {"scenario": scn.describe()}
    rec = trk.Recorder(ctx.nf, scn)
    cnt, cap = {}, {}
    revived = 0
    for fr in scn.frames:
        st = rec.step(fr)
        st.decode(ctx)
        k, p = st.k, fr.period
        byuid = {d.uid: d for d in fr.dets}
        got = {i: u for u, i in st.taken.items()}
        for i in st.post_order:
            s = st.post[i]
            if i not in st.pre:
                d = byuid[s.last]
                cnt[i] = kf.seen_mask(d, thr).astype(int)
                cap[i] = max(pmax, p)
                ctx.count("period_cap", p > pmax)
            else:
                was = cnt[i] > 0
                c = cnt[i] - 1
                if i in got:
                    m = kf.seen_mask(byuid[got[i]], thr)
                    c = c + 2 * p * m
                    ctx.count("capped", int((c > cap[i]).sum()))
                    c = np.minimum(c, cap[i])
                    ctx.count("raised_to_zero", int((c < 0).sum()))
                    c = np.maximum(c, 0)
                cnt[i] = c
                now = c > 0
                r = int((now & ~was).sum())
                revived += r
                ctx.count("revived", r)
                ctx.count("went_stale", int((was & ~now).sum()))
            live = s.obj.live_points
            ctx.check(isinstance(live, np.ndarray) and live.dtype == bool and live.shape == (len(s.est),),
                      "live_points is not a boolean array with one entry per point", frame=k, iid=i, value=live)
            ctx.check(np.array_equal(live, cnt[i] > 0), "live_points does not follow the per-point counters", frame=k, iid=i, live=live,
                      counters=cnt[i], matched=i in got, period=p, pointwise_hit_counter_max=pmax, history=trk.brief_history(scn, k, 4))
            ctx.count("flags", len(live))
            ctx.state(tuple(cnt[i].tolist()), i in got, p)
    if revived:
        ctx.nontrivial(ctx.index, revived)
        ctx.sample = {**scn.describe(), "revived": revived}
