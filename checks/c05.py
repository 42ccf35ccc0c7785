"""C05: objects are born, kept and dropped exactly on the hit-counter schedule (no re-identification)."""
from nfv import trk

PROP = "C05"
RULE = ("seeded random histories without re-identification over hit_counter_max, initialization_delay (default and explicit), per-update "
        "periods, bursts, gaps and final silences; every object's transition in every update is compared with the hit-counter automaton; "
        "non-trivial when an object was initialized and one was dropped")
CASES = {"quick": 5400, "thorough": 28000}
FLOORS = {"long_histories": 46, "veteran_histories": 1, "transitions": 420000, "initialized": 5400, "dropped": 34000, "capped": 150000,
          "period_gt1": 79000, "recovered_from_zero": 7700, "born_initialized": 18000, "silenced_to_empty": 2900}


def case(ctx):
    rng = ctx.rng
    long = rng.random() < 0.015
    ctx.count("long_histories", long)
    veteran = ctx.index % 3000 == 1500
    ctx.count("veteran_histories", veteran)
    scn = trk.gen_long(rng, npts=1, maxdets=1, nframes=9000) if veteran else trk.gen_long(rng) if long else trk.gen_crowd(rng) if ctx.index % 300 == 11 else \
        trk.gen_table_scn(rng, reid=False, maxdets=4) if rng.random() < 0.7 else trk.gen_geo_scn(rng)
    scn.filter = ("none", {}) if veteran else rng.choice([("opt", {}), ("opt", {}), ("none", {})])
    hcm = scn.kw.get("hit_counter_max", 15)
    delay = scn.kw.get("initialization_delay")
    if delay is None:
        delay = hcm // 2
    ctx.info = {"scenario": scn.describe(), "delay": delay}
    rec = trk.Recorder(ctx.nf, scn)
    born = {}
    dropped = set()
    ninit = 0
    maxp = max([f.period for f in scn.frames] + [1])
    # enough silence at the end for everything to go
    tail = max(hcm, maxp) + 3
    frames = scn.frames + [trk.Frame([], rng.choice([1, 1, 2]), rng.choice(["none", "list", "noarg"])) for _ in range(tail)]
    for fr in frames:
        st = rec.step(fr)
        st.decode(ctx)
        k, p = st.k, fr.period
        hit = {i for i in st.taken.values()}
        for i in st.post_order:
            s = st.post[i]
            ctx.check(i not in dropped, "a dropped object came back", frame=k, iid=i)
            if i not in st.pre:
                born[i] = k
                ctx.check(s.hc == p, "a new object does not start with a hit counter of `period`", frame=k, iid=i, hit_counter=s.hc, period=p)
                ctx.check(s.age == 0, "a new object's age is not 0", frame=k, iid=i, age=s.age)
                ctx.check(bool(s.init) == (p <= delay), "wrong initialization state at birth", frame=k, iid=i, period=p, delay=delay,
                          is_initializing=s.init)
                if not s.init:
                    ctx.count("born_initialized")
                    ninit += 1
                continue
            q = st.pre[i]
            ctx.count("transitions")
            want = min(q.hc - 1 + 2 * p, hcm) if i in hit else q.hc - 1
            ctx.check(s.hc == want, "wrong hit counter after a %s" % ("match" if i in hit else "miss"), frame=k, iid=i, before=q.hc,
                      after=s.hc, expected=want, period=p, hit_counter_max=hcm)
            ctx.check(s.age == q.age + 1 == k - born[i], "age is not the number of updates since birth", frame=k, iid=i, age=s.age,
                      born=born[i])
            winit = bool(q.init and not (i in hit and want > delay))
            ctx.check(bool(s.init) == winit, "wrong initialization state", frame=k, iid=i, hit_counter=s.hc, delay=delay,
                      was=q.init, now=s.init)
            if q.init and not s.init:
                ctx.count("initialized")
                ninit += 1
            if i in hit and q.hc - 1 + 2 * p > hcm:
                ctx.count("capped")
            if i in hit and q.hc == 0:
                ctx.count("recovered_from_zero")
        for i in st.pre_order:
            gone = i not in st.post
            ctx.check(gone == (st.pre[i].hc < 0), "an object was %s at the wrong time" % ("dropped" if gone else "kept"), frame=k, iid=i,
                      hit_counter_before=st.pre[i].hc)
            if gone:
                dropped.add(i)
                ctx.count("dropped")
        want = sorted(i for i in st.post_order if not st.post[i].init and st.post[i].hc >= 0)
        ctx.check(sorted(st.ret) == want, "the reported objects are not the initialized ones with a non-negative counter", frame=k,
                  reported=sorted(st.ret), expected=want)
        if p > 1:
            ctx.count("period_gt1")
        ctx.count("updates")
        for i in st.post_order:
            ctx.state(st.post[i].hc, st.post[i].init, hcm, delay, i in hit, p)
    ctx.check(len(rec.tracker.tracked_objects) == 0, "objects remain after a long silence", remaining=len(rec.tracker.tracked_objects),
              silence=tail)
    ctx.count("silenced_to_empty")
    if ninit and dropped:
        ctx.nontrivial(ctx.index, ninit, len(dropped))
        ctx.sample = {**scn.describe(), "initialized": ninit, "dropped": len(dropped)}
