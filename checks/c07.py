"""C07: update reports exactly the active objects, consistently across the API."""
import numpy as np

from nfv import trk

PROP = "C07"
RULE = ("seeded random histories (with and without re-identification); after every update the returned list is compared with the tracker's "
        "objects, get_active_objects and current_object_count; the same history is replayed with other spellings of 'no detections' and with "
        "extra read-only queries between updates and must give the same trace; non-trivial when objects were reported and some were not")
CASES = {"quick": 1700, "thorough": 16000}
FLOORS = {"reported": 86000, "hidden": 33000, "empty_frames": 5700, "handles": 8300, "extra_queries": 120000}


def row(st):
    return [(st.post[i].iid, st.post[i].id, st.post[i].age, st.post[i].hc, bool(st.post[i].init), st.post[i].last, st.post[i].ldist,
             tuple(st.post[i].past), st.post[i].live.tolist(), st.post[i].est.tolist(), st.post[i].vel.tolist()) for i in st.post_order]


def case(ctx):
    rng = ctx.rng
    scn = trk.gen_crowd(rng) if ctx.index % 200 == 11 else trk.gen_long(rng) if rng.random() < 0.004 else trk.gen_table_scn(rng, reid=rng.random() < 0.35) if rng.random() < 0.6 else trk.gen_geo_scn(rng)
    scn.filter = rng.choice([("opt", {}), ("opt", {}), ("none", {}), ("filterpy", {})])
    ctx.info = {"scenario": scn.describe()}
    rec = trk.Recorder(ctx.nf, scn)
    tr = rec.tracker
    ctx.check(tr.current_object_count == 0 and tr.total_object_count == 0 and list(tr.get_active_objects()) == [],
              "a new tracker already has objects")
    handles = {}
    trace = []
    nrep = nhid = 0
    for fr in scn.frames:
        st = rec.step(fr)
        k = st.k
        trace.append(row(st))
        ctx.check(isinstance(st.ret_objs, list), "update did not return a list", got=type(st.ret_objs))
        ctx.check(len(set(map(id, st.ret_objs))) == len(st.ret_objs), "an object is reported twice", frame=k, reported=st.ret)
        want = [o for o in st.objs if not o.is_initializing and o.hit_counter >= 0]
        ctx.check({id(o) for o in want} == {id(o) for o in st.ret_objs}, "the reported objects are not the active ones", frame=k,
                  reported=sorted(st.ret), expected=sorted(o.initializing_id for o in want))
        act = tr.get_active_objects()
        ctx.check(len(act) == len(want) and {id(o) for o in act} == {id(o) for o in want}, "get_active_objects disagrees with update", frame=k,
                  active=sorted(o.initializing_id for o in act), reported=sorted(st.ret))
        ctx.check(tr.current_object_count == len(want), "current_object_count is not the number of active objects", frame=k,
                  count=tr.current_object_count, active=len(want))
        for o in st.ret_objs:
            ctx.check(o.id is not None and o.id >= 1, "a reported object has no id", frame=k)
            if o.id in handles:
                ctx.check(handles[o.id] is o, "the object of an id is another Python object than before", frame=k, id=o.id)
            else:
                handles[o.id] = o
                ctx.count("handles")
        for i in st.pre_order:
            if i in st.post:
                ctx.check(st.pre[i].obj is st.post[i].obj, "an object was replaced by another Python object", frame=k, iid=i)
                ctx.check(st.post[i].age == st.pre[i].age + 1, "an update did not advance every object by one frame", frame=k, iid=i,
                          was=st.pre[i].age, now=st.post[i].age, dets=len(fr.dets), spelling=fr.empty)
        nrep += len(want)
        nhid += len(st.objs) - len(want)
        if not fr.dets:
            ctx.count("empty_frames")
        ctx.count("updates")
        ctx.state(len(st.objs), len(want), len(fr.dets))
    ctx.count("reported", nrep)
    ctx.count("hidden", nhid)
    # other spellings of an empty frame
    other = trk.clone(scn)
    for f in other.frames:
        if f.empty is not None:
            f.empty = rng.choice([e for e in ("none", "list", "noarg") if e != f.empty])
    rec2 = trk.Recorder(ctx.nf, other)
    for fr, want in zip(other.frames, trace):
        st = rec2.step(fr)
        ctx.check(row(st) == want, "None, an empty list and no argument are not equivalent", frame=st.k, spelling=fr.empty, got=row(st)[:3],
                  expected=want[:3])
    # read-only queries in between change nothing
    rec3 = trk.Recorder(ctx.nf, trk.clone(scn))
    tr = rec3.tracker
    q = 0
    for fr, want in zip(scn.frames, trace):
        st = rec3.step(fr)
        ctx.check(row(st) == want, "read-only queries changed the tracker", frame=st.k, got=row(st)[:3], expected=want[:3])
        for _ in range(rng.randrange(0, 3)):
            tr.get_active_objects()
            tr.current_object_count
            tr.total_object_count
            for o in tr.tracked_objects:
                repr(o)
                o.estimate, o.estimate_velocity, o.live_points, o.get_estimate()
                o.hit_counter_is_positive, o.last_detection
                q += 1
    ctx.count("extra_queries", q)
    if nrep and nhid:
        ctx.nontrivial(ctx.index, nrep, nhid)
        ctx.sample = {**scn.describe(), "reported": nrep, "hidden": nhid}
