"""C01: identities are unique, stable and never reused (also across threads)."""
import sys
import threading
import time

from nfv import trk

PROP = "C01"
RULE = ("seeded random histories (table or geometric distances, labels, periods, silences, optional re-identification) on one to three "
        "interleaved trackers, and every 10th case 3-4 threads with their own tracker under injected thread switches; "
        "a case is non-trivial when ids were handed out")
ASSUMPTIONS = ["CPython threads; switches are injected at bytecode boundaries of norfair/tracker.py"]
CASES = {"quick": 2600, "thorough": 20000}
FLOORS = {"ids": 18000, "updates": 77000, "thread_ids": 7000, "thread_switches": 2100, "reid_merges": 360, "crowds": 4, "mass_ids": 92000}


class Monitor:
    def __init__(self, ctx, tr, reid):
        self.ctx, self.tr, self.reid = ctx, tr, reid
        self.seen = {}  # iid -> obj
        self.ids = {}  # iid -> (id, gid)
        self.merges = 0
        self.prev_count = 0
        self.prev = {}

    def after(self, k, ret):
        ctx, tr = self.ctx, self.tr
        objs = list(tr.tracked_objects)
        iids = [o.initializing_id for o in objs]
        ctx.check(len(set(iids)) == len(iids), "two objects share an initializing id", frame=k, iids=iids)
        gone = [i for i in self.prev if i not in set(iids)]
        self.merges += sum(1 for i in gone if self.prev[i][0] >= 0 and self.prev[i][1]) if self.reid else 0
        for o in objs:
            i = o.initializing_id
            ctx.check(isinstance(i, int) and not isinstance(i, bool), "initializing id is not an int", iid=repr(i))
            if i in self.seen:
                ctx.check(self.seen[i] is o, "an initializing id was reused by another object", frame=k, iid=i)
            else:
                ctx.check(all(o is not x for x in self.seen.values()), "the initializing id of an object changed", frame=k, iid=i)
                self.seen[i] = o
        live = set(iids)
        # every handle ever seen (dropped ones included) keeps its identity
        for i, o in self.seen.items():
            ctx.check(o.initializing_id == i, "the initializing id of an object changed", frame=k, was=i, now=o.initializing_id)
            if i in self.ids:
                ctx.check((o.id, o.global_id) == self.ids[i], "the id of an object changed", frame=k, was=self.ids[i],
                          now=(o.id, o.global_id), iid=i)
            elif o.id is not None or o.global_id is not None:
                if i in live:
                    ctx.check(not o.is_initializing, "an initializing object has an id", frame=k, id=o.id, gid=o.global_id)
                for v in (o.id, o.global_id):
                    ctx.check(isinstance(v, int) and not isinstance(v, bool) and v >= 1, "id is not a positive integer", frame=k,
                              id=repr(o.id), gid=repr(o.global_id))
                self.ids[i] = (o.id, o.global_id)
                ctx.count("ids")
            elif i in live:
                ctx.check(o.is_initializing, "an initialized object has no id", frame=k, iid=i)
        ids = [v[0] for v in self.ids.values()]
        ctx.check(len(set(ids)) == len(ids), "an id was given to two objects of one tracker", frame=k, ids=ids)
        total = tr.total_object_count
        ctx.check(all(x <= total for x in ids), "an id exceeds total_object_count", frame=k, ids=ids, total=total)
        if not self.reid:
            ctx.check(sorted(ids) == list(range(1, total + 1)), "ids are not consecutive from 1 up to total_object_count", frame=k,
                      ids=sorted(ids), total=total)
        else:
            ctx.check(len(ids) <= total <= len(ids) + self.merges, "total_object_count is not the number of ids handed out",
                      frame=k, ids=sorted(ids), total=total, merges=self.merges)
        fresh = [v for v in ids if v > self.prev_count]
        ctx.check(total >= self.prev_count, "total_object_count decreased", frame=k)
        ctx.count("reid_merges", self.merges - getattr(self, "_m", 0))
        self._m = self.merges
        self.prev_count = total
        for o in ret:
            ctx.check(isinstance(o.id, int) and o.id >= 1 and isinstance(o.global_id, int), "a reported object has no id", frame=k)
        self.prev = {o.initializing_id: (o.hit_counter, o.is_initializing) for o in objs}
        return len(fresh)


def history(ctx):
    rng = ctx.rng
    runs = []
    shared = rng.random() < 0.3
    for _ in range(rng.choice([1, 1, 2, 3])):
        if ctx.index % 300 == 7 and not runs:
            scn = trk.gen_crowd(rng)
            ctx.count("crowds")
        elif rng.random() < 0.004:
            scn = trk.gen_long(rng)
        elif rng.random() < 0.7:
            scn = trk.gen_table_scn(rng, reid=rng.random() < 0.35)
        else:
            scn = trk.gen_geo_scn(rng)
        rec = trk.Recorder(ctx.nf, scn)
        runs.append((scn, rec, Monitor(ctx, rec.tracker, bool(scn.reid)), [0]))
    ctx.info = {"trackers": [s.describe() for s, _, _, _ in runs]}
    pending = [r for r in runs]
    while pending:
        r = rng.choice(pending)
        scn, rec, mon, pos = r
        st = rec.step(scn.frames[pos[0]])
        mon.after(pos[0], st.ret_objs)
        ctx.count("updates")
        pos[0] += 1
        if pos[0] == len(scn.frames):
            pending.remove(r)
    gids = [g for _, _, m, _ in runs for (_, g) in m.ids.values()]
    ctx.check(len(set(gids)) == len(gids), "a global id was given to two objects of the process", gids=gids)
    n = len(gids)
    ctx.state(len(runs), [len(m.ids) for _, _, m, _ in runs], [m.merges for _, _, m, _ in runs])
    if n:
        ctx.nontrivial(ctx.index, n)
        ctx.sample = {"trackers": [s.describe() for s, _, _, _ in runs], "ids": [sorted(m.ids.values()) for _, _, m, _ in runs][:2]}


def threads(ctx):
    rng = ctx.rng
    nf = ctx.nf
    nthreads = rng.choice([2, 3, 4])
    nframes = rng.choice([6, 10])
    fname = sys.modules["norfair.tracker"].__file__
    seeds = [rng.random() for _ in range(nthreads)]
    never = rng.random() < 0.5
    hcm, delay = (2, 0) if never else (3, 1)
    out, errs = [[] for _ in range(nthreads)], []
    order = []
    start = threading.Barrier(nthreads)
    import numpy as np
    import random as _r

    def tracer_for(i):
        r = _r.Random(seeds[i])
        p = r.choice([0.02, 0.1, 0.4])

        def local(frame, event, arg):
            if event in ("line", "opcode") and r.random() < p:
                time.sleep(0 if r.random() < 0.8 else 2e-5)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename != fname:
                return None
            if len(frame.f_code.co_code) < 400:
                frame.f_trace_opcodes = True
            return local

        return tracer

    def body(i):
        try:
            r = _r.Random(seeds[i] + 1)
            tr = nf.Tracker(lambda d, o: 0.0 if d.data == o.last_detection.data else 9.0, 1.0, hit_counter_max=hcm, initialization_delay=delay)
            objs = {}
            start.wait(30)
            sys.settrace(tracer_for(i))
            try:
                for k in range(nframes):
                    ids = range(k * 3 if never else 0, k * 3 + 3 if never else 3 + k)
                    dets = [nf.Detection(np.array([[r.random(), r.random()]]), data=j) for j in ids]
                    for o in tr.update(dets):
                        if o.initializing_id not in objs:
                            order.append(i)
                        objs[o.initializing_id] = (o.id, o.global_id)
            finally:
                sys.settrace(None)
            out[i] = [objs, tr.total_object_count]
        except Exception as e:  # reported below, as a violation
            import traceback

            errs.append(traceback.format_exc())

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(nthreads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
        alive = any(t.is_alive() for t in ts)
    finally:
        sys.setswitchinterval(old)
    ctx.info = {"threads": nthreads, "frames": nframes}
    if alive:
        # slow machine or deadlock: wait long, then decide
        for t in ts:
            t.join(200)
        ctx.check(not any(t.is_alive() for t in ts), "trackers in different threads block each other")
    ctx.check(not errs, "a tracker in its own thread failed", error=errs[:1])
    gids = [g for objs, _ in out for (_, g) in objs.values()]
    ctx.check(all(isinstance(g, int) and g >= 1 for g in gids), "a reported object has no global id")
    dup = sorted({g for g in gids if gids.count(g) > 1})
    ctx.check(not dup, "a global id was given to two objects of trackers in different threads", duplicates=dup[:10], total=len(gids))
    for objs, total in out:
        ids = sorted(a for a, _ in objs.values())
        ctx.check(ids == list(range(1, total + 1)), "ids of a tracker in its own thread are not consecutive from 1", ids=ids, total=total)
    ctx.count("thread_ids", len(gids))
    ctx.count("thread_switches", sum(1 for a, b in zip(order, order[1:]) if a != b))
    ctx.state("threads", tuple(order))
    ctx.nontrivial(ctx.index, len(gids))


CASE_S = 400


def mass(ctx):
    """Tens of thousands of objects: ids never start over."""
    import numpy as np

    rng, nf = ctx.rng, ctx.nf
    total = 21000 if ctx.tier == "quick" or ctx.index > 4 else 140000
    slow = ctx.index % 700 == 354  # objects get their ids in their second frame
    trs = [nf.Tracker("euclidean", 0.4, hit_counter_max=2 if slow else 1, initialization_delay=1 if slow else 0, past_detections_length=1,
                      filter_factory=nf.NoFilterFactory()) for _ in range(rng.choice([1, 2]))]
    if slow:
        total = 5000
    gids, ids, inits = set(), [0] * len(trs), [set() for _ in trs]
    made = 0
    per = rng.choice([700, 1500])
    ctx.info = {"objects": total, "per_update": per, "trackers": len(trs)}
    while made < total:
        j = rng.randrange(len(trs))
        if slow:
            trs[j].update([nf.Detection(np.array([[float(x), 0.0]])) for x in range(per)])
        out = trs[j].update([nf.Detection(np.array([[float(x), 0.0]])) for x in range(per)])
        ctx.check(len(out) == per, "not every object was reported", reported=len(out), expected=per)
        ctx.check(sorted(o.id for o in out) == list(range(ids[j] + 1, ids[j] + per + 1)), "ids are not consecutive", handed_out=ids[j],
                  got=sorted(o.id for o in out)[:3])
        ini = {o.initializing_id for o in out}
        ctx.check(len(ini) == per and not ini & inits[j], "an initializing id was handed out before", got=sorted(ini & inits[j])[:3])
        inits[j] |= ini
        new = {o.global_id for o in out}
        ctx.check(len(new) == per and not new & gids, "a global id was handed out before", repeated=sorted(new & gids)[:5])
        gids |= new
        ids[j] += per
        made += per
        ctx.check(trs[j].total_object_count == ids[j], "total_object_count is not the number of ids handed out", count=trs[j].total_object_count,
                  handed_out=ids[j])
        for _ in range(5):
            trs[j].update()
        ctx.check(not trs[j].tracked_objects, "objects outlive their hit counter")
        if rng.random() < 0.1:
            nf.Tracker("euclidean", 1.0)
    ctx.count("mass_ids", made)
    ctx.nontrivial("mass", ctx.index, made)


def case(ctx):
    if ctx.index % 350 == 4:
        return mass(ctx)
    if ctx.index % 10 == 9:
        threads(ctx)
    else:
        history(ctx)
