"""C14: trackers are deterministic, isolated from each other and from the caller's data."""
import random

import numpy as np

from nfv import core, pristine, trk

PROP = "C14"
RULE = ("a seeded random history is run alone, again, interleaved with 1-3 other trackers (other or the same history, sharing the filter factory "
        "and default arguments), and with a caller that overwrites every array and list the tracker returned, and in a process where "
        "no other tracker has ever been; traces must be bitwise equal and the "
        "caller's detections untouched; non-trivial when objects were matched")
CASES = {"quick": 1900, "thorough": 13000}
FLOORS = {"fresh_processes": 260, "shared_detections": 92000, "replays": 1000, "interleaved_updates": 50000, "vandalized_arrays": 540000,
          "matched": 45000, "checked_detections": 56000, "snapshots": 220000}


def row(st):
    return [(s.iid, s.id, s.age, s.hc, bool(s.init), s.last, s.ldist, tuple(s.past), tuple(s.past_age), s.live.tobytes(), s.est.tobytes(),
             s.vel.tobytes(), i in st.ret) for i, s in st.post.items()] + [tuple(st.ret)]


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return {"got": [str(v)[:80] for v in x], "expected": [str(v)[:80] for v in y]}
    return {"lengths": (len(a), len(b))}


def gen(rng):
    scn = trk.gen_table_scn(rng) if rng.random() < 0.5 else trk.gen_geo_scn(rng)
    scn.filter = rng.choice([("opt", {}), ("opt", {}), ("opt", {"R": 2.0}), ("filterpy", {}), ("none", {})])
    if rng.random() < 0.3 and scn.dim == 2 and scn.style == "table":
        from norfair.camera_motion import HomographyTransformation, TranslationTransformation

        for f in scn.frames:
            if rng.random() < 0.5:
                f.ct = TranslationTransformation(np.array([rng.gauss(0, 9), rng.gauss(0, 9)]))
            else:
                f.ct = HomographyTransformation(np.array([[1, 0.01, rng.gauss(0, 9)], [0, 1, rng.gauss(0, 9)], [0, 0, 1.0]]))
    return scn


class Watched(trk.Recorder):
    """Also checks that the caller's list and detections are left alone."""

    def __init__(self, nf, scn, ctx, share=None, **kw):
        super().__init__(nf, scn, **kw)
        self.ctx = ctx

    def call(self, fr, dets):
        before = list(dets)
        snap = [(d.points, d.points.copy(), d.scores, None if d.scores is None else d.scores.copy(), d.data, dict(d.data), d.label, d.embedding)
                for d in dets]
        ret = super().call(fr, dets)
        c = self.ctx
        c.check(len(dets) == len(before) and all(a is b for a, b in zip(dets, before)), "the caller's list was changed", frame=self.k)
        for d, (p, pc, s, sc, data, dc, lab, emb) in zip(dets, snap):
            c.check(d.points is p and np.array_equal(p, pc) and p.dtype == pc.dtype, "a detection's points were changed", frame=self.k)
            c.check(d.scores is s and (s is None or np.array_equal(s, sc)), "a detection's scores were changed", frame=self.k)
            c.check(d.data is data and data == dc and d.label is lab and d.embedding is emb, "a detection's data, label or embedding was changed",
                    frame=self.k)
            c.count("checked_detections")
        return ret


class Shared(trk.Recorder):
    """Other trackers are given the very same Detection objects, before or after this one."""

    def __init__(self, nf, scn, ctx):
        super().__init__(nf, scn)
        rng = ctx.rng
        self.ctx = ctx

        def far(d, o):
            return float(np.abs(np.asarray(d.points, float).sum() - o.estimate.sum()))

        self.mates = [(nf.Tracker(far, rng.choice([5.0, 1e3, 1e9]), hit_counter_max=rng.choice([2, 4, 20]), initialization_delay=rng.choice([0, 1]),
                                  past_detections_length=rng.choice([0, 1, 3])), rng.random() < 0.5, rng.choice([0, 0, 3, 7])) for _ in range(rng.choice([1, 2]))]

    def feed(self, dets, chance):
        from norfair.camera_motion import TranslationTransformation

        rng = self.ctx.rng
        for t, moving, since in self.mates:
            if self.k >= since and rng.random() < chance:
                t.update(list(dets) or None, coord_transformations=TranslationTransformation(self.ctx.nprng.normal(0, 30, dets[0].points.shape[1] if dets else 2)) if moving else None)
                self.ctx.count("shared_detections", len(dets))

    def call(self, fr, dets):
        self.feed(dets, 0.6)
        ret = super().call(fr, dets)
        self.feed(dets, 0.6)
        return ret


def without_ages(r):
    return [x[:8] + x[9:] for x in r[:-1]] + [r[-1]]


def shared_factory(nf, scn, fac):
    r = trk.Recorder(nf, scn)
    r.tracker.filter_factory = fac
    return r


def fresh_run(seed, index, tier):
    """The case's own history, run in a process where no other tracker has ever been."""
    import norfair as nf

    scn = gen(core.Ctx(PROP, seed, index, tier, nf).rng)
    rec = trk.Recorder(nf, scn)
    return [row(rec.step(fr)) for fr in scn.frames]


def others_first(ctx):
    """Leave the traces of other trackers in this process before the reference run."""
    r = random.Random("before:%d" % ctx.index)
    for _ in range(2):
        o = gen(r)
        o.filter = r.choice([("opt", {"R": r.choice([0.1, 4.0, 50.0]), "Q": r.choice([0.1, 2.0])}), ("filterpy", {"R": 9.0, "Q": 1.0}), ("none", {})])
        rec = trk.Recorder(ctx.nf, o)
        for fr in o.frames[:8]:
            rec.step(fr)


def case(ctx):
    rng = ctx.rng
    nf = ctx.nf
    pristine.start()
    alone = ctx.index % 4 == 1
    if alone:
        others_first(ctx)
    scn = gen(rng)
    for f in scn.frames:
        for d in f.dets:
            d.embedding = ("e", d.uid)
    ctx.info = {"scenario": scn.describe()}
    A = Watched(nf, scn, ctx)
    ref = []
    kept = []
    lists = []  # what update returned so far
    matched = 0
    for fr in scn.frames:
        st = A.step(fr)
        ref.append(row(st))
        matched += sum(1 for i in st.post_order if i in st.pre and st.post[i].last != st.pre[i].last)
        # arrays handed out earlier keep their values
        for arr, val in kept:
            ctx.check(np.array_equal(arr, val), "an array returned earlier changed later", frame=st.k)
        kept = []
        for old, was in lists:
            ctx.check(len(old) == len(was) and all(a is b for a, b in zip(old, was)), "a list of objects returned earlier changed later", frame=st.k)
        active = A.tracker.get_active_objects()
        lists = (lists + [(st.ret_objs, list(st.ret_objs)), (active, list(active))])[-6:]
        for o in st.ret_objs[:3]:
            for arr in (o.estimate, o.estimate_velocity, o.live_points, o.get_estimate()):
                kept.append((arr, arr.copy()))
                ctx.count("snapshots")
    ctx.count("matched", matched)
    if alone:
        how, got = pristine.call(fresh_run, ctx.seed, ctx.index, ctx.tier)
        ctx.check(how == "ok", "the same history fails in a process without other trackers", error=got)
        for k, (x, want) in enumerate(zip(got, ref)):
            ctx.check(x == want, "what other trackers did earlier in the process changed the result", frame=k, **diff(want, x))
        ctx.count("fresh_processes")
    # 1. again
    B = trk.Recorder(nf, trk.clone(scn))
    for fr, want in zip(B.scn.frames, ref):
        st = B.step(fr)
        ctx.check(row(st) == want, "replaying the same history gave another result", frame=st.k, **diff(row(st), want))
    ctx.count("replays")
    # 2. interleaved with others
    C = trk.Recorder(nf, trk.clone(scn))
    others = []
    for _ in range(rng.choice([1, 2, 3])):
        o = trk.clone(scn) if rng.random() < 0.4 else gen(rng)
        shared = rng.random() < 0.5
        kw = {}
        rec = trk.Recorder(nf, o)
        if shared:
            # a second tracker of the same class built with the very same factory object
            t = rec.tracker
            args = dict(o.kw)
            if rec.rtable is not None:
                args["reid_distance_function"] = rec.rtable
                args["reid_distance_threshold"] = o.reid["T"]
            rec.tracker = nf.Tracker(distance_function=rec.table if rec.table is not None else o.dist, distance_threshold=o.T,
                                     filter_factory=C.factory, **args)
        others.append([rec, 0, []])
    for fr, want in zip(C.scn.frames, ref):
        for o in others:
            for _ in range(rng.choice([0, 1, 1, 2])):
                if o[1] < len(o[0].scn.frames):
                    o[0].step(o[0].scn.frames[o[1]])
                    o[1] += 1
                    ctx.count("interleaved_updates")
        st = C.step(fr)
        ctx.check(row(st) == want, "another tracker in the process changed the result", frame=st.k, **diff(row(st), want))
    # ... and with others that are given the very same detections (whose own `age` they share)
    S = Shared(nf, trk.clone(scn), ctx)
    for fr, want in zip(S.scn.frames, ref):
        got, want = without_ages(row(S.step(fr))), without_ages(want)
        ctx.check(got == want, "another tracker given the same detections changed the result", frame=S.k - 1, **diff(got, want))
    # 3. a caller that overwrites what it was given
    D = trk.Recorder(nf, trk.clone(scn))
    for fr, want in zip(D.scn.frames, ref):
        st = D.step(fr)
        ctx.check(row(st) == want, "overwriting returned arrays or lists changed what the tracker does", frame=st.k, **diff(row(st), want))
        for o in D.tracker.tracked_objects:
            arrs = [o.estimate, o.estimate_velocity, o.live_points, o.get_estimate(), o.get_estimate(absolute=False)]
            if fr.ct is not None:
                arrs.append(o.get_estimate(absolute=True))
            for a in arrs:
                if a.flags.writeable:
                    a[...] = True if a.dtype == bool else 1e9
                ctx.count("vandalized_arrays")
        st.ret_objs.append(None)
        st.ret_objs.clear()
        act = D.tracker.get_active_objects()
        act.clear()
        st.dets.clear()
    ctx.state(scn.style, scn.dist, scn.filter[0], len(others), bool(scn.reid))
    if matched:
        ctx.nontrivial(ctx.index, matched)
        ctx.sample = {**scn.describe(), "matched": matched, "other_trackers": len(others)}
