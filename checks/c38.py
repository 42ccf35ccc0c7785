"""C38: equivalent ways of saying the same thing give the same tracking."""
import numpy as np

from nfv import trk

PROP = "C38"
RULE = ("a seeded random history is replayed with the same values said differently: integer, single precision, strided, reversed-stride, "
        "column-major and read-only arrays, a lone point as [x, y] or [[x, y]], tuples for lists, None / [] / nothing for an empty frame, defaults "
        "left out or spelled out, distances by name, as functions or wrapped, filter factories built by hand; traces must be bitwise equal; "
        "non-trivial when objects were matched under another representation")
CASES = {"quick": 1300, "thorough": 16000}
FLOORS = {"own_class": 11000, "whole_scores": 160, "rewritten_detections": 77000, "matched": 31000, "variants": 1400, "one_dim": 12000,
          "empty_frames": 9200, "spelled_defaults": 2100, "same_distance": 97}

DEFAULTS = {"hit_counter_max": 15, "initialization_delay": None, "pointwise_hit_counter_max": 4, "detection_threshold": 0, "past_detections_length": 4,
            "reid_distance_function": None, "reid_distance_threshold": 0, "reid_hit_counter_max": None}


def array_variant(rng, a, scores=False):
    """The same numbers in another array."""
    a = np.asarray(a)
    opts = ["copy", "fortran", "strided", "reversed", "readonly", "view", "big"]
    if np.array_equal(a, np.round(a)) and np.abs(a).max(initial=0) < 2**31:
        opts += ["int64", "int32"]
        if scores and a.min(initial=0) >= 0 and a.max(initial=0) < 256:
            opts += ["uint8", "uint8"]
    if np.array_equal(a, a.astype(np.float32).astype(float)):
        opts += ["float32"]
    how = rng.choice(opts)
    if how == "copy":
        return a.copy()
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full(tuple(2 * n for n in a.shape), 7.25)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == "view":
        b = np.full((a.shape[0] + 2,) + a.shape[1:], -3.5)
        b[1:-1] = a
        return b[1:-1]
    if how == "big":
        return a.astype(">f8")
    return a.astype({"int64": np.int64, "int32": np.int32, "float32": np.float32, "uint8": np.uint8}[how])


class Variant(trk.Recorder):
    """Feeds the same history in another representation."""

    def __init__(self, nf, scn, ctx, **kw):
        super().__init__(nf, scn, **kw)
        self.ctx = ctx
        rng = ctx.rng
        # users derive their own detections
        self.own_class = type(rng.choice(["Player", "Box2"]), (nf.Detection,), {"team": "red"}) if rng.random() < 0.2 else None
        if rng.random() < 0.5:
            # build the tracker again with defaults spelled out, or left out where they coincide
            args = dict(scn.kw)
            if self.rtable is not None:
                args["reid_distance_function"] = self.rtable
                args["reid_distance_threshold"] = scn.reid["T"]
            for k, v in DEFAULTS.items():
                if k not in args and rng.random() < 0.7:
                    args[k] = v
                    ctx.count("spelled_defaults")
                elif k in args and args[k] == v and rng.random() < 0.7 and v is not None:
                    del args[k]
            if scn.filter[0] != "opt" or scn.filter[1] or rng.random() < 0.5:
                args["filter_factory"] = self.factory
            if rng.random() < 0.5 and args.get("initialization_delay") is None:
                args["initialization_delay"] = args.get("hit_counter_max", 15) // 2
            dist = self.table if self.table is not None else scn.dist
            if self.table is not None and rng.random() < 0.5:
                t = self.table
                dist = lambda d, o: t(d, o)  # noqa: E731
            elif self.table is None and scn.dist in ("frobenius", "mean_euclidean", "mean_manhattan") and rng.random() < 0.7:
                dist = getattr(nf.distances, scn.dist)
                ctx.count("same_distance")
            self.tracker = nf.Tracker(dist, scn.T, **args) if rng.random() < 0.5 else nf.Tracker(distance_threshold=scn.T, distance_function=dist, **args)

    def make_dets(self, fr):
        dets = []
        rng = self.ctx.rng
        for spec in fr.dets:
            d0 = spec.make(self.nf)
            p = np.asarray(spec.points)
            kw = {}
            if len(p) == 1 and rng.random() < 0.5:
                p = p[0]
                self.ctx.count("one_dim")
            if d0.scores is not None:
                kw["scores"] = array_variant(rng, spec.scores, scores=True)
            if spec.label is not None or rng.random() < 0.5:
                kw["label"] = spec.label
            p = array_variant(rng, p)
            cls = self.nf.Detection
            if self.own_class and rng.random() < 0.7:
                cls = self.own_class
                self.ctx.count("own_class")
            if rng.random() < 0.3:
                d = cls(p, kw.pop("scores", None), dict(d0.data), **kw)
            else:
                d = cls(points=p, data=dict(d0.data), **kw)
            dets.append(d)
            self.ctx.count("rewritten_detections")
        for spec, d in zip(fr.dets, dets):
            self.uid_obj[spec.uid] = d
        return dets

    def call(self, fr, dets):
        rng = self.ctx.rng
        kw = {}
        if fr.ct is not None:
            kw["coord_transformations"] = fr.ct
        elif rng.random() < 0.3:
            kw["coord_transformations"] = None
        if fr.period != 1 or rng.random() < 0.5:
            kw["period"] = rng.choice([int, np.int64])(fr.period)
        if not dets:
            self.ctx.count("empty_frames")
            r = rng.random()
            if r < 0.3:
                return self.tracker.update(**kw)
            return self.tracker.update(rng.choice([None, [], ()]), **kw)
        if rng.random() < 0.3:
            return self.tracker.update(detections=list(dets), **kw)
        return self.tracker.update(list(dets) if rng.random() < 0.6 else tuple(dets), **kw)


def row(st):
    return [((s.iid, s.id, s.age, s.hc, bool(s.init), s.last, tuple(s.past), tuple(s.past_age), tuple(s.live.tolist()), i in st.ret, s.label),
             s.ldist, s.est, s.vel) for i, s in st.post.items()], list(st.ret)


def same(a, b):
    """Equal, up to the rounding that the layout of an array in memory may change."""
    if a[1] != b[1] or len(a[0]) != len(b[0]):
        return False
    for (x, dx, ex, vx), (y, dy, ey, vy) in zip(a[0], b[0]):
        if x != y or not (trk.close(ex, ey, 1e-10) or trk.same(ex, ey)) or not (trk.close(vx, vy, 1e-10, max(1.0, float(np.abs(ex).max())))
                                                                               or trk.same(vx, vy)):
            return False
        if (dx is None) != (dy is None) or (dx is not None and not (trk.f32eq(dx, dy) or (dx != dx and dy != dy) or abs(dx - dy) < 1e-7)):
            return False
    return True


def case(ctx):
    rng, nf = ctx.rng, ctx.nf
    if rng.random() < 0.5:
        scn = trk.gen_table_scn(rng)
    else:
        scn = trk.gen_geo_scn(rng)
    if scn.reid and rng.random() < 0.3:
        scn.reid["T"] = 0  # the default
    style = rng.choice(["float", "whole", "single", "mixed", "mixed"])
    for f in scn.frames:
        for d in f.dets:
            if style == "whole" or style == "mixed" and rng.random() < 0.4:
                d.points = np.round(d.points)
            elif style == "single":
                d.points = d.points.astype(np.float32).astype(float)
            d.points = d.points + 0.0  # no negative zeros, which integers cannot say
    if rng.random() < 0.3 and any(d.scores is not None for f in scn.frames for d in f.dets):
        # scores as percentages or bytes
        unit = rng.choice([100, 200])
        for f in scn.frames:
            for d in f.dets:
                if d.scores is not None:
                    d.scores = np.clip(np.round(np.asarray(d.scores, dtype=float) * unit), 0, 255) + 0.0
        scn.kw["detection_threshold"] = rng.choice([unit // 2, 60, 30.5, scn.kw.get("detection_threshold", 0) * unit])
        ctx.count("whole_scores")
    scn.filter = rng.choice([("opt", {}), ("opt", {}), ("opt", {"R": 2.0}), ("filterpy", {}), ("none", {})])
    ctx.info = {"scenario": scn.describe(), "values": style}
    A = trk.Recorder(nf, scn)
    ref = []
    matched = 0
    for f in scn.frames:
        st = A.step(f)
        ref.append(row(st))
        matched += sum(1 for i in st.post_order if i in st.pre and st.post[i].last != st.pre[i].last)
    for _ in range(2):
        B = Variant(nf, trk.clone(scn), ctx)
        for fr, want in zip(B.scn.frames, ref):
            st = B.step(fr)
            ctx.check(same(row(st), want), "the same history said differently gave another result", frame=st.k, got=str(row(st))[:600],
                      expected=str(want)[:600])
        ctx.count("variants")
    ctx.count("matched", matched)
    ctx.state(scn.style, scn.dist, scn.filter[0], style, scn.npts, bool(scn.reid))
    if matched:
        ctx.nontrivial(ctx.index, matched)
        ctx.sample = dict(scn.describe(), values=style, matched=matched)
