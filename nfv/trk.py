"""Tracker workloads and the recorder that turns every update into an event.

A Scn is a plain-data history (parameters + frames of detection specs).  run() executes it on the real Tracker and yields
Steps: snapshots of the public state before and after each update, the returned list, the calls that norfair made to the
user's distance / re-id functions and the create / predict / update calls that reached the user's filter factory.
Detections carry a unique uid in `data`, so histories are unambiguous.
"""
import copy
import hashlib
import math
import random
import struct

import numpy as np


# ----------------------------------------------------------------------------------------------------------------- specs
class DetSpec:
    __slots__ = ("uid", "points", "scores", "label", "tid", "rank1", "embedding")

    def __init__(self, uid, points, scores=None, label=None, tid=None, rank1=False, embedding=None):
        self.uid, self.points, self.scores, self.label, self.tid = uid, points, scores, label, tid
        self.rank1 = rank1
        self.embedding = embedding

    def make(self, nf, abs_points=None):
        p = (self.points if abs_points is None else abs_points).copy()
        if self.rank1 and len(p) == 1:
            p = p[0]
        s = None if self.scores is None else self.scores.copy()
        return nf.Detection(p, scores=s, data={"uid": self.uid}, label=self.label, embedding=self.embedding)

    def brief(self):
        return {"uid": self.uid, "points": np.round(self.points, 3).tolist(),
                "scores": None if self.scores is None else np.round(self.scores, 3).tolist(), "label": repr(self.label)}


class Frame:
    __slots__ = ("dets", "period", "empty", "ct")

    def __init__(self, dets, period=1, empty="none", ct=None):
        self.dets, self.period, self.empty, self.ct = dets, period, empty, ct


class Scn:
    def __init__(self):
        self.kw = {}
        self.frames = []
        self.dist = "table"
        self.T = 1.0
        self.tseed = 0
        self.dens = 0.5
        self.vals = "mixed"
        self.reid = None  # None or {"T":, "dens":}
        self.filter = ("opt", {})
        self.npts = 1
        self.dim = 2
        self.style = ""

    def describe(self):
        return {"params": dict(self.kw), "distance": self.dist, "threshold": self.T, "reid": self.reid, "filter": self.filter,
                "style": self.style, "frames": len(self.frames), "dets": sum(len(f.dets) for f in self.frames),
                "periods": sorted({f.period for f in self.frames})}


def h01(*key):
    """Deterministic hash of key to [0, 1)."""
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return struct.unpack("<Q", d)[0] / 2.0**64


# --------------------------------------------------------------------------------------------------------- table distance
def table_value(tseed, T, dens, vals, a, b, f):
    """Distance of pair (a, b) in frame f: a pure function, with ties, zeros, negatives, exact-threshold values, infinities."""
    u = h01(tseed, a, b, f)
    w = h01(tseed, "w", a, b, f)
    fT = float(T)
    if math.isinf(fT):
        below = [0.0, 0.25, 1.0, 5.0, 1e6, 3e38, w * 100, w]
        above = [math.inf]
        if fT < 0:
            below, above = [], [0.0, -1.0, math.inf, w]
    else:
        span = abs(fT) if fT else 1.0
        nb = float(np.nextafter(np.float32(fT), np.float32(-np.inf)))
        na = float(np.nextafter(np.float32(fT), np.float32(np.inf)))
        if vals == "distinct":
            # the pair identity is mixed in, so that no two are equal (up to hash collisions)
            below = [fT - span * (0.001 + 0.99 * w)]
            above = [fT + span * (0.001 + 5 * w), math.inf]
        elif vals == "ties":
            below = [fT - span, fT - span / 2, fT - span / 4]
            above = [float(np.float32(fT)), fT + span, math.inf]
        else:
            below = [fT - span, fT - span * w, fT - span * w, fT - span * w * w, nb, fT - span * 0.5, fT - span * (1 + w)]
            above = [float(np.float32(fT)), na, fT + span * w + span * 1e-3, fT + 10 * span, math.inf]
    pick = below if (u < dens and below) or not above else above
    v = pick[int(h01(tseed, "p", a, b, f) * len(pick))]
    return float(np.float32(v))


VALTYPES = (float, np.float64, np.float32)


class Table:
    """User-side scalar distance function backed by the table; records its calls."""

    def __init__(self, scn, who="det"):
        self.scn, self.who = scn, who
        self.frame = 0
        self.calls = []
        self.birth = {}  # initializing id -> uid of the detection that started the object

    def value(self, a, b):
        s = self.scn
        if self.who == "det":
            return table_value(s.tseed, s.T, s.dens, s.vals, a, b, self.frame)
        return table_value(("r", s.tseed), s.reid["T"], s.reid["dens"], s.reid.get("vals", "mixed"), a, b, self.frame)

    def __call__(self, cand, obj):
        a = cand.data["uid"] if self.who == "det" else self.birth[cand.initializing_id]
        b = self.birth[obj.initializing_id]
        v = self.value(a, b)
        self.calls.append((cand.data["uid"] if self.who == "det" else cand.initializing_id, obj.initializing_id, v))
        # callers may return any real type
        k = int(h01("t", a, b) * 4)
        if k == 3 and v == v and abs(v) < 1e9 and v == int(v):
            return int(v)
        return VALTYPES[k % 3](v)


# ------------------------------------------------------------------------------------------------------- recording filter
class RecFilter:
    def __init__(self, owner, fid, inner):
        self.__dict__["_o"], self.__dict__["fid"], self.__dict__["inner"] = owner, fid, inner

    @property
    def x(self):
        return self.inner.x

    @x.setter
    def x(self, v):
        self.inner.x = v

    def predict(self, *a, **k):
        self._o.events.append(("predict", self.fid, None, None))
        return self.inner.predict(*a, **k)

    def update(self, z, R=None, H=None, *a, **k):
        self._o.events.append(("update", self.fid, np.array(z, dtype=float).copy().ravel(),
                               None if H is None else np.array(H, dtype=float).copy()))
        return self.inner.update(z, R, H, *a, **k)

    def __getattr__(self, n):
        return getattr(self.inner, n)

    def __setattr__(self, n, v):
        if n == "x":
            self.inner.x = v
        else:
            setattr(self.inner, n, v)


def make_filter_factory(nf, spec):
    kind, kw = spec
    from norfair import filter as F

    return {"opt": F.OptimizedKalmanFilterFactory, "filterpy": F.FilterPyKalmanFilterFactory, "none": F.NoFilterFactory}[kind](**kw)


def rec_factory(nf, spec):
    """A user-defined filter factory that wraps one of norfair's and records what reaches it."""
    from norfair.filter import FilterFactory

    inner = make_filter_factory(nf, spec)

    class Rec(FilterFactory):
        def __init__(self):
            self.events = []
            self.n = 0

        def create_filter(self, initial_detection):
            fid = self.n
            self.n += 1
            self.events.append(("create", fid, np.array(initial_detection, dtype=float).copy(), None))
            return RecFilter(self, fid, inner.create_filter(initial_detection))

    return Rec()


# ------------------------------------------------------------------------------------------------------------------ state
class Snap:
    __slots__ = ("iid", "id", "gid", "age", "hc", "init", "last", "ldist", "past", "past_age", "live", "est", "vel", "label", "obj",
                 "abs", "last_age")


def uid_of(det):
    return None if det is None else det.data["uid"]


def snap(o, with_abs=False):
    s = Snap()
    s.iid, s.id, s.gid, s.age, s.hc, s.init = o.initializing_id, o.id, o.global_id, o.age, o.hit_counter, o.is_initializing
    s.last = uid_of(o.last_detection)
    s.last_age = o.last_detection.age
    s.ldist = None if o.last_distance is None else float(o.last_distance)
    s.past = [uid_of(d) for d in o.past_detections]
    s.past_age = [d.age for d in o.past_detections]
    s.live = np.array(o.live_points).copy()
    s.est = np.array(o.estimate, dtype=float).copy()
    s.vel = np.array(o.estimate_velocity, dtype=float).copy()
    s.abs = np.array(o.get_estimate(absolute=True), dtype=float).copy() if with_abs else None
    s.label = o.label
    s.obj = o
    return s


class Step:
    """Everything observed about one update."""

    def __init__(self):
        self.k = self.period = None
        self.specs = []
        self.dets = None
        self.pre = {}
        self.post = {}
        self.pre_order = []
        self.post_order = []
        self.ret = []
        self.ret_objs = None
        self.dist_calls = []
        self.reid_calls = []
        self.events = []

    # -- decoding: who took which detection ---------------------------------------------------------------------------
    def decode(self, ctx):
        """Sets
        taken:   {uid: iid of the object that was hit with it (before any re-identification)}
        started: {uid: iid of the new object it started}
        merged:  {iid of a candidate that disappeared by re-identification: iid of the object that continues}
        holder:  {uid: iid of the object that holds it after the update}
        """
        uids = {d.uid for d in self.specs}
        self.holder = {}
        dup = None
        for iid in self.post_order:
            u = self.post[iid].last
            if u in uids:
                if u in self.holder:
                    dup = (u, self.holder[u], iid)
                self.holder[u] = iid
        ctx.check(dup is None, "one detection is held by two objects after the update", frame=self.k, dup=dup)
        new = [i for i in self.post_order if i not in self.pre]
        gone = [i for i in self.pre_order if i not in self.post]
        self.new, self.gone = new, gone
        self.started = {self.post[i].last: i for i in new}
        self.merged = {}
        self.taken = {u: i for u, i in self.holder.items() if i not in set(new)}
        return self

    def decode_filters(self, ctx, rec):
        """With recording filters: which object received which detection, before re-identification.

        Sets direct {uid: iid}, and completes merged {candidate iid: old iid}."""
        self.direct = {}
        flat = {d.uid: np.asarray(rec.uid_obj[d.uid].absolute_points, dtype=float).ravel() for d in self.specs}
        nupd = {}
        for kind, fid, z, H in self.events:
            if kind != "update":
                continue
            iid = rec.owner.get(fid)
            ctx.check(iid is not None, "a filter that belongs to no object was updated", frame=self.k, filter=fid)
            hits = [u for u, p in flat.items() if p.shape == z.shape and np.array_equal(p, z)]
            ctx.check(len(hits) >= 1, "a filter was updated with something that is not the points of a detection of this frame",
                      frame=self.k, measured=z, object=iid)
            if len(hits) > 1:
                # several detections of this frame lie at one place: which of them this object took is told by who holds it afterwards
                free = [u for u in hits if u not in self.direct and u not in self.started]
                hits = ([u for u in free if self.holder.get(u) == iid]
                        or [u for u in free if getattr(getattr(self.post[self.holder[u]].obj, "filter", None), "fid", None) == fid
                            if u in self.holder] or [u for u in free if self.holder.get(u) not in rec.owner.values()] or free or hits)
            ctx.check(hits[0] not in self.direct, "two filters were updated with the same detection", frame=self.k, uid=hits[0],
                      objects=[self.direct.get(hits[0]), iid])
            self.direct[hits[0]] = iid
            nupd[iid] = nupd.get(iid, 0) + 1
        ctx.check(all(v == 1 for v in nupd.values()), "an object's filter was updated more than once in one update", frame=self.k,
                  updates=nupd)
        self.merged = {}
        for u, iid in self.direct.items():
            h = self.holder.get(u)
            if h is not None and h != iid:
                self.merged[iid] = h
        if self.merged:
            old_to_fid = {}
            for c, o in self.merged.items():
                for fid, i in list(rec.owner.items()):
                    if i == c:
                        old_to_fid[fid] = o
            for fid, i in list(rec.owner.items()):
                if i in self.merged.values() and fid not in old_to_fid:
                    del rec.owner[fid]
            rec.owner.update(old_to_fid)
        return self


def below(d, T):
    """Is distance d strictly below threshold T?  None when only rounding of T to float32 decides."""
    a, b = float(d) < float(T), float(d) < float(np.float32(T))
    return a if a == b else None


def greedy_ok(ctx, what, step, cands, objs, dist, T, match, eps=0.0, **detail):
    """match {cand: obj} must be an outcome of taking pairs nearest first, strictly below T (any order among ties)."""
    inv = {}
    for c, o in match.items():
        ctx.check(o not in inv, what + ": two candidates matched one object", frame=step, **detail)
        inv[o] = c
        d = dist(c, o)
        ctx.check(d is not None, what + ": matched a pair that must not be compared (labels differ)", frame=step, pair=(c, o), **detail)
        b = below(d - eps, T)
        ctx.check(b is not False, what + ": matched a pair that is not strictly below the threshold", frame=step, pair=(c, o), distance=d,
                  threshold=T, **detail)
    n = 0
    for c in cands:
        dc = dist(c, match[c]) if c in match else None
        for o in objs:
            if match.get(c) == o:
                continue
            d = dist(c, o)
            if d is None or below(d + eps, T) is not True:
                continue
            n += 1
            do = dist(inv[o], o) if o in inv else None
            ok = (dc is not None and dc <= d + eps) or (do is not None and do <= d + eps)
            ctx.check(ok, what + ": a nearer pair below the threshold was passed over", frame=step, pair=(c, o), distance=d, threshold=T,
                      candidate_got=(match.get(c), dc), object_got=(inv.get(o), do), **detail)
    return n


class Recorder:
    """Runs a scenario on a real tracker, one frame at a time."""

    def __init__(self, nf, scn, record_filter=False, with_abs=False, fast=False):
        self.nf, self.scn = nf, scn
        self.with_abs = with_abs
        self.table = Table(scn) if scn.dist == "table" else None
        self.rtable = Table(scn, "obj") if scn.reid and scn.reid.get("fn", True) else None
        self.factory = rec_factory(nf, scn.filter) if record_filter else make_filter_factory(nf, scn.filter)
        self.rec = record_filter
        kw = dict(scn.kw)
        if self.rtable is not None:
            kw["reid_distance_function"] = self.rtable
            kw["reid_distance_threshold"] = scn.reid["T"]
        kw["filter_factory"] = self.factory
        dist = self.table if self.table is not None else scn.dist
        self.tracker = nf.Tracker(distance_function=dist, distance_threshold=scn.T, **kw)
        self.k = 0
        self.prev_post = {}
        self.prev_order = []
        self.uid_obj = {}
        self.birth = {}
        self.owner = {}  # filter id -> initializing id of the object that uses it (recording filters only)
        for t in (self.table, self.rtable):
            if t is not None:
                t.birth = self.birth

    def make_dets(self, fr):
        dets = [d.make(self.nf) for d in fr.dets]
        for spec, d in zip(fr.dets, dets):
            self.uid_obj[spec.uid] = d
        return dets

    def call(self, fr, dets):
        kw = {}
        if fr.ct is not None:
            kw["coord_transformations"] = fr.ct
        if fr.period != 1 or self.k % 2:
            kw["period"] = fr.period
        if dets:
            return self.tracker.update(dets, **kw)
        if fr.empty == "none":
            return self.tracker.update(None, **kw)
        if fr.empty == "list":
            return self.tracker.update([], **kw)
        return self.tracker.update(**kw)

    def step(self, fr):
        st = Step()
        st.k, st.period, st.specs = self.k, fr.period, fr.dets
        for t in (self.table, self.rtable):
            if t is not None:
                t.frame, t.calls = self.k, []
        st.pre, st.pre_order = self.prev_post, self.prev_order
        nev = len(self.factory.events) if self.rec else 0
        dets = self.make_dets(fr)
        st.dets = dets
        st.ret_objs = self.call(fr, dets)
        st.ret = [o.initializing_id for o in st.ret_objs]
        st.objs = list(self.tracker.tracked_objects)
        st.post_order = [o.initializing_id for o in st.objs]
        st.post = {}
        for o in st.objs:
            st.post[o.initializing_id] = snap(o, self.with_abs)
            if o.initializing_id not in self.birth:
                self.birth[o.initializing_id] = uid_of(o.last_detection)
        if self.table is not None:
            st.dist_calls = list(self.table.calls)
        if self.rtable is not None:
            st.reid_calls = list(self.rtable.calls)
        if self.rec:
            st.events = self.factory.events[nev:]
            # filters are created for new objects: pair them by the position they start from
            made = [(e[1], e[2]) for e in st.events if e[0] == "create"]
            new = sorted(i for i in st.post_order if i not in st.pre)  # several may start at one position: both are numbered on creation
            for fid, z in made:
                for i in new:
                    d = self.uid_obj[st.post[i].last]
                    if i not in self.owner.values() and np.array_equal(np.asarray(d.absolute_points, dtype=float), z):
                        self.owner[fid] = i
                        break
        self.prev_post, self.prev_order = st.post, st.post_order
        self.k += 1
        return st

    def run(self):
        for fr in self.scn.frames:
            yield self.step(fr)


# -------------------------------------------------------------------------------------------------------------- generators
THRESHOLDS = [1.0, 0.5, 2.5, 10.0, 100.0, 0.1]
HOSTILE_THRESHOLDS = [0.0, -1.0, math.inf, 1e9, 1000000020.0, 3e38, 1e-30]


def gen_params(rng, reid=None, hcm=None):
    """Random but valid Tracker parameters (without the functions)."""
    kw = {}
    big = rng.random() < 0.06  # values beyond any byte-sized or hard-coded limit
    m = hcm or rng.choice([1, 2, 2, 3, 4, 5, 8, 15])
    if big and hcm is None:
        m = rng.choice([40, 100, 300])
    if rng.random() < 0.9:
        kw["hit_counter_max"] = m
    else:
        m = 15
    if rng.random() < 0.7:
        kw["initialization_delay"] = rng.choice([0, 0, rng.randrange(m), m - 1, min(1, m - 1)])
    if rng.random() < 0.7:
        kw["pointwise_hit_counter_max"] = rng.choice([20, 150, 300]) if big else rng.choice([1, 2, 3, 4, 7])
    if rng.random() < 0.7:
        kw["past_detections_length"] = rng.choice([10, 20, 40]) if big else rng.choice([0, 1, 2, 3, 4, 6])
    return kw


def gen_periods(rng, n):
    style = rng.random()
    if style < 0.5:
        return [1] * n
    if style < 0.7:
        p = rng.choice([2, 3, 5])
        return [p] * n
    if style > 0.94:
        return [rng.choice([1, 10, 40, 130]) for _ in range(n)]
    return [rng.choice([1, 1, 2, 3, 6]) for _ in range(n)]


def gen_labels(rng):
    style = rng.random()
    if style < 0.5:
        return [None]
    pools = [["a", "b"], [1, 2, 3], [None, "a"], [("x", 1), ("x", 2)], [frozenset([1]), "z", 0, None], [1000, 2000], ["car"],
             [True, 5], [1.5, 2.5], [b"a", "a"], [-1, -2], [0, 2**61 - 1], ["", None], ["a", "A"]]
    return rng.choice(pools)


def gen_scores(rng, n, thr=0.0, style=None):
    """Scores around the detection threshold, including exactly on it."""
    style = style if style is not None else rng.random()
    if style < 0.35:
        return None
    out = []
    for _ in range(n):
        r = rng.random()
        out.append(thr + rng.random() if r < 0.6 else thr if r < 0.75 else thr - rng.random() if r < 0.95 else 0.0)
    return np.array(out, dtype=float)


def presence(rng, n):
    """On/off pattern of one detected thing over n frames: bursts, gaps, blinking, long silences."""
    style = rng.random()
    if style < 0.35:
        p = rng.choice([0.95, 0.8, 0.5])
        return [rng.random() < p for _ in range(n)]
    if style < 0.5:
        return [True] * n
    out, on = [], rng.random() < 0.7
    while len(out) < n:
        ln = rng.choice([1, 2, 3, 5, 8, 15]) if on else rng.choice([1, 2, 4, 8, 16])
        out += [on] * ln
        on = not on
    return out[:n]


def gen_table_scn(rng, nframes=None, maxdets=5, reid=None, labels=None, hostile_T=0.15, npts=None, dim=None, hcm=None, vals=None,
                  scores=True, silence=True, mindets=1, always=False):
    """Histories whose distances come from a table: any matching structure, independent of geometry."""
    s = Scn()
    s.style = "table"
    s.kw = gen_params(rng, hcm=hcm)
    s.dist = "table"
    s.T = rng.choice(HOSTILE_THRESHOLDS) if rng.random() < hostile_T else rng.choice(THRESHOLDS)
    s.tseed = rng.getrandbits(48)
    s.dens = rng.choice([0.15, 0.3, 0.5, 0.7, 0.9, 1.0])
    s.vals = vals or rng.choice(["mixed", "mixed", "ties", "distinct"])
    if reid is None:
        reid = rng.random() < 0.25
    if reid:
        s.reid = {"T": rng.choice([1.0, 5.0, 0.5, math.inf]), "dens": rng.choice([0.1, 0.3, 0.6, 0.9]),
                  "vals": rng.choice(["mixed", "ties", "distinct"])}
        r = rng.random()
        if r < 0.85:
            s.kw["reid_hit_counter_max"] = rng.choice([0, 1, 2, 3, 5, 10])
            if r > 0.8:
                s.reid["fn"] = False
    n = nframes or rng.choice([12, 20, 30, 45])
    s.npts = npts or rng.choice([1, 1, 2, 2, 3, 5])
    s.dim = dim or rng.choice([2, 2, 2, 3])
    thr = 0.0
    if scores and rng.random() < 0.5:
        thr = rng.choice([0.0, 0.3, 0.5, -1.0])
        if thr or rng.random() < 0.5:
            s.kw["detection_threshold"] = thr
    labs = gen_labels(rng) if labels is None else labels
    periods = gen_periods(rng, n)
    tracks = [(presence(rng, n), rng.choice(labs)) for _ in range(rng.randint(mindets, maxdets))]
    if always:
        tracks = [([True] * n, lab) for _, lab in tracks]
    npl = {}
    if len(labs) > 1 and rng.random() < 0.3 and npts is None:
        npl = {lab: rng.choice([1, 2, 3, 4]) for lab in labs}
    score_style = rng.random() if scores else 0.0
    uid = 0
    for k in range(n):
        dets = []
        for ti, (pat, lab) in enumerate(tracks):
            if pat[k]:
                m = npl.get(lab, s.npts)
                pts = np.array([[rng.uniform(-500, 500) for _ in range(s.dim)] for _ in range(m)])
                sc = gen_scores(rng, m, thr, score_style if rng.random() < 0.9 else None) if scores else None
                dets.append(DetSpec(uid, pts, sc, lab, ti, rank1=(m == 1 and rng.random() < 0.3)))
                uid += 1
        rng.shuffle(dets)
        s.frames.append(Frame(dets, periods[k], rng.choice(["none", "list", "noarg"])))
    if silence and rng.random() < 0.5:
        for _ in range(rng.choice([3, 10, 25])):
            s.frames.append(Frame([], rng.choice([1, 1, 2]), rng.choice(["none", "list", "noarg"])))
    return spice(rng, s)


def gen_long(rng, reid=False, scores=False, npts=None, maxdets=2, nframes=None, **more):
    """One or two objects seen for more than a thousand frames (ages and counters beyond any byte-sized or round limit)."""
    s = gen_table_scn(rng, nframes=nframes or rng.choice([1100, 1300, 1600]), maxdets=maxdets, reid=reid, labels=[None], hostile_T=0.0,
                      npts=npts or rng.choice([1, 1, 2]), hcm=rng.choice([4, 8, 15, 15, 60, 200]), scores=scores, silence=True, always=True, **more)
    s.dens, s.T = 1.0, rng.choice([1.0, 2.5, 100.0])
    holes = rng.choice([0.0, 0.01, 0.1])
    for f in s.frames:
        if rng.random() < holes:
            f.dets = []
        if f.period > 3:
            f.period = 3
    s.style += "+long"
    return s


def spice(rng, s):
    """Ordinary but special coordinates: the exact origin, zero coordinates, whole numbers, two detections at one place."""
    style = rng.random()
    if style < 0.6:
        return s
    r = random.Random(rng.getrandbits(48))
    what = r.choice(["dup", "dup", "origin", "zero", "whole", "all"])
    p = r.choice([0.1, 0.3, 0.6])
    for f in s.frames:
        for j, d in enumerate(f.dets):
            if what in ("whole", "all"):
                d.points = np.round(d.points)
            if what in ("origin", "all") and r.random() < p:
                d.points = d.points.copy()
                d.points[r.randrange(len(d.points))] = 0.0
            if what in ("zero", "all") and r.random() < p:
                d.points = d.points.copy()
                d.points[r.randrange(len(d.points)), r.randrange(d.points.shape[1])] = 0.0
            if what in ("dup", "all") and j and r.random() < p:
                q = f.dets[r.randrange(j)]
                if q.points.shape == d.points.shape:
                    d.points = q.points.copy()
    s.style += "+" + what
    return s


GEO_DISTS_POINT = ["euclidean", "cityblock", "chebyshev", "frobenius", "mean_euclidean", "mean_manhattan"]


def gen_geo_scn(rng, nframes=None, maxtracks=5, box=None, npts=None, dim=None, dist=None, labels=None, scores=None, hcm=None,
                clutter=0.1, spread=400.0, noise=1.0, speed=4.0, distinct=True):
    """Moving objects with noise, gaps and clutter, tracked with the predefined distances."""
    s = Scn()
    s.style = "geo"
    s.kw = gen_params(rng, hcm=hcm or rng.choice([3, 5, 8, 15]))
    n = nframes or rng.choice([15, 25, 40])
    if box is None:
        box = rng.random() < 0.3
    if box:
        s.npts, s.dim = 2, 2
        s.dist = dist or rng.choice(["iou", "iou", "euclidean", "mean_euclidean"])
    else:
        s.npts, s.dim = npts or rng.choice([1, 1, 2, 3, 5]), dim or rng.choice([2, 2, 3])
        s.dist = dist or rng.choice(GEO_DISTS_POINT)
    s.T = 0.7 if s.dist in ("iou", "iou_opt") else 30.0 * (s.npts if s.dist in ("cityblock",) else 1) * (1.5 if s.npts > 2 else 1)
    thr = 0.0
    if scores is None:
        scores = rng.random() < 0.4
    if scores:
        thr = rng.choice([0.0, 0.3, 0.5])
        s.kw["detection_threshold"] = thr
    labs = gen_labels(rng) if labels is None else labels
    periods = gen_periods(rng, n)
    tracks = []
    g = np.random.default_rng(rng.getrandbits(48))
    for ti in range(rng.randrange(1, maxtracks + 1)):
        pos = g.uniform(0, spread, s.dim)
        vel = g.normal(0, speed / 2, s.dim)
        if box:
            w, h = g.uniform(20, 80, 2)
            shape = np.array([[0, 0], [w, h]])
        else:
            shape = g.uniform(-20, 20, (s.npts, s.dim))
        tracks.append([pos, vel, shape, presence(rng, n), rng.choice(labs)])
    uid = 0
    score_style = 0.9 if scores else 0.0
    for k in range(n):
        dets = []
        for ti, tr in enumerate(tracks):
            tr[0] = tr[0] + tr[1]
            if g.random() < 0.05:
                tr[1] = g.normal(0, speed / 2, s.dim)
            if tr[3][k]:
                pts = tr[0] + tr[2] + g.normal(0, noise, tr[2].shape)
                if box:
                    pts = np.array([pts.min(axis=0), np.maximum(pts.max(axis=0), pts.min(axis=0) + 2)])
                dets.append(DetSpec(uid, pts, gen_scores(rng, len(pts), thr, score_style), tr[4], ti))
                uid += 1
        if g.random() < clutter:
            pts = g.uniform(0, spread, s.dim) + tracks[0][2]
            dets.append(DetSpec(uid, pts, gen_scores(rng, len(pts), thr, score_style), rng.choice(labs), -1))
            uid += 1
        rng.shuffle(dets)
        s.frames.append(Frame(dets, periods[k], rng.choice(["none", "list", "noarg"])))
    return s if box or rng.random() < 0.5 else spice(rng, s)


def gen_crowd(rng, n=None, nframes=None, labels=None, npts=None, dim=2, dist=None, scores=False):
    """Hundreds of detections per frame, more than any byte-sized or block-sized limit, each near its own place."""
    s = Scn()
    s.style = "crowd"
    n = n or rng.choice([270, 300, 530])
    m = rng.choice([2, 3, 4])
    s.kw = {"hit_counter_max": m, "initialization_delay": rng.choice([0, 1]), "past_detections_length": rng.choice([0, 1, 4])}
    s.npts, s.dim = npts or rng.choice([1, 1, 2]), dim
    s.dist = dist or rng.choice(["euclidean", "chebyshev", "cityblock"])
    s.T = 40.0
    side = int(math.ceil(math.sqrt(n)))
    order = list(range(n))
    rng.shuffle(order)
    labs = labels or [None]
    g = np.random.default_rng(rng.getrandbits(48))
    lab = [rng.choice(labs) for _ in range(n)]
    shape = g.uniform(-5, 5, (n, s.npts, dim))
    uid = 0
    p = rng.choice([1.0, 0.9, 0.6])
    for k in range(nframes or rng.choice([4, 6])):
        dets = []
        for j in order:
            if k and rng.random() > p:
                continue
            pos = np.zeros(dim)
            pos[0], pos[1] = (j % side) * 60.0, (j // side) * 60.0
            dets.append(DetSpec(uid, pos + shape[j] + g.normal(0, 1.0, (s.npts, dim)), gen_scores(rng, s.npts, 0.0, 0.9) if scores else None, lab[j], j))
            uid += 1
        if k % 2:
            rng.shuffle(dets)
        s.frames.append(Frame(dets, 1, "none"))
    for _ in range(rng.choice([0, m + 2])):
        s.frames.append(Frame([], 1, "none"))
    return s


# ----------------------------------------------------------------------------------------------------------- comparisons
def same(a, b):
    """Bitwise equality of arrays / None (NaN equal to NaN)."""
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def close(a, b, tol=1e-6, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return False
    sc = max(1.0, float(np.abs(b).max()), float(np.abs(a).max())) if scale is None else scale
    return bool((np.abs(a - b) <= tol * sc).all())


def f32eq(a, b):
    """Equal up to the float32 storage of the distance matrix (and reordering of arithmetic)."""
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 2e-6 * max(1e-30, abs(a), abs(b))


def brief_history(scn, upto, n=6):
    fr = scn.frames[max(0, upto - n + 1): upto + 1]
    return [{"dets": [d.brief() for d in f.dets], "period": f.period} for f in fr]


def clone(scn):
    return copy.deepcopy(scn)
