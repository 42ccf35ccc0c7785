"""C04: different labels never match, and do not influence each other."""
import numpy as np

from nfv import trk

PROP = "C04"
RULE = ("seeded random histories with labels of many hashable types mixed in one frame (None, strings, ints, floats, bools, bytes, tuples "
        "built anew for each detection, frozensets), different numbers of points per label, every distance kind, optional "
        "re-identification; each history is also replayed with one label only and the objects of that label must behave the same; "
        "non-trivial when two labels were present and something matched")
CASES = {"quick": 2700, "thorough": 14000}
FLOORS = {"matched": 85000, "tempting_pairs": 75000, "label_replays": 3100, "vector_cases": 700, "reid_merges": 150}

POOLS = [["a", "b"], [1, 2, 3], [None, "a"], [None, "a", "b"], ["T12", "T13", "TX"], ["F1e9", "F0.25"], ["Scar:1", "Scar:2"], ["Z1,2", "Z2"],
         [1000, 2000, None], [True, 5], [1.5, -2.5, None], [b"a", "a"], [0, "", None], [3, "3", b"3"], ["None", None], ["bus", "busses"], [1, 11, 111],
         ["car", "car ", "Car"], ["", " ", "a"], ["\u00e9", "e\u0301", "e"], [2**40, 2**40 + 1], [10.0, 10.000001], [-1, -2, 0]]


def mk(lab):
    """Equal but not identical label objects for every detection."""
    if isinstance(lab, str) and lab[:1] == "T" and lab[1:2].isalnum() and len(lab) > 1:
        return tuple(c for c in lab[1:])
    if isinstance(lab, str) and lab[:1] == "F" and len(lab) > 1:
        return float(lab[1:])
    if isinstance(lab, str) and lab[:1] == "S":
        return lab[1:] + "".join([])
    if isinstance(lab, str) and lab[:1] == "Z":
        return frozenset(int(x) for x in lab[1:].split(","))
    if isinstance(lab, int) and not isinstance(lab, bool) and lab > 256:
        return int(str(lab))
    return lab


class Pt:
    """A user-defined hashable label type: equality by value."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Pt) and self.v == o.v

    def __hash__(self):
        return hash(self.v) % 2  # collisions on purpose

    def __repr__(self):
        return "Pt(%r)" % (self.v,)


def gen(rng, ctx_index):
    if rng.random() < 0.12:
        labs = ["P1", "P2", "P3"]
    else:
        labs = rng.choice(POOLS)
    vec = rng.random() < 0.45
    if ctx_index % 200 == 9:
        labs, vec = list(range(rng.choice([40, 300]))), True
        scn = trk.gen_crowd(rng, labels=labs)
    elif vec:
        scn = trk.gen_geo_scn(rng, labels=labs, maxtracks=6, spread=rng.choice([30.0, 120.0]), scores=False)
    else:
        scn = trk.gen_table_scn(rng, labels=labs, maxdets=6, reid=rng.random() < 0.35, scores=False)
        scn.dens = max(scn.dens, 0.5)
    extra = {}
    if vec and scn.dist not in ("iou", "iou_opt") and rng.random() < 0.5:
        # different number of points per label
        per = {lab: rng.choice([1, 2, 3, 4]) for lab in labs}
        for f in scn.frames:
            for d in f.dets:
                d.points = np.repeat(d.points[:1], per[d.label], axis=0) + np.arange(per[d.label])[:, None]
    for f in scn.frames:
        for d in f.dets:
            d.embedding = None
            d.tid = d.label  # abstract label
            d.label = Pt(d.label) if isinstance(d.label, str) and d.label[:1] == "P" else mk(d.label)
    return scn, vec, labs, extra


def drop_birth(trace):
    return {b: rows for b, rows in trace.items()}


def trace_of(rec, scn, ctx, only=None):
    """{birth uid: rows of what happened to that object}"""
    rows = {}
    matches = 0
    for fr in scn.frames:
        st = rec.step(fr)
        for i in st.post_order:
            s = st.post[i]
            rows.setdefault(rec.birth[i], []).append(
                (st.k, s.age, s.hc, s.init, s.last, s.ldist, tuple(s.past), s.live.tolist(), s.est, s.vel, i in st.ret, s.label))
        yield st, rows


def case(ctx):
    rng = ctx.rng
    scn, vec, labs, _ = gen(rng, ctx.index)
    ctx.info = {"scenario": scn.describe(), "labels": [repr(x) for x in labs]}
    rec = trk.Recorder(ctx.nf, scn, record_filter=not vec)
    labels = {}
    rows = {}
    matched = 0
    for st, rows in trace_of(rec, scn, ctx):
        k = st.k
        st.decode(ctx)
        byuid = {d.uid: d for d in st.specs}
        if not vec:
            st.decode_filters(ctx, rec)
            direct = st.direct
        else:
            direct = st.taken
        for u, i in direct.items():
            ctx.check(byuid[u].label == st.pre[i].label, "a detection was matched to an object of another label", frame=k, uid=u,
                      detection_label=repr(byuid[u].label), object_label=repr(st.pre[i].label))
            matched += 1
        if not vec:
            for c, o in st.merged.items():
                ctx.check(st.pre[c].label == st.pre[o].label, "re-identification joined objects of different labels", frame=k,
                          labels=[repr(st.pre[c].label), repr(st.pre[o].label)])
                ctx.count("reid_merges")
            for u in byuid:
                for i in st.pre_order:
                    if byuid[u].label != st.pre[i].label and trk.below(rec.table.value(u, rec.birth[i]), scn.T):
                        ctx.count("tempting_pairs")
        for i in st.post_order:
            s = st.post[i]
            if i in labels:
                ctx.check(s.label is labels[i] or s.label == labels[i], "the label of an object changed", frame=k, iid=i,
                          was=repr(labels[i]), now=repr(s.label))
                ctx.check(type(s.label) is type(labels[i]), "the label of an object changed its type", frame=k, iid=i)
            else:
                labels[i] = s.label
                ctx.check(s.label == byuid[s.last].label, "a new object does not carry its detection's label", frame=k, iid=i)
    ctx.count("matched", matched)
    present = sorted({repr(d.tid) for f in scn.frames for d in f.dets})
    if vec:
        ctx.count("vector_cases")
    # one label alone behaves the same
    for lab in rng.sample(present, min(len(present), 3 if len(present) < 20 else 8)):
        sub = trk.clone(scn)
        for f in sub.frames:
            f.dets = [d for d in f.dets if repr(d.tid) == lab]
        mine = {d.uid for f in sub.frames for d in f.dets}
        rec2 = trk.Recorder(ctx.nf, sub)
        rows2 = {}
        for _, rows2 in trace_of(rec2, sub, ctx):
            pass
        a = {b: r for b, r in rows.items() if b in mine}
        ctx.check(set(a) == set(rows2), "detections of one label start other objects when other labels are present", label=lab,
                  together=sorted(a), alone=sorted(rows2))
        for b in a:
            ctx.check(len(a[b]) == len(rows2[b]), "an object lives for another time when other labels are present", label=lab, object=b,
                      together=len(a[b]), alone=len(rows2[b]))
            for x, y in zip(a[b], rows2[b]):
                ctx.check(x[:5] == y[:5] and trk.f32eq(x[5], y[5]) and x[6:8] == y[6:8] and x[10] == y[10] and trk.close(x[8], y[8], 1e-7)
                          and trk.close(x[9], y[9], 1e-7),
                          "an object behaves differently when other labels are present", label=lab, object=b, together=x[:8] + x[10:11],
                          alone=y[:8] + y[10:11])
        ctx.count("label_replays")
    ctx.state(scn.dist, tuple(present), bool(scn.reid))
    if matched and len(present) > 1:
        ctx.nontrivial(ctx.index, matched)
        ctx.sample = {**scn.describe(), "labels": present, "matched": matched}
