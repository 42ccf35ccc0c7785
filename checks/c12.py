"""C12: past_detections is a bounded, chronological sample of real matches."""
from nfv import trk

PROP = "C12"
RULE = ("seeded random histories (some long, up to 200 frames) over past_detections_length; every object's past_detections and ages are "
        "compared after every update with the documented replacement rule; with re-identification only bound, order-independent membership "
        "and absence of repeats are checked; non-trivial when the oldest entry was replaced")
CASES = {"quick": 4200, "thorough": 20000}
FLOORS = {"used_again": 6300, "replacements": 50000, "kept_back": 100000, "fills": 29000, "length_zero": 230, "entries": 1500000}


def reused(ctx):
    """Detections that are used again and again, also by another tracker (only the object's own history counts)."""
    import numpy as np

    rng, nf = ctx.rng, ctx.nf
    L = rng.choice([1, 2, 3, 4, 7])
    t = nf.Tracker("mean_euclidean", 1e3, hit_counter_max=30, initialization_delay=0, past_detections_length=L)
    other = nf.Tracker("mean_euclidean", 1e3, hit_counter_max=9, initialization_delay=rng.choice([0, 3]), past_detections_length=rng.choice([1, 2, 5]))
    pool = [nf.Detection(ctx.nprng.normal(0, 1, (1, 2))) for _ in range(rng.choice([1, 2, 5, 100]))]
    mine, again = [], 0
    seen = set()
    for k in range(rng.choice([15, 40, 90])):
        d = rng.choice(pool) if k and (k < 12 or rng.random() < 0.85) else pool[0] if not k else None
        if d is not None and rng.random() < 0.4:
            other.update([d])
        objs = t.update(None if d is None else [d])
        if d is not None and rng.random() < 0.4:
            other.update([d])
        ctx.check(len(objs) == 1, "the object was lost", frame=k)
        o = objs[0]
        if d is not None:
            again += id(d) in seen
            seen.add(id(d))
            if k == 0:
                mine = [(d, 0)]
            elif len(mine) < L:
                mine.append((d, o.age))
            elif o.age >= mine[0][1] * L:
                mine = mine[1:] + [(d, o.age)]
        ctx.check(len(o.past_detections) == len(mine) and all(a is b for a, (b, _) in zip(o.past_detections, mine)),
                  "past_detections is not the documented sample when detections are used again", frame=k, age=o.age, length=L,
                  got=[pool.index(x) for x in o.past_detections], expected=[(pool.index(x), a) for x, a in mine])
    ctx.count("used_again", again)
    if again:
        ctx.nontrivial("reused", ctx.index)


def case(ctx):
    if ctx.index % 12 == 5:
        return reused(ctx)
    rng = ctx.rng
    reid = rng.random() < 0.12
    scn = trk.gen_table_scn(rng, reid=reid, maxdets=3, hostile_T=0.02, nframes=rng.choice([20, 40, 80, 200]), npts=1)
    if rng.random() < 0.006:
        scn, reid = trk.gen_long(rng, npts=1), False
    scn.dens = rng.choice([0.5, 0.9, 1.0])
    if rng.random() < 0.6:
        scn.kw["hit_counter_max"] = rng.choice([5, 15])
        scn.kw.pop("initialization_delay", None)
    L = scn.kw.get("past_detections_length", 4)
    ctx.info = {"scenario": scn.describe(), "length": L}
    rec = trk.Recorder(ctx.nf, scn)
    ctx.count("length_zero", L == 0)
    mine = {}
    frame_of = {}
    nrep = 0
    for fr in scn.frames:
        st = rec.step(fr)
        st.decode(ctx)
        k = st.k
        for d in fr.dets:
            frame_of[d.uid] = k
        got = {i: u for u, i in st.taken.items()}
        for i in st.post_order:
            s = st.post[i]
            ctx.check(len(s.past) <= L, "past_detections holds too many entries", frame=k, iid=i, entries=len(s.past), length=L)
            ctx.check(len(set(s.past)) == len(s.past), "past_detections holds a detection twice", frame=k, iid=i, past=s.past)
            ctx.check([rec.uid_obj[u] is d for u, d in zip(s.past, s.obj.past_detections)] == [True] * len(s.past),
                      "past_detections holds something else than the detections that were fed", frame=k, iid=i)
            ctx.count("entries", len(s.past))
            if reid:
                continue
            if i not in st.pre:
                mine[i] = [(s.last, 0)] if L else []
            elif i in got and L:
                lst = mine[i]
                if len(lst) < L:
                    lst.append((got[i], s.age))
                    ctx.count("fills")
                elif s.age >= lst[0][1] * L:
                    lst.pop(0)
                    lst.append((got[i], s.age))
                    ctx.count("replacements")
                    nrep += 1
                else:
                    ctx.count("kept_back")
            ctx.check(s.past == [u for u, _ in mine[i]], "past_detections is not the documented sample", frame=k, iid=i, got=s.past,
                      expected=mine[i], age=s.age, length=L)
            ctx.check(s.past_age == [a for _, a in mine[i]], "the age of a past detection is not the object's age when it was matched", frame=k,
                      iid=i, ages=s.past_age, expected=mine[i])
            fs = [frame_of[u] for u in s.past]
            ctx.check(all(a < b for a, b in zip(fs, fs[1:])), "past_detections is not in chronological order", frame=k, iid=i, frames=fs)
            ctx.state(L, tuple(a for _, a in mine[i])[:4])
    if nrep:
        ctx.nontrivial(ctx.index, nrep)
        ctx.sample = {**scn.describe(), "replacements": nrep}
