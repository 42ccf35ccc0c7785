"""C06: re-identification restores the old identity and nothing else kills a live object."""
import numpy as np

from nfv import trk
from nfv.kf import seen_mask

PROP = "C06"
RULE = ("seeded random histories with re-identification (table distances for both stages, reid counters from 0 to 10, with and without a "
        "re-id function or counter, blinking objects, silences between a hit at hit counter 0 and later); recorded filters tell which "
        "object received which detection before a merge; every merge, every drop and every kept object is compared with the reid automaton; "
        "non-trivial when a merge or an expiry was seen")
CASES = {"quick": 4600, "thorough": 28000}
FLOORS = {"merges": 3400, "expired": 28000, "merged_dead": 350, "merged_alive": 3100, "tempting_uninitialized": 8400, "hits_at_zero": 13000,
          "label_blocked": 1200, "first_seen": 3100, "first_seen_after_merge": 230, "past_continued": 1200}


def case(ctx):
    rng = ctx.rng
    scn = trk.gen_table_scn(rng, reid=True, maxdets=rng.choice([2, 3, 5]), hostile_T=0.03, hcm=rng.choice([1, 2, 2, 3, 4, 6]),
                            nframes=rng.choice([20, 35, 60]), scores=rng.random() < 0.4)
    if rng.random() < 0.004:
        scn = trk.gen_long(rng, reid=True)
    scn.dens = rng.choice([0.3, 0.5, 0.7, 0.9])
    if rng.random() < 0.6:
        scn.reid["dens"] = rng.choice([0.3, 0.6, 0.9, 1.0])
    if rng.random() < 0.5:
        # a plain delay, so that objects stay in their initialization phase for more than one frame
        m = scn.kw.get("hit_counter_max", 15)
        scn.kw["initialization_delay"] = rng.randrange(m)
    R = scn.kw.get("reid_hit_counter_max")
    fn = scn.reid.get("fn", True)
    RT = scn.reid["T"]
    ctx.info = {"scenario": scn.describe()}
    rec = trk.Recorder(ctx.nf, scn, record_filter=True)
    rc = {}  # object -> reid counter (None when not counting)
    seen = {}  # object -> which of its points were seen so far
    began = {}  # object -> the period it began with
    thr = scn.kw.get("detection_threshold", 0)
    nmerge = nexp = 0
    dead_for_good, restored = set(), set()
    for fr in scn.frames:
        st = rec.step(fr)
        st.decode(ctx)
        st.decode_filters(ctx, rec)
        k, p = st.k, fr.period
        hist = trk.brief_history(scn, k, 1)
        # -- drops ----------------------------------------------------------------------------------------------------
        expired = set()
        for i in st.pre_order:
            q = st.pre[i]
            gone = i not in st.post
            if R is None:
                must = q.hc < 0
            else:
                must = rc[i] is not None and rc[i] < 0
            if must:
                expired.add(i)
                ctx.check(gone, "an object is kept after its reid counter fell below 0", frame=k, iid=i, reid_counter=rc[i])
                ctx.count("expired")
                nexp += 1
                dead_for_good.add(i)
            elif gone:
                # only a candidate that was merged into another object may disappear; never-initialized leftovers are of no account
                if i in st.merged:
                    continue
                ctx.check(q.init and q.hc < 0, "an object disappeared although it was not due", frame=k, iid=i, hit_counter=q.hc,
                          reid_counter=rc[i], initializing=q.init, history=hist)
        for i in st.post_order:
            ctx.check(i not in dead_for_good, "an object that was dropped for good came back", frame=k, iid=i)
        # -- automaton: one step --------------------------------------------------------------------------------------
        for i in st.pre_order:
            if i in expired:
                rc.pop(i, None)
                continue
            if rc[i] is None:
                if st.pre[i].hc <= 0:
                    rc[i] = R
            else:
                rc[i] -= 1
        for u, i in st.direct.items():
            if i in st.pre and st.pre[i].hc == 0:
                ctx.count("hits_at_zero")
            rc[i] = None
            ctx.check(i not in expired, "an expired object was matched", frame=k, iid=i)
            ctx.check(i not in st.pre or st.pre[i].hc >= 0, "an object whose hit counter ran out was matched directly", frame=k, iid=i)
        # -- point status: a point seen for the first time is placed where it was seen ------------------------------------
        byuid = {d.uid: d for d in fr.dets}
        for u, i in st.started.items():
            seen[i] = seen_mask(byuid[u], thr)
            began[i] = p
        for u, i in st.direct.items():
            d, h = byuid[u], st.holder[u]
            m = seen_mask(d, thr)
            first = m & ~seen[i]
            if i not in seen or len(m) != len(st.post[h].est):
                continue
            if first.any():
                ctx.check(trk.close(st.post[h].est[first], d.points[first], 1e-9),
                          "a point seen for the first time is not placed where it was seen", frame=k, iid=h, estimate=st.post[h].est,
                          points=d.points, first=first.tolist(), history=hist)
                ctx.count("first_seen")
                if h in restored:
                    ctx.count("first_seen_after_merge")
            seen[i] = seen[i] | m
            if h != i:
                seen[h] = seen.pop(i)
                restored.add(h)
        # -- merges ---------------------------------------------------------------------------------------------------
        hit = set(st.direct.values())
        cands = [i for i in hit if i in st.pre and st.pre[i].init]
        olds = [i for i in st.pre_order if i not in expired and not st.pre[i].init and i not in hit]
        if R is None:
            olds = [i for i in olds if st.pre[i].hc >= 0]
        inv = {u: i for i, u in ((i, u) for u, i in st.direct.items())}

        def dist(c, o):
            if st.pre[c].label != st.pre[o].label:
                return None
            return rec.rtable.value(rec.birth[c], rec.birth[o])

        if not fn:
            ctx.check(not st.merged, "objects were merged without a re-identification distance", frame=k, merged=st.merged)
        else:
            for c, o in st.merged.items():
                ctx.check(c in cands, "an object that is not an initializing object matched in this update was merged", frame=k, merged=(c, o),
                          candidates=cands)
                ctx.check(o in olds, "a candidate was merged into an object that cannot be restored", frame=k, merged=(c, o),
                          restorable=olds, state={"init": st.pre[o].init if o in st.pre else None})
            trk.greedy_ok(ctx, "re-identification", k, cands, olds, dist, RT, st.merged, history=hist)
            for a, b, _ in st.reid_calls:
                ctx.check(a in cands and b in olds, "the re-identification distance was asked for the wrong objects", frame=k,
                          pair=(a, b), candidates=cands, restorable=olds)
            for c in cands:
                for o in st.pre_order:
                    if o not in expired and st.pre[o].init and o not in hit and o != c and st.pre[o].hc < 0:
                        d = dist(c, o)
                        if d is not None and trk.below(d, RT):
                            ctx.count("tempting_uninitialized")
                    if o in olds and dist(c, o) is None:
                        ctx.count("label_blocked")
        for c, o in st.merged.items():
            nmerge += 1
            ctx.count("merges")
            ctx.count("merged_dead" if st.pre[o].hc < 0 else "merged_alive")
            ctx.check(c not in st.post, "the merged candidate is still there", frame=k, merged=(c, o))
            ctx.check(o in st.post, "the restored object is not there", frame=k, merged=(c, o))
            s, q = st.post[o], st.pre[o]
            ctx.check(s.obj is q.obj, "the restored object is another Python object", frame=k, merged=(c, o))
            ctx.check(s.id == q.id and s.gid == q.gid and s.id is not None, "the restored object did not keep its id", frame=k,
                      was=(q.id, q.gid), now=(s.id, s.gid))
            ctx.check(not s.init and s.hc >= 0 and st.ret.count(o) == 1, "a restored object is not reported", frame=k, iid=o, hit_counter=s.hc)
            uid = [u for u, i in st.direct.items() if i == c][0]
            ctx.check(s.last == uid, "the restored object does not hold the candidate's detection", frame=k, uid=uid, holds=s.last)
            co = st.pre[c].obj
            ctx.check(trk.close(s.est, co.estimate, 1e-9) and trk.close(s.vel, co.estimate_velocity, 1e-9),
                      "the restored object does not continue from the candidate's position", frame=k, estimate=s.est, candidate=co.estimate)
            fid = [f for f, i in rec.owner.items() if i == o]
            if fid:
                # the candidate's filter as recorded at the extension point
                z = [e[2] for e in st.events if e[0] == "update" and e[1] == fid[0]]
                ctx.check(len(z) == 1, "the candidate's filter was not the one updated", frame=k)
            ctx.check(s.ldist == (None if co.last_distance is None else float(co.last_distance)),
                      "the restored object's last_distance is not that of its last detection", frame=k, got=s.ldist, expected=co.last_distance)
            ctx.check(s.hc == 2 * began[o], "the restored object's hit counter is not twice its initial period", frame=k, got=s.hc, period=began[o])
            ctx.check(np.array_equal(s.live, co.live_points), "the restored object does not take over the candidate's point status", frame=k,
                      live=s.live, candidate=co.live_points)
            ctx.check(s.age == q.age + 1, "re-identification changed the age of the restored object", frame=k, was=q.age, now=s.age)
            # the newcomer's past detections continue the restored object's sample, by the same replacement rule
            L = scn.kw.get("past_detections_length", 4)
            want = list(zip(q.past, q.past_age))
            for d in co.past_detections:
                if L and len(want) < L:
                    want.append((trk.uid_of(d), s.age))
                elif L and s.age >= want[0][1] * L:
                    want = want[1:] + [(trk.uid_of(d), s.age)]
            ctx.check(list(s.past) == [u for u, _ in want], "the restored object's past detections are not continued with the candidate's", frame=k,
                      iid=o, past=s.past, expected=want, length=L)
            ctx.count("past_continued", any(trk.uid_of(d) in s.past for d in co.past_detections))
            rc[o] = None
            rc.pop(c, None)
        # -- what is reported -----------------------------------------------------------------------------------------
        for i in st.post_order:
            if i not in rc:
                rc[i] = None
            s = st.post[i]
            if i in st.pre and i not in st.merged.values():
                q = st.pre[i]
                ctx.check(s.id == q.id or q.id is None, "the id of an object changed", frame=k, iid=i)
                if i not in hit:
                    ctx.check(s.hc == q.hc - 1 and bool(s.init) == bool(q.init), "an unmatched object did not just age", frame=k, iid=i,
                              was=(q.hc, q.init), now=(s.hc, s.init))
        want = sorted(i for i in st.post_order if not st.post[i].init and st.post[i].hc >= 0)
        ctx.check(sorted(st.ret) == want, "the reported objects are not the initialized ones with a non-negative counter", frame=k,
                  reported=sorted(st.ret), expected=want)
        # initialized objects are either reported, recoverable, or due
        for i in st.pre_order:
            if not st.pre[i].init and i not in expired and R is not None:
                ctx.check(i in st.post, "a recoverable object vanished", frame=k, iid=i, reid_counter=rc.get(i))
        ctx.count("updates")
        ctx.state(len(cands), len(olds), len(st.merged), len(expired))
    if nmerge or nexp:
        ctx.nontrivial(ctx.index, nmerge, nexp)
        ctx.sample = {**scn.describe(), "merges": nmerge, "expired": nexp}
