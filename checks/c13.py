"""C13: tracking under camera motion is tracking in absolute coordinates."""
import numpy as np

from nfv import trk

PROP = "C13"
RULE = ("seeded random histories seen by a moving camera (translation, homography, user-defined affine and non-linear transformations, also as the "
        "same object in several frames); the tracker is run against a plain tracker that is fed the absolute positions (own arithmetic) of the "
        "same detections; detection objects are also fed again in later frames; non-trivial when the camera moved while an object was unmatched")
CASES = {"quick": 2500, "thorough": 18000}
FLOORS = {"whole_pixels": 170, "long_histories": 2, "compared": 160000, "unmatched_in_motion": 72000, "homography_cases": 320,
          "refed_detections": 4400, "none_frames": 8800, "user_transformations": 300, "geo_cases": 410, "raises": 36000, "crowds": 4}


def transforms(ctx, rng, n):
    """Per frame: (norfair transformation object, own abs_to_rel, own rel_to_abs)."""
    from norfair import camera_motion as cm

    kind = rng.choice(["translation", "translation", "homography", "homography", "affine", "warp"])
    out = []
    v = np.array([0.0, 0.0])
    M = np.eye(3)
    still = 0

    class Affine(cm.CoordinatesTransformation):
        def __init__(self, A, b):
            self.A, self.b = A, b

        def abs_to_rel(self, points):
            return points @ self.A.T + self.b

        def rel_to_abs(self, points):
            return (points - self.b) @ np.linalg.inv(self.A).T

    class Warp(cm.CoordinatesTransformation):
        """Scales about the origin by a factor that depends on the first coordinate's sign."""

        def __init__(self, s, b):
            self.s, self.b = s, b

        def abs_to_rel(self, points):
            return np.sinh(points / 400.0) * self.s + self.b

        def rel_to_abs(self, points):
            return np.arcsinh((points - self.b) / self.s) * 400.0

    for k in range(n):
        if out and rng.random() < 0.15:
            out.append(out[-1])
            continue
        if kind == "translation":
            v = v + np.array([rng.gauss(0, 15), rng.gauss(0, 15)])
            w = v.copy()
            out.append((cm.TranslationTransformation(w.copy()), lambda p, w=w: p + w, lambda p, w=w: p - w))
        elif kind == "homography":
            th = rng.gauss(0, 0.02)
            s = 1 + rng.gauss(0, 0.01)
            S = np.array([[s * np.cos(th), -s * np.sin(th), rng.gauss(0, 8)], [s * np.sin(th), s * np.cos(th), rng.gauss(0, 8)],
                          [rng.gauss(0, 2e-6), rng.gauss(0, 2e-6), 1.0]])
            M = S @ M
            W = M.copy()

            def fwd(p, W=W):
                h = np.c_[p, np.ones(len(p))] @ W.T
                return h[:, :2] / h[:, 2:]

            def inv(p, W=W):
                h = np.linalg.solve(W, np.c_[p, np.ones(len(p))].T).T
                return h[:, :2] / h[:, 2:]

            out.append((cm.HomographyTransformation(W.copy()), fwd, inv))
        elif kind == "affine":
            A = np.eye(2) + np.array([[rng.gauss(0, 0.05) for _ in range(2)] for _ in range(2)])
            b = np.array([rng.gauss(0, 40), rng.gauss(0, 40)])
            out.append((Affine(A, b), lambda p, A=A, b=b: p @ A.T + b, lambda p, A=A, b=b: np.linalg.solve(A, (p - b).T).T))
        else:
            s, b = rng.uniform(200, 500), np.array([rng.gauss(0, 40), rng.gauss(0, 40)])
            out.append((Warp(s, b), lambda p, s=s, b=b: np.sinh(p / 400.0) * s + b, lambda p, s=s, b=b: np.arcsinh((p - b) / s) * 400.0))
    return kind, out


def case(ctx):
    rng = ctx.rng
    nf = ctx.nf
    geo = rng.random() < 0.3
    if ctx.index % 300 == 11:
        geo = True
        scn = trk.gen_crowd(rng)
        ctx.count("crowds")
    elif ctx.index % 500 == 77:
        geo = True  # translations only
        scn = trk.gen_long(rng, nframes=rng.choice([300, 600, 1300]), dim=2)
        scn.kw.pop("reid_hit_counter_max", None)
        ctx.count("long_histories")
    elif geo:
        scn = trk.gen_geo_scn(rng, dim=2)
    else:
        scn = trk.gen_table_scn(rng, dim=2, hostile_T=0.02, reid=rng.random() < 0.2)
        scn.dens = rng.choice([0.4, 0.7, 0.9])
    n = len(scn.frames)
    kind, cts = transforms(ctx, rng, n)
    if geo and kind != "translation":
        # predefined distances compare relative coordinates: only translations keep them
        while kind != "translation":
            kind, cts = transforms(ctx, rng, n)
    scn.filter = rng.choice([("opt", {}), ("opt", {"R": 1.0, "Q": 0.5}), ("filterpy", {}), ("none", {})])
    ctx.info = {"scenario": scn.describe(), "transformations": kind}
    if kind == "homography":
        ctx.count("homography_cases")
    elif kind in ("affine", "warp"):
        ctx.count("user_transformations")
    ctx.count("geo_cases", geo)
    # specs of scn are absolute positions; the camera sees them through the transformation, sometimes as whole pixels
    whole = not geo and rng.random() < 0.2
    ctx.count("whole_pixels", whole)
    rel, absn = trk.clone(scn), trk.clone(scn)
    for k, (f, fa) in enumerate(zip(rel.frames, absn.frames)):
        ct, fwd, inv = cts[k]
        f.ct = ct
        for d, da in zip(f.dets, fa.dets):
            d.rank1 = da.rank1 = False
            d.points = fwd(np.asarray(d.points, float))
            if whole and np.abs(d.points).max() < 1e9:
                d.points = np.round(d.points).astype(rng.choice([int, np.int32]))
            da.points = inv(d.points)
    refeed = (not geo) and rng.random() < 0.35
    if refeed:
        rel.kw["past_detections_length"] = absn.kw["past_detections_length"] = 0  # ages of shared detections are not comparable
    A = trk.Recorder(nf, rel, with_abs=True)
    B = trk.Recorder(nf, absn)
    pool = []
    moved = 0
    for k in range(n):
        fa, fb = rel.frames[k], absn.frames[k]
        ct, fwd, inv = cts[k]
        if refeed and pool and rng.random() < 0.4:
            # the very same Detection object once more, in a later frame (no object holds it as a duplicate uid)
            spec, old = rng.choice(pool)
            spec = trk.DetSpec(spec.uid, spec.points, spec.scores, spec.label, spec.tid)
            made = {spec.uid: old}
            fa.dets = fa.dets + [spec]
            sp2 = trk.DetSpec(spec.uid, inv(spec.points), spec.scores, spec.label, spec.tid)
            fb.dets = fb.dets + [sp2]
            orig = A.make_dets

            def make(fr, made=made, orig=orig):
                dets = orig(fr)
                for j, s in enumerate(fr.dets):
                    if s.uid in made:
                        dets[j] = made[s.uid]
                        A.uid_obj[s.uid] = made[s.uid]
                return dets

            A.make_dets = make
            ctx.count("refed_detections")
        raw = [d.points.copy() for d in fa.dets]
        sa = A.step(fa)
        A.__dict__.pop("make_dets", None)
        sb = B.step(fb)
        if not fa.dets:
            ctx.count("none_frames")
        for d, r in zip(sa.dets, raw):
            ctx.check(np.array_equal(d.points, r), "a detection's points were changed", frame=k, points=d.points, were=r)
            ctx.check(trk.close(d.absolute_points, inv(r), 1e-7), "absolute_points is not the transformation of the points for this update",
                      frame=k, absolute_points=d.absolute_points, expected=inv(r))
        if refeed and sa.dets and rng.random() < 0.7:
            j = rng.randrange(len(sa.dets))
            pool.append((fa.dets[j], sa.dets[j]))
        ctx.check(sa.post_order == sb.post_order and sorted(sa.ret) == sorted(sb.ret), "camera motion changed which objects there are", frame=k,
                  got=sa.post_order, expected=sb.post_order)
        for i in sa.post_order:
            a, b = sa.post[i], sb.post[i]
            ctx.check((a.id, a.age, a.hc, bool(a.init), a.last, a.past) == (b.id, b.age, b.hc, bool(b.init), b.last, b.past),
                      "camera motion changed the state of an object", frame=k, iid=i, got=(a.id, a.age, a.hc, a.init, a.last, a.past),
                      expected=(b.id, b.age, b.hc, b.init, b.last, b.past))
            ctx.check(np.array_equal(a.live, b.live), "camera motion changed the live points", frame=k, iid=i)
            sc = max(1.0, float(np.abs(b.est).max()))
            ctx.check(trk.close(a.abs, b.est, 1e-6, sc), "the absolute estimate is not that of tracking in absolute coordinates", frame=k, iid=i,
                      absolute=a.abs, expected=b.est)
            ctx.check(trk.close(a.vel, b.vel, 1e-6, sc), "estimate_velocity is not that of tracking in absolute coordinates", frame=k, iid=i,
                      velocity=a.vel, expected=b.vel)
            want = fwd(b.est)
            usable = np.isfinite(want).all() and np.abs(want).max() < 1e6 and sc < 1e5  # far outside: beyond the horizon or overflowing
            ctx.check(not usable or trk.close(a.est, want, 1e-5, max(1.0, float(np.abs(want).max()), sc)),
                      "the estimate is not the absolute estimate seen through the current transformation", frame=k, iid=i, estimate=a.est,
                      expected=want, matched=a.last in {d.uid for d in fa.dets}, age=a.age)
            o = a.obj
            ctx.check(trk.same(o.get_estimate(absolute=False), o.estimate), "get_estimate(absolute=False) is not the estimate", frame=k)
            ctx.count("compared")
            if i in sa.pre and a.last not in {d.uid for d in fa.dets}:
                ctx.count("unmatched_in_motion")
                moved += 1
            ctx.state(kind, min(a.age, 20), i in sa.pre)
        for o in sb.ret_objs[:1]:
            try:
                o.get_estimate(absolute=True)
            except ValueError:
                ctx.count("raises")
            else:
                ctx.fail("asking for the absolute estimate without transformations did not raise", frame=k)
    if moved:
        ctx.nontrivial(ctx.index, moved)
        ctx.sample = {**scn.describe(), "transformations": kind, "unmatched_in_motion": moved}
