"""C08: the default filter is the standard constant-velocity Kalman filter."""
import numpy as np

from nfv import kf, trk

PROP = "C08"
RULE = ("seeded random histories with random filter parameters (R, Q, initial variances, covariance, also Q=0 or tiny R), scores that mask "
        "points, gaps, integer and float32 points, large coordinates and long static histories; after every update estimate and "
        "estimate_velocity of every object are compared with a textbook filter that adopts the observed matches; non-trivial when at least "
        "3 matches and one gap were seen")
ASSUMPTIONS = ["estimates are compared with a relative tolerance of 1e-6 (of the largest coordinate)"]
CASES = {"quick": 3200, "thorough": 16000}
FLOORS = {"compared": 120000, "unmatched_steps": 51000, "masked_points": 29000, "custom_params": 1100, "static_frames": 110000, "int_points": 220,
          "direct_updates": 3200, "own_noise": 1500}


def params(rng):
    if rng.random() < 0.3:
        return {}
    kw = {}
    if rng.random() < 0.8:
        kw["R"] = rng.choice([0.01, 0.5, 1.0, 4.0, 25.0, 100.0, 1e4, 1e-4])
    if rng.random() < 0.8:
        kw["Q"] = rng.choice([0.0, 1e-3, 0.1, 0.7, 1.0, 10.0, 300.0])
    if rng.random() < 0.7:
        kw["pos_variance"] = rng.choice([0.0, 0.1, 1.0, 10.0, 33.0, 1000.0])
    if rng.random() < 0.7:
        kw["vel_variance"] = rng.choice([0.0, 0.01, 0.3, 1.0, 2.0, 50.0])
    if rng.random() < 0.5:
        a = (kw.get("pos_variance", 10.0) * kw.get("vel_variance", 1.0)) ** 0.5
        kw["pos_vel_covariance"] = rng.choice([-0.5, 0.2, 0.5, 0.9]) * a
    return kw


def model(p, kw):
    return kf.CV1(p, kw.get("R", 4.0), kw.get("Q", 0.1), kw.get("pos_variance", 10.0), kw.get("pos_vel_covariance", 0.0),
                  kw.get("vel_variance", 1.0))


def run(ctx, scn, make, tol=1e-6):
    """Compare every object of scn with the filter model made by make(points)."""
    thr = scn.kw.get("detection_threshold", 0.0)
    rec = trk.Recorder(ctx.nf, scn)
    models = {}
    byuid = {}
    scale = max([0.0] + [float(np.abs(d.points).max()) for f in scn.frames for d in f.dets]) or 1.0
    hits = gaps = 0
    for fr in scn.frames:
        st = rec.step(fr)
        st.decode(ctx)
        byuid = {d.uid: d for d in fr.dets}
        got = {i: u for u, i in st.taken.items()}
        for i in st.post_order:
            s = st.post[i]
            if i not in st.pre:
                d = byuid[s.last]
                models[i] = kf.Track(make(d.points), kf.seen_mask(d, thr))
            else:
                m = models[i]
                m.predict()
                if i in got:
                    d = byuid[got[i]]
                    mask = kf.seen_mask(d, thr)
                    m.update(d.points, mask)
                    hits += 1
                    ctx.count("masked_points", int((~mask).sum()))
                else:
                    gaps += 1
                    ctx.count("unmatched_steps")
            m = models[i]
            ctx.count("compared")
            for what, a, b in (("estimate", s.est, m.f.pos), ("estimate_velocity", s.vel, m.f.vel)):
                ctx.check(np.isfinite(a).all(), "%s is not finite" % what, frame=st.k, iid=i, value=a)
                ctx.check(trk.close(a, b, tol, scale), "%s differs from the textbook filter" % what, frame=st.k, iid=i, got=a, expected=b,
                          matched=i in got, age=s.age)
            ctx.state(min(s.age, 30), i in got, len(s.est))
        for i in list(models):
            if i not in st.post:
                del models[i]
    return hits, gaps


def static(ctx):
    """A static object stays where it is, for any number of frames."""
    rng = ctx.rng
    kw = params(rng)
    n, dim = rng.choice([1, 2, 4]), rng.choice([2, 3])
    mag = rng.choice([1.0, 1e3, 1e6])
    pts = np.array([[rng.uniform(-mag, mag) for _ in range(dim)] for _ in range(n)])
    nf = ctx.nf
    from norfair.filter import OptimizedKalmanFilterFactory

    tr = nf.Tracker("euclidean", 1e7, filter_factory=OptimizedKalmanFilterFactory(**kw), initialization_delay=0, hit_counter_max=8)
    frames = rng.choice([200, 600, 1500])
    p = rng.choice([1.0, 0.7])
    ctx.info = {"static": pts.tolist(), "filter": kw, "frames": frames}
    life = 8
    for k in range(frames):
        dets = [nf.Detection(pts.copy())] if k < 12 or life < 4 or rng.random() < p else None  # never missed until it is dropped
        life = min(life - 1 + 2 * bool(dets), 8)
        objs = tr.update(dets)
        ctx.check(len(objs) == 1, "a static object was lost", frame=k, objects=len(objs))
        o = objs[0]
        ctx.check(trk.close(o.estimate, pts, 1e-7, mag) and trk.close(o.estimate_velocity, np.zeros_like(pts), 1e-7, mag),
                  "the estimate of a static object does not stay on it", frame=k, estimate=o.estimate, velocity=o.estimate_velocity, points=pts)
    ctx.count("static_frames", frames)
    ctx.count("custom_params", bool(kw))
    ctx.nontrivial(ctx.index, "static", frames)


def direct(ctx):
    """The filter itself, as custom trackers use it: whole measurements, partial ones (H) and measurements with their own noise (R)."""
    from norfair.filter import OptimizedKalmanFilterFactory

    rng = ctx.rng
    kw = params(rng)
    n, dim = rng.choice([1, 1, 2, 5]), rng.choice([2, 2, 3])
    mag = rng.choice([1.0, 100.0, 1e5])
    p0 = ctx.nprng.uniform(-mag, mag, (n, dim))
    f = OptimizedKalmanFilterFactory(**kw).create_filter(p0.copy())
    m = model(p0, kw)
    z, v = p0.copy(), ctx.nprng.normal(0, mag / 50, (n, dim))
    ctx.info = {"direct": p0.tolist(), "filter": kw}
    own = 0
    for k in range(rng.choice([5, 20, 60])):
        z = z + v + ctx.nprng.normal(0, mag / 100, (n, dim))
        f.predict()
        m.predict()
        r = rng.random()
        R = H = None
        mask, noise = np.ones(n, bool), None
        if r < 0.25:
            continue  # nothing measured
        if r < 0.75:
            if r < 0.5:
                mask = ctx.nprng.random(n) < 0.6
            H = np.hstack([np.diag(np.repeat(mask, dim).astype(float)), np.zeros((n * dim, n * dim))])
        if rng.random() < 0.5:
            noise = ctx.nprng.choice([0.05, 1.0, 9.0, 400.0], (n, dim))
            R = np.diag(noise.ravel())
            own += 1
        args = {}
        if R is not None:
            args["R"] = R.copy()
        if H is not None:
            args["H"] = H.copy()
        col = z.reshape(-1, 1).copy()
        f.update(col, **args)
        ctx.check(np.array_equal(col, z.reshape(-1, 1)) and (R is None or np.array_equal(args["R"], R)) and (H is None or np.array_equal(args["H"], H)),
                  "the filter changed what it was given", step=k)
        m.update(z, mask, noise)
        x = np.asarray(f.x, float).reshape(2, n, dim)
        scale = max(mag, float(np.abs(z).max()))
        ctx.check(trk.close(x[0], m.pos, 1e-6, scale) and trk.close(x[1], m.vel, 1e-6, scale), "the filter differs from the textbook filter",
                  step=k, got=x, expected=[m.pos, m.vel], R=noise, mask=mask)
        ctx.count("direct_updates")
    ctx.count("own_noise", own)
    ctx.nontrivial(ctx.index, "direct", own, n, dim)


def gen(rng, scores=True):
    if rng.random() < 0.6:
        scn = trk.gen_table_scn(rng, reid=False, maxdets=3, hostile_T=0.0, scores=scores)
        if rng.random() < 0.006:
            scn = trk.gen_long(rng, scores=scores)
        scn.dens = rng.choice([0.5, 0.8, 1.0])
        # smooth enough positions
        g = rng.choice([0.01, 0.1, 1.0, 1.0, 20.0])
        for f in scn.frames:
            for d in f.dets:
                d.points = d.points * g
    else:
        scn = trk.gen_geo_scn(rng, clutter=0.02)
    r = rng.random()
    for f in scn.frames:
        for d in f.dets:
            if r < 0.15:
                d.points = np.round(d.points).astype(int)
            elif r < 0.25:
                d.points = d.points.astype(np.float32)
            elif r < 0.3:
                d.points = d.points * 1000
            elif r < 0.38:
                d.points = d.points * 1e-7  # far smaller units than pixels
    return scn, r


def case(ctx):
    rng = ctx.rng
    if ctx.index % 12 == 11:
        return static(ctx)
    if ctx.index % 12 == 5:
        return direct(ctx)
    scn, r = gen(rng)
    kw = params(rng)
    scn.filter = ("opt", kw)
    ctx.info = {"scenario": scn.describe()}
    ctx.count("custom_params", bool(kw))
    ctx.count("int_points", r < 0.15)
    hits, gaps = run(ctx, scn, lambda p: model(p, kw))
    if hits >= 3 and gaps:
        ctx.nontrivial(ctx.index, hits, gaps)
        ctx.sample = {**scn.describe(), "matches": hits, "unmatched": gaps}
