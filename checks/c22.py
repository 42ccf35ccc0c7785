"""C22: transformation estimates accumulate motion since the first frame."""
import numpy as np

PROP = "C22"
RULE = ("seeded random sequences of point pairs generated from known motions with noise and outliers, fed to TranslationTransformationGetter and "
        "HomographyTransformationGetter; the harness plays MotionEstimator's part (new reference points only when asked) and keeps its own "
        "accumulated motion; the returned map is compared on points of the frame, the flag with the generated share of agreeing points "
        "(including shares exactly at the threshold), and transformations returned earlier are compared again at the end; non-trivial when a "
        "reference update happened before the last call")
ASSUMPTIONS = ["homography flags are judged on noise-free data, with outliers at least 25 px away from the motion"]
CASES = {"quick": 9600, "thorough": 60000}
FLOORS = {"returns": 1300, "many_points": 210, "translation_calls": 10000, "homography_calls": 9700, "updates_asked": 8100,
          "updates_not_asked": 12000, "after_update": 10000, "share_at_threshold": 3600, "outliers": 14000, "few_points_none": 1300,
          "few_points_accumulated": 880, "two_updates": 2300, "earlier_kept": 21000, "least_squares": 320, "wide_threshold": 210,
          "narrow_threshold": 120, "just_enough_points": 840}


def cloud(ctx, n, dt, w=640, h=480):
    return np.column_stack([ctx.nprng.uniform(5, w - 5, n), ctx.nprng.uniform(5, h - 5, n)]).astype(dt)


def grid():
    return np.array([[x, y] for x in (60.0, 320.0, 580.0) for y in (50.0, 240.0, 430.0)])


def shares(rng, thr, n):
    """Number of agreeing points: often exactly at, just below or just above the threshold."""
    k = rng.random()
    exact = thr * n
    if k < 0.15:
        return max(int(np.floor(exact)), 1)
    if k < 0.3:
        return min(n, int(np.ceil(exact)))
    if k < 0.4:
        return n
    if k < 0.6:
        return max(1, int(np.floor(exact)) - 1)
    return rng.randint(int(0.6 * n), n)


def translation(ctx):
    rng = ctx.rng
    cm = ctx.nf.camera_motion
    kw = {}
    bin_size, thr = 0.2, 0.9
    if rng.random() < 0.7:
        kw["bin_size"] = bin_size = rng.choice([0.1, 0.2, 0.25, 0.5, 1.0, 3.0])
    if rng.random() < 0.7:
        kw["proportion_points_used_threshold"] = thr = rng.choice([0.5, 0.6, 0.75, 0.8, 0.9, 1.0])
    g = cm.TranslationTransformationGetter(**kw)
    total = np.zeros(2)  # motion accumulated up to the current reference
    updates = 0
    kept = []
    scale_noise = rng.choice([0.0, 0.2, 0.45])
    dt = rng.choice([np.float32, float])
    for k in range(rng.randint(2, 9)):
        n = rng.choice([1, 2, 5, 10, 20, 50, 200, 700]) if rng.random() < 0.98 else rng.randint(1000, 3000)
        steps = [rng.randint(-200, 200) for _ in range(2)]
        if rng.random() < 0.2:
            steps = [0, 0]
        elif updates and rng.random() < 0.25:
            steps = [int(round(-t / bin_size)) for t in total]  # exactly back to the first frame
            ctx.count("returns")
        v = np.array(steps) * bin_size
        nin = max(shares(rng, thr, n), n // 2 + 1)
        prev = cloud(ctx, n, float)
        flow = v + ctx.nprng.uniform(-1, 1, (n, 2)) * bin_size * scale_noise
        # outliers: all in different bins, to both sides or to one
        if rng.random() < 0.3:
            nin = min(nin, max(2, rng.randint(n // 4, n // 2 + 1)), n)
        side = rng.choice([0, 0, 1, -1])
        for i in range(nin, n):
            flow[i] = v + np.array([(i + 3) * bin_size * 2, -(i + 5) * bin_size * 3]) * (side or rng.choice([1, -1]))
        perm = ctx.nprng.permutation(n)
        prev, flow = prev[perm], flow[perm]
        curr = (prev + flow).astype(dt)
        prev = prev.astype(dt)
        share = nin / n
        want_update = share < thr
        ctx.info = {"getter": "translation", "params": kw, "call": k, "flow": v, "agreeing": nin, "points": n, "accumulated": total, "updates": updates}
        before = (prev.copy(), curr.copy())
        upd, T = g(curr, prev)
        ctx.check(bool(upd) == want_update, "asks for a new reference frame at the wrong share of agreeing points", share=share, threshold=thr, got=bool(upd))
        p = grid()
        got = np.asarray(T.abs_to_rel(p)) - p
        want = total + v
        tol = bin_size * 0.51 * (updates + 1) + 1e-3
        ctx.check(np.abs(got - want).max() <= tol, "the translation is not the accumulated motion", got=got[0], want=want)
        # the mode is the center of the bin of the generated motion: no systematic error may build up
        ctx.check(np.abs(got - want).max() <= 0.02 * bin_size * (updates + 1) + 2e-3, "the translation is not the most frequent flow", got=got[0], want=want)
        ctx.check(np.array_equal(prev, before[0]) and np.array_equal(curr, before[1]), "the getter modified the points")
        kept.append((T, got.copy()))
        ctx.count("translation_calls")
        ctx.count("outliers", nin < n)
        ctx.count("share_at_threshold", abs(share - thr) < 1e-12)
        ctx.count("after_update", updates > 0)
        ctx.state("t", bool(upd), updates, nin == n, share == thr)
        if upd:
            total = total + v
            updates += 1
            ctx.count("updates_asked")
        else:
            ctx.count("updates_not_asked")
    return kept, updates


def gen_h(rng, strong):
    ang = rng.uniform(-0.08, 0.08)
    z = rng.uniform(0.93, 1.07)
    H = np.array([[np.cos(ang) * z, -np.sin(ang) * z, rng.uniform(-40, 40)], [np.sin(ang) * z, np.cos(ang) * z, rng.uniform(-40, 40)], [0, 0, 1.0]])
    if strong:
        H[2, 0], H[2, 1] = rng.uniform(-1e-4, 1e-4), rng.uniform(-1e-4, 1e-4)
    return H


def proj(H, p):
    q = np.column_stack([p, np.ones(len(p))]) @ H.T
    return q[:, :2] / q[:, 2:]


def homography(ctx):
    rng = ctx.rng
    cm = ctx.nf.camera_motion
    import cv2

    kw = {"confidence": 0.9999}
    thr = 0.9
    method = "ransac"
    if rng.random() < 0.3:
        method = rng.choice(["ransac", "lmeds", "rho", "all"])
        kw["method"] = {"ransac": cv2.RANSAC, "lmeds": cv2.LMEDS, "rho": cv2.RHO, "all": 0}[method]
    if rng.random() < 0.6:
        kw["proportion_points_used_threshold"] = thr = rng.choice([0.7, 0.75, 0.8, 0.9, 1.0])
    if rng.random() < 0.4:
        kw["ransac_reproj_threshold"] = rng.choice([2, 3, 5])
    if rng.random() < 0.3:
        kw["max_iters"] = rng.choice([2000, 5000])
    g = cm.HomographyTransformationGetter(**kw)
    total = None
    updates = 0
    kept = []
    noise = 0.0 if rng.random() < 0.7 else 0.05
    dt = rng.choice([np.float32, float])
    for k in range(rng.randint(2, 7)):
        if rng.random() < 0.18:
            m = rng.randint(0, 3)
            args = rng.choice([(None, None), (cloud(ctx, m, dt), cloud(ctx, m, dt))])
            ctx.info = {"getter": "homography", "params": kw, "call": k, "few_points": None if args[0] is None else m, "updates": updates}
            upd, T = g(*args)
            ctx.check(bool(upd), "does not ask for a new reference frame with fewer than four points")
            if total is None:
                ctx.check(T is None, "a transformation is returned although none is known", got=repr(T))
                ctx.count("few_points_none")
            else:
                p = grid()
                got = T.abs_to_rel(p)
                ctx.check(np.abs(got - proj(total, p)).max() <= 0.3 * (updates + 1), "the accumulated homography is not returned", got=got)
                ctx.count("few_points_accumulated")
                kept.append((T, got - p))
            continue
        n = rng.choice([20, 30, 50, 100, 200]) if rng.random() < 0.98 else rng.randint(1000, 2000)
        ctx.count("many_points", n >= 1000)
        least = not noise and method in ("ransac", "all") and rng.random() < 0.15
        H = gen_h(rng, rng.random() < 0.6)
        if rng.random() < 0.15:
            H = np.eye(3)
        nin = n if method == "all" else max(shares(rng, thr, n), int(np.ceil(0.7 * n)))
        prev = cloud(ctx, n, float)
        if least:
            # just enough points: four corners and perhaps a few more
            n = nin = rng.choice([4, 4, 5, 6])
            prev = np.array([[30.0, 30], [600, 40], [590, 440], [45, 450], [320, 240], [200, 100]])[:n] + ctx.nprng.uniform(-25, 25, (n, 2))
            ctx.count("just_enough_points")
        curr = proj(H, prev) + (ctx.nprng.normal(0, noise, (n, 2)) if noise else 0)
        for i in range(nin, n):
            a = rng.uniform(0, 2 * np.pi)
            curr[i] += np.array([np.cos(a), np.sin(a)]) * rng.uniform(40, 200)
        perm = ctx.nprng.permutation(n)
        prev, curr = prev[perm].astype(dt), curr[perm].astype(dt)
        share = nin / n
        ctx.info = {"getter": "homography", "params": kw, "call": k, "homography": H, "agreeing": nin, "points": n, "updates": updates, "noise": noise}
        before = (prev.copy(), curr.copy())
        upd, T = g(curr, prev)
        if method in ("ransac", "all") and not noise:
            ctx.check(bool(upd) == (share < thr), "asks for a new reference frame at the wrong share of agreeing points", share=share, threshold=thr,
                      got=bool(upd))
            ctx.count("share_at_threshold", abs(share - thr) < 1e-12)
        want = H if total is None else H @ total
        p = grid()
        if total is not None:
            # points of the current frame seen from the first one
            p = proj(np.linalg.inv(want), grid())
        got = np.asarray(T.abs_to_rel(p))
        # (total is exact up to the estimation errors of the earlier references)
        tol = (0.05 if not noise else 1.0) * (updates + 1) * 4
        ctx.check(np.abs(got - proj(want, p)).max() <= tol, "the homography is not the accumulated motion", got=got, want=proj(want, p))
        ctx.check(np.array_equal(prev, before[0]) and np.array_equal(curr, before[1]), "the getter modified the points")
        kept.append((T, np.asarray(T.abs_to_rel(grid())) - grid()))
        ctx.count("homography_calls")
        ctx.count("outliers", nin < n)
        ctx.count("after_update", updates > 0)
        ctx.state("h", bool(upd), updates, nin == n, method)
        if upd:
            total = want
            updates += 1
            ctx.count("updates_asked")
        else:
            ctx.count("updates_not_asked")
    return kept, updates


def parameters(ctx):
    """The method and the reprojection threshold given to the homography getter are the ones used."""
    rng = ctx.rng
    cm = ctx.nf.camera_motion
    import cv2

    n = rng.choice([60, 120, 200])
    H = gen_h(rng, rng.random() < 0.5)
    prev = cloud(ctx, n, float)
    curr = proj(H, prev)
    thr = rng.choice([0.7, 0.75, 0.8])
    kw = {"proportion_points_used_threshold": thr}
    nout = int(n * rng.uniform(0.36, 0.45))
    if rng.random() < 0.5:
        # every point counts: nothing is an outlier, the fit is the least-squares one
        kw["method"] = 0
        curr = curr + ctx.nprng.normal(0, rng.choice([0.5, 2, 6]), (n, 2))
        want_update = False
        want, tol = cv2.findHomography(prev, curr, 0)[0], 1e-3
        ctx.count("least_squares")
    else:
        # some points are off by a distance that is, or is not, within the threshold
        off, reproj = rng.choice([(1.5, 15.0), (4.0, 40.0), (5.0, 50.0), (2.5, 0.5), (8.0, 1.0)])
        kw["ransac_reproj_threshold"] = reproj
        if rng.random() < 0.5:
            kw["method"] = cv2.RANSAC
        kw["max_iters"], kw["confidence"] = 5000, 0.9999
        for i in range(nout):
            a = rng.uniform(0, 2 * np.pi)
            curr[i] += off * np.array([np.cos(a), np.sin(a)])
        want_update = off > reproj
        want, tol = H, (2.0 if want_update else 3 * off)
        ctx.count("wide_threshold" if not want_update else "narrow_threshold")
    g = cm.HomographyTransformationGetter(**kw)
    ctx.info = {"getter": "homography", "params": kw, "homography": H, "points": n}
    upd, T = g(curr.copy(), prev.copy())
    got = T.abs_to_rel(grid())
    ctx.check(bool(upd) == want_update, "asks for a new reference frame against its parameters", got=bool(upd), want=want_update)
    ctx.check(np.abs(got - proj(want, grid())).max() <= tol, "the homography is not the one of the given method", got=got, want=proj(want, grid()))
    ctx.state("params", bool(upd), kw.get("method"), kw.get("ransac_reproj_threshold"))


def case(ctx):
    if ctx.index % 8 == 7:
        return parameters(ctx)
    kept, updates = (translation if ctx.index % 2 else homography)(ctx)
    for T, d in kept:
        ctx.check(np.array_equal(np.asarray(T.abs_to_rel(grid())) - grid(), d), "a transformation returned earlier changed later")
        ctx.count("earlier_kept")
    ctx.count("two_updates", updates > 1)
    if updates and len(kept) > 1:
        ctx.nontrivial(ctx.index, updates, len(kept))
        ctx.sample = {k: v for k, v in ctx.info.items()}
