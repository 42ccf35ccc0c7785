"""C21: coordinate transformations are exact inverses of each other."""
from fractions import Fraction

import numpy as np

PROP = "C21"
RULE = ("seeded random translations (integer, float, list) and well-conditioned homographies (affine, projective, scaled by a factor, with points "
        "exactly on the horizon of either direction) applied to random point arrays of any length and dtype; results are compared with exact "
        "rational arithmetic, with the results for single points, and the arguments and the transformation with copies; every case with points "
        "is non-trivial")
ASSUMPTIONS = ["points closer to the horizon than 5% of the frame's perspective depth are only required to be finite and independent"]
CASES = {"quick": 24000, "thorough": 200000}
FLOORS = {"tiny_motion": 470, "translation": 3200, "homography": 9900, "projective": 120000, "roundtrip": 120000, "horizon_points": 11000,
          "horizon_rel": 6000, "int_points": 3700, "empty": 1600, "single": 3200, "repeated_calls": 17000}


def inv3(M):
    a = [[Fraction(float(x)) for x in r] for r in M]
    det = sum(a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]) for i in range(3))
    adj = [[(a[(j + 1) % 3][(i + 1) % 3] * a[(j + 2) % 3][(i + 2) % 3] - a[(j + 1) % 3][(i + 2) % 3] * a[(j + 2) % 3][(i + 1) % 3]) / det
            for j in range(3)] for i in range(3)]
    return adj


def apply(M, p):
    v = [M[i][0] * p[0] + M[i][1] * p[1] + M[i][2] for i in range(3)]
    return v


def gen_homography(rng):
    ang = rng.uniform(-0.6, 0.6)
    z = rng.uniform(0.5, 2.0)
    A = np.array([[np.cos(ang) * z, -np.sin(ang) * z, rng.uniform(-300, 300)], [np.sin(ang) * z, np.cos(ang) * z, rng.uniform(-300, 300)], [0, 0, 1.0]])
    A[0, 1] += rng.uniform(-0.2, 0.2)
    if rng.random() < 0.75:
        A[2, 0], A[2, 1] = rng.uniform(-8e-4, 8e-4), rng.uniform(-8e-4, 8e-4)
    if rng.random() < 0.2:
        A *= rng.choice([2.0, -1.0, 0.1, -3.7, 1e3, 1e-3, 1e5, -1e-5])
    return A


def exact_horizon(rng):
    """An integer homography whose inverse is integer too, with third rows that vanish at integer points."""
    a, b = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1)])
    H = np.array([[1, 0, 0], [0, 1, 0], [a, b, -rng.choice([10, 100, 64])]], dtype=float)
    S = np.array([[1, rng.randint(-2, 2), rng.randint(-50, 50)], [0, 1, rng.randint(-50, 50)], [0, 0, 1]], dtype=float)
    return H @ S if rng.random() < 0.5 else S @ H


def case(ctx):
    rng = ctx.rng
    cm = ctx.nf.camera_motion
    n = rng.choice([0, 1, 1, 2, 3, 5, 9, 40])
    dt = rng.choice([float, float, float, np.float32, np.int64, np.int32])
    kind = rng.choice(["translation", "homography", "homography", "horizon"])
    mag = rng.choice([10.0, 640.0, 2000.0])
    P = ctx.nprng.uniform(-0.2 * mag, mag, (n, 2))
    ctx.count("int_points", np.issubdtype(dt, np.integer) and n > 0)
    P = (np.rint(P) if np.issubdtype(dt, np.integer) else P).astype(dt)
    single = dt is np.float32
    ctx.count("empty", n == 0)
    ctx.count("single", n == 1)
    if kind == "translation":
        d = rng.choice([2, 2, 2, 3])
        if d == 3:
            P = np.hstack([P, P[:, :1]])
        v = ctx.nprng.uniform(-500, 500, d)
        if rng.random() < 0.3:
            v = np.rint(v).astype(rng.choice([int, float]))
        if rng.random() < 0.15:
            v = v * rng.choice([0.0, 1e-6, 1e-5, 1e-3])  # hardly any motion
            ctx.count("tiny_motion")
        if rng.random() < 0.2:
            v = v.astype(np.float32)
        T = cm.TranslationTransformation(v)
        v0 = v.copy()
        ctx.info = {"vector": v, "points": P, "dtype": np.dtype(dt).name}
        if rng.random() < 0.5:
            R, A = T.abs_to_rel(P.copy()), T.rel_to_abs(P.copy())
        else:
            A, R = T.rel_to_abs(P.copy()), T.abs_to_rel(P.copy())
        tol = (1e-3 if single or v.dtype == np.float32 else 1e-9) * max(1.0, mag / 1000)
        for got, sign, name in ((R, 1, "abs_to_rel"), (A, -1, "rel_to_abs")):
            want = P.astype(float) + sign * v0.astype(float)
            ctx.check(np.shape(got) == P.shape and np.allclose(got, want, rtol=0, atol=tol), "%s does not shift by the movement vector" % name, got=got)
        ctx.check(np.allclose(T.rel_to_abs(R), P, rtol=0, atol=tol) and np.allclose(T.abs_to_rel(A), P, rtol=0, atol=tol),
                  "rel_to_abs and abs_to_rel do not undo each other")
        ctx.check(np.array_equal(T.movement_vector, v0) and np.array_equal(v, v0), "the transformation changed")
        ctx.count("translation")
        ctx.count("roundtrip", n)
        # arguments are not modified, results are not views of them
        Q = P.copy()
        for f in (T.abs_to_rel, T.rel_to_abs):
            r = f(Q)
            ctx.check(np.array_equal(Q, P), "the points were modified")
            r += 1
            ctx.check(np.array_equal(Q, P), "the result shares memory with the argument")
        if n:
            ctx.nontrivial(P.tobytes(), v.tobytes())
        ctx.state(kind, n, np.dtype(dt).name)
        return
    H = exact_horizon(rng) if kind == "horizon" else gen_homography(rng)
    H0 = H.copy()
    HI = inv3(H0)
    HF = [[Fraction(float(x)) for x in r] for r in H0]
    special = []
    if kind == "horizon" and n:
        # replace some points by ones on the horizon of one of the two directions
        P = np.rint(P)
        if not np.issubdtype(dt, np.integer):
            P = P.astype(dt)
        for i in range(n):
            if rng.random() < 0.5:
                M = rng.choice([HF, HI])
                a, b, c = M[2]
                if b:
                    y = -(a * int(P[i, 0]) + c) / b
                    if y.denominator == 1:
                        P[i, 1] = int(y)
                elif a:
                    x = -c / a
                    if x.denominator == 1:
                        P[i, 0] = int(x)
    ctx.info = {"homography": H0, "points": P, "dtype": np.dtype(dt).name}
    T = cm.HomographyTransformation(H)
    Q = P.copy()
    first = {}
    order = ["abs_to_rel", "rel_to_abs"]
    rng.shuffle(order)
    scale = max(1.0, float(np.abs(P).max()) if n else 1.0)
    good = {}
    for name in order:
        M = HF if name == "abs_to_rel" else HI
        got = getattr(T, name)(Q)
        ctx.check(isinstance(got, np.ndarray) and got.shape == (n, 2), "%s does not keep the shape" % name, got=np.shape(got))
        ctx.check(np.array_equal(Q, P) and Q.dtype == P.dtype, "%s modified the points" % name)
        first[name] = got.copy()
        good[name] = []
        wref = max([abs(M[2][0]) * 1000, abs(M[2][1]) * 1000, abs(M[2][2])])
        for i in range(n):
            x, y, w = apply(M, (Fraction(float(P[i, 0])), Fraction(float(P[i, 1]))))
            if w == 0:
                ctx.count("horizon_points")
                ctx.count("horizon_rel", name == "rel_to_abs")
                ctx.check(bool(np.isfinite(got[i]).all()), "%s is not finite for a point on the horizon" % name, point=P[i], got=got[i])
                continue
            if abs(w) < wref / 20:
                ctx.check(bool(np.isfinite(got[i]).all()), "%s is not finite near the horizon" % name, point=P[i], got=got[i])
                continue
            want = (float(x / w), float(y / w))
            ctx.check(abs(got[i][0] - want[0]) <= 1e-7 * max(scale, abs(want[0])) and abs(got[i][1] - want[1]) <= 1e-7 * max(scale, abs(want[1])),
                      "%s is not the projective map" % name, point=P[i], got=got[i], want=want)
            good[name].append(i)
            ctx.count("projective")
    for name, back in (("abs_to_rel", "rel_to_abs"), ("rel_to_abs", "abs_to_rel")):
        M = HI if name == "abs_to_rel" else HF
        idx = []
        for i in good[name]:
            q = first[name][i]
            w = M[2][0] * Fraction(float(q[0])) + M[2][1] * Fraction(float(q[1])) + M[2][2]
            if abs(w) > max(abs(M[2][0]) * 1000, abs(M[2][1]) * 1000, abs(M[2][2])) / 20 and np.abs(q).max() < 1e5:
                idx.append(i)
        if idx:
            r = getattr(T, back)(first[name][idx])
            ctx.check(np.allclose(r, P[idx].astype(float), rtol=0, atol=1e-5 * scale), "%s does not undo %s" % (back, name), points=P[idx], got=r)
            ctx.count("roundtrip", len(idx))
    # each point on its own, in another order, and again
    if n:
        for name in order:
            perm = list(range(n))
            rng.shuffle(perm)
            again = getattr(T, name)(Q[perm])
            one = np.vstack([getattr(T, name)(Q[i:i + 1]) for i in range(n)])
            for what, r in (("in another order", again), ("one by one", one[perm])):
                f = first[name][perm]
                ok = np.isclose(r, f, rtol=1e-7, atol=1e-7 * scale)[[j for j, i in enumerate(perm) if i in good[name]]]
                ctx.check(bool(ok.all()), "%s depends on the other points (%s)" % (name, what), got=r, want=f)
            ctx.count("repeated_calls")
        ctx.nontrivial(P.tobytes(), H0.tobytes())
        ctx.sample = {"homography": H0, "points": P[:3], "abs_to_rel": first["abs_to_rel"][:3]}
    ctx.check(np.array_equal(T.homography_matrix, H0) and np.array_equal(H, H0), "the homography changed")
    ctx.check(np.array_equal(Q, P), "the points were modified")
    ctx.count("homography")
    ctx.state(kind, n, np.dtype(dt).name)
