"""Textbook Kalman filters, written from the definitions (not from norfair's code)."""
import numpy as np


class CV1:
    """Independent two-state constant-velocity filters, one per coordinate; covariance propagated when a detection is received."""

    def __init__(self, points, R=4.0, Q=0.1, pv=10.0, pvc=0.0, vv=1.0):
        self.pos = np.asarray(points, dtype=float).copy()
        self.vel = np.zeros_like(self.pos)
        sh = self.pos.shape
        self.P = np.zeros(sh + (2, 2))
        self.P[..., 0, 0], self.P[..., 0, 1], self.P[..., 1, 0], self.P[..., 1, 1] = pv, pvc, pvc, vv
        self.R, self.Q = R, Q
        self.F = np.array([[1.0, 1.0], [0.0, 1.0]])

    def predict(self):
        self.pos = self.pos + self.vel

    def update(self, z, mask, R=None):
        """mask: bool per point; R: noise per coordinate, if not the usual one"""
        R = np.broadcast_to(np.asarray(self.R if R is None else R, float), self.pos.shape)
        z = np.asarray(z, dtype=float)
        P = np.einsum("ij,...jk,lk->...il", self.F, self.P, self.F) + self.Q * np.eye(2)
        m = np.broadcast_to(np.asarray(mask, bool)[:, None], self.pos.shape)
        S = P[..., 0, 0] + R
        K = P[..., :, 0] / S[..., None]
        e = z - self.pos
        self.pos = np.where(m, self.pos + K[..., 0] * e, self.pos)
        self.vel = np.where(m, self.vel + K[..., 1] * e, self.vel)
        IKH = np.broadcast_to(np.eye(2), P.shape).copy()
        IKH[..., :, 0] -= K
        # Joseph form
        Pn = np.einsum("...ij,...jk,...lk->...il", IKH, P, IKH) + R[..., None, None] * K[..., :, None] * K[..., None, :]
        self.P = np.where(m[..., None, None], Pn, P)


class Dense:
    """Dense constant-velocity filter over all coordinates, predicted in every frame."""

    def __init__(self, points, R=4.0, Q=0.1, P=10.0):
        p = np.asarray(points, dtype=float)
        self.shape = p.shape
        n = p.size
        self.n = n
        self.x = np.concatenate([p.ravel(), np.zeros(n)])
        self.P = np.diag(np.concatenate([np.ones(n), P * np.ones(n)]))
        self.Q = np.diag(np.concatenate([np.ones(n), Q * np.ones(n)]))
        self.R = R
        self.F = np.eye(2 * n)
        self.F[:n, n:] = np.eye(n)

    @property
    def pos(self):
        return self.x[: self.n].reshape(self.shape)

    @pos.setter
    def pos(self, v):
        self.x[: self.n] = np.asarray(v).ravel()

    @property
    def vel(self):
        return self.x[self.n:].reshape(self.shape)

    @vel.setter
    def vel(self, v):
        self.x[self.n:] = np.asarray(v).ravel()

    def predict(self):
        self.x = self.F @ self.x
        self.P = self.F @ self.P @ self.F.T + self.Q

    def update(self, z, mask):
        m = np.repeat(np.asarray(mask, bool), self.shape[1])
        H = np.hstack([np.eye(self.n), np.zeros((self.n, self.n))])[m]  # only the coordinates that were measured
        if len(H) == 0:
            return
        y = np.asarray(z, float).ravel()[m] - H @ self.x
        S = H @ self.P @ H.T + self.R * np.eye(len(H))
        K = np.linalg.solve(S, H @ self.P).T
        self.x = self.x + K @ y
        A = np.eye(2 * self.n) - K @ H
        self.P = A @ self.P @ A.T + self.R * K @ K.T


class Hold:
    """No filter: the last seen position of each point, velocity zero."""

    def __init__(self, points):
        self.pos = np.asarray(points, dtype=float).copy()
        self.vel = np.zeros_like(self.pos)

    def predict(self):
        pass

    def update(self, z, mask):
        self.pos = np.where(np.asarray(mask, bool)[:, None], np.asarray(z, float), self.pos)


class Track:
    """A filter model plus the rule for points that are seen for the first time."""

    def __init__(self, flt, seen):
        self.f = flt
        self.seen = np.asarray(seen, bool).copy()

    def predict(self):
        self.f.predict()

    def update(self, z, mask):
        mask = np.asarray(mask, bool)
        self.f.update(z, mask)
        pos, vel = np.array(self.f.pos, float), np.array(self.f.vel, float)
        first = mask & ~self.seen
        pos[first] = np.asarray(z, float)[first]
        vel[~self.seen] = 0.0
        self.f.pos, self.f.vel = pos, vel
        self.seen |= mask


def seen_mask(spec, thr):
    if spec.scores is None:
        return np.ones(len(spec.points), bool)
    return np.asarray(spec.scores) > thr
