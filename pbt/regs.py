"""Registration: generators and float64 numpy references of point-to-plane ICP and gradICP."""
import numpy as np
from core import arr, rot_axis_angle, pose


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def exp(xi):
    w = xi[3:]
    t = np.linalg.norm(w)
    W = hat(w)
    if t < 1e-3:  # series, exact to double precision here
        a, b, c = 1 - t * t / 6, 0.5 - t * t / 24, 1 / 6 - t * t / 120
    else:
        a, b, c = np.sin(t) / t, (1 - np.cos(t)) / t ** 2, (t - np.sin(t)) / t ** 3
    M = np.eye(4)
    M[:3, :3] += a * W + b * W @ W
    M[:3, 3] = (np.eye(3) + b * W + c * W @ W) @ xi[:3]
    return M


def act(M, p):
    return p @ M[:3, :3].T + M[:3, 3]


def cloud(s, kind, n, tag="c"):
    """(points, unit normals): points on a surface with normals in all directions, or random."""
    if kind == "random":
        p = arr(s, (n, 3), -1, 1, tag + "p")
        v = arr(s, (n, 3), -1, 1, tag + "n")
        v = np.where(np.linalg.norm(v, axis=1, keepdims=True) < 0.2, np.array([[0.3, -0.5, 0.8]]), v)
        return p, v / np.linalg.norm(v, axis=1, keepdims=True)
    if kind == "corner":  # three orthogonal walls
        u = arr(s, (n, 2), 0.1, 1.2, tag + "u")
        w = np.arange(n) % 3
        p = np.zeros((n, 3))
        v = np.zeros((n, 3))
        for i in range(n):
            a = [k for k in range(3) if k != w[i]]
            p[i, a] = u[i]
            v[i, w[i]] = 1.0
        R = rot_axis_angle(arr(s, (3,), -1, 1, tag + "ax"), 0.7)
        return p @ R.T + np.array([0.1, -0.2, 0.4]), v @ R.T
    # ellipsoid
    d = arr(s, (n, 3), -1, 1, tag + "d")
    d = np.where(np.linalg.norm(d, axis=1, keepdims=True) < 0.15, np.array([[0.6, 0.3, -0.7]]), d)
    d /= np.linalg.norm(d, axis=1, keepdims=True)
    ax = np.array([1.0, 0.7, 0.45])
    p = d * ax
    v = d / ax
    return p, v / np.linalg.norm(v, axis=1, keepdims=True)


def nearest(src, tgt):
    d = np.linalg.norm(src[:, None] - tgt[None], axis=-1)
    i = d.argmin(1)
    return i, d[np.arange(len(src)), i], d


def rows(src, tgt, nrm, thresh=None):
    i, d, _ = nearest(src, tgt)
    k = np.ones(len(src), bool) if thresh is None else d < thresh
    s, i = src[k], i[k]
    n = nrm[i]
    A = np.concatenate([n, np.cross(s, n)], 1)
    b = (n * (tgt[i] - s)).sum(1)
    return A, b, i, k


def solve(A, b, damp):
    return np.linalg.solve(A.T @ A + damp * np.eye(A.shape[1]), A.T @ b)


class Margin:
    """How close a reference run came to a decision boundary (neighbour choice, filter, acceptance, conditioning)."""

    def __init__(self):
        self.v = np.inf
        self.cond = 0.0
        self.step = 0.0

    def rows(self, src, tgt, nrm, thresh):
        i, d, D = nearest(src, tgt)
        if len(tgt) > 1:
            two = np.partition(D, 1, axis=1)
            self.v = min(self.v, float((two[:, 1] - two[:, 0]).min(initial=np.inf)))
        if thresh is not None:
            self.v = min(self.v, float(np.abs(d - thresh).min(initial=np.inf)))
        return rows(src, tgt, nrm, thresh)

    def solved(self, A, xi):
        self.cond = max(self.cond, conditioning(A))
        self.step = float(np.abs(xi).max())


def icp(src, tgt, nrm, init, iters, damp, thresh, mg=None):
    mg = mg or Margin()
    src = act(init, src)
    M = init.copy()
    idx = None
    for _ in range(iters):
        A, b, idx, _ = mg.rows(src, tgt, nrm, thresh)
        xi = solve(A, b, damp)
        mg.solved(A, xi)
        E = exp(xi)
        one = act(E, src)
        b1 = mg.rows(one, tgt, nrm, thresh)[1]
        e0, e1 = b @ b, b1 @ b1
        if abs(e1 - e0) < 1e-3 * max(e0, 1e-9) and mg.step > 1e-4:
            mg.v = 0.0  # acceptance hangs on rounding
        if e1 < e0:
            src, M = one, E @ M
            damp /= 2
        else:
            damp *= 2
    return M, idx


def gradicp(src, tgt, nrm, init, iters, damp, thresh, lmax, B, B2, nu, mg=None):
    mg = mg or Margin()
    src = act(init, src)
    M = init.copy()
    idx = None
    lmin = 1.0 / lmax
    for _ in range(iters):
        A, b, idx, _ = mg.rows(src, tgt, nrm, thresh)
        xi = solve(A, b, damp)
        mg.solved(A, xi)
        b1 = mg.rows(act(exp(xi), src), tgt, nrm, thresh)[1]
        e = np.clip(b1 @ b1 - b @ b, -70, 70)
        damp = damp * (lmin + (lmax - lmin) / (1 + np.exp(-B * e)))
        E = exp(xi / (1 + np.exp(-B2 * e)) ** (1.0 / nu))
        src, M = act(E, src), E @ M
    return M, idx


def conditioning(A):
    if len(A) < 6:
        return np.inf
    s = np.linalg.svd(A, compute_uv=False)
    return s[0] / max(s[-1], 1e-300)
