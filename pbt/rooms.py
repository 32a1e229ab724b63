"""Posed views of analytic scenes (inside a box or an ellipsoid): every direction of motion is visible, no occlusion."""
import numpy as np
from hypothesis import strategies as st
from core import *
import rgbds


def shape_of(s, kind, b):
    u = u01(s, 16, "room%d" % b)
    if kind == "box":
        # camera near the origin looking into a corner: three walls with tilted normals
        R = rot_axis_angle(u[:3] - 0.5, 0.25)
        base = np.array([[-0.75, 0.1, -0.65], [0.7, 0.2, -0.68], [0.05, -0.85, -0.53]])
        n = base / np.linalg.norm(base, axis=1, keepdims=True) @ R.T
        d = 1.0 + 0.4 * u[3:6]
        return ("box", n, d)
    ax = np.array([1.3, 0.95, 1.9]) * (0.9 + 0.2 * u[:3])
    R = rot_axis_angle(u[3:6] - 0.5, 0.6)
    return ("ell", R, ax)


def hit(room, o, r):
    """Distance along rays r (n,3) from o to the wall."""
    if room[0] == "box":
        _, n, d = room   # walls n.x + d = 0
        t = -(d[:, None] + (n @ o)[:, None]) / (n @ r.T)
        t = np.where(t > 1e-6, t, np.inf)
        return t.min(0)
    _, R, ax = room
    a, q = (r @ R) / ax, (o @ R) / ax
    A, B, C = (a * a).sum(1), 2 * (a @ q), q @ q - 1
    return (-B + np.sqrt(B * B - 4 * A * C)) / (2 * A)


def views(c):
    """Model of a sequence: c has B, L, H, W, kind, mot, holes, cf, s; true poses relative to a start per element."""
    B, L, H, W, s = c["B"], c["L"], c["H"], c["W"], c["s"]
    d = np.zeros((B, L, H, W))
    K = np.zeros((B, 4, 4))
    rel = np.zeros((B, L, 4, 4))
    v, u = np.mgrid[0:H, 0:W].astype(float)
    for b in range(B):
        room = shape_of(s, c["kind"], b)
        q = u01(s, 4, "K%d" % b)
        K[b] = np.eye(4)
        K[b, 0, 0], K[b, 1, 1] = (0.6 + 0.3 * q[0]) * W, (0.6 + 0.3 * q[1]) * H * (-1 if q[1] * 1000 % 1 < 0.2 else 1)
        K[b, 0, 2], K[b, 1, 2] = (0.4 + 0.2 * q[2]) * (W - 1), (0.4 + 0.2 * q[3]) * (H - 1)
        if c.get("K") is not None:
            K[b] = c["K"]
        K[b] = rgbds.f32(K[b])
        M = np.eye(4)
        for l in range(L):
            if l:
                S = np.eye(4)
                S[:3, :3] = rot_axis_angle(arr(s, (3,), -1, 1, "ra%d,%d" % (b, l)), c["mot"] * (2 * u01(s, 1, "rb%d,%d" % (b, l))[0] - 1))
                S[:3, 3] = c["mot"] * arr(s, (3,), -1, 1, "rt%d,%d" % (b, l))
                M = M @ S
            rel[b, l] = M
            r = np.stack([(u - K[b, 0, 2]) / K[b, 0, 0], (v - K[b, 1, 2]) / K[b, 1, 1], np.ones_like(u)], -1).reshape(-1, 3)
            t = hit(room, M[:3, 3], r @ M[:3, :3].T)
            d[b, l] = np.where(np.isfinite(t), t, 0).reshape(H, W)
    h = u01(s, B * L * H * W, "holes").reshape(B, L, H, W)
    d = rgbds.f32(np.where((h < c["holes"]) | (d > 20), 0, d))
    rgb = rgbds.f32(arr(s, (B, L, H, W, 3), 0, 255, "rgb"))
    start = np.stack([rgbds.f32(pose(s, tag="S%d" % b)) for b in range(B)]) if c["start"] else np.broadcast_to(np.eye(4), (B, 4, 4)).copy()
    true = np.matmul(start[:, None], rel)
    return rgbds.Model(rgb, d, K, rgbds.f32(true), c["cf"]), start, true
