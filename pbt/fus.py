"""Map association and fusion: generators and float64 numpy references."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds, pcs
from gradslam import Pointclouds

frame = fixed(B=st.integers(1, 3), L=st.just(1), H=st.integers(2, 6), W=st.integers(2, 7), cf=st.booleans(), poses=st.just(True),
              holes=st.sampled_from([0.0, 0.2, 0.5, 0.9]), surf=st.sampled_from(rgbds.SURF), neg=st.just(False), s=seeds)
# views of ordinary sizes, or many elements
large = st.one_of(fixed(B=st.integers(1, 2), L=st.just(1), H=st.integers(12, 40), W=st.integers(12, 40), cf=st.booleans(), poses=st.just(True), holes=st.sampled_from([0.0, 0.2, 0.9]),
                        surf=st.sampled_from(rgbds.SURF), neg=st.just(False), s=seeds),
                  fixed(B=st.integers(4, 12), L=st.just(1), H=st.integers(2, 6), W=st.integers(2, 7), cf=st.booleans(), poses=st.just(True), holes=st.sampled_from([0.0, 0.2, 0.9]),
                        surf=st.sampled_from(rgbds.SURF), neg=st.just(False), s=seeds))
DIST = [0.05, 0.1, 0.3, 1, 1.5]
ANGLE = [1, 10, 20, 45, 80]


def f32(a):
    return rgbds.f32(a)


def scene_points(m, s, ns, dist_th, dot_th, crowd=0.0):
    """Map points (points, normals per element) placed around what the frame sees: on the ray of a pixel near or off its surface point,
    behind, outside, on the border, anywhere."""
    B, _, H, W = m.shape
    V, (N, _) = m.vertex(), m.normal()
    P = m.poses[:, 0]
    pts, nrm, kinds = [], [], []
    for b in range(B):
        n = ns[b % len(ns)]
        u = u01(s, 16 * max(n, 1), "pt%d" % b).reshape(-1, 16)
        K = m.K[b]
        p, q, kk = np.zeros((n, 3)), np.zeros((n, 3)), []
        hot = int(u01(s, 1, "hot%d" % b)[0] * H * W)
        for i in range(n):
            a = u[i]
            k = int(a[0] * 10)
            pix = hot if a[14] < crowd else int(a[1] * H * W)
            h, w = pix // W, pix % W
            off = [0.0, 0.0, 0.2, 0.45, 0.3][int(a[2] * 5)]
            x, y = w + (2 * a[3] - 1) * off, h + (2 * a[4] - 1) * off
            z = m.d[b, 0, h, w]
            z = z if z > 0 else 0.5 + 2 * a[5]
            if k < 5:
                z = z + [0.0, 0.3, -0.5, 0.8, -1.3, 2.0][int(a[6] * 6)] * dist_th * (0.5 + a[5])
                kk.append("near")
            elif k == 5:
                z = -z
                kk.append("behind")
            elif k == 6:
                x, y = (2 * a[7] - 0.5) * W, (2 * a[8] - 0.5) * H
                kk.append("about")
            elif k == 7:   # within half a pixel outside the border, or just inside
                e = [-0.45, -0.2, -0.01, 0.01, 0.0][int(a[7] * 5)]
                if a[8] < 0.5:
                    x = e if a[9] < 0.5 else W - 1 - e
                else:
                    y = e if a[9] < 0.5 else H - 1 - e
                kk.append("border")
            elif k == 8:
                z = 0.03 + 4 * a[5]
                kk.append("ray")
            else:
                kk.append("near")
            if abs(z) < 0.02:
                z = 0.3
            c = np.array([(x - K[0, 2]) / K[0, 0] * z, (y - K[1, 2]) / K[1, 1] * z, z])
            p[i] = P[b][:3, :3] @ c + P[b][:3, 3]
            v = N[b, 0, h, w]
            if np.linalg.norm(v) < 0.5 or a[15] < 0.1:
                v = a[10:13] - 0.5 + 1e-3
                v = v / np.linalg.norm(v)
            ang = [0.0, 0.0, 0.5, 0.9, 1.1, 2.0][int(a[9] * 6)] * np.arccos(np.clip(dot_th, -1, 1)) + 0.02 * a[13]
            ax = np.cross(v, a[10:13] - 0.5)
            v = rot_axis_angle(ax, ang) @ v
            q[i] = P[b][:3, :3] @ v
        pts.append(f32(p))
        nrm.append(f32(q))
        kinds.append(kk)
    return pts, nrm, kinds


def active(pts, m):
    """Per element: (sure inside, unsure, row, column, pixel unsure) arrays over its map points."""
    B, _, H, W = m.shape
    out = []
    for b in range(B):
        p = np.asarray(pts[b], np.float64).reshape(-1, 3)
        M = np.linalg.inv(m.poses[b, 0])
        c = p @ M[:3, :3].T + M[:3, 3]
        z = c[:, 2]
        zs = np.where(np.abs(z) < 1e-9, 1e-9, z)
        K = m.K[b]
        u = K[0, 0] * c[:, 0] / zs + K[0, 2]
        v = K[1, 1] * c[:, 1] / zs + K[1, 2]
        sc = 1 + np.abs(p).max(initial=0) + np.abs(m.poses[b, 0][:3, 3]).max()
        tol = 4e-6 * sc * max(abs(K[0, 0]), abs(K[1, 1])) * (1 + np.abs(c[:, :2]).max(1, initial=0) / np.abs(zs)) / np.abs(zs)
        inside = (z > 0) & (u > -0.0005) & (u < W - 1 + 0.0005) & (v > -0.0005) & (v < H - 1 + 0.0005)
        t = np.maximum(tol, 1e-5)
        g = lambda x, n: ((x < -0.0005 + t) & (x > -0.002 - t) & ~((x > -0.0005 + t))) | ((x > n - 1 + 0.0005 - t) & (x < n - 1 + 0.002 + t))
        unsure = (g(u, W) | g(v, H) | (np.abs(z) < 1e-3)) | (tol > 0.05)
        # a coordinate far outside in the other direction makes it surely outside
        far = (u < -0.002 - t) | (u > W - 1 + 0.002 + t) | (v < -0.002 - t) | (v > H - 1 + 0.002 + t) | (z < -1e-3)
        unsure &= ~(far & (tol <= 0.05))
        frac = lambda x: np.abs(np.abs(x - np.floor(x)) - 0.5)
        pu = (frac(u) < t + 1e-5) | (frac(v) < t + 1e-5)
        out.append((inside & ~unsure, unsure, np.clip(np.round(v), 0, H - 1).astype(int), np.clip(np.round(u), 0, W - 1).astype(int), pu))
    return out


def similar_mask(pts, nrm, m, table, dist_th, dot_th):
    """(keep, unsure) per row of the table."""
    G, (GN, good) = m.glob(), m.gnormal()
    keep, uns = [], []
    for b, n, h, w in table:
        d = np.linalg.norm(pts[b][n] - G[b, 0, h, w])
        c = float(nrm[b][n] @ GN[b, 0, h, w])
        has = m.mask()[b, 0, h, w]
        e1, e2 = 3e-5 * (1 + np.abs(G[b, 0, h, w]).max()), 2e-3
        ok1, ok2 = d < dist_th, c > dot_th
        u1 = abs(d - dist_th) < e1
        u2 = (abs(c - dot_th) < e2 and has) or (has and not good[b, 0, h, w])
        # one criterion surely failing settles it
        no = (not ok1 and not u1) or (not ok2 and not u2)
        keep.append(ok1 and ok2)
        uns.append((u1 or u2) and not no)
    return np.array(keep, bool), np.array(uns, bool)


def best(pts, conf, m, table):
    """{(b,h,w): (acceptable rows)}: rows of highest confidence, and among those within rounding of the smallest distance."""
    G = m.glob()
    by = {}
    for r in table:
        by.setdefault((r[0], r[2], r[3]), []).append(r)
    out = {}
    for (b, h, w), rs in by.items():
        c = np.array([conf[b][r[1]] for r in rs])
        d = np.array([np.linalg.norm(pts[b][r[1]] - G[b, 0, h, w]) for r in rs])
        top = c >= c.max() * (1 - 1e-6)
        dm = d[top].min()
        tol = 2e-5 * (1 + np.abs(G[b, 0, h, w]).max())
        out[b, h, w] = [tuple(r) for r, t, x in zip(rs, top, d) if t and x <= dm + tol]
    return out


def alpha(m, sigma):
    V = m.vertex()
    return np.clip(np.exp(-(V ** 2).sum(-1) / (2 * sigma ** 2)), 1e-7, 1.01)


class Map:
    """points, normals, colors, conf: lists of per-element arrays."""

    def __init__(self, points, normals, colors, conf):
        self.points, self.normals, self.colors, self.conf = points, normals, colors, conf

    @classmethod
    def empty(cls, B):
        z = lambda c: [np.zeros((0, c)) for _ in range(B)]
        return cls(z(3), z(3), z(3), z(1))

    @classmethod
    def of(cls, pc, B):
        s = pcs.snapshot(pc)
        if s.B == 0:
            return cls.empty(B)
        return cls(s.points, s.attrs["normals"], s.attrs["colors"], s.attrs["features"])

    def build(self):
        t = lambda xs: [T(x) for x in xs]
        return Pointclouds(points=t(self.points), normals=t(self.normals), colors=t(self.colors), features=t(self.conf))


def frame_normals(m):
    """The library's own global normals (judged by C04), channels last: their conditioning must not blur what fusion does with them."""
    x = rgbds.build(m)
    return rgbds.unlay(x.global_normal_map, m.cf, "global normal map").astype(np.float64)


def fuse(mp, m, table, sigma, GN=None):
    """Reference of fusing frame m into Map mp; returns (Map, matched indices per element, number appended)."""
    G = m.glob()
    GN = frame_normals(m) if GN is None else GN
    A = alpha(m, sigma)
    B, _, H, W = m.shape
    new = m.mask()[:, 0].copy()
    out = Map([p.copy() for p in mp.points], [p.copy() for p in mp.normals], [p.copy() for p in mp.colors], [p.copy() for p in mp.conf])
    hit = [set() for _ in range(B)]
    for b, n, h, w in table:
        c, a = out.conf[b][n, 0], A[b, 0, h, w]
        for dst, src in ((out.points, G), (out.normals, GN), (out.colors, m.rgb)):
            dst[b][n] = (c * dst[b][n] + a * src[b, 0, h, w]) / (c + a)
        out.conf[b][n, 0] = c + a
        new[b, h, w] = False
        hit[b].add(int(n))
    for b in range(B):
        k = new[b]
        out.points[b] = np.concatenate([out.points[b], G[b, 0][k]])
        out.normals[b] = np.concatenate([out.normals[b], GN[b, 0][k]])
        out.colors[b] = np.concatenate([out.colors[b], m.rgb[b, 0][k]])
        out.conf[b] = np.concatenate([out.conf[b], A[b, 0][k][:, None]])
    return out, hit, [int(k.sum()) for k in new]


def goodness(m):
    return m.gnormal()[1][:, 0]


def compare(pc, ref, what, tol=3e-5, ntol=None):
    """Every attribute of the map equals the reference (normals to the precision of float32 normal maps)."""
    check(pc.has_points and pc.has_normals and pc.has_colors and pc.has_features, "%s: an attribute is missing", what)
    B = len(ref.points)
    check(len(pc) == B, "%s: %d clouds", what, len(pc))
    for b in range(B):
        w = "%s of element %d" % (what, b)
        sc = 1 + np.abs(ref.points[b]).max(initial=0)
        close(pc.points_list[b], ref.points[b], "points: " + w, rtol=tol, atol=tol, scale=sc)
        close(pc.colors_list[b], ref.colors[b], "colors: " + w, rtol=tol, atol=1e-3)
        close(pc.features_list[b], ref.conf[b], "confidences: " + w, rtol=1e-4, atol=2e-7)
        if ntol is not None:
            close(pc.normals_list[b], ref.normals[b], "normals: " + w, rtol=0, atol=ntol)


def reference_step(mp, m, dist_th, dot_th, sigma):
    """Full association and fusion in float64; None when some decision hangs on rounding."""
    act = active(mp.points, m)
    rows = []
    for b, (ins, uns, h, w, pu) in enumerate(act):
        if uns.any() or (pu & ins).any():
            return None
        rows += [(b, int(n), int(h[n]), int(w[n])) for n in np.flatnonzero(ins)]
    keep, uns = similar_mask(mp.points, mp.normals, m, rows, dist_th, dot_th)
    if len(rows) and uns.any():
        return None
    rows = [r for r, k in zip(rows, keep) if k]
    bst = best(mp.points, [c[:, 0] for c in mp.conf], m, rows)
    if any(len(v) > 1 for v in bst.values()):
        return None
    # near ties of confidence
    for (b, h, w), v in bst.items():
        c = sorted((mp.conf[b][r[1], 0] for r in rows if (r[0], r[2], r[3]) == (b, h, w)), reverse=True)
        if len(c) > 1 and 0 < c[0] - c[1] < 1e-4 * c[0]:
            return None
    table = [v[0] for v in bst.values()]
    return fuse(mp, m, table, sigma) + (table,)


def sequence(c):
    """Frames of one surface seen from nearby poses (so that many but not all pixels match)."""
    base = rgbds.model_of(c["f"])
    B, _, H, W = base.shape
    ds, ps, rgbs = [], [], []
    for l in range(c["L"]):
        h = u01(c["s"], B * H * W, "hole%d" % l).reshape(B, 1, H, W)
        d = f32(np.where(base.d > 0, base.d + c["drift"] * c["dist"] * arr(c["s"], base.d.shape, -1, 1, "dr%d" % l), 0))
        d = np.where(h < 0.15 * c["f"]["holes"] * 2, 0.0, d)
        P = []
        for b in range(B):
            M = np.eye(4)
            M[:3, :3] = rot_axis_angle(arr(c["s"], (3,), -1, 1, "ra%d,%d" % (b, l)), c["move"] * u01(c["s"], 1, "rb%d,%d" % (b, l))[0])
            M[:3, 3] = c["move"] * arr(c["s"], (3,), -.5, .5, "rt%d,%d" % (b, l))
            P.append(base.poses[b, 0] @ M)
        ds.append(d)
        ps.append(f32(np.stack(P))[:, None])
        rgbs.append(f32(arr(c["s"], base.rgb.shape, 0, 255, "rgb%d" % l)))
    return [rgbds.Model(r, d, base.K, p, base.cf) for r, d, p in zip(rgbs, ds, ps)]
