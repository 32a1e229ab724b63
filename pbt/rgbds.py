"""RGB-D batches: generators, numpy reference of every derived map, comparison."""
import numpy as np
import torch
from hypothesis import strategies as st
import core
from core import arr, u01, T, seeds, fixed, check, close, same, fail, npy, rot, pose, at_home
from gradslam import RGBDImages

SURF = ["rough", "smooth", "plane", "steps"]
BATCH = dict(B=st.integers(1, 3), L=st.integers(1, 3), H=st.integers(2, 6), W=st.integers(2, 7), cf=st.booleans(),
             poses=st.sampled_from([True, True, True, False]), holes=st.sampled_from([0.0, 0.2, 0.5, 0.9]),
             surf=st.sampled_from(SURF), neg=st.sampled_from([False] * 5 + [True]), s=seeds,
             turn=st.sampled_from([1.0] * 8 + [1e-2, 3e-4]))  # below 1: a camera that hardly moves, from where it started or from anywhere
unit = fixed(**BATCH)  # scenes of about a metre
# ... of any size; exact: depths in steps as a sensor delivers them and a camera of round numbers, so that coordinates are often exactly 0 or equal
batch = fixed(**BATCH, mag=st.sampled_from([1.0] * 5 + [1e-4, 1e-2, 60.0]), exact=st.sampled_from([False] * 5 + [True]))
# ... some with the positions of their pixels given
gridded = fixed(**BATCH, mag=st.sampled_from([1.0] * 5 + [1e-4, 1e-2, 60.0]), exact=st.sampled_from([False] * 5 + [True]), grid=st.sampled_from([False] * 4 + [True]))
# images of ordinary sizes, or many elements or frames
large = st.one_of(fixed(**dict(BATCH, H=st.integers(7, 130), W=st.integers(8, 130), B=st.integers(1, 2), L=st.integers(1, 2)), mag=st.sampled_from([1.0, 1.0, 60.0])),
                  fixed(**dict(BATCH, B=st.integers(1, 12), L=st.integers(1, 12)), mag=st.sampled_from([1.0, 1.0, 60.0])))


def f32(a):
    return np.asarray(a, dtype=np.float64).astype(np.float32).astype(np.float64)


def kmat(s, H, W, tag="K"):
    v = arr(s, (4,), 0, 1, tag)
    K = np.eye(4)
    K[0, 0], K[1, 1] = (0.7 + 1.5 * v[0]) * W, (0.7 + 1.5 * v[1]) * H
    K[0, 2], K[1, 2] = v[2] * (W - 1), v[3] * (H - 1)
    u = arr(s, (2,), 0, 1, tag + "odd")
    if u[0] < 0.15:      # y axis upwards, as in the ICL data
        K[1, 1] *= -1
    elif u[0] < 0.2:
        K[0, 0] *= -1
    if u[1] < 0.1:       # principal point outside the image
        K[0, 2] = 1.4 * W if u[1] < 0.05 else -0.4 * W
    return f32(K)


def depth(s, B, L, H, W, surf, holes, neg=False, tag="d"):
    d = np.zeros((B, L, H, W))
    vv, uu = np.mgrid[0:H, 0:W]
    for b in range(B):
        for l in range(L):
            c = arr(s, (8,), 0, 1, "%s%d,%d" % (tag, b, l))
            if surf == "rough":
                z = arr(s, (H, W), 0.4, 3.0, "%sr%d,%d" % (tag, b, l))
            elif surf == "smooth":
                z = 1.5 + 0.3 * np.sin(1.3 * uu + 6 * c[0]) * (0.5 + c[1]) + 0.3 * np.cos(1.1 * vv + 6 * c[2])
            elif surf == "plane":
                z = 1.2 + c[0] + 0.1 * (c[1] - .5) * uu + 0.1 * (c[2] - .5) * vv
            else:
                z = np.where(uu < c[0] * W, 0.7 + c[1], 1.6 + c[2]) + np.where(vv < c[3] * H, 0.0, 0.4)
            d[b, l] = z
    h = u01(s, B * L * H * W, tag + "holes").reshape(B, L, H, W)
    d = np.where(h < holes, np.where(h < holes * 0.3, -1.0, 0.0) if neg else 0.0, d)
    return f32(d)


class Model:
    """rgb (B,L,H,W,3), depth (B,L,H,W), K (B,4,4), poses (B,L,4,4) or None; channels last always; cf is the object's layout;
    grid (B,L,H,W,3): the given positions of the pixels, None for columns and rows."""

    def __init__(self, rgb, d, K, poses, cf, grid=None):
        self.rgb, self.d, self.K, self.poses, self.cf, self.grid = rgb, d, K, poses, cf, grid

    def copy(self):
        return Model(self.rgb, self.d, self.K, self.poses, self.cf, self.grid)

    def sel(self, b, l):
        return Model(self.rgb[b][:, l], self.d[b][:, l], self.K[b], None if self.poses is None else self.poses[b][:, l], self.cf,
                     None if self.grid is None else self.grid[b][:, l])

    @property
    def shape(self):
        return self.d.shape

    def mask(self):
        return self.d > 0

    def vertex(self):
        B, L, H, W = self.d.shape
        v, u = np.mgrid[0:H, 0:W].astype(np.float64)
        if self.grid is not None:
            u, v = self.grid[..., 0], self.grid[..., 1]
        K = self.K[:, None, None, None]
        x = (u - K[..., 0, 2]) / K[..., 0, 0] * self.d
        y = (v - K[..., 1, 2]) / K[..., 1, 1] * self.d
        return np.stack([x, y, self.d], -1) * self.mask()[..., None]

    def size(self, glob=False):
        """Largest coordinate that enters a map."""
        s = float(np.abs(self.vertex()).max())
        return max(s, float(np.abs(self.poses[..., :3, 3]).max())) if glob and self.poses is not None else s

    def normal(self):
        """(normals, well-conditioned mask)."""
        V = self.vertex()
        dh, dv = np.zeros_like(V), np.zeros_like(V)
        dh[:, :, :, :-1] = V[:, :, :, 1:] - V[:, :, :, :-1]
        dh[:, :, :, -1] = dh[:, :, :, -2]
        dv[:, :, :-1] = V[:, :, 1:] - V[:, :, :-1]
        dv[:, :, -1] = dv[:, :, -2]
        c = np.cross(dh, dv)
        n = np.linalg.norm(c, axis=-1, keepdims=True)
        s = np.linalg.norm(dh, axis=-1, keepdims=True) * np.linalg.norm(dv, axis=-1, keepdims=True)
        lo = 0.005 * max(np.abs(V).max(), 1e-30)
        good = (n > 0.03 * s) & (np.linalg.norm(dh, axis=-1, keepdims=True) > lo) & (np.linalg.norm(dv, axis=-1, keepdims=True) > lo)
        m = self.mask()[..., None]
        return c / np.where(n == 0, 1, n) * m, good[..., 0] | ~m[..., 0]

    def glob(self):
        V = self.vertex()
        if self.poses is None:
            return V
        P = self.poses[:, :, None, None]
        return (np.einsum("blhwij,blhwj->blhwi", np.broadcast_to(P[..., :3, :3], V.shape + (3,)), V) + P[..., :3, 3]) * self.mask()[..., None]

    def gnormal(self):
        N, good = self.normal()
        if self.poses is None:
            return N, good
        P = self.poses[:, :, None, None]
        return np.einsum("blhwij,blhwj->blhwi", np.broadcast_to(P[..., :3, :3], N.shape + (3,)), N), good


def model_of(c, **kw):
    c = dict(c, **kw)
    B, L, H, W, s = c["B"], c["L"], c["H"], c["W"], c["s"]
    rgb = f32(arr(s, (B, L, H, W, 3), 0, 255, "rgb"))
    d = depth(s, B, L, H, W, c.get("surf", "rough"), c.get("holes", 0.0), c.get("neg", False))
    d = f32(d * c.get("mag", 1.0))
    K = np.stack([kmat(s, H, W, "K%d" % b) for b in range(B)])
    if c.get("exact"):
        d = d / c.get("mag", 1.0) * max(c.get("mag", 1.0), 1e-2)      # (cross products of mere rounding noise must not underflow)
        q = 0.25 * max(c.get("mag", 1.0), 1e-2)
        d = f32(np.sign(d) * q * np.maximum(1, np.round(np.abs(d) / q)))
        K[:, :2, 2] = np.round(K[:, :2, 2])
        K[:, (0, 1), (0, 1)] = np.sign(K[:, (0, 1), (0, 1)]) * 2.0 ** np.round(np.log2(np.abs(K[:, (0, 1), (0, 1)])))
    k = c.get("turn", 1.0)
    P0 = pose(s, tag="P0") if k < 1 and s % 2 else np.eye(4)
    P = np.stack([np.stack([f32(P0 @ pose(s, np.pi * k, 2.0 * k, tag="P%d,%d" % (b, l))) for l in range(L)]) for b in range(B)]) if c["poses"] else None
    G = None
    if c.get("grid"):      # e.g. pixel centres, or positions corrected for the lens
        v, u = np.mgrid[0:H, 0:W].astype(np.float64)
        G = np.broadcast_to(np.stack([u, v, np.ones_like(u)], -1), (B, L, H, W, 3)).copy()
        G[..., :2] += 0.5 + arr(s, (B, L, H, W, 2), -0.3, 0.3, "grid")
        G = f32(G)
    return Model(rgb, d, K, P, c["cf"], G)


def lay(x, cf):
    """channels-last numpy (B,L,H,W,C) to the layout."""
    return np.moveaxis(x, -1, 2) if cf else x


def build(m, dtype=torch.float32, **kw):
    t = lambda a: T(np.ascontiguousarray(a), dtype)
    if m.grid is not None:
        kw = dict(kw, pixel_pos=t(lay(m.grid, m.cf)))
    return RGBDImages(t(lay(m.rgb, m.cf)), t(lay(m.d[..., None], m.cf)), t(m.K[:, None]), None if m.poses is None else t(m.poses),
                      channels_first=m.cf, **kw)


def make(c, **kw):
    m = model_of(c, **kw)
    return build(m), m


VIEWS = ["rgb_image", "depth_image", "intrinsics", "poses", "valid_depth_mask", "vertex_map", "normal_map", "global_vertex_map",
         "global_normal_map", "shape"]


def unlay(t, cf, what):
    a = npy(t, what)
    check(a.ndim == 5, "%s has rank %d", what, a.ndim)
    return np.moveaxis(a, 2, -1) if cf else a


def check_normals(got, want, good, what, tol=2e-3):
    got = got.astype(np.float64)
    check(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    check(np.isfinite(got).all(), "%s has non-finite entries", what)
    n = np.linalg.norm(got, axis=-1)
    bad = good & (np.abs(got - want).max(-1) > tol)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        fail("%s: got %s, expected %s at %s (%d of %d)", what, got[i], want[i], i, int(bad.sum()), bad.size)
    check((n < 1 + 1e-3).all(), "%s has a vector longer than 1", what)
    w = np.linalg.norm(want, axis=-1)
    check((np.abs(n - w)[good] < 1e-3).all(), "%s is not unit length", what)


def check_view(x, m, view, what, tol=2e-5):
    w = "%s: %s" % (what, view)
    B, L, H, W = m.shape
    if view == "shape":
        check(tuple(x.shape) == (B, L, H, W), "%s is %s, expected %s", w, tuple(x.shape), (B, L, H, W))
        check(len(x) == B, "%s: len %s", w, len(x))
        check(bool(x.channels_first) == m.cf, "%s: channels_first is %s", w, x.channels_first)
        check(x.cdim == (2 if m.cf else 4), "%s: cdim is %s", w, x.cdim)
        check(bool(x.has_poses) == (m.poses is not None), "%s: has_poses is %s", w, x.has_poses)
        check((x.h, x.w) == (H, W), "%s: h, w are %s", w, (x.h, x.w))
        if m.grid is not None:
            same(unlay(x.pixel_pos, m.cf, w).astype(np.float64), m.grid, w + " and pixel positions")
        at_home(x, w)
        return
    g = getattr(x, view)
    at_home(g, w)
    if view == "poses":
        if m.poses is None:
            check(g is None, "%s present", w)
        else:
            same(npy(g, w).astype(np.float64), m.poses, w)
    elif view == "intrinsics":
        same(npy(g, w).astype(np.float64), m.K[:, None], w)
    elif view == "rgb_image":
        same(unlay(g, m.cf, w).astype(np.float64), m.rgb, w)
    elif view == "depth_image":
        same(unlay(g, m.cf, w).astype(np.float64), m.d[..., None], w)
    elif view == "valid_depth_mask":
        check(npy(g, w).dtype == np.bool_, "%s has dtype %s", w, npy(g, w).dtype)
        same(unlay(g, m.cf, w), m.mask()[..., None], w)
    else:
        a = unlay(g, m.cf, w)
        inv = ~m.mask()
        if view == "vertex_map":
            close(a, m.vertex(), w, rtol=tol, atol=tol, scale=m.size(), floor=0)
        elif view == "global_vertex_map":
            close(a, m.glob(), w, rtol=tol, atol=tol, scale=m.size(True), floor=0)
        elif view == "normal_map":
            check_normals(a, *m.normal(), w)
        else:
            check_normals(a, *m.gnormal(), w)
        check((a[inv] == 0).all(), "%s: pixels without depth are not zero", w)


def check_all(x, m, what, order=0):
    ks = arr(order, (len(VIEWS),), 0, 1, "order")
    for i in np.argsort(ks, kind="stable"):
        check_view(x, m, VIEWS[i], what)
