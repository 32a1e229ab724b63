"""C33: another world frame, unit of length, coloring, image orientation or order of points changes results accordingly and no further."""
import numpy as np
import torch
from hypothesis import strategies as st
import core
from core import *
from core import T
import pcs, regs, rgbds
from checks.c28 import seeds
from gradslam import Pointclouds, RGBDImages
from gradslam.odometry import icputils
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
from gradslam.slam import fusionutils as fu
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.structures.utils import pointclouds_from_rgbdimages

rule("C33", "A case is an operation on frames and maps, and a change of the input of which the effect is known: all lengths times a power of two, the world turned by quarter turns, other colors, color channels exchanged or scaled, "
     "the points of the maps in another order, the image mirrored, transposed, or with blank rows and columns added around it. The result for the changed input must be the changed result: bit for bit where the change is exact "
     "in floating point, within rounding otherwise. Non-trivial: the change is not the identity and the result has points or pixels.")

ROWS = ["points", "normals", "colors", "features"]


class World:
    """What is done to the input, in numpy, float32 values."""

    def __init__(self, c):
        self.c = c
        self.k = 2.0 ** c["scale"]
        s = c["g"]
        P = np.eye(3)[list(np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]])[s % 3])]
        D = np.diag([1.0, 1, 1] if not (s // 3) % 2 else [-1.0, -1, 1])
        E = np.diag([1.0, 1, 1] if not (s // 6) % 2 else [1.0, -1, -1])
        self.G = D @ E @ P if c["turn"] else np.eye(3)

    def pose(self, P):
        P = P.copy()
        P[..., :3, 3] *= self.k
        P[..., :3, :] = self.G @ P[..., :3, :]
        return P

    def world_points(self, p):
        return (p * self.k) @ self.G.T

    def directions(self, n):
        return n @ self.G.T

    def colors(self, x):
        h = self.c["hue"]
        if h == 1:
            return x[..., [2, 0, 1]]
        if h == 2:
            return x * 0.25
        if h == 3:
            return x * 0 + 7
        if h == 4:
            return x * 0
        if h == 5:
            return x / 256
        return x


def quarter(s, tag):
    """A rotation by quarter turns: exact, whatever it is multiplied with."""
    i = arr(s, (3,), 0, 1, tag)
    A = np.eye(3)[[[0, 1, 2], [1, 2, 0], [2, 0, 1]][int(i[0] * 3)]]
    return A @ np.diag([[1, 1, 1], [-1, -1, 1], [1, -1, -1]][int(i[1] * 3)])


def scene(c):
    """Frames near one another: (rgb, depth, K, poses) as numpy."""
    s, B, L, H, W = c["s"], c["B"], c["L"], c["H"], c["W"]
    d = rgbds.depth(s, B, L, H, W, rgbds.SURF[s % 4], [0.0, 0.3][s >> 2 & 1])
    rgb = rgbds.f32(arr(s, (B, L, H, W, 3), 0, 255, "rgb"))
    K = np.stack([rgbds.kmat(s, H, W, "K%d" % b) for b in range(B)])
    P = np.zeros((B, L, 4, 4))
    P[:, :, 3, 3] = 1
    for b in range(B):
        R, t = quarter(s, "R%d" % b), arr(s, (3,), -1, 1, "t%d" % b)
        for l in range(L):
            P[b, l, :3, :3] = R
            P[b, l, :3, 3] = rgbds.f32(t + R @ arr(s, (3,), -0.03, 0.03, "m%d,%d" % (b, l)))
    return rgb, d, K, P


def lay(x, cf):
    return T(np.ascontiguousarray(np.moveaxis(x, -1, 2) if cf else x))


def frames(c, S, w=None):
    rgb, d, K, P = S
    if w is not None:
        rgb, d, P = w.colors(rgb), d * w.k, w.pose(P)
    return RGBDImages(lay(rgb, c["cf"]), lay(d[..., None], c["cf"]), T(K[:, None]), T(P), channels_first=c["cf"])


def the_map(c, S, w=None):
    """Points about those of the first frame."""
    o = {k: [] for k in ROWS}
    x = frames(c, S)[:, 0].to_channels_last()
    V, N = npy(x.global_vertex_map).astype(float), npy(x.global_normal_map).astype(float)
    perm = []
    for b in range(c["B"]):
        s = c["s"] + b
        n = 5 + s % 40
        i = (arr(s, (n,), 0, 1, "i") * V[b].size / 3).astype(int)
        p = rgbds.f32(V[b].reshape(-1, 3)[i] + arr(s, (n, 3), -0.04, 0.04, "e"))
        v = N[b].reshape(-1, 3)[i] + arr(s, (n, 3), -0.4, 0.4, "m")
        v = rgbds.f32(v / np.linalg.norm(v, axis=1, keepdims=True))
        q, f = rgbds.f32(arr(s, (n, 3), 0, 255, "c")), rgbds.f32(arr(s, (n, 1), 0.5, 3, "f"))
        if s % 3:
            f = np.floor(f + 0.5)       # equal confidences, so that distances decide
        j = np.arange(n)
        if w is not None:
            p, v, q = w.world_points(p), w.directions(v), w.colors(q)
            if c["shuffle"]:
                j = np.argsort(arr(c["shuffle"], (n,), 0, 1, "j%d" % b), kind="stable")
        perm.append(j)
        for k, a in zip(ROWS, (p, v, q, f)):
            o[k].append(T(np.ascontiguousarray(a[j])))
    return Pointclouds(**o), perm


def tensors(x):
    """The attributes as numpy, per element."""
    return {k: [npy(v).astype(np.float64) for v in getattr(x, k + "_list")] for k in ROWS if getattr(x, k + "_list") is not None}


def exact(got, want, what, tol=None):
    check(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    if tol is None:
        same(got + 0.0, want + 0.0, what)
    else:
        close(got, want, what, rtol=tol, atol=tol)


def same_clouds(c, w, got, want, what, perm=None, tol=None):
    """got is want in world w; perm says which of want's first points are got's."""
    g, r = tensors(got), tensors(want)
    check(set(g) == set(r), "%s: has %s, expected %s", what, sorted(g), sorted(r))
    for k in r:
        f = dict(points=w.world_points, normals=w.directions, colors=w.colors, features=lambda x: x)[k]
        for b, (x, y) in enumerate(zip(g[k], r[k])):
            y = f(y).astype(np.float32).astype(np.float64)
            if perm is not None:
                j = perm[b]
                y = np.concatenate([y[:len(j)][j], y[len(j):]])
            # directions and lengths add three squares or products in another order when the world is turned
            exact(x, y, "%s: %s of element %d" % (what, k, b), tol if k != "normals" or tol is None else max(tol, 1e-6))


CHANGE = dict(scale=st.sampled_from([0, 0, 1, -1, 3, -4, 6]), turn=st.booleans(), g=st.integers(0, 11), hue=st.integers(0, 5), shuffle=st.sampled_from([0, 1, 2, 3, 4]))
SCENE = dict(s=seeds, B=st.integers(1, 2), H=st.integers(3, 6), W=st.integers(3, 7), cf=st.booleans())


def changed(c, shuffles=False):
    return c["scale"] != 0 or c["turn"] and c["g"] > 0 or c["hue"] > 0 or shuffles and c["shuffle"] > 0


@test("C33", fixed(L=st.integers(1, 2), op=st.sampled_from(["maps", "clouds", "local clouds", "downsampled", "motion"]), t=st.integers(1, 3), **SCENE, **CHANGE), quick=2500)
def frames_in_another_world(case, ctx):
    c = case
    w, S = World(c), scene(c)
    ctx.nt(changed(c))
    ctx.event(c["op"])
    a, b = frames(c, S), frames(c, S, w)
    if c["op"] == "maps":
        p, q = a.to_channels_last(), b.to_channels_last()
        v = lambda x, k: npy(getattr(x, k)).astype(np.float64)
        exact(v(q, "vertex_map"), v(p, "vertex_map") * w.k, "local vertices")
        exact(v(q, "normal_map"), v(p, "normal_map"), "local normals")
        exact(v(q, "global_vertex_map"), w.world_points(v(p, "global_vertex_map")), "global vertices")
        exact(v(q, "global_normal_map"), w.directions(v(p, "global_normal_map")), "global normals")
        exact(v(q, "rgb_image"), w.colors(v(p, "rgb_image")), "colors")
        same(q.valid_depth_mask, p.valid_depth_mask, "depth mask")
    elif c["op"] == "motion":
        if c["L"] < 2:
            raise Reject
        M = [npy(GroundTruthOdometryProvider().provide(x[:, 0], x[:, 1])).astype(np.float64) for x in (a, b)]
        want = M[0].copy()
        want[..., :3, 3] *= w.k
        # a general inverse of a matrix, in another order of operations
        close(M[1], want, "motion between two frames, as seen from the first", atol=2e-5 * max(1.0, w.k))
    else:
        l = c["L"] - 1
        a, b = a[:, l], b[:, l]
        if c["op"] == "local clouds":
            f = lambda x: pointclouds_from_rgbdimages(x, global_coordinates=False, filter_missing_depths=c["t"] > 1)
            w.G = np.eye(3)
        elif c["op"] == "clouds":
            f = lambda x: pointclouds_from_rgbdimages(x, filter_missing_depths=c["t"] > 1)
        else:
            f = lambda x: icputils.downsample_rgbdimages(x, c["t"])
        same_clouds(c, w, f(b), f(a), c["op"])


@test("C33", fixed(L=st.just(1), op=st.sampled_from(["active", "similar", "one to one", "correspondences", "fused", "updated", "aggregated", "downsampled"]), t=st.integers(1, 3), **SCENE, **CHANGE), quick=3500)
def association_and_fusion_in_another_world(case, ctx):
    c = case
    w, S = World(c), scene(c)
    ctx.event(c["op"])
    a, b = frames(c, S), frames(c, S, w)
    (m, _), (n, perm) = the_map(c, S), the_map(c, S, w)
    dist, dot, sigma = 0.06, 0.7, 0.6

    def tables(mp, x, k):
        t = fu.find_active_map_points(mp, x)
        u, v = fu.find_similar_map_points(mp, x, t, dist * k, dot)
        return dict(active=t, similar=u, correspondences=fu.find_correspondences(mp, x, dist * k, dot), **{"one to one": fu.find_best_unique_correspondences(mp, x, t)})
    ta, tb = tables(m, a, 1.0), tables(n, b, w.k)

    def rename(t):
        t = npy(t)
        inv = [np.argsort(j) for j in perm]
        return sorted((int(r[0]), int(inv[r[0]][r[1]]), int(r[2]), int(r[3])) for r in t)
    if c["op"] in ta:
        ctx.nt(changed(c, True) and len(ta[c["op"]]) > 0)
        got, want = sorted(tuple(int(v) for v in r) for r in npy(tb[c["op"]])), rename(ta[c["op"]])
        check(got == want, "%s: table has %s, expected %s", c["op"], [r for r in got if r not in want][:3], [r for r in want if r not in got][:3])
        return
    ctx.nt(changed(c, True) and len(ta["correspondences"]) > 0)
    if c["op"] == "downsampled":
        def f(mp, t):
            y = icputils.downsample_pointclouds(mp, t, c["t"])
            return [sorted(map(tuple, np.concatenate([npy(v[i]).astype(np.float64) + 0.0 for v in (y.points_list, y.normals_list, y.colors_list)], 1).tolist())) for i in range(len(y))]
        got, want = f(n, tb["active"]), f(m, ta["active"])
        for i in range(len(want)):
            y = np.array(want[i]).reshape(-1, 9)
            y = np.concatenate([w.world_points(y[:, :3]), w.directions(y[:, 3:6]), w.colors(y[:, 6:])], 1).astype(np.float32).astype(np.float64) + 0.0
            check(got[i] == sorted(map(tuple, y.tolist())), "downsampled map of element %d", i)
        return
    if c["op"] == "aggregated":
        bare = lambda x: Pointclouds(x.points_list, x.normals_list, x.colors_list)
        y, z = fu.update_map_aggregate(bare(m), a), fu.update_map_aggregate(bare(n), b)
    elif c["op"] == "fused":
        y, z = fu.fuse_with_map(m, a, ta["correspondences"], sigma), fu.fuse_with_map(n, b, tb["correspondences"], sigma * w.k)
    else:
        y, z = fu.update_map_fusion(m, a, dist, dot, sigma), fu.update_map_fusion(n, b, dist * w.k, dot, sigma * w.k)
    # rounding of the averages differs when colors are changed by other than a power of two
    same_clouds(c, w, z, y, c["op"], perm, None if c["hue"] != 3 else 1e-5)


@test("C33", fixed(L=st.integers(2, 4), pf=st.booleans(), **SCENE, **CHANGE), quick=900)
def mapping_in_another_world(case, ctx):
    c = case
    w, S = World(c), scene(c)
    ctx.nt(changed(c))
    ctx.event("fusing" if c["pf"] else "aggregating")

    def run(x, k):
        s = PointFusion(odom="gt", dist_th=0.05 * k, angle_th=30, sigma=0.6 * k) if c["pf"] else ICPSLAM(odom="gt")
        return s(x)
    (m, P), (n, Q) = run(frames(c, S), 1.0), run(frames(c, S, w), w.k)
    exact(npy(Q).astype(np.float64), w.pose(npy(P).astype(np.float64)), "poses")
    # turned, normalised directions and dot products may round differently; the decisions do not depend on it here
    same_clouds(c, w, n, m, "map", None, None if c["hue"] != 3 else 1e-5)


@test("C33", fixed(L=st.integers(2, 3), pf=st.booleans(), odom=st.sampled_from(["icp", "gradicp"]), ds=st.integers(1, 2), iters=st.integers(1, 3), hue=st.integers(1, 5), **dict(SCENE, H=st.integers(5, 8), W=st.integers(5, 8))), quick=500)
def colors_do_not_guide_registration(case, ctx):
    c = dict(case, scale=0, turn=False, g=0, shuffle=0)
    w, S = World(c), scene(c)
    ctx.nt()
    ctx.event(c["odom"])

    def run(x):
        s = (PointFusion if c["pf"] else ICPSLAM)(odom=c["odom"], dsratio=c["ds"], numiters=c["iters"], damp=1e-2)
        return s(x)
    (m, P), (n, Q) = run(frames(c, S)), run(frames(c, S, w))
    same(Q, P, "poses")
    same_clouds(c, w, n, m, "map", None, None if c["hue"] != 3 else 1e-5)


# ---------------------------------------------------------------- registration
@test("C33", fixed(s=seeds, kind=st.sampled_from(["corner", "ellipsoid"]), n=st.integers(30, 60), iters=st.integers(1, 6), grad=st.booleans(), scale=st.sampled_from([0, 1, -2, 4]), g=st.integers(0, 11), shuffle=st.booleans(),
                   th=st.sampled_from([None, 1.0])), quick=700)
def registration_in_another_world(case, ctx):
    """The motion found is the same motion, in the other frame and unit (damping without effect, well-posed clouds)."""
    c = dict(case, turn=True, hue=0)
    if c["grad"]:
        c["scale"] = 0      # the damping schedule of gradICP looks at the error itself
    w = World(c)
    R = regs.rot_axis_angle(arr(c["s"], (3,), -1, 1, "axis"), 2.0 * arr(c["s"], (1,), -1, 1, "angle")[0])
    w.G = R @ w.G           # any rotation
    p, v = regs.cloud(c["s"], c["kind"], c["n"])
    M = pose(c["s"], 0.05, 0.03, "M")
    q = regs.act(M, p) + arr(c["s"], p.shape, -0.003, 0.003, "e")
    ctx.nt(c["iters"] > 1)
    ctx.event("gradicp" if c["grad"] else "icp")
    f = (icputils.point_to_plane_gradICP if c["grad"] else icputils.point_to_plane_ICP)

    def run(p, v, q, k):
        X, i = f(T(q)[None], T(p)[None], T(v)[None], numiters=c["iters"], damp=1e-8, dist_thresh=None if c["th"] is None else c["th"] * k)
        return npy(X).astype(np.float64), npy(i).reshape(-1)
    j = np.argsort(arr(c["s"], (c["n"],), 0, 1, "j")) if c["shuffle"] else np.arange(c["n"])
    h = np.argsort(arr(c["s"], (c["n"],), 0, 1, "h")) if c["shuffle"] else np.arange(c["n"])
    X, i = run(p, v, q, 1.0)
    Y, m = run(w.world_points(p)[j], w.directions(v)[j], w.world_points(q)[h], w.k)
    # near ties of neighbours decide differently
    best = np.sort(np.linalg.norm(regs.act(X, q)[:, None] - p[None], axis=-1), 1)
    first = np.sort(np.linalg.norm(q[:, None] - p[None], axis=-1), 1)
    if min((best[:, 1] - best[:, 0]).min(), (first[:, 1] - first[:, 0]).min()) < 1e-3:
        raise Reject
    want = np.eye(4)
    want[:3, :3] = w.G @ X[:3, :3] @ w.G.T
    want[:3, 3] = w.k * w.G @ X[:3, 3]
    close(Y[:3, :3], want[:3, :3], "rotation found", atol=2e-3)
    close(Y[:3, 3] / w.k, want[:3, 3] / w.k, "translation found", atol=2e-3)


@test("C33", fixed(s=seeds, n=st.integers(1, 25), m=st.integers(1, 25), scale=st.integers(-8, 10), g=st.integers(0, 11), shuffle=st.sampled_from([0, 1, 2]), th=st.sampled_from([None, 0.3, 0.8]), size=st.sampled_from([1.0, 30.0])), quick=2500)
def linear_system_in_another_world(case, ctx):
    """Each pair's equation is the same equation, in the other frame and unit, for pairs however far apart."""
    c = dict(case, turn=True, hue=0)
    w = World(c)
    s = c["s"]
    p, q = rgbds.f32(arr(s, (c["m"], 3), -1, 1, "p") * c["size"]), rgbds.f32(arr(s, (c["n"], 3), -1, 1, "q") * c["size"])
    v = arr(s, p.shape, -1, 1, "v")
    v = rgbds.f32(v / np.linalg.norm(v, axis=1, keepdims=True))
    th = None if c["th"] is None else c["th"] * c["size"]
    d = np.linalg.norm(q[:, None] - p[None], axis=-1)
    near = np.sort(d, 1)
    if c["m"] > 1 and ((near[:, 1] - near[:, 0]) < 1e-4 * c["size"]).any() or th is not None and (np.abs(near[:, 0] - th) < 1e-4 * c["size"]).any():
        raise Reject
    j = np.argsort(arr(c["shuffle"], (c["m"],), 0, 1, "j"), kind="stable") if c["shuffle"] else np.arange(c["m"])
    h = np.argsort(arr(c["shuffle"], (c["n"],), 0, 1, "h"), kind="stable") if c["shuffle"] else np.arange(c["n"])

    def run(p, v, q, th):
        A, b, i = icputils.gauss_newton_solve(T(q)[None], T(p)[None], T(v)[None], th)
        return npy(A).astype(np.float64), npy(b).astype(np.float64), npy(i)
    A, b, i = run(p, v, q, th)
    C, e, k = run(w.world_points(p)[j], w.directions(v)[j], w.world_points(q)[h], None if th is None else th * w.k)
    kept = np.nonzero((near[:, 0] < th) if th is not None else np.ones(c["n"], bool))[0]
    ctx.nt(len(kept) > 0)
    check(len(i) == len(kept), "%d of %d points kept, expected %d", len(i), c["n"], len(kept))
    check(len(k) == len(i), "%d points kept in the other world, expected %d", len(k), len(i))
    rank = {x: r for r, x in enumerate(kept)}
    o = [rank[x] for x in h if x in rank]         # rows of the first system, in the order of the second
    same(j[k], i[o], "closest points")
    same(C[:, :3], A[o][:, :3] @ w.G.T, "directions of motion")
    same(C[:, 3:], A[o][:, 3:] @ w.G.T * w.k, "axes of rotation")
    close(e / w.k, b[o], "distances to planes", atol=1e-5 * c["size"])


# ---------------------------------------------------------------- image orientation and margins
@test("C33", fixed(L=st.integers(1, 2), how=st.sampled_from(["mirrored", "upside down", "transposed", "margins", "cropped"]), margin=st.lists(st.integers(0, 3), min_size=4, max_size=4), **SCENE), quick=2500)
def images_in_another_orientation(case, ctx):
    """Pixels listed in another order, with the camera matrix that goes with it, or with more pixels without depth around them."""
    c = case
    S = scene(c)
    rgb, d, K, P = S
    K2 = K.copy()
    H, W = c["H"], c["W"]
    A = np.eye(3)      # what happens to camera coordinates
    sign = 1.0         # ... and to normals besides
    t, l, b, r = c["margin"]
    how = c["how"]
    ctx.event(how)
    if how == "mirrored":        # the image as it is, in a camera whose x axis points the other way
        K2[:, 0, 0] *= -1
        A, sign = np.diag([-1.0, 1, 1]), -1.0
        back = lambda x: x
    elif how == "upside down":
        K2[:, 1, 1] *= -1
        A, sign = np.diag([1.0, -1, 1]), -1.0
        back = lambda x: x
    elif how == "transposed":
        rgb, d = np.swapaxes(rgb, 2, 3), np.swapaxes(d, 2, 3)
        K2[:, [0, 1]] = K2[:, [1, 0]]
        K2[:, :, [0, 1]] = K2[:, :, [1, 0]]
        A = np.eye(3)[[1, 0, 2]]
        back = lambda x: np.swapaxes(x, 2, 3)
    elif how == "margins":
        pad = ((0, 0), (0, 0), (t, b), (l, r))
        rgb, d = np.pad(rgb, pad + ((0, 0),), constant_values=9), np.pad(d, pad)
        K2[:, 0, 2] += l
        K2[:, 1, 2] += t
        back = lambda x: x[:, :, t:t + H, l:l + W]
    else:
        if t + b > H - 2 or l + r > W - 2:
            raise Reject
        rgb, d = rgb[:, :, t:H - b, l:W - r], d[:, :, t:H - b, l:W - r]
        K2[:, 0, 2] -= l
        K2[:, 1, 2] -= t
        back = lambda x: x
    ctx.nt()
    x, y = frames(c, S).to_channels_last(), frames(c, (rgb, d, K2, P)).to_channels_last()
    v = lambda z, k: npy(getattr(z, k)).astype(np.float64)
    full = lambda a: a[:, :, t:H - b, l:W - r] if how == "cropped" else a
    size = max(1.0, np.abs(v(x, "vertex_map")).max())
    close(back(v(y, "vertex_map")), full(v(x, "vertex_map") @ A.T), "vertices of an image %s" % how, atol=2e-6, scale=size)
    same(back(v(y, "valid_depth_mask")), full(v(x, "valid_depth_mask")), "depth mask of an image %s" % how)
    same(back(v(y, "rgb_image")), full(v(x, "rgb_image")), "colors of an image %s" % how)
    N, M = full(v(x, "normal_map") @ A.T * sign), back(v(y, "normal_map"))
    good = full(rgbds.Model(S[0], S[1], K, P, False).normal()[1])
    if how in ("margins", "cropped"):     # normals in the last row and column look to the row and column before
        N, M, good = N[:, :, :-1, :-1], M[:, :, :-1, :-1], good[:, :, :-1, :-1]
    close(M[good], N[good], "normals of an image %s" % how, atol=2e-4)
    if how == "margins":
        f = lambda z: pointclouds_from_rgbdimages(z[:, 0])
        p, q = f(x), f(y)
        for i in range(c["B"]):
            close(q.points_list[i], npy(p.points_list[i]), "points of element %d of an image with margins" % i, atol=2e-6, scale=size + 1)
            same(q.colors_list[i], p.colors_list[i], "colors of element %d of an image with margins" % i)
