"""C30: valid input, however degenerate, gives finite and well-formed results."""
import numpy as np
import torch
from hypothesis import strategies as st
import core
from core import *
from core import T
import fus, pcs, regs, rgbds
from gradslam import Pointclouds, RGBDImages
from gradslam.geometry import geometryutils as gu, projutils as pj, se3utils
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.icputils import point_to_plane_ICP, point_to_plane_gradICP, downsample_pointclouds, downsample_rgbdimages
from gradslam.slam import fusionutils as fu
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.structures.utils import pointclouds_from_rgbdimages

rule("C30", "A case is a sequence of frames each of which is ordinary, blank, a single pixel, row, column or checkerboard, flat, stepped, half blank, negative, minute, huge or of very mixed depth, taken from poses that stand still, "
     "creep, jump or are far away, run through the derived maps, the pipelines and the functions they consist of; or two clouds that are empty, single points, coincident, collinear, coplanar, at the origin, far away or minute, "
     "registered with normals that agree, are axes or vanish; or arguments at which a formula divides by zero. Non-trivial: some frame, cloud or argument is of a degenerate kind.")

KINDS = ["room", "blank", "one", "row", "col", "checker", "flat", "steps", "half", "neg", "tiny", "huge", "mixed"]
USUAL = KINDS[:10]


def depth(kind, H, W, s, tag):
    d = 1 + arr(s, (H, W), 0, 1, "d" + tag)
    k = int(u01(s, 1, "k" + tag)[0] * 1000)
    m = np.zeros((H, W), bool)
    if kind == "blank":
        return d * 0
    if kind in ("one", "row", "col", "checker"):
        if kind == "one":
            m[k % H, k // 7 % W] = 1
        elif kind == "row":
            m[k % H] = 1
        elif kind == "col":
            m[:, k % W] = 1
        else:
            m = (np.add.outer(range(H), range(W)) + k) % 2 == 0
        return d * m
    if kind == "flat":
        return d * 0 + 1.5
    if kind == "steps":
        return np.where(np.arange(W) < k % W, 1.0, 3.0)[None] * np.ones((H, 1))
    if kind == "half":
        d[:, :W // 2] = 0
        return d
    if kind == "mixed":
        return 10 ** arr(s, (H, W), -3, 3, "e" + tag)
    return d * dict(room=1, neg=-1, tiny=1e-5, huge=1e5)[kind]


def model(c):
    B, L, H, W, s = c["B"], len(c["kinds"]), c["H"], c["W"], c["s"]
    kinds = [[c["kinds"][(l + b * c["shift"]) % L] for l in range(L)] for b in range(B)]
    d = np.stack([np.stack([depth(kinds[b][l], H, W, s, "%d,%d" % (b, l)) for l in range(L)]) for b in range(B)])
    K = np.stack([rgbds.kmat(s, H, W, "K%d" % b) for b in range(B)])
    mot = c["mot"]
    P = np.stack([np.stack([rgbds.f32(pose(s, mot if mot < 1 else np.pi, mot, "P%d,%d" % (b, l))) for l in range(L)]) for b in range(B)])
    color = [rgbds.f32(arr(s, (B, L, H, W, 3), 0, 255, "rgb")), np.zeros((B, L, H, W, 3)), np.full((B, L, H, W, 3), 255.0)][[0, 0, 0, 1, 2][s % 5]]
    return rgbds.Model(color, rgbds.f32(d), K, P, c["cf"]), kinds


def sequence(kinds, n):
    return fixed(B=st.integers(1, 3), kinds=st.lists(st.sampled_from(kinds), min_size=1, max_size=n), shift=st.integers(0, 2), H=st.integers(2, 6), W=st.integers(2, 7), cf=st.booleans(),
                 mot=st.sampled_from([0.0, 0.01, 0.3, 3.0, 1000.0]), s=seeds)


def degenerate(c):
    return any(k != "room" for k in c["kinds"]) or c["mot"] >= 3


def leaves(m):
    ts = [T(np.ascontiguousarray(a)).requires_grad_(True) for a in (rgbds.lay(m.rgb, m.cf), rgbds.lay(m.d[..., None], m.cf), m.K[:, None], m.poses)]
    return ts, RGBDImages(*ts, channels_first=m.cf)


def good_gradients(loss, ts, what):
    loss.backward()
    for k, t in zip(("colors", "depth", "intrinsics", "poses"), ts):
        if t.grad is not None:
            finite(t.grad, "the gradient of %s with respect to %s" % (what, k))


def weighed(ts, s):
    return sum((t * T(arr(s, tuple(t.shape), -1, 1, "w%d" % i))).sum() for i, t in enumerate(ts) if t.numel()) + 0


def good_cloud(pc, what, counts=None, fused=False):
    """Finite, of one length per element in all attributes, normals no longer than 1."""
    for b in range(len(pc)):
        n = len(pc.points_list[b])
        if counts is not None:
            check(n == counts[b], "%s: element %d has %d points, expected %d", what, b, n, counts[b])
        for a in ("points",) + pcs.ATTRS:
            l = getattr(pc, a + "_list")
            if l is not None:
                check(len(l[b]) == n, "%s: %d %s for %d points", what, len(l[b]), a, n)
                finite(l[b], "%s: %s of element %d" % (what, a, b))
        if pc.has_normals and n:
            check(float(npy(pc.normals_list[b]).astype(np.float64).__pow__(2).sum(-1).max()) < 1.002, "%s: normals are longer than 1", what)
        if fused and n:
            f = npy(pc.features_list[b])
            check((f >= 0).all() and (f <= 1e6).all(), "%s: confidences are not counts", what)


def rigid(P, what):
    P = npy(P, what).astype(np.float64)
    finite(P, what)
    R = P[..., :3, :3]
    close(np.matmul(R, np.swapaxes(R, -1, -2)), np.broadcast_to(np.eye(3), R.shape), what + ": rotation times its transpose", rtol=0, atol=1e-3)
    same(P[..., 3, :], np.broadcast_to([0, 0, 0, 1.0], P[..., 3, :].shape), what + ": last row")


@test("C30", sequence(KINDS, 3), quick=3000)
def frames(case, ctx):
    c = case
    m, kinds = model(c)
    ctx.nt(degenerate(c))
    for b in range(c["B"]):
        for k in kinds[b]:
            ctx.event(k)
    ts, x = leaves(m)
    views = [getattr(x, v) for v in ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map")]
    inv = ~m.mask()
    for v, t in zip(("vertex map", "normal map", "global vertex map", "global normal map"), views):
        a = rgbds.unlay(t, m.cf, v).astype(np.float64)
        finite(a, v)
        check((a[inv] == 0).all(), "%s: pixels without depth are not zero", v)
        if "normal" in v:
            n = np.linalg.norm(a, axis=-1)
            check((n < 1.001).all(), "%s has vectors longer than 1", v)
    same(rgbds.unlay(x.valid_depth_mask, m.cf, "depth mask")[..., 0], m.mask(), "depth mask")
    good_gradients(weighed(views, c["s"]), ts, "the maps")
    for l in range(len(c["kinds"])):
        f = x[:, l]
        good_cloud(pointclouds_from_rgbdimages(f), "cloud of frame %d" % l, m.mask()[:, l].sum((1, 2)))
        good_cloud(pointclouds_from_rgbdimages(f, filter_missing_depths=False), "whole cloud of frame %d" % l, [m.shape[2] * m.shape[3]] * c["B"])
        for r in (1, 2, 5, 9):
            good_cloud(downsample_rgbdimages(f, r), "frame %d sampled by %d" % (l, r), m.mask()[:, l, ::r, ::r].sum((1, 2)))


method = dict(odom=st.sampled_from(["gt", "icp", "gradicp"]), pf=st.booleans(), ds=st.sampled_from([1, 2, 4]), iters=st.integers(1, 5), damp=st.sampled_from([1e-8, 1e-3]), th=st.sampled_from([None, 0.1, 1.0]),
              dist=st.sampled_from([0.05, 1.0]), dot=st.sampled_from([0.9, 0.0]), inplace=st.booleans())


def slam_of(c):
    kw = dict(odom=c["odom"], dsratio=c["ds"], numiters=c["iters"], damp=c["damp"], dist_thresh=c["th"])
    return PointFusion(dist_th=c["dist"], angle_th=20, **kw) if c["pf"] else ICPSLAM(**kw)


@test("C30", fixed(f=sequence(KINDS, 4), grad=st.booleans(), **method), quick=2500)
def pipelines(case, ctx):
    """A map of every sequence; a frame that nothing can be said about keeps the last pose and adds nothing."""
    c, m, kinds = case, *model(case["f"])
    B, L = m.shape[:2]
    ts, x = leaves(m)
    slam = slam_of(c)
    ctx.nt(degenerate(c["f"]))
    ctx.event(c["odom"] + (" fusing" if c["pf"] else " aggregating"))
    try:
        pc, poses = slam(x)
    except torch.linalg.LinAlgError:
        check(c["odom"] != "gt" and c["damp"] < 1e-6, "damped normal equations were refused")
        raise Reject      # a system that damping below float precision leaves singular
    rigid(poses, "poses")
    valid = m.mask().sum((2, 3))
    pcs_ = npy(poses).astype(np.float64)
    same(pcs_[:, 0], m.poses[:, 0], "pose of the first frame")
    if c["odom"] == "gt":
        same(pcs_, m.poses, "given poses")
    else:
        for b in range(B):
            for l in range(1, L):
                if valid[b, l] == 0 or valid[b, :l].sum() == 0:
                    ctx.event("nothing to register")
                    same(pcs_[b, l], pcs_[b, l - 1], "pose of frame %d of element %d, which cannot be registered" % (l, b))
    if not valid.sum():
        check(not pc.has_points or all(len(p) == 0 for p in pc.points_list), "blank frames left points in the map")
        return
    n = valid.sum(1)
    good_cloud(pc, "map", None if c["pf"] else n, c["pf"])
    for b in range(B):
        k = len(pc.points_list[b])
        check(valid[b].max() <= k <= n[b], "the map of element %d has %d points after frames of %s pixels with depth", b, k, valid[b].tolist())
    if c["odom"] == "gt":
        good_gradients(weighed([t for a in ("points", "normals", "colors", "features") for t in (getattr(pc, a + "_list") or [])], c["f"]["s"]), ts, "the map")


# ---------------------------------------------------------------- registration
CLOUDS = ["free", "empty", "one", "coincident", "line", "axis", "plane", "origin", "far", "grid", "tiny"]


def cloud(kind, n, s, tag):
    p = arr(s, (n, 3), -1, 1, "p" + tag)
    if kind == "empty":
        return p[:0]
    if kind == "one":
        return p[:1]
    if kind == "coincident":
        return np.repeat(p[:1], n, 0)
    if kind == "line":
        return p[:, :1] * np.array([[1, .5, -.3]])
    if kind == "axis":
        return p * np.eye(3)[s % 3]
    if kind == "plane":
        p[:, s % 3] = 0.5
        return p
    if kind == "origin":
        return p * 0
    if kind == "far":
        return p + 100
    if kind == "grid":
        return np.round(p * 2) / 2
    return p * (1e-6 if kind == "tiny" else 1)


def normals(kind, n, s):
    v = arr(s, (n, 3), -1, 1, "n") + 1e-3
    v = v / np.linalg.norm(v, axis=1, keepdims=True)
    if kind == "same":
        return np.repeat(v[:1], n, 0)
    if kind == "axis":
        return np.tile(np.eye(3)[s // 3 % 3], (n, 1))
    return v * (0 if kind == "zero" else 1)


pair = fixed(src=st.sampled_from(CLOUDS), tgt=st.sampled_from(CLOUDS), nrm=st.sampled_from(["free", "same", "axis", "zero"]), n=st.integers(1, 8), m=st.integers(1, 8), s=seeds)
settings_ = dict(diff=st.booleans(), iters=st.integers(1, 6), damp=st.sampled_from([1e-8, 1e-8, 1e-3, 1.0]), th=st.sampled_from([None, 0.01, 0.5, 5]))


@test("C30", fixed(p=pair, init=st.booleans(), **settings_), quick=5000)
def registrations(case, ctx):
    c, p, s = case, case["p"], case["p"]["s"]
    src = fus.f32(cloud(p["src"], p["n"], s, "a"))
    tgt = fus.f32(cloud(p["tgt"], p["m"], s, "b"))
    nrm = fus.f32(normals(p["nrm"], len(tgt), s))
    init = fus.f32(pose(s)) if c["init"] else None
    f = point_to_plane_gradICP if c["diff"] else point_to_plane_ICP
    ctx.nt((p["src"], p["tgt"], p["nrm"]) != ("free", "free", "free"))
    try:
        M, idx = f(T(src)[None], T(tgt)[None], T(nrm)[None], None if init is None else T(init), numiters=c["iters"], damp=c["damp"], dist_thresh=c["th"])
    except torch.linalg.LinAlgError:
        check(c["damp"] < 1e-6, "damped normal equations were refused")
        raise Reject
    start = np.eye(4) if init is None else init
    check(tuple(M.shape) == (4, 4), "the transform has shape %s", tuple(M.shape))
    rigid(M, "transform")
    i = npy(idx)
    check(i.ndim == 1 and len(i) <= len(src) and ((0 <= i) & (i < max(len(tgt), 1))).all(), "closest points %s of %d points among %d", i.tolist(), len(src), len(tgt))
    if not len(src) or not len(tgt):
        ctx.event("empty")
        check(len(i) == 0, "closest points %s without points", i.tolist())
        same(npy(M).astype(np.float64), start, "transform of clouds without points")
    elif p["nrm"] == "zero":
        ctx.event("no normals")
        same(npy(M).astype(np.float64), start, "transform without normals")
    if c["th"] is not None and len(src) and len(tgt):
        q = regs.act(start, src)
        if np.linalg.norm(q[:, None] - tgt[None], axis=-1).min() > c["th"] + 1e-2:
            ctx.event("all too far")
            check(len(i) == 0, "closest points %s beyond the threshold", i.tolist())
            same(npy(M).astype(np.float64), start, "transform of clouds too far apart")


@test("C30", fixed(ps=st.lists(pair, min_size=1, max_size=3), **settings_), quick=2000)
def providers(case, ctx):
    """A batch in which some element has nothing to register."""
    c = case
    S = [fus.f32(cloud(p["src"], p["n"], p["s"], "a")) for p in c["ps"]]
    G = [fus.f32(cloud(p["tgt"], p["m"], p["s"], "b")) for p in c["ps"]]
    N = [fus.f32(normals(p["nrm"], len(g), p["s"])) for p, g in zip(c["ps"], G)]
    prov = (GradICPOdometryProvider if c["diff"] else ICPOdometryProvider)(numiters=c["iters"], damp=c["damp"], dist_thresh=c["th"])
    ctx.nt(any((p["src"], p["tgt"], p["nrm"]) != ("free", "free", "free") for p in c["ps"]))
    try:
        M = prov.provide(Pointclouds([T(g) for g in G], normals=[T(v) for v in N], **dev_kw()), Pointclouds([T(x) for x in S], **dev_kw()))
    except torch.linalg.LinAlgError:
        check(c["damp"] < 1e-6, "damped normal equations were refused")
        raise Reject
    check(tuple(M.shape) == (len(S), 1, 4, 4), "transforms have shape %s", tuple(M.shape))
    rigid(M, "transforms")
    for b in range(len(S)):
        if not len(S[b]) or not len(G[b]):
            ctx.event("element without points")
            same(npy(M)[b, 0].astype(np.float64), np.eye(4), "transform of element %d, which has no points" % b)


# ---------------------------------------------------------------- association and fusion
@test("C30", fixed(f=sequence(KINDS, 1), pts=st.lists(st.sampled_from(CLOUDS + ["camera", "behind", "onscreen"]), min_size=1, max_size=3), n=st.integers(1, 8), conf=st.sampled_from(["one", "zero", "large"]), dist=st.sampled_from([1e-3, 0.1, 1e9]),
                   dot=st.sampled_from([0.9, 0.0, -1.1]), sigma=st.sampled_from([0.6, 1e-3, 1e3]), pf=st.booleans(), inplace=st.booleans()), quick=3000)
def associations(case, ctx):
    """Maps with points at the camera, behind it, at infinity and the like."""
    c, (m, kinds) = case, model(case["f"])
    B, s = m.shape[0], c["f"]["s"]
    P, N, C, F = [], [], [], []
    for b in range(B):
        k = c["pts"][b % len(c["pts"])]
        p = cloud(k if k in CLOUDS else "free", c["n"], s, "m%d" % b)
        M = m.poses[b, 0]
        if k == "camera":
            p = np.repeat(M[None, :3, 3], c["n"], 0)
        elif k == "behind":
            p = regs.act(M, p * [1, 1, 0] - [0, 0, 1])
        elif k == "onscreen":
            p = m.glob()[b, 0].reshape(-1, 3)[(arr(s, (c["n"],), 0, 1, "pick%d" % b) * m.shape[2] * m.shape[3]).astype(int)]
        P.append(fus.f32(p))
        N.append(fus.f32(normals(["free", "same", "axis", "zero"][(s >> 4) % 4], len(p), s + b)))
        C.append(fus.f32(arr(s, (len(p), 3), 0, 255, "c%d" % b)))
        F.append(np.full((len(p), 1), dict(one=1.0, zero=0.0, large=1e5)[c["conf"]]))
    mk = lambda **kw: Pointclouds([T(x) for x in P], normals=[T(x) for x in N], colors=[T(x) for x in C], **kw, **dev_kw())
    pc, x = mk(features=[T(x) for x in F]), rgbds.build(m)
    ctx.nt(degenerate(c["f"]) or any(k != "free" for k in c["pts"]))
    tab = fu.find_active_map_points(pc, x)
    H, W = m.shape[2:]

    def rows(t, what):
        a = npy(t, what)
        check(a.ndim == 2 and a.shape[1] == 4 and a.dtype.kind == "i", "%s has shape %s and type %s", what, a.shape, a.dtype)
        for b, n, h, w in a:
            check(0 <= b < B and 0 <= n < len(P[b]) and 0 <= h < H and 0 <= w < W, "%s has the row %s", what, (b, n, h, w))
        check(len({(b, n) for b, n, _, _ in a}) == len(a), "%s names a map point twice", what)
        return {tuple(r) for r in a.tolist()}
    active = rows(tab, "table of active points")
    part = downsample_pointclouds(pc, tab, 2)
    want = [sum(1 for b, n, h, w in active if b == k and h % 2 == 0 and w % 2 == 0) for k in range(B)]
    good_cloud(part, "map sampled by 2", want)
    if any(len(p) for p in P):
        sim = fu.find_similar_map_points(pc, x, tab, c["dist"], c["dot"])
        sim = sim[0] if isinstance(sim, (list, tuple)) else sim
        check(rows(sim, "table of similar points") <= active, "similar points are not active")
        one = fu.find_best_unique_correspondences(pc, x, sim)
        got = rows(one, "one-to-one table")
        check(got <= rows(sim, "table of similar points"), "unique correspondences are not similar")
        check(len({(b, h, w) for b, n, h, w in got}) == len(got), "the one-to-one table names a pixel twice")
        same(npy(fu.find_correspondences(pc, x, c["dist"], c["dot"])), npy(one), "correspondences")
    valid = m.mask()[:, 0].sum((1, 2))
    n0 = np.array([len(p) for p in P])
    if c["pf"]:
        out = fu.update_map_fusion(pc, x, c["dist"], c["dot"], c["sigma"], inplace=c["inplace"])
        if out.has_points:
            good_cloud(out, "fused map", None, True)
            k = np.array([len(p) for p in out.points_list])
            check(((n0 <= k) & (k <= n0 + valid)).all(), "the fused map has %s points, from %s and %s pixels", k.tolist(), n0.tolist(), valid.tolist())
    else:
        out = fu.update_map_aggregate(mk(), x, inplace=c["inplace"])
        if out.has_points:
            good_cloud(out, "aggregated map", n0 + valid)
        else:
            check(not (n0 + valid).any(), "the aggregated map is empty")


# ---------------------------------------------------------------- formulas at their singular points
@test("C30", fixed(e=st.sampled_from(["quaternions", "exp", "project", "homogeneous", "relative", "clouds"]), zero=st.integers(0, 15), n=st.integers(1, 4), f64=st.booleans(), s=seeds), quick=4000)
def formulas(case, ctx):
    c, s, z = case, case["s"], case["zero"]
    D = torch.float64 if c["f64"] else torch.float32
    ctx.nt()
    e = c["e"]
    ctx.event(e)
    if e == "quaternions":
        q = np.array([[0, 0, 0, 1.0], [0, 0, 0, -1], [1, 0, 0, 0], [0, 0, 1, 0], [1e-5, 0, 0, 1], [0, 1e-20, 0, 1], [0, -1, 0, 1e-20]])[(arr(s, (c["n"],), 0, 7, "q")).astype(int)]
        t = T(q, D).requires_grad_(True)
        a, R, u = gu.quaternion_to_axisangle(t), gu.quaternion_to_rotation_matrix(t), gu.normalize_quaternion(t)
        for k, v in (("axis-angle form", a), ("rotation matrix", R), ("unit quaternion", u)):
            finite(v, k)
            t.grad = None
            weighed([v], s).backward(retain_graph=True)
            finite(t.grad, "the gradient of the " + k)
        close(np.linalg.norm(npy(a).astype(np.float64), axis=-1) % (2 * np.pi), np.array([(2 * np.arccos(np.clip(abs(x[3]) / np.linalg.norm(x), -1, 1)) if np.linalg.norm(x[:3]) > 1e-4 else 2 * np.linalg.norm(x[:3])) for x in q]), "angle",
              rtol=1e-3, atol=1e-4)
        if z % 4 == 0:
            for v in (gu.normalize_quaternion(T(q * 0, D)), gu.quaternion_to_rotation_matrix(T(q * 0, D))):
                finite(v, "the normalised zero quaternion")
    elif e == "exp":
        x = arr(s, (6,), -1, 1, "x") * [(z >> (i // 3)) & 1 for i in range(6)] * ([1e-30, 1e-12, 1e-7, 1e-4][s % 4] if z & 4 else 1)
        t = T(x, D).requires_grad_(True)
        for f, v in ((se3utils.se3_exp, t), (se3utils.so3_exp, t[3:])):
            t.grad = None
            y = f(v)
            finite(y, f.__name__)
            weighed([y], s).backward()
            finite(t.grad, "the gradient of " + f.__name__)
    elif e == "project":
        p = arr(s, (c["n"], 3), -2, 2, "p")
        p[:, 2] *= [0, 0, 1, 1e-30, 1e-8, -1, 1e8][s % 7]
        p[:, :2] *= [1, 0][z & 1]
        K, t = T(rgbds.kmat(s, 4, 5), D), T(p, D).requires_grad_(True)
        y = pj.project_points(t, K)
        check(tuple(y.shape) == (c["n"], 2), "projections have shape %s", tuple(y.shape))
        finite(y, "projections")
        if not 0 < abs(p[:, 2]).max() < 1e-12:      # whose true gradients are beyond float32
            weighed([y], s).backward()
            finite(t.grad, "the gradient of projections")
        d = T([0.0, 1e-20, 1e20][s % 3] * np.ones(c["n"]), D)
        finite(pj.unproject_points(T(p[:, :2], D), torch.inverse(K)[:3, :3], d), "back-projections")
    elif e == "homogeneous":
        p = arr(s, (c["n"], 4), -2, 2, "p")
        p[:, 3] *= [0, 1e-30, 1e-7, 1e-5, -1e-5][s % 5]
        for f in (pj.unhomogenize_points, gu.unhomogenize_points):
            t = T(p, D).requires_grad_(True)
            y = f(t)
            finite(y, "unhomogenized points")
            weighed([y], s).backward()
            finite(t.grad, "the gradient of unhomogenized points")
    elif e == "relative":
        a, b = [np.eye(4), pose(s), np.diag([-1., -1, 1, 1])][s % 3], [np.eye(4), pose(s, tag="b"), np.diag([1., -1, -1, 1])][z % 3]
        b = b if z % 4 else a
        ta, tb = (T(x, D)[None].requires_grad_(True) for x in (a, b))
        for f in (lambda: gu.relative_transformation(ta, tb), lambda: gu.relative_transformation(ta, tb, orthogonal_rotations=True), lambda: gu.relative_transform_3d(ta, tb), lambda: gu.inverse_transfom_3d(ta)):
            ta.grad = tb.grad = None
            y = f()
            rigid(y, "relative transform")
            weighed([y], s).backward()
            finite(ta.grad, "the gradient of a relative transform")
    else:
        ns = [(z >> (2 * b)) % 2 * c["n"] for b in range(2)]
        pc = Pointclouds([T(arr(s, (n, 3), -1, 1, "p%d" % b), D) for b, n in enumerate(ns)], normals=[T(arr(s, (n, 3), -0.5, 0.5, "n%d" % b), D) for b, n in enumerate(ns)], **dev_kw())
        M = T(pose(s), D)
        for y in (pc + 1.0, pc - T([1.0, 2, 3], D), pc * 0.0, pc / 2.0, pc.rotate(M[:3, :3]), pc.transform(M), pc.clone(), pc[0], pc.pinhole_projection(T(rgbds.kmat(s, 4, 5), D))):
            good_cloud(y, "clouds, some empty", ns[:len(y)])
