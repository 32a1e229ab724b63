"""C16: gradients."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds, pcs, fus, regs, rooms
from checks import c10 as C10
from gradslam import Pointclouds, RGBDImages
from gradslam.slam import ICPSLAM, PointFusion
from gradslam.slam.fusionutils import update_map_fusion, find_correspondences
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.icputils import point_to_plane_ICP, point_to_plane_gradICP, gauss_newton_solve, solve_linear_system
from gradslam.odometry.icputils import downsample_pointclouds, downsample_rgbdimages
from gradslam.slam.fusionutils import get_alpha
from gradslam.structures.utils import pointclouds_from_rgbdimages
from gradslam.structures.structutils import list_to_padded, padded_to_list
from gradslam.datasets import datautils as DU
from gradslam.geometry import geometryutils as GU, projutils as PJ, se3utils

rule("C16", "A case is a small RGB-D sequence or a pair of clouds, a weighted sum of an output (vertex, normal, map, color, confidence, pose) and a random "
     "direction per input; the reverse-mode derivative along it is compared with a central difference of the independent float64 model with the same "
     "associations. Cases within rounding of an association boundary, or with badly conditioned normals or registrations, are only checked for finite "
     "gradients. Every public step from tensors to tensors is also taken alone, its derivative compared with differences of its own values. Non-trivial: the true derivative along some direction is not negligible.")


class Leaves:
    """The sensor inputs as leaf tensors and the case's model."""

    def __init__(self, m, which=("rgb", "d", "K", "poses")):
        self.m = m
        self.rgb = T(np.ascontiguousarray(rgbds.lay(m.rgb, m.cf)))
        self.d = T(np.ascontiguousarray(rgbds.lay(m.d[..., None], m.cf)))
        self.K = T(m.K[:, None])
        self.poses = None if m.poses is None else T(m.poses)
        self.which = [k for k in which if getattr(self, k) is not None]
        for k in self.which:
            getattr(self, k).requires_grad_(True)

    def images(self):
        return RGBDImages(self.rgb, self.d, self.K, self.poses, channels_first=self.m.cf)

    def grad(self, k):
        """Gradient in the model's layout (channels last, no channel for depth, no sequence axis for intrinsics)."""
        g = getattr(self, k).grad
        if g is None:
            return np.zeros(getattr(self.m, k).shape)
        g = npy(g).astype(np.float64)
        if k in ("rgb", "d"):
            g = np.moveaxis(g, 2, -1) if self.m.cf else g
            return g[..., 0] if k == "d" else g
        return g[:, 0] if k == "K" else g


def shifted(m, k, D, h):
    o = m.copy()
    setattr(o, k, getattr(m, k) + h * D)
    return o


def direction(m, k, s):
    D = arr(s, getattr(m, k).shape, -1, 1, "dir" + k)
    if k == "d":
        D = D * m.mask()
    if k == "K":
        Z = np.zeros_like(D)
        Z[..., [0, 1, 0, 1], [0, 1, 2, 2]] = D[..., [0, 1, 0, 1], [0, 1, 2, 2]] * 3
        D = Z
    if k == "poses":
        D[..., 3, :] = 0
    if k == "rgb":
        D = D * 50
    return D


def judge(ctx, L, ref, m, s, what, rtol=5e-3, ks=None, h=1e-6, floor=1e-6):
    for k in ks or L.which:
        D = direction(m, k, s)
        fd = (ref(shifted(m, k, D, h)) - ref(shifted(m, k, D, -h))) / (2 * h)
        g = L.grad(k)
        finite(g, "%s: gradient with respect to %s" % (what, k))
        got = float((g * D).sum())
        size = float(np.abs(g * D).sum())
        ctx.nt(abs(fd) > 1e-3)
        if not abs(got - fd) <= rtol * (size + abs(fd)) + floor:
            fail("%s: derivative with respect to %s along a direction is %g, the true one is %g (terms of total size %g)", what, k, got, fd, size)
        if k == "d":
            check((g[~m.mask()] == 0).all(), "%s: a pixel without depth receives a gradient", what)


maps = fixed(f=rgbds.unit, view=st.sampled_from(["vertex_map", "normal_map", "global_vertex_map", "global_normal_map"]),
             via=st.sampled_from(["plain", "plain", "clone", "slice", "first", "last"]), s=seeds)


def wellposed(m):
    """Pixels whose normal is well conditioned enough for float32 derivatives."""
    V = m.vertex()
    dh, dv = np.zeros_like(V), np.zeros_like(V)
    dh[:, :, :, :-1] = V[:, :, :, 1:] - V[:, :, :, :-1]
    dh[:, :, :, -1] = dh[:, :, :, -2]
    dv[:, :, :-1] = V[:, :, 1:] - V[:, :, :-1]
    dv[:, :, -1] = dv[:, :, -2]
    a, b = np.linalg.norm(dh, axis=-1), np.linalg.norm(dv, axis=-1)
    return (np.linalg.norm(np.cross(dh, dv), axis=-1) > 0.1 * a * b) & (a > 0.03) & (b > 0.03) & m.mask()


@test("C16", maps, quick=6000)
def derived_maps(case, ctx):
    m = rgbds.model_of(case["f"])
    L = Leaves(m)
    x = L.images()
    via = case["via"]
    if via == "clone":
        x = x.clone()
    elif via == "slice":
        x = x[:, :]
    elif via == "first":
        x = x.to_channels_first()
    elif via == "last":
        x = x.to_channels_last()
    v = case["view"]
    w = arr(case["s"], m.shape + (3,), -1, 1, "w")
    k = m.mask()
    if "normal" in v:
        k = wellposed(m)
    w = w * k[..., None]
    out = getattr(x, v)
    (out * T(rgbds.lay(w, x.channels_first))).sum().backward()
    f = {"vertex_map": lambda o: o.vertex(), "normal_map": lambda o: o.normal()[0], "global_vertex_map": lambda o: o.glob(),
         "global_normal_map": lambda o: o.gnormal()[0]}[v]
    ctx.event(v)
    judge(ctx, L, lambda o: float((f(o) * w).sum()), m, case["s"], v, rtol=5e-3 if "normal" not in v else 2e-2,
          ks=[k for k in L.which if k != "rgb"])


@test("C16", maps, quick=2500)
def finite_everywhere(case, ctx):
    """All maps of any frame (holes, flat and degenerate patches included) have finite gradients, and missing pixels none."""
    c = dict(case["f"])
    m = rgbds.model_of(c)
    if case["s"] % 3 == 0:
        m.d[m.d > 0] = 1.0     # a flat wall
    if case["s"] % 5 == 0:
        m.d[:] = 0
    if case["s"] % 7 == 0:
        m.K[:, 0, 2] = np.round(m.K[:, 0, 2])
        m.K[:, 1, 2] = np.round(m.K[:, 1, 2])
    L = Leaves(m)
    x = L.images()
    sum((getattr(x, v) * T(arr(case["s"], tuple(getattr(x, v).shape), -1, 1, v))).sum() for v in
        ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map")).backward()
    ctx.nt(m.mask().any() and not m.mask().all())
    for k in L.which:
        g = L.grad(k)
        finite(g, "gradient with respect to " + k)
        if k == "d":
            check((g[~m.mask()] == 0).all(), "a pixel without depth receives a gradient")


gt = fixed(f=fus.frame, L=st.integers(1, 3), pf=st.booleans(), inplace=st.booleans(), step=st.booleans(), dist=st.sampled_from([0.1, 0.3, 1]), ang=st.sampled_from([20, 45, 80]),
           sigma=st.sampled_from([0.6, 0.6, 2]), move=st.sampled_from([0.0, 0.02, 0.1]), drift=st.sampled_from([0.0, 0.01, 0.2]), s=seeds)


@test("C16", gt, quick=1800)
def maps_with_known_poses(case, ctx):
    c = case
    ms = fus.sequence(c)
    cat = lambda k: np.concatenate([getattr(q, k) for q in ms], 1)
    m = rgbds.Model(cat("rgb"), cat("d"), ms[0].K, cat("poses"), ms[0].cf)
    L = Leaves(m)
    dot = float(np.cos(np.deg2rad(c["ang"])))
    sl = PointFusion(odom="gt", dist_th=c["dist"], angle_th=c["ang"], sigma=c["sigma"], **dev_kw()) if c["pf"] else ICPSLAM(odom="gt", **dev_kw())
    # the associations, from plain tensors
    tabs, now = [], Pointclouds(device=here())
    for q in ms:
        x = rgbds.build(q)
        tabs.append([tuple(r) for r in find_correspondences(now, x, c["dist"], dot).tolist()] if c["pf"] else [])
        if c["pf"]:
            now = update_map_fusion(now, x, c["dist"], dot, c["sigma"])
    fr = L.images()
    if c["step"]:
        pc, poses = Pointclouds(device=here()), []
        for l in range(c["L"]):
            pc, p = sl.step(pc, fr[:, l], None, inplace=c["inplace"])
            poses.append(p)
        poses = torch.cat(poses, 1)
    else:
        pc, poses = sl(fr)
    good = all(wellposed(q)[q.mask()].all() for q in ms)
    B = m.shape[0]
    attrs = ["points", "colors"] + (["normals"] if good else []) + (["features"] if c["pf"] else [])
    ctx.event("with normals" if good else "without normals")
    W = {}
    loss = 0
    for k in attrs:
        for b in range(B):
            t = getattr(pc, k + "_list")[b]
            W[k, b] = arr(c["s"], tuple(t.shape), -1, 1, "w%s%d" % (k, b)) * {"colors": 0.02, "features": 3}.get(k, 1)
            loss = loss + (t * T(W[k, b])).sum()
    WP = arr(c["s"], m.poses.shape, -1, 1, "wp")
    WP[..., 3, :] = 0
    loss = loss + (poses * T(WP)).sum()
    if c["L"] > 1:
        # padded views carry gradients as well
        loss = loss + 0 * pc.points_padded.sum()
    loss.backward()

    def ref(o):
        mp = fus.Map.empty(B)
        for l in range(c["L"]):
            q = o.sel(slice(None), [l])
            mp = fus.fuse(mp, q, tabs[l], c["sigma"], q.gnormal()[0])[0]
        nm = {"points": mp.points, "colors": mp.colors, "normals": mp.normals, "features": mp.conf}
        return sum(float((nm[k][b] * W[k, b]).sum()) for k in attrs for b in range(B)) + float((o.poses * WP).sum())

    judge(ctx, L, ref, m, c["s"], ("fused" if c["pf"] else "aggregated") + " map", rtol=2e-2 if good else 5e-3)
    # whatever influences the map receives a gradient
    if m.mask().any():
        gr = L.grad("rgb")
        for b in range(B):
            k = m.mask()[b]
            check((gr[b][k] != 0).any(-1).all(), "the color of a pixel in the map of element %d receives no gradient", b)
            check((gr[b][~k] == 0).all(), "the color of a pixel without depth receives a gradient")


reg = fixed(solver=st.sampled_from(["icp", "gradicp", "gradicp"]), prov=st.booleans(), kind=st.sampled_from(["ellipsoid", "ellipsoid", "corner"]),
            nt=st.integers(8, 24), mot=st.sampled_from([0.02, 0.05, 0.1, 0.2]), noise=st.sampled_from([0.0, 0.01, 0.03]), init=st.sampled_from(["none", "near"]),
            iters=st.integers(1, 4), damp=st.sampled_from([1e-8, 1e-3, 1e-1]), th=st.sampled_from([None, None, 0.5, 1]),
            lm=st.sampled_from([(2.0, 1.0, 1.0, 200.0), (1.5, 0.5, 2.0, 20.0), (4.0, 3.0, 0.5, 5.0)]), s=seeds)


@test("C16", reg, quick=2500)
def registration(case, ctx):
    c = case
    s = c["s"]
    tgt, nrm = regs.cloud(s, c["kind"], c["nt"])
    M = np.eye(4)
    M[:3, :3] = rot_axis_angle(arr(s, (3,), -1, 1, "ax"), c["mot"])
    M[:3, 3] = arr(s, (3,), -1, 1, "tr") * c["mot"]
    src = regs.act(M, tgt + arr(s, tgt.shape, -1, 1, "noise") * c["noise"])
    I = np.eye(4) if c["init"] == "none" else pose(s, 0.03, 0.03, "init")
    X = {"src": fus.f32(src), "tgt": fus.f32(tgt), "nrm": fus.f32(nrm), "init": fus.f32(I)}
    W = arr(s, (4, 4), -1, 1, "w")
    W[3] = 0

    def ref(X, mg=None):
        a = (X["src"], X["tgt"], X["nrm"], X["init"], c["iters"], c["damp"], c["th"])
        return regs.icp(*a, mg=mg)[0] if c["solver"] == "icp" else regs.gradicp(*a, *c["lm"], mg=mg)[0]

    mg = regs.Margin()
    try:
        ref(X, mg)
    except np.linalg.LinAlgError:
        raise Reject
    if (mg.cond > 40 and c["damp"] < 1e-2) or mg.cond > 500 or mg.v < 1e-4:
        raise Reject
    t = {k: T(v).requires_grad_(True) for k, v in X.items()}
    kw = dict(numiters=c["iters"], damp=c["damp"], dist_thresh=c["th"])
    if c["solver"] == "gradicp":
        kw.update(zip(("lambda_max", "B", "B2", "nu"), c["lm"]))
    if c["prov"] and c["init"] == "none":
        P = (ICPOdometryProvider if c["solver"] == "icp" else GradICPOdometryProvider)(**kw)
        got = P.provide(Pointclouds(points=[t["tgt"]], normals=[t["nrm"]]), Pointclouds(points=[t["src"]]))[0, 0]
        ks = ["src", "tgt", "nrm"]
        ctx.event("provider")
    else:
        f = point_to_plane_ICP if c["solver"] == "icp" else point_to_plane_gradICP
        got, _ = f(t["src"][None], t["tgt"][None], t["nrm"][None], t["init"], **kw)
        ks = list(X)
    ctx.event(c["solver"])
    if got.requires_grad:
        (got * T(W)).sum().backward()
    for k in ks:
        D = arr(s, X[k].shape, -1, 1, "dir" + k)
        if k == "init":
            D[3] = 0
        h = 1e-6
        fd = float((W * (ref(dict(X, **{k: X[k] + h * D})) - ref(dict(X, **{k: X[k] - h * D})))).sum()) / (2 * h)
        # (a registration that rejects all its steps does not depend on the clouds)
        g = np.zeros(X[k].shape) if t[k].grad is None else npy(t[k].grad).astype(np.float64)
        finite(g, "%s: gradient with respect to %s" % (c["solver"], k))
        got_d, size = float((g * D).sum()), float(np.abs(g * D).sum())
        ctx.nt(abs(fd) > 1e-3)
        check(abs(got_d - fd) <= 2e-2 * (size + abs(fd)) + 1e-4, "%s: derivative with respect to %s along a direction is %g, the true one is %g (terms "
              "of total size %g)", c["solver"], k, got_d, fd, size)


slam = fixed(B=st.integers(1, 2), L=st.just(2), H=st.integers(5, 7), W=st.integers(6, 8), kind=st.sampled_from(["box", "ell"]),
             mot=st.sampled_from([0.01, 0.03, 0.06]), holes=st.sampled_from([0.0, 0.1]), cf=st.booleans(), start=st.booleans(),
             odom=st.sampled_from(["gradicp", "gradicp", "icp"]), pf=st.booleans(), ds=st.just(1), iters=st.integers(1, 3), damp=st.sampled_from([1e-3, 1e-1]),
             s=seeds)


@test("C16", slam, quick=900)
def recovered_poses(case, ctx):
    """Whole SLAM runs: pose and aggregated map of the second frame with respect to everything."""
    c = case
    m, start, true = rooms.views(c)
    m = rgbds.Model(m.rgb, m.d, m.K, fus.f32(np.stack([start, start], 1)), m.cf)
    B = c["B"]
    L = Leaves(m)
    s = (PointFusion if c["pf"] else ICPSLAM)(odom=c["odom"], dsratio=1, numiters=c["iters"], damp=c["damp"], **dev_kw())
    W = arr(c["s"], (B, 4, 4), -1, 1, "w")
    W[:, 3] = 0

    def ref(o, mgs=None):
        V, N = o.vertex(), o.gnormal()[0]
        out, k = [], o.mask()
        for b in range(B):
            P = o.poses[b, 0]
            a = (regs.act(P, V[b, 1][k[b, 1]]), regs.act(P, V[b, 0][k[b, 0]]), N[b, 0][k[b, 0]], np.eye(4), c["iters"], c["damp"], None)
            mg = regs.Margin()
            M = regs.icp(*a, mg=mg)[0] if c["odom"] == "icp" else regs.gradicp(*a, 2.0, 1.0, 1.0, 200.0, mg=mg)[0]
            if mgs is not None:
                mgs.append(mg)
            out.append(M @ P)
        return np.stack(out), V

    mgs = []
    try:
        want, V = ref(m, mgs)
    except np.linalg.LinAlgError:
        raise Reject
    ok = all(wellposed(m)[b, 0][m.mask()[b, 0]].all() for b in range(B)) and all(g.cond < 40 and g.v > 2e-5 for g in mgs)
    if max(g.cond for g in mgs) > 200:
        raise Reject
    pc, poses = s(L.images())
    WM = [arr(c["s"], tuple(p.shape), -.2, .2, "wm%d" % b) for b, p in enumerate(pc.points_list)]
    n0 = [int(k.sum()) for k in m.mask()[:, 0]]
    loss = (poses[:, 1] * T(W)).sum()
    if not c["pf"]:
        for b in range(B):
            WM[b][:n0[b]] = 0
            loss = loss + (pc.points_list[b] * T(WM[b])).sum()
    loss.backward()
    for k in ("d", "K", "poses"):
        g = L.grad(k)
        finite(g, "gradient with respect to " + k)
        if k == "d":
            check((g[~m.mask()] == 0).all(), "a pixel without depth receives a gradient")
        for b in range(B):
            check(np.abs(g[b]).max() > 0 or c["odom"] == "icp" and k != "poses", "%s of element %d receives no gradient", k, b)
    if not ok:
        ctx.event("near a boundary")
        return
    check(np.abs(L.grad("poses")[:, 1]).max() == 0, "the pose given for a later frame receives a gradient")
    ctx.event(c["odom"])

    def scalar(o):
        P, V = ref(o)
        r = float((P * W).sum())
        if not c["pf"]:
            r += sum(float((regs.act(P[b], V[b, 1][o.mask()[b, 1]]) * WM[b][n0[b]:]).sum()) for b in range(B))
        return r

    judge(ctx, L, scalar, m, c["s"], c["odom"] + " SLAM", rtol=3e-2, ks=["d", "K", "poses"], floor=1e-4)


@test("C16", fixed(p=pcs.batch, f=rgbds.unit, k=st.integers(0, 3), s=seeds), quick=1500)
def detached_copies(case, ctx):
    c = case
    m = pcs.model_of(c["p"])
    kw = {}
    leaf = []

    def mk(a):
        t = T(a).requires_grad_(True)
        leaf.append(t)
        return t
    kw = {k: [mk(a) for a in v] for k, v in m.attrs.items() if v is not None}
    pc = Pointclouds(points=[mk(a) for a in m.points], **kw)
    for q in range(c["k"]):
        getattr(pc, ["points_padded", "normals_padded", "colors_padded"][(c["s"] >> q) % 3])
    if c["s"] % 4 == 0 and m.ns and max(m.ns):
        pc = pc * 2.0
    cl, de = pc.clone(), pc.detach()
    ctx.nt(max(m.ns) > 0)
    for k in ("points",) + pcs.ATTRS:
        l, p = getattr(de, k + "_list"), getattr(de, k + "_padded")
        if l is None:
            continue
        check(not any(t.requires_grad for t in l) and not p.requires_grad, "%s of a detached cloud carry a gradient", k)
        check(all(t.requires_grad for t in getattr(pc, k + "_list")) and getattr(pc, k + "_padded").requires_grad, "%s of the source lost their gradient", k)
        check(all(t.requires_grad for t in getattr(cl, k + "_list")), "%s of a clone lost their gradient", k)
    mm = rgbds.model_of(c["f"])
    L = Leaves(mm)
    x = L.images()
    for q in range(c["k"]):
        getattr(x, rgbds.VIEWS[(c["s"] >> (3 * q)) % 9])
    de, cl = x.detach(), x.clone()
    for k in ("rgb_image", "depth_image", "intrinsics", "poses", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map"):
        v = getattr(de, k)
        if v is None:
            continue
        check(not v.requires_grad, "%s of a detached frame carries a gradient", k)
        check(getattr(x, k).requires_grad, "%s of the source lost its gradient", k)
        check(getattr(cl, k).requires_grad, "%s of a clone lost its gradient", k)


small = fixed(n=st.integers(6, 14), damp=st.sampled_from([0.0, 1e-4, 0.3]), th=st.sampled_from([None, 0.8]), scale=st.sampled_from([0.0, 1e-7, 1e-6, 3e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.3, 1.5]),
              single=st.booleans(), s=seeds)


@test("C16", small, quick=2500)
def building_blocks(case, ctx):
    """The exponential maps, the linearisation and the linear solver."""
    c = case
    s = c["s"]
    D = torch.float64
    xi = arr(s, (6,), -1, 1, "xi")
    xi[3:] *= c["scale"]
    W, dv = arr(s, (4, 4), -1, 1, "w"), arr(s, (6,), -1, 1, "dv")
    W[3] = 0
    P = torch.float32 if c["single"] else D
    if c["single"]:
        xi = fus.f32(xi)
    t = T(xi, P).reshape([(6, 1), (6,)][s % 2]).requires_grad_(True)
    (se3utils.se3_exp(t) * T(W, P)).sum().backward()
    h = 1e-6
    fd = float((W * (regs.exp(xi + h * dv) - regs.exp(xi - h * dv))).sum()) / (2 * h)
    got = float((npy(t.grad).reshape(6) * dv).sum())
    ctx.nt(abs(fd) > 1e-3)
    check(abs(got - fd) <= 1e-4 * (1 + abs(fd)), "derivative of se3_exp at %s is %g, the true one is %g", xi.tolist(), got, fd)
    t = T(xi[3:], P).requires_grad_(True)
    (se3utils.so3_exp(t) * T(W[:3, :3], P)).sum().backward()
    fd = float((W[:3, :3] * (regs.exp(xi + h * dv) - regs.exp(xi - h * dv))[:3, :3]).sum()) / (2 * h)
    got = float((npy(t.grad) * dv[3:]).sum())
    check(abs(got - fd) <= 1e-4 * (1 + abs(fd)), "derivative of so3_exp at %s is %g, the true one is %g", xi[3:].tolist(), got, fd)
    # solver
    A, b = arr(s, (c["n"], 6), -1, 1, "A"), arr(s, (c["n"],), -1, 1, "b")
    if regs.conditioning(A) > 50:
        raise Reject
    dA, db, w = arr(s, A.shape, -1, 1, "dA"), arr(s, b.shape, -1, 1, "db"), arr(s, (6,), -1, 1, "ws")
    tA, tb, td = T(A, D).requires_grad_(True), T(b, D).reshape(-1, 1).requires_grad_(True), torch.tensor(c["damp"], dtype=D, requires_grad=True)
    (solve_linear_system(tA, tb, td).reshape(-1) * T(w, D)).sum().backward()
    f = lambda e: float(w @ regs.solve(A + e * dA, b + e * db, c["damp"] + 0.5 * e))
    fd = (f(h) - f(-h)) / (2 * h)
    got = float((npy(tA.grad) * dA).sum() + (npy(tb.grad).reshape(-1) * db).sum() + 0.5 * float(td.grad))
    check(abs(got - fd) <= 1e-4 * (1 + abs(fd)), "derivative of the linear solver is %g, the true one is %g", got, fd)
    # linearisation (nearest neighbours are found in single precision)
    src, tgt = fus.f32(arr(s, (c["n"], 3), -1, 1, "src")), fus.f32(arr(s, (8, 3), -1, 1, "tgt"))
    nrm = fus.f32(arr(s, (8, 3), -1, 1, "nrm"))
    mg = regs.Margin()
    R = mg.rows(src, tgt, nrm, c["th"])
    if mg.v < 1e-4:
        return
    ts, tt, tn = (T(a)[None].requires_grad_(True) for a in (src, tgt, nrm))
    A1, b1, _ = gauss_newton_solve(ts, tt, tn, c["th"])
    wA, wb = arr(s, R[0].shape, -1, 1, "wA"), arr(s, R[1].shape, -1, 1, "wb")
    if not len(wb):
        return
    ((A1 * T(wA)).sum() + (b1.reshape(-1) * T(wb)).sum()).backward()
    ds, dt, dn = (arr(s, a.shape, -1, 1, "D" + k) for a, k in ((src, "s"), (tgt, "t"), (nrm, "n")))

    def g(e):
        A, b, _, _ = regs.rows(src + e * ds, tgt + e * dt, nrm + e * dn, c["th"])
        return float((A * wA).sum() + (b * wb).sum())
    fd = (g(h) - g(-h)) / (2 * h)
    got = sum(float((npy(t.grad)[0] * d).sum()) for t, d in ((ts, ds), (tt, dt), (tn, dn)))
    check(abs(got - fd) <= 1e-3 * (1 + abs(fd)), "derivative of the linearisation is %g, the true one is %g", got, fd)


# ---------------------------------------------------------------- every step from tensors to tensors
STEPS = {}    # name -> what gives, for a seed, the function and its named inputs (float64), in which its results are smooth almost everywhere


def step(name, single=False, h=None):
    def deco(f):
        STEPS[name] = (f, single, h or (2.0 ** -6 if single else 1e-5))
        return f
    return deco


def amounts(s, B, tag):
    """A scalar, a vector or one vector per cloud."""
    return arr(s, [(), (3,), (B, 1, 3)][(s >> 2) % 3], 0.3, 2, tag)


def cloud_step(name, op, **more):
    """An operation on clouds given as lists or padded, with an operand."""
    @step("Pointclouds." + name)
    def _(s):
        B = 1 + s % 3
        padded = (s >> 5) & 1
        ns = [3] * B if padded else [1 + (s >> (6 + 2 * b)) % 4 for b in range(B)]
        w = {"points": 3, "normals": 3, "colors": 3, "features": 2}
        X = {"%s%d" % (k, b): arr(s, (n, c), -1, 1, k + str(b)) for k, c in w.items() for b, n in enumerate(ns)}
        if name.startswith("pinhole"):
            for b in range(B):
                X["points%d" % b][:, 2] = 0.5 + np.abs(X["points%d" % b][:, 2])
        other = {k: f(s, B) for k, f in more.items()}
        X.update(other)

        def run(**t):
            a = {k: [t["%s%d" % (k, b)] for b in range(B)] for k in w}
            if padded:
                a = {k: torch.stack(v) for k, v in a.items()}
            pc = Pointclouds(**a)
            if (s >> 10) % 3 == 0:
                pc.points_padded, pc.normals_list, pc.colors_padded
            if (s >> 11) % 3 == 0:
                pc = pc.clone()
            y = op(pc, s, **{k: t[k] for k in other})
            y = pc if y is None else y
            out = []
            for i, k in enumerate(w):
                out += list(getattr(y, k + "_list")) if (s >> (12 + i)) & 1 else [getattr(y, k + "_padded")]
            return out
        return run, X


one_or_each = lambda f: lambda s, B: f(s, "one") if (s >> 3) & 1 else np.stack([f(s, "e%d" % b) for b in range(B)])
rotations = one_or_each(lambda s, t: rot(s, 3.0, t))
motions = one_or_each(lambda s, t: pose(s, tag=t))
cameras = one_or_each(lambda s, t: rgbds.kmat(s, 3, 4, t))
pre = lambda s: bool((s >> 4) & 1)
amount = lambda s, B: amounts(s, B, "amount")
cloud_step("plus", lambda pc, s, v: pc + v, v=amount)
cloud_step("minus", lambda pc, s, v: pc - v, v=amount)
cloud_step("times", lambda pc, s, v: pc * v, v=amount)
cloud_step("over", lambda pc, s, v: pc / v, v=amount)
cloud_step("offset_", lambda pc, s, v: pc.offset_(v), v=amount)
cloud_step("scale_", lambda pc, s, v: pc.scale_(v), v=amount)
cloud_step("turned", lambda pc, s, R: pc @ R, R=rotations)
cloud_step("moved", lambda pc, s, M: pc @ M, M=motions)
cloud_step("rotate", lambda pc, s, R: pc.rotate(R, pre_multiplication=pre(s)), R=rotations)
cloud_step("rotate_", lambda pc, s, R: pc.rotate_(R, pre_multiplication=pre(s)), R=rotations)
cloud_step("transform", lambda pc, s, M: pc.transform(M, pre_multiplication=pre(s)), M=motions)
cloud_step("transform_", lambda pc, s, M: pc.transform_(M, pre_multiplication=pre(s)), M=motions)
cloud_step("pinhole_projection", lambda pc, s, K: pc.pinhole_projection(K), K=cameras)
cloud_step("pinhole_projection_", lambda pc, s, K: pc.pinhole_projection_(K), K=cameras)
cloud_step("index", lambda pc, s: pc[[-1, slice(0, 2), [0, -1], torch.tensor([0])][s % 4]])
cloud_step("to", lambda pc, s: pc.to(here(), copy=bool(s & 1)))
cloud_step("append", lambda pc, s, p, n, c, f: pc.append_points(Pointclouds(p, n, c, f)), **{k: (lambda s, B, k=k, w=w: arr(s, (B, 2, w), -1, 1, "more" + k)) for k, w in (("p", 3), ("n", 3), ("c", 3), ("f", 2))})
cloud_step("append itself", lambda pc, s: pc.append_points(pc))


def assigned(pc, s, a, b):
    k = ["points", "normals", "colors"][s % 3]
    v = getattr(pc, k + "_padded") * a + torch.where(pc.nonpad_mask[..., None], b, torch.zeros_like(b))
    if s & 8:
        setattr(pc, k + "_padded", v)
    else:
        setattr(pc, k + "_list", [q[:n] for q, n in zip(v, pc.num_points_per_pointcloud.tolist())])


cloud_step("assignment", assigned, a=lambda s, B: arr(s, (), 0.5, 2, "fa"), b=lambda s, B: arr(s, (3,), -1, 1, "fb"))


def plain(name, fn, single=False, h=None, **gen):
    @step(name, single, h)
    def _(s):
        return (lambda **t: [fn(s, **t)]), {k: np.asarray(g(s), np.float64) for k, g in gen.items()}


some = lambda *shape, lo=-1.0, hi=1.0: lambda s: arr(s, shape, lo, hi, "x%s%s" % (shape, (lo, hi)))
a_pose = lambda t: lambda s: pose(s, tag=t)
poses_of = lambda t, n: lambda s: np.stack([pose(s, tag=t + str(i)) for i in range(n)])
a_camera = lambda s: rgbds.kmat(s, 3, 4)


def ahead(*shape):
    def f(s):
        x = arr(s, shape, -1, 1, "ahead")
        x[..., 2] = 0.4 + np.abs(x[..., 2])
        if shape[-1] == 4:
            x[..., 3] = 1
        return x
    return f


def quat(s):
    q = arr(s, (3, 4), -1, 1, "q")
    q[np.linalg.norm(q, axis=-1) < 0.3] = [0.1, 0.2, -0.3, 0.8]
    return q


for _m, _t in ((GU, "geometryutils"), (PJ, "projutils")):
    plain(_t + ".homogenize_points", lambda s, pts, m=_m: m.homogenize_points(pts), pts=some(2, 3, 3))
    plain(_t + ".unhomogenize_points", lambda s, pts, m=_m: m.unhomogenize_points(pts), pts=some(2, 3, 4, lo=0.3, hi=2))
plain("quaternion_to_axisangle", lambda s, q: GU.quaternion_to_axisangle(q), q=quat)
plain("normalize_quaternion", lambda s, q: GU.normalize_quaternion(q), q=quat)
plain("quaternion_to_rotation_matrix", lambda s, q: GU.quaternion_to_rotation_matrix(q), q=quat)
plain("inverse_transfom_3d", lambda s, M: GU.inverse_transfom_3d(M), M=lambda s: (a_pose("a") if s & 1 else poses_of("a", 2))(s))
plain("compose_transforms_3d", lambda s, a, b: GU.compose_transforms_3d(a, b), a=poses_of("a", 2), b=poses_of("b", 2))
plain("compose_transformations", lambda s, a, b: GU.compose_transformations(a, b), a=poses_of("a", 2), b=poses_of("b", 2))
plain("inverse_transformation", lambda s, a: GU.inverse_transformation(a), a=poses_of("a", 2))
plain("relative_transform_3d", lambda s, a, b: GU.relative_transform_3d(a, b), a=a_pose("a"), b=a_pose("b"))
plain("relative_transformation", lambda s, a, b: GU.relative_transformation(a, b, orthogonal_rotations=bool(s & 1)), a=poses_of("a", 2), b=poses_of("b", 2))
plain("transform_pts_3d", lambda s, p, M: GU.transform_pts_3d(p, M), p=some(4, 3), M=a_pose("M"))
plain("transform_pts_nd_KF", lambda s, p, M: GU.transform_pts_nd_KF(p, M), p=some(2, 4, 3), M=poses_of("M", 2))
plain("transform_pointcloud", lambda s, p, M: GU.transform_pointcloud(p, M), p=some(4, 3), M=a_pose("M"))
plain("transform_normals", lambda s, p, M: GU.transform_normals(p, M), p=some(4, 3), M=a_pose("M"))
plain("normalize_pixel_coords", lambda s, x: GU.normalize_pixel_coords(x, 4, 6), x=some(2, 3, 2, lo=0, hi=5))
plain("unnormalize_pixel_coords", lambda s, x: GU.unnormalize_pixel_coords(x, 4, 6), x=some(2, 3, 2))
plain("cam2pixel", lambda s, x, K: GU.cam2pixel(x, K), x=ahead(3, 4, 3), K=a_camera)
plain("cam2pixel_KF", lambda s, x, K: GU.cam2pixel_KF(x, K), x=ahead(1, 4, 3), K=lambda s: a_camera(s)[None])
plain("pixel2cam", lambda s, d, K, x: GU.pixel2cam(d, K, x), d=some(3, 4, lo=0.5, hi=2), K=lambda s: np.linalg.inv(a_camera(s)), x=some(3, 4, 3, lo=0, hi=3))
plain("project_points", lambda s, x, K: PJ.project_points(x, K), x=lambda s: ahead(4, 3 + (s & 1))(s), K=a_camera)
plain("unproject_points", lambda s, x, K, d: PJ.unproject_points(x, K, d), x=lambda s: some(3, 2 + (s & 1), lo=0.5, hi=4)(s), K=lambda s: np.linalg.inv(a_camera(s)[:3, :3]), d=some(3, lo=0.5, hi=2))
plain("inverse_intrinsics", lambda s, K: PJ.inverse_intrinsics(K), K=lambda s: np.stack([a_camera(s), a_camera(s + 1)]))
plain("so3_hat", lambda s, x: se3utils.so3_hat(x), x=some(3))
plain("se3_hat", lambda s, x: se3utils.se3_hat(x), x=some(6))
plain("get_alpha", lambda s, x, g: get_alpha(x, g, dim=[-1, 1][s & 1], keepdim=bool(s & 2)), x=some(2, 3, 3), g=lambda s: arr(s, (), 0.5, 1.5, "sigma"))
plain("normalize_image", lambda s, x: DU.normalize_image(x), single=True, h=1.0, x=some(2, 3, 3, lo=0, hi=255))
plain("channels_first", lambda s, x: DU.channels_first(x), x=some(2, 4, 5, 3))
plain("scale_intrinsics", lambda s, K: DU.scale_intrinsics(K, 0.5, 0.75), single=True, K=a_camera)
plain("pointquaternion_to_homogeneous", lambda s, q, t: DU.pointquaternion_to_homogeneous(torch.cat([t, q], -1)), single=True, q=quat, t=some(3, 3))


@step("list_to_padded")
def _(s):
    ns = [1 + (s >> (2 * b)) % 4 for b in range(3)]
    eq = (s >> 7) & 1
    return (lambda **t: [list_to_padded(list(t.values()), equisized=bool(eq), **(dict(pad_size=(5, 4), pad_value=1.5) if s & 64 else {}))]), {"x%d" % b: arr(s, (3 if eq else n, 3), -1, 1, "x%d" % b) for b, n in enumerate(ns)}


@step("padded_to_list")
def _(s):
    return (lambda x: padded_to_list(x, [1 + s % 4, (s >> 2) % 4] if s & 16 else None)), {"x": arr(s, (2, 4, 3), -1, 1, "x")}


def frame_step(name, fn):
    @step(name, single=True)
    def _(s):
        m = rgbds.model_of(dict(B=1 + s % 2, L=1, H=3 + (s >> 1) % 3, W=4 + (s >> 3) % 3, cf=False, poses=True, holes=0.2, surf="smooth", neg=False, s=s))
        hole = T(m.mask()[..., None]) > 0
        k = s >> 6

        def run(rgb, d, K, poses):
            d = torch.where(hole, d, torch.zeros_like(d))
            a = [rgb, d, K, poses]
            if k & 1:      # assigned later
                x = RGBDImages(torch.zeros_like(rgb), torch.ones_like(d), torch.eye(4, device=d.device).expand(K.shape).clone(), torch.eye(4, device=d.device).expand(poses.shape).clone())
                if k & 2:
                    x.vertex_map, x.global_vertex_map
                x.rgb_image, x.depth_image, x.intrinsics, x.poses = a
            else:
                x = RGBDImages(*a)
            x = [lambda: x, x.to_channels_first, x.clone, lambda: x[:, :]][(k >> 2) % 4]()
            return fn(x, s)
        return run, {"rgb": m.rgb, "d": np.where(m.d > 0, m.d, 1.0)[..., None], "K": m.K[:, None], "poses": m.poses}


bare = lambda pc: list(pc.points_list) + list(pc.colors_list)
frame_step("downsample_rgbdimages", lambda x, s: bare(downsample_rgbdimages(x, 1 + (s >> 5) % 2)))
frame_step("pointclouds_from_rgbdimages", lambda x, s: bare(pointclouds_from_rgbdimages(x, global_coordinates=bool(s & 16), filter_missing_depths=bool(s & 32))))
frame_step("frame parts", lambda x, s: [x.rgb_image, x.depth_image, x.intrinsics, x.poses, x.vertex_map, x.global_vertex_map])


@step("downsample_pointclouds")
def _(s):
    rows = torch.tensor([(b, i, int(h), int(w)) for b in range(2) for i, (h, w) in enumerate(np.floor(u01(s, 8, "hw%d" % b).reshape(4, 2) * 4))], device=here())
    def run(**t):
        y = downsample_pointclouds(Pointclouds(**t), rows, 1 + s % 2)
        return list(y.points_list) + list(y.normals_list) + list(y.colors_list)
    return run, {k: arr(s, (2, 4, 3), -1, 1, k) for k in ("points", "normals", "colors")}


@test("C16", fixed(name=st.sampled_from(sorted(STEPS)), only=st.integers(0, 12), s=seeds), quick=6000)
def every_step(case, ctx):
    """What the library does with tensors that carry gradients agrees, along a direction, with what it does at nearby values."""
    gen, single, h = STEPS[case["name"]]
    s = case["s"]
    fn, X = gen(s)
    P = torch.float32 if single else torch.float64
    names = list(X)
    learn = names if case["only"] < 6 else [names[case["only"] % len(names)]]
    t = {k: T(v, P).requires_grad_(k in learn) for k, v in X.items()}
    out = fn(**t)
    ctx.event(case["name"])
    W = [arr(s, tuple(o.shape), -1, 1, "w%d" % i) for i, o in enumerate(out)]

    def value(k, D, e):
        with torch.no_grad():
            o = fn(**{q: T(v + e * D if q == k else v, P) for q, v in X.items()})
        return sum(float((npy(a).astype(np.float64) * w).sum()) for a, w in zip(o, W)), sum(float(np.abs(npy(a) * w).sum()) for a, w in zip(o, W))

    loss = sum((o * T(w, o.dtype)).sum() for o, w in zip(out, W))
    G = torch.autograd.grad(loss, [t[k] for k in learn], allow_unused=True) if loss.requires_grad else [None] * len(learn)
    for k, g in zip(learn, G):
        D = arr(s, X[k].shape, -1, 1, "D" + k) * (100 if k == "rgb" else 1)
        if k in ("K", "M", "a", "b", "poses") and X[k].shape[-2:] == (4, 4):
            D[..., 3, :] = 0
        if k == "K" and X[k].shape[-1] == 4:
            D[..., 2, :] = 0
            D[..., 0, [1, 3]] = 0
            D[..., 1, [0, 3]] = 0
        f1, f2 = [(value(k, D, e)[0] - value(k, D, -e)[0]) / (2 * e) for e in (h, h / 4)]
        size = value(k, D, 0)[1]
        noise = (3e-6 if single else 1e-13) * size / h
        if abs(f1 - f2) > 1e-3 * (abs(f1) + abs(f2)) + 8 * noise:
            ctx.event("not smooth here")
            continue
        g = np.zeros(X[k].shape) if g is None else npy(g, "gradient").astype(np.float64)
        finite(g, "%s: gradient with respect to %s" % (case["name"], k))
        got, terms = float((g * D).sum()), float(np.abs(g * D).sum())
        ctx.nt(abs(f2) > 1e-3)
        check(abs(got - f2) <= 5e-3 * (abs(f2) + (terms if single else 0)) + 1e-6 + 8 * noise, "%s: derivative with respect to %s along a direction is %g, the true one is %g", case["name"], k, got, f2)


@test("C16", C10.large, quick=700)
def registration_with_large_errors(case, ctx):
    """The derivatives of the differentiable registration where the errors are so large that it saturates."""
    c, s, g = dict(case, solver="gradicp", damp=max(case["damp"], 1e-2)), case["s"], case["mag"]
    src, tgt, nrm, M, I, k = C10.setup(c)
    X = {"src": fus.f32(src * g), "tgt": fus.f32(tgt * g), "nrm": fus.f32(nrm)}
    th = None if c["th"] is None else c["th"] * g * 0.5
    lm = c["lm"] or (2.0, 1.0, 1.0, 200.0)
    iters = min(c["iters"], 2)
    ref = lambda X, mg=None: regs.gradicp(X["src"], X["tgt"], X["nrm"], np.eye(4), iters, c["damp"], th, *lm, mg=mg)[0]
    mg = regs.Margin()
    try:
        ref(X, mg)
    except np.linalg.LinAlgError:
        raise Reject
    if mg.cond > 40 * g:
        raise Reject
    t = {k: T(v).requires_grad_(True) for k, v in X.items()}
    got, _ = point_to_plane_gradICP(t["src"][None], t["tgt"][None], t["nrm"][None], numiters=iters, damp=c["damp"], dist_thresh=th, lambda_max=lm[0], B=lm[1], B2=lm[2], nu=lm[3])
    W = arr(s, (4, 4), -1, 1, "w")
    W[3] = 0
    if got.requires_grad:
        (got * T(W)).sum().backward()
    b = regs.rows(X["src"], X["tgt"], X["nrm"], th)[1]
    ctx.nt(b @ b > 70)
    for k in X:
        v = np.zeros(X[k].shape) if t[k].grad is None else npy(t[k].grad).astype(np.float64)
        finite(v, "gradient of the registration with respect to %s" % k)
        if mg.v < 2e-4 * g:
            continue
        D = arr(s, X[k].shape, -1, 1, "dir" + k)
        fd = [float((W * (ref(dict(X, **{k: X[k] + h * D})) - ref(dict(X, **{k: X[k] - h * D})))).sum()) / (2 * h) for h in (1e-5, 1e-6)]
        if abs(fd[0] - fd[1]) > 1e-3 * (abs(fd[0]) + abs(fd[1])) + 1e-6:
            ctx.event("not smooth here")
            continue
        a, size = float((v * D).sum()), float(np.abs(v * D).sum())
        check(abs(a - fd[1]) <= 3e-2 * (size + abs(fd[1])) + 1e-4, "derivative with respect to %s along a direction is %g, the true one is %g (terms of total size %g)", k, a, fd[1], size)
