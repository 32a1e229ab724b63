"""C15: SLAM with registration odometry."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds, pcs, fus, regs, rooms
from gradslam import Pointclouds, RGBDImages
from gradslam.slam import ICPSLAM, PointFusion
from gradslam.slam.fusionutils import update_map_fusion, update_map_aggregate, find_active_map_points
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.icputils import downsample_pointclouds, downsample_rgbdimages

rule("C15", "A case is a sequence of 1-4 rendered views (1-3 elements, 8x10 to 14x18 pixels, holes, either layout) from inside a box corner or an ellipsoid, "
     "a small or zero camera motion, a start pose or none, a pipeline, a registration method and its settings. Poses and map are compared with the "
     "definition composed from the separately judged steps, with a float64 reference registration, with the true motion, and across ways of running. "
     "Non-trivial: at least two frames, and a nonzero motion except where the camera is meant to rest.")

seq = fixed(B=st.integers(1, 2), L=st.integers(2, 3), H=st.integers(8, 14), W=st.integers(10, 18), kind=st.sampled_from(["box", "ell"]),
            mot=st.sampled_from([0.005, 0.01, 0.02]), holes=st.sampled_from([0.0, 0.0, 0.1, 0.3]), cf=st.booleans(), start=st.booleans(),
            odom=st.sampled_from(["icp", "gradicp"]), pf=st.booleans(), ds=st.sampled_from([1, 1, 2, 3]), iters=st.sampled_from([2, 5, 20]),
            damp=st.sampled_from([None, 1e-6, 1e-3]), th=st.sampled_from([None, None, 0.3, 1]), lm=st.sampled_from([None, (1.5, 0.5, 2.0, 20.0), (4.0, 3.0, 0.5, 5.0)]),
            dist=st.sampled_from([None, 0.1]), ang=st.sampled_from([None, 45]), sigma=st.sampled_from([None, 2]), inplace=st.booleans(), s=seeds)


def odom_settings(c):
    kw = dict(numiters=c["iters"])
    if c["damp"] is not None:
        kw["damp"] = c["damp"]
    if c["th"] is not None:
        kw["dist_thresh"] = c["th"]
    if c["odom"] == "gradicp" and c["lm"]:
        kw.update(zip(("lambda_max", "B", "B2", "nu"), c["lm"]))
    return kw


def slam(c):
    kw = dict(odom=c["odom"], dsratio=c["ds"], **odom_settings(c), **dev_kw())
    if not c["pf"]:
        return ICPSLAM(**kw)
    if c["dist"] is not None:
        kw["dist_th"] = c["dist"]
    if c["ang"] is not None:
        kw["angle_th"] = c["ang"]
    if c["sigma"] is not None:
        kw["sigma"] = c["sigma"]
    return PointFusion(**kw)


def insert(c, pc, m, l, P):
    k = rgbds.Model(m.rgb[:, l:l + 1], m.d[:, l:l + 1], m.K, P[:, None], m.cf)
    x = rgbds.build(k)
    if c["pf"]:
        return update_map_fusion(pc, x, 0.05 if c["dist"] is None else c["dist"], float(np.cos(np.deg2rad(c["ang"] or 20))), c["sigma"] or 0.6)
    return update_map_aggregate(pc, x)


def frame(m, l, P):
    return rgbds.build(rgbds.Model(m.rgb[:, l:l + 1], m.d[:, l:l + 1], m.K, P[:, None], m.cf))


def enough(c, m):
    """Every frame sees enough of the scene for a determined registration on its grid: points, and walls in every direction."""
    r = c["ds"]
    k, V, N = m.mask()[:, :, ::r, ::r], m.vertex()[:, :, ::r, ::r], m.normal()[0][:, :, ::r, ::r]
    if k.sum((2, 3)).min() < 25:
        return False
    for b in range(k.shape[0]):
        for l in range(k.shape[1]):
            g, n = V[b, l][k[b, l]], N[b, l][k[b, l]]
            s = np.linalg.svd(np.concatenate([np.cross(g, n), n], 1), compute_uv=False)
            if s[-1] < s[0] / 80:
                return False
    return True


def rigid(P, what):
    P = npy(P).astype(np.float64)
    finite(P, what)
    R = P[..., :3, :3]
    close(np.matmul(R, np.swapaxes(R, -1, -2)), np.broadcast_to(np.eye(3), R.shape), what + ": rotation times its transpose", rtol=0, atol=5e-4)
    close(np.linalg.det(R), np.ones(R.shape[:-2]), what + ": determinant", rtol=0, atol=5e-4)
    close(P[..., 3, :], np.broadcast_to([0, 0, 0, 1.0], P[..., 3, :].shape), what + ": last row", rtol=0, atol=1e-5)


def given(c, m, start):
    """The poses handed to SLAM: the start (or none) and rubbish for the later frames."""
    if not c["start"]:
        return None
    P = np.stack([np.stack([rgbds.f32(pose(c["s"], tag="junk%d,%d" % (b, l))) for l in range(m.shape[1])]) for b in range(m.shape[0])])
    P[:, 0] = start
    return P


def setup(c):
    m, start, true = rooms.views(c)
    if not enough(c, m):
        raise Reject
    return rgbds.Model(m.rgb, m.d, m.K, given(c, m, start), m.cf), start, true


@test("C15", seq, quick=600)
def equals_its_definition(case, ctx):
    c = case
    m, start, true = setup(c)
    x = rgbds.build(m)
    pc, poses = slam(c)(x)
    ctx.nt()
    ctx.event(c["odom"] + (" fusing" if c["pf"] else " aggregating"))
    B, L = m.shape[:2]
    check(tuple(poses.shape) == (B, L, 4, 4), "poses have shape %s", tuple(poses.shape))
    rigid(poses, "recovered poses")
    got = npy(poses).astype(np.float64)
    same(got[:, 0], start, "pose of the first frame")
    prov = (ICPOdometryProvider if c["odom"] == "icp" else GradICPOdometryProvider)(**odom_settings(c))
    mp = insert(c, Pointclouds(device=here()), m, 0, start)
    for l in range(1, L):
        Q = got[:, l - 1]
        prev, live = frame(m, l - 1, Q), frame(m, l, Q)
        part = downsample_pointclouds(mp, find_active_map_points(mp, prev), c["ds"])
        t = npy(prov.provide(part, downsample_rgbdimages(live, c["ds"]))).astype(np.float64)[:, 0]
        close(got[:, l], np.matmul(t, Q), "pose of frame %d against registering it to the active map" % l, rtol=0, atol=2e-4, scale=2)
        mp = insert(c, mp, m, l, got[:, l])
    pcs.check_all(pc, pcs.snapshot(mp), "map", c["s"], 2e-5)
    rgbds.check_all(x, m, "frames afterwards", c["s"])


@test("C15", seq, quick=700)
def against_reference_and_truth(case, ctx):
    """Two frames: pose from a float64 registration of the rendered clouds, and the true motion up to what that registration achieves."""
    c = dict(case, L=2, iters=20, damp=None, lm=None)
    m, start, true = setup(c)
    pc, poses = slam(c)(rgbds.build(m))
    got = npy(poses).astype(np.float64)
    V = m.vertex()
    N = fus.frame_normals(rgbds.Model(m.rgb[:, :1], m.d[:, :1], m.K, start[:, None], m.cf))
    r = c["ds"]
    for b in range(m.shape[0]):
        k0, k1 = m.mask()[b, 0, ::r, ::r], m.mask()[b, 1, ::r, ::r]
        tgt = regs.act(start[b], V[b, 0, ::r, ::r][k0])
        src = regs.act(start[b], V[b, 1, ::r, ::r][k1])
        mg = regs.Margin()
        a = (src, tgt, N[b, 0, ::r, ::r][k0], np.eye(4), 20, 1e-8, c["th"])
        try:
            M, _ = regs.icp(*a, mg=mg) if c["odom"] == "icp" else regs.gradicp(*a, 2.0, 1.0, 1.0, 200.0, mg=mg)
        except np.linalg.LinAlgError:
            raise Reject
        if mg.cond > 60:
            ctx.event("ill-conditioned")
            raise Reject
        want = M @ start[b]
        e_ref = np.abs(want - true[b, 1]).max()
        e_got = np.abs(got[b, 1] - true[b, 1]).max()
        moved = np.abs(true[b, 1] - true[b, 0]).max()
        ctx.nt(e_ref < 0.5 * moved)
        check(e_got <= 1.5 * e_ref + 2e-3, "pose of frame 1 is off the true motion by %g (reference registration: %g, motion %g)", e_got, e_ref, moved)
        if mg.v > 1e-4:
            ctx.event("compared with the reference")
            close(got[b, 1], want, "pose of frame 1 against the reference registration", rtol=0, atol=1e-3, scale=np.abs(want).max())


@test("C15", seq, quick=500)
def causal(case, ctx):
    """Prefixes, stepping and later given poses."""
    c = case
    m, start, true = setup(c)
    B, L = m.shape[:2]
    s = slam(c)
    pc, poses = s(rgbds.build(m))
    got = npy(poses).astype(np.float64)
    full = pcs.snapshot(pc)
    ctx.nt()
    # other poses for the later frames, or the true ones
    P = np.matmul(start[:, None], np.matmul(np.linalg.inv(true[:, :1]), true))
    o = rgbds.Model(m.rgb, m.d, m.K, rgbds.f32(P), m.cf)
    o.poses[:, 0] = start
    pc2, poses2 = s(rgbds.build(o))
    same(poses2, poses, "poses when later frames are given other poses")
    pcs.check_all(pc2, full, "map when later frames are given other poses", c["s"], 0)
    # a prefix
    k = 1 + c["s"] % (L - 1)
    pre = m.sel(slice(None), slice(0, k))
    pc3, poses3 = s(rgbds.build(pre))
    same(npy(poses3), npy(poses)[:, :k], "poses of a prefix of %d frames" % k)
    # stepping
    pc4, prev = Pointclouds(device=here()), None
    for l in range(L):
        fm = m.sel(slice(None), [l])
        if fm.poses is None and l == 0:
            fm.poses = start[:, None]
        fr = rgbds.build(fm)
        before = pcs.snapshot(pc4)
        out, p = s.step(pc4, fr, prev, inplace=c["inplace"])
        close(npy(p)[:, 0], got[:, l], "pose of step %d" % l, rtol=0, atol=1e-6)
        if not c["inplace"]:
            rgbds.check_all(fr, fm, "frame after step %d" % l, c["s"])
            if before.B:
                pcs.check_all(pc4, before, "caller's map after step %d" % l, c["s"], 0)
            else:
                check(not pc4.has_points, "the caller's empty map was filled")
            fr.poses = p
        else:
            check(out is pc4, "in-place step returned another map")
            same(npy(fr.poses), npy(p), "poses of the frame stepped in place")
        if prev is not None:
            same(npy(prev.poses)[:, 0].astype(np.float64), got[:, l - 1], "poses of the previous frame")
        pc4, prev = out, fr
    pcs.check_all(pc4, full, "map by stepping", c["s"], 1e-6)


@test("C15", seq, quick=350)
def elements_are_independent(case, ctx):
    c = dict(case, B=2 + case["s"] % 2)
    m, start, true = setup(c)
    pc, poses = slam(c)(rgbds.build(m))
    ctx.nt()
    for b in range(c["B"]):
        q, p = slam(c)(rgbds.build(m.sel([b], slice(None))))
        close(npy(p)[0], npy(poses)[b].astype(np.float64), "poses of element %d alone" % b, rtol=0, atol=2e-3, scale=2)


@test("C15", seq, quick=500)
def a_resting_camera_rests(case, ctx):
    c = dict(case, mot=0.0, holes=0.0)
    m, start, true = setup(c)
    # the same image again and again
    m.d[:] = m.d[:, :1]
    m.rgb[:] = m.rgb[:, :1]
    pc, poses = slam(c)(rgbds.build(m))
    ctx.nt()
    got = npy(poses).astype(np.float64)
    for l in range(m.shape[1]):
        close(got[:, l], start, "pose of frame %d of a resting camera" % l, rtol=0, atol=1e-3, scale=2)


@test("C15", seq, quick=500)
def start_pose_carries_over(case, ctx):
    c = dict(case, iters=20, damp=None, lm=None, holes=0.0)
    m, start, true = setup(c)
    a = rgbds.Model(m.rgb, m.d, m.K, None, m.cf)
    b = rgbds.Model(m.rgb, m.d, m.K, given(dict(c, start=True), m, start if c["start"] else np.stack([rgbds.f32(pose(c["s"], tag="S%d" % k)) for k in
                                                                                                      range(m.shape[0])])), m.cf)
    G = b.poses[:, 0]
    p0, q0 = slam(c)(rgbds.build(a))
    p1, q1 = slam(c)(rgbds.build(b))
    ctx.nt()
    got, base = npy(q1).astype(np.float64), npy(q0).astype(np.float64)
    same(base[:, 0], np.broadcast_to(np.eye(4), base[:, 0].shape), "pose of a first frame without a given pose")
    close(got, np.matmul(G[:, None], base), "poses from another start", rtol=0, atol=4e-3, scale=2)


@test("C15", seq, quick=250)
def default_settings(case, ctx):
    """The defaults of both pipelines are the documented ones."""
    c = dict(case, H=14, W=18, holes=0.0, L=2, B=1, ds=4, iters=20, damp=None, th=None, lm=None, dist=None, ang=None, sigma=None)
    m, start, true = rooms.views(c)
    kw = {} if c["odom"] == "gradicp" else dict(odom="icp")
    a = (PointFusion if c["pf"] else ICPSLAM)(**kw, **dev_kw())
    b = slam(dict(c, odom=c["odom"]))
    m.poses = given(c, m, start)
    try:
        pa, qa = a(rgbds.build(m))
    except RuntimeError:
        raise Reject   # a 4 x 5 grid need not determine the motion
    pb, qb = b(rgbds.build(m))
    ctx.nt()
    same(qa, qb, "poses with default settings")
    pcs.check_all(pa, pcs.snapshot(pb), "map with default settings", c["s"], 0)
