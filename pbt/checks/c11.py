"""C11: odometry providers."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds, pcs, regs
from gradslam import Pointclouds
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.icputils import point_to_plane_ICP, point_to_plane_gradICP

rule("C11", "A case is a pair of posed frame batches (1-4 elements, any layout, sliced out of longer sequences or built directly) for the ground-truth "
     "provider, or a pair of ragged point cloud batches and provider settings for the two registration providers; single departures from the "
     "documented arguments must be refused. Non-trivial: at least two elements whose motions differ, or a refused call.")

gt = fixed(a=rgbds.unit, b=rgbds.unit, B=st.integers(1, 4), sub=st.booleans(), ch=st.booleans(), s=seeds)


@test("C11", gt, quick=8000)
def ground_truth(case, ctx):
    B = case["B"]
    ca, cb = dict(case["a"], B=B, poses=True), dict(case["b"], B=B, poses=True)
    if not case["sub"]:
        ca["L"] = cb["L"] = 1
    cb["s"] = case["b"]["s"] if not case["ch"] else case["a"]["s"]
    (x, m), (y, n) = rgbds.make(ca), rgbds.make(cb)
    i, j = case["s"] % ca["L"], (case["s"] >> 4) % cb["L"]
    if case["sub"]:
        # a frame cut out of a sequence: its poses are a strided view
        fx, fy = x[:, i], y[:, j]
        ctx.event("cut out of a sequence")
    else:
        fx, fy = x, y
    P, Q = m.poses[:, i if case["sub"] else 0], n.poses[:, j if case["sub"] else 0]
    got = GroundTruthOdometryProvider().provide(fx, fy)
    check(tuple(got.shape) == (B, 1, 4, 4), "shape %s for %d elements", tuple(got.shape), B)
    g = npy(got).astype(np.float64)[:, 0]
    ctx.nt(B > 1 and np.abs(np.linalg.inv(P[0]) @ Q[0] - np.linalg.inv(P[1]) @ Q[1]).max() > 1e-3)
    close(np.matmul(P, g), Q, "first pose composed with the odometry", rtol=1e-4, atol=1e-4)
    close(g, np.matmul(np.linalg.inv(P), Q), "odometry", rtol=1e-4, atol=1e-4)
    rgbds.check_view(x, m, "poses", "first frames afterwards")
    rgbds.check_view(y, n, "poses", "second frames afterwards")
    back = npy(GroundTruthOdometryProvider().provide(fy, fx)).astype(np.float64)[:, 0]
    close(np.matmul(g, back), np.broadcast_to(np.eye(4), g.shape), "odometry there and back", rtol=0, atol=2e-4)


reg = fixed(solver=st.sampled_from(["icp", "gradicp"]), B=st.integers(1, 3), iters=st.integers(1, 5), damp=st.sampled_from([None, 1e-6, 1e-2, 0.5]),
            th=st.sampled_from([None, None, 0.2, 0.5, 2]), lm=st.sampled_from([None, (1.5, 0.5, 2.0, 20.0), (4.0, 3.0, 0.5, 5.0), (10, 1, 1, 3)]),
            extra=st.booleans(), far=st.sampled_from([False, False, True]), s=seeds)


def settings(c):
    kw = dict(numiters=c["iters"])
    if c["damp"] is not None:
        kw["damp"] = c["damp"]
    if c["th"] is not None:
        kw["dist_thresh"] = c["th"]
    if c["solver"] == "gradicp" and c["lm"]:
        kw.update(zip(("lambda_max", "B", "B2", "nu"), c["lm"]))
    return kw


def out_of_reach(c, b):
    """Is this the element without anything within the threshold?"""
    return bool(c.get("far")) and c["th"] is not None and b == c["s"] % c["B"]


def clouds(c):
    maps, nrm, frames = [], [], []
    for b in range(c["B"]):
        t = "e%d" % b
        n = 12 + int(u01(c["s"], 1, t)[0] * 30)
        kind = ["ellipsoid", "corner", "random"][int(u01(c["s"], 1, t + "k")[0] * 3)]
        p, v = regs.cloud(c["s"], kind, n, t)
        M = np.eye(4)
        M[:3, :3] = rot_axis_angle(arr(c["s"], (3,), -1, 1, t + "a"), 0.05)
        M[:3, 3] = arr(c["s"], (3,), -.05, .05, t + "t")
        k = u01(c["s"], n, t + "s") < 0.8
        k[:8] = True
        maps.append(p.astype(np.float32))
        nrm.append(v.astype(np.float32))
        q = regs.act(M, p[k])
        # ... and a few points that are not in the map, near and far, of which some are next to the origin
        o = (arr(c["s"], (4, 3), -1, 1, t + "out") * u01(c["s"], 4, t + "far")[:, None])[:int(u01(c["s"], 1, t + "o")[0] * 5)]
        frames.append(np.concatenate([q, o]).astype(np.float32))
        if out_of_reach(c, b):
            frames[-1] += 50
    return maps, nrm, frames


@test("C11", reg, quick=2500)
def registration(case, ctx):
    c = case
    maps, nrm, frames = clouds(c)
    t = lambda xs: [T(x) for x in xs]
    mk = lambda: (Pointclouds(points=t(maps), normals=t(nrm), **({"colors": t([np.abs(v) for v in nrm])} if c["extra"] else {})),
                  Pointclouds(points=t(frames), **({"normals": t([f * 0 + 0.5 for f in frames])} if c["extra"] else {})))
    mpc, fpc = mk()
    ms, fs = pcs.snapshot(mpc), pcs.snapshot(fpc)
    kw = settings(c)
    prov = (ICPOdometryProvider if c["solver"] == "icp" else GradICPOdometryProvider)(**kw)
    f = point_to_plane_ICP if c["solver"] == "icp" else point_to_plane_gradICP
    want = []
    for b in range(c["B"]):
        A = regs.rows(frames[b].astype(np.float64), maps[b].astype(np.float64), nrm[b].astype(np.float64), c["th"])[0]
        if not out_of_reach(c, b) and (len(A) < 6 or regs.conditioning(A) > 60):
            raise Reject
        want.append(npy(f(T(frames[b])[None], T(maps[b])[None], T(nrm[b])[None], torch.eye(4, device=here()), **kw)[0]))
    ctx.nt(c["B"] > 1 and np.abs(want[0] - want[1]).max() > 1e-3)
    ctx.event(c["solver"])
    got = prov.provide(mpc, fpc)
    check(tuple(got.shape) == (c["B"], 1, 4, 4), "shape %s for %d elements", tuple(got.shape), c["B"])
    close(npy(got)[:, 0], np.stack(want), "odometry against registering each element alone", rtol=0, atol=1e-5)
    pcs.check_all(mpc, ms, "maps afterwards", c["s"])
    pcs.check_all(fpc, fs, "frames afterwards", c["s"])
    # independent: the float64 reference of the documented update
    for b in range(c["B"]):
        if out_of_reach(c, b):
            close(npy(got)[b, 0], np.eye(4), "odometry of element %d, which has nothing to register" % b, rtol=0, atol=1e-6)
            ctx.event("nothing within the threshold")
            continue
        mg = regs.Margin()
        a = [x.astype(np.float64) for x in (frames[b], maps[b], nrm[b])]
        d = 1e-8 if c["damp"] is None else c["damp"]
        try:
            if c["solver"] == "icp":
                r, _ = regs.icp(*a, np.eye(4), c["iters"], d, c["th"], mg)
            else:
                r, _ = regs.gradicp(*a, np.eye(4), c["iters"], d, c["th"], *(c["lm"] or (2.0, 1.0, 1.0, 200.0)), mg=mg)
        except np.linalg.LinAlgError:
            continue
        if mg.cond > 60 or mg.v < 2e-4 or np.abs(r).max() > 5:
            continue
        ctx.event("compared with the reference")
        close(npy(got)[b, 0], r, "odometry of element %d" % b, rtol=0, atol=1e-3)


@test("C11", fixed(solver=st.sampled_from(["icp", "gradicp"]), s=seeds), quick=40)
def default_settings(case, ctx):
    """A provider made without arguments registers with the documented defaults."""
    c = dict(case, B=1, th=None)
    maps, nrm, frames = clouds(c)
    A = regs.rows(*(x.astype(np.float64) for x in (frames[0], maps[0], nrm[0])))[0]
    if regs.conditioning(A) > 60:
        raise Reject
    prov = (ICPOdometryProvider if c["solver"] == "icp" else GradICPOdometryProvider)()
    f = point_to_plane_ICP if c["solver"] == "icp" else point_to_plane_gradICP
    kw = dict(numiters=20, damp=1e-8, dist_thresh=None)
    if c["solver"] == "gradicp":
        kw.update(lambda_max=2.0, B=1.0, B2=1.0, nu=200.0)
    want = f(T(frames[0])[None], T(maps[0])[None], T(nrm[0])[None], torch.eye(4, device=here()), **kw)[0]
    got = prov.provide(Pointclouds(points=[T(maps[0])], normals=[T(nrm[0])]), Pointclouds(points=[T(frames[0])]))
    ctx.nt()
    close(npy(got)[0, 0], want, "odometry with default settings", rtol=0, atol=1e-5)


BAD = ["gt none", "gt type1", "gt type2", "gt noposes1", "gt noposes2", "gt long1", "gt long2", "gt batch", "reg type1", "reg type2", "reg nonormals",
       "reg batch"]


@test("C11", fixed(k=st.sampled_from(BAD), a=rgbds.unit, B=st.integers(1, 3), L=st.integers(2, 3), solver=st.sampled_from(["icp", "gradicp"]), s=seeds),
      quick=1500)
def refusals(case, ctx):
    k = case["k"]
    ctx.event(k)
    ctx.nt()
    c = dict(case["a"], L=1, poses=True, B=case["B"])
    prov = GroundTruthOdometryProvider()
    E = (TypeError, ValueError)
    if k.startswith("gt"):
        mk = lambda **o: rgbds.make(dict(c, **o))
        (x, m), (y, n) = mk(), mk(s=c["s"] ^ 1)
        if k == "gt none":
            prov.provide(x, y)
            return
        if k == "gt type1":
            f = lambda: prov.provide(x.poses, y)
        elif k == "gt type2":
            f = lambda: prov.provide(x, None)
        elif k == "gt noposes1":
            z, _ = mk(poses=False)
            f = lambda: prov.provide(z, y)
        elif k == "gt noposes2":
            z, _ = mk(poses=False)
            f = lambda: prov.provide(x, z)
        elif k == "gt long1":
            z, _ = mk(L=case["L"])
            f = lambda: prov.provide(z, y)
        elif k == "gt long2":
            z, _ = mk(L=case["L"])
            f = lambda: prov.provide(x, z)
        else:
            z, _ = mk(B=case["B"] + 1)
            f = lambda: prov.provide(x, z)
        raises(f, E, k)
        rgbds.check_view(x, m, "poses", "first frames after a refusal")
        return
    maps, nrm, frames = clouds(dict(case, th=None))
    t = lambda xs: [T(x) for x in xs]
    mpc, fpc = Pointclouds(points=t(maps), normals=t(nrm)), Pointclouds(points=t(frames))
    prov = (ICPOdometryProvider if case["solver"] == "icp" else GradICPOdometryProvider)(numiters=1, damp=0.1)
    if k == "reg type1":
        f = lambda: prov.provide(mpc.points_padded, fpc)
    elif k == "reg type2":
        f = lambda: prov.provide(mpc, fpc.points_list)
    elif k == "reg nonormals":
        f = lambda: prov.provide(Pointclouds(points=t(maps)), fpc)
    else:
        f = lambda: prov.provide(mpc, Pointclouds(points=t(frames + frames[:1])))
    raises(f, E, k)
