"""C14: SLAM with known poses."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds, pcs, fus
from gradslam import Pointclouds, RGBDImages
from gradslam.slam import ICPSLAM, PointFusion
from gradslam.slam.fusionutils import update_map_fusion, update_map_aggregate

rule("C14", "A case is a sequence of 1-4 posed frames (1-3 elements, holes, either layout, nearby or far poses), a pipeline with its thresholds and the "
     "way it is run: as a whole, step by step with either in-place flag, one element at a time, in the other layout, or with all poses moved. "
     "Non-trivial: more than one frame with points, and for the fusing pipeline some matched and some appended pixels.")

run = fixed(f=fus.frame, L=st.integers(1, 4), pf=st.booleans(), dist=st.sampled_from([None, 0.1, 0.3, 1]), ang=st.sampled_from([None, 10, 45, 80]),
            sigma=st.sampled_from([None, 0.3, 2]), move=st.sampled_from([0.0, 0.02, 0.1, 1.0]), drift=st.sampled_from([0.0, 0.01, 0.2]), lay=st.booleans(),
            inplace=st.booleans(), prev=st.booleans(), s=seeds)

long = fixed(f=fus.frame, L=st.integers(5, 16), pf=st.booleans(), dist=st.sampled_from([None, 0.1, 0.3, 1]), ang=st.sampled_from([None, 10, 45, 80]),
             sigma=st.sampled_from([None, 0.3, 2]), move=st.sampled_from([0.0, 0.02, 0.1]), drift=st.sampled_from([0.0, 0.01, 0.2]), lay=st.booleans(),
             inplace=st.booleans(), prev=st.booleans(), s=seeds)
big = fixed(f=fus.large, L=st.integers(1, 3), pf=st.booleans(), dist=st.sampled_from([None, 0.1]), ang=st.sampled_from([None, 10, 45, 80]),
            sigma=st.sampled_from([None, 0.3, 2]), move=st.sampled_from([0.0, 0.02, 0.1]), drift=st.sampled_from([0.0, 0.01, 0.2]), lay=st.booleans(),
            inplace=st.booleans(), prev=st.booleans(), s=seeds)


def sequence(c):
    ms = fus.sequence(dict(c, dist=c["dist"] or 0.05))
    cat = lambda k: np.concatenate([getattr(m, k) for m in ms], 1)
    return rgbds.Model(cat("rgb"), cat("d"), ms[0].K, cat("poses"), ms[0].cf), ms


def settings(c):
    kw = {}
    if c["dist"] is not None:
        kw["dist_th"] = c["dist"]
    if c["ang"] is not None:
        kw["angle_th"] = c["ang"]
    if c["sigma"] is not None:
        kw["sigma"] = c["sigma"]
    return kw


def params(c):
    return (0.05 if c["dist"] is None else c["dist"], float(np.cos(np.deg2rad(20 if c["ang"] is None else c["ang"]))),
            0.6 if c["sigma"] is None else c["sigma"])


def slam(c):
    return PointFusion(odom="gt", **settings(c), **dev_kw()) if c["pf"] else ICPSLAM(odom="gt", **dev_kw())


def frames_of(c, m):
    if not c["lay"]:
        return rgbds.build(m)
    o = m.copy()
    o.cf = not m.cf
    x = rgbds.build(o)
    return x.to_channels_first() if m.cf else x.to_channels_last()


def expected(c, ms):
    """Fold of the map updates (themselves judged by C13): list of pcs.Model after each frame, plus whether some pixels matched."""
    pc, out = Pointclouds(device=here()), []
    for m in ms:
        if c["pf"]:
            pc = update_map_fusion(pc, rgbds.build(m), *params(c))
        else:
            pc = update_map_aggregate(pc, rgbds.build(m))
        out.append(pcs.snapshot(pc))
    return out


def equal(pc, want, what, order=0, tol=1e-6):
    check(pc.has_points, "%s is empty", what)
    pcs.check_all(pc, want, what, order, tol)


def interesting(c, ms, want):
    total = sum(int(m.mask().sum()) for m in ms)
    got = sum(want[-1].ns)
    first = int(ms[0].mask().sum())
    if not c["pf"]:
        return len(ms) > 1 and total > first > 0
    return len(ms) > 1 and first < got < total


@test("C14", run, quick=4000)
def whole_sequence(case, ctx):
    c = case
    m, ms = sequence(c)
    x = frames_of(c, m)
    want = expected(c, ms)
    ctx.nt(interesting(c, ms, want))
    ctx.event("fusing" if c["pf"] else "aggregating")
    B = m.shape[0]
    pc, poses = slam(c)(x)
    check(tuple(poses.shape) == m.poses.shape, "poses have shape %s", tuple(poses.shape))
    same(npy(poses).astype(np.float64), m.poses, "returned poses")
    equal(pc, want[-1], "map", c["s"])
    if not c["pf"]:
        # independent of the library's own update: all valid points in global coordinates, frame by frame
        GN = [fus.frame_normals(k) for k in ms]
        G = [k.glob() for k in ms]
        cat = lambda f: [np.concatenate([f(l, b)[ms[l].mask()[b, 0]] for l in range(len(ms))]) for b in range(B)]
        ref = pcs.Model(cat(lambda l, b: G[l][b, 0]), normals=cat(lambda l, b: GN[l][b, 0]), colors=cat(lambda l, b: ms[l].rgb[b, 0]))
        equal(pc, ref, "union map", c["s"], 5e-5)
    else:
        now = fus.Map.empty(B)
        for k in ms:
            r = fus.reference_step(now, k, *params(c))
            if r is None:
                break
            now = r[0]
        else:
            ctx.event("association also by brute force")
            fus.compare(pc, now, "map", tol=1e-4, ntol=1e-3)
    rgbds.check_all(x, m, "frames afterwards", c["s"])
    # repeated run
    pc2, poses2 = slam(c)(x)
    same(poses2, poses, "poses of a repeated run")
    equal(pc2, pcs.snapshot(pc), "map of a repeated run", c["s"], 0)
    # changing the results leaves the frames alone
    poses += 1
    pc.offset_(1.0)
    rgbds.check_all(x, m, "frames after changing the results", c["s"])


@test("C14", run, quick=3000)
def step_by_step(case, ctx):
    c = case
    m, ms = sequence(c)
    x = frames_of(c, m)
    want = expected(c, ms)
    ctx.nt(interesting(c, ms, want))
    s = slam(c)
    pc = Pointclouds(device=here())
    prev = None
    for l in range(len(ms)):
        # either cut from the sequence or built on its own
        fr = x[:, l] if (c["s"] >> l) % 2 else rgbds.build(ms[l])
        before = pcs.snapshot(pc)
        out, poses = s.step(pc, fr, prev if c["prev"] else None, inplace=c["inplace"])
        same(npy(poses).astype(np.float64), ms[l].poses, "poses of step %d" % l)
        equal(out, want[l], "map after step %d" % l, c["s"])
        if c["inplace"]:
            check(out is pc, "in-place step returned another map")
        elif before.B == 0:
            check(not pc.has_points, "the caller's empty map was filled")
        else:
            equal(pc, before, "caller's map after step %d" % l, c["s"], 0)
        rgbds.check_all(fr, ms[l], "frame after step %d" % l, c["s"])
        pc, prev = out, fr
    rgbds.check_all(x, m, "frames afterwards", c["s"])


@test("C14", run, quick=1500)
def elements_are_independent(case, ctx):
    c = dict(case, f=dict(case["f"], B=2 + case["s"] % 2))
    m, ms = sequence(c)
    pc, poses = slam(c)(rgbds.build(m))
    w = pcs.snapshot(pc)
    ctx.nt(len(ms) > 1 and min(w.ns) > 0)
    for b in range(m.shape[0]):
        pb, qb = slam(c)(rgbds.build(m.sel([b], slice(None))))
        same(npy(qb)[0], npy(poses)[b], "poses of element %d alone" % b)
        equal(pb, w.index([b]), "map of element %d alone" % b, c["s"])


@test("C14", run, quick=1500)
def layout_does_not_matter(case, ctx):
    c = case
    m, ms = sequence(c)
    o = m.copy()
    o.cf = not m.cf
    pc, poses = slam(c)(rgbds.build(m))
    pc2, poses2 = slam(c)(rgbds.build(o))
    w = pcs.snapshot(pc)
    ctx.nt(len(ms) > 1 and min(w.ns) > 0)
    same(poses2, poses, "poses in the other layout")
    equal(pc2, w, "map in the other layout", c["s"])


@test("C14", run, quick=2500)
def moving_all_poses(case, ctx):
    c = case
    m, ms = sequence(c)
    G = fus.f32(pose(c["s"], tag="G"))
    m2 = m.copy()
    m2.poses = fus.f32(np.matmul(G, m.poses))
    if c["pf"]:
        for which in (m, m2):
            now = fus.Map.empty(m.shape[0])
            for l in range(len(ms)):
                r = fus.reference_step(now, which.sel(slice(None), [l]), *params(c))
                if r is None:
                    raise Reject   # an association hangs on rounding
                now = r[0]
    pc, poses = slam(c)(rgbds.build(m))
    pc2, poses2 = slam(c)(rgbds.build(m2))
    w = pcs.snapshot(pc)
    ctx.nt(len(ms) > 1 and min(w.ns) > 0)
    close(poses2, np.matmul(G, npy(poses).astype(np.float64)), "poses", rtol=0, atol=1e-5, scale=4)
    R = G[:3, :3]
    mv = pcs.Model([p @ R.T + G[:3, 3] for p in w.points], normals=[n @ R.T for n in w.attrs["normals"]], colors=w.attrs["colors"],
                   features=w.attrs["features"])
    equal(pc2, mv, "map", c["s"], 1e-4)


@test("C14", fixed(B=st.integers(1, 3), L=st.integers(1, 3), pf=st.booleans(), s=seeds, f=fus.frame), quick=300)
def frames_without_poses(case, ctx):
    """Known-pose odometry refuses frames without poses instead of inventing them (the first frame defaults to the identity)."""
    c = dict(case, dist=None, ang=None, sigma=None)
    m = rgbds.model_of(dict(c["f"], B=c["B"], L=c["L"], poses=False))
    ctx.nt()
    if c["L"] == 1:
        pc, poses = slam(c)(rgbds.build(m))
        same(npy(poses).astype(np.float64), np.broadcast_to(np.eye(4), (c["B"], 1, 4, 4)), "poses of a first frame without a given pose")
        for b in range(c["B"]):
            close(pc.points_list[b], m.vertex()[b, 0][m.mask()[b, 0]], "points", rtol=2e-5, atol=1e-4)
        return
    x = rgbds.build(m)
    raises(lambda: slam(c)(x), (TypeError, ValueError), "frames without poses")
    rgbds.check_all(x, m, "frames after a refusal", c["s"])


also(whole_sequence, "C14", "long_sequences", long, quick=450)
also(step_by_step, "C14", "long_sequences_step_by_step", long, quick=450)
also(whole_sequence, "C14", "large_frames", big, quick=180)
also(step_by_step, "C14", "large_frames_step_by_step", big, quick=180)
