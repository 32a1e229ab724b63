"""C27: from a dataset directory through the loader to SLAM."""
import os
import numpy as np
import torch
from hypothesis import strategies as st
from torch.utils.data import DataLoader
from core import *
import dsets, rgbds, rooms, pcs
from checks import c15, c18, c19, c20
from gradslam import Pointclouds, RGBDImages
from gradslam.datasets.tum import TUM
from gradslam.datasets.icl import ICL
from gradslam.datasets.scannet import Scannet
from gradslam.slam import ICPSLAM, PointFusion

rule("C27", "A case writes a scratch TUM, ICL or ScanNet directory, reads it through a DataLoader (batches of 1-3 windows, either layout, normalised colors or not, "
     "images at their size or subsampled), turns the batches into RGB-D frames and runs SLAM on them. Poses and map are computed directly from the written files: "
     "pixels, scaled intrinsics, trajectory. Non-trivial: a batch with at least two frames in a window.")


def scaled(K, h, w):
    K = np.array(K, dtype=np.float64)
    K[0] *= w / 640.0
    K[1] *= h / 480.0
    return K


def write(d, c):
    """A directory of the kind asked for: (dataset class, positional arguments, frame table {sequence: [(rgb, depth, pose, name)]}, raw K, depth scale)."""
    kind, s = c["kind"], c["s"]
    hw = (c["hw"][0] * c["sub"][0], c["hw"][1] * c["sub"][1])
    if kind == "tum":
        cc = dict(s=s, n=c["n"], digits=6, mode="aligned", base="epoch", shift=c["s"] % 5000, extra=0, drop=c["drop"], posemode="fast", sep=c["s"] % 5, hw=hw, junk=0, nl=True,
                  shuffle=0, unit=c["s"] % 2, fr=1)
        table = {}
        for k in range(len(c["n"])):
            nm = "rgbd_dataset_freiburg1_%s" % ["xyz", "rpy", "desk"][k]
            m = c18.build_seq(d, nm, cc, k)
            e = c18.expected(m, 0, None, True)
            if e is None or e[0] != e[1]:
                raise Reject("ambiguous association")
            table[nm] = [(m["rgb"][a], m["depth"][b], m["pose"][p][0], "%s" % c18.text(a, 6)) for a, b, p in e[0]]
        return TUM, (d,), table, {nm: c18.TUM_K for nm in table}, 5000.0
    if kind == "icl":
        cc = dict(s=s, n=c["n"], hw=hw, nl=True, blank=s % 2 == 0, one=s % 3 == 0, more=s % 2)
        table = {}
        for k in range(len(c["n"])):
            m = c19.build_traj(d, ["1", "0", "2"][k], cc, k)
            table[m["name"]] = [(f[0], f[1], p, "%d" % (i + m["off"])) for i, (f, p) in enumerate(zip(m["frames"], m["poses"]))]
        return ICL, (d,), table, {nm: c19.ICL_K for nm in table}, 5000.0
    cc = dict(s=s, n=[max(c["n"]) + 1] * len(c["n"]), lists=[max(c["n"])] * (1 + s % 3), hw=hw, nl=True, dir=s % 2 == 0)
    base, meta, scenes, K, seqs = c20.build(d, cc)
    table = {q: [(scenes[nm][i]["rgb"], scenes[nm][i]["depth"], scenes[nm][i]["pose"], None) for i in idx] for q, (nm, idx) in seqs.items()}
    return Scannet, (base, meta, tuple(scenes)), table, {q: K[nm] for q, (nm, _) in seqs.items()}, 1000.0


def rows_of(name, table):
    """Frames of a delivered window by its name string."""
    if name in table:           # ScanNet: the sequence
        return name, table[name]
    parts = name.split(", ")
    q = parts[0].split("/")[0]
    check(q in table, "unknown sequence in name %r", name)
    by = {r[3]: r for r in table[q]}
    out = []
    for p in parts:
        check(p.split("/")[0] == q and p.split("/")[-1] in by, "name %r names no frame", p)
        out.append(by[p.split("/")[-1]])
    return q, out


case_ = fixed(kind=st.sampled_from(["tum", "icl", "scannet"]), n=st.lists(st.integers(3, 7), min_size=1, max_size=2), hw=st.tuples(st.integers(3, 6), st.integers(3, 7)),
              sub=st.tuples(st.sampled_from([1, 1, 2]), st.sampled_from([1, 1, 2])), drop=st.sampled_from([0.0, 0.15]), seqlen=st.integers(1, 3), dil=st.integers(0, 1),
              stride=st.integers(1, 3), batch=st.integers(1, 3), shuffle=st.booleans(), cf=st.booleans(), norm=st.booleans(), pf=st.booleans(), stamps=st.booleans(), s=seeds)


def load(c, d):
    """Batches of the loader with the model of each: (colors, depths, K, poses, names, transforms), rgbds.Model per batch."""
    cls, args, table, K, scale = write(d, c)
    h, w = c["hw"]
    sy, sx = c["sub"]
    kw = dict(height=h, width=w, channels_first=c["cf"], normalize_color=c["norm"], return_names=True)
    if c["kind"] != "scannet":
        kw.update(seqlen=c["seqlen"], dilation=c["dil"], stride=c["stride"])
    if c["kind"] == "tum":
        kw["return_timestamps"] = c["stamps"]
    ds = cls(*args, **kw)
    if not len(ds):
        raise Reject("no window fits")
    torch.manual_seed(c["s"] % 2 ** 31)
    batches = list(DataLoader(ds, batch_size=c["batch"], shuffle=c["shuffle"]))
    check(sum(len(x[0]) for x in batches) == len(ds), "the loader delivers %d windows of %d", sum(len(x[0]) for x in batches), len(ds))
    out = []
    for x in batches:
        colors, depths, Ks, poses, transforms, names = x[:6]
        B, L = depths.shape[:2]
        check(len(names) == B, "%d names for %d windows", len(names), B)
        rgb, dep, KK, P = [], [], [], []
        for b in range(B):
            q, rows = rows_of(names[b], table)
            check(len(rows) == L, "window %r has %d frames, delivered %d", names[b], len(rows), L)
            rgb.append([dsets.resize_linear(r[0], h, w) / (255.0 if c["norm"] else 1.0) for r in rows])
            dep.append([r[1][::sy, ::sx].astype(np.float64) / scale for r in rows])
            KK.append(scaled(K[q], h, w))
            P.append([np.linalg.inv(rows[0][2]) @ r[2] for r in rows])
        out.append((x, rgbds.Model(np.array(rgb), np.array(dep), np.array(KK), np.array(P), c["cf"])))
    return out


def images(x, c):
    return RGBDImages(x[0], x[1], x[2], x[3], channels_first=c["cf"])


def expected_map(m, P):
    """Points and colors of the union of all frames at poses P, per element, in order."""
    V, k = m.vertex(), m.mask()
    pts, cols = [], []
    for b in range(m.shape[0]):
        p = [V[b, l][k[b, l]] @ P[b, l, :3, :3].T + P[b, l, :3, 3] for l in range(m.shape[1])]
        pts.append(np.concatenate(p))
        cols.append(np.concatenate([m.rgb[b, l][k[b, l]] for l in range(m.shape[1])]))
    return pts, cols


@test("C27", case_, quick=2500)
def known_poses(case, ctx):
    c = case
    with dsets.scratch() as d:
        todo = load(c, os.path.join(d, "data"))
    for x, m in todo[:3]:
        B, L = m.shape[:2]
        if (m.mask().sum((1, 2, 3)) == 0).any():
            continue
        f = images(x, c)
        pc, poses = (PointFusion(odom="gt") if c["pf"] else ICPSLAM(odom="gt"))(f)
        ctx.nt(L > 1)
        ctx.event(c["kind"])
        s = max(1.0, np.abs(m.poses).max(), m.size())
        check(tuple(poses.shape) == (B, L, 4, 4), "poses have shape %s", tuple(poses.shape))
        close(poses, m.poses, "SLAM poses against the written trajectory", rtol=0, atol=3e-5, scale=s)
        # the transforms delivered next to the poses say the same
        acc = np.tile(np.eye(4), (B, 1, 1))
        for l in range(L):
            acc = np.matmul(acc, npy(x[4][:, l]).astype(np.float64))
            close(acc, npy(poses[:, l]).astype(np.float64), "transforms chained up to frame %d against the SLAM poses" % l, rtol=0, atol=1e-4, scale=s)
        pts, cols = expected_map(m, m.poses)
        n = [len(p) for p in pts]
        got = [int(v) for v in pc.num_points_per_pointcloud]
        if c["pf"]:
            first = [int(m.mask()[b, 0].sum()) for b in range(B)]
            for b in range(B):
                check(first[b] <= got[b] <= n[b], "map %d has %d points, the frames have %d of which %d in the first", b, got[b], n[b], first[b])
                if L == 1:
                    close(pc.points_list[b], pts[b], "fused map %d" % b, rtol=0, atol=5e-5, scale=s)
            # every map point lies in the hull of what was measured: between the coordinates of the points
                lo, hi = pts[b].min(0), pts[b].max(0)
                q = npy(pc.points_list[b])
                check((q >= lo - 1e-3 * s).all() and (q <= hi + 1e-3 * s).all(), "map %d leaves the range of its measurements", b)
            continue
        check(got == n, "maps have %s points, the files %s", got, n)
        for b in range(B):
            close(pc.points_list[b], pts[b], "map %d against the written files" % b, rtol=0, atol=5e-5, scale=s)
            close(pc.colors_list[b], cols[b], "colors of map %d against the written files" % b, rtol=1e-5, atol=2e-3 / (255.0 if c["norm"] else 1.0))


# ---------------------------------------------------------------- rendered views, registration odometry
@test("C27", fixed(kind=st.sampled_from(["tum", "icl"]), B=st.integers(1, 2), L=st.integers(2, 3), H=st.integers(9, 13), W=st.integers(10, 16), scene=st.sampled_from(["box", "ell"]),
                   mot=st.sampled_from([0.01, 0.02]), cf=st.booleans(), norm=st.booleans(), pf=st.booleans(), odom=st.sampled_from(["icp", "gradicp"]),
                   s=seeds), quick=600)
def registered(case, ctx):
    """Rendered views written to disk: SLAM on the loaded frames recovers the motion that SLAM on the arrays themselves recovers, and the written one."""
    c = case
    H, W = c["H"], c["W"]
    K = scaled(c18.TUM_K if c["kind"] == "tum" else c19.ICL_K, H, W)
    m, _, true = rooms.views(dict(B=c["B"], L=c["L"], H=H, W=W, kind=c["scene"], mot=c["mot"], holes=0.0, cf=c["cf"], start=False, s=c["s"], K=K))
    m.rgb = np.floor(m.rgb)
    raw = np.round(m.d * 5000)
    if raw.max() > 65535:
        raise Reject
    m.d = raw / 5000.0
    if not c15.enough(dict(ds=1), m) or not m.normal()[1].all():
        raise Reject
    with dsets.scratch() as d:
        base = os.path.join(d, "data")
        for b in range(c["B"]):
            G = pose(c["s"], maxt=2.0, tag="G%d" % b)
            if c["kind"] == "tum":
                root = os.path.join(base, "rgbd_dataset_freiburg1_s%d" % b)
                t = [1000 + 40 * l for l in range(c["L"])]
                for sub, dt in (("rgb", 0), ("depth", 5)):
                    for l in range(c["L"]):
                        a = m.rgb[b, l].astype(np.uint8) if sub == "rgb" else raw[b, l].astype(np.uint16)
                        dsets.png(os.path.join(root, sub, "%d.png" % l), a)
                    dsets.write(os.path.join(root, sub + ".txt"), "".join("%.3f %s/%d.png\n" % ((t[l] + dt) / 1000.0, sub, l) for l in range(c["L"])))
                lines = []
                for l in range(c["L"]):
                    P = G @ true[b, l]
                    lines.append(" ".join(["%.3f" % ((t[l] + 3) / 1000.0)] + ["%.9f" % v for v in list(P[:3, 3]) + list(quat(P[:3, :3]))]))
                dsets.write(os.path.join(root, "groundtruth.txt"), "\n".join(lines) + "\n")
            else:
                root = os.path.join(base, "living_room_traj%d_frei_png" % (b + 1))
                lines, gt = [], []
                for l in range(c["L"]):
                    dsets.png(os.path.join(root, "rgb", "%d.png" % l), m.rgb[b, l].astype(np.uint8))
                    dsets.png(os.path.join(root, "depth", "%d.png" % l), raw[b, l].astype(np.uint16))
                    lines.append("%d depth/%d.png %d rgb/%d.png\n" % (l, l, l, l))
                    gt += [" ".join("%.9f" % v for v in r) for r in (G @ true[b, l])[:3]] + [""]
                dsets.write(os.path.join(root, "associations.txt"), "".join(lines))
                dsets.write(os.path.join(root, "livingRoom%dn.gt.sim" % (b + 1)), "\n".join(gt) + "\n")
        ds = (TUM if c["kind"] == "tum" else ICL)(base, seqlen=c["L"], height=H, width=W, channels_first=c["cf"], normalize_color=c["norm"])
        x = next(iter(DataLoader(ds, batch_size=c["B"])))
        order = [int(nm.split("/")[0].split("_s")[1]) if c["kind"] == "tum" else int(nm.split("_traj")[1][0]) - 1 for nm in x[5]]
    check(sorted(order) == list(range(c["B"])), "sequences delivered: %s", x[5])
    ctx.event(c["kind"])
    close(x[3], true[order], "delivered poses against the rendered motion", rtol=0, atol=1e-4, scale=2)
    slam = (PointFusion if c["pf"] else ICPSLAM)(odom=c["odom"], dsratio=1, numiters=15)
    pc, poses = slam(RGBDImages(x[0], x[1], x[2], x[3], channels_first=c["cf"]))
    o = rgbds.Model(m.rgb[order] / (255.0 if c["norm"] else 1.0), m.d[order], m.K[order], None, c["cf"])
    pc2, poses2 = slam(rgbds.build(o))
    got, want = npy(poses).astype(np.float64), npy(poses2).astype(np.float64)
    for t in range(2):      # accepting or rejecting a step must not hang on the last digit of the input
        near = rgbds.Model(o.rgb, o.d * (1 + 3e-7 * arr(c["s"], o.d.shape, -1, 1, "near%d" % t)), o.K, None, c["cf"])
        if np.abs(npy(slam(rgbds.build(near))[1]).astype(np.float64) - want).max() > 2e-4:
            ctx.event("unstable")
            raise Reject
    ctx.nt()
    close(got[:, 0], np.broadcast_to(np.eye(4), got[:, 0].shape), "pose of the first frame", rtol=0, atol=1e-6)
    close(got, want, "poses from the files against poses from the arrays", rtol=0, atol=2e-3)
    check([int(n) for n in pc.num_points_per_pointcloud] == [int(n) for n in pc2.num_points_per_pointcloud] or c["pf"], "maps have other numbers of points")
    if not c["pf"]:
        pts, cols = expected_map(o, got)
        for b in range(c["B"]):
            close(pc.points_list[b], pts[b], "map %d at the recovered poses" % b, rtol=0, atol=1e-4, scale=4)
            close(pc.colors_list[b], cols[b], "colors of map %d" % b, rtol=1e-5, atol=1e-3)
    e = np.abs(got - true[order]).max()
    ctx.event("error below %g" % (10 ** np.ceil(np.log10(max(e, 1e-4)))))


def quat(R):
    """Unit quaternion (x, y, z, w) of a rotation, by the largest of its four forms."""
    t = [1 + R[0, 0] - R[1, 1] - R[2, 2], 1 - R[0, 0] + R[1, 1] - R[2, 2], 1 - R[0, 0] - R[1, 1] + R[2, 2], 1 + R[0, 0] + R[1, 1] + R[2, 2]]
    i = int(np.argmax(t))
    q = [(t[0], R[0, 1] + R[1, 0], R[0, 2] + R[2, 0], R[2, 1] - R[1, 2]), (R[0, 1] + R[1, 0], t[1], R[1, 2] + R[2, 1], R[0, 2] - R[2, 0]),
         (R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], t[2], R[1, 0] - R[0, 1]), (R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], t[3])][i]
    return np.array(q) / np.linalg.norm(q)
