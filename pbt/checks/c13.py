"""C13: fusing frames into maps."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds, pcs, fus
from gradslam import Pointclouds
from gradslam.slam.fusionutils import fuse_with_map, update_map_fusion, update_map_aggregate, find_correspondences, get_alpha

rule("C13", "A case is a posed frame batch (either layout, holes) fused into a ragged map batch with confidences (zero included) through an arbitrary "
     "one-to-one table, or a sequence of 2-4 frames fused one after another into an initially empty or given map with either in-place flag; the "
     "result is compared with the weighted average computed per point in float64. Non-trivial: some map point is matched, some is not, and some "
     "pixel is appended.")

one = fixed(f=fus.frame, ns=st.lists(st.integers(0, 8), min_size=1, max_size=3), conf=st.sampled_from(["equal", "any", "zero"]),
            dens=st.sampled_from([0.0, 0.3, 0.7, 1.0]), sigma=st.sampled_from([0.6, 0.6, 0.3, 1, 2, 0.1]), tsig=st.booleans(), inplace=st.booleans(),
            empty=st.sampled_from([False] * 5 + [True]), reads=st.lists(seeds, max_size=2), s=seeds)


def a_map(c, B):
    s = c["s"]
    z = [[], [], [], []]
    for b in range(B):
        n = c["ns"][b % len(c["ns"])]
        z[0].append(fus.f32(arr(s, (n, 3), -3, 3, "mp%d" % b)))
        v = arr(s, (n, 3), -1, 1, "mn%d" % b)
        z[1].append(fus.f32(v / (np.linalg.norm(v, axis=1, keepdims=True) + 1e-9)))
        z[2].append(fus.f32(arr(s, (n, 3), 0, 255, "mc%d" % b)))
        u = u01(s, max(n, 1), "mf%d" % b)[:n]
        z[3].append(fus.f32({"equal": np.ones(n), "any": 0.01 + 40 * u ** 3, "zero": np.where(u < 0.4, 0.0, 3 * u)}[c["conf"]])[:, None])
    return fus.Map(*z)


def a_table(c, mp, m):
    B, _, H, W = m.shape
    rows = []
    for b in range(B):
        k = np.argsort(u01(c["s"], H * W, "perm%d" % b))
        u = u01(c["s"], max(len(mp.points[b]), 1), "in%d" % b)
        j = 0
        for n in range(len(mp.points[b])):
            if u[n] < c["dens"]:
                while j < H * W and not m.mask()[b, 0, k[j] // W, k[j] % W]:
                    j += 1   # only pixels with depth are ever matched
                if j < H * W:
                    rows.append((b, n, int(k[j] // W), int(k[j] % W)))
                    j += 1
    if c["s"] % 2:
        rows = rows[::-1]
    return rows


def same_map(pc, mp, what):
    """Bitwise."""
    for k, v in (("points", mp.points), ("normals", mp.normals), ("colors", mp.colors), ("features", mp.conf)):
        l = getattr(pc, k + "_list")
        check(l is not None and len(l) == len(v), "%s: %s missing or of another batch size", what, k)
        for b in range(len(v)):
            same(npy(l[b]).astype(np.float64), v[b], "%s: %s of element %d" % (what, k, b))


@test("C13", one, quick=7000)
def one_fusion(case, ctx):
    c = case
    x, m = rgbds.make(c["f"])
    B = m.shape[0]
    mp = fus.Map.empty(B) if c["empty"] else a_map(c, B)
    rows = [] if c["empty"] else a_table(c, mp, m)
    pc = Pointclouds(device=here()) if c["empty"] and c["s"] % 2 else mp.build()
    held = pc.has_points
    for q in c["reads"]:
        if held:
            getattr(pc, pcs.VIEWS[q % len(pcs.VIEWS)] if pcs.VIEWS[q % len(pcs.VIEWS)] not in ("counts", "flags") else "nonpad_mask")
        rgbds.check_view(x, m, rgbds.VIEWS[(q >> 5) % len(rgbds.VIEWS)], "before")
    tab = torch.tensor(rows, dtype=torch.int64, device=here()).reshape(-1, 4)
    sg = c["sigma"]
    out = fuse_with_map(pc, x, tab, torch.tensor(float(sg)) if c["tsig"] else sg, c["inplace"])
    ref, hit, new = fus.fuse(mp, m, rows, sg)
    total = sum(len(p) for p in mp.points)
    ctx.nt(len(rows) > 0 and total > len(rows) and sum(new) > 0)
    fus.compare(out, ref, "fused map", ntol=1e-4)
    for b in range(B):
        n0 = len(mp.points[b])
        un = np.array([n for n in range(n0) if n not in hit[b]], int)
        for k, v in (("points", mp.points), ("normals", mp.normals), ("colors", mp.colors), ("features", mp.conf)):
            same(npy(getattr(out, k + "_list")[b]).astype(np.float64)[un], v[b][un], "%s of unmatched map points of element %d" % (k, b))
        # appended pixels hold exactly the frame's data
        same(npy(out.colors_list[b]).astype(np.float64)[n0:], ref.colors[b][n0:], "colors of appended pixels of element %d" % b)
    if c["inplace"]:
        check(out is pc, "in-place fusion returned another object")
    else:
        if held:
            same_map(pc, mp, "caller's map")
        else:
            check(not pc.has_points, "the caller's empty map was filled")
    same(tab, np.array(rows, np.int64).reshape(-1, 4), "table afterwards")
    rgbds.check_all(x, m, "frame afterwards", c["s"])
    pcs.check_all(out, pcs.snapshot(out), "fused map", c["s"])


seq = fixed(f=fus.frame, L=st.integers(2, 4), inplace=st.booleans(), start=st.sampled_from(["empty", "empty", "map"]),
            ns=st.lists(st.integers(0, 8), min_size=1, max_size=3), conf=st.sampled_from(["equal", "any"]), dist=st.sampled_from(fus.DIST),
            ang=st.sampled_from([10, 20, 45, 80]), sigma=st.sampled_from([0.6, 0.6, 0.3, 2]), move=st.sampled_from([0.0, 0.02, 0.1, 1.0]),
            drift=st.sampled_from([0.0, 0.01, 0.2]), s=seeds)


@test("C13", seq, quick=3000)
def fusing_a_sequence(case, ctx):
    c = case
    ms = fus.sequence(c)
    B = ms[0].shape[0]
    dot = float(np.cos(np.deg2rad(c["ang"])))
    if c["start"] == "empty":
        pc, now = Pointclouds(device=here()), fus.Map.empty(B)
    else:
        now = a_map(c, B)
        pc = now.build()
    matched = new_total = 0
    for l, m in enumerate(ms):
        x = rgbds.build(m)
        before = now
        table = [tuple(r) for r in find_correspondences(pc, x, c["dist"], dot).tolist()]
        out = update_map_fusion(pc, x, c["dist"], dot, c["sigma"], c["inplace"])
        ref, hit, new = fus.fuse(before, m, table, c["sigma"])
        fus.compare(out, ref, "map after frame %d" % l, ntol=1e-3)
        matched += len(table)
        new_total += sum(new)
        if not c["inplace"]:
            if pc.has_points:
                same_map(pc, before, "caller's map after frame %d" % l)
            else:
                check(not pc.has_points, "the caller's empty map was filled")
        else:
            check(out is pc, "in-place fusion returned another object")
        full = fus.reference_step(before, m, c["dist"], dot, c["sigma"])
        if full is not None:
            ctx.event("association also by brute force")
            check(sorted(full[3]) == sorted(table), "correspondences of frame %d: %s, expected %s", l, sorted(table), sorted(full[3]))
        now = fus.Map.of(out, B)
        pc = out
        rgbds.check_all(x, m, "frame afterwards", c["s"])
    ctx.nt(matched > 0 and new_total > 0)


@test("C13", seq, quick=1500)
def an_identical_view_adds_nothing(case, ctx):
    c = dict(case, L=1)
    m = fus.sequence(c)[0]
    if not fus.goodness(m)[m.mask()[:, 0]].all():
        raise Reject   # a pixel without a well-defined normal cannot be recognised
    dot = float(np.cos(np.deg2rad(c["ang"])))
    x = rgbds.build(m)
    pc = update_map_fusion(Pointclouds(device=here()), x, c["dist"], dot, c["sigma"])
    one = fus.Map.of(pc, m.shape[0])
    ctx.nt(m.mask().any())
    A = fus.alpha(m, c["sigma"])
    B = m.shape[0]
    for k in range(2):
        pc = update_map_fusion(pc, rgbds.build(m), c["dist"], dot, c["sigma"], c["inplace"])
        for b in range(B):
            w = "element %d after seeing the same view %d times" % (b, k + 2)
            check(len(pc.points_list[b]) == len(one.points[b]), "%s: %d points, expected %d", w, len(pc.points_list[b]), len(one.points[b]))
            sc = 1 + np.abs(one.points[b]).max(initial=0)
            close(pc.points_list[b], one.points[b], "points of " + w, rtol=1e-5, atol=1e-5, scale=sc)
            close(pc.colors_list[b], one.colors[b], "colors of " + w, rtol=1e-5, atol=1e-3)
            close(pc.normals_list[b], one.normals[b], "normals of " + w, rtol=0, atol=1e-4)
            close(pc.features_list[b], (k + 2) * A[b, 0][m.mask()[b, 0]][:, None], "confidences of " + w, rtol=1e-4, atol=1e-6)


al = fixed(shape=st.lists(st.integers(1, 4), min_size=0, max_size=4), dim=st.integers(0, 4), sigma=st.sampled_from([0.6, 0.1, 1, 2.5, 10]),
           tsig=st.booleans(), keep=st.booleans(), eps=st.sampled_from([None, 1e-7, 1e-3, 1e-12]), r=st.sampled_from([0.1, 1.0, 4.0]), neg=st.booleans(),
           s=seeds)


@test("C13", al, quick=2500)
def weights(case, ctx):
    """get_alpha: the Gaussian of the distance from the camera, between its bounds, on any layout."""
    c = case
    shape = list(c["shape"])
    dim = c["dim"] % (len(shape) + 1)
    p = fus.f32(arr(c["s"], shape + [3], -1, 1, "p") * c["r"])
    kw = {}
    if not (dim == len(shape) and c["s"] % 2):
        kw["dim"] = dim - len(shape) - 1 if c["neg"] else dim
    if c["keep"]:
        kw["keepdim"] = True
    if c["eps"] is not None:
        kw["eps"] = c["eps"]
    t = T(np.ascontiguousarray(np.moveaxis(p, -1, dim)))
    k0 = t.clone()
    got = get_alpha(t, torch.tensor(float(c["sigma"])) if c["tsig"] else c["sigma"], **kw)
    want = np.clip(np.exp(-(p ** 2).sum(-1) / (2 * c["sigma"] ** 2)), 1e-7 if c["eps"] is None else c["eps"], 1.01)
    if c["keep"]:
        want = np.expand_dims(want, dim)
    ctx.nt(((want > 1e-6) & (want < 0.999)).any())
    close(got, want, "weight", rtol=2e-4, atol=1e-12)
    same(t, k0, "points afterwards")


@test("C13", one, quick=2500)
def aggregation(case, ctx):
    """The aggregating update appends every valid pixel and leaves existing points alone."""
    c = case
    x, m = rgbds.make(c["f"])
    B = m.shape[0]
    if c["empty"]:
        pc, mp = Pointclouds(device=here()), None
    else:
        full = a_map(c, B)
        t = lambda xs: [T(a) for a in xs]
        mp = pcs.Model(full.points, normals=full.normals, colors=full.colors)
        pc = Pointclouds(points=t(full.points), normals=t(full.normals), colors=t(full.colors))
    out = update_map_aggregate(pc, x, c["inplace"])
    k, G, GN = m.mask()[:, 0], m.glob(), fus.frame_normals(m)
    fr = pcs.Model([G[b, 0][k[b]] for b in range(B)], normals=[GN[b, 0][k[b]] for b in range(B)], colors=[m.rgb[b, 0][k[b]] for b in range(B)])
    want = fr
    if mp is not None:
        want = mp.copy()
        want.append(fr)
    ctx.nt(mp is not None and k.any() and sum(mp.ns) > 0)
    pcs.check_all(out, want, "map", c["s"])
    if c["inplace"]:
        check(out is pc, "in-place aggregation returned another object")
    elif mp is None:
        check(not pc.has_points, "the caller's empty map was filled")
    else:
        pcs.check_all(pc, mp, "caller's map", c["s"])
    rgbds.check_all(x, m, "frame afterwards", c["s"])


also(one_fusion, "C13", "fusion_into_large_maps", fixed(f=fus.large, ns=st.lists(st.integers(0, 1500), min_size=1, max_size=3), conf=st.sampled_from(["equal", "any", "zero"]),
                                                        dens=st.sampled_from([0.0, 0.3, 1.0]), sigma=st.sampled_from([0.6, 0.3, 2]), tsig=st.booleans(), inplace=st.booleans(),
                                                        empty=st.sampled_from([False] * 5 + [True]), reads=st.just([]), s=seeds), quick=500)
also(aggregation, "C13", "aggregation_of_large_maps", fixed(f=fus.large, ns=st.lists(st.integers(0, 1500), min_size=1, max_size=3), conf=st.sampled_from(["equal", "any", "zero"]),
                                                            dens=st.just(0.3), sigma=st.just(0.6), tsig=st.booleans(), inplace=st.booleans(),
                                                            empty=st.sampled_from([False] * 5 + [True]), reads=st.just([]), s=seeds), quick=500)
