"""C12: association of map points with pixels."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds, pcs, fus
from gradslam import Pointclouds, RGBDImages
from gradslam.slam.fusionutils import (find_active_map_points, find_similar_map_points, find_best_unique_correspondences, find_correspondences,
                                       are_points_close, are_normals_similar)

rule("C12", "A case is a posed frame batch (own intrinsics, poses, holes, either layout) and a ragged map batch whose points lie on, in front of and "
     "behind the seen surface, on the image border, outside the view, behind the camera or crowded on one pixel, with equal and different "
     "confidences, plus thresholds, in metres, millimetres or other units. Each step is compared with brute force in float64; single points within rounding of a boundary are not judged. "
     "Non-trivial: some map points are kept and some are not.")

scene = fixed(f=fus.frame, ns=st.lists(st.integers(0, 14), min_size=1, max_size=3), dist=st.sampled_from(fus.DIST), ang=st.sampled_from(fus.ANGLE),
              crowd=st.sampled_from([0.0, 0.0, 0.5, 0.9]), conf=st.sampled_from(["equal", "few", "any", "zero"]), s=seeds,
              reads=st.lists(seeds, max_size=2), lay=st.booleans(), unit=st.sampled_from([0, 0, 0, -9, -6, 6]))


def unit_of(c):
    """The length of the scene's metre: a power of two, so that rounding is the same in every unit."""
    return 2.0 ** c["unit"]


def in_units(c, pts, m):
    """The points and the frame as measured in the case's unit. (The references work on the original ones, where tolerances are known.)"""
    u = unit_of(c)
    o = m.copy()
    o.d = m.d * u
    o.poses = m.poses.copy()
    o.poses[..., :3, 3] *= u
    return [p * u for p in pts], o


def setup(c):
    x, m = rgbds.make(c["f"])
    if c["unit"]:
        x = rgbds.build(in_units(c, [], m)[1])
    if c["lay"]:
        # reached by converting the other layout
        m2 = in_units(c, [], m)[1]
        m2.cf = not m.cf
        x = rgbds.build(m2)
        x = x.to_channels_first() if m.cf else x.to_channels_last()
    B = m.shape[0]
    dot = float(np.cos(np.deg2rad(c["ang"])))
    pts, nrm, kinds = fus.scene_points(m, c["s"], c["ns"], c["dist"], dot, c["crowd"])
    conf = []
    for b in range(B):
        u = u01(c["s"], max(len(pts[b]), 1), "conf%d" % b)[:len(pts[b])]
        v = {"equal": np.ones(len(u)), "few": 1 + np.floor(u * 3), "any": 0.01 + 50 * u ** 3, "zero": np.floor(u * 3)}[c["conf"]]
        conf.append(fus.f32(v))
    t = lambda xs: [T(a) for a in xs]
    up, um = in_units(c, pts, m)
    pc = Pointclouds(points=t(up), normals=t(nrm), features=t([a[:, None] for a in conf]))
    for q in c["reads"]:
        pcs.check_view(pc, model(up, nrm, conf), pcs.VIEWS[q % len(pcs.VIEWS)], "before")
        rgbds.check_view(x, um, rgbds.VIEWS[(q >> 5) % len(rgbds.VIEWS)], "before")
    return x, m, pc, pts, nrm, conf, dot


def model(pts, nrm, conf):
    return pcs.Model([p.copy() for p in pts], normals=[n.copy() for n in nrm], features=[a[:, None].copy() for a in conf])


def rows_of(t, what):
    check(torch.is_tensor(t) and t.dtype == torch.int64 and t.ndim == 2 and t.shape[1] == 4, "%s is not an int64 table of 4 columns", what)
    return [tuple(r) for r in t.tolist()]


def untouched(x, m, pc, pts, nrm, conf, c):
    pts, m = in_units(c, pts, m)
    pcs.check_all(pc, model(pts, nrm, conf), "map afterwards", c["s"])
    for v in ("rgb_image", "depth_image", "poses", "intrinsics", "shape"):
        rgbds.check_view(x, m, v, "frame afterwards")


@test("C12", scene, quick=5000)
def active(case, ctx):
    x, m, pc, pts, nrm, conf, dot = setup(case)
    got = rows_of(find_active_map_points(pc, x), "active table")
    check(len(set((b, n) for b, n, _, _ in got)) == len(got), "a map point is listed twice")
    by = {(b, n): (h, w) for b, n, h, w in got}
    B, _, H, W = m.shape
    act = fus.active(pts, m)
    nin = nout = 0
    for b in range(B):
        ins, uns, h, w, pu = act[b]
        for n in range(len(pts[b])):
            g = by.pop((b, n), None)
            if uns[n]:
                ctx.event("on a boundary")
                continue
            if ins[n]:
                nin += 1
                check(g is not None, "point %d of element %d is inside the image but not listed", n, b)
                if not pu[n]:
                    check(g == (h[n], w[n]), "point %d of element %d is at pixel %s, expected %s", n, b, g, (int(h[n]), int(w[n])))
                else:
                    check(abs(g[0] - h[n]) <= 1 and abs(g[1] - w[n]) <= 1, "point %d of element %d is at pixel %s, expected about %s", n, b, g,
                          (int(h[n]), int(w[n])))
            else:
                nout += 1
                check(g is None, "point %d of element %d is not seen but listed at %s", n, b, g)
    check(not by, "rows %s do not name a map point", list(by.items())[:3])
    for b, n, h, w in got:
        check(0 <= h < H and 0 <= w < W, "pixel %s outside the %d x %d image", (h, w), H, W)
    ctx.nt(nin > 0 and nout > 0)
    untouched(x, m, pc, pts, nrm, conf, case)


def some_table(c, pts, m, seeds_tag="tab"):
    """A table listing each map point at most once: what projection gives, or arbitrary pixels; in any order."""
    B, _, H, W = m.shape
    act = fus.active(pts, m)
    rows = []
    for b in range(B):
        u = u01(c["s"], 4 * max(len(pts[b]), 1), seeds_tag + str(b)).reshape(-1, 4)
        for n in range(len(pts[b])):
            ins, uns, h, w, pu = act[b]
            if u[n][0] < 0.12:
                rows.append((b, n, int(u[n][1] * H), int(u[n][2] * W)))
            elif ins[n] or u[n][0] < 0.3:
                rows.append((b, n, int(h[n]), int(w[n])))
    if c["s"] % 3 == 0:
        rows = [rows[i] for i in np.argsort(u01(c["s"], len(rows) + 1, "order")[:len(rows)])]
    return rows


def tt(rows):
    return torch.tensor(rows, dtype=torch.int64, device=here()).reshape(-1, 4)


@test("C12", scene, quick=5000)
def similar(case, ctx):
    x, m, pc, pts, nrm, conf, dot = setup(case)
    rows = some_table(case, pts, m)
    tab = tt(rows)
    th = case["dist"]
    got, mask = find_similar_map_points(pc, x, tab, th * unit_of(case), dot)
    got = rows_of(got, "similar table")
    keep, uns = fus.similar_mask(pts, nrm, m, rows, th, dot)
    mask = npy(mask)
    check(mask.dtype == np.bool_ and mask.shape == (len(rows),), "mask has dtype %s and shape %s for %d rows", mask.dtype, mask.shape, len(rows))
    check(got == [r for r, k in zip(rows, mask) if k], "the returned rows are not those of the returned mask")
    for i, r in enumerate(rows):
        if uns[i]:
            ctx.event("on a threshold")
            continue
        check(bool(mask[i]) == bool(keep[i]), "row %s is %s, expected %s", r, "kept" if mask[i] else "dropped", "kept" if keep[i] else "dropped")
    ctx.nt(keep.any() and not keep.all())
    same(tab, tt(rows), "table afterwards")
    untouched(x, m, pc, pts, nrm, conf, case)


@test("C12", scene, quick=5000)
def one_to_one(case, ctx):
    case = dict(case, crowd=max(case["crowd"], 0.5))
    x, m, pc, pts, nrm, conf, dot = setup(case)
    rows = some_table(case, pts, m)
    tab = tt(rows)
    got = rows_of(find_best_unique_correspondences(pc, x, tab), "one-to-one table")
    want = fus.best(pts, conf, m, rows)
    pix = [(b, h, w) for b, n, h, w in got]
    check(len(set(pix)) == len(pix), "a pixel has two points")
    check(set(pix) == set(want), "pixels with a partner: %s, expected %s", sorted(pix), sorted(want))
    for r in got:
        check(r in rows, "row %s was not a candidate", r)
        check(r in want[r[0], r[2], r[3]], "pixel %s got point %d, expected one of %s (confidences %s)", (r[0], r[2], r[3]), r[1],
              [q[1] for q in want[r[0], r[2], r[3]]], [float(conf[q[0]][q[1]]) for q in rows if (q[0], q[2], q[3]) == (r[0], r[2], r[3])])
    ctx.nt(len(got) < len(rows) and len(got) > 0)
    same(tab, tt(rows), "table afterwards")
    untouched(x, m, pc, pts, nrm, conf, case)


@test("C12", scene, quick=3500)
def all_steps(case, ctx):
    """The three steps together: a one-to-one table of points that are seen and similar, and every pixel that must have a partner has one."""
    x, m, pc, pts, nrm, conf, dot = setup(case)
    th = case["dist"]
    got = rows_of(find_correspondences(pc, x, th * unit_of(case), dot), "correspondences")
    act = fus.active(pts, m)
    rows, sure = [], []
    for b, (ins, uns, h, w, pu) in enumerate(act):
        for n in range(len(pts[b])):
            if ins[n] or uns[n]:
                rows.append((b, n, int(h[n]), int(w[n])))
                sure.append(ins[n] and not pu[n])
    keep, uns = fus.similar_mask(pts, nrm, m, rows, th, dot) if rows else (np.zeros(0, bool), np.zeros(0, bool))
    exact = not uns.any() and all(sure) and not any(a[1].any() for a in act)
    cand = [r for r, k in zip(rows, keep) if k]
    ctx.nt(0 < len(cand) < sum(map(len, pts)))
    if exact:
        want = fus.best(pts, conf, m, cand)
        check(sorted((b, h, w) for b, n, h, w in got) == sorted(want), "pixels with a partner: %s, expected %s",
              sorted((b, h, w) for b, n, h, w in got), sorted(want))
        for r in got:
            check(r in want[r[0], r[2], r[3]], "pixel %s got point %d, expected one of %s", (r[0], r[2], r[3]), r[1],
                  [q[1] for q in want[r[0], r[2], r[3]]])
    else:
        ctx.event("a decision hangs on rounding")
        check(len(set((b, h, w) for b, n, h, w in got)) == len(got), "a pixel has two points")
    untouched(x, m, pc, pts, nrm, conf, case)


@test("C12", scene, quick=1500)
def elements_are_independent(case, ctx):
    c = dict(case, f=dict(case["f"], B=2 + case["s"] % 2))
    x, m, pc, pts, nrm, conf, dot = setup(c)
    whole = rows_of(find_correspondences(pc, x, c["dist"] * unit_of(c), dot), "correspondences")
    act = rows_of(find_active_map_points(pc, x), "active table")
    ctx.nt(len(set(r[0] for r in whole)) > 1)
    for b in range(m.shape[0]):
        up, um = in_units(c, pts, m)
        xb = rgbds.build(um.sel([b], slice(None)))
        t = lambda a: [T(a[b])]
        pb = Pointclouds(points=t(up), normals=t(nrm), features=[T(conf[b][:, None])])
        a1 = rows_of(find_active_map_points(pb, xb), "active table of one element")
        check(sorted(a1) == sorted((0,) + r[1:] for r in act if r[0] == b), "active points of element %d alone differ", b)
        c1 = rows_of(find_correspondences(pb, xb, c["dist"] * unit_of(c), dot), "correspondences of one element")
        check(sorted(c1) == sorted((0,) + r[1:] for r in whole if r[0] == b), "correspondences of element %d alone differ: %s, %s", b, c1,
              [r for r in whole if r[0] == b])


@test("C12", scene, quick=600)
def empty_maps(case, ctx):
    x, m, pc, pts, nrm, conf, dot = setup(case)
    k = case["s"] % 3
    B = m.shape[0]
    if k == 0:
        pc = Pointclouds(device=here())
    elif k == 1:
        e = [torch.zeros(0, 3, device=here()) for _ in range(B)]
        pc = Pointclouds(points=e, normals=[a.clone() for a in e], features=[torch.zeros(0, 1, device=here()) for _ in range(B)])
    ctx.nt()
    if k == 2:
        # nothing listed
        none = tt([])
        got, mask = find_similar_map_points(pc, x, none, case["dist"], dot)
        check(rows_of(got, "similar table") == [] and npy(mask).shape == (0,), "rows out of an empty table")
        check(rows_of(find_best_unique_correspondences(pc, x, none), "one-to-one table") == [], "rows out of an empty table")
        return
    check(rows_of(find_active_map_points(pc, x), "active table") == [], "active points in an empty map")
    check(rows_of(find_correspondences(pc, x, case["dist"], dot), "correspondences") == [], "correspondences in an empty map")


pair = fixed(shape=st.lists(st.integers(1, 4), min_size=1, max_size=3), dim=st.integers(0, 3), th=st.sampled_from([0.05, 0.3, 1, 0.9]), s=seeds,
             neg=st.booleans())


@test("C12", pair, quick=2000)
def predicates(case, ctx):
    """are_points_close and are_normals_similar on any layout."""
    s = case["s"]
    shape = list(case["shape"])
    dim = case["dim"] % (len(shape) + 1)
    a = fus.f32(arr(s, shape + [3], -1, 1, "a"))
    d = arr(s, shape + [3], -1, 1, "d")
    d /= np.linalg.norm(d, axis=-1, keepdims=True) + 1e-9
    r = arr(s, shape + [1], 0, 2, "r") * case["th"]
    b = fus.f32(a + d * r)
    dist = np.linalg.norm(a - b, axis=-1)
    mv = lambda v: T(np.ascontiguousarray(np.moveaxis(v, -1, dim)))
    dd = dim - (len(shape) + 1) if case["neg"] else dim
    kw = {} if dim == len(shape) and s % 2 else {"dim": dd}
    got = npy(are_points_close(mv(a), mv(b), case["th"], **kw))
    check(got.shape == dist.shape and got.dtype == np.bool_, "result has shape %s and dtype %s", got.shape, got.dtype)
    sure = np.abs(dist - case["th"]) > 1e-5
    check((got == (dist < case["th"]))[sure].all(), "closeness is wrong at distance %s", dist[sure & (got != (dist < case["th"]))][:1])
    n1 = a / (np.linalg.norm(a, axis=-1, keepdims=True) + 1e-6)
    n2 = b / (np.linalg.norm(b, axis=-1, keepdims=True) + 1e-6)
    n1, n2 = fus.f32(n1), fus.f32(n2)
    dot = (n1 * n2).sum(-1)
    got = npy(are_normals_similar(mv(n1), mv(n2), case["th"], **kw))
    check(got.shape == dot.shape and got.dtype == np.bool_, "result has shape %s and dtype %s", got.shape, got.dtype)
    sure = np.abs(dot - case["th"]) > 1e-5
    check((got == (dot > case["th"]))[sure].all(), "similarity is wrong at dot product %s", dot[sure & (got != (dot > case["th"]))][:1])
    ctx.nt((dist < case["th"]).any() and (dist > case["th"]).any())


@test("C12", fixed(n=st.integers(1, 60000), s=seeds), quick=1, thorough=6)
def very_large_maps(case, ctx):
    """More than 2**24 points, where single precision no longer tells neighbouring indices apart."""
    N = 2 ** 24 + 2 * case["n"] + 1
    pts = torch.full((N, 3), -5.0)
    u = u01(case["s"], 6)
    ids = sorted({N - 1, N - 2, 2 ** 24 + 1 + int(u[0] * (N - 2 ** 24 - 3)), int(u[1] * 2 ** 24), 2 ** 24 - 1, 3})
    d = torch.full((1, 1, 2, 4, 1), 1.0)
    K = torch.eye(4).reshape(1, 1, 4, 4)
    fr = RGBDImages(torch.zeros(1, 1, 2, 4, 3), d, K, torch.eye(4).reshape(1, 1, 4, 4))
    want = []
    for i, n in enumerate(ids):
        pts[n] = torch.tensor([float(i % 4), float(i // 4), 1.0])
        want.append((0, n, i // 4, i % 4))
    pc = Pointclouds(points=[pts], features=[torch.ones(N, 1)])
    ctx.nt()
    got = rows_of(find_active_map_points(pc, fr), "active table")
    check(got == want, "active points of a map of %d points: %s, expected %s", N, got, want)
    got = rows_of(find_best_unique_correspondences(pc, fr, tt(want)), "one-to-one table")
    check(sorted(got) == sorted(want), "one-to-one step on a map of %d points: %s, expected %s", N, got, want)


big = fixed(f=fus.large, ns=st.lists(st.integers(0, 400), min_size=1, max_size=3), dist=st.sampled_from(fus.DIST), ang=st.sampled_from(fus.ANGLE),
            crowd=st.sampled_from([0.0, 0.5, 0.9]), conf=st.sampled_from(["equal", "few", "any", "zero"]), s=seeds, reads=st.just([]), lay=st.booleans(), unit=st.sampled_from([0, 0, -9, 6]))
also(active, "C12", "active_in_large_maps", big, quick=300)
also(one_to_one, "C12", "one_to_one_in_large_maps", big, quick=300)
also(all_steps, "C12", "all_steps_in_large_maps", big, quick=300)
