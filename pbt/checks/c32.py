"""C32: the elements of a batch are processed each on its own."""
import hashlib
import numpy as np
import torch
from hypothesis import strategies as st
import core
from core import *
from core import T
import pcs, rgbds
from checks.c28 import seeds
from gradslam import Pointclouds, RGBDImages
from gradslam.datasets import datautils as du
from gradslam.geometry import geometryutils as gu, projutils as pj
from gradslam.odometry import icputils
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
from gradslam.slam import fusionutils as fu
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.structures.structutils import list_to_padded, padded_to_list
from gradslam.structures.utils import pointclouds_from_rgbdimages

rule("C32", "A case is a batched operation and 2 to 4 elements with data, sizes and magnitudes of their own. Against the results for that batch: the batch in another order, with elements left out, with elements given twice, "
     "with all but one element replaced by others (of the same or of other sizes), and each element alone give every element the same result, bit for bit where all shapes agree and within rounding elsewhere; and the gradient of "
     "one element's results is zero for every other element's inputs and the same as alone for its own. Non-trivial: at least two elements differ.")

OPS = {}
JIG = [0]


def op(f):
    OPS[f.__name__.replace("_", " ")] = f
    return f


class Batch:
    """Makes the inputs of the elements, remembering them so that gradients can be asked for."""

    def __init__(self, c, els, grad=False):
        self.c, self.els, self.grad = c, els, grad
        self.leaves = [[] for _ in els]

    def __len__(self):
        return len(self.els)

    def each(self, f):
        """One tensor for each element: f(seed, size, magnitude)."""
        o = []
        for e, L in zip(self.els, self.leaves):
            n = len(L)
            s = 5 if (e["like"] >> n % 8) & 1 else e["s"]       # the same input as in other elements?
            a = np.asarray(f(s, e["n"], e["mag"]), np.float64)
            if JIG[0]:
                a = a * (1 + 1e-6 * arr(e["s"], a.shape, -1, 1, "jig%d/%d" % (JIG[0], len(L))))
            t = T(a)
            t.requires_grad_(self.grad)
            L.append(t)
            o.append(t)
        return o

    def all(self, f):
        return torch.stack(self.each(f))

    def __getitem__(self, k):
        """A number drawn for the case."""
        return self.c[k]


def rows(table, B):
    return [[table[table[:, 0] == b][:, 1:]] for b in range(B)]


def of_clouds(x, B):
    o = [[] for _ in range(B)]
    check(len(x) == B, "the result has %d clouds for %d elements", len(x), B)
    n = [int(v) for v in npy(x.num_points_per_pointcloud)] if x.has_points else [0] * B
    for a in ("points",) + pcs.ATTRS:
        v, p = getattr(x, a + "_list"), getattr(x, a + "_padded")
        for b in range(B):
            o[b] += [None, None] if v is None else [v[b], p[b, :n[b]]]
    for b in range(B):
        o[b].append(n[b])
    return o


def of_frames(x, B):
    v = {a: getattr(x, a) for a in rgbds.VIEWS}
    return [[t[b] if torch.is_tensor(t) else None for a, t in sorted(v.items())] for b in range(B)]


# ---------------------------------------------------------------- frames
def parts(k, L=None, H=None, W=None, flat=False, tag="", ordinary=False):
    L, H, W = L or k["L"], H or k["H"], W or k["W"]

    def surface(s, n, mag):
        surf = "smooth" if flat else rgbds.SURF[s % 4]
        d = (1.0 if ordinary else mag) * rgbds.depth(s, 1, L, H, W, surf, 0.3 * (s >> 3 & 1), tag=tag)[0][..., None]
        if n == 0:
            d[s % L] = 0.0      # a blank frame
        return d
    d = k.all(surface)
    rgb = k.all(lambda s, n, mag: arr(s, (L, H, W, 3), 0, 255, "rgb" + tag))
    center = (k["t"] // 2) % 2      # one principal point for all?

    def camera(s, n, mag):
        K = rgbds.kmat(s, H, W)
        if center:
            K[:2, 2] = [W / 2, H / 2]
        return K[None]
    K = k.all(camera)
    small = dict(maxangle=0.05, maxt=0.05) if ordinary else {}
    P = k.all(lambda s, n, mag: np.stack([pose(s, tag="P%s%d" % (tag, l), **small) for l in range(L)]))
    return rgb, d, K, P


def frames(k, **kw):
    rgb, d, K, P = parts(k, **kw)
    if k["cf"]:
        rgb, d = rgb.permute(0, 1, 4, 2, 3), d.permute(0, 1, 4, 2, 3)
    return RGBDImages(rgb, d, K, P if k["poses"] or kw.get("ordinary") else None, channels_first=k["cf"])


@op
def frame_maps(k):
    x = frames(k)
    if k["t"] % 3 == 1:
        x = x.to_channels_last() if k["cf"] else x.to_channels_first()
    if k["t"] % 5 == 1:
        x = x[:, k["t"] % k["L"]]
    return of_frames(x, len(k))


@op
def clouds_of_frames(k):
    x = pointclouds_from_rgbdimages(frames(k, L=1), global_coordinates=k["t"] % 2 == 0 and k["poses"], filter_missing_depths=k["t"] % 3 > 0)
    return of_clouds(x, len(k))


@op
def downsampled_frames(k):
    return of_clouds(icputils.downsample_rgbdimages(frames(k, L=1), 1 + k["t"] % 3), len(k))


# ---------------------------------------------------------------- clouds
def clouds(k, attrs=pcs.ATTRS, tag=""):
    kw = dict(normals=lambda s, n, m: arr(s, (n, 3), -1, 1, tag + "n"), colors=lambda s, n, m: arr(s, (n, 3), 0, 255, tag + "c"), features=lambda s, n, m: arr(s, (n, 2), 0, 1, tag + "f"))
    return Pointclouds(k.each(lambda s, n, m: m * arr(s, (n, 3), -1, 1, tag + "p")), **{a: k.each(kw[a]) for a in attrs})


@op
def cloud_arithmetic(k):
    x = clouds(k)
    v = k.all(lambda s, n, m: arr(s, (1, 3), 0.5, 2, "v"))
    t = k["t"] % 8
    if t < 4:
        x = [lambda: x + v, lambda: x - v, lambda: x * v, lambda: x / v][t]()
    else:
        y = v
        x = [x.offset_, x.scale_][t % 2](y) if not k.grad else [lambda: x + y, lambda: x * y][t % 2]()
    return of_clouds(x, len(k))


@op
def cloud_motion(k):
    x = clouds(k, ("normals",))
    P = k.all(lambda s, n, m: pose(s))
    pre = k["t"] % 2 == 0
    R = P[:, :3, :3]
    t = k["t"] % 6 // 2
    if t == 0:
        x = x.rotate(R, pre_multiplication=pre)
    elif t == 1:
        x = x.transform(P if pre else P.transpose(1, 2), pre_multiplication=pre)
    elif k.grad or k["t"] % 5:
        x = x.pinhole_projection(k.all(lambda s, n, m: rgbds.kmat(s, 4, 5)))
    else:
        x = x.transform_(P).rotate_(R)
    return of_clouds(x, len(k))


@op
def appended_clouds(k):
    x = clouds(k).clone()
    y = Pointclouds(k.each(lambda s, n, m: arr(s, (n * 3 % 4, 3), -1, 1, "ap")), k.each(lambda s, n, m: arr(s, (n * 3 % 4, 3), -1, 1, "an")), k.each(lambda s, n, m: arr(s, (n * 3 % 4, 3), -1, 1, "ac")), k.each(lambda s, n, m: arr(s, (n * 3 % 4, 2), -1, 1, "af")))
    if k["t"] % 2:
        x.points_padded
    x.append_points(y)
    return of_clouds(x, len(k))


@op
def padding(k):
    x = k.each(lambda s, n, m: m * arr(s, (n + 1, 3), -1, 1))
    p = list_to_padded(x, pad_value=0.5)
    y = padded_to_list(p, [len(v) for v in x])
    return [[p[b, :len(x[b])], y[b]] for b in range(len(k))]


# ---------------------------------------------------------------- formulas
@op
def formulas(k):
    P = k.all(lambda s, n, m: pose(s, tag="a"))
    Q = k.all(lambda s, n, m: pose(s, tag="b"))
    q = k.all(lambda s, n, m: arr(s, (4,), 0.1, 1, "q"))
    x = k.all(lambda s, n, m: m * arr(s, (3, 3), -1, 1, "x"))
    K = k.all(lambda s, n, m: rgbds.kmat(s, 4, 5))
    z = k.all(lambda s, n, m: m * arr(s, (3,), 0.5, 2, "z"))
    h = lambda v: gu.homogenize_points(v)
    f = [lambda: gu.normalize_quaternion(q), lambda: gu.quaternion_to_rotation_matrix(q), lambda: gu.quaternion_to_axisangle(q),
         lambda: gu.relative_transformation(P, Q), lambda: gu.relative_transformation(P, Q, orthogonal_rotations=True), lambda: gu.compose_transformations(P, Q),
         lambda: gu.transform_pts_nd_KF(x, P), lambda: gu.cam2pixel_KF(x, K), lambda: pj.inverse_intrinsics(K), lambda: pj.project_points(h(x), K),
         lambda: pj.unproject_points(x[..., :2], K[:, :3, :3], z), lambda: gu.unhomogenize_points(h(x)), lambda: gu.unnormalize_pixel_coords(x[..., :2], 4, 5),
         lambda: gu.normalize_pixel_coords(x[..., :2], 4, 5), lambda: du.scale_intrinsics(K, 0.5, 2), lambda: du.normalize_image(x),
         lambda: du.pointquaternion_to_homogeneous(torch.cat([x[:, 0], q], -1)), lambda: fu.get_alpha(x, 0.6), lambda: pj.homogenize_points(x)][k["t"] % 19]
    y = f()
    check(y.shape[0] == len(k), "result for %d elements has shape %s", len(k), tuple(y.shape))
    return [[v] for v in y]


# ---------------------------------------------------------------- registration
def two(k):
    """Targets with normals, and sources: the same points moved and scattered."""
    size = lambda n: n + 8
    g = lambda s, n: arr(s, (size(n), 3), -1, 1, "g")

    def nrm(s, n, m):
        v = arr(s, (size(n), 3), -1, 1, "n") + 1e-3
        return v / np.linalg.norm(v, axis=1, keepdims=True)
    tgt = Pointclouds(k.each(lambda s, n, m: g(s, n)), k.each(nrm))
    src = Pointclouds(k.each(lambda s, n, m: g(s, n) @ pose(s, 0.2, 0.2)[:3, :3].T + arr(s, (1, 3), -0.1, 0.1, "t") + arr(s, (size(n), 3), -0.02, 0.02, "e")))
    return tgt, src


@op
def registration(k):
    tgt, src = two(k)
    kw = dict(numiters=1 + k["t"] % 3, damp=1e-3, dist_thresh=[None, 0.6][k["t"] % 5 == 0])
    M = (ICPOdometryProvider if k["t"] % 2 else GradICPOdometryProvider)(**kw).provide(tgt, src)
    return [[v] for v in M]


@op
def relative_poses(k):
    return [[v] for v in GroundTruthOdometryProvider().provide(frames(dict_of(k, poses=True), L=1, tag="1"), frames(dict_of(k, poses=True), L=1, tag="2"))]


def dict_of(k, **kw):
    o = Batch.__new__(Batch)
    o.__dict__.update(k.__dict__)
    o.c = dict(k.c, **kw)
    return o


# ---------------------------------------------------------------- association and fusion
def a_map(k, x, feat=True):
    """Points about those of the frame, some of them (as many as the element wants), and some elsewhere."""
    B = len(k)
    V, N = npy(x.to_channels_last().global_vertex_map), npy(x.to_channels_last().global_normal_map)
    P, M, C, F = [], [], [], []
    for b, e in enumerate(k.els):
        s, n = e["s"], 4 * e["n"] + 1
        i = (arr(s, (n,), 0, 1, "i") * V[b].size / 3).astype(int)
        P.append(V[b].reshape(-1, 3)[i] + arr(s, (n, 3), -0.04, 0.04, "e"))
        v = N[b].reshape(-1, 3)[i] + arr(s, (n, 3), -0.4, 0.4, "m")
        M.append(v / np.linalg.norm(v, axis=1, keepdims=True))
        C.append(arr(s, (n, 3), 0, 255, "c"))
        F.append(arr(s, (n, 1), 0.5, 3, "f"))
    at = lambda vs: [k.each(lambda s, n, m, it=iter(vs): next(it))][0]
    return Pointclouds(at(P), at(M), at(C), at(F) if feat else None)


@op
def association(k):
    x = frames(k, L=1, ordinary=True)
    m = a_map(k, x)
    t = fu.find_active_map_points(m, x)
    j = k["t"] % 5
    if j == 1:
        t, _ = fu.find_similar_map_points(m, x, t, 0.05, 0.9)
    elif j == 2:
        t = fu.find_best_unique_correspondences(m, x, t)
    elif j == 3:
        t = fu.find_correspondences(m, x, 0.08, 0.8)
    elif j == 4:
        return of_clouds(icputils.downsample_pointclouds(m, t, 1 + k["t"] % 2), len(k))
    return rows(t, len(k))


@op
def fusion(k):
    x = frames(k, L=1, ordinary=True)
    m = a_map(k, x)
    j = k["t"] % 3
    inplace = not k.grad and k["t"] % 2 == 1
    if j == 0:
        y = fu.update_map_fusion(m, x, 0.06, 0.8, 0.6, inplace)
    elif j == 1:
        y = fu.fuse_with_map(m, x, fu.find_correspondences(m, x, 0.06, 0.8), 0.6, inplace)
    else:
        y = fu.update_map_aggregate(Pointclouds(m.points_list, m.normals_list, m.colors_list), x, inplace)
    return of_clouds(y, len(k))


# ---------------------------------------------------------------- pipelines
def slam_of(k):
    kw = dict(odom=["gt", "icp", "gradicp"][k["t"] % 3], dsratio=1, numiters=1 + k["t"] % 2, damp=1e-2)
    return (PointFusion if k["t"] % 4 < 2 else ICPSLAM)(**kw)


@op
def pipeline(k):
    m, P = slam_of(k)(frames(k, L=2 + k["t"] % 2, H=5, W=6, flat=True, ordinary=True))
    return [o + [P[b]] for b, o in enumerate(of_clouds(m, len(k)))]


@op
def step(k):
    x = frames(k, L=2, H=5, W=6, flat=True, ordinary=True)
    slam = slam_of(k)
    m, _ = slam.step(Pointclouds(), x[:, 0])
    m, P = slam.step(m, x[:, 1], x[:, 0] if slam.odom != "gt" else None, inplace=not k.grad and k["t"] % 5 == 1)
    return [o + [P[b]] for b, o in enumerate(of_clouds(m, len(k)))]


# ---------------------------------------------------------------- the checks
def run(c, els, grad=False):
    k = Batch(c, els, grad)
    o = OPS[c["op"]](k)
    return k, [[v if grad or not torch.is_tensor(v) else v.detach().clone() for v in x] for x in o]


def alone(c, e, cache):
    """The element in a batch of one, and how much rounding can do to it."""
    key = (e["s"], e["n"], e["mag"], e["like"])
    if key not in cache:
        def slack():
            o = []
            for j in (1, 2, 3, 4):
                JIG[0] = j
                try:
                    o.append(run(c, [e])[1][0])
                finally:
                    JIG[0] = 0
            return o
        cache[key] = (run(c, [e])[1][0], slack)
    return cache[key]


def spread(a, others):
    """How far the outputs go when the inputs move by about their rounding; None if their shapes change."""
    d = 0.0
    for b in others:
        if not torch.is_tensor(b):
            if b != a:
                return None
            continue
        if b.shape != a.shape:
            return None
        if not a.is_floating_point():
            if not torch.equal(a, b):
                return None
            continue
        if a.numel():
            d = max(d, float((a.double() - b.double()).abs().max()))
    return d


def agree(c, got, want, e, cache, exact, what, ctx):
    check(len(got) == len(want), "%s has %d parts, expected %d", what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if torch.is_tensor(w):
            ok = torch.is_tensor(g) and g.shape == w.shape and g.dtype == w.dtype
            if ok:
                ok = torch.equal(g, w) if exact or not w.is_floating_point() else bool(((g - w).abs() <= 1e-6 * max(1.0, float(w.abs().max()) if w.numel() else 1) + 1e-5 * w.abs()).all())
        else:
            ok = type(g) is type(w) and g == w
        if ok:
            continue
        if not exact:      # a decision, or an ill-conditioned system, at the mercy of rounding?
            a, slack = alone(c, e, cache)
            others = slack()
            for j, v in enumerate(a):
                d = spread(v, [o[j] for o in others])
                if d is None:
                    ctx.event("at a threshold")
                    return
            d = spread(a[i], [o[i] for o in others])
            if torch.is_tensor(g) and torch.is_tensor(w) and g.shape == w.shape and w.is_floating_point() and float((g - w).abs().max()) <= 20 * d + 1e-6:
                continue
        if torch.is_tensor(g) and torch.is_tensor(w) and g.shape == w.shape:
            j = int(((g.double() - w.double()).abs() > 0).flatten().int().argmax())
            fail("%s: part %d, entry %d is %r, expected %r", what, i, j, g.flatten()[j].item(), w.flatten()[j].item())
        fail("%s: part %d is %s, expected %s", what, i, tuple(g.shape) if torch.is_tensor(g) else g, tuple(w.shape) if torch.is_tensor(w) else w)


element = fixed(s=seeds, n=st.integers(0, 6), mag=st.sampled_from([1.0] * 5 + [1e-3, 50.0]), like=st.one_of(st.just(0), st.integers(0, 255)))
shared = dict(op=st.sampled_from(sorted(OPS)), t=st.integers(0, 59), L=st.integers(1, 3), H=st.integers(3, 5), W=st.integers(3, 6), cf=st.booleans(), poses=st.sampled_from([True, True, False]))


@test("C32", fixed(els=st.lists(element, min_size=2, max_size=4), others=st.lists(element, min_size=4, max_size=4), resize=st.booleans(), order=st.permutations([0, 1, 2, 3]), drop=st.integers(0, 3), which=st.integers(0, 3), **shared), quick=6000)
def others_do_not_matter(case, ctx):
    c = case
    els = c["els"]
    B = len(els)
    i = c["which"] % B
    ctx.event(c["op"])
    ctx.nt(any(e != els[0] for e in els))
    cache = {}
    what = lambda t: "%s: element %d of %d, %s" % (c["op"], i, B, t)
    try:
        _, want = run(c, els)
    except (torch.linalg.LinAlgError, RuntimeError) as e:
        if "singular" in str(e):
            raise Reject
        raise
    check(len(want) == B, "%s: %d results for %d elements", c["op"], len(want), B)
    # in another order
    p = [j for j in c["order"] if j < B]
    _, got = run(c, [els[j] for j in p])
    for a, j in enumerate(p):
        agree(c, got[a], want[j], els[j], cache, True, "%s: element %d of %d, given at place %d" % (c["op"], j, B, a), ctx)
    # with others in the place of all others
    o = [dict(x, n=x["n"] if c["resize"] else els[j]["n"]) for j, x in enumerate(c["others"][:B])]
    o[i] = els[i]
    try:
        _, got = run(c, o)
    except (torch.linalg.LinAlgError, RuntimeError) as e:
        if "singular" not in str(e):
            raise
        got = None
    if got:
        fixed_sizes = c["op"] in ("frame maps", "formulas") or not c["resize"] and c["op"] in ("cloud arithmetic", "cloud motion", "padding", "registration", "association")
        agree(c, got[i], want[i], els[i], cache, fixed_sizes, what("with the others replaced"), ctx)
    # with one element left out, another one twice
    q = [j for j in range(B) if j == i or j != c["drop"] % B] + [i]
    _, got = run(c, [els[j] for j in q])
    for a, j in enumerate(q):
        agree(c, got[a], want[j], els[j], cache, False, "%s: element %d of %d, in a batch of elements %s" % (c["op"], j, B, q), ctx)
    # alone
    agree(c, alone(c, els[i], cache)[0], want[i], els[i], cache, False, what("alone"), ctx)


@test("C32", fixed(els=st.lists(element, min_size=2, max_size=3), which=st.integers(0, 2), **shared), quick=2500)
def gradients_stay_within_an_element(case, ctx):
    c = case
    els = c["els"]
    B = len(els)
    i = c["which"] % B
    ctx.event(c["op"])

    def gradients(es, a):
        k, out = run(c, es, True)
        y = 0
        for j, v in enumerate(out[a]):
            if torch.is_tensor(v) and v.is_floating_point() and v.requires_grad and v.numel():
                y = y + (v * T(arr(j, tuple(v.shape), 0.5, 1.5, "w"))).sum()
        if not torch.is_tensor(y):
            return [[None] * len(L) for L in k.leaves]      # constant
        flat = [t for L in k.leaves for t in L]
        g = iter(torch.autograd.grad(y, flat, allow_unused=True))
        return [[next(g) for _ in L] for L in k.leaves]
    try:
        g = gradients(els, i)
        h = gradients([els[i]], 0)
    except (torch.linalg.LinAlgError, RuntimeError) as e:
        if "singular" in str(e):
            raise Reject
        raise
    if all(t is None for L in g for t in L):
        ctx.event("without gradient")
    else:
        ctx.nt(any(e != els[0] for e in els))
    for j in range(B):
        if j != i:
            for t in g[j]:
                check(t is None or not t.any(), "%s: the results of element %d of %d have a gradient for the inputs of element %d", c["op"], i, B, j)
    slack = None
    for n, (a, b) in enumerate(zip(g[i], h[0])):
        a = torch.zeros(()) if a is None else a
        b = torch.zeros(()) if b is None else b
        size = max(1.0, float(b.abs().max()) if b.numel() else 1.0)
        if a.shape != b.shape and not (a.any() or b.any()):
            continue
        if a.shape == b.shape and bool(((a - b).abs() <= 1e-4 * size).all()):
            continue
        if slack is None:
            slack = []
            for k in (1, 2, 3, 4):
                JIG[0] = k
                try:
                    slack.append(gradients([els[i]], 0)[0])
                finally:
                    JIG[0] = 0
        d = [spread(b, [torch.zeros(()) if s[n] is None else s[n]]) for s in slack]
        if any(x is None for x in d) or float((a - b).abs().max()) <= 20 * max(d) + 1e-4 * size:
            ctx.event("at a threshold")
            continue
        fail("%s: gradient of element %d of %d for its input %d is not as alone: %r, expected %r", c["op"], i, B, n, float((a - b).abs().max()), size)
