"""C28: a result depends on the values passed and on nothing else."""
import hashlib, random
import numpy as np
import torch
from hypothesis import strategies as st
import core
from core import *
from core import T
import fresh, pcs, rgbds, rooms
from checks import c25
from checks.c25 import look, compare, ENTRIES, unpack, warm, seeds
from gradslam import Pointclouds, RGBDImages
from gradslam.datasets import datautils as du
from gradslam.geometry import geometryutils as gu, projutils as pj, se3utils as se
from gradslam.odometry import icputils
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
from gradslam.slam import fusionutils as fu
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.structures.structutils import list_to_padded, padded_to_list
from gradslam.structures.utils import pointclouds_from_rgbdimages

rule("C28", "A case is an operation with valid arguments of drawn sizes, and what happens before the call under test: other operations on other data, refused calls, an earlier call of the same operation on equal "
     "arguments whose results are then overwritten, views of the arguments read or not, another state of the random number generators, gradient recording on or off, another memory layout of the tensors; "
     "or two sequences given in turns to one odometry provider or SLAM object. The result must equal, number by number, that of the plain call on fresh arguments (within rounding for another layout). "
     "Non-trivial: the call returned and the two calls differed in at least one of these circumstances.")

# the flags of an entry are bits of s; Hypothesis prefers small numbers, so they are mixed first
seeds = seeds.map(lambda s: int.from_bytes(hashlib.sha1(b"%d" % s).digest()[:4], "big"))
base = dict(B=st.integers(1, 3), s=seeds, n=st.integers(1, 4))

# ---------------------------------------------------------------- functions the C25 entries do not cover
PLAIN = {}


def plain(f):
    def entry(c):
        fn, args = f(c)
        return (lambda a: fn(**a)), args, {}, [args]
    entry.__name__ = f.__name__
    PLAIN[f.__name__] = entry
    return f


def lead(c):
    return [(c["B"],), (c["B"], c["n"]), (2, c["B"], c["n"])][c["s"] % 3]


@plain
def quaternions(c):
    q = T(arr(c["s"], lead(c) + (4,), -1, 1, "q") + 0.05)
    return [gu.normalize_quaternion, gu.quaternion_to_rotation_matrix][(c["s"] >> 3) % 2], dict(quaternion=q)


@plain
def axis_angle(c):
    return gu.quaternion_to_axisangle, dict(quat=T(arr(c["s"], (c["B"], 4), -1, 1, "q") + 0.05))


@plain
def twists(c):
    k = (c["s"] >> 3) % 4
    x = arr(c["s"], (6 if k % 2 else 3,), -1, 1, "x") * [1, 1e-9, 3, 0][(c["s"] >> 6) % 4]
    return [se.so3_hat, se.se3_hat, se.so3_exp, se.se3_exp][k], {["omega", "xi"][k % 2]: T(x)}


@plain
def point_transforms(c):
    B, n = c["B"], c["n"]
    P = T(np.stack([pose(c["s"], tag="%d" % b) for b in range(B)]))
    x = T(arr(c["s"], (B, n, 3), -2, 2, "x"))
    if (c["s"] >> 3) % 2:
        return gu.transform_pts_3d, dict(pts_b=x[0], t_ab=P[0])
    return gu.transform_pts_nd_KF, dict(pts=x, tform=P)


@plain
def relative(c):
    P = lambda tag: T(np.stack([pose(c["s"], tag="%s%d" % (tag, b)) for b in range(c["B"])]))
    k = (c["s"] >> 3) % 3
    if k == 0:
        return gu.relative_transform_3d, dict(trans_01=P("a"), trans_02=P("b"))
    return gu.relative_transformation, dict(trans_01=P("a"), trans_02=P("b"), orthogonal_rotations=k == 1)


@plain
def pixel_coords(c):
    x = T(arr(c["s"], (c["B"], 3, 2 + c["n"], 2), -1, 1, "x"))
    h, w = 2 + c["s"] % 5, 3 + (c["s"] >> 4) % 5
    if (c["s"] >> 8) % 2:
        return gu.normalize_pixel_coords, dict(pixel_coords=x, height=h, width=w)
    return gu.unnormalize_pixel_coords, dict(pixel_coords_norm=x, height=h, width=w)


@plain
def meshgrid(c):
    return gu.create_meshgrid, dict(height=2 + c["s"] % 4, width=2 + (c["s"] >> 4) % 4, normalized_coords=bool((c["s"] >> 8) % 2))


@plain
def camera_pixels(c):
    B, h, w = c["B"], 2 + c["n"], 3 + c["n"]
    k = (c["s"] >> 3) % 3
    x = arr(c["s"], (B, h, w, 3), 0.5, 2, "x")
    K = np.stack([rgbds.kmat(c["s"], h, w, "k%d" % b) for b in range(B)])
    if k == 0:
        return gu.cam2pixel, dict(cam_coords_src=T(x), dst_proj_src=T(K[0]))
    if k == 1:
        return gu.cam2pixel_KF, dict(cam_coords_src=T(x[:, 0]), P=T(K))
    x[..., 2] = 1
    return gu.pixel2cam, dict(depth=T(arr(c["s"], (B, 1, h, w), 0.5, 2, "d")), intrinsics_inv=T(np.linalg.inv(K[0])), pixel_coords=T(x))


@plain
def padding(c):
    xs = [T(arr(c["s"], (1 + (c["s"] >> (3 * b)) % 4, 3), -1, 1, "x%d" % b)) for b in range(c["B"])]
    if (c["s"] >> 12) % 2:
        return list_to_padded, dict(x=xs, pad_size=[None, (5, 4)][(c["s"] >> 13) % 2], pad_value=[0.0, 2.5][(c["s"] >> 14) % 2])
    return padded_to_list, dict(x=T(arr(c["s"], (c["B"], 4, 3), -1, 1, "x")), split_size=[len(x) for x in xs])


@plain
def images(c):
    x = arr(c["s"], (c["B"], 4, 5, 3), 0, 255, "x")
    k = (c["s"] >> 3) % 2
    v = x if (c["s"] >> 4) % 2 else T(x)
    return [du.normalize_image, du.channels_first][k], dict(rgb=v)


@plain
def camera_matrices(c):
    k = (c["s"] >> 3) % 2
    nump = (c["s"] >> 4) % 2
    if k:
        K = np.stack([rgbds.kmat(c["s"], 4, 5, "k%d" % b) for b in range(c["B"])])
        return du.scale_intrinsics, dict(intrinsics=K if nump else T(K), h_ratio=0.5, w_ratio=[2, 0.75][(c["s"] >> 5) % 2])
    q = arr(c["s"], (c["B"], 7), -1, 1, "q")
    return du.pointquaternion_to_homogeneous, dict(pointquaternions=q if nump else T(q))


@plain
def trajectories(c):
    P = [pose(c["s"], tag="%d" % b) for b in range(c["B"])]
    return du.poses_to_transforms, dict(poses=P if (c["s"] >> 3) % 2 else np.stack(P))


@plain
def labels(c):
    pal = {"c%d" % k: (k, 2 * k, 255 - k) for k in range(4)}
    return du.create_label_image, dict(prediction=(arr(c["s"], (4, 5), 0, 4, "l")).astype(np.int64), color_palette=pal)


@plain
def cloud_copies(c):
    x, _ = c25.pc_of(c, ["list", "padded"][(c["s"] >> 9) % 2], [a for k, a in enumerate(pcs.ATTRS) if (c["s"] >> k) & 1])
    f = [lambda x: x.clone(), lambda x: x.detach(), lambda x: x.to(here(), copy=True) if core.DEV[0] else x.cpu(), lambda x: x.to(here()), lambda x: x[0]][(c["s"] >> 11) % 5]
    return f, dict(x=x)


@plain
def exports(c):
    """Everything there is, for display; colors in either range."""
    x, _ = c25.pc_of(c, ["list", "padded"][(c["s"] >> 9) % 2], [a for k, a in enumerate(pcs.ATTRS) if (c["s"] >> k) & 1])
    if (c["s"] >> 11) % 2 and x.has_colors:
        x.colors_list = [200 * v for v in x.colors_list]
    nums = lambda *vs: [None if v is None else np.array(v, np.float64) for v in vs]

    def f(x):
        if (c["s"] >> 12) % 2:
            o = x.open3d(0, include_normals=True)
            return nums(o.points, o.colors, o.normals)
        o = x.plotly(0, as_figure=False)
        return nums(o.x, o.y, o.z, o.marker.color)

    def g(x):
        o = x.plotly(0, as_figure=False)
        return [[q.source for q in fr["data"]] for fr in o]
    if (c["s"] >> 13) % 4 == 0:
        return g, dict(x=c25.fr_of(c, L=1 + (c["s"] >> 9) % 2)[0])
    return f, dict(x=x)


@plain
def frame_copies(c):
    x, _ = c25.fr_of(c, L=1 + (c["s"] >> 9) % 2)
    f = [lambda x: x.clone(), lambda x: x.detach(), lambda x: x.to(here(), copy=True) if core.DEV[0] else x.cpu(), lambda x: x.to(here()), lambda x: x.to_channels_first(True), lambda x: x.to_channels_last(True), lambda x: x[0, 0]][(c["s"] >> 11) % 7]
    return f, dict(x=x)


SIZES = [(4, 6), (6, 4), (3, 8), (8, 3), (2, 12), (12, 2)]


@plain
def frame_maps(c):
    x, _ = c25.fr_of(c, L=1 + (c["s"] >> 9) % 2, size=SIZES[(c["s"] >> 11) % 6])
    f = [lambda x: (x.vertex_map, x.normal_map), lambda x: (x.global_vertex_map, x.global_normal_map, x.valid_depth_mask), lambda x: x.pixel_pos if x.vertex_map is not None else None][(c["s"] >> 14) % 3]
    return f, dict(x=x)


@plain
def nothing_in_view(c):
    """Association and fusion where no point is active, none is similar, or there is no map at all."""
    k = (c["s"] >> 9) % 4
    mp, x = c25.good_map(c)
    t = T(np.zeros((0, 4)), torch.int64)
    far = (c["s"] >> 12) % 3
    if far == 0:
        mp = Pointclouds(**dev_kw())
    elif far == 1:
        mp = mp - 1000.0
    else:
        mp = mp + 1000.0
    d = dict(pointclouds=mp, rgbdimages=x)
    f = [lambda a: fu.find_active_map_points(**a), lambda a: fu.find_similar_map_points(pc2im_bnhw=t, dist_th=0.1, dot_th=0.5, **a), lambda a: fu.find_best_unique_correspondences(pc2im_bnhw=t, **a),
         lambda a: fu.find_correspondences(dist_th=0.1, dot_th=0.5, **a)]
    if (c["s"] >> 14) % 3 == 0:
        f = [lambda a: fu.fuse_with_map(pc2im_bnhw=t, sigma=0.6, **a), lambda a: fu.update_map_fusion(dist_th=0.1, dot_th=0.5, sigma=0.6, **a),
             lambda a: icputils.downsample_pointclouds(a["pointclouds"], t, 1 + c["n"]) if far else fu.find_active_map_points(**a), lambda a: pointclouds_from_rgbdimages(x)]
    return (lambda **a: f[k](a)), d


SKIP = ("set_on_empty", "index_empty", "display_index")   # nothing is computed; sampling for display
ALL = dict({k: f for k, f in ENTRIES.items() if k not in SKIP}, **PLAIN)
NAMES = sorted(ALL)
# their results hang on the solution of a linear system or on nearest neighbours: rounding may be amplified
LOOSE = ("ICP", "gradICP", "linear_system", "ICPOdometryProvider", "GradICPOdometryProvider", "slam_forward", "slam_step")


SETTINGS = ("odom", "dsratio", "numiters", "damp", "dist_thresh", "lambda_max", "B", "B2", "nu", "dist_th", "dot_th", "sigma", "device")   # as given by the caller


def see(x):
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.copy())
    if isinstance(x, torch.nn.Module):
        return (type(x).__name__, {k: str(v) for k, v in vars(x).items() if k in SETTINGS})
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [see(v) for v in x]
    if isinstance(x, dict):
        return {k: see(v) for k, v in x.items()}
    if isinstance(x, Pointclouds) and not x.has_points:
        return ("no points", len(x))
    return look(x)


def world():
    """Global state nobody asked the operations to change."""
    n = np.random.get_state()
    return [torch.get_rng_state().numpy().copy(), n[1].copy(), n[2], str(random.getstate()[1][:5]), str(torch.get_default_dtype()), torch.is_grad_enabled(), torch.get_num_threads(),
            torch.is_inference_mode_enabled(), str(sorted(np.geterr().items())), str(np.get_printoptions()["precision"]), torch.are_deterministic_algorithms_enabled()]


def stir(k):
    torch.manual_seed(k % 1000)
    np.random.seed(k % 1000 + 1)
    random.seed(k % 1000 + 2)


def scribble(x, seen=None):
    """Overwrite everything in a result."""
    with torch.no_grad():
        if torch.is_tensor(x):
            if x.numel() and x.dtype != torch.bool and not x._is_view():
                x.fill_(77 if not x.dtype.is_floating_point else 77.25)
            elif x.numel():
                x.copy_(torch.ones_like(x) if x.dtype == torch.bool else torch.full_like(x, 77))
        elif isinstance(x, np.ndarray):
            if x.flags.writeable:
                x[...] = 77 % 50
        elif isinstance(x, (list, tuple)):
            for v in x:
                scribble(v)
        elif isinstance(x, dict):
            for v in x.values():
                scribble(v)
        elif isinstance(x, Pointclouds):
            if x.has_points:
                for a in ("points",) + pcs.ATTRS:
                    v = getattr(x, a + "_list")
                    if v is not None:
                        scribble(list(v))
                    v = getattr(x, a + "_padded")
                    if v is not None:
                        scribble(v)
        elif isinstance(x, RGBDImages):
            for a in ("rgb_image", "depth_image", "intrinsics", "poses", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "valid_depth_mask", "pixel_pos"):
                v = getattr(x, a)
                if v is not None:
                    scribble(v)


def do(name, case, layout=None):
    core.LAYOUT[0] = layout
    try:
        return unpack(ALL[name](case))[:4]
    finally:
        core.LAYOUT[0] = None


def attempt(name, case):
    """Something else happening: any operation on any data; what it does is not the question here."""
    try:
        call, args, ways, watched = do(name, case)
        if ways and (case["s"] >> 20) % 3 == 0:
            c25.apply(dict(case, pick=case["s"] >> 8), args, ways)
        r = call(args)
        scribble(r)
    except (Reject, Violation):
        pass
    except Exception:
        pass


other = fixed(e=st.sampled_from(NAMES), **base)


@test("C28", fixed(e=st.sampled_from(NAMES), between=st.lists(other, max_size=3), same=st.booleans(), warm=st.booleans(), grad=st.booleans(), **base), quick=8000)
def again(case, ctx):
    """The same call on equal arguments, after other things have happened."""
    name = case["e"]
    stir(1)
    call, args, _, watched = do(name, case)
    before = world()
    first = call(args)
    compare(world(), before, "%s: random number generators, number type or gradient mode" % name)
    want = see([first, watched])
    scribble(first)
    scribble(watched)
    for o in case["between"]:
        attempt(o["e"], o)
    if case["same"]:      # the same operation on other data of the same sizes
        attempt(name, dict(case, s=case["s"] ^ 0x155000))
    stir(case["s"])
    call, args, _, watched = do(name, case)
    warm(watched, case["warm"])
    torch.set_grad_enabled(case["grad"])
    try:
        second = call(args)
    finally:
        torch.set_grad_enabled(True)
    ctx.nt(bool(case["between"]) or case["same"] or case["warm"] or not case["grad"])
    ctx.event(name)
    compare(want, see([second, watched]), "%s: a second call on equal arguments" % name)


def kept(name, case, args, watched):
    """What a call must leave alone: everything but the object an in-place form works on."""
    inplace = bool((case["s"] >> 8) & 1)
    gone = dict(fuse=("pointclouds",), aggregate=("pointclouds",), update_fusion=("pointclouds",), slam_step=("pointclouds", "live_frame")).get(name, ()) if inplace else ()
    objs = {k: v for k, v in args.items() if k not in gone}
    if (name.startswith("op_") and not name.endswith("_")) or name.startswith("index_"):
        objs["receiver"] = watched[0]
    return objs


@test("C28", fixed(e=st.sampled_from(NAMES), warm=st.booleans(), layout=st.sampled_from([None, None, 0, 1, 2, 3]), **base), quick=6000)
def arguments_are_left_alone(case, ctx):
    name = case["e"]
    call, args, _, watched = do(name, case, case["layout"] if name not in LOOSE else None)
    want = see(kept(name, case, *do(name, case)[1::2]))
    warm([v for v in watched], case["warm"])
    r = call(args)
    ctx.nt()
    ctx.event(name)
    compare(want, see(kept(name, case, args, watched)), "%s: after the call, argument" % name)


def alone(case):
    """What the call gives; run in a process that has done nothing else."""
    stir(1)
    call, args, _, watched = do(case["e"], case)
    warm(watched, case["warm"])
    return see([call(args), watched])


core.PRISTINE["alone"] = alone


@test("C28", fixed(e=st.sampled_from(NAMES), between=st.lists(other, max_size=3), warm=st.booleans(), **base), quick=2500)
def as_in_a_new_process(case, ctx):
    """Here, after everything this process has done so far and three more operations, and in a process of its own."""
    for o in case["between"]:
        attempt(o["e"], o)
    got = alone(case)
    want = fresh.ask("C28", "alone", case)
    check(want[0] == "ok", "%s in a new process: %s", case["e"], want[1:])
    ctx.nt()
    ctx.event(case["e"])
    compare(want[1], got, "%s after other operations, compared with a new process" % case["e"])


def near(a, b, what):
    if isinstance(a, dict):
        check(isinstance(b, dict) and set(a) == set(b), "%s changed", what)
        for k in a:
            near(a[k], b[k], "%s.%s" % (what, k))
    elif isinstance(a, (list, tuple)):
        check(type(a) is type(b) and len(a) == len(b), "%s changed", what)
        for i, (p, q) in enumerate(zip(a, b)):
            near(p, q, "%s[%d]" % (what, i))
    elif isinstance(a, np.ndarray):
        check(isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype, "%s: shape or type differs", what)
        if a.dtype.kind == "f":
            check((np.isfinite(a) == np.isfinite(b)).all(), "%s: finite entries differ", what)
            f = np.isfinite(a)
            close(b[f], a[f], what, rtol=2e-5, atol=2e-5, scale=np.abs(a[f]).max() if f.any() else 0)
        else:
            same(b, a, what)
    else:
        check(type(a) is type(b) and (a is b or a == b), "%s: %r, expected %r", what, b, a)


@test("C28", fixed(e=st.sampled_from([k for k in NAMES if k not in LOOSE]), layout=st.integers(0, 3), **base), quick=8000)
def another_memory_layout(case, ctx):
    name = case["e"]
    call, args, _, watched = do(name, case)
    want = see([call(args), watched])
    call, args, _, watched = do(name, case, case["layout"])
    got = see([call(args), watched])
    ctx.nt()
    ctx.event(name)
    near(want, got, "%s on tensors in another memory layout" % name)


# ---------------------------------------------------------------- objects used for more than one sequence
view = fixed(B=st.integers(1, 2), L=st.integers(1, 3), H=st.integers(6, 9), W=st.integers(6, 10), kind=st.sampled_from(["box", "ell"]), mot=st.sampled_from([0.0, 0.01, 0.05]),
             holes=st.sampled_from([0.0, 0.2]), cf=st.booleans(), start=st.booleans(), s=seeds)
method = fixed(odom=st.sampled_from(["gt", "icp", "gradicp"]), pf=st.booleans(), ds=st.sampled_from([1, 2]), iters=st.integers(1, 4), th=st.sampled_from([None, 1]), lm=st.sampled_from([None, (1.5, 0.5, 2.0, 20.0)]))


def first_frames(c, m):
    """The model of the sequence, without poses for some."""
    x = rooms.views(c)[0]
    if m["odom"] != "gt" and not c["start"] and c["s"] % 3:
        x.poses = None
    return rgbds.build(x)


def new_slam(c):
    kw = dict(odom=c["odom"], dsratio=c["ds"], numiters=c["iters"], damp=1e-3, dist_thresh=c["th"])
    if c["lm"]:
        kw.update(zip(("lambda_max", "B", "B2", "nu"), c["lm"]))
    return (PointFusion if c["pf"] else ICPSLAM)(**kw)


class Run:
    """One sequence on its way through a SLAM object, step by step."""

    def __init__(self, c, inplace):
        m, start, true = rooms.views(c)
        self.x = rgbds.build(m)
        self.inplace = inplace
        self.pc, self.prev, self.l, self.poses = Pointclouds(device=here()), None, 0, []

    def done(self):
        return self.l >= self.x.shape[1]

    def step(self, slam):
        fr = self.x[:, self.l]
        self.pc, p = slam.step(self.pc, fr, self.prev, inplace=self.inplace)
        fr.poses = p
        self.poses.append(p)
        self.prev = fr if slam.odom != "gt" else None
        self.l += 1

    def result(self):
        return see([self.pc, self.poses])


@test("C28", fixed(m=method, views=st.lists(view, min_size=2, max_size=3), order=st.lists(st.integers(0, 2), max_size=9), inplace=st.booleans()), quick=700)
def one_slam_object_for_several_sequences(case, ctx):
    """Sequences stepped in turns, each with its own map, as if each had a SLAM object of its own."""
    want = []
    try:
        for c in case["views"]:
            r, s = Run(c, case["inplace"]), new_slam(case["m"])
            while not r.done():
                r.step(s)
            want.append(r.result())
    except (ValueError, IndexError, RuntimeError):
        raise Reject   # too little to register; C15 and C25 judge that
    s = new_slam(case["m"])
    settings = see(s)
    runs = [Run(c, case["inplace"]) for c in case["views"]]
    turns = [k for k in case["order"] if k < len(runs)] + [k for k, r in enumerate(runs) for _ in range(9)]
    taken = []
    for k in turns:
        if not runs[k].done():
            runs[k].step(s)
            taken.append(k)
    ctx.nt(any(a != b for a, b in zip(taken, taken[1:])))
    ctx.event(case["m"]["odom"] + (" fusing" if case["m"]["pf"] else " aggregating"))
    for k, r in enumerate(runs):
        compare(want[k], r.result(), "map and poses of sequence %d of a SLAM object used for %d" % (k, len(runs)))
    compare(settings, see(s), "settings of the SLAM object")


@test("C28", fixed(m=method, views=st.lists(view, min_size=2, max_size=3), order=st.lists(st.integers(0, 2), min_size=2, max_size=4)), quick=700)
def whole_sequences_in_any_order(case, ctx):
    want = []
    try:
        for c in case["views"]:
            want.append(see(new_slam(case["m"])(first_frames(c, case["m"]))))
    except (ValueError, IndexError, RuntimeError):
        raise Reject
    s = new_slam(case["m"])
    order = [k % len(want) for k in case["order"]]
    ctx.nt(len(set(order)) > 1)
    ctx.event(case["m"]["odom"] + (" fusing" if case["m"]["pf"] else " aggregating"))
    for k in order:
        r = s(first_frames(case["views"][k], case["m"]))
        compare(want[k], see(r), "sequence %d given to a SLAM object after others" % k)
        scribble(r)


@test("C28", fixed(m=method, views=st.lists(view, min_size=2, max_size=3), order=st.lists(st.integers(0, 2), min_size=2, max_size=5)), quick=500)
def one_provider_for_several_registrations(case, ctx):
    m = case["m"]
    kw = dict(numiters=m["iters"], damp=1e-3, dist_thresh=m["th"])
    if m["odom"] == "gradicp" and m["lm"]:
        kw.update(zip(("lambda_max", "B", "B2", "nu"), m["lm"]))
    new = lambda: GroundTruthOdometryProvider() if m["odom"] == "gt" else (ICPOdometryProvider if m["odom"] == "icp" else GradICPOdometryProvider)(**kw)

    def pair(c):
        x = rgbds.build(rooms.views(dict(c, L=2, holes=0.0))[0])
        if m["odom"] == "gt":
            return x[:, 0], x[:, 1]
        return tuple(icputils.downsample_rgbdimages(x[:, l], m["ds"]) for l in range(2))
    try:
        want = [see(new().provide(*pair(c))) for c in case["views"]]
    except (ValueError, IndexError, RuntimeError):
        raise Reject
    p = new()
    settings = {k: str(v) for k, v in vars(p).items() if k in SETTINGS}
    order = [k % len(want) for k in case["order"]]
    ctx.nt(len(set(order)) > 1)
    ctx.event(m["odom"])
    for k in order:
        r = p.provide(*pair(case["views"][k]))
        compare(want[k], see(r), "pair %d given to an odometry provider after others" % k)
        scribble(r)
    compare(settings, {k: str(v) for k, v in vars(p).items() if k in SETTINGS}, "settings of the odometry provider")
