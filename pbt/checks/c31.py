"""C31: arguments by name, by position or left out."""
import hashlib
import numpy as np
import torch
from hypothesis import strategies as st
import core
from core import *
from core import T
import pcs, regs, rgbds
from checks.c25 import look, compare
from checks.c28 import seeds
from gradslam import Pointclouds, RGBDImages
from gradslam.config import CfgNode
from gradslam.datasets import datautils as du, tumutils
from gradslam.geometry import geometryutils as gu, projutils as pj, se3utils as se
from gradslam.odometry import icputils
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
from gradslam.slam import fusionutils as fu
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.structures.structutils import list_to_padded, padded_to_list, numpy_to_plotly_image, img_to_b64str
from gradslam.structures.utils import pointclouds_from_rgbdimages
import dsets

rule("C31", "A case is a public function, constructor or method with generated arguments, tuned so that thresholds, dampings, iteration counts and epsilons of about the documented size make a difference. The call with every "
     "argument named, and the documented default written out for those that have one, is the reference; the call under test names some arguments in any order, passes some by position in the documented order and leaves out "
     "some whose value is the documented default. Both must give the same results bit for bit, or raise the same type of error. Non-trivial: some argument was left out or passed by position.")

REQ = object()      # no default
SPEC = {}           # name -> (documented parameters in order, how many of them may be positional, generator)


def sig(name, *params, kw_only=()):
    """params: names or (name, documented default); kw_only: (name, default) pairs. The generator gives, for a seed, the
    function, its required arguments and other values that the optional ones may take."""
    norm = lambda ps: [(p, REQ) if isinstance(p, str) else p for p in ps]

    def deco(f):
        SPEC[name] = (norm(params) + norm(kw_only), len(params), f)
        return f
    return deco


def vals(s, shape, lo=-1.0, hi=1.0, tag="x"):
    return T(arr(s, shape, lo, hi, tag))


def pick(s, k, *options):
    return options[(s >> k) % len(options)]


def unit(s, n, tag, scale=1.0):
    v = arr(s, (n, 3), -1, 1, tag) + 1e-3
    return T(v / np.linalg.norm(v, axis=1, keepdims=True) * scale)


# ---------------------------------------------------------------- geometry
def homog(mod):
    def f(s):
        p = arr(s, (3, 4), -1, 1, "p")
        p[:, 3] *= pick(s, 0, 3e-6, 1.5e-6, 1)
        return mod.unhomogenize_points, dict(pts=T(p)), dict(eps=1e-3)
    return f


sig("geometryutils.unhomogenize_points", "pts", ("eps", 1e-6))(homog(gu))
sig("projutils.unhomogenize_points", "pts", ("eps", 1e-6))(homog(pj))


@sig("normalize_quaternion", "quaternion", ("eps", 1e-12))
def _(s):
    return gu.normalize_quaternion, dict(quaternion=vals(s, (2, 4)) * pick(s, 0, 1, 1e-12, 3e-12)), dict(eps=0.5)


@sig("relative_transformation", "trans_01", "trans_02", ("orthogonal_rotations", False))
def _(s):
    P = [np.stack([pose(s, tag="%s%d" % (t, b)) for b in range(2)]) for t in "ab"]
    if s & 1:
        P[0][:, 0, 0] += 0.5
    return gu.relative_transformation, dict(trans_01=T(P[0]), trans_02=T(P[1])), dict(orthogonal_rotations=True)


@sig("relative_transform_3d", "trans_01", "trans_02")
def _(s):
    return gu.relative_transform_3d, dict(trans_01=T(pose(s, tag="a")), trans_02=T(pose(s, tag="b"))), {}


@sig("compose_transformations", "trans_01", "trans_12")
def _(s):
    return gu.compose_transformations, dict(trans_01=T(pose(s, tag="a")), trans_12=T(pose(s, tag="b"))), {}


@sig("compose_transforms_3d", "trans1", "trans2")
def _(s):
    return gu.compose_transforms_3d, dict(trans1=T(pose(s, tag="a")), trans2=T(pose(s, tag="b"))), {}


@sig("transform_pointcloud", "pointcloud", "transform")
def _(s):
    return gu.transform_pointcloud, dict(pointcloud=vals(s, (4, 3)), transform=T(pose(s))), {}


@sig("transform_normals", "normals", "transform")
def _(s):
    return gu.transform_normals, dict(normals=vals(s, (4, 3)), transform=T(pose(s))), {}


@sig("transform_pts_3d", "pts_b", "t_ab")
def _(s):
    return gu.transform_pts_3d, dict(pts_b=vals(s, (4, 4)), t_ab=T(pose(s))), {}


@sig("transform_pts_nd_KF", "pts", "tform")
def _(s):
    return gu.transform_pts_nd_KF, dict(pts=vals(s, (1, 4, 3)), tform=T(pose(s))[None]), {}


@sig("create_meshgrid", "height", "width", ("normalized_coords", True))
def _(s):
    return gu.create_meshgrid, dict(height=2 + s % 4, width=2 + (s >> 3) % 4), dict(normalized_coords=False)


@sig("normalize_pixel_coords", "pixel_coords", "height", "width")
def _(s):
    return gu.normalize_pixel_coords, dict(pixel_coords=vals(s, (2, 3, 2), 0, 9), height=2 + s % 4, width=7 + (s >> 3) % 4), {}


@sig("unnormalize_pixel_coords", "pixel_coords_norm", "height", "width")
def _(s):
    return gu.unnormalize_pixel_coords, dict(pixel_coords_norm=vals(s, (2, 3, 2)), height=2 + s % 4, width=7 + (s >> 3) % 4), {}


@sig("cam2pixel", "cam_coords_src", "dst_proj_src", ("eps", 1e-6))
def _(s):
    x = arr(s, (3, 4, 3), -1, 1, "x")
    x[..., 2] = np.abs(x[..., 2]) * pick(s, 0, 1, 1e-5, 1e-4)
    return gu.cam2pixel, dict(cam_coords_src=T(x), dst_proj_src=T(rgbds.kmat(s, 3, 4))), dict(eps=0.5)


@sig("cam2pixel_KF", "cam_coords_src", "P", ("eps", 1e-6))
def _(s):
    x = arr(s, (1, 4, 3), -1, 1, "x")
    x[..., 2] = np.abs(x[..., 2]) * pick(s, 0, 1, 1e-5, 3e-6)
    return gu.cam2pixel_KF, dict(cam_coords_src=T(x), P=T(rgbds.kmat(s, 3, 4))[None]), dict(eps=0.5)


@sig("pixel2cam", "depth", "intrinsics_inv", "pixel_coords")
def _(s):
    x = arr(s, (3, 4, 3), 0, 3, "x")
    x[..., 2] = 1
    return gu.pixel2cam, dict(depth=vals(s, (3, 4), 0.5, 2, "d"), intrinsics_inv=T(np.linalg.inv(rgbds.kmat(s, 3, 4))), pixel_coords=T(x)), {}


@sig("project_points", "cam_coords", "proj_mat", ("eps", 1e-6))
def _(s):
    return pj.project_points, dict(cam_coords=vals(s, (4, 4), 0.1, 2) * T([1, 1, pick(s, 0, 1, 1e-6, 1e-5), 1]), proj_mat=T(rgbds.kmat(s, 3, 4))), {}


@sig("unproject_points", "pixel_coords", "intrinsics_inv", "depths")
def _(s):
    return pj.unproject_points, dict(pixel_coords=vals(s, (3, 3), 0, 4), intrinsics_inv=T(np.linalg.inv(rgbds.kmat(s, 3, 4)[:3, :3])), depths=vals(s, (3,), 0.5, 2, "d")), {}


@sig("inverse_intrinsics", "K", ("eps", 1e-6))
def _(s):
    return pj.inverse_intrinsics, dict(K=T(rgbds.kmat(s, 3, 4)) * T(np.diag([pick(s, 0, 1, 1e-4, 1e-2)] * 2 + [1, 1]))), dict(eps=0.5)


# ---------------------------------------------------------------- images and files
@sig("pointquaternion_to_homogeneous", "pointquaternions", ("eps", 1e-12))
def _(s):
    x = arr(s, (3, 7), -1, 1, "x")
    x[:, 3:] *= pick(s, 0, 1, 1e-12, 1e-11)
    return du.pointquaternion_to_homogeneous, dict(pointquaternions=T(x)), dict(eps=0.3)


@sig("scale_intrinsics", "intrinsics", "h_ratio", "w_ratio")
def _(s):
    return du.scale_intrinsics, dict(intrinsics=T(rgbds.kmat(s, 3, 4)), h_ratio=0.5, w_ratio=pick(s, 0, 2, 0.75)), {}


def on_file(fn, text):
    """fn(filename=...) with the file written for this call only."""
    def call(*a, **k):
        with dsets.scratch() as d:
            p = os.path.join(d, "file.txt")
            dsets.write(p, text)
            if a:
                return fn(p, *a[1:], **k)
            k["filename"] = p
            return fn(**k)
    return call


@sig("read_trajectory", "filename", ("matrix", True))
def _(s):
    t = "\n".join("%.4f " % (1 + i) + " ".join("%.4f" % x for x in arr(s, (7,), -1, 1, "t%d" % i)) for i in range(3))
    return on_file(tumutils.read_trajectory, t), dict(filename=""), dict(matrix=False)


@sig("read_file_list", "filename", ("start", None), ("end", None))
def _(s):
    t = "\n".join("%d.%06d f%d.png" % (i, s % 1000, i) for i in range(6))
    return on_file(tumutils.read_file_list, t), dict(filename=""), dict(start=1 + s % 2, end=3 + (s >> 2) % 3)


@sig("numpy_to_plotly_image", "img", ("name", None), ("is_depth", False), ("scale", None), ("quality", 95))
def _(s):
    d = (s >> 5) & 1
    img = np.clip(arr(s, (9, 8) if d else (9, 8, 3), 0, 255), 0, 255).astype(np.uint8)
    return (lambda *a, **k: numpy_to_plotly_image(*a, **k).to_json()), dict(img=img), dict(name="picture", is_depth=bool(d), scale=3, quality=40)


@sig("img_to_b64str", "img", ("quality", 95))
def _(s):
    return img_to_b64str, dict(img=np.clip(arr(s, (9, 8, 3), 0, 255), 0, 255).astype(np.uint8)), dict(quality=40)


# ---------------------------------------------------------------- structures
@sig("list_to_padded", "x", ("pad_size", None), ("pad_value", 0.0), ("equisized", False))
def _(s):
    eq = (s >> 4) & 1
    x = [vals(s, (3 if eq else 1 + (s >> b) % 4, 3), tag="x%d" % b) for b in range(3)]
    return list_to_padded, dict(x=x), dict(pad_size=(5, 4), pad_value=2.5, **(dict(equisized=True) if eq else {}))


@sig("padded_to_list", "x", ("split_size", None))
def _(s):
    return padded_to_list, dict(x=vals(s, (2, 4, 3))), dict(split_size=[1 + s % 4, (s >> 2) % 5])


@sig("Pointclouds", ("points", None), ("normals", None), ("colors", None), ("features", None), ("device", None))
def _(s):
    ns = [(s >> (2 * b)) % 4 for b in range(2)]
    mk = lambda t, c: [vals(s, (n, c), tag="%s%d" % (t, b)) for b, n in enumerate(ns)]
    o = dict(points=mk("p", 3), normals=mk("n", 3), colors=mk("c", 3), features=mk("f", 2), device="cpu")
    return Pointclouds, {}, o if s & 64 else dict(points=o["points"], device="cpu")


def clouds(s, attrs=pcs.ATTRS):
    m = pcs.model_of(dict(kind="list", ns=[1 + s % 4, 1 + (s >> 3) % 4], s=s, attrs=list(attrs), c=1, f64=False))
    return pcs.build(m, "list")


def turn(name, arg, k):
    @sig("Pointclouds." + name, arg, kw_only=[("pre_multiplication", True)])
    def _(s):
        pc = clouds(s)
        return getattr(pc, name), {arg: T(pose(s)[:k, :k])}, dict(pre_multiplication=False)


for _n in ("rotate", "rotate_"):
    turn(_n, "rmat", 3)
for _n in ("transform", "transform_"):
    turn(_n, "transform", 4)


@sig("Pointclouds.to", "device", ("copy", False))
def _(s):
    x = clouds(s)

    def f(*a, **k):
        y = x.to(*a, **k)
        return [y is x, y]
    return f, dict(device="cpu"), dict(copy=True)


@sig("Pointclouds.open3d", "index", ("include_colors", True), ("max_num_points", None), ("include_normals", False))
def _(s):
    x = clouds(s)

    def f(*a, **k):
        o = x.open3d(*a, **k)
        return [None if v is None else np.asarray(v) for v in (o.points, o.colors, o.normals)]
    return f, dict(index=s % 2), dict(include_colors=False, max_num_points=1, include_normals=True)


@sig("Pointclouds.plotly", "index", ("include_colors", True), ("max_num_points", 200000), ("as_figure", True), ("point_size", 2))
def _(s):
    x = clouds(s)
    return (lambda *a, **k: x.plotly(*a, **k).to_json()), dict(index=s % 2), dict(include_colors=False, max_num_points=1, as_figure=False, point_size=5)


def frame_parts(s, L=1, H=4, W=5, cf=False):
    m = rgbds.model_of(dict(B=2, L=L, H=H, W=W, cf=cf, poses=True, holes=0.1, surf="smooth", neg=False, s=s))
    t = lambda a: T(np.ascontiguousarray(a))
    return m, dict(rgb_image=t(rgbds.lay(m.rgb, cf)), depth_image=t(rgbds.lay(m.d[..., None], cf)), intrinsics=t(m.K[:, None]), poses=t(m.poses))


def frames(s, **k):
    return RGBDImages(**frame_parts(s, **k)[1])


@sig("RGBDImages", "rgb_image", "depth_image", "intrinsics", ("poses", None), ("channels_first", False), ("device", None), kw_only=[("pixel_pos", None)])
def _(s):
    m, a = frame_parts(s, H=3, W=3, cf=bool(s & 64))       # as many rows and columns as colors, so that either layout is possible
    P = a.pop("poses")
    return RGBDImages, a, dict(poses=P, device="cpu", channels_first=True) if s & 64 else dict(poses=P, device="cpu")


def layout(name, cf):
    @sig("RGBDImages." + name, ("copy", False))
    def _(s):
        x = frames(s)
        x = x.to_channels_first() if bool(s & 64) == cf else x.to_channels_last()

        def f(*a, **k):
            y = getattr(x, name)(*a, **k)
            return [y is x, y.channels_first, y]
        return f, {}, dict(copy=True)


layout("to_channels_first", True)
layout("to_channels_last", False)


@sig("RGBDImages.to", "device", ("copy", False))
def _(s):
    x = frames(s)

    def f(*a, **k):
        y = x.to(*a, **k)
        return [y is x, y]
    return f, dict(device="cpu"), dict(copy=True)


@sig("RGBDImages.plotly", "index", ("include_depth", True), ("as_figure", True), ("ms_per_frame", 50))
def _(s):
    x = frames(s, L=2)

    def f(*a, **k):
        y = x.plotly(*a, **k)
        return y.to_json() if hasattr(y, "to_json") else [v.to_plotly_json() if hasattr(v, "to_plotly_json") else repr(v) for v in y]
    return f, dict(index=s % 2), dict(include_depth=False, as_figure=False, ms_per_frame=70)


@sig("pointclouds_from_rgbdimages", "rgbdimages", kw_only=[("global_coordinates", True), ("filter_missing_depths", True)])
def _(s):
    return pointclouds_from_rgbdimages, dict(rgbdimages=frames(s)), dict(global_coordinates=False, filter_missing_depths=False)


# ---------------------------------------------------------------- registration
@sig("solve_linear_system", "A", "b", ("damp", 1e-8))
def _(s):
    return icputils.solve_linear_system, dict(A=vals(s, (7, 6)) * pick(s, 0, 1, 1e-4), b=vals(s, (7, 1), tag="b")), dict(damp=0.5)


def two_clouds(s, scale=1.0):
    n = 12 + (s >> 7) % 5
    g = arr(s, (n, 3), -1, 1, "g")
    M = pose(s, 0.2, 0.2)
    x = regs.act(M, g) + arr(s, (n, 3), -0.05, 0.05, "e")
    return dict(src_pc=T(x)[None], tgt_pc=T(g)[None], tgt_normals=unit(s, n, "n", scale)[None])


@sig("gauss_newton_solve", "src_pc", "tgt_pc", "tgt_normals", ("dist_thresh", None))
def _(s):
    return icputils.gauss_newton_solve, two_clouds(s), dict(dist_thresh=0.2)


# slow convergence, so that the number of iterations shows; normals so short that the usual damping shows
def scale_of(s):
    return pick(s, 4, 1.0, 1e-4, 3e-2)


def solver(s):
    return dict(numiters=2 + s % 4, damp=pick(s, 2, 30.0, 1.0), dist_thresh=pick(s, 1, 0.3, 0.8))


gradlm = (("lambda_max", 2.0), ("B", 1.0), ("B2", 1.0), ("nu", 200.0))
gradval = dict(lambda_max=3.0, B=0.5, B2=2.0, nu=10.0)


@sig("point_to_plane_ICP", "src_pc", "tgt_pc", "tgt_normals", ("initial_transform", None), ("numiters", 20), ("damp", 1e-8), ("dist_thresh", None))
def _(s):
    return icputils.point_to_plane_ICP, two_clouds(s, scale_of(s)), dict(initial_transform=T(pose(s, 0.1, 0.1, "i")), **solver(s))


@sig("point_to_plane_gradICP", "src_pc", "tgt_pc", "tgt_normals", ("initial_transform", None), ("numiters", 20), ("damp", 1e-8), ("dist_thresh", None), *gradlm)
def _(s):
    return icputils.point_to_plane_gradICP, two_clouds(s, scale_of(s)), dict(initial_transform=T(pose(s, 0.1, 0.1, "i")), **solver(s), **gradval)


def provider(cls):
    def f(s):
        a = [two_clouds(s + b, scale_of(s)) for b in range(2)]

        def run(*args, **k):
            return cls(*args, **k).provide(Pointclouds([x["tgt_pc"][0] for x in a], normals=[x["tgt_normals"][0] for x in a]), Pointclouds([x["src_pc"][0] for x in a]))
        return run, {}, dict(solver(s), **(gradval if cls is GradICPOdometryProvider else {}))
    return f


sig("ICPOdometryProvider", ("numiters", 20), ("damp", 1e-8), ("dist_thresh", None))(provider(ICPOdometryProvider))
sig("GradICPOdometryProvider", ("numiters", 20), ("damp", 1e-8), ("dist_thresh", None), *gradlm)(provider(GradICPOdometryProvider))


def provide(cls):
    def f(s):
        a = [two_clouds(s + b) for b in range(2)]
        mk = lambda k: Pointclouds([x[k][0] for x in a], normals=[x["tgt_normals"][0] for x in a])
        return cls(numiters=3).provide, dict(maps_pointclouds=mk("tgt_pc"), frames_pointclouds=mk("src_pc")), {}
    return f


sig("ICPOdometryProvider.provide", "maps_pointclouds", "frames_pointclouds")(provide(ICPOdometryProvider))
sig("GradICPOdometryProvider.provide", "maps_pointclouds", "frames_pointclouds")(provide(GradICPOdometryProvider))


@sig("GroundTruthOdometryProvider.provide", "rgbdimages1", "rgbdimages2")
def _(s):
    return GroundTruthOdometryProvider().provide, dict(rgbdimages1=frames(s), rgbdimages2=frames(s + 1)), {}


def a_map(s, x, feat=True):
    """Points about those of the frame: some within, some beyond the usual distances and angles."""
    P = [npy(x.global_vertex_map[b]).reshape(-1, 3) for b in range(len(x))]
    N = [npy(x.global_normal_map[b]).reshape(-1, 3) for b in range(len(x))]
    P = [p + arr(s, p.shape, -0.06, 0.06, "e%d" % b) for b, p in enumerate(P)]
    N = [n + arr(s, n.shape, -0.5, 0.5, "m%d" % b) for b, n in enumerate(N)]
    N = [n / np.linalg.norm(n, axis=1, keepdims=True) for n in N]
    kw = dict(features=[vals(s, (len(p), 1), 0.5, 3, "f%d" % b) for b, p in enumerate(P)]) if feat else {}
    return Pointclouds([T(p) for p in P], normals=[T(n) for n in N], colors=[vals(s, p.shape, 0, 255, "c%d" % b) for b, p in enumerate(P)], **kw)


@sig("downsample_pointclouds", "pointclouds", "pc2im_bnhw", "ds_ratio")
def _(s):
    x = frames(s)
    mp = a_map(s, x)
    return icputils.downsample_pointclouds, dict(pointclouds=mp, pc2im_bnhw=fu.find_active_map_points(mp, x), ds_ratio=1 + s % 3), {}


@sig("downsample_rgbdimages", "rgbdimages", "ds_ratio")
def _(s):
    return icputils.downsample_rgbdimages, dict(rgbdimages=frames(s), ds_ratio=1 + s % 3), {}


# ---------------------------------------------------------------- association and fusion
@sig("get_alpha", "points", "sigma", ("dim", -1), ("keepdim", False), ("eps", 1e-7))
def _(s):
    return fu.get_alpha, dict(points=vals(s, (3, 3, 3)) * pick(s, 0, 1, 4, 3.5), sigma=0.6), dict(dim=s % 3, keepdim=True, eps=0.2)


@sig("are_points_close", "tensor1", "tensor2", "dist_th", ("dim", -1))
def _(s):
    return fu.are_points_close, dict(tensor1=vals(s, (3, 3, 3), tag="a"), tensor2=vals(s, (3, 3, 3), tag="b"), dist_th=0.9), dict(dim=s % 2)


@sig("are_normals_similar", "tensor1", "tensor2", "dot_th", ("dim", -1))
def _(s):
    return fu.are_normals_similar, dict(tensor1=vals(s, (3, 3, 3), tag="a"), tensor2=vals(s, (3, 3, 3), tag="b"), dot_th=0.1), dict(dim=s % 2)


def assoc(name, more):
    @sig(name, "pointclouds", "rgbdimages", *more)
    def _(s):
        x = frames(s)
        mp = a_map(s, x)
        t = fu.find_active_map_points(mp, x)
        a = dict(pc2im_bnhw=fu.find_correspondences(mp, x, 0.05, 0.5) if name == "fuse_with_map" else t, dist_th=pick(s, 0, 0.05, 0.08), dot_th=pick(s, 1, 0.5, 0.94), sigma=0.6)
        r = dict(pointclouds=mp, rgbdimages=x, **{p: a[p] for p in more if isinstance(p, str)})
        f = getattr(fu, name)
        inplace = len(more) and not isinstance(more[-1], str)

        def run(*p, **k):
            y = f(*p, **k)
            return [y is mp, y, mp] if inplace else y
        return run, r, dict(inplace=True) if inplace else {}


for _n, _m in (("find_active_map_points", ()), ("find_similar_map_points", ("pc2im_bnhw", "dist_th", "dot_th")), ("find_best_unique_correspondences", ("pc2im_bnhw",)),
               ("find_correspondences", ("dist_th", "dot_th")), ("fuse_with_map", ("pc2im_bnhw", "sigma", ("inplace", False))), ("update_map_fusion", ("dist_th", "dot_th", "sigma", ("inplace", False)))):
    assoc(_n, _m)


@sig("update_map_aggregate", "pointclouds", "rgbdimages", ("inplace", False))
def _(s):
    x = frames(s)
    mp = a_map(s, x, feat=False)

    def run(*p, **k):
        y = fu.update_map_aggregate(*p, **k)
        return [y is mp, y, mp]
    return run, dict(pointclouds=mp, rgbdimages=x), dict(inplace=True)


# ---------------------------------------------------------------- pipelines
def scene(s, L):
    """A wall seen at an angle, still or nearly so: registration is undetermined along it, so every setting shows."""
    H, W = 9 + s % 3, 10
    _, a = frame_parts(s, L=L, H=H, W=W)
    if s & 32:
        v, u = np.mgrid[0:H, 0:W]
        d = np.stack([np.stack([1.5 + 0.03 * u * (1 + b) + 0.02 * v + 0.01 * arr(s, (H, W), -1, 1, "d%d,%d" % (b, l)) for l in range(L)]) for b in range(2)])
        a["depth_image"] = T(d[..., None])
        K = np.eye(4)
        K[0, 0] = K[1, 1] = 10.0
        K[0, 2], K[1, 2] = 4.5, 4.5
        a["intrinsics"] = T(np.stack([K] * 2)[:, None])
        a["poses"] = T(np.stack([np.stack([pose(s, 0.02, 0.02, "P%d,%d" % (b, l)) for l in range(L)]) for b in range(2)]))
    return RGBDImages(**a)


def pipeline(cls, more, other):
    def f(s):
        x = scene(s, 2 + (s >> 9) % 2)

        def run(**k):
            try:
                return list(cls(**k)(x))
            except torch.linalg.LinAlgError:
                return ["singular"]
        return run, {}, dict(odom=pick(s, 6, "gt", "icp", "gradicp"), dsratio=2, **solver(s), **gradval, **other, device="cpu")
    return sig(cls.__name__, kw_only=[("odom", "gradicp"), *more, ("dsratio", 4), ("numiters", 20), ("damp", 1e-8), ("dist_thresh", None), *gradlm, ("device", None)])(f)


pipeline(ICPSLAM, (), {})
pipeline(PointFusion, (("dist_th", 0.05), ("angle_th", 20), ("sigma", 0.6)), dict(dist_th=0.1, angle_th=45, sigma=2))


def step(cls):
    @sig(cls.__name__ + ".step", "pointclouds", "live_frame", ("prev_frame", None), ("inplace", False))
    def _(s):
        x = scene(s, 2)
        slam = cls(odom=pick(s, 6, "gt", "icp"), numiters=2, dsratio=1, damp=1e-3)
        p = x[:, 0]
        mp, _ = slam.step(Pointclouds(), p)
        live = x[:, 1]
        old = live.poses.clone()

        def run(*a, **k):
            y, P = slam.step(*a, **k)
            return [y is mp, y, mp, P, live.poses, old]
        return run, dict(pointclouds=mp, live_frame=live), dict(prev_frame=p, inplace=True)


step(ICPSLAM)
step(PointFusion)


# ---------------------------------------------------------------- configurations
def cfg(s):
    return {"a": s % 5, "b": {"c": [1, 2.5], "d": "x"}}


@sig("CfgNode", ("init_dict", None), ("key_list", None), ("new_allowed", False))
def _(s):
    def run(*a, **k):
        try:
            c = CfgNode(*a, **k)
        except AssertionError as e:
            return str(e)           # names the offending key from the root on
        o = [dict(c), c.is_new_allowed()]
        try:
            c.merge_from_other_cfg(CfgNode({"z": 3}))
            o.append("taken")
        except KeyError:
            o.append("refused")
        return repr(o)
    bad = {"b": {"c": object}} if s & 1024 else {}
    return run, {}, dict(init_dict=dict(cfg(s), **bad), key_list=["here"], new_allowed=True)


@sig("CfgNode.register_renamed_key", "old_name", "new_name", ("message", None))
def _(s):
    c = CfgNode(cfg(s))

    def run(*a, **k):
        c.register_renamed_key(*a, **k)
        try:
            c.merge_from_list(["old", 3])
        except Exception as e:
            return repr(e)
    return run, dict(old_name="old", new_name="a"), dict(message="see the manual")


# ---------------------------------------------------------------- the check
def attempt(f, a, k):
    try:
        torch.manual_seed(0)
        np.random.seed(0)
        return look(f(*a, **k))
    except (Violation, Reject):
        raise
    except Exception as e:
        return "raises " + type(e).__name__


@test("C31", fixed(e=st.sampled_from(sorted(SPEC)), npos=st.integers(0, 12), given=st.integers(0, 4095), keep=st.sampled_from([0, 0, 0, 4095, 1365, 2730]), order=st.integers(0, 2), s=seeds), quick=9000)
def calls(case, ctx):
    c = case
    params, positional, gen = SPEC[c["e"]]
    ctx.event(c["e"])

    def arguments():
        f, req, other = gen(c["s"])
        v = {}
        for i, (p, d) in enumerate(params):
            v[p] = req[p] if d is REQ else other[p] if p in other and (c["given"] >> i) & 1 else d
        return f, v, {p for i, (p, d) in enumerate(params) if d is not REQ and not (p in other and (c["given"] >> i) & 1)}
    f, v, usual = arguments()
    want = attempt(f, (), dict(v))
    f, v, usual = arguments()
    names = [p for p, _ in params]
    n = min(c["npos"], positional)
    by_pos = [v[p] for p in names[:n]]
    left = {p for i, p in enumerate(names) if p in usual and i >= n and not (c["keep"] >> i) & 1}
    rest = [p for p in names[n:] if p not in left]
    rest = [rest, rest[::-1], sorted(rest)][c["order"]]
    ctx.nt(n > 0 or len(left) > 0)
    if left:
        ctx.event("something left out")
    if n:
        ctx.event("something by position")
    got = attempt(f, by_pos, {p: v[p] for p in rest})
    if isinstance(want, str) and want.startswith("raises"):
        ctx.event("refused")
    what = "%s with %d arguments by position, %s named and %s left out" % (c["e"], n, ", ".join(rest) or "none", ", ".join(sorted(left)) or "none")
    compare([want], [got], what + ", against the documented values written out: the result")
