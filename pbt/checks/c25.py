"""C25: malformed arguments are refused and change nothing; well-formed ones are accepted."""
import copy
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import pcs, rgbds
from gradslam import Pointclouds, RGBDImages
from gradslam.structures.utils import pointclouds_from_rgbdimages
from gradslam.odometry import icputils
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
from gradslam.slam import fusionutils as fu
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.geometry import geometryutils as gu, projutils as pj, se3utils as se3
from gradslam.datasets import datautils as du
from gradslam.structures import structutils as su

rule("C25", "A case is an entry point with valid arguments of drawn sizes and one named departure from its documented argument types or shapes (or none): wrong type, rank, channel count, point count, "
     "batch size, container, missing attribute. The call must raise TypeError, ValueError or IndexError, and every argument and receiver must afterwards look like an untouched twin. "
     "Non-trivial: a malformed call, or a well-formed one that returned.")

REFUSE = (TypeError, ValueError, IndexError)
base = dict(B=st.integers(1, 3), s=seeds, n=st.integers(1, 4), warm=st.booleans(), pick=st.integers(0, 10 ** 6))


# ---------------------------------------------------------------- what an object looks like
def look(x):
    if torch.is_tensor(x):
        return ("tensor", str(x.dtype), x.detach().cpu().numpy().copy())
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [look(v) for v in x]
    if isinstance(x, dict):
        return {k: look(v) for k, v in x.items()}
    if isinstance(x, Pointclouds):
        ks = ["%s_%s" % (a, r) for a in ("points",) + pcs.ATTRS for r in ("list", "padded")]
        o = {k: look(getattr(x, k)) for k in ks}
        o["len"] = len(x)
        o["counts"] = look(x.num_points_per_pointcloud)
        o["flags"] = [bool(getattr(x, "has_" + a)) for a in ("points",) + pcs.ATTRS]
        o["mask"] = look(x.nonpad_mask) if x.has_points else None
        return o
    if isinstance(x, RGBDImages):
        ks = list(rgbds.VIEWS)
        return {k: look(getattr(x, k)) for k in ks}
    return x


def compare(a, b, what):
    if isinstance(a, dict):
        check(isinstance(b, dict) and set(a) == set(b), "%s changed", what)
        for k in a:
            compare(a[k], b[k], "%s.%s" % (what, k))
    elif isinstance(a, list):
        check(isinstance(b, list) and len(a) == len(b), "%s changed", what)
        for i, (p, q) in enumerate(zip(a, b)):
            compare(p, q, "%s[%d]" % (what, i))
    elif isinstance(a, tuple):
        check(isinstance(b, tuple) and len(a) == len(b), "%s changed", what)
        for p, q in zip(a, b):
            compare(p, q, what)
    elif isinstance(a, np.ndarray):
        check(isinstance(b, np.ndarray) and a.shape == b.shape, "%s changed its shape: %s, was %s", what, getattr(b, "shape", None), a.shape)
        check(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), "%s changed its values", what)
    else:
        check(type(a) is type(b) and (a is b or a == b), "%s changed: %r, was %r", what, b, a)


# ---------------------------------------------------------------- departures
def wrong_types(keep=()):
    d = dict(ndarray=lambda v: np.zeros((2, 3), np.float32), nested=lambda v: [[0.0, 1.0, 2.0]], text=lambda v: "x", none=lambda v: None, number=lambda v: 1.5, tuple=lambda v: (torch.zeros(2, 3),))
    return {"type " + k: f for k, f in d.items() if k not in keep}


def resize(i, k):
    def f(v):
        i_ = i % v.ndim
        if k > 0:
            return torch.cat([v] + [v.narrow(i_, v.shape[i_] - 1, 1)] * k, i_)
        return v.narrow(i_, 0, v.shape[i_] + k).clone()
    return f


def tensor_ways(v, dims, ranks=True, keep=()):
    """dims: indices whose size is fixed."""
    w = wrong_types(keep)
    if ranks:
        w["rank - 1"] = lambda v: v[0].clone()
        w["rank + 1"] = lambda v: v[None].clone()
    for i in dims:
        w["dim %d + 1" % i] = resize(i, 1)
        if v.shape[i] > 1:
            w["dim %d - 1" % i] = resize(i, -1)
    return w


def scalar_ways():
    return {"type " + k: (lambda v, x=x: x) for k, x in dict(text="x", none=None, list=[0.1], ndarray=np.zeros(3)).items()}


def apply(case, args, ways):
    """Corrupt one argument; returns its description."""
    flat = [(a, h) for a in ways for h in ways[a]]
    a, h = flat[case["pick"] % len(flat)]
    args[a] = ways[a][h](args[a])
    return "%s (%s)" % (a, h)


ENTRIES = {}


def entry(f):
    ENTRIES[f.__name__] = f
    return f


# Each entry: case -> (call(args), args, ways, watched objects)
def pc_of(c, kind="list", attrs=pcs.ATTRS, C=1, tag=0, B=None, same_n=False):
    B = c["B"] if B is None else B
    ns = [1 + (c["n"] + (0 if same_n else i * 2)) % 5 for i in range(B)]
    m = pcs.model_of(dict(kind=kind, ns=ns, s=c["s"] + tag, attrs=list(attrs), c=C, f64=False))
    return pcs.build(m, kind), m


def fr_of(c, L=1, poses=True, B=None, tag=0, cf=None, size=None):
    B = c["B"] if B is None else B
    h, w = size or (3 + c["n"] % 2, 4 + c["n"] % 3)
    return rgbds.make(dict(B=B, L=L, H=h, W=w, cf=bool(c["s"] % 2) if cf is None else cf, poses=poses, holes=0.1, surf="smooth", neg=False, s=c["s"] + tag))


def ctor_args(c, kind):
    attrs = [a for k, a in enumerate(pcs.ATTRS) if (c["s"] >> k) & 1]
    _, m = pc_of(c, kind, attrs, C=1 + c["s"] % 3)
    t = lambda l: torch.stack([T(a) for a in l]) if kind == "padded" else [T(a) for a in l]
    return dict(points=t(m.points), **{k: t(m.attrs[k]) for k in attrs}), m


def on(i, f):
    return lambda v: v[:i] + [f(v[i])] + v[i + 1:]


def list_ways(args, k, j, fixed_n, fixed_c):
    v = args[k]
    n = len(v)
    w = {"type " + q: (lambda v, x=x: x) for q, x in dict(text="abc", number=3, dict={}).items()}
    w["tuple"] = tuple
    w["ndarray"] = lambda v: np.zeros((len(v), 2, 3), np.float32)
    w["padded instead of list"] = lambda v: torch.zeros(len(v), 2, 3)
    w["cloud of rank 1"] = on(j, lambda x: torch.zeros(3))
    w["cloud of rank 3"] = on(j, lambda x: x[None])
    if fixed_c:
        w["one channel more"] = on(j, resize(1, 1))
        w["one channel less"] = on(j, resize(1, -1))
    elif n > 1:
        w["one cloud wider"] = on(j, resize(1, 1))
    if fixed_n:
        w["one point more"] = on(j, resize(0, 1))
        w["one point less"] = on(j, resize(0, -1))
        w["one cloud more"] = lambda v: v + [v[-1].clone()]
        i = (j + 1) % n
        if n > 1 and len(v[i]) > 0 and len(v[j]) > 0:     # as many points in all, but not cloud by cloud
            w["one point moved to another cloud"] = lambda v: on(i, resize(0, -1))(on(j, resize(0, 1))(v))
        if n > 1 and len(v[i]) != len(v[j]):
            w["two clouds swapped"] = lambda v: [v[j] if q == i else v[i] if q == j else x for q, x in enumerate(v)]
        if n > 1:
            w["one cloud less"] = lambda v: v[:-1]
    return w


def ctor_ways(args, kind, c):
    ways = {}
    for k in args:
        other = k != "points"
        lone = len(args) == 1
        if kind == "list":
            w = list_ways(args, k, c["s"] % len(args[k]), other or not lone, k != "features")
            if k == "points":
                w["no cloud"] = lambda v: []
                if lone:
                    del w["padded instead of list"]   # valid on its own
        else:
            w = tensor_ways(args[k], ([0, 1, 2] if k != "features" else [0, 1]) if other or not lone else [2])
            w.pop("type nested", None) if k == "points" else None
            w.pop("type none", None)
            w["list instead of tensor"] = lambda v: list(v)
            if k == "points":
                if lone:
                    del w["list instead of tensor"]
                w["no cloud"] = lambda v: v[:0]
        ways[k] = w
    return ways


def make_ctor(kind):
    def f(c):
        args, m = ctor_args(c, kind)

        def call(a):
            x = Pointclouds(device=[None, here(), torch.device(here())][c["s"] % 3], **a)
            pcs.check_all(x, m, "constructed", c["s"])
            return x
        return call, args, ctor_ways(args, kind, c), [args]
    f.__name__ = "pointclouds_" + kind
    return entry(f)


make_ctor("list")
make_ctor("padded")


def make_setter(attr, kind):
    def f(c):
        x, m = pc_of(c, ["list", "padded"][(c["s"] >> 9) % 2], [a for k, a in enumerate(pcs.ATTRS) if (c["s"] >> k) & 1], C=1 + c["s"] % 3)
        ch = 3 if attr != "features" else 2
        vals = [T(arr(c["s"], (n, ch), 0, 1, "new%d" % b)) for b, n in enumerate(m.ns)]
        N = max(m.ns)
        args = dict(value=vals if kind == "list" else torch.stack([torch.cat([v, torch.zeros(N - len(v), ch, device=here())]) for v in vals]))
        if kind == "list":
            w = list_ways(args, "value", c["s"] % m.B, True, attr != "features")
            w.pop("one cloud wider", None)   # refused or not, documented only for construction
            w["no cloud"] = lambda v: []
            w["none"] = lambda v: None
        else:
            w = tensor_ways(args["value"], [0, 1, 2] if attr != "features" else [0, 1])
            w["list instead of tensor"] = lambda v: list(v)
            b = int(np.argmin(m.ns))
            if m.ns[b] < N:
                def dirty(v):
                    v = v.clone()
                    v[b, m.ns[b]:] = 1.0
                    return v
                w["nonzero padding"] = dirty

        def call(a):
            setattr(x, "%s_%s" % (attr, kind), a["value"])
            if attr == "points":
                m.points = [npy(v).astype(np.float64) for v in vals]
            else:
                m.attrs[attr] = [npy(v).astype(np.float64) for v in vals]
            pcs.check_all(x, m, "after assigning", c["s"])
        return call, args, dict(value=w), [x, args]
    f.__name__ = "set_%s_%s" % (attr, kind)
    return entry(f)


for _a in ("points",) + pcs.ATTRS:
    for _k in ("list", "padded"):
        make_setter(_a, _k)


@entry
def set_on_empty(c):
    x = Pointclouds()
    k = ["%s_%s" % (a, r) for a in ("points",) + pcs.ATTRS for r in ("list", "padded")][c["s"] % 8]
    v = [torch.ones(2, 3)] if k.endswith("list") else torch.ones(1, 2, 3)
    return None, dict(name=k), dict(name={"assigning to an empty object": lambda n: n}), [x], lambda a: setattr(x, a["name"], v)


@entry
def append(c):
    attrs = [a for k, a in enumerate(pcs.ATTRS) if (c["s"] >> k) & 1]
    x, m = pc_of(c, ["list", "padded"][(c["s"] >> 9) % 2], attrs, C=2)
    y, my = pc_of(c, ["list", "padded"][(c["s"] >> 10) % 2], attrs, C=2, tag=1)
    w = {"type " + q: (lambda v, z=z: z) for q, z in dict(text="x", none=None, list=[torch.ones(2, 3)], tensor=torch.ones(c["B"], 2, 3), frames=None).items()}
    w["batch + 1"] = lambda v: pc_of(c, "list", attrs, C=2, tag=1, B=c["B"] + 1)[0]
    if c["B"] > 1:
        w["batch - 1"] = lambda v: pc_of(c, "list", attrs, C=2, tag=1, B=c["B"] - 1)[0]
    for a in pcs.ATTRS:
        if a in attrs:
            w["without " + a] = lambda v, a=a: pc_of(c, "list", [q for q in attrs if q != a], C=2, tag=1)[0]
        else:
            w["with " + a] = lambda v, a=a: pc_of(c, "list", attrs + [a], C=2, tag=1)[0]
    if "features" in attrs:
        w["other feature width"] = lambda v: pc_of(c, "list", attrs, C=3, tag=1)[0]

    def call(a):
        r = x.append_points(a["other"])
        m.append(my)
        pcs.check_all(x, m, "after appending", c["s"])
        check(r is x, "append_points does not return the object")
    args = dict(other=y)
    return call, args, dict(other=w), [x, args]


def mats(c, k):
    B = c["B"]
    P = np.stack([pose(c["s"], tag="m%d" % b)[:k, :k] for b in range(B)])
    return T(P if (c["s"] >> 5) & 1 else P[0])


def make_op(name, k, inplace):
    def f(c):
        x, m = pc_of(c, ["list", "padded"][(c["s"] >> 9) % 2], [a for i, a in enumerate(pcs.ATTRS) if (c["s"] >> i) & 1])
        v = mats(c, k) if k else [2, 0.5, T([0.3]), T(0.2), T([1.0, 2.0, 3.0]), torch.ones(c["B"], 1, 3, device=here())][c["s"] % 6]
        if k == 4 and name == "pinhole_projection":
            K = np.stack([rgbds.kmat(c["s"], 4, 5, "k%d" % b) for b in range(c["B"])])
            v = T(K if (c["s"] >> 5) & 1 else K[0])
        args = dict(value=v)
        if k:
            w = tensor_ways(v, [v.ndim - 1, v.ndim - 2] + ([0] if v.ndim == 3 else []), ranks=False)
            w["rank 1"] = lambda v: v.reshape(-1)[:k]
            w["rank 4"] = lambda v: v.reshape((1, 1) + tuple(v.shape[-2:]) if v.ndim == 2 else (1,) + tuple(v.shape))
            if v.ndim == 3 and c["B"] == 1:
                w.pop("dim 0 - 1", None)
        else:
            w = {"type " + q: (lambda v, z=z: z) for q, z in dict(text="x", none=None, list=[0.1, 0.2, 0.3], dict={}).items()}
        ops = dict(add=lambda a: x + a, sub=lambda a: x - a, mul=lambda a: x * a, div=lambda a: x / a, matmul=lambda a: x @ a)

        def run(a):
            if name in ops:
                r = ops[name](a["value"])
            else:
                r = getattr(x, name + ("_" if inplace else ""))(a["value"])
            check(isinstance(r, Pointclouds), "%s returned %s", name, type(r).__name__)
            check((r is x) == inplace, "%s returned %s object", name, "the same" if r is x else "another")
            return r
        return run, args, dict(value=w), [x, args]
    f.__name__ = "op_" + name + ("_" if inplace else "")
    f.operator = name in ("add", "sub", "mul", "div", "matmul")
    return entry(f)


for _n, _k in (("offset", 0), ("scale", 0), ("rotate", 3), ("transform", 4), ("pinhole_projection", 4)):
    make_op(_n, _k, True)
    if _k:
        make_op(_n, _k, False)
for _n, _k in (("add", 0), ("sub", 0), ("mul", 0), ("div", 0), ("matmul", 4), ("matmul", 3)):
    make_op(_n, _k, False)


@entry
def index_clouds(c):
    x, m = pc_of(c)
    B = c["B"]
    good = [0, B - 1, -1, -B, slice(0, 1), slice(None), [B - 1, 0], [0], T(np.arange(B) % 2 == 0, torch.bool), torch.arange(B)]
    ids = [[0], [B - 1], [B - 1], [0], [0], list(range(B)), [B - 1, 0], [0], list(range(0, B, 2)), list(range(B))]
    k = c["s"] % len(good)
    w = {}
    for q, z in dict(beyond=B, below=-B - 1, text="0", none=None, number=0.0, tuple=(0,), tuple2=(0, 0), dict={}).items():
        w[q] = lambda v, z=z: z
    w["list beyond"] = lambda v: [0, B]
    w["float tensor"] = lambda v: torch.zeros(1)
    w["tensor of rank 2"] = lambda v: torch.zeros(1, 1, dtype=torch.long)
    w["tensor of rank 0"] = lambda v: torch.tensor(0)
    w["tensor beyond"] = lambda v: torch.tensor([B])
    w["mask beyond"] = lambda v: torch.ones(B + 1, dtype=torch.bool)
    w["nothing: list"] = lambda v: []
    w["nothing: slice"] = lambda v: slice(0, 0)
    w["nothing: mask"] = lambda v: torch.zeros(B, dtype=torch.bool)

    def call(a):
        y = x[a["index"]]
        pcs.check_all(y, m.index(ids[k]), "indexed by %r" % (good[k],), c["s"])
        return y
    return call, dict(index=good[k]), dict(index=w), [x]


@entry
def index_empty(c):
    x = Pointclouds()
    w = {repr(z): (lambda v, z=z: z) for z in (0, [0], slice(None))}
    return None, dict(index=0), dict(index=w), [x], lambda a: x[a["index"]]


@entry
def display_index(c):
    x, m = pc_of(c)
    y, my = fr_of(c, L=1)
    w = {"type " + q: (lambda v, z=z: z) for q, z in dict(text="0", none=None, number=0.0, list=[0], slice=slice(0, 1)).items()}
    w["beyond"] = lambda v: c["B"]
    f = [x.open3d, x.plotly, y.plotly][c["s"] % 3]
    return (lambda a: f(a["index"])), dict(index=0), dict(index=w), [x, y]


# ---------------------------------------------------------------- frames
def frame_args(c):
    L = 1 + (c["s"] >> 4) % 2
    m = rgbds.model_of(dict(B=c["B"], L=L, H=3 + c["n"] % 2, W=5, cf=bool(c["s"] % 2), poses=True, holes=0.1, surf="smooth", neg=False, s=c["s"]))
    t = lambda a: T(np.ascontiguousarray(a))
    return m, dict(rgb_image=t(rgbds.lay(m.rgb, m.cf)), depth_image=t(rgbds.lay(m.d[..., None], m.cf)), intrinsics=t(m.K[:, None]), poses=t(m.poses))


def frame_ways(args, cf, which=None):
    ch = 2 if cf else 4
    w = {}
    for k in which or ("depth_image", "intrinsics", "poses", "rgb_image"):
        w[k] = tensor_ways(args[k], range(args[k].ndim), keep=("none",) if k == "poses" and not which else ())
    return w


@entry
def frames_ctor(c):
    m, args = frame_args(c)
    args["channels_first"] = m.cf
    ways = frame_ways(args, m.cf)
    ways["channels_first"] = {"type " + q: (lambda v, z=z: z) for q, z in dict(text="True", none=None, number=1, tensor=torch.tensor(True)).items()}
    if not (c["s"] >> 6) & 1:
        m.poses = None
        del args["poses"], ways["poses"]

    def call(a):
        x = RGBDImages(device=[None, here(), torch.device(here())][c["s"] % 3], **a)
        rgbds.check_all(x, m, "constructed", c["s"])
        return x
    return call, args, ways, [args]


@entry
def frames_pixel_pos(c):
    m, args = frame_args(c)
    x = rgbds.build(m)
    x.vertex_map
    args["pixel_pos"] = x.pixel_pos.clone()
    args["channels_first"] = m.cf
    w = tensor_ways(args["pixel_pos"], range(5), keep=("none",))

    def call(a):
        y = RGBDImages(**a)
        close(y.vertex_map, x.vertex_map, "vertex map with given pixel positions", atol=1e-6)
        return y
    return call, args, dict(pixel_pos=w), [args]


def make_frame_setter(k):
    def f(c):
        m, args = frame_args(c)
        if k == "poses" and (c["s"] >> 6) & 1:
            m.poses = None
        x = rgbds.build(m)
        m2, args2 = frame_args(dict(c, s=c["s"] ^ 0x5500000))
        if args2[k].shape != args[k].shape:
            args2 = {q: v * 0.5 for q, v in args.items()}
            m2 = None
        a = dict(value=args2[k])
        w = tensor_ways(a["value"], range(a["value"].ndim), keep=("none",))   # None is let through on purpose

        def call(a):
            setattr(x, k, a["value"])
            same(getattr(x, k), a["value"], "assigned " + k)
        return call, a, dict(value=w), [x, a]
    f.__name__ = "set_" + k
    return entry(f)


for _n in ("rgb_image", "depth_image", "intrinsics", "poses"):
    make_frame_setter(_n)


@entry
def index_frames(c):
    m, _ = frame_args(c)
    x = rgbds.build(m)
    B, L = c["B"], m.shape[1]
    good = [0, B - 1, (0, L - 1), (slice(None), 0), slice(0, 1), [0], (slice(0, 1), [0]), (slice(None), slice(0, L))]
    w = {}
    for q, z in dict(beyond=B, text="a", none=None, number=1.5, dict={}, three=(0, 0, 0), frame_beyond=(0, L), frames_beyond=(slice(None), slice(L, L + 2)), nothing=slice(0, 0),
                     list_beyond=[B], nothing2=(0, slice(0, 0)), mask_long=torch.ones(B + 1, dtype=torch.bool)).items():
        w[q] = lambda v, z=z: z

    def call(a):
        y = x[a["index"]]
        check(isinstance(y, RGBDImages), "indexing returned %s", type(y).__name__)
        return y
    return call, dict(index=good[c["s"] % len(good)]), dict(index=w), [x]


@entry
def cloud_from_frames(c):
    x, m = fr_of(c)
    w = {"type " + q: (lambda v, z=z: z) for q, z in dict(text="x", none=None, tensor=torch.ones(1, 1, 3, 4, 3), clouds=Pointclouds()).items()}
    w["two frames"] = lambda v: fr_of(c, L=2)[0]
    args = dict(rgbdimages=x)
    return (lambda a: pointclouds_from_rgbdimages(**a)), args, dict(rgbdimages=w), [args]


# ---------------------------------------------------------------- registration
def reg_args(c):
    n = 8 + c["n"]
    t = lambda tag, k: T(arr(c["s"], (1, k, 3), -1, 1, tag))
    nr = torch.nn.functional.normalize(t("nr", n), dim=-1)
    return dict(src_pc=t("src", n - 2), tgt_pc=t("tgt", n), tgt_normals=nr)


def reg_ways(args):
    w = {k: tensor_ways(args[k], [0, 2]) for k in ("src_pc", "tgt_pc", "tgt_normals")}
    for k in ("tgt_pc", "tgt_normals"):
        w[k]["dim 1 + 1"] = resize(1, 1)
        w[k]["dim 1 - 1"] = resize(1, -1)
    return w


@entry
def gauss_newton(c):
    args = reg_args(c)
    w = reg_ways(args)
    args["dist_thresh"] = [None, 1, 0.8][c["s"] % 3]
    w["dist_thresh"] = {"type " + q: (lambda v, z=z: z) for q, z in dict(text="x", list=[0.1], tensor=torch.tensor([0.5])).items()}
    return (lambda a: icputils.gauss_newton_solve(**a)), args, w, [args]


def make_icp(name):
    def f(c):
        args = reg_args(c)
        w = reg_ways(args)
        args.update(initial_transform=[None, torch.eye(4, device=here())][c["s"] % 2], numiters=1 + c["s"] % 3, damp=[1e-3, torch.tensor(1e-3)][(c["s"] >> 2) % 2], dist_thresh=[None, 5, 5.0][(c["s"] >> 4) % 3])
        w["initial_transform"] = {h: (lambda v, g=g: g(torch.eye(4))) for h, g in tensor_ways(torch.eye(4), [0, 1], keep=("none",)).items()}
        w["numiters"] = {"type " + q: (lambda v, z=z: z) for q, z in dict(text="x", list=[3], number=3.0, none=None, tensor=torch.tensor(2)).items()}
        w["dist_thresh"] = {"type " + q: (lambda v, z=z: z) for q, z in dict(text="x", list=[0.1], tensor=torch.tensor([0.5])).items()}
        if name == "gradICP":
            args.update(lambda_max=[2, 2.0][c["s"] % 2], B=[1, 1.0][c["s"] % 2], B2=[1.0, 1][c["s"] % 2], nu=[200, 200.0][c["s"] % 2])
            for k in ("lambda_max", "B", "B2", "nu"):
                w[k] = scalar_ways()

        def call(a):
            tr, idx = getattr(icputils, "point_to_plane_" + name)(**a)
            check(tuple(tr.shape) == (4, 4), "transform of shape %s", tuple(tr.shape))
            return tr, idx
        return call, args, w, [args]
    f.__name__ = name
    return entry(f)


make_icp("ICP")
make_icp("gradICP")


@entry
def linear_system(c):
    n = 4 + c["n"]
    args = dict(A=T(arr(c["s"], (n, 3), -1, 1, "A")), b=T(arr(c["s"], (n, 1), -1, 1, "b")), damp=[1e-6, torch.tensor(1e-6)][c["s"] % 2])
    w = dict(A=tensor_ways(args["A"], [0]), b=tensor_ways(args["b"], [0, 1]), damp=scalar_ways())
    w["damp"]["rank 1"] = lambda v: torch.tensor([1e-6])
    w["damp"]["int"] = lambda v: 1
    return (lambda a: icputils.solve_linear_system(**a)), args, w, [args]


def good_map(c, C=1, attrs=pcs.ATTRS, B=None, tag=0):
    """A map made of the points a frame sees (plus attributes)."""
    x, m = fr_of(c, B=B, tag=tag)
    pc = pointclouds_from_rgbdimages(x)
    kw = dict(points=[p.clone() for p in pc.points_list])
    if "normals" in attrs:
        kw["normals"] = [p.clone() for p in pc.normals_list]
    if "colors" in attrs:
        kw["colors"] = [p.clone() for p in pc.colors_list]
    if "features" in attrs:
        kw["features"] = [torch.ones(len(p), C, device=here()) for p in pc.points_list]
    if min(len(p) for p in kw["points"]) < 6:
        raise Reject()
    return Pointclouds(**kw), x


def not_clouds(c):
    return {"type " + q: (lambda v, z=z: z) for q, z in dict(text="x", none=None, tensor=torch.ones(c["B"], 3, 3), list=[torch.ones(3, 3)], frames=fr_of(c)[0]).items()}


def not_frames(c):
    return {"type " + q: (lambda v, z=z: z) for q, z in dict(text="x", none=None, tensor=torch.ones(c["B"], 1, 3, 4, 3), clouds=pc_of(c)[0]).items()}


def other_batch(w, c, f):
    w["batch + 1"] = lambda v: f(c["B"] + 1)
    if c["B"] > 1:
        w["batch - 1"] = lambda v: f(c["B"] - 1)
    return w


def make_provider(cls, frames_first=False):
    def f(c):
        mp, x = good_map(c)
        fp, _ = good_map(c, tag=3)
        p = cls(numiters=2, damp=1e-3)
        wm = other_batch(not_clouds(c), c, lambda B: good_map(c, B=B)[0])
        wm["without normals"] = lambda v: good_map(c, attrs=["colors"])[0]
        wm["empty"] = lambda v: Pointclouds()
        wf = other_batch(not_clouds(c), c, lambda B: good_map(c, B=B, tag=3)[0])
        wf["empty"] = lambda v: Pointclouds()
        args = dict(maps_pointclouds=mp, frames_pointclouds=fp)

        def call(a):
            r = p.provide(**a)
            check(tuple(r.shape) == (c["B"], 1, 4, 4), "transforms of shape %s", tuple(r.shape))
            return r
        return call, args, dict(maps_pointclouds=wm, frames_pointclouds=wf), [args]
    f.__name__ = cls.__name__
    return entry(f)


make_provider(ICPOdometryProvider)
make_provider(GradICPOdometryProvider)


@entry
def ground_truth(c):
    args = dict(rgbdimages1=fr_of(c)[0], rgbdimages2=fr_of(c, tag=1)[0])
    ways = {}
    for k, tag in (("rgbdimages1", 0), ("rgbdimages2", 1)):
        w = other_batch(not_frames(c), c, lambda B, tag=tag: fr_of(c, B=B, tag=tag)[0])
        w["two frames"] = lambda v, tag=tag: fr_of(c, L=2, tag=tag)[0]
        w["without poses"] = lambda v, tag=tag: fr_of(c, poses=False, tag=tag)[0]
        ways[k] = w

    def call(a):
        r = GroundTruthOdometryProvider().provide(a["rgbdimages1"], a["rgbdimages2"])
        check(tuple(r.shape) == (c["B"], 1, 4, 4), "transforms of shape %s", tuple(r.shape))
        return r
    return call, args, ways, [args]


# ---------------------------------------------------------------- association and fusion
@entry
def alpha(c):
    dim = c["s"] % 3
    shape = [2, c["n"] + 3, 4]
    shape[dim] = 3
    args = dict(points=T(arr(c["s"], shape, -1, 1, "p")), sigma=[0.6, 1, torch.tensor(0.6)][(c["s"] >> 3) % 3], eps=1e-7)
    w = dict(points=tensor_ways(args["points"], [dim], ranks=False), sigma=scalar_ways(), eps={"int": lambda v: 1, "text": lambda v: "x", "none": lambda v: None})
    w["sigma"]["rank 1"] = lambda v: torch.tensor([0.6])
    return (lambda a: fu.get_alpha(a["points"], a["sigma"], dim, eps=a["eps"])), args, w, [args]


def make_near(name, th):
    def f(c):
        dim = c["s"] % 3
        shape = [2, c["n"] + 3, 4]
        shape[dim] = 3
        mk = lambda tag: torch.nn.functional.normalize(T(arr(c["s"], shape, -1, 1, tag)), dim=dim)
        args = {"tensor1": mk("a"), "tensor2": mk("b"), th: [0, 1, 0.5][(c["s"] >> 3) % 3]}
        w = {k: tensor_ways(args[k], [0, 1, 2]) for k in ("tensor1", "tensor2")}
        w[th] = scalar_ways()
        w[th]["tensor"] = lambda v: torch.tensor(0.5)
        return (lambda a: getattr(fu, name)(dim=dim, **a)), args, w, [args]
    f.__name__ = name
    return entry(f)


make_near("are_points_close", "dist_th")
make_near("are_normals_similar", "dot_th")


def table_ways(v, c):
    w = wrong_types()
    w["float"] = lambda v: v.float()
    w["int32"] = lambda v: v.int()
    w["rank 1"] = lambda v: v.reshape(-1)
    w["rank 3"] = lambda v: v[None]
    w["three columns"] = lambda v: v[:, :3]
    w["five columns"] = lambda v: torch.cat([v, v[:, :1]], 1)
    return w


def map_ways(c, need=(), narrow=False):
    w = other_batch(not_clouds(c), c, lambda B: good_map(c, B=B)[0])
    for a in need:
        w["without " + a] = lambda v, a=a: good_map(c, attrs=[q for q in pcs.ATTRS if q != a])[0]
    if narrow:
        for C in (2, 3):
            w["%d features" % C] = lambda v, C=C: good_map(c, C=C)[0]
    return w


def live_ways(c, poses=True):
    w = other_batch(not_frames(c), c, lambda B: fr_of(c, B=B, tag=0)[0])
    w["two frames"] = lambda v: fr_of(c, L=2)[0]
    if poses:
        w["without poses"] = lambda v: fr_of(c, poses=False)[0]
    return w


@entry
def active_points(c):
    mp, x = good_map(c)
    args = dict(pointclouds=mp, rgbdimages=x)
    return (lambda a: fu.find_active_map_points(**a)), args, dict(pointclouds=map_ways(c), rgbdimages=live_ways(c)), [args]


def table(mp, x):
    t = fu.find_active_map_points(mp, x)
    if len(t) == 0:
        raise Reject()
    return t


@entry
def similar_points(c):
    mp, x = good_map(c)
    args = dict(pointclouds=mp, rgbdimages=x, pc2im_bnhw=table(mp, x), dist_th=[0.1, 1][c["s"] % 2], dot_th=[0.5, 0][(c["s"] >> 1) % 2])
    return (lambda a: fu.find_similar_map_points(**a)), args, dict(pointclouds=map_ways(c, ["normals"]), rgbdimages=live_ways(c, False), pc2im_bnhw=table_ways(args["pc2im_bnhw"], c),
                                                                  dist_th=scalar_ways(), dot_th=scalar_ways()), [args]


@entry
def unique_points(c):
    mp, x = good_map(c)
    args = dict(pointclouds=mp, rgbdimages=x, pc2im_bnhw=table(mp, x))
    return (lambda a: fu.find_best_unique_correspondences(**a)), args, dict(pointclouds=map_ways(c, ["features"]), rgbdimages=live_ways(c, False), pc2im_bnhw=table_ways(args["pc2im_bnhw"], c)), [args]


@entry
def correspondences(c):
    mp, x = good_map(c)
    args = dict(pointclouds=mp, rgbdimages=x, dist_th=0.1, dot_th=0.5)
    return (lambda a: fu.find_correspondences(**a)), args, dict(pointclouds=map_ways(c, ["normals", "features"]), rgbdimages=live_ways(c), dist_th=scalar_ways(), dot_th=scalar_ways()), [args]


@entry
def fuse(c):
    mp, x = good_map(c)
    t = fu.find_correspondences(mp, x, 0.1, 0.5)
    if len(t) == 0:
        raise Reject()
    args = dict(pointclouds=mp, rgbdimages=x, pc2im_bnhw=t, sigma=[0.6, 1, torch.tensor(0.6)][c["s"] % 3])
    lw = live_ways(c, False)
    lw.pop("two frames")
    w = dict(pointclouds=map_ways(c, pcs.ATTRS, True), rgbdimages=lw, pc2im_bnhw=table_ways(t, c), sigma=scalar_ways())
    w["sigma"]["rank 1"] = lambda v: torch.tensor([0.6])
    return (lambda a: fu.fuse_with_map(inplace=bool((c["s"] >> 8) & 1), **a)), args, w, [args]


@entry
def aggregate(c):
    mp, x = good_map(c, attrs=["normals", "colors"])
    args = dict(pointclouds=mp, rgbdimages=x)
    w = other_batch(not_clouds(c), c, lambda B: good_map(c, B=B, attrs=["normals", "colors"])[0])
    w["with features"] = lambda v: good_map(c)[0]
    w["without colors"] = lambda v: good_map(c, attrs=["normals"])[0]
    w["without normals"] = lambda v: good_map(c, attrs=["colors"])[0]
    return (lambda a: fu.update_map_aggregate(inplace=bool((c["s"] >> 8) & 1), **a)), args, dict(pointclouds=w, rgbdimages=live_ways(c, False)), [args]


@entry
def update_fusion(c):
    mp, x = good_map(c)
    args = dict(pointclouds=mp, rgbdimages=x, dist_th=0.1, dot_th=0.5, sigma=0.6)
    w = dict(pointclouds=map_ways(c, pcs.ATTRS, True), rgbdimages=live_ways(c), dist_th=scalar_ways(), dot_th=scalar_ways(), sigma=scalar_ways())
    return (lambda a: fu.update_map_fusion(inplace=bool((c["s"] >> 8) & 1), **a)), args, w, [args]


@entry
def downsample_cloud(c):
    mp, x = good_map(c)
    args = dict(pointclouds=mp, pc2im_bnhw=table(mp, x), ds_ratio=1 + c["n"] % 2)
    w = dict(pointclouds=not_clouds(c), pc2im_bnhw=table_ways(args["pc2im_bnhw"], c), ds_ratio={"number": lambda v: 2.0, "none": lambda v: None, "text": lambda v: "2", "tensor": lambda v: torch.tensor(2)})
    for k in ("float", "int32"):
        w["pc2im_bnhw"].pop(k)
    return (lambda a: icputils.downsample_pointclouds(**a)), args, w, [args]


@entry
def downsample_frame(c):
    _, x = good_map(c)
    args = dict(rgbdimages=x, ds_ratio=1 + c["n"] % 2)
    lw = not_frames(c)
    lw["two frames"] = lambda v: fr_of(c, L=2)[0]
    return (lambda a: icputils.downsample_rgbdimages(**a)), args, dict(rgbdimages=lw, ds_ratio={"number": lambda v: 2.0, "none": lambda v: None, "text": lambda v: "2", "tensor": lambda v: torch.tensor(2)}), [args]


# ---------------------------------------------------------------- SLAM
@entry
def slam_ctor(c):
    cls = [ICPSLAM, PointFusion][c["s"] % 2]
    args = dict(odom=["gt", "icp", "gradicp"][(c["s"] >> 1) % 3])
    w = dict(odom={repr(z): (lambda v, z=z: z) for z in ("", "ICP", "orb", None, 3, ("gt",))})
    if cls is PointFusion:
        args.update(dist_th=[0.05, 1, 0][(c["s"] >> 3) % 3], angle_th=[20, 20.0, 90, 0][(c["s"] >> 5) % 4])
        w.update(dist_th=scalar_ways(), angle_th=scalar_ways())
    return (lambda a: cls(device=[None, here(), torch.device(here())][c["s"] % 3], **a)), args, w, [args]


def slam_of(c):
    cls = [ICPSLAM, PointFusion][c["s"] % 2]
    kw = dict(odom=["gt", "icp", "gradicp"][(c["s"] >> 1) % 3], dsratio=1, numiters=1, damp=1e-2)
    return cls, kw, cls(**kw, **dev_kw())


@entry
def slam_forward(c):
    cls, kw, slam = slam_of(c)
    x, m = fr_of(c, L=1 + c["n"] % 2, cf=False)
    w = not_frames(c)
    if kw["odom"] == "gt":
        w["without poses"] = lambda v: fr_of(c, L=2, poses=False)[0]
        if m.shape[1] == 1:
            del w["without poses"]
    args = dict(frames=x)
    return (lambda a: slam(a["frames"])), args, dict(frames=w), [args]


@entry
def slam_step(c):
    cls, kw, slam = slam_of(c)
    attrs = pcs.ATTRS if cls is PointFusion else ["normals", "colors"]
    mp, prev = good_map(c, attrs=attrs)
    live, _ = fr_of(c, poses=kw["odom"] == "gt" or bool((c["s"] >> 12) & 1))
    args = dict(pointclouds=mp, live_frame=live, prev_frame=prev if kw["odom"] != "gt" else None)
    wp = other_batch(not_clouds(c), c, lambda B: good_map(c, B=B, attrs=attrs)[0])
    for a in attrs:
        wp["without " + a] = lambda v, a=a: good_map(c, attrs=[q for q in attrs if q != a])[0]
    if cls is ICPSLAM:
        wp["with features"] = lambda v: good_map(c)[0]
    else:
        wp["2 features"] = lambda v: good_map(c, C=2)[0]
    wl = other_batch(not_frames(c), c, lambda B: fr_of(c, B=B)[0])
    wl["two frames"] = lambda v: fr_of(c, L=2)[0]
    if kw["odom"] == "gt":
        wl["without poses"] = lambda v: fr_of(c, poses=False)[0]
    ways = dict(pointclouds=wp, live_frame=wl)
    if kw["odom"] != "gt":
        w = other_batch(not_frames(c), c, lambda B: fr_of(c, B=B)[0])
        w.pop("type none")
        w["without poses"] = lambda v: fr_of(c, poses=False)[0]
        w["two frames"] = lambda v: fr_of(c, L=2)[0]
        ways["prev_frame"] = w

    def call(a):
        p, q = slam.step(inplace=bool((c["s"] >> 8) & 1), **a)
        check(tuple(q.shape) == (c["B"], 1, 4, 4), "poses of shape %s", tuple(q.shape))
        return p, q
    return call, args, ways, [args]


# ---------------------------------------------------------------- geometry
def K4(c, batch):
    K = np.stack([rgbds.kmat(c["s"], 4, 5, "k%d" % b) for b in range(c["B"])])
    return T(K if batch else K[0])


@entry
def project(c):
    batch = bool(c["s"] & 1)
    args = dict(cam_coords=T(arr(c["s"], (c["B"], c["n"], 3 + (c["s"] >> 1) % 2), 0.5, 2, "x")), proj_mat=K4(c, batch))
    wc = wrong_types()
    wc["rank 1"] = lambda v: v[0, 0]
    wc["two channels"] = lambda v: v[..., :2]
    wc["five channels"] = lambda v: torch.cat([v, v], -1)[..., :5]
    wk = tensor_ways(args["proj_mat"], [-1, -2], ranks=False)
    wk["rank 1"] = lambda v: v.reshape(-1)[:4]
    wk["rank + 2"] = lambda v: v.reshape((1, 1) + tuple(v.shape)) if v.ndim == 3 else v.reshape(1, 1, 4, 4)
    if batch:
        wk["batch + 1"] = resize(0, 1)
    return (lambda a: pj.project_points(**a)), args, dict(cam_coords=wc, proj_mat=wk), [args]


@entry
def unproject(c):
    batch = bool(c["s"] & 1)
    args = dict(pixel_coords=T(arr(c["s"], (c["B"], c["n"] + 1, 2 + (c["s"] >> 1) % 2), 0.5, 2, "x")), intrinsics_inv=T(np.linalg.inv(K4(c, batch).detach().cpu().double().numpy()[..., :3, :3])), depths=T(arr(c["s"], (c["B"], c["n"] + 1), 1, 2, "d")))
    wc = wrong_types()
    wc["rank 1"] = lambda v: v[0, 0]
    wc["one channel"] = lambda v: v[..., :1]
    wc["four channels"] = lambda v: torch.cat([v, v], -1)[..., :4]
    wc["one pixel more"] = resize(1, 1)
    wk = tensor_ways(args["intrinsics_inv"], [-1, -2], ranks=False)
    wk["rank 1"] = lambda v: v.reshape(-1)[:3]
    wk["rank + 2"] = lambda v: v.reshape((1, 1) + tuple(v.shape))
    if batch:
        wk["batch + 1"] = resize(0, 1)
    wd = tensor_ways(args["depths"], [0, 1])
    return (lambda a: pj.unproject_points(**a)), args, dict(pixel_coords=wc, intrinsics_inv=wk, depths=wd), [args]


@entry
def intrinsics_inverse(c):
    k = 3 + c["s"] % 2
    args = dict(K=K4(c, bool(c["s"] & 2))[..., :k, :k].contiguous())
    w = tensor_ways(args["K"], [args["K"].ndim - 1, args["K"].ndim - 2], ranks=False)
    w["rank 1"] = lambda v: v.reshape(-1)[:k]
    w["five"] = lambda v: torch.eye(5)
    return (lambda a: pj.inverse_intrinsics(**a)), args, dict(K=w), [args]


def make_homog(mod, name, arg):
    def f(c):
        args = dict(pts=T(arr(c["s"], (c["B"], c["n"], 4), 0.5, 2, "x")))
        w = wrong_types()
        w["rank 1"] = lambda v: v[0, 0]
        return (lambda a: getattr(mod, name)(**a)), args, dict(pts=w), [args]
    f.__name__ = "%s_%s" % (mod.__name__.rsplit(".", 1)[1], name)
    return entry(f)


for _m in (pj, gu):
    for _n in ("homogenize_points", "unhomogenize_points"):
        make_homog(_m, _n, "pts")


@entry
def rigid(c):
    P = lambda tag: T(np.stack([pose(c["s"], tag="%s%d" % (tag, b)) for b in range(c["B"])]) if c["s"] & 1 else pose(c["s"], tag=tag))
    k = (c["s"] >> 1) % 3
    if k == 0:
        args = dict(trans=P("a"))
        f = gu.inverse_transfom_3d
    else:
        a, b = ("trans1", "trans2") if k == 1 else ("trans_01", "trans_02")
        args = {a: P("a"), b: P("b")}
        f = gu.compose_transforms_3d if k == 1 else gu.relative_transformation
    ways = {}
    for q, v in args.items():
        w = tensor_ways(v, [v.ndim - 1, v.ndim - 2], ranks=False)
        w["three by three"] = lambda v: v[..., :3, :3]
        w["rank 1"] = lambda v: v.reshape(-1)[:4]
        w["rank 4"] = lambda v: v.reshape((1, 1, -1, 4, 4))[0]
        if k:
            w["one batched, the other not"] = lambda v: v[0] if v.ndim == 3 else v[None]
        if k == 1 and v.ndim == 3:
            w["one more"] = resize(0, 1)
        ways[q] = w
    return (lambda a: f(**a)), args, ways, [args]


rigid.asserts = True


def like(*z):
    """Types that are neither tensors nor arrays."""
    return {"type " + q: (lambda v, y=y: y) for q, y in dict(text="x", none=None, nested=[[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0]], number=1.5, dict={}).items() if q not in z}


@entry
def relative_3d(c):
    P = lambda tag: T(np.stack([pose(c["s"], tag="%s%d" % (tag, b)) for b in range(c["B"])]) if c["s"] & 1 else pose(c["s"], tag=tag))
    args = dict(trans_01=P("a"), trans_02=P("b"))
    ways = {}
    for q, v in args.items():
        w = tensor_ways(v, [v.ndim - 1, v.ndim - 2], ranks=False)
        w["three by three"] = lambda v: v[..., :3, :3]
        w["one batched, the other not"] = lambda v: v[0] if v.ndim == 3 else v[None]
        if v.ndim == 3:
            w["one more"] = resize(0, 1)
        ways[q] = w
    return (lambda a: gu.relative_transform_3d(**a)), args, ways, [args]


relative_3d.asserts = True


@entry
def axisangle(c):
    args = dict(quat=T(arr(c["s"], (c["B"], c["n"], 4)[c["s"] % 2:], -1, 1, "q") + 0.05))
    w = wrong_types()
    w["three"] = lambda v: v[..., :3]
    w["five"] = lambda v: torch.cat([v, v], -1)[..., :5]
    return (lambda a: gu.quaternion_to_axisangle(**a)), args, dict(quat=w), [args]


@entry
def quaternion(c):
    f = [gu.normalize_quaternion, gu.quaternion_to_rotation_matrix][c["s"] % 2]
    args = dict(quaternion=T(arr(c["s"], (c["B"], c["n"], 4)[(c["s"] >> 1) % 2:], -1, 1, "q") + 0.05))
    w = {"three": lambda v: v[..., :3], "five": lambda v: torch.cat([v, v], -1)[..., :5], "one": lambda v: v[..., :1]}
    return (lambda a: f(**a)), args, dict(quaternion=w), [args]


@entry
def points_3d(c):
    args = dict(pts_b=T(arr(c["s"], (2, c["n"], 3)[c["s"] % 2:], -1, 1, "x")), t_ab=T(pose(c["s"])))
    w = dict(pts_b=wrong_types(), t_ab=tensor_ways(args["t_ab"], [0, 1]))
    w["pts_b"]["rank 1"] = lambda v: v.reshape(-1)[:3]
    w["t_ab"]["three by three"] = lambda v: v[:3, :3]
    return (lambda a: gu.transform_pts_3d(**a)), args, w, [args]


@entry
def points_nd(c):
    B, n = c["B"], c["n"]
    D = 2 + c["s"] % 2
    P = np.stack([pose(c["s"], tag="%d" % b)[-D - 1:, -D - 1:] for b in range(B)])
    args = dict(pts=T(arr(c["s"], (B, n, D), -1, 1, "x")), tform=T(P))
    w = dict(pts={"one more in the batch": resize(0, 1), "one channel more": resize(2, 1), "one channel less": resize(2, -1)},
             tform={"one more": resize(0, 1), "a column less": resize(2, -1), "a column more": resize(2, 1)})
    return (lambda a: gu.transform_pts_nd_KF(**a)), args, w, [args]


def make_coords(name, arg):
    def f(c):
        args = {arg: T(arr(c["s"], (c["B"], c["n"], 5, 2)[c["s"] % 3:], -1, 1, "x")), "height": 2 + c["n"], "width": 3 + c["n"]}
        w = {arg: wrong_types(), "height": scalar_ways(), "width": scalar_ways()}
        w[arg]["one"] = lambda v: v[..., :1]
        w[arg]["three"] = lambda v: torch.cat([v, v], -1)[..., :3]
        for k in ("height", "width"):
            w[k].update({"float": float, "tensor": lambda v: torch.tensor(v)})
        return (lambda a: getattr(gu, name)(**a)), args, w, [args]
    f.__name__ = name
    f.asserts = True
    return entry(f)


make_coords("normalize_pixel_coords", "pixel_coords")
make_coords("unnormalize_pixel_coords", "pixel_coords_norm")


@entry
def camera_to_pixel(c):
    B, h, w_ = c["B"], 2 + c["n"], 3
    batch = bool(c["s"] & 1)
    args = dict(cam_coords_src=T(arr(c["s"], (B, h, w_, 3) if batch else (h, w_, 3), 0.5, 2, "x")), dst_proj_src=K4(c, False))
    w = dict(cam_coords_src=wrong_types(), dst_proj_src=tensor_ways(args["dst_proj_src"], [0, 1]))
    w["cam_coords_src"].update({"two channels": lambda v: v[..., :2], "four channels": lambda v: torch.cat([v, v], -1)[..., :4],
                                "rank 2": lambda v: v.reshape(-1, 3), "rank 5": lambda v: v.reshape((1, 1) + tuple(v.shape))[(slice(None),) + (0,) * batch]})
    return (lambda a: gu.cam2pixel(**a)), args, w, [args]


camera_to_pixel.asserts = True


@entry
def camera_to_pixel_kf(c):
    args = dict(cam_coords_src=T(arr(c["s"], (c["B"], c["n"], 3), 0.5, 2, "x")), P=K4(c, True))
    w = dict(cam_coords_src=wrong_types(), P=tensor_ways(args["P"], [0, 1, 2], ranks=False))
    w["cam_coords_src"].update({"two channels": lambda v: v[..., :2], "four channels": lambda v: torch.cat([v, v], -1)[..., :4], "one more": resize(0, 1)})
    w["P"]["rank 1"] = lambda v: v.reshape(-1)[:4]
    return (lambda a: gu.cam2pixel_KF(**a)), args, w, [args]


camera_to_pixel_kf.asserts = True


@entry
def pixel_to_camera(c):
    h, w_ = 2 + c["n"], 3 + c["n"]
    x = arr(c["s"], (h, w_, 3), 0, 2, "x")
    x[..., 2] = 1
    args = dict(depth=T(arr(c["s"], (h, w_), 0.5, 2, "d")), intrinsics_inv=T(np.linalg.inv(K4(c, False).detach().cpu().double().numpy())), pixel_coords=T(x))
    w = dict(depth=wrong_types(), intrinsics_inv=tensor_ways(args["intrinsics_inv"], [0, 1]), pixel_coords=wrong_types())
    w["pixel_coords"]["rank 1"] = lambda v: v.reshape(-1)[:3]
    return (lambda a: gu.pixel2cam(**a)), args, w, [args]


pixel_to_camera.asserts = True


def make_twist(name, arg, n):
    def f(c):
        args = {arg: T(arr(c["s"], (n,), -1, 1, "x"))}
        w = like()
        w["ndarray"] = lambda v: np.zeros(n, np.float32)
        w["too short"] = lambda v: v[:-1]
        return (lambda a: getattr(se3, name)(**a)), args, {arg: w}, [args]
    f.__name__ = name
    f.asserts = True
    return entry(f)


for _n, _a, _k in (("so3_hat", "omega", 3), ("se3_hat", "xi", 6), ("so3_exp", "omega", 3), ("se3_exp", "xi", 6)):
    make_twist(_n, _a, _k)


# ---------------------------------------------------------------- images, intrinsics, poses, padding
def maybe_np(c, x):
    return npy(x).copy() if (c["s"] >> 7) & 1 else x


@entry
def image_values(c):
    args = dict(rgb=maybe_np(c, T(arr(c["s"], (c["B"], c["n"], 3), 0, 255, "x"))))
    return (lambda a: du.normalize_image(**a)), args, dict(rgb=like()), [args]


@entry
def image_layout(c):
    args = dict(rgb=maybe_np(c, T(arr(c["s"], (c["B"], 4, 5, 3)[c["s"] % 2:], 0, 1, "x"))))
    w = like()
    w["rank 2"] = lambda v: v.reshape(-1, 3)
    w["rank 1"] = lambda v: v.reshape(-1)
    return (lambda a: du.channels_first(**a)), args, dict(rgb=w), [args]


@entry
def image_intrinsics(c):
    k = 3 + c["s"] % 2
    args = dict(intrinsics=maybe_np(c, K4(c, bool(c["s"] & 2))[..., :k, :k].contiguous()), h_ratio=0.5, w_ratio=2)
    w = like()
    w["three by four"] = lambda v: v[..., :3, :] if k == 4 else v[..., :2, :]
    w["four by three"] = lambda v: v[..., :, :k - 1]
    w["two by two"] = lambda v: v[..., :2, :2]
    w["rank 1"] = lambda v: v.reshape(-1)[:k]
    return (lambda a: du.scale_intrinsics(**a)), args, dict(intrinsics=w), [args]


@entry
def point_quaternions(c):
    args = dict(pointquaternions=maybe_np(c, T(arr(c["s"], (c["B"], c["n"], 7)[c["s"] % 3:], -1, 1, "x"))), eps=1e-12)
    w = like()
    cat = lambda v: np.concatenate([v, v], -1) if isinstance(v, np.ndarray) else torch.cat([v, v], -1)
    w["six"] = lambda v: v[..., :6]
    w["eight"] = lambda v: cat(v)[..., :8]
    w["one"] = lambda v: v[..., :1]
    we = scalar_ways()
    we["int"] = lambda v: 0
    we["tensor"] = lambda v: torch.tensor(1e-12)
    return (lambda a: du.pointquaternion_to_homogeneous(**a)), args, dict(pointquaternions=w, eps=we), [args]


@entry
def to_padded(c):
    ns = [1 + (c["s"] >> (3 * b)) % 4 for b in range(c["B"])]
    k = (c["s"] >> 12) % 2
    args = dict(x=[T(arr(c["s"], (n, 3), -1, 1, "x%d" % b)) for b, n in enumerate(ns)], pad_size=[None, (max(ns), 3)][k] if (c["s"] >> 13) % 2 else [max(ns) + 1, 4])
    j = c["s"] % c["B"]
    wx = {"an item of rank 1": on(j, lambda x: x.reshape(-1)), "an item of rank 3": on(j, lambda x: x[None])}
    wp = {"of one": lambda v: (max(ns),), "of three": lambda v: (max(ns), 3, 1), "too few points": lambda v: (max(ns) - 1, 3), "too few channels": lambda v: [max(ns), 2]}
    return (lambda a: su.list_to_padded(**a)), args, dict(x=wx, pad_size=wp), [args]


@entry
def to_list(c):
    B, n = c["B"], c["n"]
    ns = [1 + (c["s"] >> (3 * b)) % n for b in range(B)]
    args = dict(x=T(arr(c["s"], (B, n, 3), -1, 1, "x")), split_size=[None, ns, tuple((k, 2) for k in ns)][c["s"] % 3])
    wx = {"rank - 1": lambda v: v[0], "rank + 1": lambda v: v[None]}
    ws = {"one more": lambda v: list(v or ns) + [1], "of three": lambda v: [(1, 1, 1)] * B, "of one": lambda v: [(1,)] * B, "the last of three": lambda v: ns[:-1] + [(1, 1, 1)]}
    if B > 1:
        ws["one less"] = lambda v: list(v or ns)[:-1]
    return (lambda a: su.padded_to_list(**a)), args, dict(x=wx, split_size=ws), [args]


@entry
def plotly_image(c):
    args = dict(img=np.clip(arr(c["s"], (3 + c["n"], 4, 3) if c["s"] % 2 else (3 + c["n"], 4), 0, 255, "x"), 0, 255).astype(np.uint8))
    w = like()
    w["tensor"] = lambda v: torch.as_tensor(v.copy())
    w["rank 1"] = lambda v: v.reshape(-1)
    w["rank 4"] = lambda v: v.reshape((1,) * (4 - v.ndim) + v.shape)
    f = [su.numpy_to_plotly_image, su.img_to_b64str][(c["s"] >> 1) % 2]
    return (lambda a: f(**a)), args, dict(img=w), [args]


def make_transform(name, arg):
    def f(c):
        args = {arg: T(arr(c["s"], (c["n"] + 1, 3), -1, 1, "x")), "transform": T(pose(c["s"]))}
        w = {arg: tensor_ways(args[arg], [1]), "transform": tensor_ways(args["transform"], [0, 1])}
        w["transform"].pop("rank + 1")
        return (lambda a: getattr(gu, name)(**a)), args, w, [args]
    f.__name__ = name
    return entry(f)


make_transform("transform_pointcloud", "pointcloud")
make_transform("transform_normals", "normals")


# ---------------------------------------------------------------- the check
def warm(objs, on_):
    if on_:
        for o in objs:
            look(o)


def unpack(e):
    call, args, ways, watched = e[:4]
    return (e[4] if len(e) > 4 else call), args, ways, watched, call is not None


@test("C25", fixed(entry=st.sampled_from(sorted(ENTRIES)), **base), quick=30000)
def malformed(case, ctx):
    f = ENTRIES[case["entry"]]
    call, args, ways, watched, _ = unpack(f(case))
    how = apply(case, args, ways)
    ctx.nt()
    ctx.event(case["entry"])
    # a twin nobody touches, with the same departure
    _, targs, tways, twatched, _ = unpack(f(case))
    apply(case, targs, tways)
    warm(watched, case["warm"])
    kinds = REFUSE + ((NotImplementedError,) if getattr(f, "operator", False) else ()) + ((AssertionError,) if getattr(f, "asserts", False) else ())
    raises(lambda: call(args), kinds, "%s with malformed %s" % (case["entry"], how))
    compare(look(twatched), look(watched), "%s with malformed %s: after the refusal, argument or receiver" % (case["entry"], how))


@test("C25", fixed(entry=st.sampled_from(sorted(k for k, f in ENTRIES.items() if k not in ("set_on_empty", "index_empty"))), **base), quick=4000)
def wellformed(case, ctx):
    call, args, ways, watched, _ = unpack(ENTRIES[case["entry"]](case))
    warm(watched, case["warm"])
    try:
        call(args)
        ctx.nt()
    except (Violation, Reject):
        raise
    except Exception as e:
        fail("%s refused well-formed arguments: %s: %s", case["entry"], type(e).__name__, e)
