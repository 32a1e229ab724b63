"""C21: dataset helper functions."""
from collections import OrderedDict
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import dsets
from gradslam.datasets import datautils as du
from gradslam.datasets.scannet import get_color_encoding

rule("C21", "Cases are images (1-5 axes, several dtypes, array and tensor, also non-contiguous), zero-skew pinhole matrices with batch axes, position-quaternion rows of any "
     "quaternion scale, pose sequences and class images; results are compared with the definitions, arrays with tensors, and the input with a copy of itself. "
     "Non-trivial: the result differs from the input and, where a kind exists, both kinds ran.")

shapes = st.lists(st.integers(0, 5), min_size=1, max_size=4)


def both(fn, a, what, tol=1e-6):
    """fn on the array and on the tensor: right kinds, same numbers, inputs kept."""
    keep = a.copy()
    n = fn(a)
    check(isinstance(n, np.ndarray), "%s: array in, %s out", what, type(n).__name__)
    check(np.array_equal(a, keep, equal_nan=False) and a.dtype == keep.dtype, "%s changed its array input", what)
    t = torch.from_numpy(keep.copy())
    r = fn(t)
    check(torch.is_tensor(r), "%s: tensor in, %s out", what, type(r).__name__)
    check(np.array_equal(t.numpy(), keep), "%s changed its tensor input", what)
    close(r, n, what + ": tensor result", rtol=tol, atol=tol)
    # the result is the caller's own: changing it must not reach the input
    if n.size:
        n += 1
        r += 1
        check(np.array_equal(a, keep) and np.array_equal(t.numpy(), keep), "%s: the result shares memory with the input", what)
        n -= 1
        r -= 1
    return n, r


@test("C21", fixed(s=seeds, shape=shapes, dt=st.sampled_from(["uint8", "float32", "float64", "int64", "int16"]), bad=st.integers(0, 5)), quick=3000)
def normalize(case, ctx):
    a = arr(case["s"], tuple(case["shape"]), 0, 256)
    a = np.asarray(a if case["dt"].startswith("float") else np.floor(a)).astype(case["dt"])
    n, r = both(du.normalize_image, a, "normalize_image")
    check(n.dtype.kind == "f" and r.dtype.is_floating_point, "not floating point")
    close(n, a.astype(np.float64) / 255, "normalized", rtol=1e-6, atol=1e-7)
    ctx.nt(a.size > 0)
    if case["bad"] == 0:
        raises(lambda: du.normalize_image(a.tolist()), TypeError, "a list")


@test("C21", fixed(s=seeds, shape=st.lists(st.integers(1, 5), min_size=1, max_size=5), dt=st.sampled_from(["uint8", "float32", "int64"]), layout=st.integers(0, 2)), quick=3000)
def layout(case, ctx):
    sh = tuple(case["shape"])
    a = np.floor(arr(case["s"], sh, 0, 256)).astype(case["dt"])
    if len(sh) < 3:
        raises(lambda: du.channels_first(a), ValueError, "%d axes" % len(sh))
        raises(lambda: du.channels_first(torch.from_numpy(np.array(a))), ValueError, "%d axes (tensor)" % len(sh))
        raises(lambda: du.channels_first(a.tolist()), (TypeError,), "a list")
        return
    want = np.moveaxis(a, -1, -3)
    x = np.asfortranarray(a) if case["layout"] == 1 else a[..., ::-1].copy()[..., ::-1] if case["layout"] == 2 else a
    keep = x.copy()
    g = du.channels_first(x)
    check(isinstance(g, np.ndarray) and g.dtype == x.dtype, "array in, %s out", type(g).__name__)
    same(g, want, "channels first array")
    check(np.array_equal(x, keep), "input changed")
    t = torch.from_numpy(a.copy())
    if case["layout"]:
        t = t.transpose(-3, -2).contiguous().transpose(-3, -2)
    g = du.channels_first(t)
    check(torch.is_tensor(g) and g.dtype == t.dtype, "tensor in, %s out", type(g).__name__)
    same(g, want, "channels first tensor")
    same(t, a, "input after")
    ctx.nt(sh[-1] > 1 and sh[-3] * sh[-2] > 1)


ratios = st.one_of(st.sampled_from([1.0, 0.5, 2.0, 1 / 3, 1, 2, 3]), st.floats(0.01, 20))


@test("C21", fixed(s=seeds, batch=st.lists(st.integers(1, 3), max_size=3), four=st.booleans(), h=ratios, w=ratios, h2=ratios, w2=ratios,
                   dt=st.sampled_from(["float32", "float64", "int64", "int32"]), bad=st.integers(0, 9)), quick=3000)
def intrinsics(case, ctx):
    s, n = case["s"], 4 if case["four"] else 3
    B = tuple(case["batch"])
    K = np.zeros(B + (n, n))
    K[..., range(n), range(n)] = 1
    f, c = arr(s, B + (2,), 50, 900, "f"), arr(s, B + (2,), -50, 700, "c")
    K[..., 0, 0], K[..., 1, 1], K[..., 0, 2], K[..., 1, 2] = f[..., 0], f[..., 1] * (1 if s % 2 else -1), c[..., 0], c[..., 1]
    K = (np.floor(K) if case["dt"].startswith("int") else K).astype(case["dt"])
    h, w = case["h"], case["w"]
    got, _ = both(lambda x: du.scale_intrinsics(x, h, w), K, "scale_intrinsics")
    X = arr(s, (5, 3), -1, 1, "x") + [0, 0, 2]
    u = np.einsum("...ij,pj->...pi", K[..., :3, :3].astype(np.float64), X)
    v = np.einsum("...ij,pj->...pi", np.asarray(got, np.float64)[..., :3, :3], X)
    u, v = u[..., :2] / u[..., 2:], v[..., :2] / v[..., 2:]
    close(v, u * [w, h], "pixels projected by the scaled matrix", rtol=1e-5, atol=1e-3 * max(h, w, 1))
    rest = np.array(got, np.float64)
    rest[..., 0, 0] = rest[..., 1, 1] = 1
    rest[..., :2, 2] = 0
    close(rest, np.broadcast_to(np.eye(n), rest.shape), "entries other than focal lengths and centre", rtol=0, atol=0)
    twice = du.scale_intrinsics(got, case["h2"], case["w2"])
    close(twice, du.scale_intrinsics(K, h * case["h2"], w * case["w2"]), "scaling twice", rtol=1e-5, atol=1e-4)
    ctx.nt(h != w and h != 1 and w != 1)
    if case["bad"] == 0:
        raises(lambda: du.scale_intrinsics(K.tolist(), h, w), TypeError, "a list")
        raises(lambda: du.scale_intrinsics(K[..., :2, :], h, w), ValueError, "a matrix of wrong shape")


@test("C21", fixed(s=seeds, batch=st.lists(st.integers(0, 4), max_size=3), k=st.integers(-8, 5), dt=st.sampled_from(["float32", "float64"]), special=st.integers(0, 6), bad=st.integers(0, 9)), quick=3000)
def quaternions(case, ctx):
    s, B = case["s"], tuple(case["batch"])
    v = arr(s, B + (7,), -1, 1)
    q = v[..., 3:]
    q[np.linalg.norm(q, axis=-1) < 0.1] = [0, 0, 0, 1]
    if case["special"] == 0:
        q[...] = np.eye(4)[s % 4] * (1 if s % 3 else -1)
    elif case["special"] == 1:
        q /= np.linalg.norm(q, axis=-1, keepdims=True)
    else:
        q *= 10.0 ** case["k"]
    v[..., :3] *= 5
    v = v.astype(case["dt"])
    keep = v.copy()
    got, _ = both(du.pointquaternion_to_homogeneous, v, "pointquaternion_to_homogeneous", tol=1e-5)
    check(got.shape == B + (4, 4), "shape %s", got.shape)
    want = np.zeros(B + (4, 4))
    for i in np.ndindex(*B):
        want[i] = np.eye(4)
        want[i][:3, :3], want[i][:3, 3] = dsets.quat_rot(keep[i][3:]), keep[i][:3]
    close(got, want, "transforms", rtol=1e-5, atol=5e-6)
    ctx.nt(int(np.prod(B)) > 0)
    if case["bad"] == 0:
        raises(lambda: du.pointquaternion_to_homogeneous(v.tolist()), TypeError, "a list")
        raises(lambda: du.pointquaternion_to_homogeneous(v[..., :6]), ValueError, "rows of six")
        raises(lambda: du.pointquaternion_to_homogeneous(v, 1), TypeError, "an integer eps")


@test("C21", fixed(s=seeds, n=st.integers(1, 7), kind=st.integers(0, 2), dt=st.sampled_from(["float32", "float64"])), quick=2500)
def transforms(case, ctx):
    P = np.stack([pose(case["s"], maxt=4.0, tag="%d" % i) for i in range(case["n"])]).astype(case["dt"])
    x = P.copy() if case["kind"] == 0 else [p.copy() for p in P] if case["kind"] == 1 else [p for p in P.copy()]
    got = du.poses_to_transforms(x)
    check(isinstance(got, np.ndarray) == (case["kind"] == 0) and len(got) == case["n"], "kind or length of the result")
    same(np.stack(list(x)), P, "poses after")
    acc = np.eye(4)
    for i in range(case["n"]):
        check(np.shape(got[i]) == (4, 4), "shape %s", np.shape(got[i]))
        close(got[i], np.linalg.inv(P[i - 1].astype(np.float64)) @ P[i] if i else np.eye(4), "transform %d" % i, rtol=1e-4, atol=2e-5)
        acc = acc @ np.asarray(got[i], np.float64)
        close(P[0].astype(np.float64) @ acc, P[i], "pose %d from chained transforms" % i, rtol=1e-4, atol=1e-4)
    for i in range(case["n"]):
        np.asarray(got[i])[...] = 7
    same(np.stack(list(x)), P, "poses after changing the result")
    ctx.nt(case["n"] > 1)


@test("C21", fixed(s=seeds, hw=st.tuples(st.integers(0, 7), st.integers(0, 7)), pal=st.sampled_from(["nyu40", "scannet20", "own"]), n=st.integers(1, 9), dt=st.sampled_from(["uint8", "int64", "int32", "int16"]), out=st.integers(0, 3)), quick=3000)
def labels(case, ctx):
    s = case["s"]
    if case["pal"] == "own":
        pal = OrderedDict(("c%d" % i, tuple(int(x) for x in np.floor(arr(s, (3,), 0, 256, "pal%d" % i)))) for i in range(case["n"]))
    else:
        pal = get_color_encoding(case["pal"])
    k = len(pal) + min(case["out"], 1) * 3     # with `out`, some pixels hold no known class: those stay black
    pred = np.floor(arr(s, tuple(case["hw"]), 0, k)).astype(case["dt"])
    if case["out"] >= 2 and case["dt"] != "uint8":     # labels far outside the palette, equal to a class modulo 2**8 or 2**16, or negative
        off = np.array([0, 256, -256, -len(pal), 512] + ([65536, -65536] if case["dt"] != "int16" else []))
        pred = (pred + off[np.floor(arr(s, pred.shape, 0, len(off), "off")).astype(int)]).astype(case["dt"])
    keep, pk = pred.copy(), list(pal.items())
    img = du.create_label_image(pred, pal)
    check(isinstance(img, np.ndarray) and img.shape == pred.shape + (3,) and img.dtype == np.uint8, "label image %s %s", img.shape, img.dtype)
    cols = np.array(list(pal.values()) + [(0, 0, 0)], dtype=np.uint8)
    ids = keep.astype(np.int64)
    same(img, cols[np.where((ids >= 0) & (ids < len(pal)), ids, len(pal))], "label image")
    check(np.array_equal(pred, keep) and list(pal.items()) == pk, "inputs changed")
    ctx.nt(len(np.unique(pred)) > 1)
