"""C08: rigid-body mathematics."""
import numpy as np
import scipy.linalg
import torch
from hypothesis import strategies as st
from core import *
from core import T
from gradslam.geometry import geometryutils as G, se3utils as S

rule("C08", "A case is a twist / rotation vector with angle 0 or log-uniform in 1e-9..10 (and up to 100), one or three transforms (single, batched, "
     "batches of every small size including 3 and 4), points, or a quaternion scaled by 1e-8..1e8 with either sign and any leading shape, in float32 or "
     "float64; results are compared with scipy's matrix exponential, numpy matrix products and the standard quaternion formula. Non-trivial: a "
     "nonzero rotation is involved.")

angle = st.one_of(st.just(0.0), st.floats(-9, 1).map(lambda e: 10.0 ** e), st.floats(0, 100))


def dt(c):
    return torch.float64 if c["f64"] else torch.float32


def rnd(c, a):
    a = np.asarray(a, np.float64)
    return a if c["f64"] else a.astype(np.float32).astype(np.float64)


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def rotvec(c):
    a = arr(c["s"], (3,), -1, 1, "axis")
    if c["axis"] < 3:
        a = np.eye(3)[c["axis"]] * (1 if c["s"] % 2 else -1)
    n = np.linalg.norm(a)
    return rnd(c, a / n * c["angle"])


twist = fixed(angle=angle, axis=st.integers(0, 9), vscale=st.sampled_from([0.0, 1e-3, 1.0, 30.0]), s=seeds, f64=st.booleans())


def proper(R, what, tol):
    R = npy(R, what).astype(np.float64)
    close(R @ np.swapaxes(R, -1, -2), np.broadcast_to(np.eye(3), R.shape), what + " times its transpose", rtol=0, atol=tol)
    close(np.linalg.det(R), np.ones(R.shape[:-2]), "determinant of " + what, rtol=0, atol=tol)


@test("C08", twist, quick=8000)
def exponential_maps(case, ctx):
    w = rotvec(case)
    v = rnd(case, arr(case["s"], (3,), -1, 1, "v") * case["vscale"])
    th = float(np.linalg.norm(w))
    ctx.nt(th > 0)
    ctx.event("tiny" if th < 1e-5 else "small" if th < 1e-2 else "large")
    e = 1e-11 if case["f64"] else 2e-6 * max(1.0, th)
    wt = T(w, dt(case))
    same(npy(S.so3_hat(wt)).astype(np.float64), hat(w), "so3_hat")
    R = S.so3_exp(wt)
    check(R.dtype == dt(case), "so3_exp changed the dtype")
    close(R, scipy.linalg.expm(hat(w)) if th < 10 else rot_axis_angle(w, th), "so3_exp", rtol=0, atol=e)
    proper(R, "so3_exp", 3 * e)
    xt = T(np.concatenate([v, w]), dt(case))
    keep = xt.clone()
    X = np.zeros((4, 4))
    X[:3, :3], X[:3, 3] = hat(w), v
    same(npy(S.se3_hat(xt)).astype(np.float64), X, "se3_hat")
    M = npy(S.se3_exp(xt)).astype(np.float64)
    check(M.shape == (4, 4), "se3_exp has shape %s", M.shape)
    same(M[3], np.array([0., 0, 0, 1]), "last row of se3_exp")
    want = scipy.linalg.expm(X)
    close(M[:3, :3], npy(R).astype(np.float64), "rotation of se3_exp", rtol=0, atol=e)
    close(M[:3, 3], want[:3, 3], "translation of se3_exp", rtol=0, atol=(1e-11 if case["f64"] else 3e-6) * max(1.0, th), scale=np.abs(v).max())
    same(xt, keep, "the twist after se3_exp")
    # exp(-xi) inverts
    close(npy(S.se3_exp(-xt)).astype(np.float64) @ M, np.eye(4), "se3_exp(-x) times se3_exp(x)", rtol=0,
          atol=(1e-10 if case["f64"] else 1e-5) * max(1.0, th), scale=np.abs(v).max())


def transforms(c, n):
    """n stacks of transforms with the case's batch shape (None: single)."""
    B = c["B"]
    out = []
    for i in range(n):
        M = np.stack([pose(c["s"], tag="T%d,%d" % (i, b)) for b in range(max(B, 1))])
        out.append(rnd(c, M if B else M[0]))
    return out


group = fixed(B=st.integers(0, 5), s=seeds, f64=st.booleans(), orth=st.booleans())


@test("C08", group, quick=8000)
def group_laws(case, ctx):
    A, Bm, C = transforms(case, 3)
    a, b, c = (T(x, dt(case)) for x in (A, Bm, C))
    keep = [x.clone() for x in (a, b, c)]
    e = 1e-9 if case["f64"] else 2e-5
    I = np.broadcast_to(np.eye(4), A.shape)
    ctx.nt()
    ctx.event("B=%d" % case["B"])
    inv = G.inverse_transfom_3d(a)
    close(inv, np.linalg.inv(A), "inverse", rtol=0, atol=e)
    close(G.compose_transforms_3d(inv, a), I, "inverse composed with the transform", rtol=0, atol=e)
    close(G.compose_transforms_3d(a, inv), I, "transform composed with its inverse", rtol=0, atol=e)
    ab = G.compose_transforms_3d(a, b)
    close(ab, A @ Bm, "composition", rtol=0, atol=e)
    l, r = G.compose_transforms_3d(ab, c), G.compose_transforms_3d(a, G.compose_transforms_3d(b, c))
    close(l, npy(r), "associativity", rtol=0, atol=4 * e)
    proper(ab[..., :3, :3], "rotation of a composition", 10 * e)
    rel = G.relative_transform_3d(a, b)
    close(G.compose_transforms_3d(a, rel), Bm, "first composed with the relative transform", rtol=0, atol=4 * e)
    rel2 = G.relative_transformation(a, b, orthogonal_rotations=case["orth"])
    close(rel2, np.linalg.inv(A) @ Bm, "relative transformation", rtol=0, atol=4 * e)
    rel3 = G.relative_transformation(a, b)
    close(rel3, npy(rel2), "relative transformation in both ways", rtol=0, atol=4 * e)
    same(npy(rel)[..., 3, :], np.broadcast_to(np.array([0, 0, 0, 1.0]), A.shape[:-2] + (4,)).astype(npy(rel).dtype), "last row")
    for x, k, n in zip((a, b, c), keep, "first second third".split()):
        same(x, k, "the %s argument afterwards" % n)


@test("C08", fixed(B=st.integers(0, 4), s=seeds, f64=st.booleans()), quick=3000)
def relative_of_general_matrices(case, ctx):
    """The general relative transformation also works for non-orthogonal (scaled) rotation parts."""
    A, Bm = transforms(case, 2)
    sc = arr(case["s"], A.shape[:-2] + (1, 1), 0.5, 2.0, "scale")
    A = A.copy()
    A[..., :3, :3] = rnd(case, A[..., :3, :3] * sc)
    ctx.nt()
    g = G.relative_transformation(T(A, dt(case)), T(Bm, dt(case)))
    close(g, np.linalg.inv(A) @ Bm, "relative transformation", rtol=0, atol=1e-9 if case["f64"] else 1e-4)


@test("C08", fixed(n=st.integers(0, 6), s=seeds, f64=st.booleans(), lead=st.sampled_from([0, 1, 2])), quick=5000)
def acting_on_points_and_normals(case, ctx):
    s, n = case["s"], case["n"]
    A, Bm = (rnd(case, pose(s, tag="A")), rnd(case, pose(s, tag="B")))
    p = rnd(case, arr(s, (n, 3), -3, 3, "p"))
    a, b, pt = T(A, dt(case)), T(Bm, dt(case)), T(p, dt(case))
    e = 1e-10 if case["f64"] else 3e-5
    ctx.nt(n > 0)
    want = p @ A[:3, :3].T + A[:3, 3]
    g = G.transform_pointcloud(pt, a)
    close(g, want, "transform_pointcloud", rtol=0, atol=e)
    close(G.transform_normals(pt, a), p @ A[:3, :3].T, "transform_normals", rtol=0, atol=e)
    both = G.transform_pointcloud(G.transform_pointcloud(pt, b), a)
    close(both, npy(G.transform_pointcloud(pt, T(A @ Bm, dt(case)))), "two transforms in turn", rtol=0, atol=4 * e)
    close(G.transform_pointcloud(g, G.inverse_transfom_3d(a)), p, "there and back", rtol=0, atol=4 * e)
    close(G.transform_pts_3d(pt, a), want, "transform_pts_3d", rtol=0, atol=e)
    q = rnd(case, arr(s, (2, 3, n, 3), -3, 3, "q"))
    close(G.transform_pts_3d(T(q, dt(case)), a), q @ A[:3, :3].T + A[:3, 3], "transform_pts_3d of images", rtol=0, atol=e)
    Bn = 1 + s % 4
    q = rnd(case, arr(s, (Bn, n, 3), -3, 3, "q2"))
    Ms = np.stack([rnd(case, pose(s, tag="M%d" % i)) for i in range(Bn)])
    close(G.transform_pts_nd_KF(T(q, dt(case)), T(Ms, dt(case))), np.einsum("bij,bnj->bni", Ms[:, :3, :3], q) + Ms[:, None, :3, 3],
          "transform_pts_nd_KF", rtol=0, atol=e)
    same(pt, npy(T(p, dt(case))), "points afterwards")
    same(a, npy(T(A, dt(case))), "transform afterwards")


def qmat(q):
    x, y, z, w = np.moveaxis(q / np.linalg.norm(q, axis=-1, keepdims=True), -1, 0)
    return np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w),
                     2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
                     2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)], -1).reshape(q.shape[:-1] + (3, 3))


@test("C08", fixed(lead=st.lists(st.integers(1, 4), max_size=3), kind=st.sampled_from(["any", "any", "tiny", "half", "axis", "id"]),
                   scale=st.sampled_from([1.0, 1.0, -1.0, 1e-3, 1e-6, 1e-8, -250.0, 1e3, 1e8]), s=seeds, f64=st.booleans()), quick=6000)
def quaternions(case, ctx):
    lead, s = tuple(case["lead"]), case["s"]
    q = arr(s, lead + (4,), -1, 1, "q")
    k = case["kind"]
    if k == "tiny":
        q[..., :3] *= 1e-4
        q[..., 3] = 1
    elif k == "half":
        q[..., 3] = 0
    elif k == "axis":
        q[..., 1:3] = 0
    elif k == "id":
        q[..., :3] = 0
    n = np.linalg.norm(q, axis=-1, keepdims=True)
    q = np.where(n < 0.1, np.array([0.0, 0.0, 0.0, 1.0]), q)
    q = rnd(case, q / np.linalg.norm(q, axis=-1, keepdims=True) * case["scale"])
    ctx.event(k)
    ctx.nt(k != "id")
    e = 1e-9 if case["f64"] else 3e-6
    t = T(q, dt(case))
    R = G.quaternion_to_rotation_matrix(t)
    close(R, qmat(q), "rotation matrix of a quaternion", rtol=0, atol=e)
    proper(R, "rotation matrix of a quaternion", 3 * e)
    close(G.quaternion_to_rotation_matrix(-t), npy(R), "rotation matrix of the negated quaternion", rtol=0, atol=e)
    nq = G.normalize_quaternion(t)
    close(nq, q / np.linalg.norm(q, axis=-1, keepdims=True), "normalised quaternion", rtol=0, atol=e)
    aa = npy(G.quaternion_to_axisangle(t)).astype(np.float64)
    check(aa.shape == lead + (3,), "axis-angle has shape %s", aa.shape)
    finite(aa, "axis-angle")
    for i in np.ndindex(*lead):
        th = np.linalg.norm(aa[i])
        check(th < np.pi + 1e-4, "axis-angle of length %g", th)
        close(rot_axis_angle(aa[i], th), qmat(q[i]), "rotation by the axis-angle of a quaternion", rtol=0, atol=10 * e)
    same(t, npy(T(q, dt(case))), "quaternion afterwards")
