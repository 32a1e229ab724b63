"""C07: projection, back-projection, homogeneous and pixel coordinates."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
from gradslam.geometry import projutils as P, geometryutils as G

rule("C07", "A case is a batch of points/pixels of shape (N,k), (B,N,k) or (B,H,W,k), single or batched intrinsics with focal lengths 0.3-1000 "
     "and any principal point, scenes from 1e-4 to 300 units, float32 or float64, depths of both signs away from zero; results are compared with the pinhole equations in "
     "float64 numpy and round trips with the input. Non-trivial: at least two points.")

lead = st.one_of(st.tuples(st.integers(0, 8)), st.tuples(st.integers(1, 3), st.integers(0, 5)),
                 st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 4))).map(list)
geo = fixed(lead=lead, kb=st.booleans(), f64=st.booleans(), big=st.booleans(), homo=st.booleans(), mag=st.sampled_from([1.0, 1.0, 1e-2, 1e-4, 300.0]), s=seeds)


def dt(c):
    return torch.float64 if c["f64"] else torch.float32


def rnd(c, a):
    return np.asarray(a, np.float64) if c["f64"] else np.asarray(a, np.float64).astype(np.float32).astype(np.float64)


def intr(c, n=None):
    """(tensor 4x4-shaped with the documented batch shape, numpy (B or 1,4,4))."""
    lead = c["lead"]
    batched = c["kb"] and len(lead) > 1
    B = lead[0] if batched else 1
    Ks = []
    for b in range(B):
        v = arr(c["s"], (4,), 0, 1, "K%d" % b)
        K = np.eye(4)
        f = (10 ** (-0.5 + 3.5 * v[:2])) if c["big"] else 0.5 + 5 * v[:2]
        K[0, 0], K[1, 1] = f * np.where(arr(c["s"], (2,), 0, 1, "sign%d" % b) < 0.15, -1, 1)
        K[0, 2], K[1, 2] = (v[2:] - 0.2) * (600 if c["big"] else 5)
        Ks.append(rnd(c, K))
    Ks = np.stack(Ks)
    t = T(Ks[0], dt(c))
    if batched:
        # either (B,1,..,4,4): matching rank
        t = T(Ks, dt(c)).reshape([B] + [1] * (len(lead) - 2) + [4, 4])
    return t, Ks


def per(Ks, lead):
    """K broadcast over the leading shape."""
    B = Ks.shape[0]
    K = Ks.reshape([B] + [1] * (len(lead) - 1) + [4, 4])
    return np.broadcast_to(K, list(lead) + [4, 4]) if B > 1 or True else K


def points(c, tag="x"):
    """Points from a fifth to two scene scales away from the camera plane."""
    lead = c["lead"]
    p = arr(c["s"], tuple(lead) + (3,), -2, 2, tag)
    z = p[..., 2]
    p[..., 2] = np.where(np.abs(z) < 0.2, np.where(z < 0, -0.2, 0.2), z)
    return rnd(c, p * c["mag"])


def tol(c):
    return dict(rtol=1e-4, atol=1e-4) if not c["f64"] else dict(rtol=3e-6, atol=1e-5)


@test("C07", geo, quick=8000)
def projection_is_pinhole(case, ctx):
    lead = case["lead"]
    t, Ks = intr(case)
    K = per(Ks, lead)
    p = points(case)
    x = p
    if case["homo"]:
        x = np.concatenate([p, np.ones(p.shape[:-1] + (1,))], -1)
    xt = T(x, dt(case))
    keep, kt = xt.clone(), t.clone()
    got = P.project_points(xt, t)
    ctx.nt(int(np.prod(lead)) > 1)
    want = np.stack([K[..., 0, 0] * p[..., 0] / p[..., 2] + K[..., 0, 2], K[..., 1, 1] * p[..., 1] / p[..., 2] + K[..., 1, 2]], -1)
    sc = max(1.0, np.abs(want).max(initial=0), float(np.abs(Ks).max()) * 10)
    close(got, want, "projected points", rtol=1e-5, atol=1e-6 if not case["f64"] else 1e-12, scale=sc)
    same(xt, keep, "points after projecting")
    same(t, kt, "projection matrix after projecting")
    if not case["homo"] and len(lead) == 3 and t.dim() == 2:
        g = G.cam2pixel(xt, t)
        close(g, want, "cam2pixel", rtol=1e-5, atol=1e-6 if not case["f64"] else 1e-12, scale=sc)
    if not case["homo"] and len(lead) == 2:
        tk = T(np.broadcast_to(Ks, (lead[0], 4, 4)).copy(), dt(case))
        close(G.cam2pixel_KF(xt, tk), want, "cam2pixel_KF", rtol=1e-5, atol=1e-6 if not case["f64"] else 1e-12, scale=sc)


@test("C07", geo, quick=4000)
def general_projection_matrices(case, ctx):
    """K times a rigid motion; homogeneous input with any last coordinate."""
    lead = case["lead"]
    t, Ks = intr(case)
    Ms = rnd(case, np.stack([Ks[b] @ pose(case["s"], tag="M%d" % b) for b in range(Ks.shape[0])]))
    M = per(Ms, lead)
    mt = T(Ms, dt(case)).reshape(t.shape)
    p = points(dict(case, mag=1.0))
    w = np.ones(p.shape[:-1] + (1,))
    if case["homo"]:
        w = rnd(case, arr(case["s"], w.shape, 0.3, 2, "w"))
    x = np.concatenate([p, w], -1)
    y = np.einsum("...ij,...j->...i", M, x)
    if (np.abs(y[..., 2]) < 0.05).any():
        ctx.event("near the plane")
        raise Reject
    ctx.nt(int(np.prod(lead)) > 1)
    want = y[..., :2] / y[..., 2:3]
    got = P.project_points(T(x if case["homo"] else p, dt(case)), mt)
    close(got, want, "projected points", rtol=1e-4 if not case["f64"] else 1e-9, atol=2e-5 if not case["f64"] else 1e-10,
          scale=np.abs(want).max(initial=1) + np.abs(Ks).max() * 20)


@test("C07", geo, quick=8000)
def back_projection_is_pinhole(case, ctx):
    lead = case["lead"]
    t, Ks = intr(case)
    K = per(Ks, lead)
    s = case["s"]
    Kinv = np.linalg.inv(Ks)[:, :3, :3]
    kt = T(Kinv, dt(case)).reshape(list(t.shape[:-2]) + [3, 3])
    sz = 600.0 if case["big"] else 6.0
    uv = rnd(case, arr(s, tuple(lead) + (2,), -0.2 * sz, sz, "uv"))
    d = rnd(case, arr(s, tuple(lead), -1, 4, "depth") * case["mag"])
    x = np.concatenate([uv, np.ones(uv.shape[:-1] + (1,))], -1) if case["homo"] else uv
    got = P.unproject_points(T(x, dt(case)), kt, T(d, dt(case)))
    ctx.nt(int(np.prod(lead)) > 1)
    want = np.stack([(uv[..., 0] - K[..., 0, 2]) / K[..., 0, 0] * d, (uv[..., 1] - K[..., 1, 2]) / K[..., 1, 1] * d, d], -1)
    close(got, want, "back-projected points", rtol=1e-5, atol=2e-6 if not case["f64"] else 1e-11,
          scale=np.abs(want).max(initial=0) + np.abs(Kinv).max() * sz * 4 * case["mag"], floor=0)
    if len(lead) == 3 and Ks.shape[0] == 1 and lead[0] == 1 and case["homo"]:
        k4 = np.linalg.inv(Ks[0])
        g = G.pixel2cam(T(d[:, None], dt(case)), T(k4, dt(case)), T(x, dt(case)))
        close(g, want, "pixel2cam", rtol=1e-5, atol=2e-6 if not case["f64"] else 1e-11, scale=np.abs(want).max(initial=0) + np.abs(Kinv).max() * sz * 4 * case["mag"], floor=0)
        g = G.pixel2cam(T(d[0], dt(case)), T(k4, dt(case)), T(x[0], dt(case)))
        close(g, want[0], "pixel2cam of one image", rtol=1e-5, atol=2e-6 if not case["f64"] else 1e-11, scale=np.abs(want).max(initial=0) + np.abs(Kinv).max() * sz * 4 * case["mag"], floor=0)


@test("C07", geo, quick=6000)
def round_trips(case, ctx):
    lead = case["lead"]
    t, Ks = intr(case)
    kinv = P.inverse_intrinsics(t)
    check(tuple(kinv.shape) == tuple(t.shape), "inverse intrinsics have shape %s", tuple(kinv.shape))
    eye = np.broadcast_to(np.eye(4), tuple(t.shape))
    cmax = float(np.abs(Ks).max())
    close(npy(kinv @ t), eye, "inverse intrinsics times intrinsics", rtol=0, atol=1e-5, scale=cmax)
    close(npy(t @ kinv), eye, "intrinsics times inverse intrinsics", rtol=0, atol=1e-5, scale=cmax)
    k3 = P.inverse_intrinsics(t[..., :3, :3].contiguous())
    same(k3, npy(kinv)[..., :3, :3], "inverse of the 3 x 3 intrinsics")
    p = points(case)
    pt = T(p, dt(case))
    uv = P.project_points(pt, t)
    back = P.unproject_points(uv, kinv[..., :3, :3].contiguous(), pt[..., 2])
    ctx.nt(int(np.prod(lead)) > 1)
    close(back, p, "points projected and back-projected", rtol=2e-4 if not case["f64"] else 1e-5, atol=1e-4 if not case["f64"] else 1e-5,
          scale=case["mag"] * cmax / min(1, float(np.abs(Ks[:, [0, 1], [0, 1]]).min())) / 10, floor=0)
    sz = 600.0 if case["big"] else 6.0
    q = rnd(case, arr(case["s"], tuple(lead) + (2,), 0, sz, "uv"))
    d = rnd(case, arr(case["s"], tuple(lead), 0.3, 4, "dd") * case["mag"])
    X = P.unproject_points(T(q, dt(case)), kinv[..., :3, :3].contiguous(), T(d, dt(case)))
    again = P.project_points(X, t)
    close(again, q, "pixels back-projected and projected", rtol=1e-4, atol=2e-5, scale=cmax)


@test("C07", fixed(lead=lead, k=st.integers(1, 5), s=seeds, f64=st.booleans()), quick=5000)
def homogeneous_coordinates(case, ctx):
    lead, k, s = case["lead"], case["k"], case["s"]
    x = rnd(case, arr(s, tuple(lead) + (k,), -3, 3, "h"))
    w = arr(s, tuple(lead) + (1,), -3, 3, "w")
    u = arr(s, tuple(lead) + (1,), 0, 1, "zero")
    w = np.where(u < 0.25, 0.0, np.where(np.abs(w) < 0.1, 0.5, w) * 10.0 ** np.floor(arr(s, tuple(lead) + (1,), -4, 4, "e")))
    w = rnd(case, w)
    ctx.nt(bool((w == 0).any()))
    for M in (P, G):
        t = T(x, dt(case))
        h = M.homogenize_points(t)
        same(h, np.concatenate([npy(t), np.ones_like(npy(t)[..., :1])], -1), M.__name__ + ".homogenize_points")
        same(t, npy(T(x, dt(case))), "points after homogenising")
        same(M.unhomogenize_points(h), t, "homogenised and unhomogenised points")
        hh = T(np.concatenate([x * np.where(w == 0, 1, w), w], -1), dt(case))
        g = M.unhomogenize_points(hh)
        check(tuple(g.shape) == tuple(lead) + (k,), "unhomogenised shape %s", tuple(g.shape))
        finite(g, "unhomogenised points")
        close(g, x, "scaled homogeneous points and points at infinity", rtol=1e-5, atol=1e-6)


@test("C07", fixed(s=seeds, n=st.integers(1, 6), f64=st.booleans(), kb=st.booleans()), quick=2000)
def camera_plane_is_finite(case, ctx):
    p = arr(case["s"], (2, case["n"], 3), -2, 2, "p")
    u = arr(case["s"], (2, case["n"]), 0, 1, "z")
    p[..., 2] = np.where(u < 0.5, 0.0, np.where(np.abs(p[..., 2]) < 0.1, 0.3, p[..., 2]))
    K = np.eye(4)
    K[0, 0], K[1, 1], K[0, 2], K[1, 2] = 3, 4, 1, 2
    t = T(K, dt(case))
    if case["kb"]:
        t = t.repeat(2, 1, 1)
    g = P.project_points(T(p, dt(case)), t)
    ctx.nt(bool((p[..., 2] == 0).any()))
    finite(g, "projection of points on the camera plane")
    ok = p[..., 2] != 0
    want = np.stack([3 * p[..., 0] / np.where(ok, p[..., 2], 1) + 1, 4 * p[..., 1] / np.where(ok, p[..., 2], 1) + 2], -1)
    close(npy(g)[ok], want[ok], "other points", rtol=1e-4, atol=1e-4)


@test("C07", fixed(lead=lead, h=st.integers(2, 700), w=st.integers(2, 700), s=seeds, f64=st.booleans()), quick=4000)
def pixel_normalisation(case, ctx):
    lead, h, w = case["lead"], case["h"], case["w"]
    f = np.array([h, w], dtype=np.float64)
    x = rnd(case, arr(case["s"], tuple(lead) + (2,), -0.1, 1.1, "x") * (f - 1))
    t = T(x, dt(case))
    n = G.normalize_pixel_coords(t, h, w)
    ctx.nt(h != w and int(np.prod(lead)) > 0)
    close(n, 2 * x / (f - 1) - 1, "normalised pixels", atol=1e-5)
    close(G.unnormalize_pixel_coords(n, h, w), x, "normalised and unnormalised pixels", atol=2e-6, scale=max(h, w))
    y = rnd(case, arr(case["s"], tuple(lead) + (2,), -1.2, 1.2, "y"))
    u = G.unnormalize_pixel_coords(T(y, dt(case)), h, w)
    close(u, (y + 1) / 2 * (f - 1), "unnormalised pixels", atol=2e-6, scale=max(h, w))
    close(G.normalize_pixel_coords(u, h, w), y, "unnormalised and normalised pixels", atol=1e-5)
    same(t, npy(T(x, dt(case))), "pixels after normalising")


@test("C07", fixed(h=st.integers(1, 40), w=st.integers(1, 40)), quick=800)
def pixel_grid(case, ctx):
    h, w = case["h"], case["w"]
    g = G.create_meshgrid(h, w, False)
    ctx.nt(h != w)
    r, c = np.mgrid[0:h, 0:w]
    close(g, np.stack([r, c], -1)[None], "pixel grid", rtol=0, atol=1e-5)
    if h > 1 and w > 1:
        n = G.create_meshgrid(h, w, True)
        close(n, np.stack([2.0 * r / (h - 1) - 1, 2.0 * c / (w - 1) - 1], -1)[None], "normalised pixel grid", rtol=0, atol=1e-5)
        close(G.normalize_pixel_coords(g, h, w), n, "grid normalised", rtol=0, atol=1e-5)
        close(G.unnormalize_pixel_coords(n, h, w), g, "grid unnormalised", rtol=0, atol=1e-4)


@test("C07", fixed(s=seeds, h=st.integers(2, 6), w=st.integers(2, 6), f64=st.booleans()), quick=2000)
def camera_pixel_camera(case, ctx):
    """pixel2cam and cam2pixel undo each other on a whole image."""
    h, w, s = case["h"], case["w"], case["s"]
    v = arr(s, (4,), 0, 1, "K")
    K = np.eye(4)
    K[0, 0], K[1, 1], K[0, 2], K[1, 2] = 2 + 6 * v[0], (2 + 6 * v[1]) * (-1 if s % 4 == 0 else 1), w * v[2], h * v[3]
    d = rnd(case, arr(s, (1, 1, h, w), 0.3, 3, "d"))
    r, c = np.mgrid[0:h, 0:w].astype(np.float64)
    pix = np.stack([c, r, np.ones_like(r)], -1)[None]
    ctx.nt()
    cam = G.pixel2cam(T(d, dt(case)), T(np.linalg.inv(K), dt(case)), T(pix, dt(case)))
    close(npy(cam)[..., 2], d[0], "depth of camera coordinates", atol=1e-5)
    close(G.cam2pixel(cam, T(K, dt(case))), pix[..., :2], "pixels to camera and back", atol=1e-4, rtol=1e-4)
    one = G.pixel2cam(T(d[0, 0], dt(case)), T(np.linalg.inv(K), dt(case)), T(pix[0], dt(case)))
    close(one, npy(cam)[0], "one H x W image", atol=1e-5)
    close(G.cam2pixel(one, T(K, dt(case))), pix[0, ..., :2], "one H x W image and back", atol=1e-4, rtol=1e-4)
