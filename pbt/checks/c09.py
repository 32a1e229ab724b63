"""C09: nearest-neighbour linearisation and damped solver."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import regs
from gradslam.odometry.icputils import gauss_newton_solve, solve_linear_system

rule("C09", "A case is a source cloud of 1-30 and a target cloud of 1-40 points with unit normals, contiguous or strided, "
     "and no filter or a distance threshold placed midway between two of the true nearest distances (or below/above all); or a linear "
     "system of 1-6 unknowns with up to 30 equations and a damping of 0-10. Neighbours come from brute force in float64. Non-trivial: at least one "
     "source point is kept and the target has two points.")


def dt(c):
    return torch.float64 if c["f64"] else torch.float32


def rnd(c, a):
    a = np.asarray(a, np.float64)
    return a if c["f64"] else a.astype(np.float32).astype(np.float64)


def pair(c):
    s = c["s"]
    src, _ = regs.cloud(s, "random", c["ns"], "src")
    tgt, nrm = regs.cloud(s, c["kind"], c["nt"], "tgt")
    off = arr(s, (3,), -3, 3, "off") if c["far"] else 0.0
    sc = c["scale"]
    src, tgt = src * sc + off, tgt * sc + off
    if c["exact"] and len(tgt):
        src[0] = tgt[s % len(tgt)]
    return rnd(c, src), rnd(c, tgt), rnd(c, nrm)


def tens(c, a):
    t = T(a[None], dt(c))
    if c["strided"]:
        t = T(np.ascontiguousarray(a.T[None]), dt(c)).transpose(1, 2)
    return t


# the nearest-neighbour kernel is float32 only
lin = fixed(ns=st.integers(1, 30), nt=st.integers(1, 40), kind=st.sampled_from(["random", "corner", "ellipsoid"]), f64=st.just(False),
            far=st.booleans(), scale=st.sampled_from([1.0, 1.0, 0.3, 4.0]), exact=st.booleans(), strided=st.booleans(),
            th=st.sampled_from(["none", "mid", "mid", "mid", "all", "nothing", "int"]), s=seeds)


def threshold(c, d):
    """A threshold away from every nearest distance, or None when there is no room."""
    k = c["th"]
    if k == "none":
        return None
    if k == "all":
        return float(d.max() * 1.5 + 0.1)
    e = np.sort(d)
    if k == "nothing":
        return float(e[0] / 2) if e[0] > 1e-2 else 0.0
    if k == "int":
        for t in (1, 2, 3):
            if np.abs(d - t).min() > 1e-3:
                return t
        return None
    gaps = np.where(np.diff(e) > 2e-3)[0]
    if not len(gaps):
        return None
    g = gaps[c["s"] % len(gaps)]
    return float((e[g] + e[g + 1]) / 2)


@test("C09", lin, quick=14000)
def linearisation(case, ctx):
    src, tgt, nrm = pair(case)
    _, d, D = regs.nearest(src, tgt)
    th = threshold(case, d)
    ts, tt, tn = tens(case, src), tens(case, tgt), tens(case, nrm)
    keep = [x.clone() for x in (ts, tt, tn)]
    args = (ts, tt, tn) if th is None and case["s"] % 2 else (ts, tt, tn, th)
    A, b, idx = gauss_newton_solve(*args)
    k = np.ones(len(src), bool) if th is None else d < th
    n = int(k.sum())
    ctx.event(case["th"])
    ctx.nt(n > 0 and len(tgt) > 1 and (th is None or n < len(src)))
    check(tuple(A.shape) == (n, 6), "A has shape %s; %d source points should be kept", tuple(A.shape), n)
    check(tuple(b.shape) == (n, 1), "b has shape %s; %d source points should be kept", tuple(b.shape), n)
    i = npy(idx, "indices").reshape(-1)
    check(i.shape == (n,) and i.dtype == np.int64, "indices have shape %s and dtype %s, expected %d", i.shape, i.dtype, n)
    check(((i >= 0) & (i < len(tgt))).all(), "index outside the target")
    sk = src[k]
    m = max(1.0, float(np.abs(src).max()), float(np.abs(tgt).max()))
    e = (1e-12 if case["f64"] else 2e-6) * m
    got = D[np.arange(len(src))[k], i]
    bad = got > d[k] + 20 * e
    # squared distances in float32 cannot separate candidates closer than about sqrt(eps) * size near zero
    bad &= got ** 2 > d[k] ** 2 + 40 * e * m
    check(not bad.any(), "reported neighbour is at distance %s, the nearest at %s", got[bad][:1], d[k][bad][:1])
    nn, q = nrm[i], tgt[i]
    close(A, np.concatenate([nn, np.cross(sk, nn)], 1), "rows", rtol=0, atol=10 * e)
    close(npy(b)[:, 0], (nn * (q - sk)).sum(1), "residuals", rtol=0, atol=10 * e)
    for x, y, w in zip((ts, tt, tn), keep, ("source", "target", "normals")):
        same(x, y, w + " afterwards")


@test("C09", lin, quick=3000)
def rows_are_derivatives(case, ctx):
    """A times a small twist is the change of the plane distance when the source moves by its exponential."""
    c = dict(case, th="none")
    src, tgt, nrm = pair(c)
    A, b, idx = gauss_newton_solve(tens(c, src), tens(c, tgt), tens(c, nrm))
    A, i = npy(A), npy(idx).reshape(-1)
    xi = arr(case["s"], (6,), -1, 1, "xi") * 1e-5
    mv = regs.act(regs.exp(xi), src)
    ctx.nt(len(tgt) > 1)
    m = max(1.0, float(np.abs(src).max()))
    close(A @ xi, (nrm[i] * (mv - src)).sum(1), "first-order change of the residual", rtol=1e-4, atol=3e-9 * m)


solver = fixed(n=st.integers(1, 30), m=st.integers(1, 6), f64=st.booleans(), damp=st.sampled_from([None, 1e-8, 1e-4, 1e-2, 0.5, 10.0, 0.0]),
               tdamp=st.booleans(), s=seeds)


@test("C09", solver, quick=8000)
def damped_solver(case, ctx):
    s = case["s"]
    A = rnd(case, arr(s, (case["n"], case["m"]), -2, 2, "A"))
    x0 = arr(s, (case["m"],), -2, 2, "x")
    b = rnd(case, A @ x0 + (arr(s, (case["n"],), -1, 1, "r") if s % 2 else 0.0))
    damp = case["damp"]
    H = A.T @ A + (1e-8 if damp is None else damp) * np.eye(case["m"])
    c = np.linalg.cond(H)
    if c > (1e8 if case["f64"] else 3e3):
        raise Reject
    ctx.nt(case["m"] > 1)
    kw = {} if damp is None else dict(damp=torch.tensor(damp, dtype=dt(case)) if case["tdamp"] else damp)
    At, bt = T(A, dt(case)), T(b[:, None], dt(case))
    x = solve_linear_system(At, bt, **kw)
    want = np.linalg.solve(H, A.T @ b)
    check(tuple(x.shape) == (case["m"], 1), "solution has shape %s", tuple(x.shape))
    e = (1e-13 if case["f64"] else 1e-6) * c
    # a damping below float32 resolution relative to its own rounding
    close(npy(x)[:, 0], want, "solution", rtol=0, atol=10 * e + (1e-7 if damp else 0), scale=np.abs(want).max() + np.linalg.norm(b))
    # optimality: the gradient of the damped objective vanishes
    g = H @ npy(x)[:, 0].astype(np.float64) - A.T @ b
    close(g, np.zeros(case["m"]), "gradient of the damped objective at the solution", rtol=0, atol=30 * e + 1e-6,
          scale=np.linalg.norm(H) * (np.abs(want).max() + 1) + np.linalg.norm(A.T @ b))
    same(At, npy(T(A, dt(case))), "A afterwards")
    same(bt, npy(T(b[:, None], dt(case))), "b afterwards")


also(linearisation, "C09", "linearisation_of_large_clouds", fixed(ns=st.one_of(st.integers(30, 1500), st.integers(1, 5)), nt=st.one_of(st.integers(40, 3000), st.integers(1, 5)),
                                                                  kind=st.sampled_from(["random", "corner", "ellipsoid"]), f64=st.just(False), far=st.booleans(),
                                                                  scale=st.sampled_from([1.0, 1.0, 0.3, 4.0]), exact=st.booleans(), strided=st.booleans(),
                                                                  th=st.sampled_from(["none", "mid", "mid", "mid", "all", "nothing", "int"]), s=seeds), quick=450)
