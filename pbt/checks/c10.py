"""C10: point-to-plane registration."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import regs
from gradslam.odometry.icputils import point_to_plane_ICP, point_to_plane_gradICP, gauss_newton_solve

rule("C10", "A case is a target of 8-60 points with normals (ellipsoid, three-wall corner, random), a source that is a moved and resampled or "
     "perturbed subset, some of them tens of metres large, an initial transform or none, 1-20 iterations, damping 1e-8..1, a distance threshold or none, and gradLM settings; both "
     "solvers run on it. The reference is the documented update in float64 numpy; cases in which it comes within 2e-4 of a decision boundary or is "
     "ill-conditioned are only checked for rigidity and monotonicity. Non-trivial: the initial misalignment is nonzero and at least six points are kept.")


def rnd(a):
    return np.asarray(a, np.float64).astype(np.float32).astype(np.float64)


def t1(a):
    return T(a[None])


def rigid(M, what, tol=2e-4):
    M = npy(M, what).astype(np.float64)
    check(M.shape == (4, 4), "%s has shape %s", what, M.shape)
    finite(M, what)
    close(M[:3, :3] @ M[:3, :3].T, np.eye(3), what + ": rotation times its transpose", rtol=0, atol=tol)
    close(np.linalg.det(M[:3, :3]), 1.0, what + ": determinant", rtol=0, atol=tol)
    close(M[3], np.array([0, 0, 0, 1.0]), what + ": last row", rtol=0, atol=1e-6)


KIND = st.sampled_from(["ellipsoid", "ellipsoid", "corner", "random"])
SOLVER = st.sampled_from(["icp", "gradicp"])
reg = fixed(solver=SOLVER, kind=KIND, nt=st.integers(8, 60), frac=st.sampled_from([1.0, 0.8, 0.6]), mot=st.sampled_from([0.0, 0.01, 0.03, 0.08, 0.3]),
            noise=st.sampled_from([0.0, 0.0, 0.005, 0.03]), init=st.sampled_from(["none", "eye", "near", "near", "far"]), iters=st.integers(1, 6),
            damp=st.sampled_from([None, 1e-8, 1e-4, 1e-2, 0.3]), th=st.sampled_from([None, None, 0.1, 0.25, 0.5, 1]),
            lm=st.sampled_from([None, None, (1.5, 0.5, 2.0, 20.0), (4.0, 3.0, 0.5, 5.0), (2.0, 10.0, 10.0, 2.0), (10, 1, 1, 3)]), s=seeds)


def setup(c):
    s = c["s"]
    tgt, nrm = regs.cloud(s, c["kind"], c["nt"])
    k = u01(s, len(tgt), "sub") < c["frac"]
    k[:6] = True
    M = np.eye(4)
    M[:3, :3] = rot_axis_angle(arr(s, (3,), -1, 1, "ax"), c["mot"])
    M[:3, 3] = arr(s, (3,), -1, 1, "tr") * c["mot"]
    src = tgt[k] + arr(s, (int(k.sum()), 3), -1, 1, "noise") * c["noise"]
    src = regs.act(np.linalg.inv(M), src)   # M moves the source onto the target
    i = c["init"]
    I = None
    if i == "eye":
        I = np.eye(4)
    elif i in ("near", "far"):
        a = 0.05 if i == "near" else 0.6
        I = np.eye(4)
        I[:3, :3] = rot_axis_angle(arr(s, (3,), -1, 1, "iax"), a)
        I[:3, 3] = arr(s, (3,), -1, 1, "itr") * a
        src = regs.act(np.linalg.inv(I), src)   # so that the total motion is M @ I
        M = M @ I
        I = rnd(I)
    return rnd(src), rnd(tgt), rnd(nrm), M, I, k


def call(c, src, tgt, nrm, I, iters=None, **over):
    kw = {}
    n = c["iters"] if iters is None else iters
    if n != 20:
        kw["numiters"] = n
    if c["damp"] is not None:
        kw["damp"] = c["damp"]
    if c["th"] is not None:
        kw["dist_thresh"] = c["th"]
    if c["solver"] == "gradicp" and c["lm"] is not None:
        kw.update(zip(("lambda_max", "B", "B2", "nu"), c["lm"]))
    kw.update(over)
    f = point_to_plane_ICP if c["solver"] == "icp" else point_to_plane_gradICP
    if I is not None:
        kw["initial_transform"] = T(I)
    return f(t1(src), t1(tgt), t1(nrm), **kw)


def reference(c, src, tgt, nrm, I, iters, mg):
    damp = 1e-8 if c["damp"] is None else c["damp"]
    I = np.eye(4) if I is None else I
    if c["solver"] == "icp":
        return regs.icp(src, tgt, nrm, I, iters, damp, c["th"], mg)
    return regs.gradicp(src, tgt, nrm, I, iters, damp, c["th"], *(c["lm"] or (2.0, 1.0, 1.0, 200.0)), mg=mg)


def plane_error(c, M, src, tgt, nrm):
    b = regs.rows(regs.act(M, src), tgt, nrm, c["th"])[1]
    return float(b @ b)


@test("C10", reg, quick=6000)
def follows_the_documented_update(case, ctx):
    src, tgt, nrm, M, I, k = setup(case)
    mg = regs.Margin()
    try:
        want, idx = reference(case, src, tgt, nrm, I, case["iters"], mg)
    except np.linalg.LinAlgError:
        raise Reject
    A0 = regs.rows(regs.act(np.eye(4) if I is None else I, src), tgt, nrm, case["th"])[0]
    big = np.abs(want).max() > 5
    d = case["damp"] or 0.0
    if (mg.cond > 60 and d < 0.01) or mg.cond > 1e6 or big or len(A0) < 6:
        ctx.event("ill-posed")
        raise Reject
    ts, tt, tn = t1(src), t1(tgt), t1(nrm)
    got, gi = call(case, src, tgt, nrm, I)
    rigid(got, case["solver"])
    if mg.v < 2e-4:
        ctx.event("near a decision boundary")
        return
    ctx.event(case["solver"])
    ctx.nt(case["mot"] > 0)
    close(got, want, case["solver"] + " transform", rtol=0, atol=1e-3, scale=np.abs(want).max())
    if case["iters"] <= 2 and mg.cond < 15:
        close(got, want, case["solver"] + " transform", rtol=0, atol=2e-4, scale=np.abs(want).max())
    gi = npy(gi, "indices").reshape(-1)
    same(gi.astype(np.int64), idx.astype(np.int64), "reported neighbour indices of the kept source points")


large = fixed(solver=SOLVER, kind=st.sampled_from(["ellipsoid", "corner"]), nt=st.integers(30, 400), frac=st.sampled_from([1.0, 0.8]), mot=st.sampled_from([0.08, 0.2, 0.3]),
              noise=st.sampled_from([0.0, 0.03]), init=st.sampled_from(["none", "eye"]), iters=st.integers(1, 3), damp=st.sampled_from([1e-8, 1e-2, 1.0]), th=st.sampled_from([None, None, 1]),
              lm=st.sampled_from([None, None, (2.0, 1.0, 2.0, 200.0), (3.0, 3.0, 5.0, 400.0), (2.0, 5.0, 1.0, 50.0)]), mag=st.sampled_from([3.0, 6.0, 12.0, 25.0]), s=seeds)


@test("C10", large, quick=1500)
def large_errors(case, ctx):
    """Scenes of many metres and points, whose squared errors are large."""
    g = case["mag"]
    src, tgt, nrm, M, I, k = setup(case)
    src, tgt = rnd(src * g), rnd(tgt * g)
    c = dict(case, th=None if case["th"] is None else case["th"] * g * 0.5)
    mg = regs.Margin()
    try:
        want, idx = reference(c, src, tgt, nrm, I, c["iters"], mg)
    except np.linalg.LinAlgError:
        raise Reject
    A0, b0, _, _ = regs.rows(src, tgt, nrm, c["th"])
    if mg.cond > 60 * g or np.abs(want).max() > 5 * g or len(A0) < 6:
        raise Reject
    got, gi = call(c, src, tgt, nrm, I)
    rigid(got, case["solver"])
    if mg.v < 2e-4 * g:
        ctx.event("near a decision boundary")
        return
    ctx.event("error above 70" if b0 @ b0 > 70 else "error above 7" if b0 @ b0 > 7 else "small error")
    ctx.nt(b0 @ b0 > 70)
    close(got, want, case["solver"] + " transform", rtol=0, atol=2e-3, scale=np.abs(want).max())
    same(npy(gi, "indices").reshape(-1).astype(np.int64), idx.astype(np.int64), "reported neighbour indices of the kept source points")


@test("C10", reg, quick=2500)
def classical_form_never_gets_worse(case, ctx):
    c = dict(case, solver="icp")
    src, tgt, nrm, M, I, k = setup(c)
    J = np.eye(4) if I is None else I
    A0, b0, _, _ = regs.rows(regs.act(J, src), tgt, nrm, c["th"])
    if len(A0) < 6 or regs.conditioning(A0) > 60:
        raise Reject
    try:
        got, _ = call(c, src, tgt, nrm, I)
    except RuntimeError:
        if regs.conditioning(A0) > 60:
            raise Reject
        raise
    rigid(got, "icp")
    e0, e1 = plane_error(c, J, src, tgt, nrm), plane_error(c, npy(got).astype(np.float64), src, tgt, nrm)
    ctx.nt(e0 > 1e-6)
    if c["th"] is not None:
        # which points pass the filter may hang on rounding
        d = regs.nearest(regs.act(npy(got).astype(np.float64), src), tgt)[1]
        if np.abs(d - c["th"]).min() < 2e-4:
            ctx.nontrivial = False
            return
    # a neighbour switching by rounding at the very end changes the error slightly
    check(e1 <= e0 * (1 + 1e-3) + 1e-5, "squared point-to-plane error went from %g to %g", e0, e1)


known = fixed(solver=SOLVER, kind=st.sampled_from(["ellipsoid", "corner"]), nt=st.integers(30, 60), frac=st.sampled_from([1.0, 0.7]),
              mot=st.sampled_from([0.0, 0.01, 0.03, 0.06]), noise=st.just(0.0), init=st.sampled_from(["none", "eye", "near", "far"]),
              damp=st.sampled_from([None, 1e-8, 1e-6]), th=st.sampled_from([None, None, 0.3, 1]), lm=st.none(), outliers=st.booleans(), g=st.booleans(),
              s=seeds)


def recoverable(c, src, tgt, nrm, I, M):
    mg = regs.Margin()
    want, _ = reference(c, src, tgt, nrm, I, 15, mg)
    return np.abs(want - M).max() < 1e-4 and mg.cond < 40


def correspond(gi, k, tgt, tol, what):
    """The indices name the target points the source points were made from (target points closer together than tol count as one)."""
    gi, w = npy(gi).reshape(-1), np.flatnonzero(k)
    check(gi.shape == w.shape and (gi >= 0).all() and (gi < len(tgt)).all(), "%s: %s for %s", what, gi, w)
    off = np.linalg.norm(tgt[gi.astype(np.int64)] - tgt[w], axis=1)
    check((off <= tol).all(), "%s: %s, expected %s", what, gi, w)


@test("C10", known, quick=1200)
def recovers_known_motion(case, ctx):
    c = dict(case)
    src, tgt, nrm, M, I, k = setup(c)
    if c["th"] is not None and c["outliers"]:
        far = regs.act(np.linalg.inv(M), 5.0 + arr(c["s"], (5, 3), 0, 2, "far"))
        src = rnd(np.concatenate([src, far]))
        ctx.event("outliers")
    if not recoverable(c, src, tgt, nrm, I, M):
        ctx.event("not recoverable by the reference either")
        raise Reject
    ctx.nt(c["mot"] > 0)
    got, gi = call(c, src, tgt, nrm, I, iters=20)
    rigid(got, c["solver"])
    close(got, M, "recovered motion", rtol=0, atol=2e-3, scale=np.abs(M).max())
    n = int(k.sum())
    correspond(gi, k, tgt, 5e-3, "final correspondences")
    if c["g"]:
        G = pose(c["s"], tag="G")
        s2, t2 = rnd(regs.act(G, src)), rnd(regs.act(G, tgt))
        n2 = rnd(nrm @ G[:3, :3].T)
        I2 = G @ (np.eye(4) if I is None else I) @ np.linalg.inv(G)
        g2, _ = call(c, s2, t2, n2, None if I is None else rnd(I2), iters=20)
        close(g2, G @ M @ np.linalg.inv(G), "motion recovered after moving both clouds", rtol=0, atol=5e-3, scale=np.abs(M).max() * 2)


@test("C10", known, quick=700)
def aligned_clouds_stay_put(case, ctx):
    c = dict(case, mot=0.0, init="none")
    src, tgt, nrm, M, I, k = setup(c)
    A = regs.rows(src, tgt, nrm, c["th"])[0]
    if regs.conditioning(A) > 40:
        raise Reject
    ctx.nt()
    got, gi = call(c, src, tgt, nrm, None, iters=1 + c["s"] % 20)
    close(got, np.eye(4), "transform of aligned clouds", rtol=0, atol=2e-4)
    correspond(gi, k, tgt, 1e-3, "correspondences of aligned clouds")


@test("C10", reg, quick=2000)
def initial_transform(case, ctx):
    """None means identity; starting from a transform equals moving the source by it first. Inputs stay as they were."""
    src, tgt, nrm, M, I, k = setup(case)
    mg = regs.Margin()
    try:
        # the margins of the run made below, which uses the default damping
        reference(dict(case, damp=None, lm=None), src, tgt, nrm, I, case["iters"], mg)
    except np.linalg.LinAlgError:
        raise Reject
    if mg.cond > 60 or mg.v < 2e-4 or len(regs.rows(regs.act(np.eye(4) if I is None else I, src), tgt, nrm, case["th"])[0]) < 6:
        raise Reject
    ctx.nt(case["mot"] > 0)
    ts, tt, tn = t1(src), t1(tgt), t1(nrm)
    it = T(np.eye(4) if I is None else I)
    keep = [x.clone() for x in (ts, tt, tn, it)]
    kw = dict(numiters=case["iters"], dist_thresh=case["th"])
    f = point_to_plane_ICP if case["solver"] == "icp" else point_to_plane_gradICP
    a, ia = f(ts, tt, tn, it, **kw)
    for x, y, w in zip((ts, tt, tn, it), keep, ("source", "target", "normals", "initial transform")):
        same(x, y, w + " afterwards")
    J = npy(it).astype(np.float64)
    b, ib = f(t1(rnd(regs.act(J, src))), tt, tn, **kw)
    close(a, npy(b).astype(np.float64) @ J, "transform from a given start", rtol=0, atol=1e-3, scale=2)
    same(ia, ib, "indices from a given start")
    c, ic = f(t1(rnd(regs.act(J, src))), tt, tn, torch.eye(4, device=here()), **kw)
    same(c, b, "identity start against none given")


degen = fixed(solver=SOLVER, n=st.integers(1, 20), kind=st.sampled_from(["plane", "line", "one", "nomatch", "dup"]), damp=st.sampled_from([1e-2, 0.5]),
              iters=st.integers(1, 6), s=seeds)


@test("C10", degen, quick=1500)
def degenerate_geometry_stays_rigid(case, ctx):
    """With damping that keeps the system solvable even unconstrained motions give a rigid transform."""
    s, n, k = case["s"], case["n"], case["kind"]
    tgt = arr(s, (n, 3), -1, 1, "t")
    nrm = np.tile(arr(s, (1, 3), -1, 1, "n") + np.array([[0, 0, 2.0]]), (n, 1))
    nrm /= np.linalg.norm(nrm, axis=1, keepdims=True)
    th = None
    if k == "plane":
        tgt[:, 2] = 0.3
    elif k == "line":
        tgt[:, 1:] = 0.2
    elif k == "one":
        tgt, nrm = tgt[:1], nrm[:1]
    elif k == "dup":
        tgt[:] = tgt[:1]
    src = arr(s, (1 + s % 15, 3), -1, 1, "s")
    if k == "nomatch":
        src, th = src + 10, 0.5
    ctx.event(k)
    ctx.nt(k != "nomatch")
    c = dict(case, th=th, lm=None)
    got, gi = call(c, rnd(src), rnd(tgt), rnd(nrm), None)
    rigid(got, case["solver"])
    if k == "nomatch":
        close(got, np.eye(4), "transform without any kept point", rtol=0, atol=1e-5)
        check(npy(gi).size == 0, "indices reported although no point is kept")
