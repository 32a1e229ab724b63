"""C02: point cloud arithmetic and geometry are per point, in place or out of place."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import pcs
from pcs import ATTRS
from gradslam import Pointclouds
from gradslam.geometry.projutils import project_points

rule("C02", "A case is a batch (1-3 clouds of 0-5 points, list/padded, any attributes, float32/float64), an optional preparation "
     "(reading some views, or a previous in-place operation so that only the padded view is current), and one operation with a scalar, "
     "broadcastable tensor, rotation, rigid transform or intrinsics operand. Result, in-place variant and operand are compared with the "
     "per-point definition; rigid operations are also inverted. Non-trivial: at least one point and an operand that is not the identity.")

prep = st.lists(st.sampled_from(["points_list", "points_padded", "nonpad_mask", "normals_padded", "normals_list", "colors_list",
                                 "features_padded", "shift", "turn", "set_list", "clone"]), max_size=3)


def prepare(pc, m, steps, s, f64):
    for p in steps:
        if p == "shift":
            pc.offset_(0.5)
            pcs.m_offset(m, [0.5] * m.B)
        elif p == "turn":
            R, Rs = pcs.rmats(s ^ 5, m, True, f64)
            pc.rotate_(R)
            pcs.m_rotate(m, Rs, True)
        elif p == "set_list":
            pc.points_list = [x * 1 for x in pc.points_list]
        elif p == "clone":
            pc = pc.clone()
        else:
            getattr(pc, p)
    return pc


arith = fixed(b=pcs.batch, prep=prep, op=st.sampled_from(["add", "sub", "mul", "div", "offset_", "scale_"]),
              k=st.sampled_from(pcs.OPERANDS), s=seeds, order=seeds)


@test("C02", arith, quick=9000)
def arithmetic(case, ctx):
    f64 = case["b"]["f64"]
    pc, m = pcs.make(case["b"])
    pc = prepare(pc, m, case["prep"], case["s"], f64)
    o = case["op"]
    v, per = pcs.operand(case["k"], case["s"], m, -2, 2, f64, nonzero=o in ("mul", "div", "scale_"))
    vcopy = v.clone() if torch.is_tensor(v) else v
    want = m.copy()
    if o in ("add", "offset_"):
        pcs.m_offset(want, per)
    elif o == "sub":
        pcs.m_offset(want, per, -1.0)
    elif o in ("mul", "scale_"):
        pcs.m_scale(want, per)
    else:
        pcs.m_scale(want, per, inv=True)
    ctx.event(o); ctx.event("operand " + case["k"])
    ctx.nt(sum(m.ns) > 0)
    if o.endswith("_"):
        r = getattr(pc, o)(v)
        check(r is pc, "%s did not return the object it changed", o)
        pcs.check_all(pc, want, o, case["order"])
    else:
        r = {"add": lambda: pc + v, "sub": lambda: pc - v, "mul": lambda: pc * v, "div": lambda: pc / v}[o]()
        check(r is not pc, "%s returned its operand", o)
        pcs.check_all(r, want, o, case["order"])
        pcs.check_all(pc, m, "operand after " + o, case["order"])
        if o in ("add", "sub"):
            back = (r - v) if o == "add" else (r + v)
        else:
            back = (r / v) if o == "mul" else (r * v)
        pcs.check_all(back, m, o + " undone", case["order"], tol=1e-4)
    if torch.is_tensor(v):
        same(v, vcopy, "the operand tensor")


rigid = fixed(b=pcs.batch, prep=prep, op=st.sampled_from(["rotate", "rotate_", "matmul3", "transform", "transform_", "matmul4"]),
              batched=st.booleans(), pre=st.booleans(), s=seeds, order=seeds)


@test("C02", rigid, quick=9000)
def rigid_motion(case, ctx):
    f64 = case["b"]["f64"]
    pc, m = pcs.make(case["b"])
    pc = prepare(pc, m, case["prep"], case["s"], f64)
    o = case["op"]
    rot_only = o in ("rotate", "rotate_", "matmul3")
    pre = case["pre"] and not o.startswith("matmul")
    X, Xs = (pcs.rmats if rot_only else pcs.tforms)(case["s"], m, case["batched"], f64)
    xc = X.clone()
    want = m.copy()
    (pcs.m_rotate if rot_only else pcs.m_transform)(want, Xs, pre)
    ctx.event("%s %s %s" % (o, "batched" if case["batched"] else "single", "pre" if pre else "post"))
    ctx.nt(sum(m.ns) > 0)
    name = "rotate" if rot_only else "transform"
    if o.endswith("_"):
        r = getattr(pc, o)(X, pre_multiplication=pre) if not (pre and case["order"] % 2) else getattr(pc, o)(X)
        check(r is pc, "%s did not return the object it changed", o)
        pcs.check_all(pc, want, o, case["order"])
    else:
        r = pc @ X if o.startswith("matmul") else getattr(pc, name)(X, pre_multiplication=pre) if not (pre and case["order"] % 2) else getattr(pc, name)(X)
        check(r is not pc, "%s returned its operand", o)
        pcs.check_all(r, want, o, case["order"])
        pcs.check_all(pc, m, "operand after " + o, case["order"])
    same(X, xc, "the operand matrix")
    if pre:
        inv = torch.linalg.inv(X)
        back = getattr(r, name)(inv)
        pcs.check_all(back, m, o + " undone by the inverse", case["order"], tol=1e-4)


projc = fixed(b=pcs.batch, prep=prep, inplace=st.booleans(), batched=st.booleans(), s=seeds, order=seeds, zoff=st.sampled_from([0.0, 3.0, -3.0]))


@test("C02", projc, quick=4000)
def projection(case, ctx):
    f64 = case["b"]["f64"]
    pc, m = pcs.make(case["b"])
    pc = prepare(pc, m, case["prep"], case["s"], f64)
    if case["zoff"]:
        off = torch.tensor([0.0, 0.0, case["zoff"]], dtype=torch.float64 if f64 else torch.float32, device=here()).view(1, 1, 3)
        pc = pc + off
        pcs.m_offset(m, [np.array([0, 0, case["zoff"]])] * m.B)
    if not pcs.can_project(m):
        raise Reject
    K, Ks = pcs.kmats(case["s"], m, case["batched"], f64)
    want = m.copy()
    pcs.m_project(want, Ks)
    ctx.nt(sum(m.ns) > 0)
    if case["inplace"]:
        r = pc.pinhole_projection_(K)
        check(r is pc, "in-place projection did not return the object")
    else:
        r = pc.pinhole_projection(K)
        check(r is not pc, "out-of-place projection returned its operand")
        pcs.check_all(pc, m, "operand after projection", case["order"])
    pcs.check_all(r, want, "projection", case["order"], tol=5e-5)


@test("C02", fixed(b=pcs.batch, inplace=st.booleans(), batched=st.booleans(), zero=st.sampled_from([0.3, 1.0]), s=seeds), quick=1500)
def projection_is_per_point(case, ctx):
    """Points on the camera plane have no image, but what they turn into depends on nothing but the point and the camera
    (differential: the projection function on that point alone), is finite and stays a homogeneous point; the others are unaffected."""
    f64 = case["b"]["f64"]
    m = pcs.model_of(case["b"])
    for b in range(m.B):
        z = u01(case["s"], max(1, m.ns[b]), "zero%d" % b)[:m.ns[b]] < case["zero"]
        m.points[b][z, 2] = 0.0
        if case["s"] % 3 == 0:
            m.points[b][z] = 0.0
    pc = pcs.build(m, case["b"]["kind"], f64)
    K, Ks = pcs.kmats(case["s"], m, case["batched"], f64)
    ctx.nt(any((p[:, 2] == 0).any() for p in m.points))
    r = pc.pinhole_projection_(K) if case["inplace"] else pc.pinhole_projection(K)
    dt = torch.float64 if f64 else torch.float32
    want = m.copy()
    for b in range(m.B):
        want.points[b] = np.stack([np.append(npy(project_points(T(p[None], dt), T(Ks[b], dt)))[0], 1.0) for p in m.points[b]]) if m.ns[b] else m.points[b]
        plane = m.points[b][:, 2] == 0
        check(np.isfinite(npy(r.points_list[b])).all(), "projection of a point on the camera plane is not finite")
        g = npy(r.points_list[b]).astype(np.float64)
        fine = np.abs(m.points[b][:, 2]) > 0.025 * max(np.abs(m.points[b]).max(initial=0), 1e-30)
        ok = fine | plane
        close(g[ok], want.points[b].reshape(-1, 3)[ok], "projection of cloud %d" % b, rtol=5e-5, atol=5e-5)
    want.points = [npy(p).astype(np.float64) for p in r.points_list]
    pcs.check_all(r, want, "views after projection", case["s"])
    if not case["inplace"]:
        pcs.check_all(pc, m, "operand after projection", case["s"])


composed = fixed(b=pcs.batch, s=seeds, batched=st.booleans(), order=seeds)


@test("C02", composed, quick=2000)
def transforms_compose(case, ctx):
    """Two transforms in a row equal the transform by their product."""
    f64 = case["b"]["f64"]
    pc, m = pcs.make(case["b"])
    A, As = pcs.tforms(case["s"], m, case["batched"], f64)
    B, Bs = pcs.tforms(case["s"] + 1, m, case["batched"], f64)
    ctx.nt(sum(m.ns) > 0)
    one = pc.transform(A).transform(B)
    two = pc.transform(torch.matmul(B, A))
    w = pcs.snapshot(two)
    pcs.check_all(one, w, "transform by A then B versus by BA", case["order"], tol=1e-4)


@test("C02", fixed(s=seeds, op=st.sampled_from(["add", "sub", "mul", "div", "rotate", "transform", "proj"])), quick=200)
def empty_object(case, ctx):
    """The empty object passes through every operation as an empty object."""
    pc = Pointclouds(device=here())
    X = T(pose(case["s"]))
    ctx.nt()
    r = {"add": lambda: pc + 1.0, "sub": lambda: pc - 1.0, "mul": lambda: pc * 2, "div": lambda: pc / 2.0,
         "rotate": lambda: pc.rotate(X[:3, :3]), "transform": lambda: pc.transform(X), "proj": lambda: pc.pinhole_projection(X)}[case["op"]]()
    pcs.check_all(r, pcs.Model([]), case["op"], case["s"])
    pcs.check_all(pc, pcs.Model([]), case["op"] + " operand", case["s"])


also(arithmetic, "C02", "arithmetic_on_large_batches", fixed(b=pcs.large, prep=prep, op=st.sampled_from(["add", "sub", "mul", "div", "offset_", "scale_"]),
                                                             k=st.sampled_from(pcs.OPERANDS), s=seeds, order=seeds), quick=600)
also(rigid_motion, "C02", "rigid_motion_of_large_batches", fixed(b=pcs.large, prep=prep, op=st.sampled_from(["rotate", "rotate_", "matmul3", "transform", "transform_", "matmul4"]),
                                                                 batched=st.booleans(), pre=st.booleans(), s=seeds, order=seeds), quick=600)
also(projection, "C02", "projection_of_large_batches", fixed(b=pcs.large, prep=prep, inplace=st.booleans(), batched=st.booleans(), s=seeds, order=seeds, zoff=st.sampled_from([0.0, 3.0, -3.0])), quick=400)
