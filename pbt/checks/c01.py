"""C01: list and padded views of point cloud batches agree with a list model after any history."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import pcs
from pcs import ATTRS, VIEWS
from gradslam import Pointclouds

rule("C01", "A case is a batch (built from lists or padded tensors, 1-3 clouds of 0-5 points, any attribute subset, single or "
     "double precision, or empty) and 3-14 public operations (reads of single views, in-place and out-of-place geometry, "
     "assignments to each view, appends, clone/detach/to, indexing) executed on gradslam and on a numpy list model; every view is "
     "compared at the end in a drawn order, and all objects left behind by copying operations are compared too. Non-trivial: at "
     "least one view was read, then state was changed by an operation, then views were compared, on a non-empty batch.")

view_op = fixed(op=st.just("read"), v=st.integers(0, len(VIEWS) - 1))
offs = fixed(op=st.sampled_from(["offset_", "scale_", "add", "sub", "mul", "div"]), k=st.sampled_from(pcs.OPERANDS), s=seeds)
rota = fixed(op=st.sampled_from(["rotate_", "rotate", "matmul3", "transform_", "transform", "matmul4"]), s=seeds,
             batched=st.booleans(), pre=st.booleans())
proj = fixed(op=st.sampled_from(["pinhole_projection_", "pinhole_projection"]), s=seeds, batched=st.booleans())
setl = fixed(op=st.sampled_from(["set_list", "set_padded"]), a=st.sampled_from(("points",) + ATTRS), s=seeds, c=st.integers(1, 4), new=st.integers(0, 3))
appd = fixed(op=st.just("append"), o=pcs.batch)
appe = fixed(op=st.just("append_empty"))
cpy = fixed(op=st.sampled_from(["clone", "detach", "to", "to_str", "to_copy", "cpu"]))
indx = fixed(op=st.just("index"), k=st.sampled_from(["int", "slice", "list", "mask", "long"]), s=seeds)
ops = st.one_of(view_op, view_op, view_op, offs, rota, rota, proj, setl, setl, setl, appd, appd, appe, cpy, cpy, indx)
history = fixed(start=pcs.batch, empty=st.sampled_from([False] * 9 + [True]), ops=st.lists(ops, min_size=3, max_size=14), order=seeds)


def set_value(cur, m, op, f64):
    a, s = op["a"], op["s"]
    w = op["c"] if a == "features" else 3
    if a == "features" and op["new"] and m.attrs["features"] is not None:
        w = m.C
    vals = [pcs.f32(arr(s, (n, w), -2, 2, "set%d" % b), f64) for b, n in enumerate(m.ns)]
    dt = torch.float64 if f64 else torch.float32
    if op["op"] == "set_list":
        given = [T(v, dt) for v in vals]
        setattr(cur, a + "_list", given)
    else:
        given = T(pcs.pad(vals, w), dt)
        setattr(cur, a + "_padded", given)
    # the given tensors belong to the caller
    for g in (given if isinstance(given, list) else [given]):
        g.add_(7.0)
    if a == "points":
        m.points = vals
    else:
        m.attrs[a] = vals


def run(case, ctx):
    b0 = case["start"]
    f64 = b0["f64"]
    if case["empty"]:
        cur, m = Pointclouds(device=here()), pcs.Model([])
        ctx.event("starts empty")
    else:
        cur, m = pcs.make(b0)
    others = []
    read = wrote_after_read = False
    for i, op in enumerate(case["ops"]):
        o = op["op"]
        ctx.event("op " + o)
        what = "after op %d (%s)" % (i, o)
        if o == "read":
            pcs.check_view(cur, m, VIEWS[op["v"]], what)
            read = True
            continue
        if m.B == 0 and o in ("index", "set_list", "set_padded"):
            continue
        wrote_after_read |= read
        if o in ("offset_", "add", "sub", "scale_", "mul", "div"):
            if m.B == 0:
                v = 2.0
                per = []
            else:
                v, per = pcs.operand(op["k"], op["s"], m, -2, 2, f64, nonzero=(o in ("scale_", "mul", "div")))
            if o == "offset_":
                r = cur.offset_(v); pcs.m_offset(m, per)
                check(r is cur, "%s: in-place operation did not return the object", what)
            elif o == "scale_":
                r = cur.scale_(v); pcs.m_scale(m, per)
                check(r is cur, "%s: in-place operation did not return the object", what)
            else:
                others.append((cur, m.copy(), what))
                if o == "add":
                    cur = cur + v; pcs.m_offset(m, per)
                elif o == "sub":
                    cur = cur - v; pcs.m_offset(m, per, -1.0)
                elif o == "mul":
                    cur = cur * v; pcs.m_scale(m, per)
                else:
                    cur = cur / v; pcs.m_scale(m, per, inv=True)
        elif o in ("rotate_", "rotate", "matmul3"):
            R, Rs = (T(np.eye(3)), []) if m.B == 0 else pcs.rmats(op["s"], m, op["batched"], f64)
            pre = op["pre"] and o != "matmul3"
            if o == "rotate_":
                cur.rotate_(R, pre_multiplication=pre)
            else:
                others.append((cur, m.copy(), what))
                cur = cur @ R if o == "matmul3" else cur.rotate(R, pre_multiplication=pre)
            pcs.m_rotate(m, Rs, pre)
        elif o in ("transform_", "transform", "matmul4"):
            M, Ms = (T(np.eye(4)), []) if m.B == 0 else pcs.tforms(op["s"], m, op["batched"], f64)
            pre = op["pre"] and o != "matmul4"
            if o == "transform_":
                cur.transform_(M, pre_multiplication=pre)
            else:
                others.append((cur, m.copy(), what))
                cur = cur @ M if o == "matmul4" else cur.transform(M, pre_multiplication=pre)
            pcs.m_transform(m, Ms, pre)
        elif o in ("pinhole_projection_", "pinhole_projection"):
            if m.B and not pcs.can_project(m):
                ctx.event("projection skipped (point near camera plane)")
                continue
            K, Ks = (T(np.eye(4)), []) if m.B == 0 else pcs.kmats(op["s"], m, op["batched"], f64)
            if o == "pinhole_projection_":
                cur.pinhole_projection_(K)
            else:
                others.append((cur, m.copy(), what))
                cur = cur.pinhole_projection(K)
            pcs.m_project(m, Ks)
        elif o in ("set_list", "set_padded"):
            if m.attrs.get(op["a"], 0) is None:
                if op["new"] != 1:
                    continue
                ctx.event("assigns an attribute the batch did not have")
            set_value(cur, m, op, f64)
        elif o == "append":
            oc = dict(op["o"], f64=f64)
            if m.B == 0:
                other, om = pcs.make(oc)
                cur.append_points(other)
                m = om.copy()
            else:
                other, om = pcs.make(oc, B=m.B, attrs=[k for k in ATTRS if m.attrs[k] is not None], c=max(m.C, 1))
                cur.append_points(other)
                m.append(om)
            others.append((other, om, what + ", appended batch"))
        elif o == "append_empty":
            cur.append_points(Pointclouds(device=here()))
        elif o in ("clone", "detach", "to", "to_str", "to_copy", "cpu"):
            new = {"clone": lambda: cur.clone(), "detach": lambda: cur.detach(), "to": lambda: cur.to(torch.device(here())),
                   "to_str": lambda: cur.to(here()), "to_copy": lambda: cur.to(here(), copy=True), "cpu": lambda: cur.cpu().to(here())}[o]()
            if o in ("clone", "detach", "to_copy"):
                check(new is not cur, "%s returned the object itself", what)
                others.append((cur, m.copy(), what))
            cur = new
        elif o == "index":
            B = m.B
            s = op["s"]
            k = op["k"]
            if k == "int":
                i0 = s % (2 * B) - B
                ids, ix = [i0 % B], i0
            elif k == "slice":
                lo = s % B
                hi = lo + 1 + (s // 7) % (B - lo)
                stp = 1 + (s // 101) % 2
                ids, ix = list(range(B))[lo:hi:stp], slice(lo, hi, stp)
            elif k == "mask":
                mk = [(s >> j) & 1 == 1 for j in range(B)]
                if not any(mk):
                    mk[s % B] = True
                ids, ix = [j for j in range(B) if mk[j]], torch.tensor(mk)
            else:
                n = 1 + s % 3
                ids = [int(x) for x in arr(s, (n,), 0, B - 1e-9, "ix").astype(int)]
                ix = list(ids) if k == "list" else torch.tensor(ids)
            cur = cur[ix]
            m = m.index(ids)
    ctx.nt(wrote_after_read and m.B > 0)
    pcs.check_all(cur, m, "at the end", case["order"])
    for j, (pc, mm, what) in enumerate(others):
        pcs.check_all(pc, mm, "object left behind %s" % what, case["order"] + j)


@test("C01", history, quick=9000)
def history_agrees_with_list_model(case, ctx):
    run(case, ctx)


# short histories concentrated on cache staleness: read everything, one write, read everything
focused = fixed(start=pcs.batch, empty=st.just(False), order=seeds,
                ops=st.tuples(st.lists(view_op, min_size=0, max_size=4), st.one_of(setl, offs, rota, appd, cpy), st.lists(view_op, max_size=2),
                              st.one_of(setl, setl, offs, rota, appd, cpy)).map(lambda t: t[0] + [t[1]] + t[2] + [t[3]]))


@test("C01", focused, quick=9000)
def read_write_write_read(case, ctx):
    run(case, ctx)


large_ops = st.one_of(view_op, offs, rota, proj, setl, cpy, indx, appe, fixed(op=st.just("append"), o=pcs.large))
also(history_agrees_with_list_model, "C01", "large_batches", fixed(start=pcs.large, empty=st.just(False), ops=st.lists(large_ops, min_size=3, max_size=8), order=seeds), quick=500)
also(history_agrees_with_list_model, "C01", "long_histories", fixed(start=pcs.batch, empty=st.booleans(), ops=st.lists(ops, min_size=20, max_size=60), order=seeds), quick=500)
