"""C03: appending, indexing, cloning, moving never share or mix data."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import pcs
from pcs import ATTRS
from gradslam import Pointclouds
from checks.c02 import prep, prepare

rule("C03", "A case is one or two batches (1-3 clouds of 0-5 points, list/padded/empty object, any attribute subset, views read or "
     "changed beforehand), an append / index / copy operation, and later writes into tensors obtained from either side or in-place "
     "operations on either side; contents of both sides are compared with a list model. Non-trivial: real points were appended, "
     "selected or copied.")


def dirty(pc, how, s):
    """Change an object in place: through its tensors or through its operations."""
    if how == "tensors":
        for k in ("points",) + ATTRS:
            for v in (getattr(pc, k + "_padded"), getattr(pc, k + "_list")):
                for t in (v if isinstance(v, list) else [v]):
                    if torch.is_tensor(t):
                        with torch.no_grad():
                            t.mul_(-3.0).add_(11.0)
        if pc.nonpad_mask is not None:
            pc.nonpad_mask.logical_not_()
        pc.num_points_per_pointcloud.add_(3)
    elif how == "geometry":
        pc.offset_(3.25)
        pc.rotate_(T(rot(s), pc.points_padded.dtype) if pc.has_points else T(rot(s)))
        pc.scale_(2.0)
    elif how == "set":
        if pc.has_points:
            pc.points_list = [t * 0 + 5 for t in pc.points_list]
            for k in ATTRS:
                if getattr(pc, "has_" + k):
                    setattr(pc, k + "_padded", getattr(pc, k + "_padded") * 0)
    elif how == "append":
        if pc.has_points:
            kw = {k: [t[:0].repeat(1, 1) if False else torch.full((2, t.shape[-1]), 9.0, dtype=t.dtype, device=t.device) for t in getattr(pc, k + "_list")]
                  for k in ATTRS if getattr(pc, "has_" + k)}
            pc.append_points(Pointclouds(points=[torch.full((2, 3), 9.0, dtype=t.dtype, device=t.device) for t in pc.points_list], **kw))


DIRTY = ["tensors", "geometry", "set", "append"]
app = fixed(a=pcs.batch, b=pcs.batch, aempty=st.sampled_from([False, False, False, True]), bempty=st.sampled_from([False] * 7 + [True]),
            prepa=prep, prepb=prep, twice=st.booleans(), how=st.sampled_from(DIRTY), side=st.sampled_from(["a", "b"]), s=seeds, order=seeds)


@test("C03", app, quick=9000)
def append(case, ctx):
    f64 = case["a"]["f64"]
    a, ma = pcs.make(case["a"])
    a = prepare(a, ma, case["prepa"], case["s"], f64)
    attrs = [k for k in ATTRS if ma.attrs[k] is not None]
    b, mb = pcs.make(dict(case["b"], f64=f64), B=ma.B, attrs=attrs, c=max(ma.C, 1))
    b = prepare(b, mb, case["prepb"], case["s"] + 1, f64)
    if case["aempty"]:
        a, ma = Pointclouds(device=here()), None
    if case["bempty"]:
        b, mb = Pointclouds(device=here()), None
    r = a.append_points(b)
    check(r is a, "append did not return the object it extended")
    want = ma.copy() if ma else (mb.copy() if mb else pcs.Model([]))
    if ma and mb:
        want.append(mb)
    ctx.event("into empty" if not ma else "append empty" if not mb else "both")
    ctx.nt(bool(mb) and sum(mb.ns) > 0)
    if case["twice"] and mb:
        if case["order"] % 2:
            pcs.check_all(a, want, "after the first append", case["order"])
        a.append_points(b)
        want.append(mb)
    mbv = mb if mb else pcs.Model([])
    if case["order"] % 3 == 0:
        pcs.check_all(a, want, "extended batch", case["order"])
    # later change of one side
    if case["side"] == "a":
        dirty(a, case["how"], case["s"])
        pcs.check_all(b, mbv, "appended batch after changing the extended one (%s)" % case["how"], case["order"])
    else:
        pcs.check_all(b, mbv, "appended batch", case["order"])
        dirty(b, case["how"], case["s"])
        pcs.check_all(a, want, "extended batch after changing the appended one (%s)" % case["how"], case["order"])


selfapp = fixed(a=pcs.batch, prepa=prep, s=seeds, order=seeds)


@test("C03", selfapp, quick=1500)
def append_to_itself(case, ctx):
    a, m = pcs.make(case["a"])
    a = prepare(a, m, case["prepa"], case["s"], case["a"]["f64"])
    a.append_points(a)
    w = m.copy()
    w.append(m)
    ctx.nt(sum(m.ns) > 0)
    pcs.check_all(a, w, "batch appended to itself", case["order"])


copies = fixed(a=pcs.batch, prepa=prep, c=st.sampled_from(["clone", "detach", "to_copy_str", "to_copy_dev"]), how=st.sampled_from(DIRTY),
               side=st.sampled_from(["orig", "copy"]), s=seeds, order=seeds, empty=st.sampled_from([False] * 15 + [True]))


@test("C03", copies, quick=9000)
def copies_are_independent(case, ctx):
    a, m = pcs.make(case["a"])
    a = prepare(a, m, case["prepa"], case["s"], case["a"]["f64"])
    if case["empty"]:
        a, m = Pointclouds(device=here()), pcs.Model([])
    c = {"clone": lambda: a.clone(), "detach": lambda: a.detach(), "to_copy_str": lambda: a.to(here(), copy=True),
         "to_copy_dev": lambda: a.to(torch.device(here()), copy=True)}[case["c"]]()
    check(c is not a, "%s returned the object itself", case["c"])
    ctx.event(case["c"])
    ctx.nt(sum(m.ns) > 0)
    x, y = (a, c) if case["side"] == "orig" else (c, a)
    if not case["empty"]:
        dirty(x, case["how"], case["s"])
    pcs.check_all(y, m, "%s after changing the %s (%s)" % ("copy" if case["side"] == "orig" else "original", case["side"], case["how"]), case["order"])
    check(y.device.type == torch.device(here()).type, "device is %s", y.device)
    at_home(y, "the other one")


@test("C03", fixed(a=pcs.batch, prepa=prep, s=seeds, str=st.booleans()), quick=500)
def to_same_device_is_identity(case, ctx):
    a, m = pcs.make(case["a"])
    a = prepare(a, m, case["prepa"], case["s"], case["a"]["f64"])
    ctx.nt(sum(m.ns) > 0)
    check(a.to(here() if case["str"] else torch.device(here())) is a, "to(same device) without copy returned another object")
    check(here() != "cpu" or a.cpu() is a, "cpu() of a cpu batch returned another object")
    pcs.check_all(a, m, "after to", case["s"])


@test("C03", fixed(a=pcs.batch, prepa=prep, s=seeds, order=seeds), quick=1500)
def detach_keeps_data_drops_graph(case, ctx):
    a, m = pcs.make(case["a"])
    dt = torch.float64 if case["a"]["f64"] else torch.float32
    leaf = torch.zeros((), dtype=dt, device=here(), requires_grad=True)
    a = a + leaf
    a = prepare(a, m, case["prepa"], case["s"], case["a"]["f64"])
    d = a.detach()
    ctx.nt(sum(m.ns) > 0)
    pcs.check_all(d, m, "detached", case["order"])
    for k in ("points",) + ATTRS:
        for v in (getattr(d, k + "_padded"), getattr(d, k + "_list")):
            for t in (v if isinstance(v, list) else [v]):
                check(not torch.is_tensor(t) or not t.requires_grad, "%s of the detached batch still carries a graph", k)
    check(a.points_padded.requires_grad, "the original lost its graph")
    c = a.clone()
    check(c.points_padded.requires_grad, "a clone lost its graph")


idx = fixed(a=pcs.batch, prepa=prep, k=st.sampled_from(["int", "slice", "list", "mask", "long", "negslice"]), s=seeds, order=seeds)


@test("C03", idx, quick=6000)
def indexing(case, ctx):
    a, m = pcs.make(dict(case["a"], ns=(case["a"]["ns"] * 2)[:4]))
    a = prepare(a, m, case["prepa"], case["s"], case["a"]["f64"])
    B, s, k = m.B, case["s"], case["k"]
    if k == "int":
        ix = s % (2 * B) - B
        ids = [ix % B]
    elif k in ("slice", "negslice"):
        cand = [slice(x, y, z) for x in [None] + list(range(-B, B)) for y in [None] + list(range(-B, B + 2)) for z in (None, 1, 2)]
        cand = [c for c in cand if len(range(B)[c])]
        ix = cand[s % len(cand)]
        ids = list(range(B))[ix]
    elif k == "mask":
        mk = [(s >> j) & 1 == 1 for j in range(B)]
        if not any(mk):
            mk[s % B] = True
        ids, ix = [j for j in range(B) if mk[j]], torch.tensor(mk)
    else:
        n = 1 + s % 4
        ids = [int(x) for x in np.floor(arr(s, (n,), 0, B - 1e-9, "ix"))]
        ix = list(ids) if k == "list" else torch.tensor(ids)
    ctx.event(k)
    ctx.nt(sum(m.ns) > 0)
    r = a[ix]
    pcs.check_all(r, m.index(ids), "selection %r" % (ix,), case["order"])
    pcs.check_all(a, m, "batch after indexing", case["order"])


bad = fixed(a=pcs.batch, b=pcs.batch, prepa=prep, prepb=prep, k=st.sampled_from(["batch", "attrs", "width", "type"]), s=seeds, order=seeds)


@test("C03", bad, quick=3000)
def incompatible_append_refused(case, ctx):
    f64 = case["a"]["f64"]
    a, ma = pcs.make(case["a"])
    a = prepare(a, ma, case["prepa"], case["s"], f64)
    attrs = [k for k in ATTRS if ma.attrs[k] is not None]
    k = case["k"]
    B = ma.B
    c = max(ma.C, 1)
    if k == "batch":
        B = ma.B + 1 + case["s"] % 2 if (case["s"] % 3 or ma.B == 1) else ma.B - 1
    elif k == "attrs":
        x = ATTRS[case["s"] % 3]
        attrs = [z for z in attrs if z != x] if x in attrs else attrs + [x]
    elif k == "width":
        if "features" not in attrs:
            raise Reject
        c = c + 1 + case["s"] % 3
    b, mb = pcs.make(dict(case["b"], f64=f64), B=B, attrs=attrs, c=c)
    b = prepare(b, mb, case["prepb"], case["s"] + 1, f64)
    ctx.event(k)
    ctx.nt()
    if k == "type":
        raises(lambda: a.append_points([None, 3, "x", torch.zeros(1, 3)][case["s"] % 4]), TypeError, "appending a non point cloud")
    else:
        raises(lambda: a.append_points(b), (ValueError,), "appending a batch that differs in " + k)
        pcs.check_all(b, mb, "refused batch", case["order"])
    pcs.check_all(a, ma, "batch after a refused append", case["order"])


also(append, "C03", "append_large_batches", fixed(a=pcs.large, b=pcs.large, aempty=st.sampled_from([False, False, False, True]), bempty=st.just(False),
                                                  prepa=prep, prepb=prep, twice=st.booleans(), how=st.sampled_from(DIRTY), side=st.sampled_from(["a", "b"]), s=seeds, order=seeds), quick=600)
also(copies_are_independent, "C03", "copies_of_large_batches", fixed(a=pcs.large, prepa=prep, c=st.sampled_from(["clone", "detach", "to_copy_str", "to_copy_dev"]), how=st.sampled_from(DIRTY),
                                                                     side=st.sampled_from(["orig", "copy"]), s=seeds, order=seeds, empty=st.just(False)), quick=400)
