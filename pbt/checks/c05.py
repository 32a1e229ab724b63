"""C05: RGB-D batches stay self-consistent under any history."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds
from rgbds import lay
from gradslam import RGBDImages

rule("C05", "A case is an RGB-D batch (sometimes with given pixel positions) and a history of up to 8 operations (assign colors/depths/intrinsics/poses, read any map or mask, convert "
     "layout in place or to a copy, index, clone, detach, device copy, wrongly shaped assignment) over a growing set of objects; after it every "
     "object equals its own numpy model in every view, read in a drawn order. Non-trivial: the history assigns or converts after some map was read.")

OPS = ["rgb", "depth", "K", "poses", "dropposes", "read", "read", "read", "readall", "cl_", "cf_", "cl", "cf", "clcopy", "cfcopy", "index",
       "clone", "detach", "tocopy", "to", "bad"]
op = fixed(op=st.sampled_from(OPS), who=seeds, s=seeds)
COPY = ("clone", "detach", "tocopy", "clcopy", "cfcopy")


def assign(x, m, k, s):
    B, L, H, W = m.shape
    t = lambda a: T(np.ascontiguousarray(a))
    if k == "rgb":
        m.rgb = rgbds.f32(arr(s, (B, L, H, W, 3), 0, 255, "newrgb"))
        x.rgb_image = t(lay(m.rgb, m.cf))
    elif k == "depth":
        m.d = rgbds.depth(s, B, L, H, W, rgbds.SURF[s % 4], [0, .3, .7][s % 3], tag="newd")
        x.depth_image = t(lay(m.d[..., None], m.cf))
    elif k == "K":
        m.K = np.stack([rgbds.kmat(s, H, W, "newK%d" % b) for b in range(B)])
        x.intrinsics = t(m.K[:, None])
    elif k == "poses":
        m.poses = np.stack([np.stack([rgbds.f32(pose(s, tag="newP%d,%d" % (b, l))) for l in range(L)]) for b in range(B)])
        x.poses = t(m.poses)
    else:
        m.poses = None
        x.poses = None


def read(x, m, s, what):
    rgbds.check_view(x, m, rgbds.VIEWS[s % len(rgbds.VIEWS)], what)


def pick_index(m, s, what):
    """(index, batch ids, frame ids) over every documented kind."""
    B, L = m.shape[:2]

    def one(n, kind, t):
        if kind == 0:
            i = t % n
            return i, [i]
        if kind == 1:
            c = [slice(a, b, z) for a in [None] + list(range(-n, n)) for b in [None] + list(range(-n, n + 2)) for z in (None, 2) if len(range(n)[slice(a, b, z)])]
            i = c[t % len(c)]
            return i, list(range(n))[i]
        k = 1 + t % 3
        ids = [(t >> (3 * j + 2)) % n for j in range(k)]
        if kind == 2:
            return ids, ids
        mk = [(t >> j) & 1 == 1 for j in range(n)]
        if not any(mk):
            mk[t % n] = True
        return torch.tensor(mk), [j for j in range(n) if mk[j]]
    kb, kl = (s // 7) % 4, (s // 31) % 4
    if s % 3 == 0:
        i, b = one(B, kb, s // 101)
        return i, b, list(range(L))
    if kb > 1 and kl > 1:
        kl = 1
    i, b = one(B, kb, s // 101)
    j, l = one(L, kl, s // 1009)
    return (i, j), b, l


def run(x, m, ops, ctx, order):
    objs = [(x, m)]
    seen = set()
    for o in ops:
        k, s = o["op"], o["s"]
        x, m = objs[o["who"] % len(objs)]
        ctx.event(k)
        if k in ("rgb", "depth", "K", "poses", "dropposes"):
            ctx.nt(id(x) in seen)
            assign(x, m, k, s)
        elif k == "read":
            read(x, m, s, "during the history")
            seen.add(id(x))
        elif k == "readall":
            rgbds.check_all(x, m, "during the history", s)
            seen.add(id(x))
        elif k in ("cl_", "cf_"):
            ctx.nt(id(x) in seen)
            r = x.to_channels_last_() if k == "cl_" else x.to_channels_first_()
            check(r is x, "in-place layout conversion returned another object")
            m.cf = k == "cf_"
        elif k in ("cl", "cf", "clcopy", "cfcopy"):
            ctx.nt(id(x) in seen)
            kw = dict(copy=True) if "copy" in k else {}
            r = x.to_channels_last(**kw) if k.startswith("cl") else x.to_channels_first(**kw)
            cf = k.startswith("cf")
            if cf == m.cf and not kw:
                check(r is x, "conversion to the present layout without copy returned another object")
            else:
                check(r is not x, "layout conversion returned the object itself")
                n = m.copy()
                n.cf = cf
                if id(x) in seen:
                    seen.add(id(r))
                objs.append((r, n))
        elif k == "to":
            check(x.to(here() if s % 2 else torch.device(here())) is x, "to(same device) without copy returned another object")
            check(here() != "cpu" or x.cpu() is x, "cpu() returned another object")
        elif k in ("clone", "detach", "tocopy"):
            r = x.clone() if k == "clone" else x.detach() if k == "detach" else x.to(here() if s % 2 else torch.device(here()), copy=True)
            check(r is not x, "%s returned the object itself", k)
            if id(x) in seen:
                seen.add(id(r))
            objs.append((r, m.copy()))
        elif k == "index":
            ix, b, l = pick_index(m, s, "x")
            r = x[ix]
            n = m.sel(b, l)
            if id(x) in seen:
                seen.add(id(r))
            objs.append((r, n))
        elif k == "bad":
            name = ["rgb_image", "depth_image", "intrinsics", "poses"][s % 4]
            v = getattr(x, name)
            if v is None:
                v = torch.zeros(*m.shape[:2], 4, 4, device=here())
            w = s // 4 % 5
            if w == 0:
                v = v[0]
            elif w == 1:
                v = torch.cat([v, v], 0)
            elif w == 2:
                v = v[..., :-1, :]
            elif w == 3:
                v = npy(v)
            else:
                v = torch.cat([v, v], 1)
            raises(lambda: setattr(x, name, v), (ValueError, TypeError), "assigning a wrongly shaped %s" % name)
    for i in np.argsort(arr(order, (len(objs),), 0, 1, "objs"), kind="stable"):
        rgbds.check_all(objs[i][0], objs[i][1], "object %d after the history" % i, order + int(i))


@test("C05", fixed(f=rgbds.gridded, ops=st.lists(op, min_size=1, max_size=8), order=seeds), quick=12000)
def history(case, ctx):
    x, m = rgbds.make(case["f"])
    run(x, m, case["ops"], ctx, case["order"])


def touch(x):
    """Write through every tensor the object hands out."""
    for name in ("rgb_image", "depth_image", "intrinsics", "poses", "valid_depth_mask", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "pixel_pos"):
        v = getattr(x, name)
        if v is None:
            continue
        with torch.no_grad():
            v.logical_not_() if v.dtype == torch.bool else v.mul_(-2.0).add_(7.0)


@test("C05", fixed(f=rgbds.gridded, pre=st.lists(op, max_size=4), c=st.sampled_from(["clone", "detach", "tocopy", "cl", "cf", "clcopy", "cfcopy"]),
                   side=st.booleans(), post=st.sampled_from(["tensors", "assign", "layout"]), s=seeds, order=seeds), quick=6000)
def copies_are_independent(case, ctx):
    x, m = rgbds.make(case["f"])
    for o in case["pre"]:
        if o["op"] in ("read", "readall"):
            read(x, m, o["s"], "before copying") if o["op"] == "read" else rgbds.check_all(x, m, "before copying", o["s"])
            ctx.nt()
        elif o["op"] in ("depth", "K", "poses", "rgb"):
            assign(x, m, o["op"], o["s"])
        elif o["op"] in ("cl_", "cf_"):
            x.to_channels_last_() if o["op"] == "cl_" else x.to_channels_first_()
            m.cf = o["op"] == "cf_"
    k = case["c"]
    n = m.copy()
    if k in ("clone", "detach", "tocopy"):
        y = {"clone": x.clone, "detach": x.detach, "tocopy": lambda: x.to(here(), copy=True)}[k]()
    else:
        n.cf = k.startswith("cf")
        if n.cf == m.cf and "copy" not in k:
            raise Reject
        y = getattr(x, "to_channels_first" if n.cf else "to_channels_last")(**(dict(copy=True) if "copy" in k else {}))
    ctx.event(k)
    a, b, mb = (x, y, n) if case["side"] else (y, x, m)
    if case["post"] == "tensors":
        touch(a)
    elif case["post"] == "assign":
        ma = (m if case["side"] else n).copy()
        for q in ("depth", "K", "poses", "rgb"):
            assign(a, ma, q, case["s"])
    else:
        a.to_channels_first_() if not a.channels_first else a.to_channels_last_()
    rgbds.check_all(b, mb, "%s after changing the other (%s, %s)" % ("copy" if case["side"] else "source", k, case["post"]), case["order"])


@test("C05", fixed(f=rgbds.gridded, first=st.booleans(), reads=st.lists(seeds, max_size=4)), quick=2500)
def layout_round_trip(case, ctx):
    x, m = rgbds.make(case["f"])
    for s in case["reads"]:
        read(x, m, s, "before")
        ctx.nt()
    names = [v for v in rgbds.VIEWS if v != "shape"]
    before = {v: getattr(x.clone(), v) for v in names}
    y = x.to_channels_last() if m.cf else x.to_channels_first()
    for v in names:
        g = getattr(y, v)
        if v in ("intrinsics", "poses"):
            check((g is None) == (before[v] is None), v)
            if g is not None:
                same(g, before[v], v + " after a layout conversion")
        else:
            a, b = rgbds.unlay(g, not m.cf, v), rgbds.unlay(before[v], m.cf, v)
            if "normal" in v:
                gd = m.normal()[1]
                a, b = a[gd], b[gd]
            close(a, b, v + " after a layout conversion", atol=2e-3 if "normal" in v else 1e-5, scale=1 if "normal" in v else m.size(True), floor=0)
    z = y.to_channels_first() if m.cf else y.to_channels_last()
    rgbds.check_all(z, m, "after converting there and back", case["f"]["s"])
    rgbds.check_all(x, m, "source after conversions", case["f"]["s"])


@test("C05", fixed(f=rgbds.gridded, s=seeds), quick=800)
def out_of_range_index_refused(case, ctx):
    x, m = rgbds.make(case["f"])
    B, L = m.shape[:2]
    s = case["s"]
    ix = [B + s % 3, (B + s % 2, 0), (0, L + s % 3), (slice(None), L), (0, 0, 0), (slice(0, 0), 0)][s % 6]
    ctx.nt()
    raises(lambda: x[ix], IndexError, "index %r" % (ix,))
    rgbds.check_all(x, m, "after a refused index", s)


also(history, "C05", "history_of_large_batches", fixed(f=rgbds.large, ops=st.lists(op, min_size=1, max_size=5), order=seeds), quick=450)
also(history, "C05", "long_histories", fixed(f=rgbds.gridded, ops=st.lists(op, min_size=12, max_size=40), order=seeds), quick=750)
