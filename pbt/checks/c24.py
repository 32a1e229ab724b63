"""C24: exports for display."""
import base64
import re
import cv2
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import pcs, rgbds
from gradslam import Pointclouds, RGBDImages

rule("C24", "A case is a point cloud batch (sizes including empty, colors in 0-1 or 0-255 range with values outside it and near-black points, any attributes) with an index and a maximum, "
     "or an RGB-D batch of color blocks with holes in either layout; exported arrays, JPEG pictures (decoded) and the animation's structure are compared with the source. "
     "Non-trivial: the exported cloud is non-empty / there is more than one frame.")


def cloud(case):
    s = case["a"]["s"]
    m = pcs.model_of(case["a"])
    c = m.attrs["colors"]
    if c is not None:
        for b in range(m.B):
            if case["range"] == "255":
                x = arr(s, c[b].shape, -10, 290, "c255/%d" % b)
                dark = arr(s, (len(x), 1), 0, 1, "dark%d" % b) < 0.5
                x = np.where(dark, np.minimum(np.abs(x) / 290, 1.0), x)
                if len(x):
                    x[0] = [200, 7.5, 254.9]
            else:
                x = arr(s, c[b].shape, -0.05, 1.05, "c1/%d" % b)
            c[b] = pcs.f32(x, case["a"]["f64"])
    x = pcs.build(m, case["a"]["kind"], case["a"]["f64"])
    return (learning(x) if s % 4 == 0 else x), m


def learning(x):
    """The same cloud, or the same frames, as the result of a differentiable computation."""
    one = torch.ones((), device=here(), requires_grad=True)
    if isinstance(x, Pointclouds):
        if not any(x.num_points_per_pointcloud):
            return x
        return Pointclouds(*[None if v is None else [(t * one).to(t.dtype) for t in v] for v in (x.points_list, x.normals_list, x.colors_list, x.features_list)])
    return RGBDImages(x.rgb_image * one, x.depth_image * one, x.intrinsics * one, None if x.poses is None else x.poses * one, channels_first=x.channels_first)


def index_of(case, m):
    b = case["i"] % m.B
    return b, b - m.B if case["neg"] else b


def shown(m, b, rng, unit):
    x = np.clip(m.attrs["colors"][b] / (255.0 if rng == "255" else 1.0), 0, 1)
    return x if unit else x * 255


def pick_rows(got, all_, n, what):
    """The rows of all_ the exported points are: all in order, or n distinct ones."""
    check(got.shape == (n, 3), "%s: %s points, expected %d", what, got.shape, n)
    if n == len(all_):
        close(got, all_, what + ": points", rtol=0, atol=1e-6)
        return np.arange(n)
    ids = []
    for g in got:
        d = np.abs(all_ - g).max(1)
        j = int(np.argmin(d))
        check(d[j] <= 1e-6, "%s: exported point %s is not in the cloud", what, g)
        ids.append(j)
    check(len(set(ids)) == n, "%s: a point is exported twice", what)
    return np.array(ids, dtype=int)


cl = dict(a=pcs.batch, range=st.sampled_from(["1", "255"]), i=st.integers(0, 5), neg=st.booleans(), colors=st.sampled_from([True, True, False]), maxn=st.one_of(st.none(), st.integers(0, 7), st.sampled_from([1, 1, 2])), seed=seeds)


@test("C24", fixed(normals=st.booleans(), **cl), quick=4000)
def open3d(case, ctx):
    x, m = cloud(case)
    b, i = index_of(case, m)
    n = m.ns[b] if case["maxn"] is None else min(case["maxn"], m.ns[b])
    torch.manual_seed(case["seed"])
    o = x.open3d(i, include_colors=case["colors"], max_num_points=case["maxn"], include_normals=case["normals"])
    ids = pick_rows(np.asarray(o.points), m.points[b], n, "open3d")
    ctx.nt(n > 0)
    ctx.event("subsampled" if n < m.ns[b] else "all")
    if m.attrs["colors"] is not None and case["colors"]:
        close(o.colors, shown(m, b, case["range"], True)[ids].reshape(-1, 3), "open3d: colors", rtol=0, atol=1e-5)
    else:
        check(o.colors is None, "open3d: colors although none were asked for")
    if m.attrs["normals"] is not None and case["normals"]:
        close(o.normals, m.attrs["normals"][b][ids].reshape(-1, 3), "open3d: normals", rtol=0, atol=1e-6)
    else:
        check(o.normals is None, "open3d: normals although none were asked for")
    pcs.check_all(x, m, "the clouds after exporting", case["seed"])


@test("C24", fixed(fig=st.booleans(), size=st.integers(1, 5), default=st.sampled_from([False, False, False, True]), **cl), quick=2500)
def plotly_cloud(case, ctx):
    x, m = cloud(case)
    b, i = index_of(case, m)
    kw = {} if case["default"] else dict(max_num_points=case["maxn"])
    n = m.ns[b] if case["maxn"] is None or case["default"] else min(case["maxn"], m.ns[b])
    torch.manual_seed(case["seed"])
    o = x.plotly(i, include_colors=case["colors"], as_figure=case["fig"], point_size=case["size"], **kw)
    if case["fig"]:
        check(len(o.data) == 1, "%d traces", len(o.data))
        o = o.data[0]
    pts = np.stack([np.asarray(o.x, np.float64), np.asarray(o.y, np.float64), np.asarray(o.z, np.float64)], -1).reshape(-1, 3)
    ids = pick_rows(pts, m.points[b], n, "plotly")
    ctx.nt(n > 0)
    check(o.mode == "markers" and o.marker.size == case["size"], "markers of size %s", o.marker.size)
    if m.attrs["colors"] is not None and case["colors"]:
        c = np.asarray(o.marker.color)
        check(c.shape == (n, 3), "plotly: colors of shape %s", c.shape)
        close(c, shown(m, b, case["range"], False)[ids].reshape(-1, 3), "plotly: colors", rtol=0, atol=1.01)
    else:
        check(o.marker.color is None, "plotly: colors although none were asked for")
    pcs.check_all(x, m, "the clouds after exporting", case["seed"])


@test("C24", fixed(n=st.integers(2, 6), maxn=st.integers(1, 3), bright=st.integers(1, 2), kind=st.sampled_from(["open3d", "plotly"]), s=seeds), quick=1500)
def dark_samples_of_bright_clouds(case, ctx):
    """The range of colors is that of the whole cloud, whatever points are drawn."""
    s, n = case["s"], case["n"]
    c = arr(s, (n, 3), 0.2, 1, "c")
    c[:case["bright"]] = np.floor(arr(s, (case["bright"], 3), 30, 255, "b"))
    c = pcs.f32(c)
    p = pcs.f32(arr(s, (n, 3), -2, 2, "p"))
    x = Pointclouds(points=[T(p)], colors=[T(c)])
    torch.manual_seed(s % 1000)
    k = min(case["maxn"], n)
    if case["kind"] == "open3d":
        o = x.open3d(0, max_num_points=case["maxn"])
        pts, got, want = np.asarray(o.points), np.asarray(o.colors) * 255, c
    else:
        o = x.plotly(0, max_num_points=case["maxn"], as_figure=False)
        pts, got, want = np.stack([np.asarray(o.x, np.float64), np.asarray(o.y, np.float64), np.asarray(o.z, np.float64)], -1), np.asarray(o.marker.color, np.float64), c
    ids = pick_rows(pts, p, k, case["kind"])
    ctx.nt(k < n and (ids >= case["bright"]).all())
    close(got, want[ids], case["kind"] + ": colors", rtol=0, atol=1.01)


def decode(src):
    head, _, body = src.partition("base64,")
    check(head.startswith("data:image/"), "image source %r", head)
    a = cv2.imdecode(np.frombuffer(base64.b64decode(body), np.uint8), cv2.IMREAD_UNCHANGED)
    check(a is not None, "the picture cannot be decoded")
    return (a[..., ::-1] if a.ndim == 3 else a).astype(np.float64)


def picture(g, w, tol, what):
    check(g.shape == w.shape, "%s: picture of shape %s, expected %s", what, g.shape, w.shape)
    # blocks are 16 pixels wide: away from their borders JPEG keeps flat colors almost exactly
    d = np.abs(g - w)
    inner = [(np.arange(n) % 16 > 1) & (np.arange(n) % 16 < 14) for n in g.shape[:2]]
    d[~(inner[0][:, None] & inner[1])] = 0
    if d.max() > tol:
        k = np.unravel_index(int(np.argmax(d)), d.shape)
        fail("%s: %r at %s, expected %r", what, float(g[k]), tuple(int(v) for v in k), float(w[k]))


@test("C24", fixed(s=seeds, B=st.integers(1, 3), L=st.integers(1, 4), nh=st.integers(1, 2), nw=st.integers(1, 3), cf=st.booleans(), poses=st.booleans(), unit=st.lists(st.booleans(), min_size=3, max_size=3), depth=st.sampled_from([True, True, False]),
                   fig=st.booleans(), i=st.integers(0, 5), neg=st.booleans(), far=st.sampled_from([0.02, 0.3, 3.0, 20.0, 300.0]), holes=st.sampled_from([0.0, 0.3, 1.0]), ms=st.integers(1, 200)), quick=900)
def frames(case, ctx):
    s, B, L, nh, nw = case["s"], case["B"], case["L"], case["nh"], case["nw"]
    big = lambda a: np.repeat(np.repeat(a, 16, axis=2), 16, axis=3)
    rgb = big(np.floor(arr(s, (B, L, nh, nw, 3), 0, 256, "rgb"))) 
    unit = np.array(case["unit"][:B])     # the color range of each batch element
    clip = np.where(big(arr(s, (B, L, nh, nw, 1), 0, 1, "clip")) < 0.1, rgb * 1.3 - 20, rgb)
    clip[:, :, :, :, 0] = np.maximum(clip[:, :, :, :, 0], 2)
    rgb = np.where(unit[:, None, None, None, None], rgb / 255.0, clip)
    d = big(arr(s, (B, L, nh, nw, 1), 0.05, 1, "d")) * case["far"]
    d *= big(u01(s, B * L * nh * nw, "h").reshape(B, L, nh, nw, 1)) >= case["holes"]
    rgb, d = rgbds.f32(rgb), rgbds.f32(d)
    K = np.stack([rgbds.kmat(s, nh * 16, nw * 16, "K%d" % b) for b in range(B)])[:, None]
    P = np.stack([np.stack([pose(s, tag="%d/%d" % (b, l)) for l in range(L)]) for b in range(B)])
    args = [T(rgb), T(d), T(K)] + ([T(P)] if case["poses"] else [])
    if case["cf"]:
        args[:2] = [a.permute(0, 1, 4, 2, 3).contiguous() for a in args[:2]]
    keep = [a.clone() for a in args]
    x = RGBDImages(*args, channels_first=case["cf"])
    if s % 4 == 0:
        x = learning(x)
    b = case["i"] % B
    out = x.plotly(b - B if case["neg"] else b, include_depth=case["depth"], as_figure=case["fig"], ms_per_frame=case["ms"])
    fr = list(out.frames) if case["fig"] else out
    check(len(fr) == L, "%d frames for %d steps", len(fr), L)
    ctx.nt(L > 1)
    g = (lambda f, k: getattr(f, k)) if case["fig"] else (lambda f, k: f.get(k))
    want = np.clip(rgb[b] * (255.0 if unit[b] else 1.0), 0, 255)

    def traces(data, l, what):
        check(len(data) == (2 if case["depth"] else 1), "%s: %d pictures", what, len(data))
        picture(decode(data[0].source), want[l], 7, what + " color")
        if case["depth"]:
            q = re.search(r"scale: x([-+.e0-9]+)", data[1].hovertemplate)
            check(q is not None, "%s: no depth scale in %r", what, data[1].hovertemplate)
            sc = float(q.group(1))
            e = np.log10(sc)
            check(abs(e - round(e)) < 1e-9, "%s: scale %r is no power of ten", what, sc)
            top = d[b].max() * sc
            check(top <= 256 and (top > 25 or d[b].max() == 0), "%s: the largest depth %g is shown as %g", what, d[b].max(), top)
            picture(decode(data[1].source), d[b, l, ..., 0] * sc, 6, what + " depth")

    for l, f in enumerate(fr):
        check(str(g(f, "name")) == str(l), "frame %d is named %r", l, g(f, "name"))
        traces(g(f, "data"), l, "frame %d" % l)
        if case["depth"]:
            check(list(g(f, "traces")) == [0, 1], "frame %d draws on traces %s", l, g(f, "traces"))
    if case["fig"]:
        traces(out.data, 0, "initial picture")
        st_ = out.layout.sliders[0].steps
        check([str(q.label) for q in st_] == [str(l) for l in range(L)], "slider steps %s", [q.label for q in st_])
        for l, q in enumerate(st_):
            check(str(q.args[0][0]) == str(l), "slider step %d shows frame %s", l, q.args[0])
        play = out.layout.updatemenus[0].buttons[0].args[1]
        check(play["frame"]["duration"] == case["ms"], "play duration %s", play["frame"]["duration"])
    for a, k, w in zip(args, keep, ("color", "depth", "intrinsics", "poses")):
        same(a, k, w + " after exporting")
    same(x.rgb_image, keep[0], "color of the source after exporting")
    same(x.depth_image, keep[1], "depth of the source after exporting")
    check(x.channels_first == case["cf"], "the source's layout changed")


many = dict(cl, a=pcs.large, maxn=st.one_of(st.none(), st.integers(0, 6000), st.sampled_from([128, 1000])))
also(open3d, "C24", "open3d_of_large_clouds", fixed(normals=st.booleans(), **many), quick=300)
also(plotly_cloud, "C24", "plotly_of_large_clouds", fixed(fig=st.booleans(), size=st.integers(1, 5), default=st.booleans(), **many), quick=200)


@test("C24", fixed(n=st.sampled_from([199999, 200000, 200001, 210000]), s=seeds), quick=16)
def the_default_maximum(case, ctx):
    """plotly shows 200000 points unless told otherwise."""
    n = case["n"]
    p = np.arange(3 * n).reshape(n, 3) / 8.0
    x = Pointclouds(points=[T(p)], colors=[T((p % 256))])
    torch.manual_seed(case["s"] % 1000)
    o = x.plotly(0, as_figure=False)
    g = np.stack([np.asarray(o.x, np.float64), np.asarray(o.y, np.float64), np.asarray(o.z, np.float64)], -1)
    ctx.nt()
    k = min(n, 200000)
    check(g.shape == (k, 3), "plotly: %s points, expected %d", g.shape, k)
    ids = np.round(g[:, 0] * 8 / 3).astype(int)
    check(((ids >= 0) & (ids < n)).all() and len(set(ids.tolist())) == k, "plotly: a point is shown twice or does not exist")
    close(g, p[ids], "plotly: points", rtol=0, atol=1e-6)
    close(np.asarray(o.marker.color), (p % 256)[ids], "plotly: colors", rtol=0, atol=1.01)
