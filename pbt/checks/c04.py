"""C04: RGB-D back-projection geometry."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds
from gradslam import RGBDImages

rule("C04", "A case is an RGB-D batch (1-3 elements, 1-3 frames, 2-6 x 2-7 pixels, rough/smooth/planar/stepped depth, scenes from 0.1 mm to 200 m, with 0-90% holes, "
     "own intrinsics per element, own pose per frame or none, either layout) and an order of reading its maps; all maps are compared with "
     "a float64 numpy model. Normals are compared where the two surface differences span at least 0.03 rad and are at least 0.5% of the scene. Non-trivial: some pixel has "
     "depth and poses are given or the batch has several elements or frames.")


def nontriv(m):
    return bool(m.mask().any()) and (m.poses is not None or m.shape[0] * m.shape[1] > 1)


@test("C04", fixed(f=rgbds.batch, order=seeds), quick=12000)
def maps(case, ctx):
    x, m = rgbds.make(case["f"])
    ctx.nt(nontriv(m))
    ctx.event("cf" if m.cf else "cl")
    rgbds.check_all(x, m, "frames", case["order"])


@test("C04", fixed(f=rgbds.batch, s=seeds), quick=2000)
def vertices_project_to_their_pixel(case, ctx):
    """Metamorphic: K v / z is the pixel, z is the depth, through the object's own values."""
    x, m = rgbds.make(case["f"], neg=False)
    ctx.nt(nontriv(m))
    V = rgbds.unlay(x.vertex_map, m.cf, "vertex map").astype(np.float64)
    G = rgbds.unlay(x.global_vertex_map, m.cf, "global vertex map").astype(np.float64)
    B, L, H, W = m.shape
    for b in range(B):
        for l in range(L):
            for (i, j) in np.argwhere(m.d[b, l] > 0):
                v = V[b, l, i, j]
                p = m.K[b, :3, :3] @ v
                close(p / p[2], np.array([j, i, 1.0]), "projection of the vertex of pixel (%d,%d)" % (i, j), rtol=1e-4, atol=1e-4)
                close(v[2], m.d[b, l, i, j], "depth of the vertex", rtol=1e-6)
                if m.poses is not None:
                    close(np.linalg.solve(m.poses[b, l], np.append(G[b, l, i, j], 1.0))[:3], v, "global vertex moved back to the camera",
                          rtol=1e-4, atol=2e-5, scale=m.size(True), floor=0)


@test("C04", fixed(f=rgbds.batch, s=seeds, what=st.sampled_from(["element", "frame", "pixel", "colors"])), quick=3000)
def independence(case, ctx):
    """Changing other elements / frames / far pixels / colors leaves a pixel's maps bitwise unchanged."""
    x, m = rgbds.make(case["f"])
    s = case["s"]
    B, L, H, W = m.shape
    d, K, P, rgb = m.d.copy(), m.K.copy(), None if m.poses is None else m.poses.copy(), m.rgb.copy()
    keep = np.ones((B, L, H, W), bool)
    keepn = keep
    k = case["what"]
    b, l = s % B, (s // 8) % L
    if k == "element":
        if B < 2:
            raise Reject
        d[b] = rgbds.depth(s, B, L, H, W, "rough", 0.4, tag="other")[b]
        K[b] = rgbds.kmat(s, H, W, "otherK")
        if P is not None:
            P[b] = np.stack([rgbds.f32(pose(s, tag="oP%d" % i)) for i in range(L)])
        keep[b] = False
    elif k == "frame":
        if L < 2:
            raise Reject
        d[:, l] = rgbds.depth(s, B, L, H, W, "rough", 0.4, tag="other")[:, l]
        if P is not None:
            P[:, l] = np.stack([rgbds.f32(pose(s, tag="oP%d" % i)) for i in range(B)])
        keep[:, l] = False
    elif k == "pixel":
        i, j = (s // 64) % H, (s // 512) % W
        d[b, l, i, j] = 0.0 if s % 2 and d[b, l, i, j] > 0 else 0.77
        keep[b, l, i, j] = False
        keepn = keep.copy()
        # forward differences: pixels to the left / above (and the copied last row and column) may change
        for ii in range(H):
            for jj in range(W):
                a, c = min(ii, H - 2), min(jj, W - 2)
                if (i, j) in [(ii, c), (ii, c + 1), (a, jj), (a + 1, jj)]:
                    keepn[b, l, ii, jj] = False
    else:
        rgb = rgb[..., ::-1].copy()
    keepn = keepn & keep
    ctx.event(k)
    ctx.nt(bool(m.mask()[keep].any()))
    y = rgbds.build(rgbds.Model(rgb, d, K, P, m.cf))
    for name, kk in (("vertex_map", keep), ("global_vertex_map", keep), ("normal_map", keepn), ("global_normal_map", keepn)):
        g = rgbds.unlay(getattr(x, name), m.cf, name)
        w = rgbds.unlay(getattr(y, name), m.cf, name)
        close(g[kk], w[kk], "%s after changing another %s" % (name, k), rtol=1e-5, atol=2e-6, scale=1 if "normal" in name else m.size(True), floor=0)


@test("C04", fixed(f=rgbds.batch, s=seeds), quick=1500)
def layouts_agree(case, ctx):
    a, m = rgbds.make(case["f"], cf=False)
    b, mb = rgbds.make(case["f"], cf=True)
    ctx.nt(nontriv(m))
    for name in ("vertex_map", "global_vertex_map", "normal_map", "global_normal_map", "valid_depth_mask"):
        g, w = rgbds.unlay(getattr(a, name), False, name).astype(np.float64), rgbds.unlay(getattr(b, name), True, name).astype(np.float64)
        if "normal" in name:
            good = m.normal()[1]
            g, w = g[good], w[good]
        close(g, w, name + " of the two layouts", rtol=1e-5, atol=2e-3 if "normal" in name else 1e-5, scale=1 if "normal" in name else m.size(True), floor=0)


@test("C04", fixed(f=rgbds.batch, s=seeds), quick=1000)
def given_pixel_grid(case, ctx):
    """The optional precomputed pixel grid changes nothing; other positions of the pixels are used."""
    m = rgbds.model_of(case["f"], cf=False)
    B, L, H, W = m.shape
    v, u = np.mgrid[0:H, 0:W].astype(np.float64)
    g = np.broadcast_to(np.stack([u, v, np.ones_like(u)], -1), (B, L, H, W, 3)).copy()
    x = rgbds.build(m, pixel_pos=T(g))
    ctx.nt(nontriv(m))
    rgbds.check_all(x, m, "frames with a given pixel grid", case["s"])
    x, m = rgbds.make(case["f"], grid=True)
    rgbds.check_all(x, m, "frames with given pixel positions", case["s"])


also(maps, "C04", "maps_of_large_batches", fixed(f=rgbds.large, order=seeds), quick=750)
also(independence, "C04", "independence_in_large_batches", fixed(f=rgbds.large, s=seeds, what=st.sampled_from(["element", "frame", "pixel", "colors"])), quick=300)
