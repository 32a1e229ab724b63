"""C06: frame to point cloud."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds
from gradslam.structures.utils import pointclouds_from_rgbdimages

rule("C06", "A case is a single-frame RGB-D batch (1-3 elements, 2-6 x 2-7 pixels, 0-90% holes or none valid, own intrinsics and pose, either "
     "layout), maps possibly read before, both flags; the point clouds are compared pixel by pixel with the numpy model, colors exactly, and with "
     "the object's own maps. Non-trivial: there is a valid pixel.")


def compare(pc, x, m, glob, filt, what):
    B, _, H, W = m.shape
    V = m.glob() if glob else m.vertex()
    N, good = m.gnormal() if glob else m.normal()
    check(len(pc) == B, "%s: %d clouds for %d frames", what, len(pc), B)
    pl, nl, cl = pc.points_list, pc.normals_list, pc.colors_list
    check(nl is not None and cl is not None, "%s: normals or colors missing", what)
    ov = rgbds.unlay(x.global_vertex_map if glob else x.vertex_map, m.cf, "map")
    on = rgbds.unlay(x.global_normal_map if glob else x.normal_map, m.cf, "map")
    for b in range(B):
        k = m.mask()[b, 0] if filt else np.ones((H, W), bool)
        close(pl[b], V[b, 0][k], "%s: points of element %d" % (what, b), rtol=2e-5, atol=2e-5, scale=m.size(glob), floor=0)
        same(npy(cl[b]).astype(np.float64), m.rgb[b, 0][k], "%s: colors of element %d" % (what, b))
        rgbds.check_normals(npy(nl[b]), N[b, 0][k], good[b, 0][k], "%s: normals of element %d" % (what, b))
        close(pl[b], ov[b, 0][k], "%s: points of element %d against the vertex map" % (what, b), rtol=1e-6, atol=1e-6, scale=m.size(glob), floor=0)
        g = good[b, 0][k]
        close(npy(nl[b])[g], on[b, 0][k][g], "%s: normals of element %d against the normal map" % (what, b), atol=1e-3)
    same(npy(pc.num_points_per_pointcloud).astype(np.int64), np.array([int(m.mask()[b].sum()) if filt else H * W for b in range(B)], dtype=np.int64), what + ": counts")


one = rgbds.batch


@test("C06", fixed(f=one, glob=st.booleans(), filt=st.booleans(), reads=st.lists(seeds, max_size=3), allholes=st.sampled_from([False] * 9 + [True]), s=seeds), quick=9000)
def conversion(case, ctx):
    m = rgbds.model_of(case["f"], L=1)
    if case["allholes"]:
        m.d[case["s"] % m.shape[0]] = 0
    x = rgbds.build(m)
    for r in case["reads"]:
        rgbds.check_view(x, m, rgbds.VIEWS[r % len(rgbds.VIEWS)], "before")
    kw = {}
    if not case["glob"] or case["s"] % 2:
        kw["global_coordinates"] = case["glob"]
    if not case["filt"] or case["s"] % 3:
        kw["filter_missing_depths"] = case["filt"]
    pc = pointclouds_from_rgbdimages(x, **kw)
    ctx.nt(bool(m.mask().any()))
    compare(pc, x, m, case["glob"], case["filt"], "clouds")
    rgbds.check_all(x, m, "frames after the conversion", case["s"])


@test("C06", fixed(f=one, glob=st.booleans(), filt=st.booleans(), s=seeds), quick=2500)
def one_frame_of_a_sequence(case, ctx):
    x, m = rgbds.make(case["f"])
    l = case["s"] % m.shape[1]
    if case["s"] % 2:
        rgbds.check_all(x, m, "sequence", case["s"])
    f = x[:, l]
    n = m.sel(list(range(m.shape[0])), [l])
    pc = pointclouds_from_rgbdimages(f, global_coordinates=case["glob"], filter_missing_depths=case["filt"])
    ctx.nt(bool(n.mask().any()))
    compare(pc, f, n, case["glob"], case["filt"], "clouds of frame %d" % l)
    rgbds.check_all(x, m, "sequence after converting a frame", case["s"])


@test("C06", fixed(f=one, glob=st.booleans(), filt=st.booleans(), s=seeds), quick=1500)
def result_is_independent_of_the_frame(case, ctx):
    """Changing the resulting clouds in place changes nothing in the frame (filtered results are gathered copies)."""
    x, m = rgbds.make(case["f"], L=1)
    pc = pointclouds_from_rgbdimages(x, global_coordinates=case["glob"], filter_missing_depths=True)
    ctx.nt(bool(m.mask().any()))
    pc.offset_(1.5)
    pc.rotate_(T(rot(case["s"])))
    for t in pc.colors_list + pc.normals_list:
        t.mul_(-1.0)
    rgbds.check_all(x, m, "frames after changing their clouds", case["s"])


@test("C06", fixed(f=one, s=seeds), quick=500)
def refused(case, ctx):
    x, m = rgbds.make(case["f"], L=2 + case["s"] % 2)
    ctx.nt()
    raises(lambda: pointclouds_from_rgbdimages(x), ValueError, "a sequence of several frames")
    raises(lambda: pointclouds_from_rgbdimages([None, 3, x.rgb_image][case["s"] % 3]), TypeError, "not RGB-D images")
    rgbds.check_all(x, m, "frames after refused conversions", case["s"])


also(conversion, "C06", "conversion_of_large_frames", fixed(f=rgbds.large, glob=st.booleans(), filt=st.booleans(), reads=st.lists(seeds, max_size=3), allholes=st.sampled_from([False] * 9 + [True]), s=seeds), quick=600)
