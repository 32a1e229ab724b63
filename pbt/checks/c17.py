"""C17: downsampling of frames and maps."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from core import T
import rgbds, pcs
from gradslam.odometry.icputils import downsample_pointclouds, downsample_rgbdimages

rule("C17", "A case is a single-frame RGB-D batch (own intrinsics/poses/holes, either layout) or a point cloud batch with a table of (batch, point, "
     "row, column) entries in any order, and a ratio of 1-5 (also larger than the image); the result is compared with direct selection. "
     "Non-trivial: something is kept and, for ratio above one, something is dropped.")


@test("C17", fixed(f=rgbds.batch, r=st.integers(1, 8), s=seeds, reads=st.lists(seeds, max_size=2)), quick=9000)
def frames(case, ctx):
    x, m = rgbds.make(case["f"], L=1)
    for q in case["reads"]:
        rgbds.check_view(x, m, rgbds.VIEWS[q % len(rgbds.VIEWS)], "before")
    r = case["r"]
    pc = downsample_rgbdimages(x, r)
    B, _, H, W = m.shape
    grid = np.zeros((H, W), bool)
    grid[::r, ::r] = True
    V, (N, good) = m.glob(), m.gnormal()
    check(len(pc) == B, "%d clouds for %d frames", len(pc), B)
    kept = 0
    for b in range(B):
        k = m.mask()[b, 0] & grid
        kept += int(k.sum())
        close(pc.points_list[b], V[b, 0][k], "points of element %d" % b, rtol=2e-5, atol=2e-5, scale=m.size(True), floor=0)
        rgbds.check_normals(npy(pc.normals_list[b]), N[b, 0][k], good[b, 0][k], "normals of element %d" % b)
        same(npy(pc.colors_list[b]).astype(np.float64), m.rgb[b, 0][k], "colors of element %d" % b)
    ctx.nt(kept > 0 and (r == 1 or kept < m.mask().sum()))
    rgbds.check_all(x, m, "frames after downsampling", case["s"])


@test("C17", fixed(a=pcs.batch, n=st.integers(0, 25), r=st.integers(1, 8), hw=st.integers(1, 12), s=seeds), quick=9000)
def maps(case, ctx):
    a, m = pcs.make(case["a"])
    s, B = case["s"], m.B
    rows = []
    for i in range(case["n"]):
        u = u01(s, 4, "row%d" % i)
        b = int(u[0] * B)
        if m.ns[b]:
            rows.append([b, int(u[1] * m.ns[b]), int(u[2] * case["hw"]), int(u[3] * case["hw"])])
    if s % 2:
        rows.sort()
    tab = torch.tensor(rows, dtype=torch.int64, device=here()).reshape(-1, 4)
    keep = tab.clone()
    r = case["r"]
    pc = downsample_pointclouds(a, tab, r)
    want = [[n for (b2, n, h, w) in rows if b2 == b and h % r == 0 and w % r == 0] for b in range(B)]
    kept = sum(map(len, want))
    ctx.nt(kept > 0 and (r == 1 or kept < len(rows)))
    check(len(pc) == B, "%d clouds for %d", len(pc), B)
    for b in range(B):
        same(npy(pc.points_list[b]).astype(np.float64), m.points[b][want[b]].reshape(-1, 3), "points of element %d" % b)
        for k in ("normals", "colors"):
            v = getattr(pc, k + "_list")
            check((v is not None) == (m.attrs[k] is not None), "%s present: %s", k, v is not None)
            if v is not None:
                same(npy(v[b]).astype(np.float64), m.attrs[k][b][want[b]].reshape(-1, 3), "%s of element %d" % (k, b))
    same(tab, keep, "the table after downsampling")
    pcs.check_all(a, m, "map after downsampling", s)


also(frames, "C17", "large_frames", fixed(f=rgbds.large, r=st.sampled_from([1, 2, 3, 4, 5, 7, 8, 16, 200]), s=seeds, reads=st.just([])), quick=450)
also(maps, "C17", "large_maps", fixed(a=pcs.large, n=st.integers(100, 2000), r=st.integers(1, 8), hw=st.integers(1, 200), s=seeds), quick=450)
