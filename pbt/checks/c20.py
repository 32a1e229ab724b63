"""C20: ScanNet-format directories and labels."""
import os
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
import dsets
from gradslam.datasets.scannet import Scannet, nyu40_to_scannet20, get_color_encoding

rule("C20", "A case writes a scratch ScanNet directory (1-4 sequence lists of different lengths over 1-3 scenes, own intrinsics) and a request (scenes, start/end, "
     "class set, size, layout, which outputs); every item is compared with the listed frames, images by content, labels with the published 20-class table. "
     "Non-trivial: at least one item is delivered (labels: at least two classes in the image).")

# the 20 ScanNet benchmark classes as NYU40 ids, in benchmark order
BENCH = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39]
TABLE = np.zeros(256, dtype=np.int64)
for _i, _c in enumerate(BENCH):
    TABLE[_c] = _i + 1

# the published NYU40 label colors
NYU40 = [("unlabeled", (0, 0, 0)), ("wall", (174, 199, 232)), ("floor", (152, 223, 138)), ("cabinet", (31, 119, 180)), ("bed", (255, 187, 120)), ("chair", (188, 189, 34)),
         ("sofa", (140, 86, 75)), ("table", (255, 152, 150)), ("door", (214, 39, 40)), ("window", (197, 176, 213)), ("bookshelf", (148, 103, 189)), ("picture", (196, 156, 148)),
         ("counter", (23, 190, 207)), ("blinds", (178, 76, 76)), ("desk", (247, 182, 210)), ("shelves", (66, 188, 102)), ("curtain", (219, 219, 141)), ("dresser", (140, 57, 197)),
         ("pillow", (202, 185, 52)), ("mirror", (51, 176, 203)), ("floormat", (200, 54, 131)), ("clothes", (92, 193, 61)), ("ceiling", (78, 71, 183)), ("books", (172, 114, 82)),
         ("refrigerator", (255, 127, 14)), ("television", (91, 163, 138)), ("paper", (153, 98, 156)), ("towel", (140, 153, 101)), ("showercurtain", (158, 218, 229)),
         ("box", (100, 125, 154)), ("whiteboard", (178, 127, 135)), ("person", (120, 185, 128)), ("nightstand", (146, 111, 194)), ("toilet", (44, 160, 44)), ("sink", (112, 128, 144)),
         ("lamp", (96, 207, 209)), ("bathtub", (227, 119, 194)), ("bag", (213, 92, 176)), ("otherstructure", (94, 106, 211)), ("otherfurniture", (82, 84, 163)),
         ("otherprop", (100, 85, 144))]


def build(d, case):
    """Scenes with frames, and sequence lists naming some of them."""
    base, meta = os.path.join(d, "scans"), os.path.join(d, "lists")
    hw, s = case["hw"], case["s"]
    scenes, K = {}, {}
    for k, n in enumerate(case["n"]):
        name = "scene%04d_%02d" % (k * 7, k % 2)
        root = os.path.join(base, name)
        fr = []
        for i in range(n):
            t = "%d/%d" % (k, i)
            f = dict(rgb=dsets.color_image(s, t, *hw), depth=dsets.depth_image(s, t, *hw), label=dsets.label_image(s, t, *hw), pose=pose(s, maxt=3.0, tag="p" + t))
            f["pose"] = np.array([[float("%.6f" % x) for x in r] for r in f["pose"]])
            dsets.png(os.path.join(root, "color", "%d.png" % i), f["rgb"])
            dsets.png(os.path.join(root, "depth", "%d.png" % i), f["depth"])
            dsets.png(os.path.join(root, "label-filt", "%d.png" % i), f["label"])
            dsets.write(os.path.join(root, "pose", "%d.txt" % i), "\n".join(" ".join("%.6f" % x for x in r) for r in f["pose"]) + "\n")
            fr.append(f)
        u = u01(s, 4, "K%d" % k)
        K[name] = np.array([[400 + round(300 * u[0], 3), 0, 200 + round(200 * u[1], 3), 0], [0, 400 + round(300 * u[2], 3), 150 + round(200 * u[3], 3), 0],
                            [0, 0, 1, 0], [0, 0, 0, 1]])
        for w in ("depth", "color"):
            M = K[name] if w == "depth" else K[name] * np.array([[1.7], [1.3], [1], [1]])
            dsets.write(os.path.join(root, "intrinsic", "intrinsic_%s.txt" % w), "\n".join(" ".join("%.6f" % x for x in r) for r in M) + "\n")
        scenes[name] = fr
    seqs = {}
    names = sorted(scenes)
    for j, L in enumerate(case["lists"]):
        name = names[int(u01(s, 1, "sc%d" % j)[0] * len(names))]
        n = len(scenes[name])
        a, step = int(u01(s, 1, "a%d" % j)[0] * n), 1 + int(u01(s, 1, "st%d" % j)[0] * 3)
        idx = [(a + i * step) % n for i in range(L)]
        if case["dir"]:
            idx = idx[::-1]
        lines = []
        for i in idx:
            r = lambda k, e: "%s/%s/%d.%s" % (name, k, i, e)
            lines.append(" ".join(["color", r("color", "png"), "depth", r("depth", "png"), "pose", r("pose", "txt"), "label-filt", r("label-filt", "png"),
                                   "label", r("label-filt", "png"), "instance", r("label-filt", "png"), "intrinsic_color", name + "/intrinsic/intrinsic_color.txt",
                                   "intrinsic_depth", name + "/intrinsic/intrinsic_depth.txt"]))
        q = "%s-seq_%d" % (name, j * 3)
        dsets.write(os.path.join(meta, q + ".txt"), "\n".join(lines) + ("\n" if case["nl"] else ""))
        seqs[q] = (name, idx)
    return base, meta, scenes, K, seqs


dirs = fixed(s=seeds, n=st.lists(st.integers(1, 8), min_size=1, max_size=3), lists=st.lists(st.integers(1, 9), min_size=1, max_size=4), hw=st.tuples(st.integers(2, 6), st.integers(2, 7)),
             nl=st.booleans(), dir=st.booleans())


@test("C20", fixed(c=dirs, o=dsets.options, labels=st.sampled_from([True, True, False]), seg=st.sampled_from(["scannet20", "nyu40", "ScanNet20", "NYU40"]),
                   start=st.sampled_from([0, 0, 0, 1, 2, 3]), end=st.sampled_from([-1, -1, -1, 1, 2, 3, 4, 6]), pick=st.integers(0, 3), again=seeds), quick=2200)
def items(case, ctx):
    c = case["c"]
    case, o, req = dsets.request(case, c["hw"], dict(start=0, end=-1))
    start, end = case["start"], case["end"]
    if end != -1 and end <= start:
        raise Reject("empty range")
    with dsets.scratch() as d:
        base, meta, scenes, K, seqs = build(d, c)
        names = sorted(scenes)
        chosen, arg = names, None
        if case["pick"]:
            chosen = names[:1] if case["pick"] == 1 else names[::-1] if case["pick"] == 2 else names[-2:]
            arg = tuple(chosen)
            if case["again"] % 2:
                arg = os.path.join(d, "split.txt")
                dsets.write(arg, "\n".join(chosen) + ("\n" if case["again"] % 7 < 3 else ""))
        want = {q: (nm, idx[start:] if end == -1 else idx[start:end]) for q, (nm, idx) in seqs.items() if nm in chosen}
        short = [q for q in want if len(seqs[q][1]) < (start + 1 if end == -1 else end)]
        parts = 1 + o["depth"] + o["K"] + o["pose"] + o["tr"] + o["names"] + case["labels"]

        def make():
            return Scannet(base, meta, arg, *req[0], **req[1])

        if short:
            ctx.event("range longer than a sequence")

            def run():
                ds = make()
                for i in range(len(ds)):
                    ds[i]
            raises(run, dsets.ERR, "range %s with sequences of %s frames" % ((start, end), [len(seqs[q][1]) for q in short]))
            return
        ds = make()
        check(len(ds) == len(want), "%d items for %d sequences", len(ds), len(want))
        ctx.nt(len(ds) > 0)
        ctx.event("different lengths" if len({len(v[1]) for v in want.values()}) > 1 else "one length")
        left = dict(want)
        order = list(range(len(ds))) if case["again"] % 3 else list(range(len(ds)))[::-1]
        for i in order:
            it = ds[i]
            check(isinstance(it, tuple) and len(it) == parts, "item %d has %d parts, expected %d", i, len(it), parts)
            errs = []
            for q, (nm, idx) in left.items():
                try:
                    check_item(q, [scenes[nm][k] for k in idx], K[nm], list(it), o, case, "item %d" % i)
                    errs = None
                    break
                except Violation as e:
                    errs.append("%s: %s" % (q, e))
            if errs is not None:
                fail("item %d is no remaining sequence: %s", i, " | ".join(errs))
            del left[q]
            dsets.overwrite(it)
        if len(ds) and case["again"] % 4 == 0:
            dsets.reread(ds, 0, case["again"] % 3 and -len(ds))
        raises(lambda: ds[len(ds)], (IndexError,), "item beyond the end")


def check_item(q, fr, K, it, o, case, what):
    color = it.pop(0)
    depth = it.pop(0) if o["depth"] else None
    check(color.shape[0] == len(fr), "%s: %d frames for %d", what, color.shape[0], len(fr))
    dsets.check_images(color, depth, [(f["rgb"], f["depth"]) for f in fr], o, 1000.0, what)
    if o["K"]:
        dsets.check_intrinsics(it.pop(0), K, o, what)
    P = it.pop(0) if o["pose"] else None
    Tr = it.pop(0) if o["tr"] else None
    if P is not None or Tr is not None:
        dsets.check_poses(P, Tr, [f["pose"] for f in fr], what)
    if o["names"]:
        nm = it.pop(0)
        check(nm == q, "%s: name %r", what, nm)
    if case["labels"]:
        lab = it.pop(0)
        check(tuple(lab.shape) == (len(fr), o["h"], o["w"], 1) and lab.dtype == torch.float32, "%s: labels %s %s", what, tuple(lab.shape), lab.dtype)
        for k, f in enumerate(fr):
            w = f["label"].astype(np.int64)
            w = TABLE[w] if case["seg"].lower() == "scannet20" else w
            dsets.check_nearest(npy(lab[k, ..., 0]).astype(np.float64), w.astype(np.float64), "%s: labels of frame %d" % (what, k))


@test("C20", fixed(s=seeds, shape=st.lists(st.integers(1, 9), min_size=1, max_size=3), dt=st.sampled_from(["uint8", "int64", "int32", "float32", "uint16"]), fortran=st.booleans()), quick=4000)
def remap(case, ctx):
    a = np.floor(arr(case["s"], tuple(case["shape"]), 0, 41)).astype(case["dt"])
    if case["fortran"]:
        a = np.asfortranarray(a)
    w = TABLE[a.astype(np.int64)]
    got = nyu40_to_scannet20(a.copy())
    ctx.nt(len(np.unique(w)) > 1)
    check(got.dtype == a.dtype, "dtype %s", got.dtype)
    same(got, w.astype(a.dtype), "remapped labels")


@test("C20", fixed(k=st.integers(0, 40), seg=st.sampled_from(["nyu40", "scannet20", "NYU40", "ScanNet20"])), quick=200)
def palettes(case, ctx):
    p, n, s = get_color_encoding(case["seg"]), get_color_encoding("nyu40"), get_color_encoding("scannet20")
    check(len(n) == 41 and len(s) == 21, "%d and %d classes", len(n), len(s))
    check(list(p.items()) == list((n if case["seg"].lower() == "nyu40" else s).items()), "palette depends on the spelling of the class set")
    check(len(set(p.values())) == len(p), "two classes share a color")
    k = case["k"]
    ctx.nt()
    nn, t = list(n)[k], int(TABLE[k])
    check(list(s)[t] == (nn if t else "unlabeled"), "class %d %s becomes %s", k, nn, list(s)[t])
    if t:
        check(s[nn] == n[nn], "class %s has two colors", nn)
    check(tuple(n[nn]) == NYU40[k][1] and nn == NYU40[k][0], "class %d is %s with color %s, published as %s", k, nn, n[nn], NYU40[k])
    check(all(len(v) == 3 and all(0 <= x <= 255 for x in v) for v in p.values()), "colors out of range")


@test("C20", fixed(s=seeds, kind=st.integers(0, 9)), quick=300)
def refusals(case, ctx):
    c = dict(s=case["s"], n=[3, 4], lists=[3, 2], hw=[3, 4], nl=True, dir=False)
    j, u = case["kind"], case["s"] % 2
    with dsets.scratch() as d:
        base, meta, scenes, K, seqs = build(d, c)
        check(len(Scannet(base, meta, None, height=3, width=4)) == 2, "a good directory does not give its items")
        kw = dict(scenes=None, height=3, width=4)
        f = os.path.join(meta, sorted(seqs)[u] + ".txt")
        if j == 0: kw["scenes"] = [[sorted(scenes)[0]], {sorted(scenes)[0]: 1}][u]
        elif j == 1: kw["scenes"] = os.path.join(d, "none.txt")
        elif j == 2: kw["start"] = -1 - u
        elif j == 3: kw.update(start=2, end=2 - u)
        elif j == 4: kw.update(start=1, end=-2 - u)
        else:
            w = ["color", "depth", "pose", "label-filt", "intrinsic_depth"][j - 5]
            L = open(f).read().split("\n")
            L[0] = L[0].replace(w + " ", "other ", 1)
            dsets.write(f, "\n".join(L))
        ctx.nt()
        raises(lambda: Scannet(base, meta, **kw), dsets.ERR, "request %d" % j)
