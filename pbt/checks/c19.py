"""C19: ICL-format directories."""
import os
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
import dsets
from gradslam.datasets.icl import ICL

rule("C19", "A case writes a scratch ICL directory (1-3 trajectories of up to 14 frames, trajectory 0 one pose short as in the published data, pose files with "
     "and without final blank line) and a request (window length, dilation, stride, start/end, size, layout, which outputs); every item is compared with "
     "direct window arithmetic, images by content, poses by frame index. Non-trivial: at least one item is delivered.")

ICL_K = [[481.20, 0, 319.5, 0], [0, -480.0, 239.5, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def build_traj(d, num, case, k):
    s = case["s"] + 7919 * k
    name = "living_room_traj%s_frei_png" % num
    root = os.path.join(d, name)
    n, hw = case["n"][k], case["hw"]
    frames, poses, lines = [], [], []
    off = 0 if case["one"] else 1
    for i in range(n):
        rgb, dep = dsets.color_image(s, "%d" % i, *hw), dsets.depth_image(s, "%d" % i, *hw)
        dsets.png(os.path.join(root, "rgb", "%d.png" % (i + off)), rgb)
        dsets.png(os.path.join(root, "depth", "%d.png" % (i + off)), dep)
        frames.append((rgb, dep))
        a, b = [(i + off, i + off), (i, i), (i + 1, i + 2), ("%.6f" % (i / 30), "%.6f" % (i / 30 + 0.001))][case.get("cols", 0)]
        lines.append("%s depth/%d.png %s rgb/%d.png" % (a, i + off, b, i + off))
    dsets.write(os.path.join(root, "associations.txt"), "\n".join(lines) + ("\n" if case["nl"] else ""))
    npose = n - 1 if num == "0" else n + case["more"]
    text = []
    for i in range(npose):
        M = pose(s, maxt=3.0, tag="p%d" % i)
        M = np.array([[float("%.6f" % x) for x in r] for r in M])
        poses.append(M)
        text += [" ".join("%.6f" % x for x in r) + " " * (i % 2) for r in M[:3]]
        text.append("")
    dsets.write(os.path.join(root, "livingRoom%sn.gt.sim" % num), "\n".join(text[:-1] if not case["blank"] else text) + "\n")
    if num == "0":
        frames = frames[:-1]
    return dict(name=name, frames=frames, poses=poses, off=off)


trajs = fixed(s=seeds, n=st.lists(st.integers(2, 14), min_size=1, max_size=3), hw=st.tuples(st.integers(2, 6), st.integers(2, 7)), nl=st.booleans(), blank=st.booleans(),
              one=st.booleans(), cols=st.integers(0, 3), more=st.integers(0, 2), nums=st.lists(st.sampled_from(["0", "1", "2", "3", "10"]), min_size=3, max_size=3, unique=True))


@test("C19", fixed(c=trajs, o=dsets.options, seqlen=st.integers(1, 5), dil=st.one_of(st.none(), st.integers(0, 2)),
                   stride=st.one_of(st.none(), st.integers(1, 4)), start=st.one_of(st.none(), st.integers(0, 5)),
                   end=st.one_of(st.none(), st.integers(1, 15)), pick=st.integers(0, 3), again=seeds), quick=2200)
def items(case, ctx):
    c = case["c"]
    case, o, req = dsets.request(case, c["hw"])
    start, end = case["start"], case["end"]
    if end is not None and end <= (start or 0):
        raise Reject("empty range")
    with dsets.scratch() as d:
        base = os.path.join(d, ["icl", "living_room_trajectories", "a b"][case["again"] % 3]) + ("/" if case["again"] % 5 == 0 else "")
        nums = c["nums"][:len(c["n"])]
        models = [build_traj(base, num, c, k) for k, num in enumerate(nums)]
        os.makedirs(os.path.join(base, ["other_directory", "office_traj1_frei_png", "living_room_traj9_loop"][case["again"] % 3]))
        for f in ("README.txt", "living_room_traj9_frei_png", names_of(c)[0] + ".tgz")[:case["again"] % 4]:      # files lying about
            dsets.write(os.path.join(base, f), "x\n")
        names = [m["name"] for m in models]
        chosen, tr = list(names), None
        if case["pick"]:
            chosen = names[:1] if case["pick"] == 1 else names[::-1] if case["pick"] == 2 else names[-2:]
            tr = tuple(chosen)
            if case["again"] % 2:
                tr = os.path.join(d, "split.txt")
                dsets.write(tr, "\n".join(chosen) + ("\n" if case["again"] % 7 < 3 else ""))
        poses = o["pose"] or o["tr"]
        if not poses and case["again"] % 2:
            for m, num in zip(models, nums):
                os.remove(os.path.join(base, m["name"], "livingRoom%sn.gt.sim" % num))
        ds = ICL(base, tr, *req[0], **req[1]) if req[0] or tr else ICL(base, **req[1])
        n = len(ds)
        wins = {}
        for m in models:
            if m["name"] in chosen:
                idx = list(range(len(m["frames"])))[start or 0:end]
                wins[m["name"]] = [[idx[j] for j in w] for w in dsets.windows(len(idx), case["seqlen"], case["dil"], case["stride"])]
        check(n == sum(map(len, wins.values())), "%d items, expected %s", n, {k: len(v) for k, v in wins.items()})
        ctx.nt(n > 0)
        pos = {nm: 0 for nm in wins}
        for i in range(n):
            it = ds[i]
            want = 1 + o["depth"] + o["K"] + o["pose"] + o["tr"] + o["names"]
            check(isinstance(it, tuple) and len(it) == want, "item %d has %d parts, expected %d", i, len(it), want)
            errs = []
            for m in models:
                nm = m["name"]
                if nm not in wins or pos[nm] >= len(wins[nm]):
                    continue
                try:
                    check_item(m, wins[nm][pos[nm]], list(it), o, "item %d" % i)
                    pos[nm] += 1
                    errs = None
                    break
                except Violation as e:
                    errs.append(str(e))
            if errs is not None:
                fail("item %d is no trajectory's next window: %s", i, " | ".join(dict.fromkeys(errs)))
            dsets.overwrite(it)
        if n and case["again"] % 4 == 0:
            j = case["again"] % n
            for k in (j, j - n):
                dsets.reread(ds, j, k)
        raises(lambda: ds[n], (IndexError,), "item beyond the end")


def names_of(c):
    return ["living_room_traj%s_frei_png" % n for n in c["nums"]]


def check_item(m, w, it, o, what):
    color = it.pop(0)
    depth = it.pop(0) if o["depth"] else None
    check(color.shape[0] == len(w), "%s: %d frames", what, color.shape[0])
    dsets.check_images(color, depth, [m["frames"][i] for i in w], o, 5000.0, what)
    if o["K"]:
        dsets.check_intrinsics(it.pop(0), ICL_K, o, what)
    P = it.pop(0) if o["pose"] else None
    Tr = it.pop(0) if o["tr"] else None
    if P is not None or Tr is not None:
        dsets.check_poses(P, Tr, [m["poses"][i] for i in w], what)
    if o["names"]:
        parts = it.pop(0).split(", ")
        check(len(parts) == len(w), "%s: %d names for %d frames", what, len(parts), len(w))
        for k, p in enumerate(parts):
            check(p.split("/")[0] == m["name"] and p.split("/")[-1] == "%d" % (w[k] + m["off"]), "%s: name %r of frame %d", what, p, k)


@test("C19", fixed(s=seeds, kind=st.integers(0, 23)), quick=500)
def refusals(case, ctx):
    c = dict(s=case["s"], n=[4, 3], hw=[3, 4], nl=True, blank=case["s"] % 4 < 2, one=False, more=0)
    nums = ["1", "2"]
    u = case["s"] % 2
    j = case["kind"]
    with dsets.scratch() as d:
        b = os.path.join(d, "icl")
        names = [build_traj(b, num, c, k)["name"] for k, num in enumerate(nums)]
        check(len(ICL(b, seqlen=1, height=3, width=4)) == 7, "a good directory does not give its items")
        gt = [os.path.join(b, names[k], "livingRoom%sn.gt.sim" % nums[k]) for k in range(2)]
        kw = dict(seqlen=2, height=3, width=4)
        if j <= 9:      # the one wrong argument among valid values of the others
            kw.update(dsets.valid_window(case["s"] >> 1))
        if j == 0: kw["seqlen"] = [2.0, "2"][u]
        elif j == 1: kw["stride"] = [1.5, "1"][u]
        elif j == 2: kw["dilation"] = [0.5, "0"][u]
        elif j == 3: kw["start"] = [0.5, "0"][u]
        elif j == 4: kw["end"] = [3.0, "3"][u]
        elif j == 5: kw["seqlen"] = -1 - u
        elif j == 6: kw["dilation"] = -1 - u
        elif j == 7: kw["stride"] = -1 - u
        elif j == 8: kw["start"] = -1 - u
        elif j == 9: kw.update(start=2, end=2 - u)
        elif j == 10: kw["trajectories"] = [[names[0]], {names[0]: 1}][u]
        elif j == 11: kw["trajectories"] = ()
        elif j == 12: kw["trajectories"] = (names[0], "living_room_traj3_frei_png")
        elif j == 13: kw["trajectories"] = os.path.join(d, "nolist.txt")
        elif j == 14: kw["trajectories"] = (names[0], ["living_room_traj1", "office_traj1_frei_png"][u])
        elif j == 15: os.remove(os.path.join(b, names[u], "associations.txt"))
        elif j == 16: os.remove(gt[u])
        elif j in (17, 18):   # more frames than poses: refused at the latest when the frame without a pose is asked for
            L = open(gt[u]).read().rstrip("\n").split("\n")
            cut = L[:-4] if j == 17 else L[:-1]
            dsets.write(gt[u], "\n".join(cut) + "\n" * (1 + case["s"] % 3))
        elif j == 19:
            L = open(gt[u]).read().split("\n")
            L[4] = "1 0 0"
            dsets.write(gt[u], "\n".join(L))
        elif j == 20:
            b = os.path.join(d, "empty")
            os.makedirs(os.path.join(b, "rgb"))
        elif j == 21: kw["trajectories"] = ("living_room_traj3_frei_png", "living_room_traj0_frei_png")[:1 + u]
        elif j == 22:
            kw["trajectories"] = os.path.join(d, "list.txt")
            dsets.write(kw["trajectories"], ["\n", "living_room_traj3_frei_png\n"][u])
        elif j == 23:      # images kept elsewhere than the format says
            f = os.path.join(b, names[u], "associations.txt")
            w = case["s"] % 4
            L = open(f).read()
            L = L.replace("rgb/", "img/") if w == 0 else L.replace("depth/", "dep/") if w == 1 else L.replace("depth/", "img/") if w == 2 else L.replace("depth/", "\0").replace("rgb/", "depth/").replace("\0", "rgb/")
            dsets.write(f, L)
        ctx.nt()

        def run():
            ds = ICL(b, **kw)
            for i in range(len(ds)):
                it = ds[i]
                check(len({len(x) for x in (it[0], it[1], it[3], it[4])}) == 1, "item %d: %s", i, [len(x) for x in it])

        if j in (17, 18):
            kw["seqlen"] = 1 + case["s"] % 3
            kw["stride"] = 1
        raises(run, dsets.ERR, "request %d" % j)
