"""C18: TUM-format directories."""
import contextlib
import io
import os
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
import dsets
from gradslam.datasets.tum import TUM
from gradslam.datasets import tumutils

rule("C18", "A case writes a scratch TUM directory (1-3 sequences, up to 14 rgb/depth/pose entries each with jittered, missing, crossing or dense "
     "timestamps, comments, mixed separators, NaN and zero-quaternion rows) and a request (window length, dilation, stride, start/end, size, layout, "
     "which outputs); every item is compared with an integer-microsecond reference association and direct window arithmetic, images by content. "
     "Non-trivial: at least one item is delivered.")

MAXD = 20000  # microseconds
TUM_K = [[525.0, 0, 319.5, 0], [0, 525.0, 239.5, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def stamps(s, n, mode, base, digits, tag):
    """n distinct integer microsecond stamps in increasing order, multiples of 10**(6-digits)."""
    q = 10 ** (6 - digits)
    u = u01(s, 2 * max(n, 1), "t" + tag)
    if mode == "video":
        t = [base + i * 33333 + int((u[i] - 0.5) * 24000) for i in range(n)]
    elif mode == "aligned":
        t = [base + i * 40000 + int((u[i] - 0.5) * 4000) for i in range(n)]
    elif mode == "dense":
        t = [base + int(u[i] * 9000 * (n + 1)) for i in range(n)]
    else:  # sparse
        t = [base + i * 100000 + int((u[i] - 0.5) * 60000) for i in range(n)]
    t = sorted({v // q * q for v in t})
    return t


def text(t, digits):
    return "%d.%0*d" % (t // 10 ** 6, digits, (t % 10 ** 6) // 10 ** (6 - digits))


def greedy(A, B):
    """Closest-first one-to-one association of integer stamps; None when ties or the radius itself make it ambiguous."""
    c = sorted((abs(a - b), a, b) for a in A for b in B if abs(a - b) <= MAXD)
    if any(d == MAXD for d, _, _ in c):
        return None
    for (d, a, b), (e, a2, b2) in zip(c, c[1:]):
        if d == e:
            return None
    ua, ub, out = set(), set(), []
    for d, a, b in c:
        if a not in ua and b not in ub:
            ua.add(a), ub.add(b)
            out.append((a, b))
    return sorted(out)


def ambiguous(A, B):
    return greedy(A, B) is None


def build_seq(d, name, case, k):
    """Write one sequence; returns its model: stamps, frames, poses."""
    s, digits = case["s"] + 7919 * k, case["digits"]
    same = case.get("same")     # every sequence has the first one's time stamps (and so file names), but its own images and poses
    st_, kt = (case["s"], 0) if same else (s, k)
    base = {"epoch": 1305031102 * 10 ** 6, "roll": 9 * 10 ** 6 + 800000, "zero": 30000, "wrap": 999 * 10 ** 6 + 850000}[case["base"]]
    base += (st_ % 1000) * 1000
    n = case["n"][kt]
    rgb_t = stamps(st_, n, case["mode"], base, digits, "rgb%d" % kt)
    dep_t = stamps(st_, n + case["extra"], case["mode"], base + case["shift"], digits, "dep%d" % kt)
    dep_t = [t for i, t in enumerate(dep_t) if u01(s, 1, "drop%d/%d" % (k, i))[0] > case["drop"]]
    npose = {"match": n + case["extra"], "fast": 4 * (n + 2), "few": max(n // 2, 1)}[case["posemode"]]
    if case["posemode"] == "fast":
        q = 10 ** (6 - digits)
        pose_t = sorted({(base - 20000 + i * 10000 + int(3000 * u)) // q * q for i, u in enumerate(u01(st_, npose, "pt%d" % kt))})
    else:
        pose_t = stamps(st_, npose, case["mode"], base + case["shift"] // 2, digits, "pose%d" % kt)
    pose_t = [t for t in pose_t if t > 0]
    sep = [" ", "\t", ",", "  ", ", "][case["sep"]]
    hw = case["hw"]
    root = os.path.join(d, name)
    m = dict(rgb={}, depth={}, pose={}, rgb_t=rgb_t, dep_t=dep_t, name=name)
    lines = ["# color images", "# timestamp filename"]
    for i, t in enumerate(rgb_t):
        m["rgb"][t] = dsets.color_image(s, "%d" % i, *hw)
        f = "rgb/%s.png" % text(t, digits)
        dsets.png(os.path.join(root, f), m["rgb"][t])
        lines.append(text(t, digits) + sep + f)
        if case["junk"] and u01(s, 1, "junk%d" % i)[0] < 0.2:
            lines.append(["", "# note %d" % i, "#", "  "][i % 4])
    nl = "\n" if case["nl"] else ""
    dsets.write(os.path.join(root, "rgb.txt"), "\n".join(lines) + nl)
    lines = ["# depth maps"]
    order = list(dep_t) if case["shuffle"] == 0 else sorted(dep_t, key=lambda t: u01(t + s, 1, "o")[0])
    for i, t in enumerate(order):
        m["depth"][t] = dsets.depth_image(s, "%d" % t, *hw)
        f = "depth/%s.png" % text(t, digits)
        dsets.png(os.path.join(root, f), m["depth"][t])
        lines.append(text(t, digits) + sep + f)
        if case["junk"] and u01(s, 1, "junkd%d" % i)[0] < 0.2:
            lines.append(["# note %d" % i, "", "#x", "\t"][i % 4])
    dsets.write(os.path.join(root, "depth.txt"), "\n".join(lines) + nl)
    lines = ["# ground truth trajectory", "# timestamp tx ty tz qx qy qz qw"]
    for i, t in enumerate(pose_t):
        v = arr(s, (7,), -1, 1, "pq%d/%d" % (k, i))
        v[:3] *= 3
        v[3:] *= 1 if case["unit"] == 0 or np.linalg.norm(v[3:]) == 0 else 1 / np.linalg.norm(v[3:])
        if np.linalg.norm(v[3:]) < 0.1:
            v[6] = 1.0
        v = np.round(v, 4)
        bad = u01(s, 1, "bad%d" % i)[0]
        if case["junk"] and bad < 0.1:
            w = ["%.4f" % x for x in v[:3]] + ["0.0000"] * 4
        elif case["junk"] == 2 and bad < 0.2:
            w = ["%.4f" % x for x in v[:6]] + ["nan"]
        else:
            w = ["%.4f" % x for x in v]
            M = np.eye(4)
            M[:3, :3], M[:3, 3] = dsets.quat_rot(v[3:]), v[:3]
            m["pose"][t] = (M, v)
        lines.append(sep.join([text(t, digits)] + w))
    dsets.write(os.path.join(root, "groundtruth.txt"), "\n".join(lines) + nl)
    return m


seqcase = fixed(
    s=seeds, n=st.lists(st.integers(1, 14), min_size=1, max_size=3), digits=st.sampled_from([6, 4, 6]),
    mode=st.sampled_from(["aligned", "video", "dense", "sparse"]), base=st.sampled_from(["epoch", "roll", "zero", "wrap"]),
    shift=st.integers(-12000, 12000), extra=st.integers(0, 2), drop=st.sampled_from([0.0, 0.0, 0.2]),
    posemode=st.sampled_from(["fast", "match", "few"]), sep=st.integers(0, 4), hw=st.tuples(st.integers(2, 6), st.integers(2, 7)),
    junk=st.integers(0, 2), nl=st.booleans(), shuffle=st.integers(0, 2), unit=st.integers(0, 1),
    names=st.lists(st.sampled_from(["xyz", "rpy", "desk_2", "long_office_household", "b", "a"]), min_size=3, max_size=3, unique=True),
    fr=st.integers(1, 3), same=st.booleans())


def expected(m, lo, hi, poses):
    """The associated frames of a sequence in order: list of (rgb t, depth t, pose t), and the alternative order."""
    rt = m["rgb_t"][lo:hi]
    ab = greedy(rt, m["dep_t"])
    if ab is None:
        return None
    if not poses:
        tr = [(a, b, None) for a, b in ab]
    else:
        bp = greedy([b for _, b in ab], list(m["pose"]))
        if bp is None:
            return None
        ra = {b: a for a, b in ab}
        tr = [(ra[b], b, p) for b, p in bp]
    return sorted(tr), sorted(tr, key=lambda t: t[1])


def parse_us(s):
    a, _, b = s.partition(".")
    return int(a) * 10 ** 6 + int((b + "000000")[:6])


@test("C18", fixed(c=seqcase, o=dsets.options, stampsout=st.sampled_from([True, True, False]), seqlen=st.integers(1, 5), dil=st.one_of(st.none(), st.integers(0, 2)),
                   stride=st.one_of(st.none(), st.integers(1, 4)), start=st.one_of(st.none(), st.integers(0, 4)),
                   end=st.one_of(st.none(), st.integers(1, 14)), pick=st.integers(0, 3), again=seeds), quick=2000)
def items(case, ctx):
    c = case["c"]
    case, o, req = dsets.request(case, c["hw"])
    start, end = case["start"], case["end"]
    if end is not None and end <= (start or 0):
        raise Reject("empty range")
    with dsets.scratch() as d:
        base = os.path.join(d, "tum") + ("/" if case["again"] % 3 == 0 else "")
        names = ["rgbd_dataset_freiburg%d_%s" % (c["fr"], c["names"][k]) for k in range(len(c["n"]))]
        models = {nm: build_seq(base, nm, c, k) for k, nm in enumerate(names)}
        chosen = list(names)
        sequences = None
        if case["pick"]:
            chosen = names[:1] if case["pick"] == 1 else names[::-1] if case["pick"] == 2 else names[-2:]
            sequences = tuple(chosen)
            if case["again"] % 2:
                sequences = os.path.join(d, "split.txt")
                dsets.write(sequences, "\n".join(chosen) + ("\n" if case["again"] % 5 == 0 else ""))
        poses = o["pose"] or o["tr"]
        if not poses and case["again"] % 2:
            for nm in names:
                os.remove(os.path.join(base, nm, "groundtruth.txt"))
        if case["again"] % 7 < 3:      # files lying about
            for f in ("README.txt", names[0] + ".tgz", "rgbd_dataset_freiburg1_none")[:1 + case["again"] % 3]:
                dsets.write(os.path.join(base, f), "x\n")
            dsets.write(os.path.join(base, names[0], "accelerometer.txt"), "1 2 3 4\n")
        with contextlib.redirect_stderr(io.StringIO()):
            ds = TUM(base, sequences, *req[0], **req[1]) if req[0] or sequences else TUM(base, **req[1])
        n = len(ds)
        exp, sure = {}, True
        for nm in chosen:
            e = expected(models[nm], start or 0, end, poses)
            exp[nm] = e
            sure &= e is not None
        total = sum(len(dsets.windows(len(e[0]), case["seqlen"], case["dil"], case["stride"])) for e in exp.values() if e)
        if sure:
            check(n == total, "%d items, expected %d", n, total)
        ctx.event("ambiguous association" if not sure else "unambiguous")
        ctx.nt(n > 0)
        todo = {nm: None for nm in chosen}      # next window of each sequence
        seen = {nm: [] for nm in chosen}
        for i in range(n):
            it = ds[i]
            want = 1 + o["depth"] + o["K"] + o["pose"] + o["tr"] + o["names"] + case["stampsout"]
            check(isinstance(it, tuple) and len(it) == want, "item %d has %d parts, expected %d", i, len(it), want)
            full = it
            it = list(it)
            color = it.pop(0)
            depth = it.pop(0) if o["depth"] else None
            if o["K"]:
                dsets.check_intrinsics(it.pop(0), TUM_K, o, "item %d" % i)
            P = it.pop(0) if o["pose"] else None
            Tr = it.pop(0) if o["tr"] else None
            nm_out = it.pop(0) if o["names"] else None
            ts_out = it.pop(0) if case["stampsout"] else None
            check(color.shape[0] == case["seqlen"], "item %d: %d frames", i, color.shape[0])
            # identify: by the sequence's next expected window, tried for every chosen sequence and order
            errs = []
            for nm in chosen:
                if exp[nm] is None:
                    continue
                for alt in (0, 1):
                    wins = dsets.windows(len(exp[nm][alt]), case["seqlen"], case["dil"], case["stride"])
                    pos = len(seen[nm])
                    if pos >= len(wins):
                        continue
                    rows = [exp[nm][alt][j] for j in wins[pos]]
                    try:
                        check_item(models[nm], rows, color, depth, P, Tr, nm_out, ts_out, o, c, "item %d" % i)
                        seen[nm].append(rows)
                        errs = None
                        break
                    except Violation as e:
                        errs.append(str(e))
                if errs is None:
                    break
            if errs is not None and sure:
                fail("item %d is no sequence's next window: %s", i, " | ".join(dict.fromkeys(errs)))
            dsets.overwrite(full)
        if n and case["again"] % 4 == 0:
            j = case["again"] % n
            dsets.reread(ds, j, j)
            dsets.reread(ds, j - n, j)
        raises(lambda: ds[n], (IndexError,), "item beyond the end")


def check_item(m, rows, color, depth, P, Tr, nm_out, ts_out, o, c, what):
    dsets.check_images(color, depth, [(m["rgb"][a], m["depth"][b]) for a, b, _ in rows], o, 5000.0, what)
    if P is not None or Tr is not None:
        dsets.check_poses(P, Tr, [m["pose"][p][0] for _, _, p in rows], what)
    if nm_out is not None:
        parts = nm_out.split(", ")
        check(len(parts) == len(rows), "%s: %d names for %d frames", what, len(parts), len(rows))
        for k, p in enumerate(parts):
            check(p.split("/")[0] == m["name"] and p.split("/")[-1] == text(rows[k][0], c["digits"]), "%s: name %r of frame %d", what, p, k)
    if ts_out is not None:
        L = ts_out.split("\n")
        check(len(L) == len(rows), "%s: %d timestamp lines", what, len(L))
        for k, l in enumerate(L):
            w = l.split()
            check(len(w) == 6 and w[0::2] == ["rgb", "depth", "pose"], "%s: timestamp line %r", what, l)
            got = tuple(None if v == "None" else parse_us(v) for v in w[1::2])
            check(got == rows[k], "%s: timestamps %s of frame %d, expected %s", what, got, k, rows[k])


# ---------------------------------------------------------------- association on its own (also ambiguous inputs)
@test("C18", fixed(s=seeds, n=st.integers(0, 9), m=st.integers(0, 9), span=st.sampled_from([20000, 60000, 200000, 400000]), q=st.sampled_from([1, 1000, 10000]),
                   base=st.sampled_from([0, 9900000, 1305031102000000]), off=st.sampled_from([0, 0, 5000, -30000]), r=st.sampled_from([20000, 20000, 5000, 50000]),
                   big=st.booleans()), quick=4000)
def association(case, ctx):
    s, q = case["s"], case["q"]

    def times(k, tag):
        return sorted({case["base"] + int(u * case["span"]) // q * q for u in u01(s, k, tag)}, key=lambda t: u01(s + t, 1, tag)[0])

    A, B = times(case["n"], "a"), times(case["m"], "b")
    fa = {text(t, 6): ["a"] for t in A}
    fb = {text(t, 6): ["b"] for t in B}
    ka, kb = dict(fa), dict(fb)
    got = tumutils.associate(fa, fb, case["off"] / 1e6, case["r"] / 1e6)
    check(fa == ka and fb == kb, "associate changed its inputs")
    got = [(parse_us(a), parse_us(b)) for a, b in got]
    cand = {(a, b): abs(a - (b + case["off"])) for a in A for b in B}
    eps = 2  # microseconds: float resolution of the stamps
    ctx.nt(len(got) > 1)
    check(len({a for a, _ in got}) == len(got) and len({b for _, b in got}) == len(got), "a stamp is used twice: %s", got)
    for a, b in got:
        check((a, b) in cand, "unknown stamps %s", (a, b))
        check(cand[a, b] < case["r"] + eps, "pair %s differs by %d us, allowed %d", (a, b), cand[a, b], case["r"])
    check([a for a, _ in got] == sorted(a for a, _ in got), "matches are not in time order: %s", got)
    da, db = {a: cand[a, b] for a, b in got}, {b: cand[a, b] for a, b in got}
    for (a, b), d in cand.items():
        if d < case["r"] - eps:
            # closest-first: a pair may only lose to a pair at least as close on one of its stamps
            check(min(da.get(a, 10 ** 18), db.get(b, 10 ** 18)) <= d + eps, "stamps %s (%d us apart) prefer each other to their partners", (a, b), d)


# ---------------------------------------------------------------- list and trajectory files
@test("C18", fixed(s=seeds, n=st.integers(0, 12), lo=st.one_of(st.none(), st.integers(0, 6)), hi=st.one_of(st.none(), st.integers(0, 15)), sep=st.integers(0, 4),
                   nl=st.booleans(), cols=st.integers(1, 3), junk=st.booleans()), quick=2500)
def listfiles(case, ctx):
    s = case["s"]
    sep = [" ", "\t", ",", "   ", ", "][case["sep"]]
    rows, lines = [], []
    for i in range(case["n"]):
        if case["junk"] and u01(s, 1, "j%d" % i)[0] < 0.4:
            lines.append(["# c", "", "#", " "][i % 4])
        t = text(10 ** 6 * i + int(u01(s, 1, "t%d" % i)[0] * 900000), 6)
        row = [t] + ["f%d_%d.png" % (i, j) for j in range(case["cols"])]
        rows.append(row)
        lines.append(sep.join(row))
    with dsets.scratch() as d:
        f = os.path.join(d, "x.txt")
        dsets.write(f, "\n".join(lines) + ("\n" if case["nl"] else ""))
        got = tumutils.read_file_list(f, case["lo"], case["hi"])
    want = rows[case["lo"] or 0:case["hi"]]
    ctx.nt(0 < len(want) < len(rows))
    check(list(got.items()) == [(r[0], r[1:]) for r in want], "read %s, expected %s", got, want)


@test("C18", fixed(s=seeds, n=st.integers(0, 10), sep=st.integers(0, 4), nl=st.booleans(), matrix=st.booleans(), kinds=st.lists(st.integers(0, 9), max_size=10)), quick=2500)
def trajectories(case, ctx):
    s = case["s"]
    sep = [" ", "\t", ",", "   ", ", "][case["sep"]]
    want, lines = {}, ["# timestamp tx ty tz qx qy qz qw"]
    for i in range(case["n"]):
        kind = case["kinds"][i] if i < len(case["kinds"]) else 9
        t = text(10 ** 6 * i + int(u01(s, 1, "t%d" % i)[0] * 900000), 4)
        v = np.round(arr(s, (7,), -2, 2, "v%d" % i), 4)
        q = np.linalg.norm(v[3:])
        v[6] += 1.0 if q < 0.05 else 0
        if kind == 0:
            w = list(v[:3]) + [0.0] * 4
        elif kind == 1:
            w = list(v[:6]) + [float("nan")]
        elif kind == 2:
            w = [float("nan")] + list(v[1:])
        elif kind == 3:
            w = v = np.concatenate([v[:3], [1e-9, 0, -1e-9, 0]])
        else:
            w = v
        if kind not in (0, 1, 2):
            want[t] = v
        lines.append(sep.join([t] + [("%.10f" % x) for x in w]))
        if kind in (4, 5):
            lines.append(["", "  "][kind - 4])
    with dsets.scratch() as d:
        f = os.path.join(d, "g.txt")
        dsets.write(f, "\n".join(lines) + ("\n" if case["nl"] else ""))
        with contextlib.redirect_stderr(io.StringIO()):
            got = tumutils.read_trajectory(f, matrix=case["matrix"])
    ctx.nt(0 < len(want) < case["n"])
    check(list(got) == list(want), "stamps %s, expected %s", list(got), list(want))
    for t, v in want.items():
        if case["matrix"]:
            M = np.eye(4)
            M[:3, :3] = dsets.quat_rot(v[3:]) if np.linalg.norm(v[3:]) > 1e-6 else np.eye(3)
            M[:3, 3] = v[:3]
            close(np.asarray(got[t]), M, "matrix at %s" % t, rtol=1e-8, atol=1e-8)
        else:
            close(np.asarray(got[t], dtype=np.float64), v, "pose at %s" % t, rtol=0, atol=1e-9)


# ---------------------------------------------------------------- requests that must be refused
@test("C18", fixed(s=seeds, kind=st.integers(0, 22)), quick=500)
def refusals(case, ctx):
    c = dict(s=case["s"], n=[4, 3], digits=6, mode="aligned", base="epoch", shift=0, extra=0, drop=0.0, posemode="fast", sep=0, hw=[3, 4], junk=0, nl=True,
             shuffle=0, unit=0, names=["xyz", "rpy", "b"], fr=1)
    names = ["rgbd_dataset_freiburg1_xyz", "rgbd_dataset_freiburg1_rpy"]
    with dsets.scratch() as d:
        for k, nm in enumerate(names):
            build_seq(d, nm, c, k)
        check(len(TUM(d, seqlen=1, height=3, width=4)) > 0, "a good directory gives no items")
        j = case["kind"]
        kw = dict(seqlen=2, height=3, width=4)
        u = case["s"] % 2
        if j <= 9:      # the one wrong argument among valid values of the others
            kw.update(dsets.valid_window(case["s"] >> 1))
        if j == 0: kw["seqlen"] = [2.0, "2"][u]
        elif j == 1: kw["stride"] = [1.5, "1"][u]
        elif j == 2: kw["dilation"] = [0.5, "0"][u]
        elif j == 3: kw["start"] = [0.5, "0"][u]
        elif j == 4: kw["end"] = [3.0, "3"][u]
        elif j == 5: kw["seqlen"] = -1 - u
        elif j == 6: kw["dilation"] = -1 - u
        elif j == 7: kw["stride"] = -1 - u
        elif j == 8: kw["start"] = -1 - u
        elif j == 9: kw.update(start=2, end=2 - u)
        elif j == 10: kw["sequences"] = [[names[0]], {names[0]: 1}][u]
        elif j == 11: kw["sequences"] = ()
        elif j == 12: kw["sequences"] = (names[0], "rgbd_dataset_freiburg1_none")
        elif j == 13: kw["sequences"] = os.path.join(d, "nolist.txt")
        elif j == 14: os.remove(os.path.join(d, names[u], "rgb.txt"))
        elif j == 15: os.remove(os.path.join(d, names[u], "depth.txt"))
        elif j == 16: os.remove(os.path.join(d, names[u], "groundtruth.txt"))
        elif j == 17: os.mkdir(os.path.join(d, ["stray_one_two_three", "rgbd_dataset_kinect_1"][u]))
        elif j == 18: os.mkdir(os.path.join(d, ["stray", "rgbd", "rgbd_dataset", "rgbd_dataset_freiburg1", "rgbd_dataset_", ".git"][case["s"] % 6]))
        elif j == 19: kw["sequences"] = ("rgbd_dataset_freiburg1_none", "rgbd_dataset_freiburg2_none")[:1 + u]
        elif j == 20:
            kw["sequences"] = os.path.join(d, "list.txt")
            dsets.write(kw["sequences"], ["\n", "rgbd_dataset_freiburg1_none\n"][u])
        elif j in (21, 22):      # images kept elsewhere than the format says
            f = os.path.join(d, names[u], ["rgb.txt", "depth.txt"][j - 21])
            w = ["rgb", "depth"][j - 21]
            L = open(f).read().replace(" %s/" % w, " %s/" % ["img", "depth", "rgb"][case["s"] % 3 if j == 22 or case["s"] % 3 < 2 else 0])
            if " %s/" % w in L:
                raise Reject()
            dsets.write(f, L)
        ctx.nt()
        raises(lambda: TUM(d, **kw), dsets.ERR if j not in (17, 18) else ValueError, "request %d" % j)
