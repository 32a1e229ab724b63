"""C29: everything works, and works the same, on whatever device its arguments are."""
import importlib
import numpy as np
import torch
from hypothesis import strategies as st
import core
from core import *
from core import T
import devs, pcs, rgbds, rooms
from checks import c03, c05, c25, c28
from checks.c25 import look, compare
from gradslam import Pointclouds, RGBDImages
from gradslam.slam import ICPSLAM, PointFusion

rule("C29", "A case is one of: an operation with valid arguments, carried out once on the processor and once with all its arguments on a (stand-in) graphics card; a case of any of the properties C01-C17, "
     "C21 or C26 whose tensors are all on such a card; a batch of clouds or frames moved from device to device with views read and contents changed between; objects of two devices given to one operation. "
     "Results must be on the device of the arguments and their numbers those of the processor (or of the property's own oracle). Non-trivial: the case would be non-trivial for the property it is taken from; for moves: "
     "at least one changed the device; else always.")

CARDS = ["cuda", "cuda:0", "cuda:1", "cuda:1"]
seeds = c28.seeds


def walk(x, what):
    """Every tensor in a result is where the arguments were."""
    if torch.is_tensor(x):
        at_home(x, what)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            walk(v, "%s[%d]" % (what, i))
    elif isinstance(x, dict):
        for k, v in x.items():
            walk(v, "%s[%r]" % (what, k))
    elif isinstance(x, Pointclouds):
        at_home(x, what)
        for a in ("points",) + pcs.ATTRS:
            for r in ("list", "padded"):
                walk(getattr(x, "%s_%s" % (a, r)), "%s.%s_%s" % (what, a, r))
        walk(x.num_points_per_pointcloud, what + ".num_points_per_pointcloud")
        if x.has_points:
            walk(x.nonpad_mask, what + ".nonpad_mask")
    elif isinstance(x, RGBDImages):
        at_home(x, what)
        for k in rgbds.VIEWS:
            if k != "shape":
                walk(getattr(x, k), "%s.%s" % (what, k))


# create_meshgrid takes no tensor; a SLAM object says which device it was made for; the rest take or give arrays
ELSEWHERE = ("meshgrid", "slam_ctor")
NAMES = [k for k in c28.NAMES if k not in ELSEWHERE]
base = dict(B=st.integers(1, 3), s=seeds, n=st.integers(1, 4))


@test("C29", fixed(e=st.sampled_from(NAMES), dev=st.sampled_from(CARDS), warm=st.booleans(), **base), quick=8000)
def same_as_on_the_processor(case, ctx):
    name = case["e"]
    call, args, _, watched = c28.do(name, case)
    r = call(args)
    want = c28.see([r, watched])
    with devs.play(case["dev"]):
        call, args, _, watched = c28.do(name, case)
        c25.warm(watched, case["warm"])
        r = call(args)
        walk(r, "result of " + name)
        for v in list(args.values()) + list(watched):
            if isinstance(v, (Pointclouds, RGBDImages)):
                walk(v, "argument of " + name)
        got = c28.see([r, watched])
    ctx.nt()
    ctx.event(name)
    compare(want, got, "%s on another device" % name)


# ---------------------------------------------------------------- the other properties, on a card
GROUPS = dict(clouds_on_a_card=("C01 C02 C03", 2500), frames_on_a_card=("C04 C05 C06", 1800), geometry_on_a_card=("C07 C08", 3000), registration_on_a_card=("C09 C10 C11", 1200),
              fusion_on_a_card=("C12 C13", 1200), slam_on_a_card=("C14 C15", 250), gradients_on_a_card=("C16", 600), the_rest_on_a_card=("C17 C21 C26", 2500))
BORROWED = {}
for _p in " ".join(g for g, _ in GROUPS.values()).split():
    importlib.import_module("checks." + _p.lower())
    for _t in core.TESTS[_p]:
        if not any(w in _t["name"] for w in ("large", "long")):
            BORROWED[_p + " " + _t["name"]] = _t


def borrowed(names):
    return st.sampled_from(names).flatmap(lambda k: fixed(test=st.just(k), dev=st.sampled_from(CARDS), case=BORROWED[k]["strategy"]))


def on_a_card(case, ctx):
    ctx.event(case["test"])
    with devs.play(case["dev"]):
        BORROWED[case["test"]]["fn"](case["case"], Inner(ctx))


class Inner:
    """Passes on whether the case was non-trivial, but not its events."""

    def __init__(self, ctx):
        self.ctx = ctx

    def event(self, name, n=1):
        pass

    def nt(self, cond=True):
        self.ctx.nt(cond)


for _g, (_ps, _n) in GROUPS.items():
    core.TESTS.setdefault("C29", []).append(dict(name=_g, fn=on_a_card, strategy=borrowed([k for k in BORROWED if k.split()[0] in _ps.split()]), quick=_n, thorough=_n * 25, examples=[]))


# ---------------------------------------------------------------- moving
PLACES = ["cpu", "cuda", "cuda:0", "cuda:1"]
move = fixed(to=st.sampled_from(PLACES), form=st.sampled_from(["name", "device", "method"]), copy=st.booleans(), side=st.sampled_from(["new", "old", "neither"]), how=seeds, read=st.booleans())


def name_of(d):
    return "cuda:0" if d == "cuda" else d


def moved(x, o):
    """(the result, where it must be, whether x itself must be returned)"""
    to = o["to"]
    if o["form"] == "method" and to in ("cpu", "cuda"):
        return (x.cpu() if to == "cpu" else x.cuda()), name_of(to), str(x.device) == name_of(to)
    dst = to if o["form"] == "name" else torch.device(to)
    stay = str(x.device) == name_of(to) and not o["copy"]
    if o["copy"]:
        return x.to(dst, copy=True), name_of(to), False
    return x.to(dst), name_of(to), stay


@test("C29", fixed(a=pcs.batch, prep=c03.prep, start=st.sampled_from(PLACES), tour=st.lists(move, min_size=1, max_size=4), empty=st.sampled_from([False] * 9 + [True]), s=seeds, order=seeds), quick=4000)
def moving_clouds(case, ctx):
    with devs.play(case["start"]):
        a, m = pcs.make(case["a"])
        a = c03.prepare(a, m, case["prep"], case["s"], case["a"]["f64"])
        if case["empty"]:
            a, m = Pointclouds(device=here()), pcs.Model([])
        at = name_of(case["start"])
        check(str(a.device) == at, "created on %s: device is %s", at, a.device)
        for i, o in enumerate(case["tour"]):
            what = "move %d (%s to %s)" % (i, at, o["to"])
            if o["read"]:
                with devs.at(at):
                    pcs.check_all(a, m, "before " + what, o["how"])
            b, to, stay = moved(a, o)
            if stay:
                check(b is a, "%s: moved to where it is, another object was returned", what)
                continue
            check(b is not a, "%s: no other object was returned", what)
            ctx.nt(to != at and sum(m.ns) > 0)
            ctx.event("%s to %s" % (at[:4], to[:4]) if at != to else "copied in place")
            if not case["empty"] and o["side"] != "neither":
                with devs.at(to if o["side"] == "new" else at):
                    c03.dirty(b if o["side"] == "new" else a, c03.DIRTY[o["how"] % len(c03.DIRTY)], case["s"])
            x, y, d = (a, b, at) if o["side"] == "new" else (b, a, to)
            with devs.at(d):
                pcs.check_all(x, m, "%s after %s, the other changed" % ("the original" if x is a else "the result", what), o["how"])
                at_home(x, what)
            if o["side"] == "new":     # the result was spoilt: go on with a fresh one
                b = moved(a, o)[0]
            a, at = b, to
        with devs.at(at):
            pcs.check_all(a, m, "after all moves", case["order"])
            if case["empty"]:
                at_home(a, "empty batch")
                n, mn = pcs.make(case["a"])
                a.append_points(n)
                pcs.check_all(a, mn, "moved empty batch, appended to", case["order"])
            else:
                n, mn = pcs.make(dict(case["a"], s=case["s"]))
                a.append_points(n)
                m.append(mn)
                pcs.check_all(a, m, "moved batch, appended to", case["order"])


@test("C29", fixed(f=rgbds.batch, start=st.sampled_from(PLACES), reads=st.lists(seeds, max_size=4), tour=st.lists(move, min_size=1, max_size=4), s=seeds, order=seeds), quick=3000)
def moving_frames(case, ctx):
    with devs.play(case["start"]):
        x, m = rgbds.make(case["f"])
        at = name_of(case["start"])
        for s in case["reads"]:
            c05.read(x, m, s, "before moving")
        for i, o in enumerate(case["tour"]):
            what = "move %d (%s to %s)" % (i, at, o["to"])
            if o["read"]:
                with devs.at(at):
                    rgbds.check_all(x, m, "before " + what, o["how"])
            y, to, stay = moved(x, o)
            if stay:
                check(y is x, "%s: moved to where it is, another object was returned", what)
                continue
            check(y is not x, "%s: no other object was returned", what)
            ctx.nt(to != at)
            ctx.event("%s to %s" % (at[:4], to[:4]) if at != to else "copied in place")
            if o["side"] != "neither":
                z, d = (y, to) if o["side"] == "new" else (x, at)
                with devs.at(d):
                    if o["how"] % 3 == 0:
                        c05.touch(z)
                    elif o["how"] % 3 == 1:
                        n = m.copy()
                        for q in ("depth", "K", "poses", "rgb"):
                            c05.assign(z, n, q, o["how"])
                    else:
                        z.to_channels_last_() if z.channels_first else z.to_channels_first_()
            k, d = (x, at) if o["side"] == "new" else (y, to)
            with devs.at(d):
                rgbds.check_all(k, m, "%s after %s, the other changed" % ("the original" if k is x else "the result", what), o["how"])
            if o["side"] == "new":
                y = moved(x, o)[0]
            x, at = y, to
        with devs.at(at):
            rgbds.check_all(x, m, "after all moves", case["order"])


@test("C29", fixed(a=pcs.batch, f=rgbds.batch, at=st.sampled_from(PLACES), to=st.sampled_from(PLACES), clouds=st.booleans(), padded=st.booleans(), s=seeds), quick=1500)
def moving_keeps_gradients(case, ctx):
    """The numbers of a moved object still depend on the tensors it was made from."""
    with devs.play(case["at"]):
        if case["clouds"]:
            m = pcs.model_of(dict(case["a"], kind="padded" if case["padded"] else "list"))
            if not sum(m.ns):
                raise Reject
            leaves = [torch.tensor(a, device=here(), requires_grad=True) for a in m.points]
            x = Pointclouds(points=torch.stack(leaves) if case["padded"] else leaves)
            y = x.to(case["to"])
            outs = y.points_list
        else:
            m = rgbds.model_of(case["f"])
            leaves = [T(rgbds.lay(m.rgb, m.cf)).requires_grad_(True), T(rgbds.lay(m.d[..., None], m.cf)).requires_grad_(True)]
            x = RGBDImages(leaves[0], leaves[1], T(m.K[:, None]), T(m.poses) if m.poses is not None else None, channels_first=m.cf)
            y = x.to(case["to"])
            outs = [y.rgb_image, y.depth_image]
        W = [arr(case["s"], tuple(o.shape), -1, 1, "w%d" % i) for i, o in enumerate(outs)]
        loss = sum((o * torch.tensor(w, dtype=o.dtype, device=case["to"])).sum() for o, w in zip(outs, W))
        loss.backward()
        ctx.nt(name_of(case["at"]) != name_of(case["to"]))
        for i, (l, w) in enumerate(zip(leaves, W)):
            check(l.grad is not None, "no gradient reaches input %d", i)
            close(l.grad, w, "gradient of input %d" % i)


# ---------------------------------------------------------------- two devices
def clouds_in(args):
    return [k for k, v in args.items() if isinstance(v, (Pointclouds, RGBDImages))]


PAIRS = [k for k in NAMES if k in ("append", "active_points", "similar_points", "unique_points", "correspondences", "fuse", "aggregate", "update_fusion", "slam_step", "ICPOdometryProvider", "GradICPOdometryProvider",
                                   "ground_truth", "downsample_cloud")]


APART = [(p, q) for p in PLACES for q in PLACES if name_of(p) != name_of(q)]


@test("C29", fixed(e=st.sampled_from(PAIRS), places=st.sampled_from(APART), which=seeds, warm=st.booleans(), **base), quick=3000)
def two_devices_do_not_mix(case, ctx):
    """One of the objects is somewhere else: refused, with everything as it was; or done, all in one place."""
    name = case["e"]
    case = dict(case, at=case["places"][0], to=case["places"][1])
    with devs.play(case["at"]):
        call, args, _, watched = c28.do(name, case)
        ks = clouds_in(args)
        objs = [v for v in watched if isinstance(v, Pointclouds)] if name == "append" else []
        if not ks:
            raise Reject
        k = ks[case["which"] % len(ks)]
        if isinstance(args[k], Pointclouds) and not args[k].has_points:
            raise Reject
        args = dict(args)
        args[k] = args[k].to(case["to"])
        c25.warm([args, objs], case["warm"])
        before = look([args, objs])
        where = [str(v.device) for v in list(args.values()) + objs if isinstance(v, (Pointclouds, RGBDImages))]
        try:
            r = call(args)
        except Exception as e:
            ctx.nt()
            ctx.event("%s refused: %s" % (name, type(e).__name__))
            compare(before, look([args, objs]), "%s of objects on %s and %s was refused, but an argument" % (name, case["at"], case["to"]))
            check(where == [str(v.device) for v in list(args.values()) + objs if isinstance(v, (Pointclouds, RGBDImages))], "%s was refused, but an argument is on another device", name)
            for v in list(args.values()) + objs:
                if isinstance(v, (Pointclouds, RGBDImages)):
                    with devs.at(v.device):
                        walk(v, "argument of the refused " + name)
            if name == "append":
                check(isinstance(e, ValueError), "appending clouds of another device raised %s (%s), not ValueError", type(e).__name__, e)
            return
        check(name != "append", "clouds of another device were appended")
        ctx.event("%s done" % name)
        for v in list(args.values()) + objs + [r]:
            if isinstance(v, (Pointclouds, RGBDImages)):
                with devs.at(v.device):
                    walk(v, "argument or result of " + name)


@test("C29", fixed(a=pcs.batch, at=st.sampled_from(PLACES), to=st.sampled_from(PLACES), own=st.sampled_from(PLACES + [None]), attr=st.sampled_from(["normals", "colors", "features"]), ask=st.booleans(), order=seeds), quick=1500)
def clouds_are_made_in_one_place(case, ctx):
    """Attributes follow the points, and everything follows the device asked for."""
    with devs.play(case["at"]):
        m = pcs.model_of(case["a"])
        dt = torch.float64 if case["a"]["f64"] else torch.float32
        kw = {}
        for k in ("points",) + pcs.ATTRS:
            v = m.points if k == "points" else m.attrs[k]
            if v is not None:
                d = case["to"] if k == case["attr"] else case["at"]
                kw[k] = [torch.tensor(a, dtype=dt, device=d) for a in v]
                if case["a"]["kind"] == "padded":
                    kw[k] = torch.stack(kw[k])
        own = torch.device(case["own"]) if case["own"] and case["ask"] else case["own"]
        x = Pointclouds(device=own, **kw)
        ctx.nt(case["own"] not in (None, case["at"]) or case["attr"] in kw)
        with devs.at(name_of(case["own"] or case["at"])):
            at_home(x, "the batch")
            pcs.check_all(x, m, "batch made for %s out of tensors on %s" % (case["own"], case["at"]), case["order"])


@test("C29", fixed(f=rgbds.batch, at=st.sampled_from(PLACES), to=st.sampled_from(PLACES), own=st.sampled_from(PLACES + [None]), odd=st.sampled_from([None, None, 0, 1, 2, 3]), ask=st.booleans(), order=seeds), quick=1500)
def frames_are_made_in_one_place(case, ctx):
    with devs.play(case["at"]):
        m = rgbds.model_of(case["f"])
        ts = [T(rgbds.lay(m.rgb, m.cf)), T(rgbds.lay(m.d[..., None], m.cf)), T(m.K[:, None]), T(m.poses) if m.poses is not None else None]
        if case["odd"] is not None and ts[case["odd"]] is not None:
            ts[case["odd"]] = ts[case["odd"]].to(case["to"])
        mixed = len({str(t.device) for t in ts if t is not None}) > 1
        own = torch.device(case["own"]) if case["own"] and case["ask"] else case["own"]
        mk = lambda: RGBDImages(*ts, channels_first=m.cf, device=own)
        ctx.nt(mixed or case["own"] is not None)
        if mixed:
            raises(mk, ValueError, "frames made out of tensors of two devices")
            return
        x = mk()
        with devs.at(name_of(case["own"] or str(ts[0].device))):
            at_home(x, "the frames")
            rgbds.check_all(x, m, "frames made for %s out of tensors on %s" % (case["own"], ts[0].device), case["order"])


@test("C29", fixed(v=c28.view, m=c28.method, at=st.sampled_from(PLACES), to=st.sampled_from(PLACES), ask=st.sampled_from(["name", "device", "none"])), quick=500)
def slam_takes_frames_to_its_device(case, ctx):
    """A whole run on a device of its own: as on the processor, with the frames left where they were."""
    c = case["m"]
    def slam(**kw):
        kw.update(odom=c["odom"], dsratio=c["ds"], numiters=c["iters"], damp=1e-3, dist_thresh=c["th"])
        if c["lm"]:
            kw.update(zip(("lambda_max", "B", "B2", "nu"), c["lm"]))
        return (PointFusion if c["pf"] else ICPSLAM)(**kw)
    try:
        want = c28.see(list(slam()(c28.first_frames(case["v"], c))))
    except (RuntimeError, ValueError) as e:
        raise Reject
    with devs.play(case["at"]):
        x = c28.first_frames(case["v"], c)
        before = look(x)
        to = "cpu" if case["ask"] == "none" else case["to"]
        s = slam() if case["ask"] == "none" else slam(device=torch.device(to) if case["ask"] == "device" else to)
        r = s(x)
        ctx.nt(name_of(to) != name_of(case["at"]))
        ctx.event("%s to %s" % (case["at"][:4], to[:4]))
        with devs.at(name_of(to)):
            walk(list(r), "result of a run on " + to)
        compare(want, c28.see(list(r)), "result of a run on %s with frames on %s" % (to, case["at"]))
        walk(x, "frames after a run elsewhere")
        compare(before, look(x), "frames given to a run on another device")
