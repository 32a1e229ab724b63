"""C34: copies, stored and reloaded objects, worker processes and concurrent threads."""
import copy, io, multiprocessing, os, pickle, sys, threading
import numpy as np
import torch
from hypothesis import strategies as st
from torch.utils.data import DataLoader
import core
from core import *
from core import T
import dsets, pcs, rgbds, rooms
from checks import c05, c27, c28
from checks.c02 import prep, prepare
from checks.c03 import DIRTY, dirty
from checks.c28 import NAMES, do, new_slam, method, see, seeds, view, world
from checks.c25 import compare, warm
from gradslam import Pointclouds, RGBDImages
from gradslam.odometry import icputils
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider

rule("C34", "A case is an object with a history (clouds, frames, odometry providers, SLAM objects in the middle of a sequence, datasets, arguments of any of about 90 operations), a way to duplicate it (deepcopy, pickle in "
     "protocols 2 to 5, torch.save and load), and what is done to the one and the other afterwards; or a dataset read through a loader with 1-3 worker processes; or two to three operations, sequences or readers in threads whose "
     "switches are drawn, line by line of gradslam's code. The results must be those of the original, of the plain loop, and of one after the other. Non-trivial: the duplicate was used after it or the original changed, "
     "windows came from workers, or a switch happened inside an operation.")

HOWS = ["deepcopy", "pickle2", "pickle3", "pickle4", "pickle5", "torch"]


def duplicate(how, x):
    try:
        return duplicate_(how, x)
    except Exception as e:
        fail("%s of %s: %s: %s", how, type(x).__name__, type(e).__name__, str(e)[:200])


def duplicate_(how, x):
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "torch":
        f = io.BytesIO()
        torch.save(x, f)
        f.seek(0)
        return torch.load(f, weights_only=False)
    return pickle.loads(pickle.dumps(x, int(how[-1])))


# ---------------------------------------------------------------- structures
@test("C34", fixed(a=pcs.batch, prepa=prep, c=st.sampled_from(HOWS), how=st.sampled_from(DIRTY + ["none"]), side=st.sampled_from(["orig", "copy"]), s=seeds, order=seeds, empty=st.sampled_from([False] * 15 + [True])), quick=3000)
def clouds(case, ctx):
    a, m = pcs.make(case["a"])
    a = prepare(a, m, case["prepa"], case["s"], case["a"]["f64"])
    if case["empty"]:
        a, m = Pointclouds(device=here()), pcs.Model([])
    c = duplicate(case["c"], a)
    check(type(c) is Pointclouds and c is not a, "%s of a batch is %r", case["c"], type(c))
    ctx.event(case["c"])
    ctx.nt(sum(m.ns) > 0 and case["how"] != "none")
    x, y = (a, c) if case["side"] == "orig" else (c, a)
    if not case["empty"] and case["how"] != "none":
        dirty(x, case["how"], case["s"])
    pcs.check_all(y, m, "%s by %s, the other one changed (%s)" % ("copy" if case["side"] == "orig" else "source", case["c"], case["how"]), case["order"])
    # going on with it
    if m.B:
        y.offset_(1.5)
        pcs.m_offset(m, [np.full((1, 3), 1.5) for _ in range(m.B)])
        pcs.check_all(y, m, "%s by %s after one more operation" % ("copy" if case["side"] == "orig" else "source", case["c"]), case["order"] + 1)


@test("C34", fixed(f=rgbds.batch, pre=st.lists(c05.op, max_size=4), c=st.sampled_from(HOWS), side=st.booleans(), post=st.sampled_from(["tensors", "assign", "layout", "none"]), s=seeds, order=seeds), quick=2500)
def frames(case, ctx):
    x, m = rgbds.make(case["f"])
    for o in case["pre"]:
        if o["op"] in ("read", "readall"):
            c05.read(x, m, o["s"], "before copying") if o["op"] == "read" else rgbds.check_all(x, m, "before copying", o["s"])
        elif o["op"] in ("depth", "K", "poses", "rgb"):
            c05.assign(x, m, o["op"], o["s"])
        elif o["op"] in ("cl_", "cf_"):
            x.to_channels_last_() if o["op"] == "cl_" else x.to_channels_first_()
            m.cf = o["op"] == "cf_"
    n = m.copy()
    y = duplicate(case["c"], x)
    check(type(y) is RGBDImages and y is not x, "%s of a frame batch is %r", case["c"], type(y))
    ctx.event(case["c"])
    ctx.nt(case["post"] != "none")
    a, b, ma, mb = (x, y, m, n) if case["side"] else (y, x, n, m)
    if case["post"] == "tensors":
        c05.touch(a)
    elif case["post"] == "assign":
        for q in ("depth", "K", "poses", "rgb"):
            c05.assign(a, ma, q, case["s"])
    elif case["post"] == "layout":
        a.to_channels_first_() if not a.channels_first else a.to_channels_last_()
    which = "copy" if case["side"] else "source"
    rgbds.check_all(b, mb, "%s by %s, the other one changed (%s)" % (which, case["c"], case["post"]), case["order"])
    q = ["depth", "K", "poses", "rgb"][case["s"] % 4]
    c05.assign(b, mb, q, case["s"] + 1)
    rgbds.check_all(b, mb, "%s by %s after a new %s" % (which, case["c"], q), case["order"] + 1)


# ---------------------------------------------------------------- arguments of every operation
@test("C34", fixed(e=st.sampled_from(NAMES), c=st.sampled_from(HOWS), warm=st.booleans(), B=st.integers(1, 3), s=seeds, n=st.integers(1, 4)), quick=4000)
def arguments(case, ctx):
    """An operation on duplicates of its arguments; and its result, duplicated."""
    name = case["e"]
    call, args, _, watched = do(name, case)
    r = call(args)
    want = see(r)
    call, args, _, watched = do(name, case)
    warm(list(args.values()), case["warm"])
    d = duplicate(case["c"], args)
    ctx.nt()
    ctx.event(name)
    compare(want, see(call(d)), "%s on arguments duplicated by %s" % (name, case["c"]))
    if torch.is_tensor(r) or isinstance(r, (Pointclouds, RGBDImages)):
        compare(want, see(duplicate(case["c"], r)), "result of %s duplicated by %s" % (name, case["c"]))


# ---------------------------------------------------------------- SLAM objects
WAYS = HOWS + ["eval", "train", "double", "half", "to", "no_grad", "requires_grad", "inside", "state_dict", "apply", "zero_grad", "inference"]


def through(how, s):
    """The module after something that applies to every module and concerns none of its settings."""
    if how in HOWS:
        return duplicate(how, s)
    if how == "inside":
        return torch.nn.Sequential(torch.nn.Identity(), s)
    if how == "state_dict":
        d = s.state_dict()
        n = copy.deepcopy(s)
        n.load_state_dict(d)
        return n
    r = {"eval": lambda: s.eval(), "train": lambda: s.train(), "double": lambda: s.double(), "half": lambda: s.half(), "to": lambda: s.to(torch.device(here())), "requires_grad": lambda: s.requires_grad_(False),
         "apply": lambda: s.apply(lambda m: None), "zero_grad": lambda: s.zero_grad()}.get(how, lambda: s)()
    check(r is s or r is None, "%s returned another object", how)
    return s


V0 = dict(B=2, L=3, H=7, W=8, kind="box", mot=0.01, holes=0.2, cf=False, start=True, s=77)
EVERY = [dict(m=dict(odom=o, pf=p, ds=1, iters=2, th=None, lm=None), v=dict(V0, cf=p), how=h) for h in WAYS for o in ("gt", "icp", "gradicp") for p in (False, True)]


@test("C34", fixed(m=method, v=view, how=st.sampled_from(WAYS), first=st.booleans()), quick=500, examples=[dict(e, first=True) for e in EVERY])
def modules(case, ctx):
    c = dict(case["v"], L=max(2, case["v"]["L"]))
    s = new_slam(case["m"])
    try:
        want = see(s(c28.first_frames(c, case["m"])))
    except (ValueError, IndexError, RuntimeError):
        raise Reject
    s = new_slam(case["m"])
    if case["first"]:
        s(c28.first_frames(c, case["m"]))
    settings = see(s)
    t = through(case["how"], s)
    x = c28.first_frames(c, case["m"])
    if case["how"] == "no_grad":
        with torch.no_grad():
            got = t(x)
    elif case["how"] == "inference":
        with torch.inference_mode():
            got = t(x)
    else:
        got = t(x)
    ctx.nt()
    ctx.event(case["how"])
    compare(want, see(got), "map and poses from a SLAM object after %s" % case["how"])
    compare(settings, see(s), "settings of the SLAM object after %s" % case["how"])
    if case["how"] in HOWS:
        compare(settings, see(t), "settings of the SLAM object's copy by %s" % case["how"])


@test("C34", fixed(m=method, v=view, how=st.sampled_from([w for w in WAYS if w != "inside"]), inplace=st.booleans()), quick=500, examples=[dict(e, inplace=False) for e in EVERY if e["how"] != "inside"])
def modules_step_by_step(case, ctx):
    """The same, frame by frame; maps of earlier steps stay as they were unless asked to change."""
    v = dict(case["v"], L=max(2, case["v"]["L"]))

    def whole(s):
        r, maps = c28.Run(v, case["inplace"]), []
        while not r.done():
            r.step(s)
            maps.append((r.pc, see(r.pc)))
        return r, maps
    try:
        want = whole(new_slam(case["m"]))[0].result()
    except (ValueError, IndexError, RuntimeError):
        raise Reject
    s = through(case["how"], new_slam(case["m"]))
    with torch.inference_mode(case["how"] == "inference"), torch.set_grad_enabled(case["how"] != "no_grad"):
        r, maps = whole(s)
        got = r.result()
    ctx.nt()
    ctx.event(case["how"])
    compare(want, got, "map and poses from steps of a SLAM object after %s" % case["how"])
    if not case["inplace"]:
        for k, (pc, then) in enumerate(maps):
            compare(then, see(pc), "map of step %d after later steps of a SLAM object after %s" % (k, case["how"]))


@test("C34", fixed(m=method, v=view, how=st.sampled_from(HOWS), at=st.integers(1, 4), inplace=st.booleans(), together=st.booleans()), quick=500)
def stored_in_the_middle(case, ctx):
    """A run, stopped after some frames, stored, and gone on with: by the original and by what was loaded."""
    v = dict(case["v"], L=3)

    def whole(until=9, r=None, s=None):
        r, s = r or c28.Run(v, case["inplace"]), s or new_slam(case["m"])
        while not r.done() and r.l < until:
            r.step(s)
        return r, s
    try:
        want = whole()[0].result()
    except (ValueError, IndexError, RuntimeError):
        raise Reject
    r, s = whole(min(case["at"], 2))
    if case["together"]:
        q, t = duplicate(case["how"], (r, s))
    else:
        q, t = duplicate(case["how"], r), duplicate(case["how"], s)
    ctx.nt()
    ctx.event(case["m"]["odom"])
    compare(want, whole(9, q, t)[0].result(), "run gone on with from a copy by %s" % case["how"])
    compare(want, whole(9, r, s)[0].result(), "run gone on with after a copy by %s was" % case["how"])


# ---------------------------------------------------------------- datasets
def open_dataset(c, d):
    cls, args, table, K, scale = c27.write(d, c)
    h, w = c["hw"]
    kw = dict(height=h, width=w, channels_first=c["cf"], normalize_color=c["norm"], return_names=True)
    if c["kind"] != "scannet":
        kw.update(seqlen=c["seqlen"], dilation=c["dil"], stride=c["stride"])
    if c["kind"] == "tum":
        kw["return_timestamps"] = c["stamps"]
    return cls(*args, **kw)


@test("C34", fixed(c=c27.case_, workers=st.integers(1, 3), how=st.sampled_from(HOWS + ["itself"]), read=st.lists(st.integers(0, 9), max_size=2), sub=st.booleans()), quick=60)
def worker_processes(case, ctx):
    """A loader with worker processes delivers what the dataset gives, window by window, and so does a duplicate of it."""
    c = dict(case["c"], shuffle=False)
    with dsets.scratch() as d:
        ds = open_dataset(c, d)
        n = len(ds)
        if not n:
            raise Reject
        want = [see(ds[i]) for i in range(n)]
        other = open_dataset(c, d)
        for i in case["read"]:
            other[i % n]
        if case["how"] != "itself":
            other = duplicate(case["how"], other)
        check(len(other) == n, "a copy of the dataset by %s has %d windows, not %d", case["how"], len(other), n)
        order = list(range(n)) if case["sub"] else [int(k) for k in np.argsort(arr(c["s"], (n,), 0, 1, "order"))]
        # this may itself be a process of a pool, which Python keeps from having children
        multiprocessing.current_process()._config["daemon"] = False
        k = 0
        for x in DataLoader(other, batch_size=None, sampler=order, collate_fn=lambda v: v, num_workers=case["workers"]):
            compare(want[order[k]], see(x), "window %d from a worker process" % order[k])
            k += 1
        check(k == n, "the loader delivers %d windows of %d", k, n)
        a = [see(x) for x in DataLoader(ds, batch_size=c["batch"], sampler=order)]
        b = [see(x) for x in DataLoader(other, batch_size=c["batch"], sampler=order, num_workers=case["workers"])]
        check(len(a) == len(b), "%d batches with workers, %d without", len(b), len(a))
        for k in range(len(a)):
            compare(a[k], b[k], "batch %d from worker processes" % k)
        ctx.nt(n > 1)
        ctx.event(c["kind"])


# ---------------------------------------------------------------- threads
class Turns:
    """Lets one of n threads run at a time and hands over at drawn lines of gradslam's code."""

    def __init__(self, n, s, every, lines=()):
        self.at = None
        if not every and lines:      # the first thread stops once, at one of its lines, until the others have ended
            kinds = sorted(set(lines))
            k = kinds[(s >> 4) % len(kinds)]
            self.at = [k, (s >> 16) % lines.count(k)]
            every = 1
        every = max(1, every)
        self.n, self.cv, self.now, self.alive, self.switches = n, threading.Condition(), 0, set(range(n)), 0
        self.rng, self.every = np.random.RandomState(s % 2 ** 31), every
        self.left = self.rng.randint(1, every + 1)

    def hand_over(self, me, where):
        with self.cv:
            if self.at:
                if me or where != self.at[0]:
                    return
                self.at[1] -= 1
                if self.at[1] != -1 or len(self.alive) < 2:
                    return
                self.now = 1
                self.switches += 1
                self.cv.notify_all()
                self.wait(me)
                return
            self.left -= 1
            if self.left > 0 or len(self.alive) < 2:
                return
            self.left = self.rng.randint(1, self.every + 1)
            others = sorted(self.alive - {me})
            self.now = others[self.rng.randint(len(others))]
            self.switches += 1
            self.cv.notify_all()
            self.wait(me)

    def wait(self, me):
        while self.now != me:
            if not self.cv.wait(0.5):       # the other one waits for something this one holds
                self.now = me
                self.cv.notify_all()

    def run(self, jobs):
        out = [None] * self.n
        pre = os.path.join(core.REPO, "gradslam") + os.sep

        def work(k):
            def line(f, event, arg):
                if event == "line":
                    self.hand_over(k, (f.f_code.co_filename, f.f_lineno))
                return line

            def call(f, event, arg):
                return line if f.f_code.co_filename.startswith(pre) else None
            with self.cv:
                self.wait(k)
            try:
                sys.settrace(call)
                out[k] = ("ok", jobs[k]())
            except Exception as e:
                out[k] = ("raised", type(e).__name__, str(e)[:300])
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive.discard(k)
                    if self.alive:
                        self.now = sorted(self.alive)[-1]
                    self.cv.notify_all()
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
            check(not t.is_alive(), "threads block one another")
        return out


sched = dict(s=seeds, every=st.sampled_from([0, 0, 1, 3, 10, 40]))
task = fixed(e=st.sampled_from(NAMES), B=st.integers(1, 3), s=seeds, n=st.integers(1, 4))


def at_once(jobs, what, case, ctx):
    """The jobs one after the other, each set up by itself, and then in threads; jobs are functions that set up and return what to run."""
    want = []
    pre, lines = os.path.join(core.REPO, "gradslam") + os.sep, []

    def line(f, event, arg):
        if event == "line" and len(lines) < 100000:
            lines.append((f.f_code.co_filename, f.f_lineno))
        return line
    for j in jobs:
        try:
            r = j()
            if j is jobs[0] and not case["every"]:
                sys.settrace(lambda f, event, arg: line if f.f_code.co_filename.startswith(pre) else None)
            try:
                want.append(("ok", r()))
            finally:
                sys.settrace(None)
        except Reject:
            raise
        except Exception as e:
            want.append(("raised", type(e).__name__, str(e)[:300]))
    ready = [j() for j in jobs]
    before = world()
    t = Turns(len(jobs), case["s"], case["every"], lines)
    got = t.run(ready)
    ctx.nt(t.switches > 0)
    for k in range(len(jobs)):
        check(got[k][0] == want[k][0], "%s in a thread beside others: %s; alone: %s", what[k], got[k][:1] if got[k][0] == "ok" else got[k], want[k][:1] if want[k][0] == "ok" else want[k])
        if got[k][0] == "ok":
            compare(want[k][1], got[k][1], "%s in a thread beside others" % what[k])
    compare(before, world(), "global state after threads")


@test("C34", fixed(tasks=st.lists(task, min_size=2, max_size=3), same=st.booleans(), **sched), quick=1600)
def operations_at_once(case, ctx):
    tasks = case["tasks"]
    if case["same"]:      # the same operation on other data
        tasks = [tasks[0]] + [dict(tasks[0], s=t["s"]) for t in tasks[1:]]

    def job(t):
        def setup():
            call, args, _, watched = do(t["e"], t)
            return lambda: see([call(args), watched])
        return setup
    ctx.event(tasks[0]["e"])
    at_once([job(t) for t in tasks], [t["e"] for t in tasks], case, ctx)


@test("C34", fixed(m=st.lists(method, min_size=2, max_size=2), views=st.lists(view, min_size=2, max_size=2), shared=st.booleans(), **dict(sched, every=st.sampled_from([0, 0, 3, 10, 40, 200]))), quick=150)
def pipelines_at_once(case, ctx):
    """Sequences in threads, with a SLAM object each or one for both."""
    ms = [case["m"][0] if case["shared"] else m for m in case["m"]]
    one = {}

    def job(k):
        def setup():
            s = one.setdefault("s", new_slam(ms[0])) if case["shared"] else new_slam(ms[k])
            x = c28.first_frames(case["views"][k], ms[k])
            return lambda: see(s(x))
        return setup
    ctx.event("shared" if case["shared"] else "separate")
    at_once([job(k) for k in range(2)], ["SLAM with %s" % m["odom"] for m in ms], case, ctx)


@test("C34", fixed(m=method, views=st.lists(view, min_size=2, max_size=3), **sched), quick=600)
def registrations_at_once(case, ctx):
    """One odometry provider for pairs of clouds in several threads."""
    m = case["m"]
    kw = dict(numiters=m["iters"], damp=1e-3, dist_thresh=m["th"])
    if m["odom"] == "gradicp" and m["lm"]:
        kw.update(zip(("lambda_max", "B", "B2", "nu"), m["lm"]))
    p = GroundTruthOdometryProvider() if m["odom"] == "gt" else (ICPOdometryProvider if m["odom"] == "icp" else GradICPOdometryProvider)(**kw)

    def job(v):
        def setup():
            x = rgbds.build(rooms.views(dict(v, L=2, holes=0.0))[0])
            a, b = (x[:, 0], x[:, 1]) if m["odom"] == "gt" else [icputils.downsample_rgbdimages(x[:, l], m["ds"]) for l in range(2)]
            return lambda: see(p.provide(a, b))
        return setup
    ctx.event(m["odom"])
    at_once([job(v) for v in case["views"]], ["registration"] * len(case["views"]), case, ctx)


@test("C34", fixed(c=c27.case_, picks=st.lists(st.lists(st.integers(0, 20), min_size=1, max_size=2), min_size=2, max_size=3), own=st.booleans(), **sched), quick=200)
def readers_at_once(case, ctx):
    """Windows of a dataset, or of datasets, read by several threads."""
    c = case["c"]
    with dsets.scratch() as d:
        ds = open_dataset(c, d)
        n = len(ds)
        if not n:
            raise Reject
        cwd = os.getcwd()

        def job(p):
            def setup():
                x = open_dataset(c, d) if case["own"] else ds
                return lambda: see([x[i % n] for i in p])
            return setup
        ctx.event(c["kind"])
        at_once([job(p) for p in case["picks"]], ["%s windows" % c["kind"]] * len(case["picks"]), case, ctx)
        check(os.getcwd() == cwd, "the working directory changed")
