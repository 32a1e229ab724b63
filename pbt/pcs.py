"""Point cloud batches: generators, numpy list model, comparison."""
import numpy as np
import torch
from hypothesis import strategies as st
import core
from core import arr, T, seeds, fixed, sizes, check, close, same, fail, npy, rot, pose, at_home
from gradslam import Pointclouds

ATTRS = ("normals", "colors", "features")

# start of a history / an operand batch
batch = fixed(kind=st.sampled_from(["list", "list", "padded"]), ns=sizes(3, 5), s=seeds,
              attrs=st.lists(st.sampled_from(ATTRS), unique=True), c=st.integers(1, 4),
              f64=st.booleans(), mag=st.sampled_from([1.0] * 5 + [1e-5, 1e-2, 300.0]))

# the same with many points in some clouds, or with many clouds
large = fixed(kind=st.sampled_from(["list", "list", "padded"]), s=seeds, attrs=st.lists(st.sampled_from(ATTRS), unique=True), c=st.one_of(st.integers(1, 4), st.just(33)),
              ns=st.one_of(st.lists(st.one_of(st.integers(0, 5), st.sampled_from([127, 128, 129, 256, 257, 512, 1000, 1025, 2049, 5000]), st.integers(30, 3000)), min_size=1, max_size=3),
                           st.lists(st.integers(0, 3), min_size=5, max_size=40)),
              f64=st.booleans(), mag=st.sampled_from([1.0] * 5 + [1e-2, 300.0]))


class Model:
    """Per-cloud numpy arrays; attrs maps a name to a list of arrays or None."""

    def __init__(self, points, **attrs):
        self.points = points
        self.attrs = {k: attrs.get(k) for k in ATTRS}

    @property
    def B(self):
        return len(self.points)

    @property
    def ns(self):
        return [len(p) for p in self.points]

    def copy(self):
        return Model([p.copy() for p in self.points],
                     **{k: None if v is None else [a.copy() for a in v] for k, v in self.attrs.items()})

    def index(self, ids):
        return Model([self.points[i].copy() for i in ids],
                     **{k: None if v is None else [v[i].copy() for i in ids] for k, v in self.attrs.items()})

    def append(self, o):
        self.points = [np.concatenate([a, b]) for a, b in zip(self.points, o.points)]
        for k in ATTRS:
            if self.attrs[k] is not None:
                self.attrs[k] = [np.concatenate([a, b]) for a, b in zip(self.attrs[k], o.attrs[k])]

    @property
    def C(self):
        f = self.attrs["features"]
        return 0 if f is None else f[0].shape[1]


def f32(a, f64=False):
    a = np.asarray(a, dtype=np.float64)
    return a if f64 else a.astype(np.float32).astype(np.float64)


def model_of(case, B=None, attrs=None, c=None):
    ns = list(case["ns"])
    if B is not None:
        ns = [ns[i % len(ns)] for i in range(B)]
    if case["kind"] == "padded":
        ns = [max(ns)] * len(ns)
    attrs = case["attrs"] if attrs is None else attrs
    c = case["c"] if c is None else c
    s, d = case["s"], case["f64"]
    pts = [f32(arr(s, (n, 3), -2, 2, "p%d" % b) * case.get("mag", 1.0), d) for b, n in enumerate(ns)]
    m = Model(pts)
    for k in ATTRS:
        if k in attrs:
            w = c if k == "features" else 3
            lo = -1 if k == "normals" else 0
            m.attrs[k] = [f32(arr(s, (n, w), lo, 1, "%s%d" % (k, b)), d) for b, n in enumerate(ns)]
    return m


def build(m, kind, f64=False):
    dt = torch.float64 if f64 else torch.float32
    kw = {}
    for k in ATTRS:
        v = m.attrs[k]
        if v is not None:
            kw[k] = [T(a, dt) for a in v]
            if kind == "padded":
                kw[k] = torch.stack(kw[k])
    p = [T(a, dt) for a in m.points]
    if kind == "padded":
        p = torch.stack(p)
    return Pointclouds(points=p, **kw)


def make(case, **kw):
    m = model_of(case, **kw)
    return build(m, case["kind"], case["f64"]), m


VIEWS = ["points_list", "points_padded", "nonpad_mask", "counts", "flags"] + \
    ["%s_%s" % (a, k) for a in ATTRS for k in ("list", "padded")]


def pad(arrs, C):
    N = max([len(a) for a in arrs] + [0])
    out = np.zeros((len(arrs), N, C))
    for b, a in enumerate(arrs):
        out[b, :len(a)] = a
    return out


def check_view(pc, m, view, what, tol=2e-5):
    w = "%s: %s" % (what, view)
    if m.B == 0:
        if view == "flags":
            check(not pc.has_points and not pc.has_normals and not pc.has_colors and not pc.has_features,
                  "%s: an empty object claims to have data", w)
            check(len(pc) == 0, "%s: length %s of an empty object", w, len(pc))
        elif view.endswith("_list") or view.endswith("_padded"):
            v = getattr(pc, view)
            check(v is None or len(v) == 0, "%s of an empty object is %r", w, v)
        return
    if view == "counts":
        check(len(pc) == m.B, "%s: len is %s, expected %d", w, len(pc), m.B)
        at_home(pc.num_points_per_pointcloud, w)
        at_home(pc, w)
        same(npy(pc.num_points_per_pointcloud, w).astype(np.int64), np.array(m.ns, dtype=np.int64), w)
    elif view == "flags":
        check(bool(pc.has_points), "%s: has_points is false", w)
        for k in ATTRS:
            check(bool(getattr(pc, "has_" + k)) == (m.attrs[k] is not None), "%s: has_%s is %s", w, k, getattr(pc, "has_" + k))
        check(int(pc.num_features) == m.C, "%s: num_features is %s, expected %d", w, pc.num_features, m.C)
    elif view == "nonpad_mask":
        N = max(m.ns)
        want = np.arange(N)[None, :] < np.array(m.ns)[:, None]
        at_home(pc.nonpad_mask, w)
        g = npy(pc.nonpad_mask, w)
        check(g.dtype == np.bool_, "%s: dtype %s", w, g.dtype)
        same(g, want, w)
    else:
        name, rep = view.rsplit("_", 1)
        data = m.points if name == "points" else m.attrs[name]
        got = getattr(pc, view)
        if data is None:
            check(got is None, "%s: present although the attribute is absent", w)
            return
        check(got is not None, "%s: is None although the attribute is present", w)
        for t in got if isinstance(got, list) else [got]:
            at_home(t, w)
        C = m.C if name == "features" else 3
        scale = max([1.0] + [float(np.abs(a).max()) for a in data if a.size])
        if rep == "list":
            check(isinstance(got, list) and len(got) == m.B, "%s: not a list of %d tensors", w, m.B)
            for b in range(m.B):
                close(got[b], data[b].reshape(-1, C), "%s[%d]" % (w, b), rtol=tol, atol=tol, scale=scale)
        else:
            want = pad(data, C)
            close(got, want, w, rtol=tol, atol=tol, scale=scale)
            g = npy(got)
            for b in range(m.B):
                check((g[b, m.ns[b]:] == 0).all(), "%s: padding of cloud %d is not zero", w, b)


def check_all(pc, m, what, order=0, tol=2e-5):
    n = len(VIEWS)
    ks = arr(order, (n,), 0, 1, "order")
    for i in np.argsort(ks, kind="stable"):
        check_view(pc, m, VIEWS[i], what, tol)


def snapshot(pc):
    """A plain copy of what the object holds, taken through the list views."""
    if not pc.has_points:
        return Model([])
    m = Model([npy(p).astype(np.float64).copy() for p in pc.points_list])
    for k in ATTRS:
        v = getattr(pc, k + "_list")
        m.attrs[k] = None if v is None else [npy(a).astype(np.float64).copy() for a in v]
    return m


# ---------------------------------------------------------------- operands
def operand(kind, s, m, lo, hi, f64, nonzero=False):
    """(python/torch operand, list of per-cloud arrays broadcastable to (n, 3))."""
    dt = torch.float64 if f64 else torch.float32
    N = max(m.ns + [0])
    shape = {"float": (), "int": (), "t0": (), "t3": (3,), "t113": (1, 1, 3), "tb13": (m.B, 1, 3), "tb11": (m.B, 1, 1),
             "tbn3": (m.B, N, 3), "tbn1": (m.B, N, 1), "t1n3": (1, N, 3)}[kind]
    a = arr(s, shape, lo, hi, "operand")
    if nonzero:
        a = np.where(np.abs(a) < 0.25, np.where(a < 0, -0.25, 0.25), a)
    if kind == "int":
        a = np.round(a * 2)
        if nonzero:
            a = np.where(a == 0, 2.0, a)
    a = f32(a, f64)
    full = np.broadcast_to(a, (m.B, N, 3))
    per = [full[b, :n] for b, n in enumerate(m.ns)]
    if kind == "float":
        return float(a), per
    if kind == "int":
        return int(a), per
    return T(a, dt), per


OPERANDS = ["float", "int", "t0", "t3", "t113", "tb13", "tb11", "tbn3", "tbn1", "t1n3"]


def rmats(s, m, batched, f64):
    Rs = [f32(rot(s, tag="rot%d" % (b if batched else 0)), f64) for b in range(m.B)]
    dt = torch.float64 if f64 else torch.float32
    return (T(np.stack(Rs), dt) if batched else T(Rs[0], dt)), Rs


def tforms(s, m, batched, f64):
    Ms = [f32(pose(s, tag="tf%d" % (b if batched else 0)), f64) for b in range(m.B)]
    dt = torch.float64 if f64 else torch.float32
    return (T(np.stack(Ms), dt) if batched else T(Ms[0], dt)), Ms


def kmat(s, tag="K"):
    v = arr(s, (4,), 0, 1, tag)
    K = np.eye(4)
    K[0, 0], K[1, 1] = 2 + 6 * v[0], (2 + 6 * v[1]) * (-1 if arr(s, (1,), 0, 1, tag + "odd")[0] < 0.2 else 1)
    K[0, 2], K[1, 2] = 1 + 3 * v[2], 1 + 3 * v[3]
    return K


def kmats(s, m, batched, f64):
    Ks = [f32(kmat(s, "K%d" % (b if batched else 0)), f64) for b in range(m.B)]
    dt = torch.float64 if f64 else torch.float32
    return (T(np.stack(Ks), dt) if batched else T(Ks[0], dt)), Ks


# model side of the geometric operations
def m_offset(m, per, sign=1.0):
    m.points = [p + sign * o for p, o in zip(m.points, per)]


def m_scale(m, per, inv=False):
    m.points = [p / o if inv else p * o for p, o in zip(m.points, per)]


def m_rotate(m, Rs, pre):
    m.points = [p @ (R.T if pre else R) for p, R in zip(m.points, Rs)]
    if m.attrs["normals"] is not None:
        m.attrs["normals"] = [p @ (R.T if pre else R) for p, R in zip(m.attrs["normals"], Rs)]


def m_transform(m, Ms, pre):
    m_rotate(m, [M[:3, :3] for M in Ms], pre)
    m.points = [p + M[:3, 3] for p, M in zip(m.points, Ms)]


def can_project(m):
    top = max([1e-30] + [float(np.abs(p).max()) for p in m.points if p.size])
    return all((np.abs(p[:, 2]) > 0.025 * top).all() for p in m.points)


def m_project(m, Ks):
    out = []
    for p, K in zip(m.points, Ks):
        uv = np.stack([K[0, 0] * p[:, 0] / p[:, 2] + K[0, 2], K[1, 1] * p[:, 1] / p[:, 2] + K[1, 2]], -1) if len(p) else np.zeros((0, 2))
        out.append(np.concatenate([uv, np.ones((len(p), 1))], -1))
    m.points = out
