"""Shared machinery of the property checks: environment, test registry, oracles' helpers.

A *test* is a Hypothesis strategy producing a JSON-able case plus a function that
executes the case against gradslam and raises Violation when an oracle disagrees.
The case alone determines the execution, so a shrunk case is a complete replay.
"""
import base64, hashlib, json, os, sys, types, warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))  # override: development only
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def _bootstrap():
    sys.path.insert(0, REPO)
    # Hypothesis is not in the project's venv; take it (and only what the venv lacks)
    # from the tooling venv, which has the same Python and comes last on the path.
    try:
        import hypothesis  # noqa
    except ImportError:
        for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
            if os.path.isdir(p):
                sys.path.append(p)
    import hypothesis  # noqa
    _install_open3d_stand_in()
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    import gradslam
    f = os.path.abspath(gradslam.__file__)
    if not f.startswith(REPO + os.sep):
        raise RuntimeError("gradslam imported from %s, not from %s" % (f, REPO))


def _install_open3d_stand_in():
    """open3d is not installed; gradslam only stores arrays in its PointCloud."""
    if "open3d" in sys.modules:
        return
    import numpy as np
    o3d = types.ModuleType("open3d")
    geo = types.ModuleType("open3d.geometry")
    uti = types.ModuleType("open3d.utility")

    class PointCloud:
        def __init__(self):
            self.points = None
            self.colors = None
            self.normals = None

    def Vector3dVector(a):
        a = np.array(a, dtype=np.float64)
        if a.ndim != 2 or a.shape[1] != 3:
            raise RuntimeError("Vector3dVector needs shape (N, 3), got %r" % (a.shape,))
        return a

    geo.PointCloud = PointCloud
    uti.Vector3dVector = Vector3dVector
    o3d.geometry, o3d.utility, o3d.__version__ = geo, uti, "0.10.0.0-stand-in"
    sys.modules.update({"open3d": o3d, "open3d.geometry": geo, "open3d.utility": uti})


_bootstrap()

import numpy as np  # noqa: E402
import torch  # noqa: E402
from hypothesis import strategies as st  # noqa: E402


class Violation(Exception):
    """An oracle disagreed with the code under test."""


class Reject(Exception):
    """The case lies outside the property's domain (counted, not checked)."""


class Ctx:
    """Per-case recorder: what kind of case it was, and whether it was non-trivial."""

    def __init__(self):
        self.events = {}
        self.nontrivial = False

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


TESTS = {}     # property -> list of test dicts
PRISTINE = {}  # functions of a case that fresh.ask computes in a new process
RULES = {}     # property -> text
FINDINGS = {}  # property -> {key: probe}


def rule(prop, text):
    RULES[prop] = text


def test(prop, strategy, quick, thorough=None, examples=()):
    def deco(fn):
        TESTS.setdefault(prop, []).append(dict(
            name=fn.__name__, fn=fn, strategy=strategy, quick=quick,
            thorough=thorough or quick * 25, examples=list(examples)))
        return fn
    return deco


def also(fn, prop, name, strategy, quick, thorough=None):
    """A registered test over another family of cases (large ones, say)."""
    TESTS.setdefault(prop, []).append(dict(name=name, fn=fn, strategy=strategy, quick=quick, thorough=thorough or quick * 10, examples=[]))


def finding(prop, key):
    """Register a probe for a recorded defect: returns a description when it still fails, else None."""
    def deco(fn):
        FINDINGS.setdefault(prop, {})[key] = fn
        return fn
    return deco


# ---------------------------------------------------------------- cases as JSON
def enc(x):
    if isinstance(x, bytes):
        return {"__b64__": base64.b64encode(x).decode()}
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    return x


def dec(x):
    if isinstance(x, dict):
        if set(x) == {"__b64__"}:
            return base64.b64decode(x["__b64__"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def case_hash(x):
    return hashlib.sha1(json.dumps(enc(x), sort_keys=True).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- data from drawn integers
seeds = st.integers(0, 2 ** 32 - 1)


def u01(seed, n, tag=""):
    """n numbers in [0, 1): a pure function of the drawn integer (no RNG state)."""
    raw = hashlib.shake_128(("%d/%s" % (seed, tag)).encode()).digest(4 * max(n, 1))
    return np.frombuffer(raw, dtype="<u4")[:n].astype(np.float64) / 2.0 ** 32


def arr(seed, shape, lo=-1.0, hi=1.0, tag="", step=None):
    n = int(np.prod(shape)) if len(shape) else 1
    a = lo + (hi - lo) * u01(seed, n, tag)
    if step:
        a = np.round(a / step) * step
    return a.reshape(shape)


LAYOUT = [None]   # how T lays tensors out in memory: None (contiguous) or a number (see strided)


def strided(t, k):
    """A tensor with t's values, shape and type in another memory layout."""
    k = k % 4
    if t.ndim == 0 or t.numel() == 0:
        return t
    if k == 0:      # first and last dimension swapped in memory
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if k == 1:      # every second number of a wider tensor
        big = torch.zeros(tuple(t.shape) + (2,), dtype=t.dtype, device=t.device)
        big[..., 0] = t
        big[..., 1] = -7 if t.dtype != torch.bool else True
        return big[..., 0]
    if k == 2:      # the middle of a longer tensor
        big = torch.full((t.shape[0] + 2,) + tuple(t.shape[1:]), -5, dtype=t.dtype, device=t.device) if t.dtype != torch.bool else torch.ones((t.shape[0] + 2,) + tuple(t.shape[1:]), dtype=t.dtype, device=t.device)
        big[1:-1] = t
        return big[1:-1]
    if t.ndim >= 2:  # last two dimensions swapped in memory, as torch.inverse returns its result
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    return t


DEV = [None]      # where T puts tensors: None (the processor) or the name of another device


def T(a, dtype=torch.float32):
    t = torch.tensor(np.asarray(a), dtype=dtype, device=DEV[0])
    return t if LAYOUT[0] is None else strided(t, LAYOUT[0])


def here():
    return DEV[0] or "cpu"


def dev_kw():
    """The device argument of a constructor: none given on the processor."""
    return {"device": DEV[0]} if DEV[0] else {}


def at_home(t, what):
    """The tensor is on the device the case plays on."""
    if DEV[0] and hasattr(t, "device"):
        d = torch.device(DEV[0])
        check(isinstance(t.device, torch.device) and t.device == (d if d.type == "cpu" else torch.device(d.type, d.index or 0)), "%s is on %s, not on %s", what, t.device, DEV[0])


def rot_axis_angle(axis, angle):
    axis = np.asarray(axis, dtype=np.float64)
    n = np.linalg.norm(axis)
    if n < 1e-9:
        axis, n = np.array([0.0, 0.0, 1.0]), 1.0
    k = axis / n
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * (K @ K)


def rot(seed, maxangle=np.pi, tag="r"):
    v = arr(seed, (4,), -1, 1, tag)
    return rot_axis_angle(v[:3], v[3] * maxangle)


def pose(seed, maxangle=np.pi, maxt=2.0, tag="p"):
    M = np.eye(4)
    M[:3, :3] = rot(seed, maxangle, tag + "r")
    M[:3, 3] = arr(seed, (3,), -maxt, maxt, tag + "t")
    return M


# ---------------------------------------------------------------- comparison helpers
def fail(msg, *a):
    raise Violation(msg % a if a else msg)


def check(cond, msg, *a):
    if not cond:
        fail(msg, *a)


def npy(x, what="value"):
    if torch.is_tensor(x):
        return x.detach().cpu().numpy()
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (int, float, bool, np.generic)):
        return np.asarray(x)
    fail("%s is %s, not a tensor", what, type(x).__name__)


def close(got, want, what, rtol=1e-5, atol=1e-6, scale=None, floor=1.0):
    """|got - want| <= atol*max(floor, scale) + rtol*|want| everywhere, same shape, NaN never equal."""
    g = npy(got, what).astype(np.float64) if npy(got, what).dtype != object else npy(got)
    w = npy(want, what + " (expected)").astype(np.float64)
    if g.shape != w.shape:
        fail("%s: shape %s, expected %s", what, g.shape, w.shape)
    if g.size == 0:
        return
    tol = atol * (1.0 if scale is None else max(floor, float(scale))) + rtol * np.abs(w)
    d = np.abs(g - w)
    both_inf = np.isinf(g) & np.isinf(w) & (np.sign(g) == np.sign(w))
    bad = ~((d <= tol) | both_inf)
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        fail("%s: got %r, expected %r at %s (%d of %d entries differ)", what, float(g[i]), float(w[i]),
             tuple(int(k) for k in i), int(bad.sum()), bad.size)


def same(got, want, what):
    g, w = npy(got, what), npy(want, what + " (expected)")
    if g.shape != w.shape:
        fail("%s: shape %s, expected %s", what, g.shape, w.shape)
    if not np.array_equal(g, w):
        bad = ~((g == w))
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        fail("%s: got %r, expected %r at %s (%d of %d entries differ)", what, g[i], w[i],
             tuple(int(k) for k in i), int(bad.sum()), bad.size)


def finite(x, what):
    check(np.isfinite(npy(x, what)).all(), "%s has non-finite entries", what)


def raises(fn, kinds, what):
    try:
        fn()
    except kinds as e:
        return e
    except Exception as e:
        fail("%s: raised %s (%s), expected one of %s", what, type(e).__name__, e,
             [k.__name__ for k in (kinds if isinstance(kinds, tuple) else (kinds,))])
    fail("%s: was accepted, expected it to be refused", what)


def sizes(max_b=3, max_n=6, min_n=0):
    return st.lists(st.integers(min_n, max_n), min_size=1, max_size=max_b)


def fixed(**kw):
    return st.fixed_dictionaries(kw)
