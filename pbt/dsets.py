"""Dataset directories on disk (in a scratch directory that exists only for one case) and what they should deliver."""
import os, struct, tempfile, zlib, contextlib
import numpy as np
from core import *

ERR = (TypeError, ValueError, IndexError, OSError, RuntimeError, KeyError)


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix="verif_ds_") as d:
        yield d


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def png(path, a):
    """a: (H, W) uint8/uint16 grey or (H, W, 3) uint8; a plain PNG encoder (filter 0)."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    h, w = a.shape[:2]
    depth, ctype = (16, 0) if a.dtype == np.uint16 else (8, 2 if a.ndim == 3 else 0)
    body = a.astype(">u2" if depth == 16 else "u1").reshape(h, -1)
    raw = b"".join(b"\0" + body[i].tobytes() for i in range(h))

    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d) & 0xffffffff)

    with open(path, "wb") as f:
        f.write(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ctype, 0, 0, 0))
                + chunk(b"IDAT", zlib.compress(raw, 1)) + chunk(b"IEND", b""))


def color_image(seed, tag, h, w):
    return np.floor(arr(seed, (h, w, 3), 0, 256, "c" + tag)).astype(np.uint8)


def depth_image(seed, tag, h, w):
    d = np.floor(arr(seed, (h, w), 0, 65536, "d" + tag)).astype(np.uint16)
    z = arr(seed, (h, w), 0, 1, "z" + tag)
    d[z < 0.1] = 0
    d[z > 0.95] = 65535
    d[(z > 0.9) & (z < 0.93)] = 1
    return d


def valid_window(s):
    """Some of the window arguments, with valid values."""
    kw = dict(seqlen=1 + s % 3, dilation=(s >> 2) % 3, stride=1 + (s >> 4) % 3, start=(s >> 6) % 2, end=3)
    for b, k in enumerate(("dilation", "stride", "start", "end")):
        if (s >> (8 + b)) % 2:
            del kw[k]
    return kw


def label_image(seed, tag, h, w):
    return np.floor(arr(seed, (h, w), 0, 41, "l" + tag)).astype(np.uint8)


# ---------------------------------------------------------------- resizing
def _lin(n, m):
    """Bilinear source positions of m output samples over n inputs (pixel centres aligned, borders held)."""
    x = (np.arange(m) + 0.5) * n / m - 0.5
    x = np.clip(x, 0, n - 1)
    i = np.minimum(np.floor(x).astype(int), max(n - 2, 0))
    return i, np.minimum(i + 1, n - 1), x - i


def resize_linear(a, h, w):
    a = a.astype(np.float64)
    i, j, f = _lin(a.shape[0], h)
    a = a[i] * (1 - f)[:, None, None] + a[j] * f[:, None, None]
    i, j, f = _lin(a.shape[1], w)
    return a[:, i] * (1 - f)[None, :, None] + a[:, j] * f[None, :, None]


def check_nearest(got, a, what, tol=0.0):
    """Every output pixel is the input pixel it falls on (either neighbour when it falls exactly between two)."""
    h, w = got.shape

    def near(n, m):
        x = np.arange(m) * (n / m)
        return [np.clip(np.floor(x + e).astype(int), 0, n - 1) for e in (-1e-6, 1e-6)]

    ok = np.zeros(got.shape, bool)
    for r in near(a.shape[0], h):
        for c in near(a.shape[1], w):
            ok |= np.abs(got - a[np.ix_(r, c)]) <= tol
    if not ok.all():
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        fail("%s: pixel %s is %r, not the input pixel it falls on (%d of %d pixels)", what, i, float(got[i]), int((~ok).sum()), ok.size)


def check_images(color, depth, frames, o, scale, what):
    """color/depth: delivered tensors; frames: list of (color array, depth array) of the window."""
    L, H, W = len(frames), o["h"], o["w"]
    cf = o["cf"]
    check(tuple(color.shape) == ((L, 3, H, W) if cf else (L, H, W, 3)), "%s: color shape %s", what, tuple(color.shape))
    check(color.dtype == torch.float32, "%s: color dtype %s", what, color.dtype)
    c = npy(color).astype(np.float64)
    c = c.transpose(0, 2, 3, 1) if cf else c
    for k, (rgb, _) in enumerate(frames):
        close(c[k], resize_linear(rgb, H, W) / (255.0 if o["norm"] else 1.0), "%s: color of frame %d" % (what, k), rtol=1e-5,
              atol=1e-3 / (255.0 if o["norm"] else 1.0))
    if depth is None:
        return
    check(tuple(depth.shape) == ((L, 1, H, W) if cf else (L, H, W, 1)), "%s: depth shape %s", what, tuple(depth.shape))
    check(depth.dtype == torch.float32, "%s: depth dtype %s", what, depth.dtype)
    d = npy(depth).astype(np.float64).reshape(L, H, W)
    for k, (_, raw) in enumerate(frames):
        check_nearest(d[k] * scale, raw.astype(np.float64), "%s: depth of frame %d (in raw units)" % (what, k), tol=0.02)


def check_intrinsics(x, K, o, what):
    K = np.array(K, dtype=np.float64)
    K[0] *= o["w"] / 640.0
    K[1] *= o["h"] / 480.0
    check(tuple(x.shape) == (1, 4, 4) and x.dtype == torch.float32, "%s: intrinsics %s %s", what, tuple(x.shape), x.dtype)
    close(x[0], K, what + ": intrinsics", rtol=1e-5, atol=1e-4)


def check_poses(poses, transforms, P, what):
    """P: list of float64 (4, 4) world poses of the window."""
    L = len(P)
    s = max(1.0, max(np.abs(p).max() for p in P))
    rel = [np.linalg.inv(P[0]) @ p for p in P]
    if poses is not None:
        check(tuple(poses.shape) == (L, 4, 4) and poses.dtype == torch.float32, "%s: poses %s %s", what, tuple(poses.shape), poses.dtype)
        close(poses, np.stack(rel), what + ": poses relative to the first frame", rtol=1e-4, atol=2e-5, scale=s)
    if transforms is not None:
        check(tuple(transforms.shape) == (L, 4, 4) and transforms.dtype == torch.float32, "%s: transforms %s %s", what,
              tuple(transforms.shape), transforms.dtype)
        acc = np.eye(4)
        for k in range(L):
            acc = acc @ npy(transforms[k]).astype(np.float64)
            close(acc, rel[k], "%s: transforms chained up to frame %d" % (what, k), rtol=2e-4, atol=4e-5, scale=s)


def overwrite(item):
    """What was delivered is the caller's: write over every tensor of it."""
    for x in item:
        if torch.is_tensor(x):
            x.mul_(-3).sub_(7)


def reread(ds, i, j):
    """Items i and j (the same one) read one after the other agree, although the caller wrote over the first."""
    a = ds[i]
    keep = [x.clone() if torch.is_tensor(x) else x for x in a]
    overwrite(a)
    b = ds[j]
    check(len(keep) == len(b), "items %d and %d have %d and %d parts", i, j, len(keep), len(b))
    for x, y in zip(keep, b):
        check(torch.equal(x, y) if torch.is_tensor(x) else x == y, "items %d and %d read one after the other differ", i, j)
    overwrite(b)


def quat_rot(q):
    x, y, z, w = np.asarray(q, np.float64) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def windows(n, seqlen, dilation, stride):
    d = 0 if dilation is None else dilation
    s = seqlen * (d + 1) if stride is None else stride
    out = []
    for a in range(0, n, s):
        w = [a + k * (d + 1) for k in range(seqlen)]
        if w[-1] >= n:
            break
        out.append(w)
    return out


options = fixed(h=st.integers(2, 12), w=st.integers(2, 12), raw=st.booleans(), cf=st.booleans(), norm=st.booleans(),
                depth=st.sampled_from([True, True, False]), K=st.sampled_from([True, True, False]),
                pose=st.sampled_from([True, True, False]), tr=st.sampled_from([True, True, False]), names=st.sampled_from([True, True, False]),
                omit=st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(
                    ["seqlen", "dilation", "stride", "start", "end", "seg_classes", "channels_first", "normalize_color", "return_depth", "return_intrinsics",
                     "return_pose", "return_transform", "return_names", "return_timestamps", "return_labels"]), max_size=6, unique=True),
                    st.sampled_from([["height", "width"]] + [["return_names"]] * 9)))

# The documented value of every argument left out of a request, and where a case keeps the value it asks for.
DEFAULTS = dict(seqlen=4, dilation=None, stride=None, start=None, end=None, height=480, width=640, seg_classes="scannet20", channels_first=False, normalize_color=False,
                return_depth=True, return_intrinsics=True, return_pose=True, return_transform=True, return_names=True, return_timestamps=True, return_labels=True)
SLOT = dict(seqlen="seqlen", dilation="dil", stride="stride", start="start", end="end", height="h", width="w", seg_classes="seg", channels_first="cf", normalize_color="norm",
            return_depth="depth", return_intrinsics="K", return_pose="pose", return_transform="tr", return_names="names", return_timestamps="stampsout", return_labels="labels")


def request(case, hw, defaults={}):
    """The case with the documented default in place of every omitted argument, its options, and the keyword arguments to pass."""
    case, o = dict(case), dict(case["o"])
    if o["raw"]:
        o["h"], o["w"] = hw
    kw = {}
    for k, v in dict(DEFAULTS, **defaults).items():
        where = o if SLOT[k] in o else case
        if SLOT[k] not in where:
            continue
        if k in o.get("omit", ()):
            where[SLOT[k]] = v
        else:
            kw[k] = where[SLOT[k]]
    args = []
    if case["again"] % 2:          # by position, as far as they go
        for k in DEFAULTS:
            if k.startswith("return_") or k in o.get("omit", ()):
                if k not in o.get("omit", ()) or SLOT[k] in o or SLOT[k] in case:
                    break
            elif k in kw:
                args.append(kw.pop(k))
    return case, o, (args, kw)
