"""A stand-in for graphics cards, which this machine has not got.

Within `with cards():` tensors can be created on, and moved to, the devices cuda:0 and cuda:1.  Such a tensor is an
ordinary tensor in memory that is marked as being elsewhere (its attribute `_card`), and every torch call is intercepted
to keep torch's rules: results are on the device of the arguments, tensors with dimensions of two devices do not mix,
indices on the processor may index a tensor on a card but not the other way round, moving copies, moving to where a
tensor already is gives that tensor, and numpy takes tensors of the processor only.  The numbers are computed by the same
kernels on either device, so results must agree exactly.
"""
import contextlib

import torch
from torch.overrides import TorchFunctionMode

CPU = torch.device("cpu")


def canon(d):
    if isinstance(d, int):
        return torch.device("cuda", d)
    d = torch.device(d)
    return torch.device("cuda", 0) if d.type == "cuda" and d.index is None else d


def device_of(t):
    return t.__dict__.get("_card", CPU)


def wrap(t, d):
    """The tensor t, just computed, as one on device d."""
    if d == CPU:
        t.__dict__.pop("_card", None)
    else:
        t.__dict__["_card"] = d
    return t


def tensors(x):
    if isinstance(x, torch.Tensor):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from tensors(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from tensors(y)


def rewrap(x, d, old):
    if isinstance(x, torch.Tensor):
        for o in old:
            if o is x:
                return x
        return wrap(x, d)
    if isinstance(x, (list, tuple)):
        if not any(True for _ in tensors(x)):
            return x
        y = [rewrap(z, d, old) for z in x]
        if isinstance(x, tuple) and hasattr(x, "_fields"):
            return type(x)(*y)
        return type(x)(y)
    return x


TT = torch.Tensor
INDEXING = {torch.index_put, TT.index_put, TT.index_put_}
FROM_DATA = {torch.tensor, torch.as_tensor, torch.asarray}


def other(a, b):
    raise RuntimeError("Expected all tensors to be on the same device, but found at least two devices, %s and %s!" % (a, b))


def common(ts):
    """The device of a call with these tensors; refuses a mixture."""
    devs = {device_of(t) for t in ts if t.dim() > 0}
    if len(devs) > 1:
        other(*sorted(devs, key=str)[:2])
    if devs:
        d = devs.pop()
        for t in ts:
            if t.dim() == 0 and device_of(t) not in (CPU, d):
                other(device_of(t), d)
        return d
    devs = {device_of(t) for t in ts} - {CPU}
    if len(devs) > 1:
        other(*sorted(devs, key=str)[:2])
    return devs.pop() if devs else CPU


def index_ok(t, i):
    for k in tensors(i):
        if k.dim() > 0 and device_of(k) not in (CPU, device_of(t)):
            raise RuntimeError("indices should be either on cpu or on the same device as the indexed tensor (%s)" % device_of(t))


class Cards(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        return self.call(func, args, kwargs)

    def call(self, func, args, kwargs):
        if func in (BASE_GET, BASE_SET, getitem, setitem):  # indices that are tensors come here from within BASE_GET
            return func(*args, **kwargs)
        t = args[0] if args and isinstance(args[0], torch.Tensor) else None
        if t is not None:
            d = device_of(t)
            if func == TT.device.__get__:
                return d
            if func == TT.is_cuda.__get__:
                return d.type == "cuda"
            if func == TT.is_cpu.__get__:
                return d == CPU
            if func == TT.get_device:
                return d.index if d.type == "cuda" else -1
            if func in (TT.numpy, TT.__array__) and d != CPU:
                raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first." % d)
            if func == TT.cpu:
                return self.move(t, CPU, {})
            if func == TT.cuda:
                return self.move(t, canon(kwargs.get("device", args[1] if len(args) > 1 else None) or "cuda"), {})
            if func == TT.to:
                return self.to(t, list(args[1:]), kwargs)
            if func == TT.type_as:
                return self.to(t, [args[1]], {})
            if func == TT.type and len(args) + len(kwargs) > 1:
                k = kwargs.get("dtype", args[1] if len(args) > 1 else None)
                if not isinstance(k, torch.dtype):
                    name = k if isinstance(k, str) else torch.typename(k)
                    kind = name.rsplit(".", 1)[-1]
                    u = t.type("torch." + kind)
                    return self.move(u if u is t else wrap(u, d), canon("cuda") if "cuda" in name else CPU, {})
            if func == TT.__setitem__:
                return func(*args, **kwargs)
            if func in (TT.copy_, TT.data.__set__, TT.grad.__set__):
                return func(*args, **kwargs)
            if func in INDEXING:
                index_ok(t, args[1])
                return rewrap(func(*args, **kwargs), d, [t])
        ts = list(tensors(args)) + list(tensors(kwargs))
        dev = kwargs.pop("device", None)
        if func in FROM_DATA:
            data = args[0] if args else kwargs.get("data", kwargs.get("obj"))
            src = device_of(data) if isinstance(data, torch.Tensor) else CPU
            dst = canon(dev) if dev is not None else src
            if func != torch.tensor and isinstance(data, torch.Tensor):
                return self.to(data, [], dict({k: v for k, v in kwargs.items() if k in ("dtype", "copy") and v is not None}, device=dst))
            rg = kwargs.pop("requires_grad", False)
            out = wrap(func(*args, **kwargs), dst)
            return out.requires_grad_(True) if rg else out
        dst = common(ts) if ts else CPU
        if dev is not None:
            dst = canon(dev)
        rg = kwargs.pop("requires_grad", False) if dst != CPU and not ts else False
        out = func(*args, **kwargs)
        out = rewrap(out, dst, ts)
        return out.requires_grad_(True) if rg else out

    def move(self, t, d, kw):
        if device_of(t) == d and not kw.get("copy"):
            return t
        mf = {k: v for k, v in kw.items() if k == "memory_format"}
        return wrap(t.clone(**mf), d)

    def to(self, t, args, kw):
        d, dt = device_of(t), None
        kw = {k: v for k, v in kw.items() if v is not None}
        if "other" in kw:
            args = [kw.pop("other")] + args
        flags = []
        for a in args:
            if isinstance(a, torch.Tensor):
                d, dt = device_of(a), a.dtype
            elif isinstance(a, torch.dtype):
                dt = a
            elif isinstance(a, bool):
                flags.append(a)
            elif a is not None:
                d = canon(a)
        if "device" in kw:
            d = canon(kw.pop("device"))
        dt = kw.pop("dtype", dt)
        copy = kw.pop("copy", flags[1] if len(flags) > 1 else False)
        if dt is not None and dt != t.dtype:
            u = wrap(t.to(dt), device_of(t))
            return u if device_of(u) == d else wrap(u.clone(), d)
        return self.move(t, d, dict(kw, copy=copy))


def prepare(_done=[]):
    """The nearest-neighbour kernel of chamferdist is called from C++, past the interception: it works on the memory of
    its arguments, and its results belong on their device."""
    if _done:
        return
    _done.append(1)
    from chamferdist import chamfer
    inner = chamfer._knn_points.apply

    def apply(*a):
        ts = [x for x in a if isinstance(x, torch.Tensor)]
        d = common(ts)
        if d == CPU:
            return inner(*a)
        return tuple(wrap(x, d) for x in inner(*a))
    chamfer._knn_points.apply = staticmethod(apply)


BASE_GET, BASE_SET = torch._C.TensorBase.__getitem__, torch._C.TensorBase.__setitem__


def getitem(t, i):
    """Plain indexing is not intercepted by torch function modes."""
    index_ok(t, i)
    out = BASE_GET(t, i)
    return out if out is t else wrap(out, device_of(t))


def advanced(i):
    return isinstance(i, (list, torch.Tensor)) or isinstance(i, tuple) and any(map(advanced, i))


def setitem(t, i, v):
    index_ok(t, i)
    if isinstance(v, torch.Tensor) and v.dim() > 0 and device_of(v) != device_of(t) and advanced(i):
        other(device_of(v), device_of(t))
    BASE_SET(t, i, v)


@contextlib.contextmanager
def cards():
    prepare()
    torch.Tensor.__getitem__, torch.Tensor.__setitem__ = getitem, setitem
    try:
        with Cards():
            yield
    finally:
        del torch.Tensor.__getitem__, torch.Tensor.__setitem__


@contextlib.contextmanager
def play(dev):
    """Cards are there, and the tensors of the case are on dev (None: on the processor, as always)."""
    import core
    old = core.DEV[0]
    core.DEV[0] = dev
    try:
        with cards():
            yield
    finally:
        core.DEV[0] = old


@contextlib.contextmanager
def at(dev):
    """Views read within must be on dev."""
    import core
    old = core.DEV[0]
    core.DEV[0] = str(dev)
    try:
        yield
    finally:
        core.DEV[0] = old
