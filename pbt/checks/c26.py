"""C26: ragged lists and padded tensors."""
import numpy as np
import torch
from hypothesis import strategies as st
from core import *
from gradslam.structures.structutils import list_to_padded, padded_to_list

rule("C26", "A case is a list of 1-6 matrices of independent sizes (empty ones included, five number types, views and transposes among them), a target size "
     "(none, exact or larger, as list or tuple) and a fill value; or a padded tensor and sizes as numbers, pairs or a mixture. Every entry of the result is "
     "compared with the definition, and the round trip with the original list. Non-trivial: at least two matrices of different sizes.")

DT = ["float32", "float64", "int64", "uint8", "bool"]


def matrices(c):
    out = []
    for i, (n, m) in enumerate(c["sizes"]):
        a = arr(c["s"], (n, m), -9, 9, "m%d" % i)
        a = (a > 0) if c["dt"] == "bool" else np.abs(a) if c["dt"] == "uint8" else a
        t = torch.tensor(a.astype(c["dt"]))
        if c["view"] == 1:
            t = t.t().contiguous().t()
        elif c["view"] == 2:
            t = torch.cat([t, t], 0)[:n]
        elif c["view"] == 3 and n > 1:
            t = torch.stack([t, t], 1).reshape(2 * n, m)[::2]
        out.append(t)
    return out


sizes = st.lists(st.tuples(st.integers(0, 5), st.integers(0, 4)), min_size=1, max_size=6)
ragged = fixed(sizes=sizes, dt=st.sampled_from(DT), view=st.integers(0, 3), s=seeds)


@test("C26", fixed(c=ragged, pad=st.sampled_from(["none", "none", "exact", "larger"]), more=st.tuples(st.integers(0, 3), st.integers(0, 3)), aslist=st.booleans(),
                   value=st.sampled_from([None, 0, 1, -2.5, 7]), by=st.booleans()), quick=6000)
def padding(case, ctx):
    c = case["c"]
    x = matrices(c)
    ns, ms = [t.shape[0] for t in x], [t.shape[1] for t in x]
    kw, full = {}, [k for k, n in enumerate(ns) if n > 0]
    if case["pad"] == "none":
        if not full:
            raise Reject("nothing tells the size")
        N, M = max(ns), max(ms[k] for k in full)
    else:
        N, M = max(ns), max(ms)
        if case["pad"] == "larger":
            N, M = N + case["more"][0], M + case["more"][1]
        kw["pad_size"] = [N, M] if case["aslist"] else (N, M)
    v = case["value"]
    if v is not None:
        v = abs(v) if c["dt"] == "uint8" else v
        v = int(v) if c["dt"] in ("int64", "uint8") else bool(v) if c["dt"] == "bool" else v
        kw["pad_value"] = v
    else:
        v = 0
    args = [kw.pop("pad_size")] if case["by"] and "pad_size" in kw else []
    keep = [t.clone() for t in x]
    p = list_to_padded(x, *args, **kw)
    want = np.full((len(x), N, M), v, dtype=c["dt"])
    for k, t in enumerate(keep):
        if ns[k]:
            want[k, :ns[k], :ms[k]] = t.numpy()
    ctx.nt(len({tuple(t.shape) for t in x}) > 1)
    check(tuple(p.shape) == want.shape, "padded to %s, expected %s", tuple(p.shape), want.shape)
    check(p.dtype == x[0].dtype, "dtype %s of %s", p.dtype, x[0].dtype)
    same(p, want, "padded tensor")
    for k, t in enumerate(x):
        check(torch.equal(t, keep[k]), "matrix %d changed", k)
    # and back
    q = padded_to_list(p, [(n, m) for n, m in zip(ns, ms)])
    check(isinstance(q, list) and len(q) == len(x), "split into %s", type(q))
    for k, t in enumerate(q):
        check(tuple(t.shape) == (ns[k], min(ms[k], M)), "matrix %d comes back as %s, was %s", k, tuple(t.shape), tuple(keep[k].shape))
        if ns[k]:
            same(t, keep[k], "matrix %d after padding and splitting" % k)
    # writing into the padded tensor never shows in the list it was made of
    p.fill_(1)
    for k, t in enumerate(x):
        check(torch.equal(t, keep[k]), "matrix %d changed when the padded tensor was written to", k)


@test("C26", fixed(B=st.integers(1, 5), N=st.integers(0, 5), C=st.integers(0, 4), dt=st.sampled_from(DT[:3]), kind=st.sampled_from(["none", "int", "pair", "mixed"]),
                   aslist=st.booleans(), perm=st.booleans(), s=seeds), quick=4000)
def splitting(case, ctx):
    B, N, C = case["B"], case["N"], case["C"]
    a = arr(case["s"], (B, N, C), -9, 9).astype(case["dt"])
    x = torch.tensor(a)
    if case["perm"]:
        x = x.permute(2, 0, 1).contiguous().permute(1, 2, 0)
    u = u01(case["s"], 3 * B, "u")
    want, split = [], []
    for b in range(B):
        n, m = int(u[3 * b] * (N + 1)), int(u[3 * b + 1] * (C + 1))
        pair = case["kind"] == "pair" or case["kind"] == "mixed" and u[3 * b + 2] < 0.5
        split.append((n, m) if pair and u[3 * b + 2] < 0.25 else [n, m] if pair else n)
        want.append(a[b] if case["kind"] == "none" else a[b, :n, :m] if pair else a[b, :n])
    if case["kind"] == "none":
        got = padded_to_list(x)
    else:
        got = padded_to_list(x, split if case["aslist"] else tuple(split))
    ctx.nt(len({w.shape for w in want}) > 1)
    check(isinstance(got, list) and len(got) == B, "split into %d parts, expected %d", len(got), B)
    for b in range(B):
        check(tuple(got[b].shape) == want[b].shape, "part %d is %s, expected %s", b, tuple(got[b].shape), want[b].shape)
        check(got[b].dtype == x.dtype, "dtype %s", got[b].dtype)
        same(got[b], want[b], "part %d" % b)
    same(x, a, "the padded tensor afterwards")


@test("C26", fixed(B=st.integers(1, 5), N=st.integers(0, 5), C=st.integers(0, 4), dt=st.sampled_from(DT), junk=st.booleans(), s=seeds), quick=1000)
def equal_sizes(case, ctx):
    B, N, C = case["B"], case["N"], case["C"]
    x = matrices(dict(sizes=[(N, C)] * B, dt=case["dt"], view=case["s"] % 4, s=case["s"]))
    p = list_to_padded(x, equisized=True)
    ctx.nt(B > 1 and N * C > 0)
    check(tuple(p.shape) == (B, N, C) and p.dtype == x[0].dtype, "stacked to %s %s", tuple(p.shape), p.dtype)
    for b in range(B):
        same(p[b], x[b], "matrix %d" % b)
    if N:
        check(torch.equal(list_to_padded(x), p), "equal sizes: with and without saying so differ")


@test("C26", fixed(c=fixed(sizes=st.lists(st.tuples(st.integers(1, 5), st.integers(1, 4)), min_size=1, max_size=4), view=st.integers(0, 3), s=seeds), more=st.integers(0, 4)),
      quick=1000)
def gradients(case, ctx):
    """A loss on the padded tensor or its parts reaches exactly the entries it uses."""
    c = dict(case["c"], dt="float64")
    x = [t.detach().requires_grad_(True) for t in matrices(c)]
    N, M = max(t.shape[0] for t in x) + case["more"], max(t.shape[1] for t in x) + case["more"] // 2
    w = torch.tensor(arr(c["s"], (len(x), N, M), -1, 1, "w"))
    p = list_to_padded(x, (N, M))
    half = [tuple(t.shape) if k % 2 else int(t.shape[0]) for k, t in enumerate(x)]
    q = padded_to_list(p, half)
    ctx.nt(len(x) > 1)
    ((p * w).sum() + sum((k + 2) * (t * t).sum() for k, t in enumerate(q))).backward()
    for k, t in enumerate(x):
        n, m = t.shape
        close(t.grad, w[k, :n, :m].numpy() + 2 * (k + 2) * npy(t.detach()), "gradient of matrix %d" % k, rtol=1e-9, atol=1e-9)


@test("C26", fixed(c=fixed(sizes=st.lists(st.tuples(st.integers(1, 5), st.integers(1, 4)), min_size=1, max_size=4), dt=st.just("float32"), view=st.integers(0, 3), s=seeds),
                   kind=st.integers(0, 7)), quick=1500)
def refusals(case, ctx):
    c, j, u = case["c"], case["kind"], case["c"]["s"] % 2
    x = matrices(c)
    N, M = max(t.shape[0] for t in x), max(t.shape[1] for t in x)
    k = c["s"] % len(x)
    err = (ValueError, TypeError, IndexError)
    p = list_to_padded(x)
    ctx.nt()
    if j == 0:
        raises(lambda: list_to_padded(x, (N,) if u else [N, M, 1]), err, "a target of another number of sizes")
    elif j == 1:
        x[k] = x[k][None] if u else x[k][:, 0]
        raises(lambda: list_to_padded(x, (N, M)), err, "a matrix of another number of dimensions")
    elif j == 2:
        big = max(x, key=lambda t: t.shape[0])
        raises(lambda: list_to_padded(x, (N - 1, M)), err + (RuntimeError,), "a target with too few rows")
    elif j == 3:
        raises(lambda: list_to_padded(x, (N, M - 1)), err + (RuntimeError,), "a target with too few columns")
    elif j == 4:
        raises(lambda: padded_to_list(p[0] if u else p[None]), err, "a tensor of another number of dimensions")
    elif j == 5:
        raises(lambda: padded_to_list(p, [1] * (len(x) + 1) if u or len(x) == 1 else [1] * (len(x) - 1)), err, "a size too many or too few")
    elif j == 6:
        sp = [(1, 1)] * len(x)
        sp[k] = (1,) if u else (1, 1, 1)
        raises(lambda: padded_to_list(p, sp), err, "a size of another number of dimensions")
    elif j == 7:
        if len({tuple(t.shape) for t in x}) == 1:
            raise Reject
        raises(lambda: list_to_padded(x, equisized=True), err + (RuntimeError,), "matrices of different sizes said to be equal")


large_sizes = st.one_of(st.lists(st.tuples(st.integers(0, 1500), st.integers(1, 6)), min_size=1, max_size=4), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 40)), min_size=5, max_size=40))
also(padding, "C26", "padding_of_large_lists", fixed(c=fixed(sizes=large_sizes, dt=st.sampled_from(DT), view=st.integers(0, 3), s=seeds), pad=st.sampled_from(["none", "none", "exact", "larger"]),
                                                     more=st.tuples(st.integers(0, 3), st.integers(0, 3)), aslist=st.booleans(), value=st.sampled_from([None, 0, 1, -2.5, 7]), by=st.booleans()), quick=600)
also(splitting, "C26", "splitting_of_large_tensors", fixed(B=st.integers(1, 40), N=st.integers(0, 300), C=st.integers(0, 4), dt=st.sampled_from(DT[:3]), kind=st.sampled_from(["none", "int", "pair", "mixed"]),
                                                           aslist=st.booleans(), perm=st.booleans(), s=seeds), quick=600)
