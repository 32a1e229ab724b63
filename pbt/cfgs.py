"""Random configuration trees and a reference merge."""
import ast
import copy
from core import *
from gradslam.config import CfgNode

WORDS = ["alpha", "b", "foo/bar", "x y", "hello world", "a.b", "é", "v1.2.3", "C:\\dir", "", " lead", "tab\there", "two\nlines", "#hash", "yes", "null", "key: value", "[open", "1e", "- dash",
         "0x", "~", "2020-01-01", "12:30:45", "@at", "%p", "!tag", "&a", "*b", "|", ">", "'q", "\"dq", "\u00a0", "\U0001f600", "no", "1_0a"]
LITS = ["1", "-3", "2.5", "1e5", "True", "None", "[1, 2]", "(1, 'a')", "'quoted'", "\"dq\"", "{'a': 1}", "()", "1,2", " 7", "0x10", "1_000", "b'x'", "...", "{[1]: 2}", "{{}}", "-" * 20000 + "1"]
INTS = [0, 1, -1, 7, 10 ** 6, 2 ** 63, -2 ** 40]
FLOATS = [0.0, -0.5, 1.5, 1e-7, 1e20, 3.141592653589793, 1e300, float("inf"), -0.0, 123456789.123, 5e-324, 1e16]
KEYS = ["A", "B", "LR", "NAME", "sub", "opts", "x_1", "TRAIN", "k2", "size", "Z"]


def pick(s, tag, seq):
    return seq[int(u01(s, 1, tag)[0] * len(seq))]


def scalar(s, tag, lits=False):
    k = pick(s, tag + "k", ["int", "float", "bool", "str", "str"])
    if k == "int":
        return pick(s, tag, INTS)
    if k == "float":
        return pick(s, tag, FLOATS)
    if k == "bool":
        return pick(s, tag, [True, False])
    return pick(s, tag, WORDS + (LITS if lits else []))


def value(s, tag, kind=None, lits=False):
    kind = kind or pick(s, tag + "kind", ["int", "float", "bool", "str", "list", "tuple"])
    if kind in ("list", "tuple"):
        n = int(u01(s, 1, tag + "n")[0] * 4)
        v = [scalar(s, "%s/%d" % (tag, i), True) for i in range(n)]
        if n and u01(s, 1, tag + "nest")[0] < 0.3:
            v[0] = [scalar(s, tag + "/in", True), 3]
        return v if kind == "list" else tuple(v)
    if kind == "str":
        return pick(s, tag, WORDS + (LITS if lits else []))
    return pick(s, tag, {"int": INTS, "float": FLOATS, "bool": [True, False]}[kind])


def tree(s, tag, depth, lits=False):
    """A nested dict; leaves of every supported kind."""
    n = int(u01(s, 1, tag + "n")[0] * 5) + (1 if tag == "" else 0)
    d = {}
    for i in range(n):
        k = pick(s, "%s/k%d" % (tag, i), KEYS)
        if depth > 0 and u01(s, 1, "%s/d%d" % (tag, i))[0] < 0.4:
            d[k] = tree(s, "%s/%s" % (tag, k), depth - 1, lits)
        else:
            d[k] = value(s, "%s/v%s" % (tag, k), lits=lits)
    return d


def plain(c):
    """A configuration as nested dicts (checking that nodes are nodes at every depth)."""
    if isinstance(c, dict):
        check(isinstance(c, CfgNode), "a nested node is %s", type(c).__name__)
        return {k: plain(v) for k, v in c.items()}
    return c


def equal(a, b):
    """Equal with types, at every depth; floats bit by bit."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return np.float64(a).tobytes() == np.float64(b).tobytes()
    return a == b


def expect(c, want, what):
    got = plain(c)
    if not equal(got, want):
        fail("%s: %r, expected %r", what, got, want)


def leaves(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def nodes(d, path=()):
    yield path
    for k, v in d.items():
        if isinstance(v, dict):
            yield from nodes(v, path + (k,))


def at(d, path):
    for k in path:
        d = d[k]
    return d


def decode(v):
    """A string that reads as a Python literal stands for that literal."""
    if isinstance(v, str):
        try:
            return ast.literal_eval(v)
        except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):      # reads as a literal, but stands for none
            return v
    return v


def fits(new, old):
    """The value an accepted replacement leaves, or None when it must be refused."""
    new = decode(new)
    if type(new) is type(old):
        return copy.deepcopy(new)
    if isinstance(old, (list, tuple)) and isinstance(new, (list, tuple)):
        return type(old)(copy.deepcopy(new))
    return None


def yaml_of(v):
    """What a YAML file delivers for the value: tuples become lists at every depth."""
    if isinstance(v, dict):
        return {k: yaml_of(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [yaml_of(x) for x in v]
    return v


def spoil_lists(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            spoil_lists(x)
    if isinstance(v, list):
        v.append("spoiled")


def spoil(c):
    """Change every leaf of a configuration or nested dict in place (lists too)."""
    for k in list(c):
        v = c[k]
        if isinstance(v, dict):
            spoil(v)
        else:
            spoil_lists(v)
            c[k] = "spoiled"
    c["SPOILED"] = 1
