"""C23: dumping, loading, cloning, freezing configurations."""
import copy
import io
import logging
import os
import pickle
from hypothesis import strategies as st
from core import *
import cfgs, dsets
from gradslam.config import CfgNode, load_cfg

logging.disable(logging.CRITICAL)

rule("C23", "A case is a configuration tree (up to depth 3, every supported value kind, awkward strings and numbers) and a dump format or a history of attribute and key assignments, "
     "freezes, defrosts (of the whole tree or a subtree), clones and dumps, compared with plain dicts and a per-node frozen flag. Non-trivial: the tree has a nested node and, in a "
     "history, some assignment is refused.")


@test("C23", fixed(s=seeds, lits=st.booleans(), kw=st.integers(0, 5), ext=st.sampled_from(["", ".yml", ".yaml", ".py"]), text=st.lists(st.text(max_size=12), max_size=3),
                   nums=st.lists(st.one_of(st.floats(allow_nan=False), st.integers()), max_size=3)), quick=5000)
def round_trip(case, ctx):
    base = cfgs.tree(case["s"], "", 3, lits=True)
    for i, t in enumerate(case["text"]):
        if case["kw"] == 4 and not t.isprintable():
            t = "plain"      # PyYAML itself does not round-trip unusual line breaks when asked to leave them unescaped
        base["text%d" % i] = t if i % 2 == 0 else [t, "x"]
    for i, v in enumerate(case["nums"]):
        base["num%d" % i] = v if i % 2 == 0 else [v]
    c = CfgNode(copy.deepcopy(base))
    cfgs.expect(c, base, "a configuration made from a dict")
    ctx.nt(any(isinstance(v, dict) for v in base.values()))
    kw = [{}, dict(default_flow_style=True), dict(default_flow_style=False), dict(sort_keys=False), dict(allow_unicode=True), dict(indent=4, width=20)][case["kw"]]
    s = c.dump(**kw)
    check(isinstance(s, str), "dump gives %s", type(s).__name__)
    cfgs.expect(c, base, "the configuration after dumping")
    want = cfgs.yaml_of(base)
    cfgs.expect(load_cfg(s), want, "loaded from the dumped text")
    check(c.dump(**kw) == s, "dumping twice gives different texts")
    with dsets.scratch() as d:
        f = os.path.join(d, "conf" + case["ext"])
        with open(f, "w", encoding="utf-8", newline="") as h:
            h.write(s if case["ext"] != ".py" else "from math import inf\nimport gradslam.config\ncfg = %s%r%s\n" % (("gradslam.config.CfgNode(", base, ")") if case["s"] % 2 else ("", base, "")))
        with open(f, "r", encoding="utf-8", newline="") as h:
            got = CfgNode.load_cfg(h)
        cfgs.expect(got, base if case["ext"] == ".py" else want, "loaded from a file%s" % case["ext"])
        check(type(got) is CfgNode and not got.is_frozen(), "loaded configuration is %s", type(got).__name__)
        g = os.path.join(d, "conf.txt")
        dsets.write(g, "A: 1\n")
        with open(g) as h:
            raises(lambda: load_cfg(h), Exception, "a file of unsupported kind")


def build(s, depth=3):
    base = cfgs.tree(s, "", depth)
    return base, CfgNode(copy.deepcopy(base))


@test("C23", fixed(s=seeds, how=st.sampled_from(["clone", "deepcopy", "pickle", "dict", "clone", "clone"]), frozen=st.booleans(), side=st.booleans()), quick=3000)
def copies(case, ctx):
    base, c = build(case["s"])
    src = copy.deepcopy(base)
    if case["how"] == "dict":
        c = CfgNode(src)
    if case["frozen"] and case["how"] != "dict":
        c.freeze()
    k = c.clone() if case["how"] == "clone" else copy.deepcopy(c) if case["how"] == "deepcopy" else pickle.loads(pickle.dumps(c)) if case["how"] == "pickle" else src
    if case["how"] != "dict":
        cfgs.expect(k, base, "the copy")
        check(type(k) is CfgNode and k.is_frozen() == c.is_frozen() and k.is_new_allowed() == c.is_new_allowed(), "the copy's flags differ")
        k.register_deprecated_key("OLD.A")
        c.register_deprecated_key("OLD.B")
        k.register_renamed_key("OLD.C", "X")
        check(k.key_is_deprecated("OLD.A") and not k.key_is_deprecated("OLD.B") and not c.key_is_deprecated("OLD.A") and not c.key_is_renamed("OLD.C"), "registered names are shared")
    ctx.nt(any(isinstance(v, dict) for v in base.values()))
    a, b = (c, k) if case["side"] else (k, c)
    if case["frozen"] and case["how"] != "dict":
        a.defrost()
        for p in cfgs.nodes(base):
            check(cfgs.at(b, p).is_frozen() and not cfgs.at(a, p).is_frozen(), "defrosting one of them defrosts the other")
    cfgs.spoil(a)
    if b is src:
        check(cfgs.equal(b, base), "the dict changed with the configuration: %r", b)
    else:
        cfgs.expect(b, base, "the other one after changing one of them")


step = st.tuples(st.sampled_from(["attr", "attr", "attr", "newattr", "key", "freeze", "freeze", "defrost", "clone", "nodeattr", "bad", "internal", "merge"]), seeds)


@test("C23", fixed(s=seeds, steps=st.lists(step, min_size=4, max_size=12)), quick=5000)
def histories(case, ctx):
    want, c = build(case["s"])
    frozen = set()
    refused = 0
    for i, (op, s) in enumerate(case["steps"]):
        N = sorted(cfgs.nodes(want))
        p = cfgs.pick(s, "node", N)
        node, d = cfgs.at(c, p), cfgs.at(want, p)
        if op in ("attr", "newattr", "nodeattr"):
            k = cfgs.pick(s, "key", sorted(d)) if d and op == "attr" else cfgs.pick(s, "key", cfgs.KEYS)
            if op != "nodeattr" and isinstance(d.get(k), dict):
                continue
            v = cfgs.tree(s, "t", 1) if op == "nodeattr" else cfgs.value(s, "v")
            w = CfgNode(copy.deepcopy(v)) if op == "nodeattr" else copy.deepcopy(v)
            if p in frozen:
                raises(lambda: setattr(node, k, w), AttributeError, "assigning %s of a frozen node" % k)
                refused += 1
            else:
                setattr(node, k, w)
                frozen -= {q for q in frozen if q[:len(p) + 1] == p + (k,)}
                d[k] = v
        elif op == "key":
            L = [k for k in d if not isinstance(d[k], dict)]
            if not L or p in frozen:
                continue
            k = cfgs.pick(s, "key", sorted(L))
            d[k] = cfgs.value(s, "v")
            node[k] = copy.deepcopy(d[k])
        elif op in ("freeze", "defrost"):
            (node.freeze if op == "freeze" else node.defrost)()
            sub = {q for q in N if q[:len(p)] == p}
            frozen = frozen | sub if op == "freeze" else frozen - sub
        elif op == "clone":
            old = c
            c = c.clone()
            old.defrost()
            cfgs.spoil(old)
        elif op == "bad":
            v = cfgs.pick(s, "bad", [None, {"a": 1}, {1, 2}, object(), b"x", 1j, np.float32(1), np.zeros(2)])
            raises(lambda: setattr(node, "NEWKEY", v), (AttributeError, AssertionError), "assigning a %s" % type(v).__name__)
            raises(lambda: CfgNode({"A": {"B": v}}) if not isinstance(v, dict) else CfgNode({"A": {"B": {"c": None}}}), AssertionError, "a configuration holding a %s" % type(v).__name__)
        elif op == "internal":
            raises(lambda: setattr(node, cfgs.pick(s, "i", ["__immutable__", "__deprecated_keys__", "__renamed_keys__", "__new_allowed__"]), False),
                   (AttributeError, AssertionError), "assigning internal state")
        cfgs.expect(c, want, "after %s" % op)
        for q in sorted(cfgs.nodes(want)):
            n = cfgs.at(c, q)
            check(n.is_frozen() == (q in frozen), "after %s: node %s frozen: %s", op, ".".join(q), n.is_frozen())
            for k, v in cfgs.at(want, q).items():
                check(getattr(n, k) is n[k] and k in n, "attribute and key %s differ", k)
            raises(lambda: n.no_such_key, AttributeError, "reading a missing key by attribute")
    ctx.nt(refused > 0 and any(isinstance(v, dict) for v in want.values()))


def lines(text):
    return [l for l in text.split("\n") if l.strip()]


@test("C23", fixed(s=seeds, how=st.integers(0, 5), bad=st.integers(0, 6)), quick=1500)
def corners(case, ctx):
    s, how = case["s"], case["how"]
    base, c = build(s)
    ctx.nt()
    if how == 0:      # nothing in it
        for e in (CfgNode(), CfgNode(None), CfgNode({}), load_cfg("{}"), load_cfg(""), load_cfg("# only a remark\n")):
            cfgs.expect(e, {}, "an empty configuration")
            check(len(e) == 0 and not e.is_frozen() and not e.is_new_allowed(), "an empty configuration's flags")
            cfgs.expect(load_cfg(e.dump()), {}, "an empty configuration dumped and loaded")
        a, b = CfgNode(), CfgNode()
        a.NEW = 1
        a.register_deprecated_key("K")
        check("NEW" not in b and not b.key_is_deprecated("K") and len(CfgNode()) == 0, "two empty configurations share something")
    elif how == 1:      # values of kinds that cannot be dumped, put there past the checks
        node = cfgs.at(c, cfgs.pick(s, "node", sorted(cfgs.nodes(base))))
        v = [None, {1, 2}, object(), b"x", 1j, np.float32(1), np.zeros(2)][case["bad"]]
        node["ODD"] = v
        raises(c.dump, (AssertionError, ValueError, TypeError), "dumping a %s" % type(v).__name__)
    elif how == 2:      # text forms
        text = str(c)
        for path, v in cfgs.leaves(base):
            check(any(l.strip().startswith(path[-1] + ":") for l in lines(text)), "the text form does not list %s", ".".join(path))
        inf = float("inf")
        cfgs.expect(eval(repr(c), {"CfgNode": CfgNode, "inf": inf}), base, "the configuration evaluated from its repr")
        cfgs.expect(c, base, "the configuration after printing it")
        r = CfgNode({k: copy.deepcopy(base[k]) for k in reversed(list(base))})
        check(str(r) == text, "the text form hangs on the order in which keys were given")
    elif how == 3:      # frozen: every attribute at every depth, and nothing else of it
        c.freeze()
        for p in cfgs.nodes(base):
            n = cfgs.at(c, p)
            for k in list(n) + ["FRESH"]:
                raises(lambda: setattr(n, k, 1), AttributeError, "assigning %s of a frozen node" % ".".join(p + (k,)))
        check(load_cfg(c.dump()).is_frozen() is False, "a loaded configuration is frozen")
        cfgs.expect(c, base, "the frozen configuration")
        c.defrost()
        c.FRESH = 1
        check(c["FRESH"] == 1, "a defrosted configuration takes no values")
    elif how == 4:      # dumping does not hang on flags, and only reads
        t = c.dump()
        c.freeze()
        c.register_deprecated_key("OLD")
        check(c.dump() == t, "the dump of a frozen configuration differs")
        check(CfgNode(copy.deepcopy(base), new_allowed=True).dump() == t, "the dump of an open configuration differs")
        check(c.is_frozen() and c.key_is_deprecated("OLD"), "dumping changed the flags")
    else:      # a clone of a clone; a subtree on its own
        p = cfgs.pick(s, "node", sorted(cfgs.nodes(base)))
        n = cfgs.at(c, p).clone()
        cfgs.expect(n, cfgs.at(base, p), "a cloned subtree")
        cfgs.expect(load_cfg(n.dump()), cfgs.yaml_of(cfgs.at(base, p)), "a subtree dumped and loaded")
        cfgs.spoil(n.clone())
        cfgs.expect(n, cfgs.at(base, p), "a cloned subtree after its clone was changed")
        cfgs.spoil(n)
        cfgs.expect(c, base, "the configuration after a clone of its subtree was changed")
