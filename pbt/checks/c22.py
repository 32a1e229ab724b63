"""C22: merging configurations."""
import copy
import logging
import os
import yaml
from hypothesis import strategies as st
from core import *
import cfgs, dsets
from gradslam.config import CfgNode

logging.disable(logging.CRITICAL)

rule("C22", "A case is a configuration tree (up to depth 3, every supported value kind, optionally with nodes open to new keys and registered deprecated/renamed keys) and up to six "
     "overrides (same kind, list for tuple, literal in a string, other kind, unknown, deprecated or renamed key, whole new subtree), merged from another configuration, a YAML "
     "file, a Python file or a key list; the result is compared with a reference merge of plain dicts. Non-trivial: some leaf changes or the merge must be refused.")

OPS = ["same", "same", "same", "lit", "swap", "other", "new", "newtree", "newlist", "dep", "ren", "leafnode", "nodeleaf", "untouched"]
edit = st.tuples(st.sampled_from(OPS), seeds)


def setup(case):
    base = cfgs.tree(case["s"], "", 3)
    c = CfgNode(copy.deepcopy(base))
    open_nodes = set()
    for i, p in enumerate(sorted(cfgs.nodes(base))):
        if case["open"] and u01(case["s"], 1, "open%d" % i)[0] < 0.4:
            if p == ():
                c = CfgNode(dict(c), new_allowed=True)
    # reopen nested nodes (a constructor makes closed children): assign open nodes explicitly, parents first
    def reopen(node, d, path):
        for i, (k, v) in enumerate(d.items()):
            if isinstance(v, dict):
                if case["open"] and u01(case["s"], 1, "open/" + "/".join(path + (k,)))[0] < 0.4:
                    setattr(node, k, CfgNode(copy.deepcopy(v), new_allowed=True))
                    open_nodes.add(path + (k,))
                reopen(getattr(node, k), v, path + (k,))
    reopen(c, base, ())
    if c.is_new_allowed():
        open_nodes.add(())
    cfgs.expect(c, base, "the configuration before merging")
    return base, c, open_nodes


def plan(case, base, open_nodes, kind):
    """Overrides as a nested dict, the expected result, whether it must be refused, and the registered names."""
    src, want, refuse = {}, copy.deepcopy(base), False
    dep, ren, changed = [], [], False
    used = set()

    def put(path, v):
        d = src
        for k in path[:-1]:
            d = d.setdefault(k, {})
            if not isinstance(d, dict):
                return False
        if path[-1] in d:
            return False
        d[path[-1]] = v
        return True

    L, N = sorted(cfgs.leaves(base), key=lambda x: x[0]), sorted(cfgs.nodes(base))
    for i, (op, s) in enumerate(case["edits"]):
        if op in ("same", "lit", "swap", "other", "nodeleaf"):
            if not L:
                continue
            path, old = cfgs.pick(s, "leaf", L)
            kinds = [type(old).__name__]
            if op == "swap":
                kinds = ["list", "tuple"]
            elif op == "other":
                kinds = [k for k in ("int", "float", "bool", "str", "list", "tuple") if k != type(old).__name__]
            v = cfgs.value(s, "v", cfgs.pick(s, "kind", kinds))
            if op == "lit":
                if isinstance(old, str):
                    v = cfgs.pick(s, "lit", cfgs.LITS)
                else:
                    v = repr(v)
            if op == "nodeleaf":     # a subtree where a value is
                v = {"q": 1}
            if not put(path, copy.deepcopy(v)):
                continue
            if kind == "yaml":
                v = cfgs.yaml_of(v)
            n = None if isinstance(v, dict) else cfgs.fits(v, old)
            if n is None and not (cfgs.decode(v) is None and old is None):
                refuse = True
            else:
                cfgs.at(want, path[:-1])[path[-1]] = n
                changed |= not cfgs.equal(n, old)
        elif op == "leafnode":     # a value where a subtree is
            P = [p for p in N if p]
            if P and put(cfgs.pick(s, "node", P), 3):
                refuse = True
        elif op in ("new", "newtree", "newlist", "dep", "ren"):
            p = cfgs.pick(s, "node", N if op != "newlist" else sorted(open_nodes) or N)
            k = cfgs.pick(s, "key", ["FRESH", "OLD_KEY", "gone", "extra"]) + (str(i) if s % 2 else "")
            path = p + (k,)
            v = cfgs.tree(s, "nt", 1) if op == "newtree" else cfgs.value(s, "v")
            if op == "newlist":     # lists in lists (and in a new subtree)
                v = [cfgs.value(s, "l%d" % j, "list") for j in range(1 + s % 3)]
                v = {"deep": v} if s % 7 == 0 else tuple(v) if s % 7 == 1 else v
            if op in ("dep", "ren") and s % 5 == 0:
                v = {"a": 1}
            if not put(path, copy.deepcopy(v)):
                continue
            if kind == "yaml":
                v = cfgs.yaml_of(v)
            if op == "dep":
                dep.append(".".join(path))
            elif op == "ren":
                ren.append(".".join(path))
                refuse = True
            elif p in open_nodes:
                cfgs.at(want, p)[k] = copy.deepcopy(v)
                changed = True
            else:
                refuse = True
        else:      # an override that names an inner node without naming any value
            p = cfgs.pick(s, "node", N)
            d = src
            for k in p:
                d = d.setdefault(k, {})
                if not isinstance(d, dict):
                    break
    return src, want, refuse, dep, ren, changed


@test("C22", fixed(s=seeds, open=st.booleans(), edits=st.lists(edit, min_size=1, max_size=6), kind=st.sampled_from(["cfg", "yaml", "py", "cfg"]), ext=st.integers(0, 2),
                   msg=st.booleans()), quick=6000)
def trees(case, ctx):
    base, c, open_nodes = setup(case)
    src, want, refuse, dep, ren, changed = plan(case, base, open_nodes, case["kind"])
    for k in sorted(set(dep)):
        c.register_deprecated_key(k)
    for k in sorted(set(ren)):
        c.register_renamed_key(k, "NEW.NAME", "do this" if case["msg"] else None)
    ctx.event("refused" if refuse else "accepted")
    ctx.nt(changed or refuse)
    keep = copy.deepcopy(src)
    if case["kind"] == "cfg":
        other = CfgNode(copy.deepcopy(src))
        run = lambda: c.merge_from_other_cfg(other)
        merged(case, ctx, c, run, want, refuse)
        cfgs.expect(other, keep, "the source after merging")
        if not refuse:
            cfgs.spoil(other)
            cfgs.expect(c, want, "the merged configuration after changing the source")
    else:
        with dsets.scratch() as d:
            f = os.path.join(d, "c" + (".py" if case["kind"] == "py" else ["", ".yml", ".yaml"][case["ext"]]))
            if case["kind"] == "py":
                dsets.write(f, "inf = float('inf')\ncfg = %r\n" % (src,))
            else:
                dsets.write(f, yaml.safe_dump(src, allow_unicode=case["msg"]))
            merged(case, ctx, c, lambda: c.merge_from_file(f), want, refuse)


def merged(case, ctx, c, run, want, refuse):
    if refuse:
        raises(run, (KeyError, ValueError, AssertionError), "overrides that do not fit")
    else:
        check(run() is None, "a merge returns something")
        cfgs.expect(c, want, "merged configuration")


@test("C22", fixed(s=seeds, edits=st.lists(st.tuples(st.sampled_from(["same", "same", "same", "lit", "swap", "other", "new", "through", "dep", "ren", "odd"]), seeds), min_size=0, max_size=5)),
      quick=5000)
def lists(case, ctx):
    base = cfgs.tree(case["s"], "", 3)
    c = CfgNode(copy.deepcopy(base))
    want, refuse, L = copy.deepcopy(base), False, sorted(cfgs.leaves(base), key=lambda x: x[0])
    args, changed = [], False
    for i, (op, s) in enumerate(case["edits"]):
        path, old = cfgs.pick(s, "leaf", L) if L else (("none",), None)
        if op in ("new", "through") or not L:
            path = path[:-1] + ("FRESH",) if op == "new" else path + ("deeper",) if op == "through" else path
            args += [".".join(path), 1]
            refuse = True
            break
        if op == "dep":
            k = "OLD.KEY%d" % i
            c.register_deprecated_key(k)
            args += [k, cfgs.value(s, "v")]
            continue
        if op == "ren":
            k = "%sOLD.KEY%d" % (path[0] + "." if s % 2 else "", i)
            c.register_renamed_key(k, "NEW.KEY")
            args += [k, cfgs.value(s, "v")]
            refuse = True
            break
        if op == "odd":
            args += [".".join(path)]
            refuse = True
            break
        old = cfgs.at(want, path)
        kinds = [type(old).__name__]
        if op == "swap":
            kinds = ["list", "tuple"]
        elif op == "other":
            kinds = [k for k in ("int", "float", "bool", "str", "list", "tuple") if k != type(old).__name__]
        v = cfgs.value(s, "v", cfgs.pick(s, "kind", kinds))
        if op == "lit":
            v = cfgs.pick(s, "lit", cfgs.LITS) if isinstance(old, str) else repr(v)
        args += [".".join(path), v]
        n = cfgs.fits(v, old)
        if n is None:
            refuse = True
            break
        changed |= not cfgs.equal(n, old)
        cfgs.at(want, path[:-1])[path[-1]] = n
    ctx.nt(changed or refuse)
    ctx.event("refused" if refuse else "accepted")
    keep = copy.deepcopy(args)
    if refuse:
        raises(lambda: c.merge_from_list(args), (KeyError, ValueError, AssertionError, TypeError), "key list %r" % (args,))
        return
    c.merge_from_list(args)
    cfgs.expect(c, want, "merged configuration")
    check(cfgs.equal(args, keep), "the key list changed: %r", args)
    for v in args:
        cfgs.spoil_lists(v)
    cfgs.expect(c, want, "merged configuration after changing the key list")


# ---------------------------------------------------------------- histories: several merges in a row
@test("C22", fixed(s=seeds, steps=st.lists(st.tuples(st.sampled_from(["cfg", "list", "self", "clone"]), seeds), min_size=2, max_size=5)), quick=2500)
def histories(case, ctx):
    base = cfgs.tree(case["s"], "", 2)
    c, want = CfgNode(copy.deepcopy(base)), copy.deepcopy(base)
    sources, olds = [], []
    for how, s in case["steps"]:
        L = sorted(cfgs.leaves(want), key=lambda x: x[0])
        if how == "self":
            if any(cfgs.fits(v, v) is None or not cfgs.equal(cfgs.fits(v, v), v) for _, v in L):
                continue
            c.merge_from_other_cfg(c)
        elif how == "clone":
            olds.append((c, copy.deepcopy(want)))
            c = c.clone()
        elif L:
            path, old = cfgs.pick(s, "leaf", L)
            v = cfgs.value(s, "v", type(old).__name__)
            if how == "list":
                c.merge_from_list([".".join(path), v])
                n = cfgs.fits(v, old)
            else:
                d = v
                for k in reversed(path):
                    d = {k: d}
                o = CfgNode(d)
                c.merge_from_other_cfg(o)
                sources.append(o)
                n = copy.deepcopy(v)
            cfgs.at(want, path[:-1])[path[-1]] = n
            ctx.nt(not cfgs.equal(n, old))
        cfgs.expect(c, want, "after %s" % how)
    for o in sources:
        cfgs.spoil(o)
    cfgs.expect(c, want, "after changing all sources")
    for o, w in olds:
        cfgs.expect(o, w, "a configuration whose clone was merged into")


# ---------------------------------------------------------------- what is refused whatever the tree, and what the user is told
@test("C22", fixed(s=seeds, how=st.integers(0, 11), msg=st.booleans(), frozen=st.booleans()), quick=1500)
def refusals(case, ctx):
    s, how = case["s"], case["how"]
    base = cfgs.tree(s, "", 2)
    c = CfgNode(copy.deepcopy(base))
    if case["frozen"]:
        c.freeze()
    KINDS = (KeyError, ValueError, AssertionError, TypeError, AttributeError)
    L, N = sorted(cfgs.leaves(base), key=lambda x: x[0]), [p for p in sorted(cfgs.nodes(base)) if p]
    ctx.nt()
    if how == 0:      # not a configuration
        for v in (copy.deepcopy(base), [("A", 1)], None, "A: 1", 3):
            raises(lambda: c.merge_from_other_cfg(v), KINDS, "merging from a %s" % type(v).__name__)
    elif how == 1:      # a key registered twice
        k = cfgs.pick(s, "key", ["OLD", "A.OLD", "x"])
        c.register_deprecated_key(k)
        raises(lambda: c.register_deprecated_key(k), KINDS, "registering a deprecated key twice")
        c.register_renamed_key(k, "NEW", "first")
        raises(lambda: c.register_renamed_key(k, "OTHER", "second"), KINDS, "registering a renamed key twice")
        check(c.key_is_deprecated(k) and c.key_is_renamed(k), "the key is no longer registered")
        try:
            c.raise_key_rename_error(k)
            fail("raise_key_rename_error raises nothing")
        except KeyError as e:
            check("NEW" in str(e) and "first" in str(e) and "OTHER" not in str(e) and "second" not in str(e), "the first registration was overwritten: %s", e)
    elif how in (2, 3):      # the user is told the new name (and what to do), whatever the source
        p = cfgs.pick(s, "node", sorted(cfgs.nodes(base)))
        if "GONE" in cfgs.at(base, p):
            raise Reject()
        full = ".".join(p + ("GONE",))
        c.register_renamed_key(full, "BRAND.NEW.NAME", "multiply by seven" if case["msg"] else None)
        d = 5
        for k in reversed(p + ("GONE",)):
            d = {k: d}
        o = CfgNode(d)
        try:
            (lambda: c.merge_from_other_cfg(o), lambda: c.merge_from_list([full, 5]))[how - 2]()
            fail("a renamed key was accepted")
        except KeyError as e:
            check("BRAND.NEW.NAME" in str(e) and full in str(e), "the error does not say what %s was renamed to: %s", full, e)
            check(("multiply by seven" in str(e)) == case["msg"], "the error does not carry the note: %s", e)
    elif how == 4:      # a value of no supported kind for a subtree or a leaf
        if not L:
            raise Reject()
        path, old = cfgs.pick(s, "leaf", L)
        bad = cfgs.pick(s, "bad", [None, {1, 2}, object(), b"x", 1j, np.float32(1), np.zeros(2), "None", "{1, 2}", "b'x'", "1j"])
        if isinstance(bad, str) and isinstance(old, str):
            pass        # a text is replaced by what the literal stands for, which is no text
        raises(lambda: c.merge_from_list([".".join(path), bad]), KINDS, "a %r for a %s" % (bad, type(old).__name__))
    elif how == 5:
        if not N:
            raise Reject()
        p = cfgs.pick(s, "node", N)
        raises(lambda: c.merge_from_list([".".join(p), cfgs.pick(s, "v", [1, "text", [1], 2.5, True])]), KINDS, "a value for a subtree")
    elif how == 6:
        args = [".".join(L[0][0]) if L else "X", 1, "A"][:1 + 2 * (s % 2)]
        raises(lambda: c.merge_from_list(args), KINDS, "a key list of odd length")
    elif how == 7:      # names no key at any level
        p = cfgs.pick(s, "node", sorted(cfgs.nodes(base)))
        k = cfgs.pick(s, "k", ["NOPE", "", "NOPE.A", "NOPE..B"])
        raises(lambda: c.merge_from_list([".".join(p + (k,)), 1]), KINDS, "an unknown key")
        raises(lambda: c.merge_from_other_cfg(CfgNode({"NOPE": cfgs.tree(s, "n", 1)})), (KeyError,), "an unknown key")
    elif how == 8:
        for v in (3, None, ["A: 1"], {"A": 1}, b"A: 1"):
            raises(lambda: CfgNode.load_cfg(v), KINDS, "loading from a %s" % type(v).__name__)
    elif how == 9:
        with dsets.scratch() as d:
            for text in ("config = {'A': 1}\n", "cfg = [1]\n", "cfg = 3\n", "cfg = {'A': None}\n"):
                f = os.path.join(d, "c%d.py" % len(text))
                dsets.write(f, text)
                raises(lambda: c.merge_from_file(f), KINDS, "a Python file with %r" % text)
            f = os.path.join(d, "c.json")
            dsets.write(f, "{}")
            raises(lambda: c.merge_from_file(f), Exception, "a file of another kind")
            raises(lambda: c.merge_from_file(os.path.join(d, "missing.yaml")), OSError, "a missing file")
    elif how == 10:      # nothing to merge
        c.merge_from_list([])
        c.merge_from_other_cfg(CfgNode())
        with dsets.scratch() as d:
            f = os.path.join(d, "c.yaml")
            dsets.write(f, cfgs.pick(s, "empty", ["", "{}", "# nothing\n", "---\n"]))
            c.merge_from_file(f)
    else:      # subtrees are merged in turn: what is named changes, what is not stays
        if not N:
            raise Reject()
        p = cfgs.pick(s, "node", N)
        sub = CfgNode({p[0]: CfgNode()})
        c.merge_from_other_cfg(sub)
    cfgs.expect(c, base, "the configuration afterwards")
    check(c.is_frozen() == case["frozen"] and not c.is_new_allowed(), "the configuration's flags changed")
