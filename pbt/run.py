"""python pbt/run.py ID            run the check of a property (tier and seed from the environment)
python pbt/run.py --replay FILE  re-run one recorded failing case"""
import collections, hashlib, importlib, json, multiprocessing as mp, os, signal, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()
import core
from core import Violation, Reject, Ctx

EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(core.VERIF, "evidence")  # override: development only
SHRINK = os.environ.get("VERIF_SHRINK", "1") != "0"                                # likewise
REPO_PKG = os.path.join(core.REPO, "gradslam") + os.sep
USABLE = (AttributeError, TypeError, IndexError, KeyError, ValueError, RuntimeError, AssertionError,
          ZeroDivisionError, UnboundLocalError, NameError, NotImplementedError, StopIteration, ArithmeticError)


CASE_CPU_S = 90  # processor time of one case; ordinary cases take milliseconds, the largest a few seconds


class Endless(BaseException):
    """A case used up its processor time (a BaseException: Hypothesis must not retry it)."""


def on_alarm(signum, frame):
    while frame is not None and not os.path.abspath(frame.f_code.co_filename).startswith(REPO_PKG):
        frame = frame.f_back
    if frame is None:
        raise RuntimeError("a case of the check itself used more than %d s of processor time" % CASE_CPU_S)
    raise Endless("no result after %d s of processor time on a valid case (%s:%d in %s)" % (
        CASE_CPU_S, os.path.relpath(frame.f_code.co_filename, core.REPO), frame.f_lineno, frame.f_code.co_name))


def execute(t, case, ctx):
    """run() within the processor time of a case."""
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        run(t, case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def run(t, case, ctx):
    """Run one case. Violation: an oracle failed, or the code under test failed on a valid case."""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            t["fn"](case, ctx)
        except (Violation, Reject):
            raise
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            mine = [f for f in frames if os.path.abspath(f.filename).startswith(REPO_PKG)]
            if mine:
                f = mine[-1]
                raise Violation("unexpected %s on a valid case: %s (%s:%d in %s)" % (
                    type(e).__name__, str(e)[:300], os.path.relpath(f.filename, core.REPO), f.lineno, f.name)) from e
            if isinstance(e, USABLE):
                f = frames[-1]
                raise Violation("the result could not be examined: %s: %s (%s:%d)" % (
                    type(e).__name__, str(e)[:300], os.path.basename(f.filename), f.lineno)) from e
            raise


HISTORY = collections.deque(maxlen=20000)  # what this process has run: (test, case)


def fails_afresh(prop, history, test, case):
    """Does the case still fail in a new process, after these others?"""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(dict(property=prop, test=test, case=case, history=history), f)
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", f.name], capture_output=True, timeout=150)
        return p.returncode == 1
    except subprocess.TimeoutExpired:
        return False
    finally:
        os.unlink(f.name)


def with_history(prop, test, case, before):
    """The shortest list of earlier cases found after which the case fails in a new process; None if it never does."""
    stop = time.time() + 100
    if fails_afresh(prop, [], test, case):
        return []
    hist = [[n, core.enc(c)] for n, c in before]
    if not fails_afresh(prop, hist, test, case):
        return None
    k = 2
    while hist and time.time() < stop:
        size = -(-len(hist) // k)
        for i in range(0, len(hist), size):
            rest = hist[:i] + hist[i + size:]
            if fails_afresh(prop, rest, test, case):
                hist, k = rest, max(2, k - 1)
                break
            if time.time() > stop:
                break
        else:
            if size == 1:
                break
            k = min(len(hist), 2 * k)
    return hist


def shard(job):
    prop, name, n, seed, tier, deadline = job
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 40
    t = [x for x in core.TESTS[prop] if x["name"] == name][0]
    R = dict(test=name, evaluations=0, rejected=0, skipped=0, nontrivial=set(), events={}, samples=[], failure=None, error=None)
    last = {}
    start = time.time()

    def body(case):
        if time.time() > deadline and "fail" not in last:
            R["skipped"] += 1
            return
        ctx = Ctx()
        R["evaluations"] += 1
        if "fail" not in last:
            HISTORY.append((name, case))
        try:
            execute(t, case, ctx)
        except Reject:
            R["rejected"] += 1
            return
        except (Violation, Endless) as v:
            last["fail"] = (core.enc(case), str(v))
            last.setdefault("first", last["fail"])
            raise
        finally:
            for k, c in ctx.events.items():
                R["events"][k] = R["events"].get(k, 0) + (1 if c else 0)
            if ctx.nontrivial:
                h = core.case_hash(case)
                if h not in R["nontrivial"]:
                    R["nontrivial"].add(h)
                    if len(R["samples"]) < 2 and R["evaluations"] > 3:
                        R["samples"].append(core.enc(case))

    s = settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                 suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink) if SHRINK else (Phase.generate,), verbosity=hypothesis.Verbosity.quiet)
    try:
        f = hypothesis.seed(seed)(s(given(t["strategy"])(body)))
        f()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) or "fail" not in last:
            R["error"] = traceback.format_exc()
            if isinstance(e, KeyboardInterrupt):
                raise
        else:
            # a case determines the execution: one that does not fail in a new process fails because of what ran before it, or by chance
            R["failure"] = last["fail"] + (None,)
            for case, msg in ([last["fail"]] + ([last["first"]] if last["first"] != last["fail"] else [])) if SHRINK else []:
                h = with_history(prop, name, case, list(HISTORY)[:-1])
                if h is not None:
                    R["failure"] = (case, msg, h)
                    break
    R["wall"] = time.time() - start
    return R


def report_violation(prop, test, case, msg, history=()):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump(dict(dict(property=prop, test=test, case=case, message=msg), **(dict(history=list(history)) if history else {})), f, indent=1)
    print("%s %s: %s" % (prop, test, msg))
    print("  case: %s" % json.dumps(case)[:1500])
    if history:
        print("  after %d other cases (in the replay)" % len(history))
    if history is None:
        print("  seen once, and not again in a new process: a matter of chance, or of more than the last %d cases" % HISTORY.maxlen)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def known(prop):
    out = {}
    p = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) >= 3 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                out[w[2][4:]] = w[3].strip() if len(w) > 3 else ""
    return out


def load(prop):
    importlib.import_module("checks." + prop.lower())


def replay(path):
    r = json.load(open(path))
    load(r["property"])
    if r["test"].startswith("finding:"):
        msg = core.FINDINGS[r["property"]][r["test"][8:]]()
    else:
        named = {x["name"]: x for x in core.TESTS[r["property"]]}
        for n, case in r.get("history", []):
            try:
                execute(named[n], core.dec(case), Ctx())
            except (Violation, Reject, Endless):
                pass
        try:
            execute(named[r["test"]], core.dec(r["case"]), Ctx())
            msg = None
        except (Violation, Endless) as v:
            msg = str(v)
    if msg is None:
        print("replay passes")
        return 0
    print("replay fails: %s" % msg)
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--serve":
        load(sys.argv[2])
        import fresh
        fresh.serve(int(sys.argv[3]), int(sys.argv[4]), core.PRISTINE)
    prop = sys.argv[1]
    only = sys.argv[2:] or None
    tier, seed = core.TIER, core.SEED
    load(prop)
    tests = [t for t in core.TESTS[prop] if not only or t["name"] in only]
    violation = False
    errors = []
    deadline = T0 + (float(os.environ.get("VERIF_BUDGET", 0)) or (420 if tier == "quick" else 3 * 3600))

    # recorded findings
    listed = known(prop)
    for key, probe in core.FINDINGS.get(prop, {}).items():
        try:
            msg = probe()
        except Exception:
            errors.append("finding probe %s: %s" % (key, traceback.format_exc()))
            continue
        if msg is None:
            continue
        if key in listed:
            print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, msg))
        else:
            report_violation(prop, "finding:" + key, dict(key=key), msg)
            violation = True

    # fixed examples (shrunk cases kept as regressions)
    nex = 0
    for t in tests:
        for case in t["examples"]:
            nex += 1
            try:
                execute(t, case, Ctx())
            except Reject:
                pass
            except (Violation, Endless) as v:
                report_violation(prop, t["name"], core.enc(case), str(v))
                violation = True
                break
            except Exception:
                errors.append(traceback.format_exc())

    ncpu = int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1)
    factor = float(os.environ.get("VERIF_FACTOR", 1))
    jobs = []
    for t in tests:
        n = max(1, int(t[tier] * factor))
        k = max(1, min(ncpu if tier == "quick" else 4 * ncpu, n // 15))
        for i in range(k):
            s = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, t["name"], i)).encode()).digest()[:6], "big")
            jobs.append((prop, t["name"], (n + k - 1) // k, s, tier, deadline))
    # spread the shards of one test
    jobs.sort(key=lambda j: hashlib.sha256(repr(j[:4]).encode()).hexdigest())
    res = []
    if not violation:
        if ncpu == 1:
            it = map(shard, jobs)
            pool = None
        else:
            pool = mp.get_context("fork").Pool(ncpu, maxtasksperchild=None)
            it = pool.imap_unordered(shard, jobs)
        for r in it:
            res.append(r)
            if r["error"]:
                errors.append(r["test"] + ": " + r["error"])
            if r["failure"] and not violation:
                report_violation(prop, r["test"], *r["failure"])
                violation = True
                if pool:
                    pool.terminate()
                break
        if pool:
            pool.terminate()
            pool.join()

    per = {}
    nt = set()
    events = {}
    samples = []
    for r in res:
        p = per.setdefault(r["test"], dict(evaluations=0, nontrivial=set(), rejected=0, skipped_after_budget=0, cpu_s=0.0))
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] |= r["nontrivial"]
        p["rejected"] += r["rejected"]
        p["skipped_after_budget"] += r["skipped"]
        p["cpu_s"] = round(p["cpu_s"] + r["wall"], 1)
        for k, c in r["events"].items():
            events[r["test"] + ":" + k] = events.get(r["test"] + ":" + k, 0) + c
        if sum(1 for s in samples if s["test"] == r["test"]) < 1:
            samples += [dict(test=r["test"], case=s) for s in r["samples"][:1]]
    for k, p in per.items():
        nt |= {(k, h) for h in p["nontrivial"]}
        p["nontrivial"] = len(p["nontrivial"])
    samples = json.loads(json.dumps(samples))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(p["evaluations"] for p in per.values()) + nex,
                            distinct_nontrivial=len(nt),
                            rule=core.RULES.get(prop, ""), samples=samples[:8] or ["no case completed"],
                            per_test=per, classes=events, regression_examples=nex),
              assumptions=["open3d is replaced by an in-process stand-in holding arrays; CPU tensors only",
                           "generated sizes and value ranges as stated in the rule and in DESIGN.md"],
              wall_s=round(time.time() - T0, 2), violations=int(violation))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        return 1
    if errors:
        print("CHECK ERROR in %s:\n%s" % (prop, "\n".join(errors[:3])))
        return 3
    print("%s ok: %d cases, %d distinct non-trivial, %.1f s" % (prop, ev["coverage"]["evaluations"], len(nt), ev["wall_s"]))
    for k, p in sorted(per.items()):
        print("  %-40s %s" % (k, p))
    if os.environ.get("VERIF_EVENTS"):
        for k in sorted(events):
            print("     %-60s %d" % (k, events[k]))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
