"""Property-based-testing harness shared by every check.

A property module in /verif/props defines

    PROPERTY = "C01"
    RULE     = "how cases are made / what makes one non-trivial"
    ASSUMPTIONS = [...]
    SUBCHECKS = [Sub(...), ...]

Each Sub owns a Hypothesis strategy that produces a JSON-able case and a
function run(case, rec) that executes the code under test and raises Violation
when the oracle disagrees.  Everything a case depends on is inside the case, so
a failing (shrunk) case written to disk is a replay that bypasses Hypothesis.
"""
import os, sys, json, time, hashlib, traceback

TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never silent)."""


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, shards=1, tshards=None):
        self.name = name
        self.strategy = strategy          # callable -> hypothesis strategy
        self.run = run
        self.quick = quick                # cases per shard, quick tier
        self.thorough = thorough          # cases per shard, thorough tier
        self.shards = shards
        self.tshards = tshards or max(shards, 4)


class Recorder:
    """Collects what a run actually covered."""

    def __init__(self):
        self.labels = {}
        self.known = {}
        self.metrics = {}
        self.nontrivial_flag = False

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_flag = True

    def metric(self, name, value):
        """Largest value seen (how close a tolerance is to being used up)."""
        value = float(value)
        if value == value and value > self.metrics.get(name, -1e300):
            self.metrics[name] = value

    def known_finding(self, ident):
        self.known[ident] = self.known.get(ident, 0) + 1

    # -- oracles -------------------------------------------------------
    def close(self, what, got, want, tol, scale=None):
        """max|got-want| <= tol * scale, scale defaults to max(|want|, 1e-300)."""
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
        if got.size == 0:
            return
        if got.dtype == object or not np.all(np.isfinite(got)):
            raise Violation(f"{what}: not finite")
        if scale is None:
            scale = max(float(np.max(np.abs(want))), 1e-300)
        err = float(np.max(np.abs(got - want))) / (scale or 1e-300)
        self.metric(what.split(" [")[0] + " (err/tol)", err / tol)
        if not err <= tol:
            raise Violation(f"{what}: relative error {err:.3e} > {tol:.1e} (scale {scale:.6g})")

    def check(self, what, cond, detail=""):
        if not cond:
            raise Violation(f"{what}: {detail}" if detail else what)


def load_known():
    """known-findings.txt: 'KNOWN property=Cxx id=<ident> : text' lines."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                d = {}
                head, _, text = line[7:].partition(" :: ")
                for w in head.split():
                    k, _, v = w.partition("=")
                    d[k] = v
                out[(d.get("property"), d.get("id"))] = text
    return out


def setup_paths():
    """/repo first, stand-in libxc next, Hypothesis (and only it) at the very end."""
    sys.dont_write_bytecode = True
    for p in (os.path.join(VERIF, "lib", "stubs"), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if os.path.join(VERIF, "lib") not in sys.path:
        sys.path.insert(1, os.path.join(VERIF, "lib"))
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def case_key(case):
    return json.dumps(case, sort_keys=True)


def derive_seed(base, name, shard):
    h = hashlib.sha256(f"{base}|{name}|{shard}".encode()).hexdigest()
    return int(h[:12], 16)


def execute(sub, case, rec):
    """Run one case; every exception other than Skip is a disagreement."""
    import numpy as np, warnings, io, contextlib
    with warnings.catch_warnings(), np.errstate(all="ignore"), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            sub.run(case, rec)
        except (Violation, Skip, KeyboardInterrupt, MemoryError):
            raise
        except SystemExit as e:
            raise Violation(f"code under test exited: {e!r}")
        except BaseException as e:           # crash on a valid input
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-3:]
            raise Violation(f"{type(e).__name__}: {e} at {' > '.join(where)}")


def run_shard(prop_mod, sub, shard, seed, tier):
    """Search one shard; returns a JSON-able summary."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    budget = sub.quick * getattr(prop_mod, "QUICK_SCALE", 1) if tier == "quick" else sub.thorough
    state = dict(evals=0, skipped=0, nontrivial=set(), samples=[], fail=None,
                 failing={}, t_fail=None)
    rec = Recorder()
    shrink_s = 40.0 if tier == "quick" else 120.0
    t0 = time.time()

    def one(case):
        key = case_key(case)
        if key in state["failing"]:
            state["fail"] = (case, state["failing"][key])
            raise Violation(state["failing"][key])
        if state["t_fail"] is not None and time.time() - state["t_fail"] > shrink_s:
            return                      # shrinking budget used up: stop exploring
        rec.nontrivial_flag = False
        try:
            execute(sub, case, rec)
        except Skip as e:
            state["skipped"] += 1
            rec.label(f"skipped: {e}")
            return
        except Violation as e:
            msg = str(e)
            state["evals"] += 1
            state["failing"][key] = msg
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            state["fail"] = (case, msg)
            raise
        state["evals"] += 1
        if rec.nontrivial_flag:
            state["nontrivial"].add(hashlib.sha256(key.encode()).hexdigest()[:16])
            if len(state["samples"]) < 2:
                state["samples"].append(case)

    test = given(sub.strategy())(one)
    test = settings(max_examples=budget, database=None, deadline=None,
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate,) if os.environ.get("VERIF_NOSHRINK") else (Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(derive_seed(seed, sub.name, shard))(test)
    err = None
    try:
        test()
    except Violation:
        pass
    except BaseException as e:
        if state["fail"] is None:
            err = "".join(traceback.format_exception(e))
    return dict(sub=sub.name, shard=shard, evals=state["evals"], skipped=state["skipped"],
                nontrivial=sorted(state["nontrivial"]), samples=state["samples"],
                labels=rec.labels, known=rec.known, metrics=rec.metrics,
                fail=state["fail"], error=err, wall=time.time() - t0)
