"""Runner: generated cases -> oracle -> shrunk replay file + evidence.

A sub-check is a Hypothesis strategy that yields a JSON-able `case` plus a
function `run(case, ctx)` that raises Violation when the property is broken.
Hypothesis owns every random choice and the shrinking; the replay file holds the
shrunk case and is re-run without Hypothesis (`--replay`).
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import zlib

import numpy as np

from pbt import boot


class Violation(Exception):
    """The code under test breaks the property."""


class _Stop(BaseException):
    """Internal: stop a Hypothesis run (shrink budget used up)."""


class Discard(Exception):
    """The case is outside the property's domain (counted, never a verdict)."""


class Ctx:
    """Per-case bookkeeping: labels and the non-triviality mark."""

    def __init__(self):
        self.labels = []
        self.nontrivial_mark = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_mark = True


class SubCheck:
    def __init__(self, name, strategy, run, quick, thorough, rule, shards=1, exhaustive=False):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.exhaustive = exhaustive


class Prop:
    """A property: an id and its sub-checks."""

    def __init__(self, pid):
        self.pid = pid
        self.subs = []
        self.assumptions = []

    def check(self, name, strategy, quick, thorough, rule, shards=1):
        def deco(fn):
            self.subs.append(SubCheck(name, strategy, fn, quick, thorough, rule, shards))
            return fn
        return deco

    def enumerate(self, name, cases, rule):
        """A finite family of cases, run completely (cases: callable tier -> list)."""
        def deco(fn):
            s = SubCheck(name, cases, fn, 0, 0, rule, 1, exhaustive=True)
            self.subs.append(s)
            return fn
        return deco


# ---------------------------------------------------------------- comparisons
def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(got, want, tol, what, scale=None):
    """Elementwise |got-want| <= tol*scale (scale defaults to 1+max|want|)."""
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation("%s: shape %r, expected %r" % (what, g.shape, w.shape))
    if g.size == 0:
        return
    if not np.all(np.isfinite(g)):
        raise Violation("%s: non-finite value %r" % (what, g[~np.isfinite(g)][:3].tolist()))
    if scale is None:
        scale = 1.0 + np.max(np.abs(w))
    err = np.where(g == w, 0.0, np.abs(g - w) / (np.asarray(scale, dtype=float) + 1e-300))
    k = int(np.argmax(err))
    if not err.flat[k] <= tol:
        raise Violation("%s: differs by %.3e (scaled, tol %.1e) at flat index %d: got %.17g expected %.17g"
                        % (what, err.flat[k], tol, k, g.flat[k], w.flat[k]))


def same(got, want, what):
    """Exact equality, element by element (NaN equals NaN)."""
    g = np.asarray(got)
    w = np.asarray(want)
    if g.shape != w.shape:
        raise Violation("%s: shape %r, expected %r" % (what, g.shape, w.shape))
    eq = (g == w) | ((g != g) & (w != w))
    if not np.all(eq):
        k = int(np.argmin(eq.ravel()))
        raise Violation("%s: differs at flat index %d: got %r expected %r"
                        % (what, k, g.flat[k], w.flat[k]))


# ------------------------------------------------------------------ execution
_DEVNULL = None


@contextlib.contextmanager
def quiet():
    """Swallow the progress messages of the code under test."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def _in_repo(tb):
    root = boot.REPO + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(root):
            return True
    return False


def execute(sub, case):
    """Run one case.  Returns (ctx, None|message).  Harness errors propagate."""
    ctx = Ctx()
    try:
        with quiet():
            sub.run(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, str(e)
    except Discard:
        ctx.label("discarded")
        ctx.nontrivial_mark = False
        return ctx, None
    except (Exception, SystemExit) as e:  # noqa: BLE001
        if _in_repo(e.__traceback__):
            fr = [f for f in traceback.extract_tb(e.__traceback__)
                  if os.path.realpath(f.filename).startswith(boot.REPO + os.sep)][-1]
            return ctx, "raised %s: %s (at %s:%d) on a valid input" % (
                type(e).__name__, str(e)[:200], os.path.basename(fr.filename), fr.lineno)
        if isinstance(e, (ValueError, TypeError, IndexError, KeyError, AttributeError, OverflowError)):
            # the oracle could not even consume what the code returned (NaN, None, wrong shape)
            fr = traceback.extract_tb(e.__traceback__)[-1]
            return ctx, "output unusable: %s: %s (oracle at %s:%d)" % (
                type(e).__name__, str(e)[:200], os.path.basename(fr.filename), fr.lineno)
        raise


def _key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class Stats:
    def __init__(self):
        self.n = 0
        self.seen = set()
        self.labels = {}
        self.samples = []
        self.discarded = 0
        self.budget_hit = False

    def add(self, case, ctx):
        self.n += 1
        if "discarded" in ctx.labels:
            self.discarded += 1
        for l in set(ctx.labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.nontrivial_mark:
            k = _key(case)
            if k not in self.seen:
                self.seen.add(k)
                m = len(self.seen)
                if m in (3, 40, 400):
                    self.samples.append(case)


def even_spread():
    """Hypothesis follows every generated case by about five variants of it that repeat parts
    of it (values then cluster: half of a range of ten options is one option).  Keep that for
    a few cases only, so that the budget goes into different cases."""
    from hypothesis.internal.conjecture import engine
    cls = engine.ConjectureRunner
    original = getattr(cls, "generate_mutations_from", None)
    if original is None or getattr(original, "thinned", False):
        return

    def thinned(self, data):
        if self.random.random() < 0.06:
            original(self, data)
    thinned.thinned = True
    cls.generate_mutations_from = thinned


def run_shard(sub, shard, nshards, tier, seed, budget, shrink_budget):
    """Run one shard of a sub-check in this process."""
    st = Stats()
    failure = None
    t0 = time.monotonic()
    if sub.exhaustive:
        for case in sub.strategy(tier):
            ctx, msg = execute(sub, case)
            st.add(case, ctx)
            if msg is not None:
                failure = (case, msg)
                break
        return st, failure

    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    even_spread()
    total = sub.quick if tier == "quick" else sub.thorough
    n = total // nshards + (1 if shard < total % nshards else 0)
    if n <= 0:
        return st, None
    box = {"fail": None, "t": None}

    def test(case):
        now = time.monotonic()
        if box["fail"] is None and now - t0 > budget:
            st.budget_hit = True
            raise _Stop()
        if box["t"] is not None and now - box["t"] > shrink_budget:
            raise _Stop()
        ctx, msg = execute(sub, case)
        if box["fail"] is None:
            st.add(case, ctx)
        if msg is not None:
            box["fail"] = (case, msg)
            if box["t"] is None:
                box["t"] = time.monotonic()
            raise AssertionError("property violated")

    strat = sub.strategy() if callable(sub.strategy) else sub.strategy
    mix = zlib.crc32(("%s/%d" % (sub.name, shard)).encode())
    test = given(strat)(test)
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                    phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False)(test)
    test = hypothesis.seed(seed * 1000003 + mix)(test)
    try:
        test()
    except _Stop:
        pass
    except AssertionError:
        if box["fail"] is None:
            raise
    except hypothesis.errors.Flaky:
        # the code under test answered differently on the same case: still a
        # failure that was really observed
        if box["fail"] is None:
            raise
    return st, box["fail"]


def _worker(args):
    mod, pid, idx, shard, nshards, tier, seed, budget, shrink_budget = args
    try:
        prop = load(pid)
        sub = prop.subs[idx]
        wd = os.path.join(os.environ["PBT_SCRATCH"], "w%d" % os.getpid())
        os.makedirs(wd, exist_ok=True)
        os.chdir(wd)
        t0 = time.monotonic()
        st, failure = run_shard(sub, shard, nshards, tier, seed, budget, shrink_budget)
        return (idx, shard, st, failure, None, time.monotonic() - t0)
    except BaseException as e:  # noqa: BLE001
        return (idx, shard, Stats(), None, "".join(traceback.format_exception(e)), 0.0)


def load(pid):
    import importlib
    return importlib.import_module("pbt.props." + pid.lower()).PROP


def _clip(obj, n=900):
    s = json.dumps(obj)
    if len(s) <= n:
        return obj
    return s[:n] + "...(clipped)"


def run_property(pid, tier, seed, only=None):
    t0 = time.monotonic()
    prop = load(pid)
    budget = 420.0 if tier == "quick" else 2700.0
    shrink_budget = 45.0 if tier == "quick" else 240.0
    tasks = []
    for i, sub in enumerate(prop.subs):
        if only and only != sub.name:
            continue
        ns = 1 if sub.exhaustive else max(sub.shards, 1 if tier == "quick" else 4)
        for s in range(ns):
            tasks.append((None, pid, i, s, ns, tier, seed, budget, shrink_budget))
    # heavy (many-shard) checks first
    tasks.sort(key=lambda t: (-t[4], t[2], t[3]))
    results = []
    mpx = mp.get_context("fork")
    nproc = min(int(os.environ.get("PBT_JOBS", "8")), max(1, len(tasks)))
    with mpx.Pool(nproc, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_worker, tasks, chunksize=1):
            results.append(r)
            if r[3] is not None and not os.environ.get("PBT_ALL"):
                pool.terminate()
                break
    errors = [r for r in results if r[4]]
    failures = [r for r in results if r[3] is not None]
    per = {}
    samples = []
    ev = nt = 0
    for i, sub in enumerate(prop.subs):
        rs = [r for r in results if r[0] == i]
        if not rs:
            continue
        n = sum(r[2].n for r in rs)
        seen = set()
        labels = {}
        for r in rs:
            seen |= r[2].seen
            for k, v in r[2].labels.items():
                labels[k] = labels.get(k, 0) + v
        ev += n
        nt += len(seen)
        per[sub.name] = {"evaluations": n, "distinct_nontrivial": len(seen), "rule": sub.rule,
                         "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:40]),
                         "discarded": sum(r[2].discarded for r in rs),
                         "enumerated_completely": bool(sub.exhaustive),
                         "budget_hit": any(r[2].budget_hit for r in rs),
                         "wall_s": round(sum(r[5] for r in rs), 2)}
        for r in rs[:1]:
            for c in r[2].samples[:2]:
                samples.append({"check": sub.name, "case": _clip(c)})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt,
            "rule": "Hypothesis-generated cases per sub-check; non-trivial as stated per sub-check "
                    "(see per_check.*.rule); distinct = distinct canonical JSON of the case.",
            "samples": samples[:14], "per_check": per},
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    if not only:
        path = os.path.join(boot.VERIF, "evidence", pid + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
    for k, v in per.items():
        print("  %-28s cases=%d nontrivial=%d cpu=%.1fs%s" % (
            k, v["evaluations"], v["distinct_nontrivial"], v["wall_s"],
            " BUDGET" if v["budget_hit"] else ""))
    if os.environ.get("PBT_LABELS"):
        for k, v in per.items():
            print("   ", k, v["labels"])
    from pbt import findings
    findings.report(pid)
    if failures:
        for r in failures:
            case, msg = r[3]
            rp = write_replay(pid, prop.subs[r[0]].name, case, msg, seed)
            print("  FAILED %s: %s" % (prop.subs[r[0]].name, msg))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for r in errors:
            sys.stderr.write("harness error in %s/%s:\n%s\n" % (pid, prop.subs[r[0]].name, r[4]))
        return 2
    print("OK property=%s cases=%d nontrivial=%d wall=%.1fs" % (pid, ev, nt, time.monotonic() - t0))
    return 0


def write_replay(pid, subname, case, msg, seed):
    d = os.path.join(boot.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, subname, _key(case)[:8]))
    with open(path, "w") as f:
        json.dump({"property": pid, "check": subname, "seed": seed, "message": msg,
                   "rerun": "bin/check %s --replay %s" % (pid, os.path.relpath(path, boot.VERIF)),
                   "case": case}, f, indent=1)
    return os.path.relpath(path, boot.VERIF)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop = load(rec["property"])
    sub = [s for s in prop.subs if s.name == rec["check"]][0]
    wd = os.path.join(os.environ["PBT_SCRATCH"], "replay")
    os.makedirs(wd, exist_ok=True)
    rp = os.path.abspath(path)
    os.chdir(wd)
    ctx, msg = execute(sub, rec["case"])
    if msg is None:
        print("OK replay of %s/%s passes" % (rec["property"], rec["check"]))
        return 0
    print("  %s" % msg)
    print("VIOLATION property=%s replay=%s" % (rec["property"], os.path.relpath(rp, boot.VERIF)))
    return 1
