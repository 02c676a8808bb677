"""Shared machinery of the property checks: case registry, Hypothesis driver, replay, evidence.

A *case* is (strategy, function).  The strategy generates a JSON-able `spec`; the function builds the
input described by the spec, runs the code under test and compares it with an independent oracle, raising
Violation on disagreement.  Everything a case does is a function of its spec, so the shrunk spec *is* the
replay file.
"""
import hashlib, json, os, sys, time, traceback, signal, math, contextlib, io, warnings

REPO = os.environ.get("VT_REPO", "/repo")     # VT_REPO: development only (scratch copies with planted bugs)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """The code under test broke the property."""


class Inconclusive(Exception):
    """The example could not be decided (time limit)."""


class Ctx:
    """Per-example context: classification of the example, collected into the evidence."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = False
        self.excluded = {}

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True

    def exclude(self, name):
        self.excluded[name] = self.excluded.get(name, 0) + 1


class Case:
    def __init__(self, name, strategy, fn, quick, thorough, rule, shards):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.cases = []
        self.knowns = []
        self.warmups = []

    def case(self, name, strategy, quick=200, thorough=None, rule=None, shards=1):
        def deco(fn):
            self.cases.append(Case(name, strategy, fn, quick, thorough or quick * 20, rule, shards))
            return fn
        return deco

    def known(self, kid):
        """Register the reproducer of a recorded finding: fn() -> None if repaired, else a description."""
        def deco(fn):
            self.knowns.append((kid, fn))
            return fn
        return deco

    def warmup(self, fn):
        self.warmups.append(fn)
        return fn


# ---------------------------------------------------------------- comparison helpers

def fail(msg):
    raise Violation(msg)


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def arr(v, what):
    """Numeric array of whatever the code returned, or a violation when it is not one."""
    import numpy as np
    if v is None:
        raise Violation("%s is None" % what)
    try:
        a = np.asarray(v, dtype=float)
    except Exception as e:
        raise Violation("%s is not numeric: %r (%s)" % (what, type(v), e))
    return a


def close(got, exp, what, rtol=1e-9, atol=0.0, scale=None):
    """|got-exp| <= atol + rtol*max(|exp|, scale), NaN matching NaN."""
    import numpy as np
    g, e = arr(got, what), np.asarray(exp, dtype=float)
    if g.shape != e.shape:
        raise Violation("%s: shape %s, expected %s (got %s, expected %s)" % (what, g.shape, e.shape, _s(g), _s(e)))
    if g.size == 0:
        return
    base = np.abs(e)
    if scale is not None:
        base = np.maximum(base, np.abs(scale))
    with np.errstate(invalid="ignore"):
        ok = np.abs(g - e) <= atol + rtol * base
    ok |= (g == e)
    ok |= (np.isnan(g) & np.isnan(e))
    if not np.all(ok):
        i = np.argwhere(~np.atleast_1d(ok))[0]
        gi = np.atleast_1d(g)[tuple(i)]
        ei = np.atleast_1d(e)[tuple(i)]
        raise Violation("%s: got %r expected %r at index %s (got %s, expected %s)" % (
            what, float(gi), float(ei), i.tolist(), _s(g), _s(e)))


def same(got, exp, what):
    """Exact equality of arrays or scalars."""
    import numpy as np
    try:
        g, e = np.asarray(got), np.asarray(exp)
        ok = g.shape == e.shape and bool(np.all((g == e) | ((g != g) & (e != e))))
    except Exception as ex:
        raise Violation("%s: cannot compare %r with %r (%s)" % (what, got, exp, ex))
    if not ok:
        raise Violation("%s: got %s expected %s" % (what, _s(g), _s(e)))


def _s(a):
    import numpy as np
    t = np.array2string(np.asarray(a), threshold=12, precision=10)
    return t if len(t) < 300 else t[:300] + "..."


@contextlib.contextmanager
def quiet():
    """Silence the prints and numpy warnings of the code under test."""
    buf = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(buf):
            yield buf


def through_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/clustertools"):
            return True
        tb = tb.tb_next
    return False


def run_one(case, spec):
    """Run one example.  Raises Violation / Inconclusive / anything else = harness error."""
    import numpy as np
    ctx = Ctx()
    np.random.seed(0)
    try:
        with quiet():
            case.fn(spec, ctx)
    except (Violation, Inconclusive):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if through_repo(e):
            last = traceback.extract_tb(e.__traceback__)
            where = [f for f in last if f.filename.startswith(REPO + "/clustertools")][-1]
            raise Violation("unexpected %s: %s (%s:%d in %s)" % (
                type(e).__name__, e, os.path.relpath(where.filename, REPO), where.lineno, where.name)) from e
        raise
    finally:
        try:
            import matplotlib.pyplot as plt
            if plt.get_fignums():
                plt.close("all")
        except Exception:
            pass
    return ctx


EXAMPLE_LIMIT = 150  # seconds before one example is given up as inconclusive (never a violation)


def _alarm(signum, frame):
    raise Inconclusive("one example exceeded %d s" % EXAMPLE_LIMIT)


def run_task(check, case, tier, seed, shard):
    """Run one shard of a case under Hypothesis; returns a result dict."""
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 180
    total = case.quick if tier == "quick" else case.thorough
    n = max(1, total // case.shards)
    res = dict(case=case.name, shard=shard, evaluations=0, keys=set(), labels={}, excluded={}, samples=[],
               violation=None, error=None)
    state = {"fail": None}
    signal.signal(signal.SIGALRM, _alarm)

    def body(spec):
        signal.alarm(EXAMPLE_LIMIT)
        try:
            ctx = run_one(case, spec)
        except Violation as v:
            state["fail"] = (spec, str(v))
            state.setdefault("first", state["fail"])
            raise
        finally:
            signal.alarm(0)
        if state["fail"] is None:
            res["evaluations"] += 1
            for k, v in ctx.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            for k, v in ctx.excluded.items():
                res["excluded"][k] = res["excluded"].get(k, 0) + v
            if ctx.nontrivial:
                h = hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]
                res["keys"].add(h)
                if len(res["keys"]) in (1, 7, 40):      # a later example says more than the first, smallest ones
                    res["samples"].insert(0, spec)

    s = int(hashlib.sha256(("%s/%s/%d/%d" % (check.pid, case.name, seed, shard)).encode()).hexdigest()[:12], 16)
    test = hypothesis.seed(s)(settings(
        max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
        report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck))(given(case.strategy)(body)))
    try:
        with quiet():
            test()
    except Violation as v:
        spec, msg = state["fail"]
        res["violation"] = (spec, msg)
    except Inconclusive as e:
        res["error"] = "inconclusive: %s" % e
    except BaseException as e:
        if state["fail"] is not None:
            # not reproduced deterministically (e.g. threads in the code under test): plain re-runs of the failing specs
            res["error"] = "flaky: %s on %s (%s)" % (state["fail"][1], json.dumps(state["fail"][0])[:300], type(e).__name__)
            for spec, msg in (state["first"], state["fail"]) * 8:
                try:
                    run_one(case, spec)
                except Violation as v:
                    res["violation"], res["error"] = (spec, str(v) + " (not on every run)"), None
                    break
                except BaseException as e2:
                    res["error"] = "".join(traceback.format_exception(e2))[-3000:]
                    break
        else:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    return res
