"""Entry point:  main.py PROPERTY quick|thorough   |   main.py PROPERTY replay FILE"""
import os, sys, time, json, tempfile, shutil, importlib, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")


def setup_env(scratch):
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["HOME"] = scratch
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["NUMBA_NUM_THREADS"] = "2"
    os.environ["NUMBA_THREADING_LAYER"] = "workqueue"
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        if p not in sys.path:
            sys.path.append(p)
    os.chdir(scratch)


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("known:"):
                p = dict(x.split("=", 1) for x in line.split()[1:3])
                if p.get("property") == pid:
                    out.append((p["id"], line.split(None, 3)[3]))
    return out


def _init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


_CHECK = None


def _task(args):
    from vt import core
    ci, tier, seed, shard = args
    d = tempfile.mkdtemp(dir=os.environ["VT_SCRATCH"])
    os.chdir(d)
    t = time.time()
    try:
        r = core.run_task(_CHECK, _CHECK.cases[ci], tier, seed, shard)
    except BaseException as e:
        r = dict(case=_CHECK.cases[ci].name, shard=shard, evaluations=0, keys=set(), labels={}, excluded={},
                 samples=[], violation=None, error="".join(traceback.format_exception(e))[-3000:])
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)
    r["wall"] = time.time() - t
    return r


def main():
    global _CHECK
    pid, tier = sys.argv[1], sys.argv[2]
    target = os.path.abspath(sys.argv[3]) if len(sys.argv) > 3 else None
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = tempfile.mkdtemp(prefix="vt_%s_" % pid)
    os.environ["VT_SCRATCH"] = scratch
    try:
        setup_env(scratch)
        from vt import core
        with core.quiet():
            import clustertools
        if not clustertools.__file__.startswith(REPO + "/"):
            print("clustertools was imported from", clustertools.__file__)
            return 2
        mod = importlib.import_module("checks." + pid.lower())
        _CHECK = check = mod.check
        assert check.pid == pid
        if tier == "replay":
            return replay(check, target)
        return explore(check, tier, seed, t0)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def replay(check, path):
    from vt import core
    data = json.load(open(path))
    if "known" in data["spec"]:
        what = None
        try:
            with core.quiet():
                what = dict(check.knowns)[data["spec"]["known"]]()
        except core.Violation as v:
            what = str(v)
        except Exception as e:
            if not core.through_repo(e):
                raise
            what = "%s: %s" % (type(e).__name__, e)
        if what:
            print("VIOLATION property=%s replay=%s" % (check.pid, os.path.abspath(path)))
            print(what)
            return 1
        print("replay of %s: property holds" % path)
        return 0
    case = [c for c in check.cases if c.name == data["case"]][0]
    try:
        for _ in range(20 if "not on every run" in data["message"] else 1):
            core.run_one(case, data["spec"])
    except core.Violation as v:
        print("VIOLATION property=%s replay=%s" % (check.pid, os.path.abspath(path)))
        print(v)
        return 1
    print("replay of %s: property holds" % path)
    return 0


def explore(check, tier, seed, t0):
    from vt import core
    import multiprocessing as mp
    pid = check.pid
    only = os.environ.get("VT_CASE")
    listed = known_findings(pid)
    violations, errors = [], []
    # recorded findings: each reproducer must be listed; a listed finding that no longer fails stays silent
    for kid, fn in check.knowns:
        d = tempfile.mkdtemp(dir=os.environ["VT_SCRATCH"])
        os.chdir(d)
        try:
            with core.quiet():
                what = fn()
        except core.Violation as v:
            what = str(v)
        except Exception as e:
            if core.through_repo(e):
                what = "%s: %s" % (type(e).__name__, e)
            else:
                errors.append("known finding %s: %s" % (kid, "".join(traceback.format_exception(e))[-2000:]))
                continue
        finally:
            os.chdir("/")
        if what:
            text = dict(listed).get(kid)
            if text is not None:
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, text))
            else:
                violations.append(("known:" + kid, {"known": kid}, what))
    with core.quiet():
        for w in check.warmups:
            w()
    tasks = []
    for ci, c in enumerate(check.cases):
        if only and c.name not in only.split(","):
            continue
        for s in range(c.shards):
            tasks.append((ci, tier, seed, s))
    nproc = int(os.environ.get("VT_PROCS", "8"))
    results = []
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(nproc, max(1, len(tasks))), initializer=_init, maxtasksperchild=1)
    try:
        limit = 780 if tier == "quick" else 6 * 3600
        it = pool.imap_unordered(_task, tasks, chunksize=1)
        for _ in tasks:
            try:
                r = it.next(timeout=max(1.0, limit - (time.time() - t0)))
            except mp.TimeoutError:
                errors.append("time budget reached with tasks outstanding (inconclusive)")
                break
            results.append(r)
            if r["violation"]:
                violations.append((r["case"],) + tuple(r["violation"]))
                break
            if r["error"]:
                errors.append("%s: %s" % (r["case"], r["error"]))
    finally:
        pool.terminate()
        pool.join()
    if os.environ.get("VT_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"]):
            print("%6.1fs %-32s n=%d nt=%d labels=%s" % (r["wall"], r["case"], r["evaluations"], len(r["keys"]),
                                                 r["labels"]))
    # ---- evidence
    keys, percase, samples, excl = set(), {}, [], {}
    for r in results:
        for k in r["keys"]:
            keys.add(r["case"] + k)
        p = percase.setdefault(r["case"], dict(evaluations=0, nontrivial=0, labels={}))
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] += len(r["keys"])
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        for k, v in r["excluded"].items():
            excl[k] = excl.get(k, 0) + v
        for s in r["samples"][:1]:
            t = json.dumps(s)
            samples.append(dict(case=r["case"], spec=s if len(t) < 1500 else t[:1500] + "..."))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(r["evaluations"] for r in results), distinct_nontrivial=len(keys),
                            rule=check.rule, samples=samples[:12], per_case=percase, excluded_known=excl),
              assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for case, spec, msg in violations:
            path = os.path.join(VERIF, "replays", "%s_%s_%d.json" % (pid, case.replace(":", "_").replace("/", "_"), seed))
            with open(path, "w") as f:
                json.dump(dict(property=pid, case=case, spec=spec, message=msg, seed=seed), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  case %s: %s" % (case, msg))
            print("  spec: %s" % json.dumps(spec)[:1500])
        return 1
    if errors:
        for e in sorted(set(errors))[:6]:
            print("ERROR:", e[-1800:])
        return 2
    print("%s %s: property held on %d cases (%d distinct non-trivial), %.1f s" % (
        pid, tier, ev["coverage"]["evaluations"], len(keys), ev["wall_s"]))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
