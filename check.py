#!/usr/bin/env python3-vt
"""check.py <property id> [quick|thorough]: decides one property of /repo's current working tree.

1. imports the package under its own interpreter and reads its current source (vp.world);
2. runs every verification task (contract) of the property: all obligations must be discharged;
3. runs the property's concrete driver against the real code (refutation side, bounded, never counted as proof);
4. writes evidence/<id>.json; exit 0, or exit 1 with a VIOLATION line."""
import sys, os, json, time, importlib, subprocess, resource, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
resource.setrlimit(resource.RLIMIT_STACK, (min(1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1]) if resource.getrlimit(resource.RLIMIT_STACK)[1] != -1 else 1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1]))
PYPY = "/opt/venv/bin/python"
REPO = os.environ.get("VP_REPO", "/repo")
WORKERS = 8


def run_tasks(world, tasks, scratch, budget, first=False):
    """Every task in a forked process of its own; results come back as JSON files."""
    from vp.engine import Engine
    todo = sorted(enumerate(tasks), key=lambda it: -getattr(it[1], "weight", 1))
    running, results = {}, {}
    t_end = time.time() + budget
    while todo or running:
        while todo and len(running) < WORKERS:
            i, t = todo.pop(0)
            f = os.path.join(scratch, "task%d.json" % i)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                    import threading
                    threading.stack_size(512 << 20)
                    box = []

                    def go():
                        try:
                            eng = Engine(world, t, deadline=min(t_end, time.time() + t.time_limit))
                            eng.stop_on_first = eng.stop_on_first or first
                            r = eng.run()
                        except BaseException as e:
                            r = crashed(t, "%s\n%s" % (e, traceback.format_exc()[-1500:]))
                        box.append(r)
                    th = threading.Thread(target=go)
                    th.start()
                    th.join()
                    with open(f + ".tmp", "w") as fh:
                        json.dump(box[0], fh, default=str)
                    os.rename(f + ".tmp", f)
                finally:
                    os._exit(0)
            running[pid] = (i, t, f, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for p, (i, t, f, s) in running.items():
                if time.time() > t_end + (10 if first else 60):
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.01)
            continue
        if pid in running:
            i, t, f, s = running.pop(pid)
            try:
                with open(f) as fh:
                    results[i] = json.load(fh)
            except Exception:
                results[i] = crashed(t, "the verification process ended without a result (status %s)" % st)
            results[i]["wall"] = time.time() - s
            if results[i]["failures"]:
                t_end = min(t_end, time.time() + (30 if first else 150))
    return [results[i] for i in range(len(tasks))]


def crashed(t, why):
    return {"task": t.name, "target": t.target, "requires": t.requires, "ensures": t.ensures, "bounded": t.bounded, "obligations": {},
            "failures": [{"obligation": "verifier", "kind": "internal", "detail": why, "where": "", "model": None, "path": []}],
            "stats": {}, "functions": [], "contracts_used": [], "env": [], "loops": 0}


def run_driver(pid, seconds, seed, outdir):
    """The concrete side: returns (summary dict, replay path or None, description)."""
    if not os.path.exists(os.path.join(HERE, "drivers", pid.lower() + ".py")):
        return {"driver": "none"}, None, None
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", PYTHONHASHSEED="0", VP_REPO=REPO)
    for k in list(env):
        if k.startswith("DATAPLICITY_"):
            del env[k]
    p = subprocess.Popen([PYPY, os.path.join(HERE, "drivers", "run.py"), pid, "--seconds", str(seconds), "--seed", str(seed), "--out", outdir],
                         env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=seconds * 2 + 120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return {"driver": "timed out", "stderr": err.decode("utf-8", "replace")[-1500:]}, None, None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        d = json.loads(out.decode("utf-8", "replace").strip().split("\n")[-1])
    except Exception:
        return {"driver": "failed", "status": p.returncode, "stderr": err.decode("utf-8", "replace")[-3000:]}, None, None
    return d, d.get("replay"), d.get("what")


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    out.append(line.strip()[len("finding: property=%s " % pid):])
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    import tempfile, shutil
    scratch = tempfile.mkdtemp(prefix="vp-check-")
    try:
        rc = decide(pid, tier, seed, t0, evdir, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, tier, seed, t0, evdir, scratch):
    from vp.world import World
    quick = tier != "thorough"
    mod = importlib.import_module("contracts." + pid.lower())
    setup_fail = None
    tasks, results = [], []
    try:
        w = World(REPO)
    except RuntimeError as e:
        sys.stderr.write("the package cannot be imported:\n%s\n" % e)
        return 2
    try:
        tasks = list(mod.tasks(w))
        for dep in getattr(mod, "DEPS", []):
            m, _, names = dep.partition(":")
            for t in importlib.import_module("contracts." + m).tasks(w):
                if not names or t.name in names.split(","):
                    t.name = "%s (%s)" % (t.name, m.upper())
                    tasks.append(t)
    except Exception as e:
        setup_fail = "the contracts could not be attached to the current source: %s: %s" % (type(e).__name__, e)
        sys.stderr.write(traceback.format_exc())
    only = os.environ.get("VP_TASK")
    if only:
        tasks = [t for t in tasks if only in t.name]
    if not quick:
        for t in tasks:
            t.prove_timeout *= 3
            t.time_limit *= 3
    seconds = getattr(mod, "DRIVER_SECONDS", 4) if quick else 120
    if os.environ.get("VP_DRIVER_SECONDS"):
        seconds = float(os.environ["VP_DRIVER_SECONDS"])

    def drive(s):
        return ({"driver": "skipped"}, None, None) if os.environ.get("VP_NO_DRIVER") else run_driver(pid, s, seed, evdir)
    driver, replay, what = drive(seconds)
    first = bool(replay)         # with a failing input in hand the first failed obligation of each contract is enough
    if tasks and not setup_fail:
        results = run_tasks(w, tasks, scratch, 150 if first else 600 if quick else 3000, first)
        for _ in range(4):       # a shared field changed by one function of a group is arbitrary in all of them
            again = []
            for i, t in enumerate(tasks):
                if t.volgroup:
                    vol = set(v for u, r in zip(tasks, results) if u.volgroup == t.volgroup for v in r.get("volatile", ()))
                    if vol - set(results[i].get("volatile", ())):
                        t.volatile = vol
                        again.append(i)
            if not again:
                break
            for i, r in zip(again, run_tasks(w, [tasks[i] for i in again], scratch, 100 if first else 300, first)):
                results[i] = r
    failures = []
    if setup_fail:
        failures.append({"obligation": "contracts", "kind": "setup", "detail": setup_fail, "where": "", "model": None, "path": [], "task": "setup"})
    for r in results:
        for f in r["failures"]:
            f["task"] = r["task"]
            failures.append(f)
    if failures and not replay and not os.environ.get("VP_DRIVER_SECONDS"):
        driver, replay, what = drive(max(seconds, 40))
    if driver.get("driver") in ("failed", "timed out") and not failures:
        sys.stderr.write("driver: %s\n" % json.dumps(driver, indent=1))
    nobl = sum(o["instances"] for r in results for o in r["obligations"].values())
    ndis = sum(o["proved"] for r in results for o in r["obligations"].values())
    backends = {}
    for r in results:
        for o in r["obligations"].values():
            for b, n in o["backends"].items():
                backends[b] = backends.get(b, 0) + n
    solver = sum(r["stats"].get("z3_time", 0) + r["stats"].get("cvc5_time", 0) for r in results)
    known = known_findings(pid)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    violation = bool(failures) or bool(replay)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "proof",
          "coverage": {
              "obligations": nobl, "discharged": ndis,
              "checker_cmd": "python3-vt check.py %s %s" % (pid, tier),
              "trusted_base": sorted(set(["vp/ (verification-condition generator for the Python subset; semantics of Python as encoded there)", "z3 4.x via python3-vt", "cvc5 1.1.2 (fallback)",
                                          "CPython ast of /repo's source; PyPy import-time dump of module-level state"]
                                         + ["environment contract: " + e for r in results for e in r["env"]])),
              "named_obligations": [{"task": r["task"], "function": r["target"], "bounded": r["bounded"], "requires": r["requires"], "ensures": r["ensures"],
                                     "obligations": {k: {"instances": o["instances"], "discharged": o["proved"], "backends": o["backends"], "time_s": round(o["time"], 3)} for k, o in r["obligations"].items()},
                                     "paths": r["stats"].get("paths"), "completed_paths": r["stats"].get("completed"), "loops": r["loops"], "wall_s": round(r.get("wall", 0), 2)} for r in results],
              "functions_under_contract": sorted(set(r["target"] for r in results if r["target"])),
              "functions_executed_symbolically": sorted(set(f for r in results for f in r["functions"])),
              "contracts_used_at_calls": sorted(set(str(c) for r in results for c in r["contracts_used"])),
              "backends": backends, "solver_time_s": round(solver, 2),
              "bounded_tasks": [r["task"] for r in results if r["bounded"]],
              "driver_bounded_not_proof": driver},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(failures) + bool(replay)}
    rp = None
    if violation:
        rp = os.path.join(evdir, pid + ".replay.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "input": driver.get("case") if replay else None, "what": what,
                       "how": "PYTHONPATH=/repo %s %s/drivers/run.py %s --replay %s" % (PYPY, HERE, pid, rp) if replay else "no failing input found",
                       "failed_obligations": failures[:60], "seed": seed}, f, indent=1, default=str)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = {}
    for f in failures:
        k = (f["task"], f["obligation"], f["kind"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] == 1 and len(seen) <= 12:
            print("FAILED OBLIGATION task=%s | %s | %s | %s %s" % (f["task"], f["obligation"], f["kind"], f["detail"][:300].replace("\n", " "), f["where"]))
    print("%s: %d/%d obligations discharged in %d tasks, solver %.1fs, driver %s, %.1fs"
          % (pid, ndis, nobl, len(results), solver, {k: v for k, v in driver.items() if k in ("driver", "cases", "status", "what")}, time.time() - t0))
    if replay:
        print("concrete failure: %s" % what)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if failures:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        return 1
    return 0


COMMON_ASSUMPTIONS = [
    "Python integers are unbounded; no MemoryError or RecursionError; no asynchronous exceptions (KeyboardInterrupt, signals) inside the functions verified",
    "single attribute reads and writes are atomic (as under the interpreter's lock); interleavings are considered at lock operations and accesses to shared fields",
    "library functions satisfy the environment contracts listed in trusted_base (vp/env.py and the contract file)",
    "logging calls return normally",
]

if __name__ == "__main__":
    main()
