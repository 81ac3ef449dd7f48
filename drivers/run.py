"""Concrete side of a check: runs a property's driver on the real code with random (seeded) and systematic cases.
A driver module defines  gen(rng, n) -> case (JSON) or None  and  check(case) -> None or text of the violation."""
import sys, os, json, time, random, argparse, importlib, signal, traceback, logging, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
import warnings
warnings.simplefilter("ignore")


class CaseTimeout(BaseException):
    pass


def on_alarm(sig, frame):
    raise CaseTimeout()


def run_case(mod, case, limit):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        return mod.check(case)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        root = os.path.realpath(os.environ.get("VP_REPO", "/repo")) + os.sep
        if tb and os.path.realpath(tb[-1].filename).startswith(root):
            return "unexpected %r at %s:%d" % (e, tb[-1].filename, tb[-1].lineno)
        raise
    except CaseTimeout:
        return "does not finish (no result after %d s)" % limit
    finally:
        signal.alarm(0)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("pid")
    a.add_argument("--seconds", type=float, default=4)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--out", default=None)
    a.add_argument("--replay", default=None)
    o = a.parse_args()
    scratch = tempfile.mkdtemp(prefix="vp-driver-")
    os.environ["VP_SCRATCH"] = scratch
    os.chdir(scratch)
    real = os.dup(1)
    rc = 0
    try:
        mod = importlib.import_module(o.pid.lower())
        import dataplicity
        assert os.path.realpath(dataplicity.__file__).startswith(os.path.realpath(os.environ.get("VP_REPO", "/repo"))), dataplicity.__file__
        limit = getattr(mod, "LIMIT", 20)
        if o.replay:
            with open(o.replay) as f:
                case = json.load(f)["input"]
            r = run_case(mod, case, limit)
            print("case: %s" % json.dumps(case))
            print("violates %s: %s" % (o.pid, r) if r else "no violation")
            rc = 1 if r else 0
        else:
            rng = random.Random(o.seed)
            t0, n, seen, found = time.time(), 0, set(), None
            samples = []
            while time.time() - t0 < o.seconds or n < getattr(mod, "MIN_CASES", 1):
                if time.time() - t0 > o.seconds * 2 + 60:
                    break
                case = mod.gen(rng, n)
                if case is None:
                    break
                case = json.loads(json.dumps(case))
                n += 1
                seen.add(json.dumps(case, sort_keys=True))
                r = run_case(mod, case, limit)
                if len(samples) < 2:
                    samples.append(case)
                if r:
                    r2 = run_case(mod, case, limit)      # must fail again to count
                    if r2:
                        case, r = shrink(mod, case, r2, limit, time.time() + 20)
                        found = (case, r)
                        break
            d = {"driver": "ran", "cases": n, "distinct": len(seen), "seconds": round(time.time() - t0, 2), "samples": samples}
            if found:
                d.update(replay=True, case=found[0], what=found[1])
            os.write(real, (json.dumps(d) + "\n").encode())
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def shrink(mod, case, r, limit, end):
    f = getattr(mod, "smaller", None)
    if f is None:
        return case, r
    again = True
    while again and time.time() < end:
        again = False
        for c in f(case):
            if time.time() > end:
                break
            try:
                x = run_case(mod, c, limit)
            except Exception:
                continue
            if x:
                case, r, again = c, x, True
                break
    return case, r


if __name__ == "__main__":
    main()
