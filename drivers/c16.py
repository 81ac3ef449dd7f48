"""C16: closing terminals by every path, and the waiter against a scripted process and clock."""
from faketty import *
import signal
from dataplicity import m2mmanager

PATHS = ["on_close", "channel", "close", "with", "terminal"]


def gen(rng, n):
    if rng.random() < 0.35:
        return {"kind": "waiter", "exit": rng.choice([None, 0, 1, 2, 4, 7, 8, 9, 20, rng.randrange(40)]), "slow": [rng.choice([0, 0, 0.5, 3, 20, 300]) for _ in range(rng.randrange(6))],
                "killok": rng.random() < 0.8, "gone": rng.choice([None, None, None, 0, 3, 9]), "dies": rng.random() < 0.5}
    k = rng.randrange(1, 4)
    ops = [[rng.randrange(k), rng.choice(PATHS)] for _ in range(rng.randrange(1, 5))]
    return {"kind": "close", "n": k, "ops": ops, "ended": [i for i in range(k) if rng.random() < 0.2], "killfail": [i for i in range(k) if rng.random() < 0.15],
            "threadfail": rng.random() < 0.2, "forkfail": rng.random() < 0.1, "after": rng.random() < 0.3}


def smaller(c):
    if c["kind"] == "close":
        for i in range(len(c["ops"])):
            yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
        for k in ("ended", "killfail"):
            for i in range(len(c[k])):
                yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
        for k in ("threadfail", "forkfail", "after"):
            if c[k]:
                yield dict(c, **{k: False})
        if c["n"] > 1 and all(o[0] < c["n"] - 1 for o in c["ops"]) and all(i < c["n"] - 1 for i in c["ended"] + c["killfail"]):
            yield dict(c, n=c["n"] - 1)
    else:
        for i in range(len(c["slow"])):
            yield dict(c, slow=c["slow"][:i] + c["slow"][i + 1:])


class Threads(object):
    """Collects the threads started; they run only on request."""
    def __enter__(self):
        self.list, self.fail = [], False
        self.old = threading.Thread.start

        def start(th):
            if self.fail:
                raise RuntimeError("can't start new thread")
            self.list.append(th)
        threading.Thread.start = start
        return self

    def __exit__(self, *a):
        threading.Thread.start = self.old


def launch(t, ths, n, limit=9):
    lim = Limiter("terminals", limit)
    term = m2mmanager.Terminal("shell", "bash -i")
    out = []
    for i in range(n):
        ch = Channel()
        m = len(ths.list)
        term.launch(lim, ch)
        if len(ths.list) != m + 1:
            return term, None
        out.append((ths.list[-1], ch))
    return term, out


def close_by(path, term, ch):
    cb = ch.cbs["on_close"]
    p = getattr(cb, "__self__", None)
    try:
        if path == "channel":
            ch.close()
        elif path == "close" and p is not None:
            p.close()
        elif path == "with" and p is not None:
            with p:
                pass
        elif path == "terminal":
            term.close()
        else:
            cb()
    except Exception as e:
        if path == "terminal":
            return "shutting down fails with %r" % (e,)


def check(c):
    return waiter(c) if c["kind"] == "waiter" else closing(c)


def closing(c):
    scripts = {}
    t = TTY(scripts, fork_fail=c["forkfail"])
    res = []
    with t, Threads() as ths:
        term, ps = launch(t, ths, c["n"])
        if ps is None:
            return "no thread for the terminal"
        n0 = len(ths.list)

        def kill(pid, sig):
            if pid - PID0 - 1 in c["killfail"]:
                raise OSError(3, "no such process")
            done.append((pid, sig))
        done = []
        t.on_kill = kill

        def ops():
            ths.fail = c["threadfail"]
            closed = set()
            for i, path in c["ops"]:
                r = close_by(path, term, ps[i][1])
                if r:
                    res.append(r)
                closed |= set(range(c["n"])) if path == "terminal" else {i}
            return closed

        def nest(i):
            try:
                nest_(i)
            except Exception as e:
                res.append("error in the driver: %r" % (e,))

        def nest_(i):
            if i == c["n"]:
                if not c["after"]:
                    res.append(ops())
                return
            if c["forkfail"]:
                try:
                    ps[i][0].run()
                except Exception:
                    pass
                return nest(i + 1)
            if i in c["ended"]:
                scripts[i + 1] = []
                ps[i][0].run()
                nest(i + 1)
            else:
                scripts[i + 1] = [lambda fd: nest(i + 1)]
                ps[i][0].run()
        nest(0)
        if c["after"]:
            res.append(ops())
    for r in res:
        if isinstance(r, str):
            return r
    closed = res[-1]
    if c["forkfail"]:
        return "a terminal without a process signals %r" % (t.kills,) if t.kills or len(ths.list) > n0 else None
    for i in range(c["n"]):
        pid = PID0 + i + 1
        mine = [s for p, s in done if p == pid]
        tried = [s for p, s in t.kills if p == pid]
        if any(s != signal.SIGHUP for s in tried):
            return "signal %r" % (tried,)
        if len(mine) > 1:
            return "process %d got %d hang-ups" % (i, len(mine))
        if i in closed and not tried:
            return "process %d got no hang-up" % i
        if i not in closed and tried:
            return "process %d was signalled without being closed" % i
    if any(not PID0 < p <= PID0 + c["n"] for p, s in t.kills):
        return "another process was signalled: %r" % (t.kills,)
    w = len(ths.list) - n0
    if w != (0 if c["threadfail"] else len(done)):
        return "%d waiters for %d hang-ups" % (w, len(done))


class End(BaseException):
    pass


def waiter(c):
    t = TTY({1: []})
    scripts = t.script
    with t, Threads() as ths:
        term, ps = launch(t, ths, 1)
        n0 = len(ths.list)
        scripts[1] = [lambda fd: ps[0][1].close()]
        ps[0][0].run()
        if len(ths.list) != n0 + 1:
            return "no waiter"
        pid = PID0 + 1
        st = {"now": 1000.0, "reaped": False, "n": 0, "bad": None, "killed": False, "sleeps": 0, "kills": 0}
        slow = list(c["slow"])

        def bad(s):
            st["bad"] = st["bad"] or s
            raise End()

        def sleep(n):
            if st["reaped"]:
                bad("the waiter goes on after the process was reaped")
            st["sleeps"] += 1
            if st["sleeps"] > 50000:
                raise End()
            st["now"] += n + (slow.pop(0) if slow else 0)

        def waitpid(p, fl):
            if p != pid:
                bad("waits for process %r" % (p,))
            if st["reaped"]:
                bad("waits for a reaped process")
            st["n"] += 1
            if c["gone"] is not None and st["n"] > c["gone"]:
                st["reaped"] = True
                raise OSError(10, "no child")
            if st["killed"] and c["dies"] or c["exit"] is not None and st["n"] > c["exit"]:
                st["reaped"] = True
                return (pid, 0)
            return (0, 0)

        def kill(p, s):
            if p != pid:
                bad("process %r is killed" % (p,))
            if s != signal.SIGKILL:
                bad("signal %r is sent" % (s,))
            if st["reaped"]:
                bad("a reaped process is killed")
            st["kills"] += 1
            if st["kills"] > 1:
                bad("killed twice")
            if st["now"] - 1000.0 < 15:
                bad("killed after %.1f seconds" % (st["now"] - 1000.0))
            st["killed"] = c["killok"]
            if not c["killok"]:
                raise OSError(3, "no such process")
        import time as T
        saved = T.sleep, T.time, os.waitpid, os.kill
        T.sleep, T.time, os.waitpid, os.kill = sleep, lambda: st["now"], waitpid, kill
        try:
            ths.list[-1].run()
        except End:
            pass
        except Exception:
            pass
        finally:
            T.sleep, T.time, os.waitpid, os.kill = saved
    return st["bad"]
