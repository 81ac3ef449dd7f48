"""C16: a terminal's process gets one hang-up and one waiter; the waiter kills late, once, and never a reaped process."""
from .term import *
from vp.env import thread_main
from vp.env_os import calls, rec
import signal

REQ = "a terminal built by the real constructor and started by the real run(); os.kill and starting threads may fail"
PATHS = ["on_close callback", "channel.close", "close()", "leaving the context", "Terminal.close"]


def setup(ex):
    e = ex.task.ext
    ex.g["attempts"], ex.g["startfail"] = (), ()

    def kill(ex, a, k):
        ex.g["attempts"] = ex.g["attempts"] + ((a[0], a[1]),)
        if ex.choose(2, "kill fails"):
            ex.exc("builtins.ProcessLookupError", "no such process")
        rec(ex, "kill", a[0], a[1])
    e["os.kill"] = kill


def close_by(ex, which, p, ch, term_):
    if which == 0:
        return outcome(ex, lambda: ex.call(cb(ex, ch, "on_close"), []))
    if which == 1:
        return outcome(ex, lambda: ex.call(ex.getattr(ch, "close"), []))
    if which == 2:
        return outcome(ex, lambda: ex.call(method(ex, p, "close"), []))
    if which == 3:
        def f():
            r = ex.call(method(ex, p, "__enter__"), [])
            ex.prove(r == p, "entering the context gives the process")
            ex.call(method(ex, p, "__exit__"), [None, None, None])
        return outcome(ex, f)
    return outcome(ex, lambda: ex.call(method(ex, term_, "close"), []))


def terminal_with(ex, n=1):
    """A real Terminal that launched n processes: (terminal, [(process thread, channel)])"""
    term_ = ex.call(ex.w.cls("dataplicity.m2mmanager.Terminal"), ["shell", "bash -i"])
    lim = limiter(ex)
    out = []
    for i in range(n):
        ch = channel(ex, may_fail=False)
        k, v = outcome(ex, lambda: ex.call(method(ex, term_, "launch"), [lim, ch]))
        th = ex.g.get("started", ())
        if k != "ok" or len(th) != i + 1:
            raise PathEnd()
        out.append((th[-1], ch))
    return term_, out


def owner(ex, ch):
    """The process a channel's callback belongs to."""
    f = cb(ex, ch, "on_close")
    while hasattr(f, "self_") is False and hasattr(f, "f"):
        f = f.f
    return f.self_


def signals(ex, pid, name):
    for a in ex.g["attempts"]:
        ex.prove(conj(isval(ex, a[0], pid), isval(ex, a[1], int(signal.SIGHUP))), "only this terminal's process is signalled, with a hang-up")
    ok = calls(ex, "kill")
    ex.prove(len(ok) <= 1, "the process gets at most one hang-up")
    return ok


def fields(ex, p):
    return tuple(sorted((k, repr(v)) for k, v in ex.h(p).fields.items()))


def t_close(ex):
    setup(ex)
    term_, [(th, ch)] = terminal_with(ex)
    p = owner(ex, ch)
    n0 = len(ex.g["started"])
    first, second = ex.choose(5, "first close"), ex.choose(5, "second close")
    when = ex.choose(2, "closed while it runs / after its output ended")

    def check1(pid):
        ok = signals(ex, pid, "closing a running terminal sends exactly one hang-up")
        ex.prove(len(ex.g["attempts"]) >= 1, "closing a running terminal sends its process a hang-up")
        if ok:
            waiters(ex, n0)
        else:
            ex.prove(len(ex.g["started"]) == n0, "no waiter without a hang-up")

    def waiters(ex, n0):
        w = ex.g["started"][n0:]
        failed = any(k == "choice:thread start fails" and v == 1 for k, v in choices(ex))
        ex.prove(len(w) == 1 or failed and len(w) == 0, "exactly one waiter is started")

    def again(pid):
        n = len(calls(ex, "kill"))
        before = fields(ex, p)
        w = len(ex.g["started"])
        close_by(ex, second, p, ch, term_)
        signals(ex, pid, "")
        ex.prove(len(ex.g["started"]) <= n0 + 1, "at most one waiter is started")
        if n:
            ex.prove(len(ex.g["attempts"]) == 1, "closing again signals nothing")
            ex.prove(len(ex.g["started"]) == w, "closing again starts no waiter")
            ex.prove(fields(ex, p) == before, "closing again leaves the terminal as it is")
        ex.eng.reach(ex, "again")
    def hook(ex, ref):
        if when == 0:
            pid = calls(ex, "fork")[-1][1]
            close_by(ex, first, p, ch, term_)
            check1(pid)
            ex.eng.reach(ex, "closed")
            again(pid)
            raise PathEnd()
    ex.task.poll_hook = hook
    ex.task.read_data = lambda ex, fd, n: ex.fresh("output", "bytes")
    outcome(ex, lambda: thread_main(ex, th))
    if ex.g.get("child"):
        raise PathEnd()                   # the forked child, where the command cannot be executed
    f = calls(ex, "fork")
    if not f:
        for w in (first, second):
            close_by(ex, w, p, ch, term_)
        ex.prove(ex.g["attempts"] == (), "a terminal without a process signals nothing")
        ex.prove(len(ex.g["started"]) == n0, "a terminal without a process starts no waiter")
        ex.eng.reach(ex, "no process")
        return
    close_by(ex, first, p, ch, term_)
    check1(f[0][1])
    again(f[0][1])
    ex.eng.reach(ex, "after the end")


def choices(ex):
    return [(k, v) for k, v in ex.inputs]


def t_waiter(ex):
    """The thread a close starts, run to its end."""
    setup(ex)
    e = ex.task.ext
    term_, [(th, ch)] = terminal_with(ex)
    p = owner(ex, ch)
    n0 = len(ex.g["started"])

    def hook(ex, ref):
        close_by(ex, 2, p, ch, term_)
        raise_end(ex)
        return None

    def raise_end(ex):
        w = ex.g["started"][n0:]
        if len(w) != 1:
            raise PathEnd()
        pid = calls(ex, "fork")[-1][1]
        waiter(ex, w[0], pid)
        raise PathEnd()
    ex.task.poll_hook = hook
    outcome(ex, lambda: thread_main(ex, th))
    raise PathEnd()


def waiter(ex, th, pid):
    e = ex.task.ext
    now = ex.fresh("now", "real")
    ex.g["now"], ex.g["t0"], ex.g["kills"], ex.g["reaped"] = now, now, 0, False

    def tick(ex, least):
        n = ex.fresh("clock", "real")
        ex.assume(n.t >= term(ex.g["now"]) + least)
        ex.g["now"] = n
        return n

    def alive(ex):
        return z3.Not(ex.truth_term(ex.g["reaped"])) if not isinstance(ex.g["reaped"], bool) else z3.BoolVal(not ex.g["reaped"])

    def sleep(ex, a, k):
        ex.prove(alive(ex), "the waiter stops once the process was reaped")
        d = ex.expand(a[0])
        tick(ex, term(d) if kind_of(d) == "real" else z3.ToReal(term(d)))

    def waitpid(ex, a, k):
        ex.prove(isval(ex, a[0], pid), "the waiter waits for its own process only")
        ex.prove(alive(ex), "a reaped process is not waited for")
        o = ex.choose(3, "waitpid")
        tick(ex, 0)
        if o == 2:
            ex.g["reaped"] = True
            ex.exc("builtins.ChildProcessError", "no child processes")
        if o == 0:
            if not ex.branch(term(a[1]) % 2 == 1):
                ex.g["reaped"] = True
                return (pid, ex.fresh("status", "int"))
            return (0, 0)
        ex.g["reaped"] = True
        ex.eng.reach(ex, "reaped")
        return (pid, ex.fresh("status", "int"))

    def kill(ex, a, k):
        ex.prove(isval(ex, a[0], pid), "only this process is killed")
        ex.prove(isval(ex, a[1], int(signal.SIGKILL)), "it is killed by SIGKILL")
        ex.prove(alive(ex), "a reaped process is never killed")
        ex.prove(term(ex.g["kills"]) == 0, "at most one kill is sent")
        ex.prove(term(ex.g["now"]) - term(ex.g["t0"]) >= 15, "a kill is sent only after at least 15 seconds")
        ex.g["kills"] = mk("int", z3.simplify(term(ex.g["kills"]) + 1))
        ex.eng.reach(ex, "killed")
        if ex.choose(2, "kill fails"):
            ex.exc("builtins.ProcessLookupError", "no such process")
    e.update({"time.time": lambda ex, a, k: tick(ex, 0), "time.sleep": sleep, "os.waitpid": waitpid, "os.kill": kill, "time.monotonic": lambda ex, a, k: tick(ex, 0)})
    outcome(ex, lambda: thread_main(ex, th))
    ex.eng.reach(ex, "waiter ends")


def cand_waiter(ex, lv):
    if "kills" not in lv.g:
        return []
    kl = term(lv.g["kills"])
    rp = lv.g["reaped"]
    rp = z3.BoolVal(rp) if isinstance(rp, bool) else rp.t
    out = [("kills is 0", kl == 0), ("kills is 0 or 1", z3.And(kl >= 0, kl <= 1)), ("not reaped", z3.Not(rp)), ("now >= t0", term(lv.g["now"]) >= term(lv.g["t0"]))]
    for k, v in lv.locals.items():
        if kind_of(v) == "bool":
            t = z3.BoolVal(v) if isinstance(v, bool) else v.t
            out += [("%s iff a kill was sent" % k, t == (kl >= 1)), ("not %s iff a kill was sent" % k, z3.Not(t) == (kl >= 1))]
        if kind_of(v) == "real":
            out += [("now >= %s" % k, term(lv.g["now"]) >= term(v)), ("%s >= t0" % k, term(v) >= term(lv.g["t0"]))]
    return out


def t_shutdown(n):
    def body(ex):
        """Terminal.close with n running processes; some may have been closed before."""
        setup(ex)
        term_, ps = terminal_with(ex, n)
        ex.g["depth"] = 0

        def hook(ex, ref):
            ex.g["depth"] = d = ex.g["depth"] + 1
            if d < n:
                th = ps[d][0]
                outcome(ex, lambda: thread_main(ex, th))
                raise PathEnd()
            go(ex)
            raise PathEnd()

        def go(ex):
            pids = [f[1] for f in calls(ex, "fork")]
            for a in range(len(pids)):
                for b in range(a):
                    ex.assume(pids[a].t != pids[b].t)
            early = ex.choose(n + 1, "closed before")
            if early < n:
                close_by(ex, 0, None, ps[early][1], None)
            k, v = close_by(ex, 4, None, None, term_)
            ex.prove(k == "ok", "shutting a terminal down does not fail")
            for i, pid in enumerate(pids):
                hits = [a for a in ex.g["attempts"] if ex.branch(term(a[0]) == pid.t)]
                ex.prove(len(hits) >= 1, "every process of a terminal is closed, even if closing another one fails")
                ok = [c for c in calls(ex, "kill") if ex.branch(term(c[1]) == pid.t)]
                ex.prove(len(ok) <= 1, "the process gets at most one hang-up")
            for a in ex.g["attempts"]:
                ex.prove(z3.Or(*[term(a[0]) == p.t for p in pids]), "only this terminal's processes are signalled")
                ex.prove(isval(ex, a[1], int(signal.SIGHUP)), "with a hang-up")
            m = len(ex.g["attempts"])
            if len(calls(ex, "kill")) == n:
                close_by(ex, 4, None, None, term_)
                ex.prove(len(ex.g["attempts"]) == m, "shutting down again signals nothing")
            ex.eng.reach(ex, "shut down")
        ex.task.poll_hook = hook
        outcome(ex, lambda: thread_main(ex, ps[0][0]))
        raise PathEnd()
    return body


def tasks(w):
    RPr = RP + ":RemoteProcess.close"
    out = [
        Task("close a terminal", t_close, RPr, must_reach=["closed", "again", "no process", "after the end"], requires=REQ,
             ensures=["one hang-up, one waiter, by any two of five paths", "a further close changes nothing (so any number of closes)"]),
        Task("the waiter", t_waiter, RP + ":PidWaitThread.run", candidates=[cand_waiter], must_reach=["reaped", "killed", "waiter ends"], requires="any process behaviour, any clock",
             ensures=["kill <= 1, after 15 s, never after reaping"])]
    for n in (1, 2, 3):
        out.append(Task("shut a terminal down (%d processes, bounded)" % n, t_shutdown(n), "dataplicity.m2mmanager:Terminal.close", must_reach=["shut down"], requires=REQ,
                        ensures=["every process is closed"]))
    return out


ASSUMPTIONS = ["closes of one terminal come one after another", "the clock does not run backwards", "process ids of running processes differ",
               "Terminal.close is checked for one, two and three processes (bounded)"]
