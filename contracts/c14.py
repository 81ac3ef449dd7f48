"""C14: the command service forwards all of a command's output and always finishes."""
from .service import *
from vp import env_os

CS = "dataplicity.m2m.commandservice"
OUT, ERR = 1001, 1002


def command(ex):
    """A command: any output on both pipes in any pieces, any end; every system call may fail."""
    e = ex.task.ext
    ex.g.update(rd=b"", eof=False, due=False, rdyerr=False, sysfail=False, launched=False, dead=False, signalled=False)
    cmd = ex.fresh("command", "str")

    def popen(ex, a, k):
        c = a[0] if a else k.get("args")
        ex.prove(yes(ex, isval(ex, c, cmd)) is True or isval(ex, c, cmd), "the command asked for is run")
        ex.prove(k.get("shell") is True, "the command is run by the shell")
        ex.prove(k.get("stdout") == -1, "the command's output is collected")
        ex.prove(k.get("stderr") != -2, "the error output is kept apart")
        ex.prove(ex.g["launched"] is False, "the command is run once")
        if ex.choose(2, "launching fails"):
            ex.anyexc("popen")
        ex.g["launched"] = True
        o, r = ex.opaque("$pipe", fd=OUT), ex.opaque("$pipe", fd=ERR)
        ex.g["evp"] = len(ex.g["ev"])
        return ex.opaque("$proc", stdout=o, stderr=r if k.get("stderr") == -1 else None, stdin=None, pid=ex.fresh("pid", "int"))
    e["subprocess.Popen"] = popen
    e["new:subprocess.Popen"] = popen
    e["$pipe.fileno"] = lambda ex, ref, a, k: ex.h(ref).fields["fd"]
    e["$pipe.close"] = lambda ex, ref, a, k: None

    def poll(ex, ref, a, k):
        if ex.g["dead"] is False and not ex.choose(2, "the process has ended"):
            return None
        ex.g["dead"] = True
        return ex.fresh("returncode", "int")
    e["$proc.poll"] = poll
    e["$proc.get:returncode"] = lambda ex, ref, a, k: ex.fresh("returncode", "int") if ex.g["dead"] is True else None

    def wait(ex, ref, a, k):
        if (a or k) and ex.choose(2, "still running"):
            ex.exc("subprocess.TimeoutExpired", "x", 1)
        ex.prove(ex.g["dead"] is True or ex.g["signalled"] is True or bool(a or k), "the service does not wait for an unsignalled process")
        ex.g["dead"] = True
        return ex.fresh("returncode", "int")
    e["$proc.wait"] = wait

    def kill(ex, ref, a, k):
        ex.g["signalled"] = True
        if ex.choose(2, "signalling fails"):
            env_os.oserr(ex, "kill")
    for n in ("kill", "terminate", "send_signal"):
        e["$proc." + n] = kill

    def read(ex, fd, n):
        out = ex.branch(term(fd) == OUT)
        g = ex.g
        ex.prove(out or ex.branch(term(fd) == ERR), "only the command's pipes are read")
        b = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v.t
        ex.prove(b(g["due" if out else "rdyerr"]), "a pipe is read only when it is ready")
        g["due" if out else "rdyerr"] = False
        if ex.choose(2, "read fails"):
            g["sysfail"] = True
            env_os.oserr(ex, "read")
        if ex.choose(2, "end of file"):
            if out:
                g["eof"] = True
            return b""
        c = ex.fresh("output" if out else "error output", "bytes")
        ex.assume(z3.And(z3.Length(c.t) <= term(n), z3.Length(c.t) > 0))
        if out:
            cat_g(ex, "rd", c.t)
        return c
    ex.task.read_data = read

    def result(ex, ref, out):
        g = ex.g
        b = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v.t
        ex.prove(z3.Not(b(g["due"])), "output that is ready is read before waiting again, also on a hang-up")
        ex.prove(z3.Not(b(g["eof"])), "the service stops when the output ends")
        reported = {}
        for fd, m in out:
            ex.assume((m.t / 32) % 2 == 0)
            reported[OUT if ex.branch(term(fd) == OUT) else ERR] = True
        f = ex.h(ref).fields
        wanted = [i for i in range(f["n"]) if ex.branch(term(f["fd%d" % i]) == OUT)]
        ex.prove(len(wanted) == 1 and ex.truth(f["reg%d" % wanted[0]]) and f["ev%d" % wanted[0]] & 1 == 1, "the output is waited for")
        g["due"], g["rdyerr"] = OUT in reported, ERR in reported
    ex.task.poll_result = result

    def hook(ex, ref):
        if ex.choose(2, "poll fails"):
            ex.g["sysfail"] = True
            env_os.oserr(ex, "poll")
        ex.task.nofail = True
        return None
    ex.task.poll_hook = hook
    return cmd


def t_run(ex):
    ch = channel(ex)
    cmd = command(ex)
    th = service(ex, CS + ".CommandService", ch, cmd)
    if th is None:
        ex.eng.reach(ex, "not started")
        return
    n0 = len(ex.g["ev"])
    outcome(ex, lambda: thread_main(ex, th))
    g = ex.g
    flag = lambda n: g[n] is True or (g[n] is not False and ex.branch(g[n].t))
    ev = g["ev"][n0:]
    ex.prove([x[0] for x in ev].count("close") == 1, "the channel is closed")
    ex.prove(any(x[0] == "control" and (control_is(ex, x[1], service="command", type="complete") or control_is(ex, x[1], service="command", type="error")) for x in ev), "a control message tells the outcome")
    got, want = term(g["wr"]), term(g["rd"])
    ex.prove(z3.PrefixOf(got, want), "only the command's output is written, in order")
    if not flag("launched"):
        ex.prove(any(x[0] == "control" and control_is(ex, x[1], type="error") for x in ev), "a command that cannot be run is reported")
        ex.eng.reach(ex, "not launched")
        return
    ex.prove(flag("dead") or flag("signalled"), "no running process is left unsignalled")
    if flag("sysfail") or flag("wrfail"):
        ex.eng.reach(ex, "broken")
    elif flag("observed"):
        ex.eng.reach(ex, "channel closed")
    else:
        ex.prove(flag("eof"), "the output is read to its end")
        ex.prove(got == want, "all of the output is written")
        ex.eng.reach(ex, "complete")


def cand_run(ex, lv):
    if "rdyerr" not in lv.g:
        return []
    b = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v.t
    g = lv.g
    out = [("wr = rd", term(g["wr"]) == term(g["rd"]))]
    for n in ("due", "eof", "sysfail", "wrfail", "observed", "dead", "signalled"):
        out.append(("not " + n, z3.Not(b(g[n]))))
        for k, v in sorted(lv.locals.items()):
            if kind_of(v) == "bool":
                out.append(("%s -> %s" % (n, k), z3.Implies(b(g[n]), b(v))))
                out.append(("%s -> not %s" % (n, k), z3.Implies(b(g[n]), z3.Not(b(v)))))
                out.append(("%s -> %s" % (k, n), z3.Implies(b(v), b(g[n]))))
                out.append(("not %s -> %s" % (k, n), z3.Implies(z3.Not(b(v)), b(g[n]))))
    for k, v in sorted(lv.locals.items()):
        if kind_of(v) == "bytes":
            out.append(("wr+%s = rd" % k, T.cat(term(g["wr"]), term(v)) == term(g["rd"])))
    return out


def tasks(w):
    t = Task("run", t_run, CS + ":CommandService._run_service", candidates=[cand_run], must_reach=["not started", "not launched", "broken", "channel closed", "complete"],
             requires="any command; any output on both pipes in any pieces with any events; any failing system call; a channel closed at any moment",
             ensures=["written = stdout read; complete unless closed or a system call failed", "no wait after the end of the output or with output unread", "outcome control, one close", "process ended or signalled"])
    return [t]


ASSUMPTIONS = ["a channel's send_control, close and is_closed do not fail", "poll() reports ready pipes; a read of a ready pipe returns at least one byte unless the other end is closed (POSIX)",
               "a command that keeps running without output keeps the service waiting until the channel is closed"]
