"""C10: every service slot taken is released exactly once and refusals are reported."""
from .pf import *
from vp import env_os

BUSY = b"HTTP/1.1 503"


def chan(ex):
    """A channel whose every operation may fail while the service's thread runs."""
    e, g = ex.task.ext, ex.g
    g.update(ev=(), inthread=False, busy=False)

    def op(name):
        def f(ex, ref, a, k):
            if ex.g["inthread"] is True:
                ex.prove("decrement" not in ex.g["slots"], "a service does nothing after it has released its slot")
                if ex.choose(2, "channel %s fails" % name):
                    ex.anyexc(name)
            else:
                ex.prove(not any(x[0] == "close" for x in ex.g["ev"]), "nothing follows the closing of the channel")
                ex.g["ev"] = ex.g["ev"] + ((name,) + tuple(ex.expand(x) for x in list(a) + list(k.values())),)
        return f
    for n in ("write", "close", "send_control"):
        e["$chan." + n] = op(n)
    e["$chan.set_callbacks"] = lambda ex, ref, a, k: None
    e["$chan.get:is_closed"] = e["$chan.get:_closed"] = lambda ex, ref, a, k: ex.fresh("closed", "bool")
    return ex.opaque("$chan", number=ex.fresh("number", "int"))


def lifecycle(ex, start, told, one=True):
    """start() asks for the service; told(ev): the refusal is reported properly."""
    ex.g.setdefault("slots", ())
    n = lambda: (ex.g["slots"].count("increment"), ex.g["slots"].count("decrement"))

    def on_start(ex, a, k):
        i, d = n()
        ex.prove(i - d == 1, "a service's thread starts with its slot taken")
    ex.g["$on_start"] = HostFn("on_start", on_start)
    k, v = outcome(ex, start)
    ex.prove(k == "ok", "no exception escapes to the caller")
    st = ex.g.get("started", ())
    i, d = n()
    if not st:
        ex.prove(i == d, "a service that did not start holds no slot")
        ev = ex.g["ev"]
        ex.prove(told(ex, ev), "the remote end is told why the service does not start")
        ex.prove([x[0] for x in ev].count("close") == 1 and ev[-1][0] == "close", "the channel of a service that does not start is closed")
        ex.eng.reach(ex, "refused")
        return
    ex.prove(len(st) == 1, "one thread is started")
    ex.prove((i, d) == (1, 0), "a started service holds exactly one slot")
    ex.prove(ex.g["ev"] == (), "nothing is said on the channel of a service that starts")
    ex.g["inthread"] = True
    th, ex.g["started"] = st[0], ()
    k, v = outcome(ex, lambda: thread_main(ex, th))
    if ex.g.get("child"):
        raise PathEnd()
    i, d = n()
    ex.prove((i, d) == (1, 1), "a service releases its slot exactly once when it ends")
    ex.eng.reach(ex, "ended" if k == "ok" else "died")


def busy(ex, ev):
    w = [x[1] for x in ev if x[0] == "write"]
    return len(w) >= 1 and isinstance(w[0], bytes) and w[0].startswith(BUSY)


def error(ex, ev):
    return any(x[0] == "send_control" and control_is(ex, x[1], type="error") for x in ev)


def text(ex, ev):
    return any(x[0] == "write" and isinstance(x[1], bytes) and b"ailed" in x[1] for x in ev)


def anyfail(ex, what):
    if ex.choose(2, what + " fails"):
        ex.anyexc(what)


def t_file(ex):
    e = ex.task.ext
    ch = chan(ex)

    def open_(ex, a, k):
        anyfail(ex, "open")
        return ex.opaque("$file")
    for n in ("builtins.open", "io.open"):
        e[n] = open_
    e["$file.__enter__"] = lambda ex, ref, a, k: ref
    e["$file.__exit__"] = e["$file.close"] = lambda ex, ref, a, k: anyfail(ex, "close")

    def read(ex, ref, a, k):
        anyfail(ex, "read")
        return ex.fresh("chunk", "bytes")
    e["$file.read"] = read
    path = ex.fresh("path", "str")
    lifecycle(ex, lambda: ex.call(ex.w.cls("dataplicity.m2m.fileservice.FileService"), [limiter(ex), ch, path]), busy)


def os_env(ex):
    def read(ex, fd, n):
        if ex.choose(2, "read fails"):
            env_os.oserr(ex, "read")
        return ex.fresh("output", "bytes")
    ex.task.read_data = read


def t_command(ex):
    e = ex.task.ext
    ch = chan(ex)
    os_env(ex)

    def popen(ex, a, k):
        anyfail(ex, "popen")
        return ex.opaque("$proc", stdout=ex.opaque("$pipe", fd=1001), stderr=ex.opaque("$pipe", fd=1002), stdin=None, pid=ex.fresh("pid", "int"))
    e["subprocess.Popen"] = e["new:subprocess.Popen"] = popen
    e["$pipe.fileno"] = lambda ex, ref, a, k: ex.h(ref).fields["fd"]
    e["$pipe.close"] = lambda ex, ref, a, k: None
    e["$proc.poll"] = lambda ex, ref, a, k: None if ex.choose(2, "running") else ex.fresh("returncode", "int")
    e["$proc.get:returncode"] = e["$proc.poll"]
    e["$proc.wait"] = lambda ex, ref, a, k: ex.fresh("returncode", "int")
    for n in ("kill", "terminate", "send_signal"):
        e["$proc." + n] = lambda ex, ref, a, k: env_os.oserr(ex, "kill") if ex.choose(2, "kill fails") else None
    cmd = ex.fresh("command", "str")
    lifecycle(ex, lambda: ex.call(ex.w.cls("dataplicity.m2m.commandservice.CommandService"), [limiter(ex), ch, cmd]), error)


def tunnel_env(ex):
    ch = chan(ex)
    sockets(ex)

    def recv(ex, ref, a, k):
        anyfail(ex, "recv")
        return ex.fresh("data", "bytes")
    ex.task.ext["$sock.recv"] = recv

    def sendall(ex, ref, a, k):
        anyfail(ex, "sendall")
    ex.task.ext["$sock.sendall"] = sendall
    return ch


def t_service(ex):
    ch = tunnel_env(ex)
    m, asked = manager(ex, ch)
    lim, port = limiter(ex), ex.fresh("port", "int")
    route = ex.newlist([ex.fresh("n1", "str"), ex.fresh("p1", "int"), ex.fresh("n2", "str"), port])
    lifecycle(ex, lambda: ex.call(method(ex, m, "open_service"), [lim, ("web", "ext", "extalt", "alt")[ex.choose(4, "service")], route]), busy)


def t_redirect(ex):
    ch = tunnel_env(ex)
    m, asked = manager(ex, ch, False)
    lim = limiter(ex)
    lifecycle(ex, lambda: ex.call(method(ex, m, "redirect_port"), [lim, ex.fresh("port", "int"), ex.fresh("device_port", "int")]), busy)


def t_connect(ex):
    ch = tunnel_env(ex)
    c = ex.call(ex.w.cls(PF + ".Connection"), [limiter(ex), ex.opaque("threading.Event", flag=False), ch, ("127.0.0.1", ex.fresh("device_port", "int"))])
    lifecycle(ex, lambda: ex.call(method(ex, c, "connect"), []), busy)


def t_terminal(ex):
    ch = chan(ex)
    os_env(ex)
    term_ = ex.call(ex.w.cls("dataplicity.m2mmanager.Terminal"), ["shell", "bash -i"])
    kw = {} if ex.choose(2, "size") else {"size": ex.newlist([ex.fresh("c", "int"), ex.fresh("r", "int")])}
    lifecycle(ex, lambda: ex.call(method(ex, term_, "launch"), [limiter(ex), ch], kw), text)


def tasks(w):
    R = "any limiter state, thread start may fail, every operation of the service's work may fail"
    E = ["not started => net slots 0, remote told, channel closed, no exception", "started => slot taken first and released exactly once, last"]
    m = ["refused", "ended"]
    return [Task("file", t_file, "dataplicity.m2m.fileservice:FileService.run_service", must_reach=m, requires=R, ensures=E),
            Task("command", t_command, "dataplicity.m2m.commandservice:CommandService.run_service", must_reach=m, requires=R, ensures=E),
            Task("port-forward service", t_service, PF + ":Service.connect", must_reach=m, requires=R, ensures=E),
            Task("port redirect", t_redirect, PF + ":PortForwardManager.redirect_port", must_reach=m, requires=R, ensures=E),
            Task("connection", t_connect, PF + ":Connection.connect", must_reach=m, requires=R, ensures=E),
            Task("terminal", t_terminal, "dataplicity.m2mmanager:Terminal.launch", must_reach=m, requires=R, ensures=E)]


ASSUMPTIONS = ["a limiter's context and decrement have the contracts of C09", "a channel's write and close do not fail when a refusal is reported (its transport failures are swallowed by WSClient.send_bytes)",
               "service threads end: non-termination of a command or of a file's reads is not excluded here (C13, C14)"]
