"""C10: services started with and without a free slot or a thread, their work failing at any of its operations."""
import subprocess, select, os, io, builtins, threading, weakref
import faketty, sockets
from dataplicity.limiter import Limiter, LimitReached
from dataplicity import m2mmanager, portforward
from dataplicity.m2m import fileservice, commandservice
from lomond.errors import WebSocketClosed

KINDS = ["file", "command", "service", "redirect", "connect", "terminal"]
EXC = {"OSError": OSError(5, "x"), "Runtime": RuntimeError("x"), "Type": TypeError("x"), "Memory": MemoryError(), "ws": WebSocketClosed("x"), "Key": KeyError("x"), "Value": ValueError("x"), "Assertion": AssertionError("x")}


def gen(rng, n):
    return {"kind": KINDS[n % 6], "why": rng.choice([None, None, None, None, "limit", "thread"]), "fault": rng.choice([None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]), "exc": rng.choice(sorted(EXC)), "again": rng.choice([None, None, 0, 1, 2]),
            "size": rng.choice([0, 3, 3, 20]), "close_at": rng.choice([None, None, None, 0, 1]), "hang": rng.random() < 0.3}


def smaller(c):
    for k in ("why", "again", "fault", "close_at"):
        if c[k] is not None:
            yield dict(c, **{k: None})


def free(lim):
    n = 0
    try:
        while n < 5:
            lim.increment()
            n += 1
    except LimitReached:
        pass
    for _ in range(n):
        lim.decrement()
    return n


class Ctx(object):
    def __init__(self, c):
        self.c, self.ops, self.inthread, self.bad, self.lim = c, 0, False, None, Limiter("services", 2)
        self.lim.increment()
        self.ev, self.failed = [], []

    def op(self, name, *a):
        if not self.inthread:
            return
        n = self.ops
        self.ops += 1
        if free(self.lim) != 0 and not self.bad:
            self.bad = "%s while the service's slot is free" % name
        f, g = self.c["fault"], self.c["again"]
        if f is not None and (n == f or g is not None and n == f + 1 + g):
            raise EXC[self.c["exc"]]


class Chan(object):
    number = 9

    def __init__(self, x):
        self.x, self.writes = x, 0

    def write(self, d):
        self.x.op("channel write")
        self.writes += 1
        self.x.ev.append(("write", d))

    def close(self):
        self.x.op("channel close")
        self.x.ev.append(("close",))

    def send_control(self, d):
        self.x.op("channel control")
        self.x.ev.append(("control", d))

    def set_callbacks(self, *a, **k):
        pass

    @property
    def is_closed(self):
        return self.x.c["close_at"] is not None and self.writes >= self.x.c["close_at"]
    _closed = is_closed

    def __repr__(self):
        return "<channel 9>"


class File(object):
    def __init__(self, x):
        self.x, self.left = x, 3 if x.c["size"] else 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.x.op("close")

    def read(self, n=-1):
        self.x.op("read")
        if not self.left:
            return b""
        self.left -= 1
        return b"x" * self.x.c["size"]


def check(c):
    x = Ctx(c)
    ch = Chan(x)
    if c["why"] == "limit":
        x.lim.increment()
    before = free(x.lim)
    started, real_start, real_open = [], threading.Thread.start, builtins.open
    real = (subprocess.Popen, select.poll, os.read)

    def start(th):
        if not getattr(th, "_initialized", False):
            raise RuntimeError("thread.__init__() not called")
        if c["why"] == "thread":
            raise RuntimeError("can't start new thread")
        if free(x.lim) != 0:
            x.bad = "a thread is started without a slot"
        started.append(th)

    def open_(p, *a, **k):
        if p != "/vp/file":
            return real_open(p, *a, **k)
        x.op("open")
        return File(x)
    go, finish = prepare(c, x, ch)
    threading.Thread.start = start
    builtins.open = io.open = open_
    try:
        try:
            go()
        except Exception as e:
            return "starting the service raises %r" % (e,)
        if c["why"]:
            if started:
                return "a thread is started although %s" % c["why"]
            if free(x.lim) != before:
                return "a service that could not start (%s) leaves %d of %d free slots" % (c["why"], free(x.lim), before)
            return told(c, x.ev)
        if len(started) != 1:
            return "%d threads are started" % len(started)
        if x.ev:
            return "a started service said %r on its channel" % (x.ev,)
        if free(x.lim) != before - 1:
            return "a started service holds %d slots" % (before - free(x.lim))
        x.inthread = True
        try:
            started[0].run()
        except Exception as e:
            x.failed.append(e)
        except sockets.Stop:
            return "the service does not end"
        x.inthread = False
        if x.bad:
            return x.bad
        if free(x.lim) != before:
            return "after the service ended (%s at operation %s) %d slots are free, before it %d were" % (c["exc"], c["fault"], free(x.lim), before)
    finally:
        threading.Thread.start = real_start
        builtins.open = io.open = real_open
        finish()


def told(c, ev):
    if [e[0] for e in ev].count("close") != 1 or ev[-1][0] != "close":
        return "the channel of a refused service: %r" % (ev,)
    w = b"".join(e[1] for e in ev if e[0] == "write")
    if c["kind"] == "command":
        if not any(e[0] == "control" and e[1].get("type") == "error" for e in ev):
            return "a refused command sends no error: %r" % (ev,)
    elif c["kind"] == "terminal":
        if b"ail" not in w:
            return "a refused terminal writes %r" % (w,)
    elif not w.startswith(b"HTTP/1.1 503"):
        return "a refused service writes %r" % (w,)


class Thing(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def prepare(c, x, ch):
    kind = c["kind"]
    none = lambda: None
    if kind == "file":
        return lambda: fileservice.FileService(x.lim, ch, "/vp/file"), none
    if kind == "command":
        import c14
        w = c14.World({"ev": [[["o", 1, "abc"]], [["e", 1, "z"]]] * (1 if c["size"] else 0) + [[["o", 16, ""]]], "launch": None, "sysfail": None, "alive": 1, "kill": "ok", "big": False})
        Popen, Poll, read = c14.fakes(w)[:3]
        old = (subprocess.Popen, select.poll, os.read)
        P0, p0 = Popen, Poll.poll

        def popen(*a, **k):
            x.op("popen")
            return P0(*a, **k)

        def poll(self, *a):
            x.op("poll")
            return p0(self, *a)

        def rd(fd, n):
            x.op("read")
            return read(fd, n)
        Poll.poll = poll
        subprocess.Popen, select.poll, os.read = popen, Poll, rd

        def finish():
            subprocess.Popen, select.poll, os.read = old
        return lambda: commandservice.CommandService(x.lim, ch, "true"), finish
    if kind == "terminal":
        t = faketty.TTY({1: [("out", b"abc"), ("idle",), ("last", b"d")] if c["size"] else []})
        t.__enter__()
        import pty, fcntl
        for m, n in ((pty, "fork"), (os, "read"), (fcntl, "ioctl")):
            def wrap(f, n):
                def g(*a):
                    x.op(n)
                    return f(*a)
                return g
            setattr(m, n, wrap(getattr(m, n), n))
        term = m2mmanager.Terminal("shell", "bash -i")
        return lambda: term.launch(x.lim, ch), lambda: t.__exit__()
    w = sockets.World([["in", b"abc"], ["idle"], ["hup" if c["hang"] else "in", b""]] if c["size"] else [], x.op)
    w.__enter__()
    client = Thing(m2m=Thing(m2m_client=Thing(get_channel=lambda n: ch)))
    x.keep = client
    m = x.m = portforward.PortForwardManager.init(client)
    if kind == "service":
        f = lambda: m.open_service(x.lim, "web", ["a", 1, "b", 9])
    elif kind == "redirect":
        f = lambda: m.redirect_port(x.lim, 9, 22)
    else:
        con = portforward.Connection(x.lim, m.close_event, ch, ("127.0.0.1", 22))
        f = con.connect
    return f, lambda: w.__exit__()
