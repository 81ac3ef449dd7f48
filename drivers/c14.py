"""C14: command services on real shell commands and on scripted pipes."""
import os, select, subprocess, time
from service import *
from dataplicity.m2m import commandservice as C

REAL = (subprocess.Popen, select.poll, os.read)
OUT, ERR = 1000001, 1000002
WEXC = {"ws": WebSocketClosed("x"), "OSError": OSError(9, "x"), "other": RuntimeError("x"), "AssertionError": AssertionError("x")}
LIMIT = 30
CMDS = ["printf abc", "printf 'a\\nb'; printf err >&2; printf c", "true", "false", "exit 3", "printf x; kill -9 $$", "head -c 200000 /dev/zero", "head -c 300000 /dev/zero >&2; printf done", "printf a; exec 2>&-; printf b",
        "printf a; sleep 0.1; printf b", "nosuchcommand_zz", "printf e >&2; exit 1", "printf a; exec >&-; printf z >&2", "echo \"$0\" | head -c 2", "printf '\\000\\377'", "sleep 30 >/dev/null 2>&1 & printf q"]
WANT = {0: b"abc", 1: b"a\nbc", 2: b"", 3: b"", 4: b"", 5: b"x", 6: b"\0" * 200000, 7: b"done", 8: b"ab", 9: b"ab", 10: b"", 11: b"", 12: b"a", 14: b"\0\xff", 15: b"q"}


def gen(rng, n):
    if n % 8 == 0:
        i = rng.choice(sorted(WANT))
        return {"kind": "real", "cmd": i, "close_at": rng.choice([None] * 5 + [0, 1])}
    ev = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        # one answer of poll: list of [pipe, mask, data]
        one = []
        for p in rng.choice([["o"], ["o"], ["e"], ["o", "e"], ["e", "o"], []]):
            one.append([p, rng.choice([1, 1, 1, 17, 3, 16, 8, 9, 25, 2]), "".join(rng.choice("ab\x00\xff\n") for _ in range(rng.choice([1, 2, 7])))])
        ev.append(one)
    last = rng.choice([[["o", 16, ""]], [["o", 17, ""]], [["o", 16, ""], ["e", 16, ""]], [["e", 16, ""], ["o", 16, ""]], [["e", 17, "zz"], ["o", 16, ""]]])
    if rng.random() < 0.3:
        ev.insert(rng.randrange(len(ev) + 1), [["e", 16, ""]])
    ev.append(last)
    return {"kind": "script", "ev": ev, "close_at": rng.choice([None] * 5 + [0, 1, 2]), "fail_at": rng.choice([None] * 5 + [0, 1]), "wexc": rng.choice(sorted(WEXC)), "launch": rng.choice([None] * 9 + ["OSError", "ValueError", "MemoryError", "RuntimeError"]),
            "sysfail": rng.choice([None] * 5 + [["poll", 0], ["poll", 1], ["read", 0], ["read", 2]]), "alive": rng.choice([0, 0, 1, 2, 99]), "kill": rng.choice(["ok", "ok", "fail"]), "big": rng.random() < 0.1}


def smaller(c):
    if c["kind"] == "script":
        for k in ("close_at", "fail_at", "launch", "sysfail"):
            if c[k] is not None:
                yield dict(c, **{k: None})
        for i in range(len(c["ev"]) - 1):
            yield dict(c, ev=c["ev"][:i] + c["ev"][i + 1:])


class Stop(BaseException):
    pass


class World(object):
    def __init__(self, c):
        self.c, self.ev, self.polls, self.reads, self.pend, self.bad = c, list(c["ev"]), 0, 0, {}, None
        self.out, self.eof, self.reg, self.sysfailed = b"", False, {}, False
        self.launches, self.dead, self.signalled, self.polled = [], False, 0, 0
        self.eeof = False

    def say(self, t):
        self.bad = self.bad or t


class Pipe(object):
    def __init__(self, fd):
        self.fd = fd

    def fileno(self):
        return self.fd

    def close(self):
        pass


def fakes(w):
    c = w.c

    class Popen(object):
        def __init__(self, *a, **k):
            w.launches.append((a, k))
            if c["launch"]:
                raise {"OSError": OSError(12, "no memory"), "ValueError": ValueError("null"), "MemoryError": MemoryError(), "RuntimeError": RuntimeError("x")}[c["launch"]]
            self.stdout, self.stderr = Pipe(OUT), Pipe(ERR)
            self.stdin, self.pid, self.returncode = None, 4242, None

        def poll(self):
            w.polled += 1
            if w.polled > c["alive"]:
                w.dead, self.returncode = True, 0
            return self.returncode

        def wait(self, timeout=None):
            if not w.signalled and c["alive"] > 5:
                if timeout is not None:
                    raise subprocess.TimeoutExpired("x", timeout)
                w.say("waits for an unsignalled process")
            w.dead, self.returncode = True, 0
            return 0

        def kill(self, *a):
            w.signalled += 1
            if c["kill"] == "fail":
                raise OSError(3, "no such process")
        terminate = send_signal = kill

    class Poll(object):
        def register(self, fd, ev=7):
            w.reg[fd if isinstance(fd, int) else fd.fileno()] = ev
        modify = register

        def unregister(self, fd):
            del w.reg[fd if isinstance(fd, int) else fd.fileno()]

        def poll(self, timeout=None):
            w.polls += 1
            if w.eof:
                w.say("waits after the end of the output")
                raise Stop()
            if w.polls > 200:
                w.say("waits without end")
                raise Stop()
            if c["sysfail"] and c["sysfail"][0] == "poll" and w.polls > c["sysfail"][1]:
                w.sysfailed = True
                raise OSError(4, "poll")
            left = [(fd, 1) for fd in (OUT, ERR) if fd in w.pend and fd in w.reg]
            if left:
                return left
            if not w.ev:
                if OUT not in w.reg:
                    w.say("the output is not waited for")
                    raise Stop()
                w.pend[OUT] = b""
                return [(OUT, 16)]
            now = []
            for p, m, d in w.ev[0]:
                fd = OUT if p == "o" else ERR
                if p == "e" and w.eeof and d:
                    continue
                d = d.encode("latin-1") * (30000 if c["big"] else 1)
                if fd not in w.reg:
                    if fd == OUT:
                        w.say("the output is not waited for")
                    continue
                if d == b"":
                    w.pend.setdefault(fd, b"")
                    if fd == ERR:
                        w.eeof = True
                else:
                    w.pend[fd] = w.pend.get(fd, b"") + d
                now.append((fd, m))
            w.ev.pop(0)
            return now

    def read(fd, n):
        if fd not in (OUT, ERR):
            return REAL[2](fd, n)
        w.reads += 1
        if fd not in w.pend:
            w.say("reads a pipe that is not ready (blocks)")
            raise Stop()
        if c["sysfail"] and c["sysfail"][0] == "read" and w.reads > c["sysfail"][1]:
            w.sysfailed = True
            raise OSError(5, "read")
        d = w.pend.pop(fd)
        if len(d) > n:
            w.pend[fd] = d[n:]
            d = d[:n]
        if fd == OUT:
            w.out += d
            if not d:
                w.eof = True
        return d
    return Popen, Poll, read


def channel_checks(ch):
    ks = [x[0] for x in ch.ev]
    if ks.count("close") != 1:
        return "events on the channel: %r" % ks
    if "control" not in ks[:ks.index("close")] or ks[-1] != "close":
        return "events on the channel: %r" % ks
    for x in ch.ev:
        if x[0] == "control" and not (x[1].get("service") == "command" and x[1].get("type") in ("complete", "error")):
            return "control message %r" % (x[1],)


def check(c):
    lim = Limiter("services", 3)
    if c["kind"] == "real":
        ch = Channel(c["close_at"])
        made = []

        def popen(*a, **k):
            p = REAL[0](*a, **k)
            made.append(p)
            return p
        subprocess.Popen = popen
        try:
            t, e = launch(C.CommandService, lim, ch, CMDS[c["cmd"]])
            e = e or finish(t)
        finally:
            subprocess.Popen = REAL[0]
            time.sleep(0.01)
            for p in made:
                if p.poll() is None:
                    p.kill()
        e = e or channel_checks(ch)
        if e:
            return e
        if c["close_at"] is None and ch.data() != WANT[c["cmd"]]:
            return "command %r gave %r" % (CMDS[c["cmd"]], ch.data()[:200])
        if not WANT[c["cmd"]].startswith(ch.data()):
            return "command %r gave %r" % (CMDS[c["cmd"]], ch.data()[:200])
        return None
    w = World(c)
    ch = Channel(c["close_at"], c["fail_at"], WEXC[c["wexc"]], live=True)
    fin = []
    subprocess.Popen, select.poll, os.read = fakes(w)
    hook, threading.excepthook = threading.excepthook, lambda *a: None
    try:
        t, e = launch(C.CommandService, lim, ch, "the command")
        e = e or finish(t, 10)
    finally:
        subprocess.Popen, select.poll, os.read = REAL
        threading.excepthook = hook
    e = e or w.bad or channel_checks(ch)
    if e:
        return e
    got = ch.data()
    if len(w.launches) != 1 or (w.launches[0][0] + ("the command",))[0] != "the command" or not w.launches[0][1].get("shell") or w.launches[0][1].get("stderr") == subprocess.STDOUT:
        return "launched as %r" % (w.launches,)
    if not w.out.startswith(got):
        return "wrote %r, the output was %r" % (got[:100], w.out[:100])
    if c["launch"]:
        if not any(x[0] == "control" and x[1]["type"] == "error" for x in ch.ev):
            return "a command that cannot be launched gave %r" % (ch.ev,)
        return None
    if not w.dead and not w.signalled:
        return "a running process was left unsignalled"
    if not w.sysfailed and not ch.failed and not ch.is_closed:
        if not w.eof:
            return "stopped before the end of the output"
        if got != w.out:
            return "wrote %r, the output was %r" % (got[:100], w.out[:100])
