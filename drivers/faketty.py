"""Stand-ins for the system calls a terminal uses (fork, poll, read, write, ioctl, kill, waitpid), by descriptor and pid.
A scripted session runs the real RemoteProcess.run() in this thread; the script is executed from inside poll()."""
import os, pty, fcntl, select, struct, termios, time, threading
from dataplicity.limiter import Limiter
from dataplicity.m2m.remoteprocess import RemoteProcess

FD0, PID0 = 700000, 400000000


class Channel(object):
    def __init__(self, fail_at=None):
        self.log, self.cbs, self.is_closed, self.number, self.fail_at = [], {}, False, 5, fail_at

    def set_callbacks(self, on_data=None, on_close=None, on_control=None):
        self.cbs = {"on_data": on_data, "on_close": on_close, "on_control": on_control}

    def write(self, d):
        if self.fail_at is not None and len([x for x in self.log if x[0] == "write"]) >= self.fail_at:
            raise RuntimeError("channel broken")
        self.log.append(("write", d))

    def send_control(self, d):
        self.log.append(("control", d))

    def close(self):
        self.log.append(("close",))
        if not self.is_closed:
            self.is_closed = True
            cb = self.cbs.get("on_close")
            if cb:
                try:
                    cb()
                except Exception:
                    pass


class TTY(object):
    """with TTY() as t: each fork gives a new fake terminal; t.steps(fd) is asked for the next step of a terminal:
    ("out", bytes) | ("last", bytes) | ("hup",) | ("idle",) | callable."""
    def __init__(self, script=None, accept=(), write_fail=None, kill_fail=False, fork_fail=False):
        self.script, self.accept, self.write_fail, self.kill_fail, self.fork_fail = script if script is not None else {}, list(accept), write_fail, kill_fail, fork_fail
        self.written, self.sizes, self.kills, self.closed, self.forks, self.pending, self.writes = {}, {}, [], [], 0, {}, 0
        self.on_kill = None

    def mine(self, fd):
        return isinstance(fd, int) and not isinstance(fd, bool) and FD0 <= fd < FD0 + 1000

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n in ((os, "read"), (os, "write"), (os, "close"), (os, "kill"), (pty, "fork"), (fcntl, "ioctl"), (select, "poll"))]
        real = {n: f for m, n, f in self.saved}
        t = self

        def read(fd, n):
            if not t.mine(fd):
                return real["read"](fd, n)
            d = t.pending.get(fd, b"")
            if isinstance(d, Exception):
                raise d
            t.pending[fd] = d[n:]
            return d[:n]

        def write(fd, data):
            if not t.mine(fd):
                return real["write"](fd, data)
            t.writes += 1
            if t.write_fail is not None and t.writes > t.write_fail:
                raise OSError(5, "write failed")
            n = max(1, min(len(data), t.accept.pop(0) if t.accept else len(data)))
            t.written.setdefault(fd, []).append(bytes(data[:n]))
            return min(n, len(data))

        def close(fd):
            if not t.mine(fd):
                return real["close"](fd)
            t.closed.append(fd)

        def kill(pid, sig):
            t.kills.append((pid, sig))
            if t.on_kill:
                t.on_kill(pid, sig)
            if t.kill_fail:
                raise OSError(3, "no such process")

        def fork():
            if t.fork_fail:
                raise OSError(11, "no process")
            t.forks += 1
            return PID0 + t.forks, FD0 + t.forks

        def ioctl(fd, req, arg=0, *a):
            if not t.mine(fd):
                return real["ioctl"](fd, req, arg, *a)
            if req == termios.TIOCSWINSZ:
                t.sizes.setdefault(fd, []).append(struct.unpack("hhhh", bytes(bytearray(arg.tobytes() if hasattr(arg, "tobytes") else arg)))[:2])
            return 0

        class Poll(object):
            def __init__(self):
                self.fds = {}

            def register(self, fd, ev=7):
                self.fds[fd if isinstance(fd, int) else fd.fileno()] = ev

            modify = register

            def unregister(self, fd):
                del self.fds[fd]

            def poll(self, timeout=None):
                fd = list(self.fds)[0]
                s = t.script.get(fd - FD0, [])
                if not s:
                    return [(fd, select.POLLHUP)]
                x = s.pop(0)
                if callable(x):
                    x(fd)
                    return []
                if x[0] == "out":
                    t.pending[fd] = x[1]
                    return [(fd, select.POLLIN)]
                if x[0] == "last":
                    t.pending[fd] = x[1]
                    return [(fd, select.POLLIN | select.POLLHUP)]
                if x[0] == "idle":
                    return []
                if x[0] == "eio":
                    t.pending[fd] = OSError(5, "input/output error")
                    return [(fd, select.POLLIN | select.POLLHUP)]
                return [(fd, select.POLLHUP)]
        os.read, os.write, os.close, os.kill, pty.fork, fcntl.ioctl, select.poll = read, write, close, kill, fork, ioctl, Poll
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


def process(channel, **kw):
    lim = Limiter("terminals", 5)
    lim.increment()
    return RemoteProcess(lim, "bash -i", channel, **kw)
