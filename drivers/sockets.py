"""A scripted TCP socket and poll for the port-forward drivers; op(name) is called before every operation and may raise."""
import select, socket

REAL = (socket.socket, select.poll, socket.create_connection)
FD = 900001


class World(object):
    """script: one answer of poll each: ["in", data] | ["hup"] | ["err"] | ["idle"] | ["both", data] | callable"""
    def __init__(self, script, op=None):
        self.script, self.op = list(script), op or (lambda name, *a: None)
        self.connects, self.sent, self.socks, self.polls, self.masks = [], b"", 0, 0, {}
        self.pend, self.closed, self.log, self.bad, self.got, self.gone = None, False, [], None, b"", False

    def __enter__(self):
        w = self

        class Sock(object):
            def __init__(self, *a, **k):
                w.socks += 1
                w.op("socket")
                self.n = w.socks

            def setsockopt(self, *a):
                pass
            settimeout = setblocking = setsockopt

            def connect(self, addr):
                w.connects.append(addr)
                w.op("connect", addr)

            def connect_ex(self, addr):
                try:
                    self.connect(addr)
                except OSError as e:
                    return e.errno or 1
                return 0

            def fileno(self):
                return FD

            def recv(self, n, *a):
                w.op("recv")
                if w.pend is None:
                    w.bad = w.bad or "recv() without data would block"
                    raise socket.timeout("timed out")
                if w.gone:
                    w.bad = w.bad or "recv() after the end of the data"
                d, rest = w.pend[:n], w.pend[n:]
                w.pend = rest or None
                w.got += d
                if not d:
                    w.gone = True
                return d

            def sendall(self, d, *a):
                w.op("sendall", d)
                w.sent += bytes(d)
                w.log.append(("sent", bytes(d)))

            def send(self, d, *a):
                w.op("sendall", d)
                d = bytes(d)[:max(1, len(d) // 2)]
                w.sent += d
                w.log.append(("sent", d))
                return len(d)

            def shutdown(self, how):
                w.log.append(("shutdown", how))
                w.op("shutdown", how)

            def close(self):
                w.log.append(("close",))
                w.op("close")

            def __bool__(self):
                return True

        class Poll(object):
            def register(self, fd, ev=7):
                w.masks[fd if isinstance(fd, int) else fd.fileno()] = ev
            modify = register

            def unregister(self, fd):
                del w.masks[fd if isinstance(fd, int) else fd.fileno()]

            def poll(self, timeout=None):
                w.polls += 1
                w.op("poll")
                if w.polls > 300:
                    raise Stop()
                if w.gone:
                    w.bad = w.bad or "waits for a local end that is gone"
                    raise Stop()
                if FD not in w.masks:
                    w.bad = w.bad or "the local socket is not waited for"
                    raise Stop()
                if w.pend:
                    return [(FD, 1)]
                if not w.script:
                    w.pend = b""
                    return [(FD, 17)]
                x = w.script.pop(0)
                if callable(x):
                    x(w)
                    return []
                if x[0] in ("in", "both"):
                    w.pend = x[1]
                    return [(FD, 1 if x[0] == "in" else 17)]
                if x[0] in ("hup", "err"):
                    w.gone = True
                    w.pend = b""
                    return [(FD, 16 if x[0] == "hup" else 8)]
                if x[0] == "pri":
                    w.pend = x[1]
                    return [(FD, 3)]
                return []

        def create(addr, timeout=None, *a, **k):
            s = Sock()
            s.connect(addr)
            return s
        socket.socket, select.poll, socket.create_connection = Sock, Poll, create
        return self

    def __exit__(self, *a):
        socket.socket, select.poll, socket.create_connection = REAL


class Stop(BaseException):
    pass
