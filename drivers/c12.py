"""C12: requests for tunnels by any name and port; tunnels whose local end closes or fails, beside another tunnel."""
import threading, socket
import sockets
from dataplicity.limiter import Limiter
from dataplicity import portforward
from c10 import EXC, Thing

KNOWN = {"web": 80, "ext": 81, "extalt": 8000, "alt": 8080}
NAMES = ["web", "ext", "extalt", "alt", "Web", "we", "", "web ", "ssh", "altx", "80", "http", "localhost"]


def gen(rng, n):
    c = gen_(rng, n)
    if c["kind"] in ("name", "redirect", "port") and rng.random() < 0.3:
        c["before"] = [rng.choice([["redirect", rng.choice([22, 80, 8080, 443, 81])], ["open", rng.choice(NAMES)]]) for _ in range(rng.choice([1, 2]))]
    return c


def gen_(rng, n):
    k = rng.choice(["name", "redirect", "port", "neither", "end", "end", "end", "end"])
    if k == "name":
        return {"kind": k, "name": rng.choice(NAMES), "port": rng.choice([0, 1, 80, 65535]), "route": rng.random() < 0.5}
    if k in ("redirect", "port"):
        return {"kind": k, "port": rng.choice([0, 1, 5]), "dev": rng.choice([1, 22, 80, 81, 8000, 8080, 8001, 65535, 0 if k == "redirect" else 443])}
    if k == "neither":
        return {"kind": k}
    ev = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        ev.append(rng.choice([["in", "abc"], ["idle"], ["both", "zz"], ["pri", "p"]]))
    ev.append(rng.choice([["in", ""], ["hup"], ["err"], ["both", "last"], ["idle"]]))
    return {"kind": k, "ev": ev, "fault": rng.choice([None, None, 0, 1, 2, 3, 4, 5, 6, 8, 10]), "more": rng.random() < 0.2, "exc": rng.choice(sorted(EXC) + ["timeout", "refused"]), "early": rng.choice(["", "", "hello"]), "remote": rng.choice([None, None, None, 0, 1])}


def smaller(c):
    if c["kind"] == "end":
        for k in ("fault", "remote"):
            if c[k] is not None:
                yield dict(c, **{k: None})
        if c["early"]:
            yield dict(c, early="")
        for i in range(len(c["ev"])):
            yield dict(c, ev=c["ev"][:i] + c["ev"][i + 1:])


class Chan(object):
    def __init__(self, number, op):
        self.number, self.op, self.data, self.closed, self.cbs, self.is_closed, self.wfail = number, op, b"", 0, None, False, False
        self._closed = False

    def set_callbacks(self, on_data=None, on_close=None, on_control=None):
        self.cbs = (on_data, on_close, on_control)

    def write(self, d):
        try:
            self.op("write")
        except Exception:
            self.wfail = True
            raise
        self.data += d

    def close(self):
        self.closed += 1

    def send_control(self, d):
        pass


class Host(object):
    """A manager over recording channels; threads are collected, not run."""
    def __init__(self, op=None):
        self.op, self.chans, self.asked = op or (lambda *a: None), {}, []
        self.client = Thing(m2m=Thing(m2m_client=Thing(get_channel=self.channel)))
        self.m = portforward.PortForwardManager.init(self.client)
        self.lim = Limiter("services", 5)
        self.started = []

    def channel(self, n):
        self.asked.append(n)
        return self.chans.setdefault(n, Chan(n, self.op))

    def __enter__(self):
        self.real = threading.Thread.start
        threading.Thread.start = lambda th: self.started.append(th)
        return self

    def __exit__(self, *a):
        threading.Thread.start = self.real


def check(c):
    if c["kind"] == "end":
        return end(c)
    with sockets.World([]) as w, Host() as h:
        want = None
        try:
            for x in c.get("before", []):
                try:
                    if x[0] == "redirect":
                        h.m.redirect_port(h.lim, 77, x[1])
                    else:
                        h.m.open(h.lim, 77, x[1])
                    for t in h.started:
                        t.run()
                except (Exception, sockets.Stop):
                    pass
                w.socks, w.gone, w.masks, w.bad, w.pend = 0, False, {}, None, None
                del h.started[:], h.asked[:], w.connects[:]
            if c["kind"] == "name":
                want = KNOWN.get(c["name"])
                if c["route"]:
                    h.m.open_service(h.lim, c["name"], ["a", 1, "b", c["port"]])
                else:
                    h.m.open(h.lim, c["port"], c["name"])
            elif c["kind"] == "redirect":
                want = c["dev"]
                h.m.redirect_port(h.lim, c["port"], c["dev"])
            elif c["kind"] == "port":
                want = c["dev"] if c["dev"] in KNOWN.values() else None
                h.m.open(h.lim, c["port"], port=c["dev"])
            else:
                try:
                    h.m.open(h.lim, 5)
                    return "a request without name and port is not refused"
                except ValueError:
                    pass
        except Exception as e:
            return "the request raises %r" % (e,)
        for t in h.started:
            try:
                t.run()
            except Exception:
                pass
        want = [("127.0.0.1", want)] if want is not None else []
        if w.connects != want:
            return "connects to %r instead of %r" % (w.connects, want)
        if not want and (h.asked or w.socks or h.started):
            return "an unknown service opens something: channels %r, %d sockets" % (h.asked, w.socks)
        if want and h.asked != [c["port"]]:
            return "uses channels %r instead of %r" % (h.asked, c["port"])


def end(c):
    n = [0]
    on = [False]

    def op(name, *a):
        if not on[0]:
            return
        n[0] += 1
        if c["fault"] is not None and (n[0] - 1 == c["fault"] or c["more"] and n[0] - 1 >= c["fault"]):
            if name == "recv":
                w.gone = True
            raise EXC[c["exc"]] if c["exc"] in EXC else {"timeout": socket.timeout("timed out"), "refused": ConnectionRefusedError(111, "refused")}[c["exc"]]

    def conv(x):
        return [x[0]] + [y.encode() for y in x[1:]]
    script = [conv(x) for x in c["ev"]]
    with sockets.World(script, op) as w, Host(op) as h:
        if c["remote"] is not None:
            def gone(w):
                h.chans[1].is_closed = h.chans[1]._closed = True
                try:
                    h.chans[1].cbs[1]()
                except Exception:
                    pass
            w.script.insert(min(c["remote"], len(w.script)), gone)
        h.m.redirect_port(h.lim, 1, 22)
        h.m.redirect_port(h.lim, 2, 23)
        if len(h.started) != 2:
            return "%d tunnels are opened instead of 2" % len(h.started)
        if c["early"]:
            h.chans[1].cbs[0](c["early"].encode())
        on[0] = True
        try:
            h.started[0].run()
        except sockets.Stop:
            return w.bad or "the tunnel does not end"
        except Exception:
            pass
        on[0] = False
        if w.bad:
            return w.bad
        if not h.chans[1].closed:
            return "the channel of a tunnel that ended is not closed"
        if h.chans[2].closed or h.chans[2].data:
            return "the end of a tunnel closes another tunnel's channel"
        if h.m.close_event.is_set():
            return "the end of a tunnel ends all tunnels"
    with sockets.World([["in", b"second"], ["in", b""]]) as w2:
        try:
            h.started[1].run()
        except sockets.Stop:
            return "the other tunnel does not end"
        except Exception as e:
            return "the other tunnel fails: %r" % (e,)
        if h.chans[2].data != b"second" or w2.connects != [("127.0.0.1", 23)]:
            return "after a tunnel ended another one carries %r" % (h.chans[2].data,)
