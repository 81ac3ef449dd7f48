"""C11: bytes through a tunnel: scripted socket data to the channel, and channel data to the socket under schedules."""
import threading
import sockets
from sched import *
from c12 import Chan, Host
from dataplicity import portforward
from dataplicity.limiter import Limiter


def gen(rng, n):
    if n % 2:
        ev = []
        for i in range(rng.choice([1, 2, 3, 6])):
            ev.append(rng.choice([["in", "%d" % i * rng.choice([1, 3, 9])], ["both", "%dx" % i], ["pri", "p%d" % i], ["idle"], ["in", "\x00\xff\n"]]))
        if rng.random() < 0.5:
            ev.append(rng.choice([["hup"], ["err"], ["in", ""], ["both", "last"]]))
        return {"kind": "out", "ev": ev, "big": rng.random() < 0.03, "close_at": rng.choice([None, None, None, 1, 2])}
    chunks = [("%02d" % i * 4)[:rng.randrange(0, 5)] for i in range(rng.randrange(1, 5))]
    if rng.random() < 0.02:
        chunks = ["%d," % i for i in range(rng.choice([70, 300, 1200]))]
    return {"kind": "in", "chunks": chunks, "early": rng.randrange(len(chunks) + 1), "close": rng.random() < 0.4, "choices": [rng.choice([0, 0, 0, 1]) for _ in range(rng.choice([10, 40, 120]))]}


def smaller(c):
    k = "ev" if c["kind"] == "out" else "chunks"
    for i in range(len(c[k])):
        d = dict(c, **{k: c[k][:i] + c[k][i + 1:]})
        if k == "chunks":
            d["early"] = min(d["early"], len(d[k]))
        yield d


def check(c):
    return out(c) if c["kind"] == "out" else into(c)


def out(c):
    script = [[x[0]] + [y.encode("latin-1") * (700000 if c["big"] and i == 0 else 1) for y in x[1:]] for i, x in enumerate(c["ev"])]
    writes = [0]

    def op(name, *a):
        if name == "write":
            writes[0] += 1
            if c["close_at"] is not None and writes[0] >= c["close_at"]:
                h.chans[1].is_closed = h.chans[1]._closed = True
    with sockets.World(script, op) as w, Host(op) as h:
        h.m.redirect_port(h.lim, 1, 22)
        try:
            h.started[0].run()
        except sockets.Stop:
            return w.bad or "the tunnel does not end"
        except Exception as e:
            return "the tunnel fails: %r" % (e,)
    if w.bad:
        return w.bad
    got = h.chans[1].data
    if not w.got.startswith(got):
        return "received %r, wrote %r" % (w.got[:60], got[:60])
    if c["close_at"] is None or not h.chans[1].is_closed:
        if got != w.got:
            return "received %r, wrote %r" % (w.got[:60], got[:60])
        if not w.gone:
            return "the tunnel ended although its local end is open (%d answers left)" % len(w.script)


def into(c):
    chunks = [x.encode() for x in c["chunks"]]

    def op(name, *a):
        point()
    with patched_locks(portforward):
        cls = instrument(portforward.Connection)
        ch = Chan(1, lambda *a: None)
        lim = Limiter("s", 3)
        lim.increment()
        with sockets.World([], op) as w:
            con = cls(lim, threading.Event(), ch, ("127.0.0.1", 22))
            done = [False]

            class Done(object):
                def free_for(self, t):
                    return done[0]

            def idle(w):
                """Waits until the receiver is done."""
                import sched
                me = sched.CUR.me
                me.waiting = Done()
                point()
                me.waiting = None
            w.script = [idle]
            data, closed, control = ch.cbs
            for x in chunks[:c["early"]]:
                data(x)

            def receiver():
                try:
                    for x in chunks[c["early"]:]:
                        data(x)
                        point()
                    if c["close"] and closed is not None:
                        closed()
                finally:
                    done[0] = True
            try:
                rs = Sched(c["choices"]).run([con.run, receiver])
            except Stuck as e:
                return str(e)
    for r in rs:
        if r and r[0] == "exc":
            return "unexpected exception %r" % (r[1],)
    want = b"".join(chunks)
    if w.sent != want:
        return "the channel brought %r, the socket got %r" % (want, w.sent)
    if c["close"]:
        i = [j for j, x in enumerate(w.log) if x[0] == "shutdown" and x[1] != 0]
        if i and any(x[0] == "sent" and x[1] for x in w.log[i[0]:]):
            return "bytes are sent after the socket was shut down: %r" % (w.log,)
