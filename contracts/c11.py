"""C11: a port-forward tunnel carries bytes intact in both directions."""
from .pf import *
from .c12 import keep_callbacks
from vp.monitor import Monitor, settle


def connection(ex):
    ch = channel(ex)
    ex.task.ext["$chan.set_callbacks"] = keep_callbacks
    ex.task.ext["$chan.close"] = lambda ex, ref, a, k: ex.g.__setitem__("ev", ex.g["ev"] + (("close",),))
    sockets(ex)
    con = ex.call(ex.w.cls(PF + ".Connection"), [limiter(ex), ex.opaque("threading.Event", flag=False, shared=True), ch, ("127.0.0.1", ex.fresh("port", "int"))])
    return ch, con


# ------------------------------------------------------------------ from the local socket to the channel
def t_out(ex):
    ch, con = connection(ex)
    local_end(ex)
    ex.g["stop"] = False

    def is_set(ex, ref, a, k):
        if ex.g["stop"] is True:
            return True
        v = ex.fresh("stop", "bool")
        if ex.branch(v.t):
            ex.g["stop"] = True
            return True
        return False
    ex.task.ext["threading.Event.is_set"] = ex.task.ext["threading.Event.isSet"] = is_set
    outcome(ex, lambda: ex.call(method(ex, con, "connect"), []))
    st = ex.g.get("started", ())
    if not st:
        raise PathEnd()
    outcome(ex, lambda: thread_main(ex, st[0]))
    g = ex.g
    got, want = term(g["wr"]), term(g["rd"])
    ex.prove(z3.PrefixOf(got, want), "only bytes received from the local socket are written to the channel, in order")
    if g["refused"] is True:
        raise PathEnd()
    b = lambda n: g[n] is True or (g[n] is not False and ex.branch(g[n].t))
    if b("sysfail") or b("wrfail"):
        ex.eng.reach(ex, "broken")
    elif b("observed") or b("stop"):
        if b("stop") and not b("observed"):
            ex.prove(got == want, "every byte received is written to the channel")
        ex.eng.reach(ex, "asked to end")
    else:
        ex.prove(b("gone"), "a tunnel lasts until its local end is gone")
        ex.prove(got == want, "every byte received is written to the channel")
        ex.eng.reach(ex, "complete")


# ------------------------------------------------------------------ from the channel to the local socket
def parts(ex, con):
    """(lock, buffer, name of the socket field) of a fresh connection, found by their types."""
    locks, bufs, none = [], [], []
    for n, v in sorted(ex.h(con).fields.items()):
        if n.startswith("$"):
            continue
        if isinstance(v, Ref):
            o = ex.h(v)
            if isinstance(o, HList):
                bufs.append((n, v))
            elif isinstance(o, HOpq) and o.cls in ("threading.RLock", "threading.Lock"):
                locks.append(v)
        elif v is None:
            none.append(n)
    if len(bufs) != 1 or len(none) != 1 or len(locks) > 1:
        ex.unsupported("a connection without exactly one buffer, one socket and one lock")
    return (locks[0] if locks else None), bufs[0], none[0]


def seq(ex, buf):
    o = ex.h(buf)
    return o.seq if o.items is None else ex.seq_term(o, "bytes")


class TunnelMonitor(Monitor):
    """State: the bytes sent to the socket followed by the bytes still buffered.  Guarantee of every step: sent bytes stay
    as they are, what was sent or buffered stays in place, and new bytes are only added at its end."""
    def __init__(self, ex, con, role):
        self.role = role
        self.lock, (bname, self.buf), self.sock = parts(ex, con)
        self.con, self.moved, self.steps, self.last, self.ends = con, [], 0, None, []
        self.s = ex.opaque("$sock", fd=7)
        self.set = False
        ex.prove(z3.Length(seq(ex, self.buf)) == 0, "a new tunnel has nothing buffered")
        ex.g["sent"] = b""

        def connected_meanwhile(ex):
            # the tunnel's own thread may have connected meanwhile, once
            if not self.set and ex.choose(2, "connected"):
                self.set = True
            ex.h(con).fields[self.sock] = self.s if self.set else None
        self.connected_meanwhile = connected_meanwhile

        def havoc(ex):
            o = ex.h(self.buf)
            o.items, o.ekind = None, "bytes"
            o.seq = ex.freshseq("buffered", "bytes")
            ex.g["sent"] = ex.fresh("sent", "bytes")
            f = ex.h(con).fields
            if role == "receiver":
                connected_meanwhile(ex)
            if f[self.sock] is None:
                ex.assume(term(ex.g["sent"]) == z3.StringVal(""))

        def state(ex):
            return (term(ex.g["sent"]), seq(ex, self.buf), ex.h(con).fields[self.sock])

        def step(ex, a, b):
            self.steps += 1
            self.last = b
            self.ends.append(b)
            if b[2] is None:
                ex.prove(b[0] == z3.StringVal(""), "nothing is sent before the connection is established")
            if role == "receiver" and self.sock not in self.racy:
                ex.prove(a[2] is b[2] or a[2] == b[2], "only the tunnel's thread connects")
            A, B = T.cat(a[0], T.J(a[1])), T.cat(b[0], T.J(b[1]))
            ex.prove(z3.PrefixOf(a[0], b[0]), "sent bytes are sent in order")
            ex.prove(z3.PrefixOf(A, B), "bytes sent or waiting stay in place: none lost, repeated or reordered")
            r = ex.fresh("added", "bytes").t
            ex.assume(B == z3.Concat(A, r))
            self.moved.append(r)
        Monitor.__init__(self, ex, con, self.lock, {self.sock, bname}, state, havoc, step, containers=(self.buf,))

    def refresh(self, ex, name):
        if name == self.sock and self.role == "receiver":
            self.connected_meanwhile(ex)
        elif name != self.sock:
            self.interfere(ex)

    def check(self, ex, want):
        settle(ex)
        if self.role == "connector":
            # data taken over later is sent by the receiver, which finds the tunnel connected
            es = [T.J(b[1]) == z3.StringVal("") for b in self.ends if b[2] is not None]
            ex.prove(z3.Or(*es) if es else False, "everything buffered is sent once the tunnel is connected")
            ex.prove(T.cat(*self.moved) == want, "connecting adds nothing")
            ex.eng.reach(ex, "sent")
            return
        ex.prove(T.cat(*self.moved) == want, "bytes from the channel are taken over exactly once")
        if self.steps and self.last[2] is not None:
            ex.prove(T.J(self.last[1]) == z3.StringVal(""), "once connected nothing is left unsent")
            ex.eng.reach(ex, "sent")
        else:
            ex.eng.reach(ex, "kept")


def sending(ex, mon):
    def sendall(ex, ref, a, k):
        ex.prove(ref == mon().s or ref == ex.h(mon().con).fields[mon().sock], "bytes are sent to the tunnel's socket")
        d = ex.expand(a[0])
        ex.prove(kind_of(d) == "bytes", "bytes are sent")
        m = mon()
        m.access(ex)                         # without the lock: a step of its own
        cat_g(ex, "sent", term(d))
    ex.task.ext["$sock.sendall"] = sendall

    def send(ex, ref, a, k):
        d = ex.expand(a[0])
        n = ex.fresh("accepted", "int")
        ex.assume(z3.And(n.t >= 0, n.t <= z3.Length(term(d))))
        mon().access(ex)
        cat_g(ex, "sent", z3.SubString(term(d), 0, n.t))
        return n
    ex.task.ext["$sock.send"] = send


def t_data(ex):
    ch, con = connection(ex)
    box = []
    sending(ex, lambda: box[0])
    data = ex.fresh("data", "bytes")
    box.append(TunnelMonitor(ex, con, "receiver"))
    k, v = outcome(ex, lambda: ex.call(ex.g["cbs"][0], [data]))
    ex.prove(k == "ok", "taking over data does not fail")
    box[0].check(ex, data.t)


def t_close(ex):
    """The remote end closes the channel, or sends a control message: nothing is lost or added."""
    ch, con = connection(ex)
    box = []
    sending(ex, lambda: box[0])
    box.append(TunnelMonitor(ex, con, "receiver"))
    which = ex.choose(2, "callback")
    f = ex.g["cbs"][1 + which]
    if f is None:
        raise PathEnd()
    k, v = outcome(ex, lambda: ex.call(f, [ex.fresh("control", "bytes")] if which else []))
    m = box[0]
    settle(ex)
    ex.prove(T.cat(*m.moved) == z3.StringVal("") if m.moved else True, "closing adds nothing")
    down = [x for x in ex.g["sock"] if x[0] in ("shutdown", "close")]
    if down and m.steps and m.last[2] is not None:
        ex.prove(T.J(m.last[1]) == z3.StringVal(""), "the socket is shut down only after everything was sent")
        ex.eng.reach(ex, "shut down")


def t_connect(ex):
    """The tunnel's thread up to its first wait."""
    ch, con = connection(ex)
    box = []
    sending(ex, lambda: box[0])
    m = TunnelMonitor(ex, con, "connector")
    box.append(m)

    def hook(ex, ref):
        m.check(ex, z3.StringVal(""))
        ex.prove(m.last is not None and m.last[2] is not None, "a tunnel that waits is connected")
        raise PathEnd()
    ex.task.poll_hook = hook
    ex.g["started"] = ()
    con_ = outcome(ex, lambda: ex.call(method(ex, con, "run"), []))
    settle(ex)
    ex.prove(T.cat(*m.moved) == z3.StringVal("") if m.moved else True, "connecting adds nothing")
    ex.eng.reach(ex, "not connected")


def cand_flush(ex, lv):
    """sent, then what is left of the chunks, is what was sent or buffered."""
    m = ex.monitors[0] if ex.monitors else None
    if m is None or m.pending is None or "sent" not in lv.g:
        return []
    a = m.pending[0]
    out = []
    sent, old = term(lv.g["sent"]), term(lv.entry.g["sent"])
    if lv.done is not None:
        try:
            out.append(("sent = before + chunks so far", sent == T.cat(old, T.J(lv.done))))
        except Exception:
            pass
    m.quiet += 1
    try:
        b = T.J(seq(ex, m.buf))
    finally:
        m.quiet -= 1
    out.append(("sent + buffer = before", T.cat(sent, b) == T.cat(a[0], T.J(a[1]))))
    out.append(("sent grows", z3.PrefixOf(a[0], sent)))
    out.append(("sent = before", sent == old))
    for k, v in sorted(lv.locals.items()):
        if kind_of(v) == "bytes":
            out.append(("sent + %s + buffer = before" % k, T.cat(sent, term(v), b) == T.cat(a[0], T.J(a[1]))))
    return out


def tasks(w):
    C = PF + ":Connection."
    ts = [Task("to the channel", t_out, C + "_run", candidates=[cand_tunnel], must_reach=["broken", "asked to end", "complete"], requires="any socket events and data, a channel closed at any moment, any failing system call or write",
               ensures=["bytes written = bytes received (prefix when broken); the tunnel ends only when its local end is gone, a call failed, or it is asked to"])]
    S = "guarantee of every step between lock operations: sent ++ buffered only grows at its end, sent only grows"
    ts += [Task("channel data", t_data, C + "on_channel_data", candidates=[cand_flush], must_reach=["sent", "kept"], requires="any state, any interference of the tunnel's thread; sends succeed", ensures=[S, "the data is added exactly once", "connected => buffer empty"]),
           Task("channel close", t_close, C + "on_channel_close", candidates=[cand_flush], must_reach=["shut down"], requires="as above", ensures=[S, "nothing added; shut down only with an empty buffer"]),
           Task("connect", t_connect, C + "_connect", candidates=[cand_flush], must_reach=["sent", "not connected"], requires="any buffered data, any interference of the receiving thread; sends succeed", ensures=[S, "nothing added; buffer empty before the first wait"])]
    for t in ts[1:]:
        t.volgroup = "tunnel"
    return ts


ASSUMPTIONS = ["sendall sends everything or fails; after a failed send nothing is required of the tunnel's incoming direction", "one thread delivers channel data",
               "a ready socket's recv returns data, b'' at its end, or fails"]
