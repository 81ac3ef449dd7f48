"""C12: port-forward tunnels reach only the requested local port and end independently."""
from .pf import *
from .pf import channel as service_channel

NAMES = {"web": 80, "ext": 81, "extalt": 8000, "alt": 8080}
LOOPBACK = "127.0.0.1"


def dest(ex, want):
    """Every connection attempt of this run goes to the loopback address and this port, over TCP; at most one is made."""
    tries = [x for x in ex.g["sock"] if x[0] == "connect"]
    ex.prove(len(tries) <= 1, "a tunnel connects once")
    for x in ex.g["sock"]:
        if x[0] == "new":
            ex.prove(x[2] == 2 and x[3] == 1, "a tunnel uses a TCP socket")
    for _, oid, addr in tries:
        ex.prove(isinstance(addr, tuple) and len(addr) == 2, "a tunnel connects to a host and port")
        ex.prove(isval(ex, addr[0], LOOPBACK), "a tunnel connects only to the loopback address")
        ex.prove(isval(ex, addr[1], want), "a tunnel connects only to the requested port")


def run_one(ex, want, port, asked):
    st = ex.g.get("started", ())
    if not st:
        return
    ex.prove(len(st) == 1, "a request opens one tunnel")
    ex.prove(len(asked) == 1, "a request uses one channel")
    ex.prove(isval(ex, asked[0], port), "a tunnel uses the channel asked for")
    ex.g["started"] = ()
    ex.task.poll_hook = hang_up
    outcome(ex, lambda: thread_main(ex, st[0]))
    dest(ex, want)
    ex.prove(ex.g.get("started", ()) == (), "a tunnel starts nothing else")
    ex.eng.reach(ex, "tunnel")


def hang_up(ex, ref):
    return ex.newlist([(ex.h(ref).fields["fd0"], 16)])


def untouched(ex, asked):
    ex.prove(ex.g.get("started", ()) == () and ex.g["sock"] == () and ex.g["ev"] == () and ex.g.get("slots", ()) == () and term(ex.g["wr"]).eq(z3.StringVal("")),
             "a request for an unknown service, or without name and port, opens nothing")


def before(ex, m, asked):
    """Possibly an earlier request of any kind, which must not change what later ones mean."""
    which = ex.choose(3, "an earlier request")
    if which == 0:
        return
    if which == 1:
        outcome(ex, lambda: ex.call(method(ex, m, "redirect_port"), [limiter(ex), ex.fresh("earlier_port", "int"), ex.fresh("earlier_dev", "int")]))
    else:
        outcome(ex, lambda: ex.call(method(ex, m, "open"), [limiter(ex), ex.fresh("earlier_port", "int"), ex.fresh("earlier_service", "str")]))
    del asked[:]
    ex.g.update(started=(), sock=(), ev=(), slots=(), wr=b"", rd=b"", gone=False, due=False, connected=False, refused=False, observed=False)


def t_name(ex):
    ch = channel(ex)
    sockets(ex, lean=True)
    local_end(ex)
    m, asked = manager(ex, ch)
    before(ex, m, asked)
    name, port = ex.fresh("service", "str"), ex.fresh("port", "int")
    if ex.choose(2, "by route"):
        route = (ex.fresh("n1", "str"), ex.fresh("p1", "int"), ex.fresh("n2", "str"), port)
        f = lambda: ex.call(method(ex, m, "open_service"), [limiter(ex), name, ex.newlist(list(route))])
    else:
        f = lambda: ex.call(method(ex, m, "open"), [limiter(ex), port, name])
    k, v = outcome(ex, f)
    ex.prove(k == "ok", "a request by name does not fail")
    want = None
    for n, p in sorted(NAMES.items()):
        if ex.branch(name.t == zstr(n)):
            want = p
    if want is None:
        untouched(ex, asked)
        ex.eng.reach(ex, "unknown")
        return
    if not ex.g.get("started"):
        ex.prove(any(x[0] == "close" for x in ex.g["ev"]), "a known service is opened")
        return
    run_one(ex, want, port, asked)


def t_port(ex):
    """open() with a port: the service registered on it, or nothing."""
    ch = channel(ex)
    sockets(ex, lean=True)
    local_end(ex)
    m, asked = manager(ex, ch)
    before(ex, m, asked)
    port, dev = ex.fresh("port", "int"), ex.fresh("device_port", "int")
    ex.assume(dev.t > 0)
    k, v = outcome(ex, lambda: ex.call(method(ex, m, "open"), [limiter(ex), port], {"port": dev}))
    ex.prove(k == "ok", "a request by port does not fail")
    if not ex.g.get("started"):
        known = z3.Or(*[dev.t == p for p in NAMES.values()])
        if ex.branch(z3.Not(known)):
            untouched(ex, asked)
            ex.eng.reach(ex, "unknown")
        return
    run_one(ex, dev, port, asked)


def t_neither(ex):
    ch = channel(ex)
    sockets(ex)
    m, asked = manager(ex, ch)
    k, v = outcome(ex, lambda: ex.call(method(ex, m, "open"), [limiter(ex), ex.fresh("port", "int")]))
    ex.prove(k == "exc" and v.clsname == "builtins.ValueError", "a request without name and port is refused")
    untouched(ex, asked)
    ex.eng.reach(ex, "refused")


def t_redirect(ex):
    ch = channel(ex)
    sockets(ex, lean=True)
    local_end(ex)
    m, asked = manager(ex, ch)
    before(ex, m, asked)
    port, dev = ex.fresh("port", "int"), ex.fresh("device_port", "int")
    k, v = outcome(ex, lambda: ex.call(method(ex, m, "redirect_port"), [limiter(ex), port, dev]))
    ex.prove(k == "ok", "a request by device port does not fail")
    run_one(ex, dev, port, asked)


def keep_callbacks(ex, ref, a, k):
    v = dict(zip(["on_data", "on_close", "on_control"], a))
    v.update(k)
    ex.g["cbs"] = (v.get("on_data"), v.get("on_close"), v.get("on_control"))


def channel(ex):
    ch = service_channel(ex)
    ex.task.ext["$chan.close"] = lambda ex, ref, a, k: ex.g.__setitem__("ev", ex.g["ev"] + (("close",),))    # closing again is allowed
    return ch


def events(ex):
    return set(oid for oid, o in ex.heap.items() if isinstance(o, HOpq) and o.cls == "threading.Event")


def t_end(ex):
    """A tunnel from its thread's start to its end, beside another one."""
    ch = channel(ex)
    ex.task.ext["$chan.set_callbacks"] = keep_callbacks
    sockets(ex)
    local_end(ex)
    m, asked = manager(ex, ch)
    other_ch = ex.opaque("$other")
    for n in ("set_callbacks", "write", "close", "send_control"):
        ex.task.ext["$other." + n] = lambda ex, ref, a, k, n=n: ex.prove(n == "set_callbacks", "the end of a tunnel affects no other tunnel")
    other = ex.call(ex.w.cls(PF + ".Connection"), [], {"limiter": limiter(ex), "close_event": ex.getattr(m, "close_event"), "channel": other_ch, "host_port": (LOOPBACK, 1)})
    old = events(ex)

    def ev_set(ex, ref, a, k):
        ex.prove(ref.oid not in old, "the end of a tunnel affects no other tunnel")
        ex.h(ref).fields["flag"] = True
    ex.task.ext["threading.Event.set"] = ev_set
    k, v = outcome(ex, lambda: ex.call(method(ex, m, "redirect_port"), [limiter(ex), ex.fresh("port", "int"), ex.fresh("device_port", "int")]))
    st = ex.g.get("started", ())
    if not st:
        raise PathEnd()
    th = st[0]
    if ex.choose(2, "data arrives before the connection"):
        ex.call(ex.g["cbs"][0], [ex.fresh("early", "bytes")])

        def sendall(ex, ref, a, k):
            if ex.choose(2, "sendall fails"):
                ex.anyexc("sendall")
        ex.task.ext["$sock.sendall"] = sendall
    if ex.choose(2, "the remote end closes the channel meanwhile"):
        ex.g["closing"] = True
        inner = ex.task.poll_hook

        def hook(ex, ref):
            if ex.g["closing"] is True:
                ex.g["closing"] = False
                outcome(ex, lambda: ex.call(ex.g["cbs"][1], []))
            return inner(ex, ref)
        ex.task.poll_hook = hook
    # the client may ask all tunnels to end
    ex.h(ex.getattr(other, "close_event")).fields["shared"] = True

    def snap(r, depth=0):
        out = []
        for k, v in sorted(ex.h(r).fields.items()):
            out.append((k, repr(v)))
            if isinstance(v, Ref) and isinstance(ex.h(v), HDict):
                out.append((k, repr(ex.dict_items(ex.h(v)))))
            elif isinstance(v, Ref) and isinstance(ex.h(v), HList) and ex.h(v).items is not None:
                out.append((k, repr(ex.h(v).items)))
        return out
    before = snap(m), snap(other)
    outcome(ex, lambda: thread_main(ex, th))
    g = ex.g
    ex.prove([x[0] for x in g["ev"]].count("close") >= 1, "the channel is closed whatever fails")
    ex.prove((snap(m), snap(other)) == before, "the end of a tunnel affects no other tunnel")
    if g["refused"] is True:
        ex.prove(term(g["wr"]).eq(z3.StringVal("")), "nothing is written when the local end cannot be reached")
        ex.eng.reach(ex, "unreachable")
    elif ex.branch(flag(g["gone"])):
        ex.eng.reach(ex, "local end gone")
    else:
        ex.eng.reach(ex, "other end")


def tasks(w):
    A = PF + ":PortForwardManager."
    return [Task("by name", t_name, A + "open_service", candidates=[cand_tunnel], must_reach=["unknown", "tunnel"], requires="any service name and channel, after any earlier request", ensures=["connects to (127.0.0.1, registered port) or nothing for an unknown name"]),
            Task("by port", t_port, A + "open", candidates=[cand_tunnel], must_reach=["unknown", "tunnel"], requires="any device port > 0", ensures=["connects to that port or opens nothing"]),
            Task("neither", t_neither, A + "open", must_reach=["refused"], ensures=["ValueError, nothing opened"]),
            Task("redirect", t_redirect, A + "redirect_port", candidates=[cand_tunnel], must_reach=["tunnel"], requires="any device port", ensures=["connects to (127.0.0.1, device port)"]),
            Task("end", t_end, PF + ":Connection._run", candidates=[cand_tunnel], must_reach=["unreachable", "local end gone", "other end"], requires="any socket events and data, any failing system call or channel write",
                 ensures=["no wait once the local end is gone or unread data is due", "channel closed on every path", "manager, shared event and other tunnels unchanged"])]


ASSUMPTIONS = ["TCP sockets: a ready socket's recv returns data, b'' at its end, or fails", "a channel's close and is_closed do not fail", "POLLNVAL is not reported (nothing closes the descriptor while the tunnel runs)"]
