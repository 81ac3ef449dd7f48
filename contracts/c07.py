"""C07: channels are isolated and close exactly once."""
from .ws import *


# ------------------------------------------------------------------ one channel
def lone(ex):
    def rec(n):
        def f(ex, ref, args, kw):
            ex.g["asked"] = ex.g.get("asked", ()) + ((n,) + tuple(args),)
        return f
    for n in ("channel_write", "channel_control_write", "close_channel"):
        ex.task.ext["$client." + n] = rec(n)
    ex.g["asked"] = ()
    client = ex.opaque("$client")
    k = ex.fresh("number", "int")
    ch = make_channel(ex, client, k, "cb")
    return ch, k


def t_onclose(ex):
    ch, k = lone(ex)
    mode = ex.choose(3, "close callback")
    runs = []

    def cb(ex, args, kw):
        runs.append(args)
        if mode == 1:
            o = outcome(ex, lambda: ex.call(method(ex, ch, "on_close"), []))     # closing again from within
            ex.prove(o[0] == "ok", "closing again does not fail")
        if ex.choose(2, "close callback fails"):
            ex.anyexc("close callback", "builtins.BaseException" if ex.choose(2, "not an Exception") else "builtins.Exception")
    if mode == 2:
        ex.call(method(ex, ch, "set_callbacks"), [])
    else:
        ex.call(method(ex, ch, "set_callbacks"), [], {"on_close": HostFn("close", cb)})
    ex.prove(no(ex, ex.getattr(ch, "is_closed")), "a new channel is open")
    for i in range(2):
        r, v = outcome(ex, lambda: ex.call(method(ex, ch, "on_close"), []))
        ex.prove(r == "ok", "an exception of the close callback does not escape")
        ex.prove(len(runs) == (0 if mode == 2 else 1), "the close callback runs exactly once")
        ex.prove(yes(ex, ex.getattr(ch, "is_closed")), "a channel that was closed is closed")
    ex.eng.reach(ex, "mode%d" % mode)


def t_after(ex):
    """Any operation on a closed channel delivers and sends nothing."""
    ch, k = lone(ex)
    with_cb = ex.choose(2, "callbacks")
    if with_cb:
        ex.call(method(ex, ch, "set_callbacks"), [], {n: recorder(ex, n, "cb") for n in ("on_data", "on_close", "on_control")})
    else:
        ex.call(method(ex, ch, "set_callbacks"), [])
    ex.call(method(ex, ch, "on_close"), [])
    n = len(ex.g["cb"])
    st = chan_state(ex, ch)
    op = ex.choose(6, "operation")
    data = ex.fresh("data", "bytes")
    name = ["on_data", "on_control", "write", "send_control", "close", "on_close"][op]
    arg = {"send_control": ex.newdict([["type", ex.fresh("t", "str")]])}.get(name, data)
    r, v = outcome(ex, lambda: ex.call(method(ex, ch, name), [] if op >= 4 else [arg]))
    ex.prove(r == "ok", "%s on a closed channel does not fail" % name)
    ex.prove(len(ex.g["cb"]) == n, "nothing is delivered to the callbacks of a closed channel")
    ex.prove(len(ex.g["asked"]) == 0, "nothing is sent from a closed channel")
    if op < 2:
        ex.prove(unchanged(ex, st, chan_state(ex, ch)), "nothing is buffered by a closed channel")
    ex.prove(yes(ex, ex.getattr(ch, "is_closed")), "a closed channel stays closed")
    ex.eng.reach(ex, name)


def t_open(ex):
    """On an open channel each request reaches the client once, for this channel's number, with its payload."""
    ch, k = lone(ex)
    op = ex.choose(4, "operation")
    data = ex.fresh("data", "bytes")
    d = ex.newdict([["type", ex.fresh("t", "str")]])
    if op == 0:
        r = outcome(ex, lambda: ex.call(method(ex, ch, "write"), [data]))
        want = ("channel_write", k, data)
    elif op == 1:
        r = outcome(ex, lambda: ex.call(method(ex, ch, "send_control"), [d]))
        want = ("channel_control_write", k, d)
    elif op == 2:
        r = outcome(ex, lambda: ex.call(method(ex, ch, "close"), []))
        want = ("close_channel", k)
    else:
        r = outcome(ex, lambda: ex.call(method(ex, ch, "on_control"), [data]))
        ex.prove(ex.g["asked"] == (), "received control data sends nothing")
        ex.prove(ex.g["cb"] == (("control", (data,)),), "control data goes to the control callback exactly once")
        ex.eng.reach(ex, "control")
        return
    ex.prove(r[0] == "ok", "no failure")
    ex.prove(len(ex.g["asked"]) == 1, "one request to the client")
    got = ex.g["asked"][0]
    ex.prove(got[0] == want[0] and len(got) == len(want), "the request is of the right kind")
    ex.prove(isval(ex, got[1], k), "the request names this channel")
    if len(want) == 3:
        ex.prove(got[2] == want[2] if isinstance(want[2], Ref) else (isval(ex, got[2], want[2])), "the payload is passed on unchanged")
    ex.prove(not ex.g["cb"], "sending calls no callback")
    ex.eng.reach(ex, ["write", "control_out", "close"][op])


# ------------------------------------------------------------------ the client
def t_route(ex):
    """Data, control and notices for channel k: channel k is affected, channel j != k is not."""
    s = make_client(ex, client_cb=bool(ex.choose(2, "client callbacks")))
    c = s.client
    k, j = ex.fresh("k", "int"), ex.fresh("j", "int")
    ex.assume(k.t != j.t)
    other = witness(ex, s, j, "cb.j")
    known = ex.choose(2, "k is known")
    mine = None
    if known:
        mine = witness(ex, s, k, "cb.k")
    else:
        ex.assume(z3.Not(s.chmap.fh(k.t)))
    ex.g.setdefault("cb.k", ())
    st = chan_state(ex, other)
    op = ex.choose(4, "packet")
    name = ["handle_route", "handle_route_control", "on_notify_open", "on_notify_close"][op]
    code = ["route", "route_control", "notify_open", "notify_close"][op]
    pt = ex.getitem(ex.w.cls("dataplicity.m2m.packets.PacketType"), code)
    data = ex.fresh("data", "bytes")
    h = handler(ex, s, pt)
    r, v = outcome(ex, lambda: ex.call(h, [pt, k] + ([data] if op < 2 else [])))
    if op >= 2:
        ex.prove(r == "ok", "open and close notices do not fail")
    ex.prove(len(ex.g["cb.j"]) == 0, "no callback of another channel runs")
    ex.prove(unchanged(ex, st, chan_state(ex, other)), "another channel does not change")
    ex.prove(table_get(ex, s, j) == other, "another channel stays known under its number")
    ex.prove(not ex.g["other"], "no callback of any other channel runs")
    ex.prove(len(attempts(ex)) == 0, "nothing is sent")
    now = table_get(ex, s, k)
    cb = ex.g["cb.k"]
    if op == 0 and mine is not None:
        ex.prove(len(cb) == 1 and cb[0][0] == "data" and len(cb[0][1]) == 1, "data is delivered exactly once to the channel it names")
        ex.prove(isval(ex, cb[0][1][0], data), "the data is delivered unchanged")
    elif op == 1 and mine is not None:
        ex.prove(len(cb) == 1 and cb[0][0] == "control" and len(cb[0][1]) == 1, "control data is delivered exactly once to the channel it names")
        ex.prove(isval(ex, cb[0][1][0], data), "the control data is delivered unchanged")
    elif op == 3:
        ex.prove([e[0] for e in cb] == (["close"] if mine is not None else []), "the close callback runs exactly once")
        if mine is not None:
            ex.prove(yes(ex, ex.getattr(mine, "is_closed")), "the channel is closed")
        ex.prove(now is None, "a closed channel is forgotten")
    else:
        ex.prove(len(cb) == 0, "no callback runs")
    if op < 3:
        ex.prove(now is not None, "the channel is known")
        if mine is not None:
            ex.prove(now == mine, "a known channel is not replaced")
        ex.prove(no(ex, ex.getattr(now, "is_closed")), "the channel is open")
        if mine is None:
            ex.prove(isval(ex, ex.getattr(now, "number"), k), "a new channel has the number it is known under")
            ex.prove(ex.getattr(now, "client") == c, "a new channel writes to this client")
            l, b, e = parts(ex, now)
            ex.prove(T.J(seq(ex, b)) == (data.t if op == 0 else z3.StringVal("")), "a fresh channel holds exactly what was received for it")
    # later use of the number
    if op == 3:
        f = ex.call(method(ex, c, "get_channel"), [k])
        ex.prove(no(ex, ex.getattr(f, "is_closed")), "after a close notice the number names an open channel")
        ex.prove(f != mine and f != other, "after a close notice the number names a fresh channel")
        ex.prove(isval(ex, ex.getattr(f, "number"), k), "the fresh channel has that number")
    ex.eng.reach(ex, name + str(known))


def handler(ex, s, pt):
    """The method the client registered for a packet type (read off its dispatcher through its public behaviour)."""
    c = s.client
    for n in ex.unpack(ex.call(ExtV("builtins.dir"), [c]), None):
        if n.startswith("_"):
            continue
        m = ex.getattr(c, n)
        if isinstance(m, BoundV) and ex.getattr(m, "_dispatcher_packet_type", None) == pt:
            return m
    ex.prove(False, "a handler is declared for %s" % pt.name)


def t_disconnect(ex):
    """Losing the connection closes every channel exactly once, forgets them all, answers every callback with None once."""
    s = make_client(ex)
    c = s.client
    j = ex.fresh("j", "int")
    mine = witness(ex, s, j, "cb.j")
    n, i = ex.fresh("command", "int"), ex.fresh("index", "int")
    ex.assume(s.cbmap.fh(n.t))
    w = recorder(ex, "response", "rsp")
    lst = s.cbmap.get(ex, n)
    m = ex.h(lst).src[1]
    ex.assume(m.fh(i.t))
    m.wit.append([i.t, w])
    r, v = outcome(ex, lambda: ex.call(method(ex, c, "on_disconnected"), []))
    ex.prove(r == "ok", "losing the connection is handled without an escaping exception")
    ex.prove([e[0] for e in ex.g["cb.j"]] == ["close"], "every open channel's close callback runs exactly once")
    ex.prove(yes(ex, ex.getattr(mine, "is_closed")), "every channel is closed")
    ex.prove(len(ex.g["rsp"]) == 1 and ex.g["rsp"][0][1] == (None,), "every response callback is invoked exactly once, without a result")
    k = ex.fresh("k", "int")
    ex.prove(table_get(ex, s, k) is None, "every channel is forgotten")
    q = ex.fresh("q", "int")
    ex.prove(not has_key(ex, s.callbacks, q), "every response callback is forgotten")
    ex.prove(len(attempts(ex)) == 0, "nothing is sent")
    f = ex.call(method(ex, c, "get_channel"), [k])
    ex.prove(no(ex, ex.getattr(f, "is_closed")), "afterwards every number names an open channel")
    ex.prove(f != mine, "afterwards every number names a fresh channel")


def t_response(ex):
    s = make_client(ex)
    c = s.client
    n, i = ex.fresh("command", "int"), ex.fresh("index", "int")
    n2, i2 = ex.fresh("othercommand", "int"), ex.fresh("otherindex", "int")
    ex.assume(n.t != n2.t)
    w, w2 = recorder(ex, "response", "rsp"), recorder(ex, "response", "rsp2")
    if ex.choose(2, "known command"):
        ex.assume(s.cbmap.fh(n.t))
        m = ex.h(s.cbmap.get(ex, n)).src[1]
        ex.assume(m.fh(i.t))
        m.wit.append([i.t, w])
        known = True
    else:
        ex.assume(z3.Not(s.cbmap.fh(n.t)))
        known = False
    ex.assume(s.cbmap.fh(n2.t))
    lst2 = s.cbmap.get(ex, n2)
    m2 = ex.h(lst2).src[1]
    m2.wit.append([i2.t, w2])
    ex.assume(m2.fh(i2.t))
    pt = ex.getitem(ex.w.cls("dataplicity.m2m.packets.PacketType"), "response")
    res = ex.newdict([[b"a", ex.fresh("x", "bytes")]])
    r, v = outcome(ex, lambda: ex.call(handler(ex, s, pt), [pt, n, res]))
    ex.prove(r == "ok", "a response is handled without an escaping exception")
    ex.prove(len(ex.g["rsp"]) == int(known), "a response callback is invoked exactly once")
    if known:
        ex.prove(ex.g["rsp"][0][1] == (res,), "the callback gets the response")
    ex.prove(len(ex.g["rsp2"]) == 0, "callbacks of other commands are not invoked")
    ex.prove(not has_key(ex, s.callbacks, n), "an invoked callback is forgotten")
    from vp.builtins_ import dict_get
    ok, l2 = dict_get(ex, ex.h(s.callbacks), n2)
    ex.prove(ok and l2 == lst2, "callbacks of other commands stay registered")
    # a second response to the same command
    r, v = outcome(ex, lambda: ex.call(handler(ex, s, pt), [pt, n, res]))
    ex.prove(r == "ok" and len(ex.g["rsp"]) == int(known), "a second response invokes nothing")
    ex.eng.reach(ex, "known%d" % known)


def t_register(ex):
    """A registered callback is in its command's list."""
    s = make_client(ex)
    c = s.client
    n = ex.fresh("command", "int")
    w = recorder(ex, "response", "rsp", may_fail=False)
    ex.assume(z3.Not(s.cbmap.fh(n.t)))
    ex.call(method(ex, c, "add_callback"), [n, w])
    w2 = recorder(ex, "response", "rsp2", may_fail=False)
    if ex.choose(2, "second callback"):
        ex.call(method(ex, c, "add_callback"), [n, w2])
        ex.g["two"] = 1
    res = ex.newdict([])
    if ex.choose(2, "response"):
        ex.call(method(ex, c, "callback"), [n, res])
        want = (res,)
    else:
        ex.call(method(ex, c, "clear_callbacks"), [])
        want = (None,)
    ex.prove(ex.g["rsp"] == (("response", want),), "a registered callback is invoked exactly once")
    ex.prove(ex.g["rsp2"] == ((("response", want),) if "two" in ex.g else ()), "every registered callback is invoked exactly once")
    ex.prove(not has_key(ex, s.callbacks, n), "an invoked callback is forgotten")


def tasks(w):
    return [
        Task("Channel.on_close", t_onclose, MOD + ":Channel.on_close", must_reach=["mode0", "mode1", "mode2"],
             requires="any channel; close callback absent, failing with anything, or closing again", ensures=["callback runs exactly once over any two closings", "nothing escapes", "closed"]),
        Task("Channel after close", t_after, MOD + ":Channel", must_reach=["on_data", "on_control", "write", "send_control", "close", "on_close"],
             requires="a closed channel; any operation and payload", ensures=["no callback", "nothing sent", "nothing buffered"]),
        Task("Channel while open", t_open, MOD + ":Channel", must_reach=["write", "control_out", "close", "control"],
             requires="an open channel; any payload", ensures=["exactly one request for this channel with this payload"]),
        Task("channel packets", t_route, MOD + ":WSClient", must_reach=[n + k for n in ("handle_route", "handle_route_control", "on_notify_open", "on_notify_close") for k in "01"],
             requires="arbitrary channel table with a witness j != k; any payload; callbacks may fail with anything", ensures=["only channel k changes", "delivered once", "closed and forgotten on notice", "fresh open channel later"]),
        Task("WSClient.on_disconnected", t_disconnect, MOD + ":WSClient.on_disconnected", requires="arbitrary channel and callback tables; all callbacks may fail with anything",
             ensures=["each channel closed exactly once and forgotten", "each callback called once with None"]),
        Task("WSClient.callback", t_response, MOD + ":WSClient.callback", must_reach=["known0", "known1"], requires="arbitrary callback table", ensures=["exactly the callbacks of this command, once each", "forgotten"]),
        Task("WSClient.add_callback", t_register, MOD + ":WSClient.add_callback", requires="no callback registered for the command", ensures=["registered callbacks invoked exactly once"]),
    ]


ASSUMPTIONS = ["channel and callback tables are used by the connection thread only (as in the repository)",
               "the close callback is not replaced while it runs"]
