"""C08: the session handshake and identity association follow the protocol."""
from .ws import *
from .c07 import handler
from . import agent

PT = "dataplicity.m2m.packets.PacketType"


def pt(ex, n):
    return ex.getitem(ex.w.cls(PT), n)


def with_manager(ex):
    def set_identity(ex, ref, args, kw):
        ex.g["reported"] = ex.g.get("reported", ()) + (args[0],)
        if ex.choose(2, "reporting fails"):
            ex.anyexc("set_identity")
    ex.task.ext["$manager.set_identity"] = set_identity
    ex.g["reported"] = ()
    s = make_client(ex)
    return s


def assign(ex, s, tag="identity"):
    """The client with an identity assigned by the server, or None."""
    if ex.choose(2, "an identity is known") == 0:
        return None
    x = ex.fresh(tag, "bytes")
    outcome(ex, lambda: ex.call(handler(ex, s, pt(ex, "set_identity")), [pt(ex, "set_identity"), x]))
    ex.prove(len(ex.g["reported"]) == 1, "an assigned identity is reported at once")
    ex.prove(isval(ex, ex.g["reported"][0], x), "the identity reported is the one assigned")
    ex.prove(len(attempts(ex)) == 0, "an assigned identity is answered by no packet")
    ex.g["reported"] = ()
    return x


def event(ex, name, **kw):
    return ex.opaque("$event", name=name, **kw)


def t_ready(ex):
    s = with_manager(ex)
    x = assign(ex, s)
    k, v = outcome(ex, lambda: ex.call(method(ex, s.client, "on_event"), [event(ex, "ready")]))
    ex.prove(k == "ok", "the handshake does not fail")
    a = attempts(ex)
    ex.prove(len(a) == 1, "exactly one packet is sent when the connection becomes ready")
    want = packet_term(ex, 1) if x is None else packet_term(ex, 2, x)
    ex.prove(term(a[0]) == want, "the packet is a join request without identity and an identify request with the identity otherwise")
    ex.prove(ex.g["reported"] == (), "becoming ready reports nothing")
    ex.eng.reach(ex, "join" if x is None else "identify")


def t_other(ex):
    """An event of any other name starts no handshake."""
    s = with_manager(ex)
    assign(ex, s)
    n = ex.fresh("event", "str")
    for known in ("ready", "disconnected", "binary", "poll"):
        ex.assume(n.t != zstr(known))
    k, v = outcome(ex, lambda: ex.call(method(ex, s.client, "on_event"), [event(ex, n)]))
    ex.prove(len(attempts(ex)) == 0, "an event that is not readiness sends nothing")
    ex.eng.reach(ex, "other")


def t_uuid(ex):
    """An identity given to the constructor is used for the first handshake."""
    ex.task.ext["new:lomond.websocket.WebSocket"] = lambda ex, a, k: websocket(ex)
    ex.task.ext["lomond.websocket.WebSocket.send_binary"] = send_binary
    ex.task.contracts.setdefault("dataplicity.m2m.bencode:encode", enc_contract)
    x = ex.fresh("uuid", "bytes")
    c = ex.call(ex.w.cls(MOD + ".WSClient"), [ex.opaque("$manager"), ex.fresh("url", "str"), ex.opaque("$rd")], {"uuid": x})
    ex.g["sent"] = ()
    ex.call(method(ex, c, "on_event"), [event(ex, "ready")])
    ex.prove(len(attempts(ex)) == 1, "exactly one packet is sent when the connection becomes ready")
    ex.prove(term(attempts(ex)[0]) == packet_term(ex, 2, x), "the packet is an identify request with the identity")


def t_ping(ex):
    s = with_manager(ex)
    x = assign(ex, s)
    data = ex.fresh("data", "bytes")
    k, v = outcome(ex, lambda: ex.call(handler(ex, s, pt(ex, "ping")), [pt(ex, "ping"), data]))
    ex.prove(k == "ok", "a ping does not fail")
    a = attempts(ex)
    ex.prove(len(a) == 1, "a ping is answered by exactly one packet")
    f = packet_fields(ex, a[0])
    ex.prove(f is not None and len(f) == 2 and f[0].eq(ex.to_py(8)), "the answer is a pong")
    ex.prove(Py.is_PBytes(f[1]), "a pong carries bytes")
    p = z3.simplify(Py.py(f[1]))
    ex.prove(z3.And(z3.PrefixOf(p, data.t), z3.Length(p) == z3.If(z3.Length(data.t) < 1024, z3.Length(data.t), 1024)),
             "the answer is a pong with the first 1024 bytes of the ping's data")


def t_poll(ex):
    s = with_manager(ex)
    x = assign(ex, s)
    if ex.choose(2, "connection is lost"):
        outcome(ex, lambda: ex.call(method(ex, s.client, "on_event"), [event(ex, "disconnected")]))
        x = None
        ex.eng.reach(ex, "lost")
    ex.g["reported"] = ()
    outcome(ex, lambda: ex.call(method(ex, s.client, "on_event"), [event(ex, "poll")]))
    ex.prove(len(ex.g["reported"]) == 1, "every poll passes the current identity to the manager once")
    r = ex.g["reported"][0]
    ex.prove(r is None if x is None else isval(ex, r, x), "the identity passed is the one currently assigned, none after losing the connection")
    ex.prove(len(attempts(ex)) == 0, "a poll sends nothing")
    # handshake afterwards
    outcome(ex, lambda: ex.call(method(ex, s.client, "on_event"), [event(ex, "ready")]))
    ex.prove(len(attempts(ex)) == 1, "exactly one packet is sent when the connection becomes ready")
    ex.prove(term(attempts(ex)[0]) == (packet_term(ex, 1) if x is None else packet_term(ex, 2, x)), "the handshake uses the identity currently assigned")


# ------------------------------------------------------------------ the manager
def make_manager(ex):
    ex.task.ext["new:lomond.websocket.WebSocket"] = lambda ex, a, k: websocket(ex)
    ex.g["api"] = ()

    def api(ex, ref, args, kw):
        """Client.set_m2m_identity: the identity if it was acknowledged, else None (contract proved below)."""
        ex.g["api"] += (args[0],)
        if ex.g.get("script") is not None:
            ok = ex.g["script"]
        else:
            ok = ex.choose(2, "acknowledged")
        ex.g["ack"] = bool(ok)
        return args[0] if ok else None
    ex.task.ext["$agent.set_m2m_identity"] = api
    ex.task.ext["new:dataplicity.m2m.wsclient.WSClient"] = lambda ex, a, k: ex.opaque("$wsclient")
    return ex.call(ex.w.cls("dataplicity.m2mmanager.M2MManager"), [ex.opaque("$agent"), ex.fresh("url", "str"), ex.opaque("$rd")])


def t_manager(ex):
    m = make_manager(ex)
    x = ex.fresh("probe", "bytes")
    ex.assume(z3.Length(x.t) > 0)
    f0 = dict(ex.h(m).fields)
    # which field remembers the acknowledged identity?
    ex.g["script"] = True
    ex.call(method(ex, m, "set_identity"), [x])
    ex.prove(len(ex.g["api"]) == 1, "a new identity is reported")
    f1 = dict(ex.h(m).fields)
    ex.h(m).fields = dict(f0)
    ex.g["script"] = False
    ex.call(method(ex, m, "set_identity"), [x])
    f2 = dict(ex.h(m).fields)
    changed = [n for n in f0 if not ex.same(f0[n], f1[n]) or not ex.same(f0[n], f2[n])]
    mem = [n for n in changed if f1[n] is x and f2[n] is None and f0[n] is None]
    if len(mem) != 1:
        ex.prove(False, "acknowledged and unacknowledged reports are told apart")
    ex.g["script"] = None
    ex.h(m).fields = dict(f0)
    acked = None
    if ex.choose(2, "an identity was acknowledged"):
        acked = ex.fresh("acknowledged", "bytes")
        ex.assume(z3.Length(acked.t) > 0)
    for n in changed:
        if n == mem[0]:
            ex.h(m).fields[n] = acked
        else:
            ex.h(m).fields[n] = ex.fresh("old." + n, "bytes") if ex.choose(2, "old value") else None
    ex.g["api"] = ()
    q = ex.fresh("identity", "bytes") if ex.choose(2, "an identity is assigned") else None
    k, v = outcome(ex, lambda: ex.call(method(ex, m, "set_identity"), [q]))
    ex.prove(k == "ok", "associating an identity does not fail")
    rep = ex.g["api"]
    if q is None:
        ex.prove(len(rep) == 0, "without an identity nothing is reported")
        ex.eng.reach(ex, "none")
    else:
        known = acked is not None and ex.branch(acked.t == q.t)
        if known:
            ex.prove(len(rep) == 0, "an acknowledged identity is not reported again")
            ex.eng.reach(ex, "known")
        elif ex.branch(z3.Length(q.t) == 0):
            ex.prove(len(rep) == 0, "without an identity nothing is reported")
        else:
            ex.prove(len(rep) == 1, "an identity that was not acknowledged is reported")
            ex.prove(isval(ex, rep[0], q), "the identity reported is the one assigned")
            now = ex.h(m).fields[mem[0]]
            ex.prove(isval(ex, now, q) if ex.g["ack"] else now is None, "the report counts as done exactly if it was acknowledged")
            ex.eng.reach(ex, "reported")
            return
    ex.prove(ex.same(ex.h(m).fields[mem[0]], acked), "what was acknowledged is remembered")


def t_api(ex):
    c, serial, token = agent.make_agent(ex)
    x = ex.fresh("identity", "bytes")
    ex.assume(z3.Length(x.t) > 0)
    k, v = outcome(ex, lambda: ex.call(method(ex, c, "set_m2m_identity"), [x]))
    ex.prove(k == "ok", "reporting an identity does not fail")
    b = ex.g["batches"]
    ex.prove(len(b) <= 1, "at most one batch is sent per report")
    if b:
        agent.check_auth(ex, b[0], serial, token)
        ids = {m: i for i, m, p in b[0]}
        ex.prove(len(b[0]) == 2 and b[0][1][1] == "m2m.associate" and set(dict(b[0][1][2])) == {"identity"}, "the report authenticates and associates the identity")
        p = dict(b[0][1][2])["identity"]
        ex.prove(kind_of(p) == "str" and term(p) == T.DEC8(x.t), "the identity associated is the one given")
        done = all((1, ids[m]) in ex.g["acked"] for m in ("device.check_auth", "m2m.associate"))
        ex.eng.reach(ex, "done" if done else "failed")
    else:
        done = False
        ex.prove(z3.Not(T.VALID8(x.t)), "an identity is reported unless it is not text")
    if done:
        ex.prove(isval(ex, v, x), "an acknowledged report returns the identity")
    else:
        ex.prove(v is None, "a report not acknowledged for both authentication and association returns none")


def tasks(w):
    return [
        Task("handshake", t_ready, MOD + ":WSClient.on_ready", must_reach=["join", "identify"], requires="any identity or none", ensures=["exactly one packet: join or identify(identity)"]),
        Task("handshake with a configured identity", t_uuid, MOD + ":WSClient.on_ready", requires="any identity", ensures=["identify(identity)"]),
        Task("ping", t_ping, MOD + ":WSClient.handle_ping", requires="any payload", ensures=["exactly one pong(data[:1024])"]),
        Task("other events", t_other, MOD + ":WSClient.on_event", must_reach=["other"], requires="an event of any name but ready, disconnected, binary, poll", ensures=["no packet sent"]),
        Task("identity on polls", t_poll, MOD + ":WSClient.on_event", must_reach=["lost", "end"], requires="any identity; reporting may fail with anything; connection lost or not", ensures=["set_identity(current)", "forgotten on loss"]),
        Task("M2MManager.set_identity", t_manager, "dataplicity.m2mmanager:M2MManager.set_identity", must_reach=["none", "known", "reported"],
             requires="any acknowledged identity or none; any new identity or none; API acknowledges or not", ensures=["reported iff present and not the acknowledged one", "remembered iff acknowledged"]),
        Task("Client.set_m2m_identity", t_api, "dataplicity.client:Client.set_m2m_identity", must_reach=["done", "failed"],
             requires="any non-empty identity; any batch failure", ensures=["returns the identity iff both calls were acknowledged, else None", "no exception"]),
    ]


ASSUMPTIONS = ["Batch satisfies its contract (C22)", "a device has authentication credentials"]
