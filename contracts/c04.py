"""C04: an incoming packet reaches exactly its handler with its own fields."""
from .ws import *
from .protocol import PACKETS, OTHER_CODES, INCOMING

TYPES = {"i": "PInt", "b": "PBytes", "d": "PDict", "l": "PList"}
CODES = {n: c for n, (c, f) in PACKETS.items()}
CODES.update(OTHER_CODES)


def rec(name):
    def f(ex, ref, args, kw):
        ex.g["ev"] += ((name, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0]))),)
        if ex.choose(2, name + " fails"):
            ex.anyexc(name)
    return f


def setting(ex, cb=True):
    for o, ns in (("$manager", ["set_identity", "on_instruction"]), ("$remotedir", ["on_open_remote_file", "on_close_remote_file", "on_read_remote_file", "on_write_remote_file", "scan"])):
        for n in ns:
            ex.task.ext["%s.%s" % (o, n)] = rec(n)
    ex.g["ev"] = ()
    s = make_client(ex)
    s.j = ex.fresh("j", "int")
    s.ch = witness(ex, s, s.j, "cb.j")
    s.n = ex.fresh("command", "int")
    ex.assume(z3.Not(s.cbmap.fh(s.n.t)))
    ex.call(method(ex, s.client, "add_callback"), [s.n, recorder(ex, "response", "rsp")])
    ex.g.setdefault("rsp", ())
    s.nent = len(ex.h(s.callbacks).entries)
    s.st = chan_state(ex, s.ch)
    ex.g["sent"], ex.g["sentfail"] = (), ()
    return s


def quiet(ex, s, what):
    ex.prove(ex.g["ev"] == (), what + " reaches no handler")
    ex.prove(len(attempts(ex)) == 0, what + " is answered by nothing")
    ex.prove(ex.g["cb.j"] == () and ex.g["rsp"] == () and not ex.g["other"] and not ex.g["othercb"], what + " runs no callback")
    ex.prove(unchanged(ex, s.st, chan_state(ex, s.ch)), what + " changes no channel state")
    ex.prove(len(ex.h(s.channels).entries) == 0 and len(ex.h(s.callbacks).entries) == s.nent and ex.h(s.channels).base is s.chmap, what + " opens or forgets no channel")


def same_arg(ex, v, t):
    """The value passed is the packet's field t."""
    return ex.to_py(v) == t


def t_codes(name):
    code, fields = (PACKETS[name] if name in PACKETS else (CODES[name], None))

    def body(ex):
        s = setting(ex)
        q = ex.freshseq("packet", "py:benc")
        ex.assume(z3.Length(q) >= 1)
        ex.assume(q[0] == Py.PInt(z3.IntVal(code)))
        pkt = ex.newseq(q, "py:benc")
        k, v = outcome(ex, lambda: ex.call(method(ex, s.client, "on_packet"), [pkt]))
        f = [q[i + 1] for i in range(len(fields or ()))]
        if name not in INCOMING:
            quiet(ex, s, "a packet without a handler")
            ex.eng.reach(ex, "nohandler")
            return
        good = z3.And(z3.Length(q) >= len(f) + 1, *[getattr(Py, "is_" + TYPES[t])(x) for (n, t), x in zip(fields, f)])
        if not ex.branch(good):
            quiet(ex, s, "a packet with missing or wrongly typed fields")
            ex.eng.reach(ex, "malformed")
            return
        if k == "exc" and ex.branch(z3.Length(q) > len(f) + 1):
            return                      # surplus fields: refusing them is as good as ignoring them
        effects(ex, s, name, f)
        ex.eng.reach(ex, "handled")
    return body


def only(ex, s, *parts):
    """Nothing but the named kinds of effect happened."""
    if "ev" not in parts:
        ex.prove(ex.g["ev"] == (), "the packet reaches no other handler")
    if "sent" not in parts:
        ex.prove(len(attempts(ex)) == 0, "the packet is answered by nothing")
    if "rsp" not in parts:
        ex.prove(ex.g["rsp"] == () and not ex.g["othercb"] and len(ex.h(s.callbacks).entries) == s.nent, "the packet reaches no response callback")
    if "chan" not in parts:
        ex.prove(ex.g["cb.j"] == () and not ex.g["other"] and unchanged(ex, s.st, chan_state(ex, s.ch)) and len(ex.h(s.channels).entries) == 0, "the packet reaches no channel")


def effects(ex, s, name, f):
    H = "the packet reaches its handler exactly once"
    A = "the packet's fields reach the handler in protocol order"
    if name in ("null", "welcome", "log", "notify_login_success"):
        only(ex, s)
        if name == "notify_login_success":
            ex.prove(same_arg(ex, ex.getattr(s.client, "user"), f[0]), A)
        return
    if name in ("route", "route_control"):
        only(ex, s, "chan")
        mine = ex.branch(f[0] == Py.PInt(s.j.t))
        want = "data" if name == "route" else "control"
        if mine:
            ex.prove(len(ex.g["cb.j"]) == 1 and ex.g["cb.j"][0][0] == want and len(ex.g["cb.j"][0][1]) == 1, H)
            ex.prove(same_arg(ex, ex.g["cb.j"][0][1][0], f[1]), A)
            ex.eng.reach(ex, "mine")
        else:
            ex.prove(ex.g["cb.j"] == () and unchanged(ex, s.st, chan_state(ex, s.ch)), "data reaches no other channel")
        return
    if name in ("notify_open", "notify_close"):
        only(ex, s, "chan")
        mine = ex.branch(f[0] == Py.PInt(s.j.t))
        if name == "notify_open":
            ex.prove(ex.g["cb.j"] == () and unchanged(ex, s.st, chan_state(ex, s.ch)), "opening a channel leaves the open ones alone")
            ex.prove(has_key(ex, s.channels, mk("int", Py.pi(f[0]))), "the channel named is open afterwards")
        elif mine:
            ex.prove(ex.g["cb.j"] == (("close", ()),), H)
            ex.prove(not has_key(ex, s.channels, s.j), "the channel named is forgotten")
            ex.eng.reach(ex, "mine")
        else:
            ex.prove(ex.g["cb.j"] == () and unchanged(ex, s.st, chan_state(ex, s.ch)), "closing reaches no other channel")
            ex.prove(table_get(ex, s, s.j) == s.ch, "closing reaches no other channel")
        return
    if name == "response":
        only(ex, s, "rsp")
        if ex.branch(f[0] == Py.PInt(s.n.t)):
            ex.prove(len(ex.g["rsp"]) == 1, H)
            ex.prove(same_arg(ex, ex.g["rsp"][0][1][0], f[1]), A)
            ex.eng.reach(ex, "mine")
        else:
            ex.prove(ex.g["rsp"] == (), "a response reaches no other command's callback")
        return
    if name == "ping":
        only(ex, s, "sent")
        ex.prove(len(attempts(ex)) == 1, H)
        g = packet_fields(ex, attempts(ex)[0])
        ex.prove(g is not None and len(g) == 2 and g[0].eq(ex.to_py(8)), H)
        ex.prove(z3.And(Py.is_PBytes(g[1]), z3.PrefixOf(Py.py(g[1]), Py.py(f[0]))), A)
        return
    ev = ex.g["ev"]
    ex.prove(len(ev) == 1, H)
    if name == "scan_remote_directory":
        only(ex, s, "ev", "sent")
        ex.prove(ev[0][0] == "scan", H)
        ex.prove(ev[0][1] == () and len(ev[0][2]) <= 1, A)
        return
    only(ex, s, "ev")
    want = {"set_identity": "set_identity", "instruction": "on_instruction"}.get(name, "on_" + name)
    ex.prove(ev[0][0] == want and ev[0][2] == (), H)
    args = list(ev[0][1])
    if name in ("open_remote_file", "close_remote_file", "read_remote_file", "write_remote_file"):
        ex.prove(len(args) >= 1 and ex.same(args[0], s.client), "the handler can answer on this connection")
        args = args[1:]
    ex.prove(len(args) == len(f), A)
    ex.prove(z3.And(*[same_arg(ex, a, t) for a, t in zip(args, f)]), A)


def t_unknown(ex):
    """No list whose first item is not a declared code, and no other value, reaches anything."""
    s = setting(ex)
    p = ex.fresh("packet", "py:benc")
    isl = Py.is_PList(p.t)
    q = Py.pl(p.t)
    known = z3.And(isl, z3.Length(q) >= 1, Py.is_PInt(q[0]), z3.Or(*[Py.pi(q[0]) == c for c in CODES.values()]))
    ex.assume(z3.Not(known))
    k, v = outcome(ex, lambda: ex.call(method(ex, s.client, "on_packet"), [p]))
    quiet(ex, s, "a message that is no packet of the protocol")
    ex.prove(k == "ok" or ex.is_sub(v.clsname, "builtins.Exception"), "a message that is no packet of the protocol requests no exit")
    ex.eng.reach(ex, "unknown")


def t_binary(ex):
    """on_binary hands on_packet exactly the decoded message, once, or nothing if it cannot be decoded."""
    s = setting(ex)
    val = ex.fresh("decoded", "py:benc")
    data = ex.fresh("data", "bytes")
    seen = []

    def dec(ex, fn, args, kw):
        ex.prove(isval(ex, args[0], data), "the message decoded is the message received")
        if ex.choose(2, "cannot be decoded"):
            ex.g["bad"] = True
            ex.exc("dataplicity.m2m.bencode.DecodeError", "bad")
        return val

    def onp(ex, fn, args, kw):
        seen.append(args[1])
    ex.task.contracts["dataplicity.m2m.bencode:decode"] = dec
    ex.task.contracts[MOD + ":WSClient.on_packet"] = onp
    k, v = outcome(ex, lambda: ex.call(method(ex, s.client, "on_binary"), [data]))
    if ex.g.get("bad"):
        ex.prove(seen == [], "a message that cannot be decoded is not dispatched")
        quiet(ex, s, "a message that cannot be decoded")
        ex.eng.reach(ex, "bad")
    else:
        ex.prove(len(seen) == 1, "a decoded message is dispatched exactly once")
        ex.prove(ex.to_py(seen[0]) == val.t, "the message dispatched is the one received")
        ex.eng.reach(ex, "good")


def t_out(ex):
    """Every packet built with its fields by name is the protocol's list: code, then the fields in protocol order."""
    ex.task.contracts.setdefault("dataplicity.m2m.bencode:encode", enc_contract)
    names = sorted(PACKETS)
    name = names[ex.choose(len(names), "packet")]
    code, fields = PACKETS[name]
    vals = {}
    for n, t in fields:
        vals[n] = ex.fresh(n, {"i": "int", "b": "bytes"}[t]) if t in "ib" else (ex.newdict([[b"k", ex.fresh("v", "py:benc")]]) if t == "d" else ex.newlist([ex.fresh("e", "py:benc")]))
    P = ex.w.cls("dataplicity.m2m.packets.M2MPacket")
    how = ex.choose(2, "by code")
    key = code if how else name
    pos = ex.choose(2, "positional")
    p = ex.call(ex.getattr(P, "create"), [key] + ([vals[n] for n, t in fields] if pos else []), {} if pos else vals)
    b = ex.getattr(p, "as_bytes")
    ex.prove(term(b) == packet_term(ex, code, *[vals[n] for n, t in fields]), "the packet's bytes are its code followed by its fields in protocol order")
    ex.prove(isval(ex, ex.getattr(ex.getitem(ex.w.cls("dataplicity.m2m.packets.PacketType"), name), "value"), code), "the packet's code is that of the protocol")


def tasks(w):
    out = []
    for n in INCOMING:
        f = PACKETS[n][1]
        r = ["handled"] + (["malformed"] if f else []) + (["mine"] if n in ("route", "route_control", "notify_close", "response") else [])
        out.append(Task("packet " + n, t_codes(n), MOD + ":WSClient.on_packet", must_reach=r,
                        requires="any list starting with code %d; any channel and callback tables with witnesses; handlers' environment may fail with anything" % CODES[n],
                        ensures=["well-formed: exactly the handler of %s, once, with the fields in order" % n, "otherwise: no effect at all"]))

    def rest(ex):
        names = sorted(n for n in CODES if n not in INCOMING)
        t_codes(names[ex.choose(len(names), "code")])(ex)
    out.append(Task("packets without handler", rest, MOD + ":WSClient.on_packet", must_reach=["nohandler"], weight=3, requires="any list starting with any other declared code", ensures=["no effect at all"]))
    out.append(Task("unknown codes and other values", t_unknown, MOD + ":WSClient.on_packet", must_reach=["unknown"], weight=2, requires="any decoded value that is not a list starting with a declared code", ensures=["no effect at all"]))
    out.append(Task("WSClient.on_binary", t_binary, MOD + ":WSClient.on_binary", must_reach=["bad", "good"], requires="any message", ensures=["decoded message dispatched exactly once, undecodable not at all"]))
    out.append(Task("outgoing packets", t_out, "dataplicity.m2m.packetbase:PacketBaseType.encode", requires="every packet of the protocol with arbitrary field values, by name, code, position or keyword", ensures=["bytes = bencode([code] + fields in protocol order)"]))
    return out


ASSUMPTIONS = ["channel and callback tables are used by the connection thread only (as in the repository)", "bencode.decode returns a value of the bencode domain or raises its decode error (C02)",
               "logging has no effect"]
