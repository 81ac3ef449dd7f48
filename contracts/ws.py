"""Shared setting of the contracts on the m2m client: a WSClient built by the real constructor over an environment that
records what is sent, with arbitrary channel and callback tables."""
from .common import *
from .c06 import parts, seq

MOD = "dataplicity.m2m.wsclient"
BENC = z3.Function("BENC", Py, z3.StringSort())


def sent(ex):
    return ex.g.get("sent", ())


def enc_contract(ex, fn, args, kw):
    """bencode.encode on a value of the encodable domain (C01): its canonical encoding."""
    if ex.g.get("enc_may_fail") and ex.choose(2, "value cannot be encoded"):
        ex.anyexc("encode")
    return S("bytes", BENC(ex.to_py(args[0])))


def repr_contract(ex, fn, args, kw):
    """The printable form of a packet: some text (its content: C25)."""
    return ex.fresh("packetrepr", "str")


def packet_term(ex, code, *fields):
    return BENC(ex.to_py(ex.newlist([code] + list(fields))))


def send_binary(ex, ref, args, kw):
    """lomond.WebSocket.send_binary: sends the bytes, or raises WebSocketError."""
    if len(args) != 1 or kw:
        ex.unsupported("send_binary arguments")
    ex.prove(kind_of(args[0]) == "bytes", "only bytes are sent")
    if ex.choose(2, "send fails"):
        ex.g["sentfail"] = ex.g.get("sentfail", ()) + (args[0],)
        ex.exc("lomond.errors.WebSocketUnavailable", "not connected")
    ex.g["sent"] = sent(ex) + (args[0],)
    return None


def attempts(ex):
    """Everything the client tried to send, whether or not the connection took it (order not kept across the two)."""
    return ex.g.get("sent", ()) + ex.g.get("sentfail", ())


def websocket(ex):
    return ex.opaque("lomond.websocket.WebSocket")


def recorder(ex, ev, key, may_fail=True):
    def f(ex, args, kw):
        ex.g[key] = ex.g.get(key, ()) + ((ev, tuple(args)),)
        if may_fail and ex.choose(2, "callback %s fails" % ev):
            ex.anyexc("callback")
    ex.g.setdefault(key, ())
    return HostFn("callback:" + ev, f)


def silent(ex, flag):
    """A callback of some other object: may fail; only the fact that it ran is recorded."""
    def f(ex, args, kw):
        ex.g[flag] = True
        if ex.choose(2, "other callback fails"):
            ex.anyexc("callback")
    ex.g.setdefault(flag, False)
    return HostFn("callback:other", f)


def make_channel(ex, client, number, key, with_cb=True):
    """An open channel of the client with an arbitrary buffer; callbacks record under `key`."""
    ch = ex.call(ex.w.cls(MOD + ".Channel"), [client, number])
    lock, buf, ev = parts(ex, ch)
    o = ex.h(buf)
    o.items, o.ekind = None, "bytes"
    o.seq = ex.freshseq("buffered", "bytes")
    ex.assume(T.NE(o.seq))
    f = ex.fresh("readable", "bool")
    ex.h(ev).fields["flag"] = f
    ex.assume(f.t == (z3.Length(o.seq) > 0))
    if with_cb:
        ex.call(method(ex, ch, "set_callbacks"), [], {"on_data": recorder(ex, "data", key), "on_close": recorder(ex, "close", key), "on_control": recorder(ex, "control", key)})
    return ch


def chan_state(ex, ch):
    """Everything observable of a channel, for frame conditions."""
    out = {}
    for n, v in ex.h(ch).fields.items():
        out[n] = v
        if isinstance(v, Ref):
            o = ex.h(v)
            if isinstance(o, HList):
                out[n + "$"] = ("list", tuple(o.items)) if o.items is not None else ("seq", o.ekind, o.seq)
            elif isinstance(o, HOpq):
                for a, b in o.fields.items():
                    out[n + "$" + a] = b
    return out


def unchanged(ex, a, b):
    return set(a) == set(b) and all(ex.same(a[k], b[k]) for k in a)


class Setting(object):
    """client, channel table (HDict over ObjMap), callback table (HDict over ObjMap)."""


def make_client(ex, identity=NotImplemented, client_cb=False, tables=True, simple=False):
    s = Setting()
    ex.task.ext["new:lomond.websocket.WebSocket"] = lambda ex, a, k: websocket(ex)
    ex.task.ext["lomond.websocket.WebSocket.send_binary"] = send_binary
    ex.task.contracts.setdefault("dataplicity.m2m.bencode:encode", enc_contract)
    ex.task.contracts.setdefault("dataplicity.m2m.packetbase:PacketBaseType.__repr__", repr_contract)
    s.manager = ex.opaque("$manager")
    s.rd = ex.opaque("$remotedir")
    kw = {}
    if client_cb:
        kw["channel_callback"] = silent(ex, "client_cb")
        kw["control_callback"] = silent(ex, "client_cb")
    s.client = c = ex.call(ex.w.cls(MOD + ".WSClient"), [s.manager, ex.fresh("url", "str"), s.rd], kw)
    ex.g["sent"] = ()
    if not tables:
        return s
    n = ex.noid
    d0 = {v: len(ex.h(v).entries) for v in ex.h(c).fields.values() if isinstance(v, Ref) and isinstance(ex.h(v), HDict)}
    ex.call(method(ex, c, "get_channel"), [7])
    tab = [v for v, k in d0.items() if len(ex.h(v).entries) != k]
    if len(tab) != 1:
        ex.unsupported("a channel table cannot be identified")
    s.channels = tab[0]
    d0 = {v: len(ex.h(v).entries) for v in d0}
    ex.call(method(ex, c, "add_callback"), [7, silent(ex, "x")])
    tab = [v for v, k in d0.items() if len(ex.h(v).entries) != k]
    if len(tab) != 1:
        ex.unsupported("a callback table cannot be identified")
    s.callbacks = tab[0]
    ex.h(s.channels).entries, ex.h(s.callbacks).entries = [], []

    def chan(ex, k):
        ch = make_channel(ex, c, k, None, with_cb=False)
        if simple or ex.choose(2, "other channel has callbacks"):
            f = silent(ex, "other")
            ex.call(method(ex, ch, "set_callbacks"), [f, f, f])
        return ch

    def cbs(ex, k):
        r = ex.newlist([])
        h = ex.h(r)
        h.items, h.seq, h.ekind = None, None, "refs"
        h.src = ("mapsnap", T.ObjMap("cblist%d" % r.oid, ex, lambda ex, i: silent(ex, "othercb"), "int"), "values")
        return r
    ex.g.setdefault("other", False)
    ex.g.setdefault("othercb", False)
    s.chmap = ex.h(s.channels).base = T.ObjMap("channels", ex, chan, "int")
    s.cbmap = ex.h(s.callbacks).base = T.ObjMap("callbacks", ex, cbs, "int")
    return s


def witness(ex, s, j, key):
    """A channel of the table at number j, recording under `key`."""
    jt = term(j)
    ex.assume(s.chmap.fh(jt))
    ch = make_channel(ex, s.client, j, key)
    s.chmap.wit.append([jt, ch])
    return ch


def table_get(ex, s, k):
    """The channel the client's table gives for k now (None if absent)."""
    from vp.builtins_ import dict_get
    found, v = dict_get(ex, ex.h(s.channels), k)
    return v if found else None


def packet_fields(ex, b):
    """The Py terms of a sent packet's list (code first), or None when the bytes are not the encoding of a list."""
    t = z3.simplify(term(b))
    if t.decl().name() != "BENC" or t.arg(0).decl().name() != "PList":
        return None
    return [p.arg(0) for p in T.parts(t.arg(0).arg(0))] if all(p.decl().kind() == z3.Z3_OP_SEQ_UNIT for p in T.parts(t.arg(0).arg(0))) else None
