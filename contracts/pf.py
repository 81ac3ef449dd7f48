"""Shared setting of the port-forward contracts (C10, C11, C12): the real PortForwardManager over a recording channel, and a
local socket whose every operation may fail."""
from .service import *
from vp import env_os

PF = "dataplicity.portforward"


def sockets(ex, lean=False):
    """Contract of a TCP socket: connect, recv, sendall, shutdown and close may all fail; ghosts record what was asked."""
    e = ex.task.ext
    ex.g.update(sock=(), connected=False, refused=False)

    def new(ex, a, k):
        fam, typ = (list(a) + [2, 1])[:2] if a else (k.get("family", 2), k.get("type", 1))
        if ex.choose(2, "no socket available"):
            ex.g["refused"] = True
            ex.anyexc("socket", base="builtins.OSError")
        s = ex.opaque("$sock", fd=ex.fresh("fd", "int"))
        ex.g["sock"] = ex.g["sock"] + (("new", s.oid, fam, typ),)
        return s
    e["socket.socket"] = e["new:socket.socket"] = new

    def connect(ex, ref, a, k):
        ex.g["sock"] = ex.g["sock"] + (("connect", ref.oid, ex.expand(a[0])),)
        if ex.choose(2, "connecting fails"):
            ex.g["refused"] = True
            which = 2 if lean else ex.choose(3, "how")
            if which == 2:
                ex.anyexc("connect")
            ex.exc(("builtins.TimeoutError", "builtins.ConnectionRefusedError")[which], "connect")
        ex.g["connected"] = True
    e["$sock.connect"] = connect
    e["socket.create_connection"] = lambda ex, a, k: ex.unsupported("create_connection")

    def simple(name):
        def f(ex, ref, a, k):
            if not lean and ex.choose(2, name + " fails"):
                ex.anyexc(name, base="builtins.OSError")
            ex.g["sock"] = ex.g["sock"] + ((name, ref.oid) + tuple(a),)
        return f
    e["$sock.shutdown"] = simple("shutdown")
    e["$sock.close"] = simple("close")
    e["$sock.setsockopt"] = lambda ex, ref, a, k: None
    e["$sock.settimeout"] = lambda ex, ref, a, k: None
    e["$sock.setblocking"] = lambda ex, ref, a, k: None
    e["$sock.fileno"] = lambda ex, ref, a, k: ex.h(ref).fields["fd"]


def manager(ex, ch, init=True):
    """The real manager of a client whose channels are ch; (manager, ports asked for)."""
    e = ex.task.ext
    asked = []

    def get(ex, ref, a, k):
        asked.append(ex.expand(a[0] if a else k["port"]))
        return ch
    e["$ws.get_channel"] = get
    e["$m2m.__bool__"] = lambda ex, ref, a, k: True
    client = ex.opaque("$client", m2m=ex.opaque("$m2m", m2m_client=ex.opaque("$ws")))
    cls = ex.w.cls(PF + ".PortForwardManager")
    m = ex.call(ex.getattr(cls, "init"), [client]) if init else ex.call(cls, [client])
    return m, asked


def flag(g):
    return z3.BoolVal(g) if isinstance(g, bool) else g.t


def local_end(ex):
    """The connected local socket as a poll-and-recv source.  Ghosts: rd bytes received, gone: the local end is known to be
    closed or failed, due: data is waiting, polled."""
    e = ex.task.ext
    ex.g.update(rd=b"", gone=False, due=False, sysfail=False, inthread=False)

    def recv(ex, ref, a, k):
        g = ex.g
        ex.prove(z3.Not(flag(g["gone"])), "a local end that is gone is not read again")
        ex.prove(flag(g["due"]), "the local socket is read only when it is ready")
        g["due"] = False
        if ex.choose(2, "recv fails"):
            g["gone"] = True
            if ex.choose(2, "how"):
                ex.anyexc("recv")
            ex.exc("builtins.ConnectionResetError", "recv")
        if ex.choose(2, "the local end closes"):
            g["gone"] = True
            return b""
        c = ex.fresh("data", "bytes")
        ex.assume(z3.And(z3.Length(c.t) <= term(a[0]), z3.Length(c.t) > 0))
        cat_g(ex, "rd", c.t)
        return c
    e["$sock.recv"] = recv

    def result(ex, ref, out):
        g = ex.g
        ex.prove(z3.Not(flag(g["due"])), "data that is ready is read before waiting again, also on a hang-up")
        ex.prove(z3.Not(flag(g["gone"])), "a tunnel whose local end is gone does not wait again")
        ex.prove(g["connected"] is True, "a tunnel that is not connected does not wait")
        f = ex.h(ref).fields
        fd = [fld(ex, Ref(x[1]), "fd") for x in g["sock"] if x[0] == "new"][-1]
        ex.prove(f["n"] == 1 and isval(ex, f["fd0"], fd) is not False and ex.truth(f["reg0"]) and f["ev0"] & 1 == 1, "the local socket is waited for")
        ex.prove(isval(ex, f["fd0"], fd), "the local socket is waited for")
        for x, m in out:
            ex.assume((m.t / 32) % 2 == 0)
            # data or its end can be read unless only an error is reported
            ex.assume(z3.Or(m.t % 2 == 1, (m.t / 8) % 4 > 0, (m.t / 2) % 2 == 1))
            if ex.branch(z3.Or(m.t % 2 == 1, (m.t / 2) % 2 == 1)):
                g["due"] = True
            else:
                g["gone"] = True
    ex.task.poll_result = result

    def hook(ex, ref):
        if ex.choose(2, "poll fails"):
            ex.g["sysfail"] = True
            env_os.oserr(ex, "poll")
        ex.task.nofail = True
        return None
    ex.task.poll_hook = hook


def cand_tunnel(ex, lv):
    if "gone" not in lv.g:
        return []
    g = lv.g
    out = [("wr = rd", term(g["wr"]) == term(g["rd"]))]
    for n in ("due", "gone", "sysfail", "wrfail", "observed"):
        if n not in g:
            continue
        out.append(("not " + n, z3.Not(flag(g[n]))))
        for k, v in sorted(lv.locals.items()):
            if kind_of(v) == "bool":
                out.append(("%s -> %s" % (n, k), z3.Implies(flag(g[n]), flag(v))))
                out.append(("%s -> not %s" % (n, k), z3.Implies(flag(g[n]), z3.Not(flag(v)))))
                out.append(("%s -> %s" % (k, n), z3.Implies(flag(v), flag(g[n]))))
                out.append(("not %s -> %s" % (k, n), z3.Implies(z3.Not(flag(v)), flag(g[n]))))
    for k, v in sorted(lv.locals.items()):
        if kind_of(v) == "bytes":
            out.append(("wr+%s = rd" % k, T.cat(term(g["wr"]), term(v)) == term(g["rd"])))
    return out
