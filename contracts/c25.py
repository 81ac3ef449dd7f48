"""C25: passwords never appear in printed or logged packets.

Independence is a statement about pairs of runs: each task runs the real code twice, with two arbitrary values of the field in
question and everything else shared, and proves that both runs show the same texts."""
from .common import *
from .ws import make_client, MOD as WS
from vp.builtins_ import str_of, percent, to_items

M2M = "dataplicity.m2m."
PB = M2M + "packetbase"
PASSWORD = "password"
PARTS = 3


def packet_classes(ex):
    """Every registered packet class, with the attributes it declares: [name, (class, attribute kind), ...]."""
    reg = ex.getattr(ex.w.cls(M2M + "packets.M2MPacket"), "registry")
    out = []
    for k, c in ex.h(reg).entries:
        at = [ex.unpack(x, 2) for x in to_items(ex, ex.getattr(c, "attributes"))[0]]
        out.append((k, c, [(n, [t.name for t in (ex.expand(ty) if isinstance(ex.expand(ty), tuple) else (ty,))] if ty is not None else None) for n, ty in at]))
    return out


def any_value(ex, kind, label):
    if kind == "bytes" or kind == "str" or kind == "int":
        v = ex.fresh(label, kind)
        if kind == "str":
            ex.assume(T.ENCOK(v.t))
        return v
    if kind == "dict":
        return ex.newdict([])
    return ex.newlist([])


def pair_for(ex, name, kind, label):
    """Two values of a field that a reader of the printed form must not tell apart: any two passwords; two byte strings of one
    length with the same first 32 bytes.  Other fields have one (arbitrary) value."""
    if name == PASSWORD:
        return any_value(ex, kind, label + ".1"), any_value(ex, kind, label + ".2")
    if kind == "bytes" and ex.choose(2, name + " is long"):
        a, r, q = ex.fresh(label + ".head", "bytes"), ex.fresh(label + ".rest1", "bytes"), ex.fresh(label + ".rest2", "bytes")
        ex.assume(z3.Length(a.t) == 32)
        ex.assume(z3.Length(r.t) == z3.Length(q.t))
        out = []
        for x in (r, q):
            v = mk("bytes", T.cat(a.t, x.t))
            ex.assume(z3.simplify(z3.Length(v.t) > 32))
            out.append(v)
        return tuple(out)
    v = any_value(ex, kind, label)
    if kind == "bytes":
        ex.assume(z3.Length(v.t) <= 32)
    return v, v


def text(ex, v):
    return v if isinstance(v, str) else ex.expand(v)


def pieces(t):
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for i in range(t.num_args()) for y in pieces(t.arg(i))]
    return [t]


def alike(ex, a, b):
    """Both texts are made in the same way of equal parts (enough for being equal)."""
    from vp.interp import lengths_only
    if a.eq(b):
        return True
    if z3.is_int(a) and lengths_only(a) and lengths_only(b):
        c = z3.simplify(a == b)
        return z3.is_true(c) or lengths_only(c) and ex.by_lengths(c) is True
    x, y = (pieces(a), pieces(b)) if z3.is_string(a) else ([a], [b])
    if len(x) != len(y):
        return False
    if len(x) > 1:
        return all(alike(ex, p, q) for p, q in zip(x, y))
    a, b = x[0], y[0]
    return z3.is_app(a) and z3.is_app(b) and a.num_args() == b.num_args() > 0 and a.decl().eq(b.decl()) and all(alike(ex, a.arg(i), b.arg(i)) for i in range(a.num_args()))


def same_text(ex, a, b, what):
    a, b = text(ex, a), text(ex, b)
    if isinstance(a, S) and isinstance(b, S) and a.kind == b.kind == "str" and alike(ex, z3.simplify(a.t), z3.simplify(b.t)):
        ex.prove(True, what)
        return
    ex.prove(kind_of(a) == kind_of(b) == "str" and term(a) == term(b), what)


def shown(ex, r):
    """The text of an error, or None."""
    k, v = r
    return None if k == "ok" else (v.clsname, str_of(ex, v.ref), str_of(ex, v.ref, True))


def same_outcome(ex, r1, r2):
    a, b = shown(ex, r1), shown(ex, r2)
    ex.prove((a is None) == (b is None), "whether building a packet fails does not depend on a password")
    if a is None or b is None:
        return
    ex.prove(a[0] == b[0], "the kind of an error does not depend on a password")
    for x, y in zip(a[1:], b[1:]):
        same_text(ex, x, y, "the text of an error shows no password, and at most 32 bytes of any field")
    ex.eng.reach(ex, "error")


def kind_for(types):
    return {"builtins.int": "int", "builtins.bytes": "bytes", "builtins.dict": "dict", "builtins.list": "list"}[types[0]]


# ------------------------------------------------------------------ printing
def t_print(ex):
    ex.task.slices = True
    cs = packet_classes(ex)
    code, cls, attrs = cs[ex.choose(len(cs), "packet type")]
    pairs = [(n, pair_for(ex, n, kind_for(ty), n)) for n, ty in attrs]
    ps = [ex.call(cls, [], {n: p[i] for n, p in pairs}) for i in (0, 1)]
    for how in (True, False):
        a, b = [str_of(ex, p, how) for p in ps]
        same_text(ex, a, b, "the printable form shows no password, and at most 32 bytes of any field")
    if any(n == PASSWORD for n, ty in attrs):
        ex.eng.reach(ex, "password")
    ex.eng.reach(ex, "printed")


# ------------------------------------------------------------------ building
def build(ex, cls, code, attrs, kinds, npos, nkw, extra):
    vals = [pair_for(ex, n, k, n) for (n, ty), k in zip(attrs, kinds)]
    more = any_value(ex, "bytes", "more") if extra else None
    rs = []
    for i in (0, 1):
        args = [v[i] for v in vals[:npos]] + ([more] if extra else [])
        kw = {n: v[i] for (n, ty), v in list(zip(attrs, vals))[npos:nkw]}
        rs.append(outcome(ex, lambda: ex.call(method(ex, ex.w.cls(M2M + "packets.M2MPacket"), "create"), [code] + args, kw)))
    same_outcome(ex, rs[0], rs[1])
    if rs[0][0] == rs[1][0] == "ok":
        same_text(ex, str_of(ex, rs[0][1], True), str_of(ex, rs[1][1], True), "the printable form shows no password, and at most 32 bytes of any field")


def t_build(ex):
    """Packets with a password: every combination of kinds of values, any number of them missing or too many."""
    ex.task.slices = True
    cs = [c for c in packet_classes(ex) if any(n == PASSWORD for n, ty in c[2])]
    ex.prove(len(cs) >= 1, "a packet with a password exists")
    if not cs:
        return
    code, cls, attrs = cs[ex.choose(len(cs), "packet type")]
    kinds = [["bytes", "str", "int", "list"][ex.choose(4, "kind of " + n)] for n, ty in attrs]
    npos = ex.choose(len(attrs) + 1, "positional")
    nkw = npos + ex.choose(len(attrs) + 1 - npos, "by keyword")
    build(ex, cls, code, attrs, kinds, npos, nkw, npos == len(attrs) and ex.choose(2, "too many"))


def t_build_any(ex, part):
    """Other packets: one value of a wrong kind, or missing."""
    ex.task.slices = True
    cs = [c for c in packet_classes(ex) if c[2] and not any(n == PASSWORD for n, ty in c[2])][part::PARTS]
    if not cs:
        return
    code, cls, attrs = cs[ex.choose(len(cs), "packet type")]
    kinds = [kind_for(ty) for n, ty in attrs]
    n = 1 + ex.choose(len(attrs), "first wrong value")
    if ex.choose(2, "missing"):
        build(ex, cls, code, attrs, kinds, n - 1, n - 1, False)
        return
    kinds[n - 1] = "list" if kinds[n - 1] != "list" else "int"
    build(ex, cls, code, attrs, kinds, len(attrs), len(attrs), False)


# ------------------------------------------------------------------ logging
def recording(ex):
    """Logs texts as the logging module would format them; an exception is logged with its text."""
    ex.g["logs"] = ()

    def hook(ex, level, args, kw):
        args = list(args)
        if level == "log":
            args = args[1:]
        out = [level]
        try:
            t = ex.expand(args[0])
            if len(args) > 1:
                t = percent(ex, t, tuple(args[1:]))
            elif kind_of(t) != "str":
                t = str_of(ex, t)
        except PyExc:
            t = "not formatted"
        out.append(t)
        if level == "exception" or kw.get("exc_info"):
            if ex.curexc:
                out.append(str_of(ex, ex.curexc[-1].ref))
                out.append(ex.curexc[-1].clsname)
        ex.g["logs"] = ex.g["logs"] + (tuple(out),)
    ex.task.log_hook = hook
    ex.task.ext["logging.Logger.isEnabledFor"] = lambda ex, ref, a, k: True


def printing(ex):
    def f(ex, a, k):
        ex.g["logs"] = ex.g["logs"] + (("print",) + tuple(str_of(ex, x) for x in a),)
    ex.task.ext["builtins.print"] = ex.task.ext["sys.stdout.write"] = ex.task.ext["sys.stderr.write"] = f


def same_logs(ex, a, b):
    ex.prove(len(a) == len(b), "how much is logged does not depend on a password")
    for x, y in zip(a, b):
        ex.prove(len(x) == len(y) and x[0] == y[0], "how much is logged does not depend on a password")
        for p, q in list(zip(x, y))[1:]:
            same_text(ex, p, q, "no log record shows a password")
    if a:
        ex.eng.reach(ex, "logged")


def client(ex):
    s = make_client(ex, tables=False)
    ex.task.contracts.pop(PB + ":PacketBaseType.__repr__", None)
    recording(ex)
    printing(ex)
    return s.client


def logs_of(ex, f):
    ex.g["logs"] = ()
    r = outcome(ex, f)
    return ex.g["logs"], r


def password_packet(ex):
    cs = [c for c in packet_classes(ex) if any(n == PASSWORD for n, ty in c[2])]
    if not cs:
        raise PathEnd()
    return cs[ex.choose(len(cs), "packet type")]


def t_send(ex):
    ex.task.slices = True
    c = client(ex)
    code, cls, attrs = password_packet(ex)
    vals = [pair_for(ex, n, kind_for(ty), n) for n, ty in attrs]
    how = ex.choose(3, "given as")
    name = ex.getattr(ex.getattr(cls, "type"), "name")
    ex.g["enc_may_fail"] = True
    rs = []
    for i in (0, 1):
        kw = {n: v[i] for (n, ty), v in zip(attrs, vals)}
        if how == 0:
            rs.append(logs_of(ex, lambda: ex.call(method(ex, c, "send"), [ex.getattr(cls, "type")], kw)))
        elif how == 1:
            rs.append(logs_of(ex, lambda: ex.call(method(ex, c, "send"), [name], kw)))
        else:
            p = ex.call(cls, [], kw)
            rs.append(logs_of(ex, lambda: ex.call(method(ex, c, "send"), [p])))
    # compared only where the connection behaved alike in both runs
    if rs[0][1][0] == rs[1][1][0]:
        same_logs(ex, rs[0][0], rs[1][0])


def t_receive(ex):
    """A message from the server, decoded (bencode.decode under contract: any value, or a DecodeError) and dispatched."""
    ex.task.slices = True
    c = client(ex)
    code, cls, attrs = password_packet(ex)
    if ex.choose(2, "well-formed"):
        kinds = [kind_for(ty) for n, ty in attrs]
    else:
        kinds = [["bytes", "str", "int", "list"][ex.choose(4, "kind of " + n)] for n, ty in attrs]
    vals = [pair_for(ex, n, k, n) for (n, ty), k in zip(attrs, kinds)]
    n = ex.choose(len(attrs) + 2, "number of fields")
    more = ex.fresh("more", "int")
    bad = ex.choose(3, "decoding")
    cur = []

    def decode(ex, fn, args, kw):
        if bad == 1:
            ex.exc(M2M + "bencode.DecodeError", "illegal data")
        items = [code] + [v[cur[0]] for v in vals[:n]] + ([more] if n > len(attrs) else [])
        if bad == 2:
            return ex.newdict([[b"p", v[cur[0]]] for v in vals[-1:]])      # not even a list
        return ex.newlist(items)
    ex.task.contracts[M2M + "bencode:decode"] = decode
    rs = []
    for i in (0, 1):
        cur[:] = [i]
        d = ex.fresh("message", "bytes")
        rs.append(logs_of(ex, lambda: ex.call(method(ex, c, "on_event"), [ex.opaque("$event", name="binary", data=d)])))
    same_logs(ex, rs[0][0], rs[1][0])
    same_outcome(ex, rs[0][1], rs[1][1])


def t_loop(ex):
    """The loop that takes events logs nothing that depends on the data of a message; what it logs of an error is its text (the
    errors of on_event: task receive)."""
    e = ex.task.ext
    c = client(ex)
    EV = z3.Function("EVENTTEXT", z3.StringSort(), z3.StringSort())
    ex.g["datas"] = ()
    ex.task.ghost_havoc["datas"] = lambda ex: ex.g["datas"]
    ex.task.ghost_havoc["logs"] = lambda ex: ()

    def nxt(ex, ref, a, k):
        w = ex.choose(3, "event source")
        if w == 0:
            ex.exc("builtins.StopIteration")
        if w == 1:
            ex.anyexc("event source")
        d = ex.fresh("message", "bytes")
        ex.g["datas"] = ex.g["datas"] + (d.t,)
        return ex.opaque("$event", name="binary", data=d)
    e["$events.__next__"] = nxt
    e["$events.__iter__"] = lambda ex, ref, a, k: ref
    e["lomond.persist.persist"] = lambda ex, a, k: ex.opaque("$events")
    e["lomond.websocket.WebSocket.__enter__"] = lambda ex, ref, a, k: ref
    e["lomond.websocket.WebSocket.__exit__"] = lambda ex, ref, a, k: None
    e["$event.__repr__"] = lambda ex, ref, a, k: mk("str", EV(ex.h(ref).fields["data"].t))
    e["lomond.websocket.WebSocket.close"] = lambda ex, ref, a, k: None

    def on_event(ex, fn, args, kw):
        if ex.choose(2, "handling fails"):
            ex.anyexc("handler")
    ex.task.contracts[WS + ":WSClient.on_event"] = on_event
    hook = ex.task.log_hook

    def check(ex, level, args, kw):
        hook(ex, level, args, kw)
        for t in ex.g["logs"][-1][1:]:
            ds = ex.g["datas"]
            if isinstance(t, S) and ds:
                for d in ds:
                    other = z3.String("other")
                    u = z3.substitute(t.t, (d, other))
                    ex.prove(t.t == u, "no log record shows the data of a message")
            ex.eng.reach(ex, "logged")
    ex.task.log_hook = check
    k, v = outcome(ex, lambda: ex.call(method(ex, c, "run"), []))
    ex.prove(k == "ok", "the loop ends")


def tasks(w):
    return [Task("print", t_print, PB + ":PacketBaseType.__repr__", must_reach=["printed", "password"], ensures=["for any two packets that differ in passwords, or in bytes after the first 32 of a field, repr and str are the same"]),
            Task("build", t_build, PB + ":PacketBaseType.init_params", must_reach=["error"], ensures=["building a packet with any values fails, and prints, the same for any two passwords of one kind"]),
            Task("send", t_send, WS + ":WSClient.send", must_reach=["logged"], ensures=["sending logs the same for any two passwords"]),
            Task("receive", t_receive, WS + ":WSClient.on_event", must_reach=["logged"], ensures=["receiving logs the same for any two passwords"]),
            Task("loop", t_loop, WS + ":WSClient.run", must_reach=["logged"], ensures=["the event loop logs nothing that depends on the data of a message"])] + [
            Task("build any %d" % i, (lambda i: lambda ex: t_build_any(ex, i))(i), PB + ":PacketBaseType.init_params", must_reach=["error"], ensures=["the text of an error shows at most 32 bytes of a field"]) for i in range(PARTS)]


ASSUMPTIONS = ["text given for a field is valid Unicode (no lone surrogates)", "logging formats a record as format % arguments, and an exception by its text", "the libraries (lomond, logging) log nothing of a message themselves",
               "errors raised by the runtime about a call (inspect.getcallargs) name parameters, not values"]
