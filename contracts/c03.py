"""C03: packets survive the wire and malformed packets are refused.

bencode.encode and bencode.decode are used under the contracts C01 and C02 decide: encode yields the encoding BENC(value), decode
yields the value of an encoding, any other value of the bencode domain, or a decode error."""
from .common import *
from .ws import enc_contract, packet_term
from .protocol import PACKETS, OTHER_CODES

PK = "dataplicity.m2m.packets"
PB = "dataplicity.m2m.packetbase"
TYPES = {"i": "PInt", "b": "PBytes", "d": "PDict", "l": "PList"}
NAMES = sorted(PACKETS)


def packet(ex):
    return ex.w.cls(PK + ".M2MPacket")


def declared(ex, t, v, loose=True):
    """The value has the declared type (booleans count as integers)."""
    c = getattr(Py, "is_" + TYPES[t])(v)
    return z3.Or(c, Py.is_PBool(v)) if t == "i" and loose else c


def refused(ex, v, what):
    ex.prove(ex.is_sub(v.clsname, PB + ".PacketFormatError"), what + " is refused with a packet format error")


def has_fields(ex, p, name, want, what):
    code, fields = PACKETS[name]
    ex.prove(isinstance(p, Ref) and ex.h(p).cls is not None and isval(ex, ex.expand(ex.getattr(ex.getattr(p, "type"), "value")), code), "the packet is of the type asked for")
    for (n, t), w in zip(fields, want):
        g = ex.to_py(ex.getattr(p, n))
        ex.prove(g == w, what)
        ex.prove(declared(ex, t, g), "the fields of a packet have their declared types")


def t_build(name):
    code, fields = PACKETS[name]
    n = len(fields)

    def body(ex):
        ex.task.contracts.setdefault("dataplicity.m2m.bencode:encode", enc_contract)
        ex.task.contracts.setdefault(PB + ":PacketBaseType.__repr__", lambda ex, fn, a, k: ex.fresh("packetrepr", "str"))
        vals = [ex.fresh(f, "py") for f, t in fields]
        odd = ex.choose(n + 1, "field with any value")
        for i, (x, (f, t)) in enumerate(zip(vals, fields)):
            ex.assume(z3.Implies(Py.is_PStr(x.t), T.ENCOK(Py.ps(x.t))) if i == odd else declared(ex, t, x.t))
        miss = ex.choose(n + 1, "missing field") if odd == n else n
        npos = ex.choose(2, "positional") and (miss if miss < n else n)
        extra = ex.choose(2, "one value too many") if npos == n else 0
        args = vals[:npos] + ([ex.fresh("more", "py:benc")] if extra else [])
        kw = {f: v for i, ((f, t), v) in enumerate(zip(fields, vals)) if i >= npos and i != miss}
        key = [code, name][ex.choose(2, "by name") if odd == n else 0]
        k, v = outcome(ex, lambda: ex.call(method(ex, packet(ex), "create"), [key] + args, kw))
        want = [z3.If(Py.is_PStr(x.t), Py.PBytes(T.UTF8(Py.ps(x.t))), x.t) if i == odd else x.t for i, x in enumerate(vals)]
        if miss < n:
            ex.prove(k == "exc", "a packet with a missing field is refused with a packet format error")
            if k == "exc":
                refused(ex, v, "a packet with a missing field")
                ex.eng.reach(ex, "missing")
            return
        good = z3.And(*[declared(ex, t, w) for (f, t), w in zip(fields, want)]) if fields else z3.BoolVal(True)
        if not ex.branch(good):
            ex.prove(k == "exc", "a packet with a wrongly typed field is refused with a packet format error")
            if k == "exc":
                refused(ex, v, "a packet with a wrongly typed field")
                ex.eng.reach(ex, "mistyped")
            return
        if extra and k == "exc":
            return
        ex.prove(k == "ok", "a packet with all its fields of the declared types can be built")
        if k != "ok":
            return
        has_fields(ex, v, name, want, "a packet has the values it was built from")
        b = ex.getattr(v, "as_bytes")
        ex.prove(kind_of(b) == "bytes" and term(b) == packet_term(ex, code, *[S("py", w) for w in want]), "the packet's bytes are the bencoding of its code followed by its fields in protocol order")
        ex.eng.reach(ex, "built")
    return body


def parse(ex, data, value):
    def dec(ex, fn, args, kw):
        ex.prove(kind_of(args[0]) == "bytes" and term(args[0]) == data.t, "the bytes given are the ones decoded")
        if value is None:
            ex.exc("dataplicity.m2m.bencode.DecodeError", "bad")
        return value
    ex.task.contracts["dataplicity.m2m.bencode:decode"] = dec
    ex.task.contracts.setdefault(PB + ":PacketBaseType.__repr__", lambda ex, fn, a, k: ex.fresh("packetrepr", "str"))
    return outcome(ex, lambda: ex.call(method(ex, packet(ex), "from_bytes"), [data]))


def t_parse(name):
    code, fields = PACKETS[name]

    def body(ex):
        q = ex.freshseq("packet", "py:benc")
        ex.assume(z3.Length(q) >= 1)
        ex.assume(q[0] == Py.PInt(z3.IntVal(code)))
        k, v = parse(ex, ex.fresh("data", "bytes"), ex.newseq(q, "py:benc"))
        f = [q[i + 1] for i in range(len(fields))]
        good = z3.And(z3.Length(q) >= len(f) + 1, *[declared(ex, t, x, False) for (n, t), x in zip(fields, f)])
        if not ex.branch(good):
            ex.prove(k == "exc" and ex.is_sub(v.clsname, PB + ".PacketError"), "bytes that are no packet are refused with a packet error")
            ex.eng.reach(ex, "malformed")
            return
        if k == "exc" and ex.branch(z3.Length(q) > len(f) + 1):
            ex.prove(ex.is_sub(v.clsname, PB + ".PacketError"), "bytes that are no packet are refused with a packet error")
            return
        ex.prove(k == "ok", "a packet's bytes parse")
        if k == "ok":
            has_fields(ex, v, name, f, "a packet parsed has the values it was sent with")
            ex.eng.reach(ex, "parsed")
    return body


def t_other(ex):
    """Bytes that decode to anything but a list starting with the code of a packet, or not at all."""
    known = [c for c, f in PACKETS.values()]
    c = ex.choose(5, "decoded")
    if c == 0:
        v = None
    elif c == 1:
        v = ex.fresh("value", "py:benc")
        ex.assume(z3.Not(Py.is_PList(v.t)))
    elif c == 2:
        v = ex.newlist([])
    else:
        q = ex.freshseq("packet", "py:benc")
        ex.assume(z3.Length(q) >= 1)
        if c == 3:
            ex.assume(z3.Not(Py.is_PInt(q[0])))
        else:
            ex.assume(Py.is_PInt(q[0]))
            for n in known:
                ex.assume(Py.pi(q[0]) != n)
        v = ex.newseq(q, "py:benc")
    k, r = parse(ex, ex.fresh("data", "bytes"), v)
    ex.prove(k == "exc" and ex.is_sub(r.clsname, PB + ".PacketError"), "bytes that are no packet are refused with a packet error")
    ex.eng.reach(ex, "refused %d" % c)


def tasks(w):
    out = []
    for n in NAMES:
        f = PACKETS[n][1]
        out.append(Task("build " + n, t_build(n), PB + ":PacketBaseType.create", must_reach=["built"] + (["missing", "mistyped"] if f else []), weight=len(f),
                        requires="any values, any of them missing, by position or name", ensures=["a packet with exactly these values iff all have their declared types, else a packet format error", "bytes = bencode([code] + fields)"]))
        out.append(Task("parse " + n, t_parse(n), PB + ":PacketBaseType.from_bytes", must_reach=["parsed"] + (["malformed"] if f else []), requires="any decoded list starting with the code",
                        ensures=["a packet of this type with these fields iff all are there and have their declared types, else a packet error"]))
    out.append(Task("parse anything else", t_other, PB + ":PacketBaseType.from_bytes", must_reach=["refused %d" % i for i in range(5)], ensures=["a packet error"]))
    return out


ASSUMPTIONS = ["bencode.encode yields the encoding of a value of the bencode domain, bencode.decode gives that value back (C01), and for other bytes a value of the domain or a decode error (C02)",
               "text given for a field is valid Unicode (no lone surrogates); at most one field of a packet is given as text, or with a wrong type, at a time", "lists and dictionaries given as fields hold values that can be encoded"]
