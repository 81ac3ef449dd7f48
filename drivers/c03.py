"""C03: packets of every type built, encoded and parsed; missing, mistyped and surplus fields; broken bytes."""
from m2m import benc
from protocol import PACKETS
from c04 import NAMES, T, real
from dataplicity.m2m import packetbase
from dataplicity.m2m.packets import M2MPacket, PacketType

CODES = {c: n for n, (c, f) in PACKETS.items()}


def value(rng, t):
    if t == "i":
        return rng.choice([0, 1, -1, 5, -3, 70000, 2 ** 40, -2 ** 70, 255, 256])
    if t == "b":
        return rng.choice(["", "a", "path/x", "\xff\x00", "long" * 300, "12:x", "e", "i5e"])
    if t == "d":
        return {"d": [[rng.choice(["action", "port", ""]), rng.choice(["x", 5, {"l": []}])] for _ in range(rng.randrange(3))]}
    if t == "s":
        return {"s": rng.choice(["", "text", "h\xe9", "\u20ac"])}
    if t == "B":
        return {"v": rng.choice(["True", "False", "None", "1.5"])}
    return {"l": [rng.choice(["a", 1, {"l": ["x"]}]) for _ in range(rng.randrange(3))]}


def gen(rng, n):
    name = NAMES[n % len(NAMES)] if n < 3 * len(NAMES) else rng.choice(NAMES)
    fields = PACKETS[name][1]
    f = [value(rng, t) for _, t in fields]
    k = rng.random()
    drop = None
    if k < 0.2 and f:
        drop = rng.randrange(len(f))
    elif k < 0.45 and f:
        f[rng.randrange(len(f))] = value(rng, rng.choice("ibdlsB"))
    elif k < 0.5:
        f.append(value(rng, rng.choice("ibdl")))
    return {"name": name, "fields": f, "drop": drop, "how": rng.choice(["build", "build", "parse", "parse", "bytes"]), "kw": rng.randrange(3), "key": rng.randrange(3),
            "code": rng.choice([None] * 5 + [23, 33, 99, 105, -1, 10, 12, 256, 1000]), "first": rng.choice([None] * 12 + ["1", {"l": []}]), "cut": rng.randrange(200), "sub": rng.randrange(256), "mode": rng.randrange(4)}


def smaller(c):
    for i, v in enumerate(c["fields"]):
        if isinstance(v, str) and v:
            f = list(c["fields"])
            f[i] = v[:len(v) // 2]
            yield dict(c, fields=f)


def val(v):
    if isinstance(v, dict) and "s" in v:
        return v["s"]
    if isinstance(v, dict) and "v" in v:
        return {"True": True, "False": False, "None": None, "1.5": 1.5}[v["v"]]
    return real(v)


def typed(p):
    code, fields = PACKETS[CODES[int(p.type)]]
    for n, t in fields:
        if not isinstance(getattr(p, n), T[t]):
            return "field %s of %r is %r" % (n, type(p).__name__, getattr(p, n))


def fields_of(p, name, want):
    if int(p.type) != PACKETS[name][0]:
        return "a packet of type %r instead of %s" % (p.type, name)
    for (n, t), w in zip(PACKETS[name][1], want):
        g = getattr(p, n)
        if g != w or type(g) is not type(w):
            return "%s.%s is %r instead of %r" % (name, n, g, w)


def check(c):
    name = c["name"]
    code, fields = PACKETS[name]
    vals = [val(v) for v in c["fields"]]
    want = [v.encode("utf-8") if isinstance(v, str) else v for v in vals]
    if c["how"] == "build":
        kw = {n: v for i, ((n, t), v) in enumerate(zip(fields, vals)) if i != c["drop"]}
        args = []
        if c["kw"] == 1 and c["drop"] is None:
            args, kw = vals, {}
        elif c["kw"] == 2:
            h = len(fields) // 2 if c["drop"] is None else min(len(fields) // 2, c["drop"])
            args, kw = vals[:h], {n: v for n, v in kw.items() if n not in [x for x, t in fields[:h]]}
        good = c["drop"] is None and all(isinstance(w, T[t]) for (n, t), w in zip(fields, want))
        try:
            p = M2MPacket.create([code, name, PacketType[name]][c["key"]], *args, **kw)
        except packetbase.PacketFormatError:
            return "%s with %r is refused" % (name, vals) if good and len(vals) == len(fields) else None
        except Exception as e:
            return "%s with %r fails with %r" % (name, kw or args, e)
        if not good:
            return "%s is built from %r (without %r)" % (name, vals, c["drop"])
        r = fields_of(p, name, want)
        if r:
            return r
        if any(not plain(w) for w in want):
            return None
        b = p.as_bytes
        if b != benc([code] + [int(w) if isinstance(w, bool) else w for w in want[:len(fields)]]):
            return "%s with %r is encoded as %r" % (name, vals, b)
        q = M2MPacket.from_bytes(b)
        if type(q) is not type(p):
            return "%r parses to %r" % (b, q)
        return fields_of(q, name, [int(w) if isinstance(w, bool) else w for w in want])
    if any(not plain(w) or isinstance(w, bool) for w in want):
        return None
    items = want[:c["drop"]] if c["drop"] is not None else want
    first = code if c["code"] is None else c["code"]
    if c["first"] is not None:
        first = real(c["first"])
    v = [first] + items
    if c["mode"] == 0 and c["how"] == "bytes":
        v = [[], {b"a": first}, 5, b"x", [v], items][c["cut"] % 6]
    b = benc(v)
    if c["how"] == "bytes" and c["mode"]:
        i = c["cut"] % len(b)
        b = [None, b[:i], b[:i] + bytes([c["sub"]]) + b[i + 1:], b[:i] + b[i + 1:]][c["mode"]]
    try:
        p = M2MPacket.from_bytes(b)
    except packetbase.PacketError:
        p = None
    except Exception as e:
        return "parsing %r fails with %r" % (b[:200], e)
    if p is not None:
        r = typed(p)
        if r:
            return r
    if c["how"] == "parse":
        n = CODES.get(first) if isinstance(first, int) else None
        good = n is not None and len(items) >= len(PACKETS[n][1]) and all(isinstance(w, T[t]) for (_, t), w in zip(PACKETS[n][1], items))
        if good and p is None and len(items) == len(PACKETS[n][1]):
            return "%r is refused" % (v,)
        if not good and p is not None:
            return "%r is accepted as %r" % (v, p)
        if p is not None:
            return fields_of(p, n, items)


def plain(v):
    if isinstance(v, (list, tuple)):
        return all(plain(x) for x in v)
    if isinstance(v, dict):
        return all(isinstance(k, bytes) and plain(x) for k, x in v.items())
    return isinstance(v, (int, bytes))
