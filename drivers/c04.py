"""C04: packets of every code with well-formed, missing, mistyped and surplus fields; what they reach is compared with the protocol."""
from m2m import *
from protocol import PACKETS, OTHER_CODES, INCOMING
from dataplicity.m2m.packets import M2MPacket, PacketType

NAMES = sorted(PACKETS)
BY_CODE = {c: n for n, (c, f) in PACKETS.items()}


def value(rng, t):
    if t == "i":
        return rng.choice([0, 1, 2, 5, 9, -3, 70000])
    if t == "b":
        return rng.choice(["", "a", "path/x", "\xff\x00", "long" * 300])
    if t == "d":
        return {"d": [[rng.choice(["action", "port"]), rng.choice(["x", 5])]]}
    return {"l": [rng.choice(["a", 1])]}


def gen(rng, n):
    if n < len(NAMES) * 2:
        name = NAMES[n % len(NAMES)]
        if n >= len(NAMES):
            return {"out": name, "fields": [value(rng, t) for _, t in PACKETS[name][1]], "how": rng.randrange(4)}
        return {"code": PACKETS[name][0], "fields": [value(rng, t) for _, t in PACKETS[name][1]]}
    k = rng.random()
    if k < 0.08:
        return {"raw": rng.choice(["i5e", "2:\x0e\x05", "1:\x00", "3:abc", "le", "de", "d1:ai1ee", "l1:ae", "lle", "li14ee", "x", "", "li14ei5e", "ld1:ai1eei1ee", "l1:\x0ei5ee"])}
    if k < 0.18:
        name = rng.choice(NAMES)
        return {"out": name, "fields": [value(rng, t) for _, t in PACKETS[name][1]], "how": rng.randrange(4)}
    name = rng.choice(INCOMING)
    f = [value(rng, t) for _, t in PACKETS[name][1]]
    m = rng.random()
    code = PACKETS[name][0]
    if m < 0.3 and f:
        f = f[:rng.randrange(len(f))]
    elif m < 0.6 and f:
        f[rng.randrange(len(f))] = value(rng, rng.choice("ibdl"))
    elif m < 0.7:
        f.append(value(rng, rng.choice("ibdl")))
    elif m < 0.8:
        code = rng.choice([23, 33, 99, 105, -1, 10, 12, 8, 256, 13, 25, code + 256, -code, code + 128, code + 65536, code * 10, code + 1000])
    return {"code": code, "fields": f}


def real(v):
    if isinstance(v, str):
        return v.encode("latin-1")
    if isinstance(v, dict) and "d" in v:
        return {k.encode(): real(x) for k, x in v["d"]}
    if isinstance(v, dict):
        return [real(x) for x in v["l"]]
    return v


T = {"i": int, "b": bytes, "d": dict, "l": list}


class Rec(object):
    def __init__(self, log):
        self._log = log

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return lambda *a, **k: self._log.append((n, a))


def check(c):
    if "out" in c:
        name = c["out"]
        code, fields = PACKETS[name]
        vals = [real(v) for v in c["fields"]]
        key = [name, code, name.encode() if False else name, PacketType[name]][c["how"]]
        p = M2MPacket.create(key, **dict(zip([n for n, t in fields], vals))) if c["how"] % 2 == 0 else M2MPacket.create(key, *vals)
        want = benc([code] + vals)
        return None if p.as_bytes == want else "packet %s is encoded as %r instead of %r" % (name, p.as_bytes, want)
    log, chlog, rsp = [], [], []
    cl = client(manager=Rec(log), remote=Rec(log))
    for i in (0, 1, 2):
        ch = cl.get_channel(i)
        ch.set_callbacks(on_data=lambda d, i=i: chlog.append(("data", i, d)), on_control=lambda d, i=i: chlog.append(("control", i, d)), on_close=lambda i=i: chlog.append(("close", i)))
        cl.add_callback(i, lambda r, i=i: rsp.append((i, r)))
    quiet = cl.get_channel(5)
    before = {k: cl.get_channel(k) for k in (0, 1, 2, 5)}
    data = c["raw"].encode("latin-1") if "raw" in c else benc([c["code"]] + [real(v) for v in c["fields"]])
    raised = None
    try:
        cl.on_binary(data)
    except Exception as e:
        raised = e
    out = list(cl.websocket.out)
    opened = sorted(cl.open_channels, key=repr)
    buffered = quiet.read(10 ** 6)
    got = dict(log=log, channels=chlog, responses=rsp, sent=out, buffered=buffered, open=opened)
    want = dict(log=[], channels=[], responses=[], sent=[], buffered=b"", open=[0, 1, 2, 5])
    name = None
    if "raw" in c:
        try:
            v, i = bdec(data)
        except Exception:
            v = None
        if isinstance(v, list) and v and isinstance(v[0], int):
            name, f = BY_CODE.get(v[0]), v[1:]
    else:
        name, f = BY_CODE.get(c["code"]), [real(v) for v in c["fields"]]
    surplus = False
    if name in INCOMING:
        types = PACKETS[name][1]
        if len(f) >= len(types) and all(isinstance(x, T[t]) for x, (_, t) in zip(f, types)):
            surplus = len(f) > len(types)
            if surplus and raised is not None and got == want:
                return None
            a = tuple(f[:len(types)])
            if name == "route":
                if a[0] in (0, 1, 2):
                    want["channels"] = [("data",) + a]
                elif a[0] == 5:
                    want["buffered"] = a[1]
                else:
                    want["open"] = sorted([0, 1, 2, 5, a[0]], key=repr)
                    extra = cl.get_channel(a[0]).read(10 ** 6)
                    if extra != a[1]:
                        return "data for channel %d: %r arrived instead of %r" % (a[0], extra, a[1])
            elif name == "route_control":
                if a[0] in (0, 1, 2):
                    want["channels"] = [("control",) + a]
                elif a[0] != 5:
                    want["open"] = sorted([0, 1, 2, 5, a[0]], key=repr)
            elif name == "notify_open":
                want["open"] = sorted({0, 1, 2, 5, a[0]}, key=repr)
            elif name == "notify_close":
                if a[0] in (0, 1, 2):
                    want["channels"] = [("close", a[0])]
                want["open"] = [k for k in (0, 1, 2, 5) if k != a[0]]
            elif name == "ping":
                want["sent"] = [[8, a[0][:1024]]]
            elif name == "set_identity":
                want["log"] = [("set_identity", a)]
            elif name == "instruction":
                want["log"] = [("on_instruction", a)]
            elif name == "response":
                if a[0] in (0, 1, 2):
                    want["responses"] = [a]
            elif name == "scan_remote_directory":
                want["log"] = [("scan", ())]
            elif name in ("null", "welcome", "log", "notify_login_success"):
                if name == "notify_login_success" and getattr(cl, "user", None) != a[0]:
                    return "login of %r not recorded" % (a[0],)
            else:
                want["log"] = [("on_" + name, (cl,) + a)]
            if raised is not None:
                return "the packet %s %r fails with %r" % (name, f, raised)
    for k in got:
        if got[k] != want[k]:
            return "message %r (%s): %s is %r instead of %r" % (data[:80], name, k, got[k], want[k])
    for k in got["open"]:
        if k in before and cl.get_channel(k) is not before[k]:
            return "message %r replaced channel %d" % (data[:80], k)
    return None
