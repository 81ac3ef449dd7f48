"""C25: the same packets with two different passwords (or different bytes after the first 32 of a field) show the same texts."""
import io, logging, contextlib
from dataplicity.m2m import bencode, wsclient
from dataplicity.m2m.packets import M2MPacket, PacketType

KINDS = {int: "int", bytes: "bytes", dict: "dict", list: "list"}


def classes():
    out = []
    for k, c in sorted(M2MPacket.registry.items(), key=lambda x: int(x[0])):
        out.append((int(k), c, [(n, ty[0] if isinstance(ty, tuple) else ty) for n, ty in c.attributes]))
    return out


CS = classes()
SECRET = [i for i, (k, c, at) in enumerate(CS) if any(n == "password" for n, t in at)]


def word(rng, n):
    return "".join(rng.choice("abcXYZ012 '\"\\%{}\n\x00\xe9") for _ in range(n))


def gen(rng, n):
    i = rng.choice(SECRET) if rng.random() < 0.6 and SECRET else rng.randrange(len(CS))
    code, cls, at = CS[i]
    vals = []
    for name, ty in at:
        k = KINDS.get(ty, "bytes") if rng.random() < 0.85 else rng.choice(["bytes", "str", "int", "list", "none"])
        if name == "password":
            a, b = word(rng, rng.choice([0, 1, 8, 31, 32, 33, 40, 200])), word(rng, rng.choice([0, 1, 8, 12, 40]))
            if k == "int":
                a, b = rng.randrange(-9, 10 ** 6), rng.randrange(-9, 10 ** 6)
        else:
            ln = rng.choice([0, 1, 5, 31, 32, 33, 34, 64, 65, 100])
            head = word(rng, 32)[:ln]
            a = head + word(rng, max(0, ln - 32))
            b = head + word(rng, max(0, ln - 32))
            if k != "bytes":
                b = a
            if k == "int":
                a = b = rng.randrange(-9, 10 ** 6)
        vals.append([k, a, b])
    nv = len(vals) + (rng.choice([-2, -1, 1]) if rng.random() < 0.25 else 0)
    return {"type": code, "vals": vals, "n": max(0, nv), "kw": rng.randrange(3), "how": rng.choice(["print", "send", "sendp", "receive", "receive", "build", "raw", "shape"]), "lost": rng.random() < 0.3, "cut": rng.randrange(1, 60)}


def smaller(c):
    for i, (k, a, b) in enumerate(c["vals"]):
        if isinstance(a, str):
            for x, y in ((a[:-1], b[:-1]), (a[:len(a) // 2], b[:len(b) // 2])):
                if (x, y) != (a, b):
                    v = list(c["vals"])
                    v[i] = [k, x, y]
                    yield dict(c, vals=v)


def value(k, v):
    if k == "bytes":
        return str(v).encode("latin-1")
    if k == "str":
        return str(v)
    if k == "int":
        return int(v)
    if k == "none":
        return None
    return {} if k == "dict" else []


class H(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.out = []
        self.f = logging.Formatter("%(levelname)s %(message)s")

    def emit(self, r):
        t = [r.levelname]
        try:
            t.append(r.getMessage())
        except Exception as e:
            t.append(type(e).__name__)
        if r.exc_info and r.exc_info[1] is not None:
            e = r.exc_info[1]
            while e is not None:
                t.append("%s: %s" % (type(e).__name__, e))
                e = e.__cause__ or e.__context__
        self.out.append(t)


def run(c, j):
    from lomond import events
    vals = [value(v[0], v[1 + j]) for v in c["vals"]]
    code, cls, at = [x for x in CS if x[0] == c["type"]][0]
    args, kw = vals[:c["n"]], {}
    if c["n"] > len(vals):
        args = args + [b"more"]
    elif c["kw"]:
        cut = len(args) * (c["kw"] - 1) // 2
        kw = {n: v for (n, t), v in list(zip(at, args))[cut:]}
        args = args[:cut]
    shown = []
    h = H()
    root = logging.getLogger()
    lg = [root] + [l for l in logging.Logger.manager.loggerDict.values() if isinstance(l, logging.Logger)]
    old = [(l, l.level, l.handlers, l.propagate) for l in lg]
    dis = logging.root.manager.disable
    out, err = io.StringIO(), io.StringIO()

    class WS(object):
        def __init__(self, *a, **k):
            self.first = None

        def send_binary(self, d):
            if c.get("lost"):
                from lomond.errors import WebSocketUnavailable
                raise WebSocketUnavailable("not connected")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    class Man(object):
        def __getattr__(self, n):
            return lambda *a, **k: None
    save = wsclient.lomond.WebSocket if hasattr(wsclient, "lomond") else None
    persist = wsclient.persist
    try:
        for l in lg:
            l.setLevel(1)
            l.handlers = [h] if l is root else []
            l.propagate = True
        logging.disable(logging.NOTSET)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                if c["how"] in ("print", "build"):
                    p = M2MPacket.create(c["type"], *args, **kw)
                    shown += [repr(p), str(p), "%s" % (p,), "{}".format(p)]
                else:
                    cl = wsclient.WSClient(Man(), "ws://localhost:9/", Man())
                    cl.websocket = WS()
                    if c["how"] == "send":
                        cl.send(PacketType(c["type"]), *args, **kw)
                    elif c["how"] == "sendp":
                        cl.send(M2MPacket.create(c["type"], *args, **kw))
                    else:
                        if None in vals:
                            return ["nothing"]
                        body = [c["type"]] + vals[:c["n"]] + ([b"more"] if c["n"] > len(vals) else [])
                        d = bencode.encode(body)
                        if c["how"] == "shape":
                            d = bencode.encode([{b"password": vals[-1:]}, [999] + vals, [c["type"], vals]][c["cut"] % 3])
                        if c["how"] == "raw":
                            d = d[:-1] + (b"x" if c["cut"] % 2 else b"")       # broken at the end
                        wsclient.persist = lambda *a, **k: iter([events.Binary(d)])
                        cl.run()
            except Exception as e:
                shown.append("%s: %s" % (type(e).__name__, e))
                shown.append(repr(e))
    finally:
        wsclient.persist = persist
        for l, v, hs, p in old:
            l.level, l.handlers, l.propagate = v, hs, p
        for l in lg:
            getattr(l, "_cache", {}).clear()
        logging.disable(dis)
    return [shown, h.out, out.getvalue(), err.getvalue()]


def check(c):
    if c["how"] in ("send", "receive", "raw", "sendp", "shape") and not any(n == "password" for k, cl, at in CS if k == c["type"] for n, t in at):
        c = dict(c, how="print")
    a, b = run(c, 0), run(c, 1)
    if a != b:
        return "shown differs: %s / %s" % (str(a)[:400], str(b)[:400])
