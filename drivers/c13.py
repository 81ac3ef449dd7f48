"""C13: real file services on real and scripted files."""
import os, builtins, io
from service import *
from dataplicity.m2m import fileservice as F

REAL = builtins.open
EXCS = {"OSError": OSError(5, "io"), "EISDIR": IsADirectoryError(21, "dir"), "PermissionError": PermissionError(13, "no"), "MemoryError": MemoryError(), "FileNotFoundError": FileNotFoundError(2, "no"), "ValueError": ValueError("embedded null byte")}
WEXC = {"ws": WebSocketClosed("x"), "wse": WebSocketError("x"), "OSError": OSError(9, "x"), "other": RuntimeError("x"), "AssertionError": AssertionError("x")}
MIB = 1 << 20


def gen(rng, n):
    c = {"close_at": rng.choice([None] * 6 + [0, 1, 2, 3]), "fail_at": rng.choice([None] * 6 + [0, 1, 2]), "wexc": rng.choice(sorted(WEXC)), "slash": rng.choice(["/", "", "//", "/./"])}
    if n % 3 == 0:
        c.update(kind="real", size=rng.choice([0, 1, 2, 511, 4095, 4096, 4097, 65536, MIB - 1, MIB, MIB + 1, 2 * MIB, 3 * MIB + 17, rng.randrange(200000)]), what=rng.choice(["file"] * 8 + ["missing", "dir"]),
                 name=rng.choice(["f", "a b", "z\x01", ".hidden", "%41", "f\n", "~", "$HOME", "*", "a\\b"]))
    else:
        c.update(kind="script", chunks=["".join(rng.choice("ab\x00\xff\r\n") for _ in range(rng.choice([1, 1, 2, 5, 30]))) for _ in range(rng.choice([0, 1, 2, 3, 6]))], path=rng.choice(["etc/x", "a", "", "x/../y", "~root/x", " a", "a\x00b"]),
                 open=rng.choice([None] * 6 + sorted(EXCS)), read=rng.choice([None] * 6 + sorted(set(EXCS) - {"ValueError"})), read_at=rng.randrange(4), big=rng.random() < 0.2)
    return c


def smaller(c):
    for k in ("close_at", "fail_at", "open", "read"):
        if c.get(k) is not None:
            yield dict(c, **{k: None})
    if "chunks" in c:
        for i in range(len(c["chunks"])):
            yield dict(c, chunks=c["chunks"][:i] + c["chunks"][i + 1:])


class File(object):
    def __init__(self, c):
        self.c, self.chunks, self.n = c, [x.encode("latin-1") for x in c["chunks"]], 0
        if c["big"]:
            self.chunks = [x * 400000 for x in self.chunks]
        self.closed = False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("read of a closed file")
        if self.c["read"] and self.n >= self.c["read_at"]:
            self.bad = True
            raise EXCS[self.c["read"]]
        self.n += 1
        if n is None or n < 0:
            r, self.chunks = b"".join(self.chunks), []
            return r
        if not self.chunks or n == 0:
            return b""
        r = self.chunks[0][:n]
        self.chunks[0] = self.chunks[0][n:]
        if not self.chunks[0]:
            self.chunks.pop(0)
        return r
    bad = False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def check(c):
    ch = Channel(c["close_at"], c["fail_at"], WEXC[c["wexc"]], live=True)
    lim = Limiter("services", 3)
    content = bad = None
    files = []
    if c["kind"] == "real":
        d = os.path.join(os.environ["VP_SCRATCH"], "c13")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, c["name"])
        content = (b"0123456789\x00\xff\n" * (c["size"] // 13 + 1))[:c["size"]]
        if c["what"] == "file":
            with open(path, "wb") as f:
                f.write(content)
        elif c["what"] == "dir":
            path = d
        else:
            path = path + ".missing"
        bad = c["what"] != "file"
        arg = c["slash"] + path[1:]
        t, e = launch(F.FileService, lim, ch, arg)
        e = e or finish(t)
        if c["what"] == "file":
            os.unlink(path)
    else:
        arg = c["slash"] + c["path"]
        want = arg if arg.startswith("/") else "/" + arg

        def fake(p, *a, **k):
            mode = a[0] if a else k.get("mode", "r")
            if not isinstance(p, str) or p.startswith(os.environ["VP_SCRATCH"]) or p.endswith(".py"):
                return REAL(p, *a, **k)
            files.append((p, mode))
            if p == want and c["open"]:
                raise EXCS[c["open"]]
            f = File(c)
            files.append(f)
            return f
        builtins.open = io.open = F.open = fake
        try:
            t, e = launch(F.FileService, lim, ch, arg)
            e = e or finish(t)
        finally:
            builtins.open = io.open = REAL
            del F.open
        if files and files[0][0] != want:
            return "path %r opened %r" % (arg, files[0][0])
        fs = [f for f in files if isinstance(f, File)]
        content = b"".join(x.encode("latin-1") * (400000 if c["big"] else 1) for x in c["chunks"])
        bad = bool(c["open"]) or any(f.bad for f in fs)
    if e:
        return e
    closes = [i for i, x in enumerate(ch.ev) if x[0] == "close"]
    if len(closes) != 1 or closes[0] != len(ch.ev) - 1:
        return "events on the channel: %r" % ([x[0] for x in ch.ev],)
    if any(len(x[1]) > MIB for x in ch.ev if x[0] == "write"):
        return "a chunk of %d bytes" % max(len(x[1]) for x in ch.ev if x[0] == "write")
    got = ch.data()
    if not content.startswith(got) and not (c["kind"] == "real" and bad and not got):
        return "%r... was written for the content %r..." % (got[:60], content[:60])
    if bad and not any(x[0] == "control" and x[1].get("type") == "error" for x in ch.ev):
        return "no error for an unreadable file: %r" % (ch.ev,)
    if not bad and not ch.failed and not ch.is_closed and got != content:
        return "%d of %d bytes were written" % (len(got), len(content))
