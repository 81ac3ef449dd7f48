"""C17, C18, C19: real remote-file requests in a scratch directory, with faults injected into the file functions underneath."""
import os, io, builtins, errno, posixpath, shutil, tempfile, random
from dataplicity import remote_directory as M, disk_tools
from dataplicity.m2m.wsclient import WSClient
from dataplicity.m2m.packets import M2MPacket, PacketType

REAL = {n: getattr(os, n) for n in ("remove", "unlink", "rename", "replace", "mkdir", "makedirs", "link", "symlink", "rmdir", "truncate")}
OPEN, IOOPEN, OSOPEN = builtins.open, io.open, os.open
ROOT = os.path.realpath(os.environ.get("VP_SCRATCH", "/nonexistent"))
EXC = {"EIO": lambda: OSError(errno.EIO, "io"), "ENOSPC": lambda: OSError(errno.ENOSPC, "full"), "EACCES": lambda: PermissionError(errno.EACCES, "no"), "EXDEV": lambda: OSError(errno.EXDEV, "cross"), "ValueError": lambda: ValueError("embedded"),
       "MemoryError": lambda: MemoryError(), "noerr": lambda: OSError(), "Runtime": lambda: RuntimeError("odd \u20ac"), "ENOENT": lambda: FileNotFoundError(errno.ENOENT, "gone")}
NAMES = ["a.txt", "b", "sub/c.bin", ".hidden", "x.tar.gz", "\u20ac.txt", "sub/.d", "sub", "none", "no/such", "a b", "(1)", "a(1).txt", "...", "..a", "a..", "sub/deep/e"]
ESC = ["../secret", "sub/../../secret", "/../secret", "..", "sub/..", "/..", "../remote2/x", "//../secret", "../../etc/passwd", "../outside/d.txt", "./../secret", "a/../../../x", "..\\secret", "sub/../a.txt", "%2e%2e/secret"]
IDS = ["u1", "abc-123", "..", ".", "", "a/b", "../x", "/etc/passwd", "\u20ac", "a\x00b", "u 1", "..x", "u1/", "/", "../secret", "../dataplicity_remote/u1", "u1/../u2", "~", "\xff\xfe", "..%2F..%2Fsecret", "..%2fx", "../../secret", "%2e%2e/x", "..%2F..%2F..%2Fx", "..\\..\\secret", "..%5Cx"]


def b(s):
    """Text or escaped raw bytes of a case as bytes."""
    return s.encode("utf-8", "surrogateescape")


def gen_path(rng):
    r = rng.random()
    if r < 0.45:
        p = rng.choice(NAMES)
    elif r < 0.75:
        p = rng.choice(ESC)
    elif r < 0.82:
        p = rng.choice(["\0scan.json", "\0", "\0other", "\0../secret", "", "/", "//", ".", "./a.txt", "\0scan.json/..", "@ABS@/outside/secret", "@ABS@/remote/a.txt", "@ABS@/remote2/x", "@TMP@/dataplicity_remote/old"])
    elif r < 0.86:
        p = "\udcff\udcfe" + rng.choice(NAMES)
    else:
        p = "/".join(rng.choice(["..", ".", "", "sub", "a.txt", "remote", "secret", "...", "outside"]) for _ in range(rng.randrange(1, 6)))
    return rng.choice(["", "", "/", "//"]) + p


def gen(rng, n, kinds):
    k = kinds[n % len(kinds)]
    c = {"kind": k, "id": rng.choice(IDS[:2] * 6 + IDS), "path": gen_path(rng), "fault": None if rng.random() < 0.55 else [rng.randrange(8), rng.choice(sorted(EXC)), rng.random() < 0.5], "snapdir": rng.random() < 0.8, "snap": rng.choice([None, "old", "snapshot-content-0123456789"]),
         "rroot": rng.choice(["remote", "remote", "remote", "remote/", "rem/../remote", "sub dir"])}
    if rng.random() < 0.06:
        c["id"] = "\udcff" + c["id"]
    if rng.random() < 0.12:      # a plain request whose very last steps fail
        c.update(id="u1", path=rng.choice(["a.txt", "b", "new", "sub/n"]), snapdir=True, rroot="remote", fault=[rng.choice(["rename", "rename", "close-wb", "readf", "close-r+b", "open-os", "open-rb"]), rng.choice(["EXDEV", "EIO", "ENOSPC"]), rng.random() < 0.7])
        plain = True
    else:
        plain = False
    if k == "open" and rng.random() < 0.15:
        c.update(id="u1", path=rng.choice(["a.txt", "b"]), rroot="remote", fault=None, meddle=rng.choice(["close-wb", "open-wb", "open-rb", "usage"]))
    elif k == "open" and rng.random() < 0.2:
        c.update(path=rng.choice(["..", "/..", "", "../remote", "/", "/@ABS@/remote", "@ABS@/remote", "@ABS@/sub dir/.."]) + rng.choice(["2/x", "/../secret", "/a.txt", "/x"]), id="u1", fault=None)
    if k == "read":
        c.update(offset=rng.choice([0, 0, 1, 3, 10, 26, 100, -1, 1 << 40]), size=rng.choice([0, 1, 5, 26, 1000, -1, 65536]))
        c["snap"] = rng.choice(["old", "snapshot-content-0123456789", "snapshot-content-0123456789", None])
    if k == "write":
        if rng.random() < 0.5:
            c["path"] = rng.choice(["", "/"]) + rng.choice(NAMES)
        c.update(dev=rng.choice(["", "", "@DL@/u1", "@DL@/u1", "@DL@/u1", "@DL@/none", "@DL@/../x", "@DL@//u1", "@DL@/a/b", "@TMP@/dataplicity_remote/old", "@ABS@/outside/secret", "@DL@", "@DL@/", "@DL@/.", "@DL@/..", "@DL@x/u1", "u1", "relative/u1", "@DL@/\udcff", "@ABS@/remote/a.txt", "@DL@/../../outside/secret", "@TMP@/u1"]),
                 offset=rng.choice([0, 0, 3, 10, 50, -1]), data=rng.choice(["", "x", "hello", "\x00\xff\n", "y" * 70000]), final=rng.choice([0, 1, 1, 1, 2, -1]), taken=rng.choice([0, 0, 0, 1, 2, 5, 99, 100, 101, 102]), gap=rng.choice([None, None, None, 1, 3, 50]))
        if plain:
            c.update(dev=rng.choice(["", "@DL@/u1"]), offset=0, final=1, taken=0, gap=None)
    return c


def smaller(c):
    if c["fault"]:
        yield dict(c, fault=None)
    if c.get("data"):
        yield dict(c, data=c["data"][:-1] if len(c["data"]) < 10 else "hello")
    if c.get("taken"):
        yield dict(c, taken=c["taken"] - 1)
    if c.get("gap") is not None:
        yield dict(c, gap=None)


class World(object):
    def __init__(self, c):
        self.c = c
        self.top = os.path.join(ROOT, "w")
        shutil.rmtree(self.top, ignore_errors=True)
        for d in ("remote/sub/deep", "remote2", "outside", "tmp", "gtmp", "sub dir/sub", "rem"):
            os.makedirs(os.path.join(self.top, d))
        R = self.R = os.path.abspath(os.path.join(self.top, c["rroot"]))
        self.T, self.G = os.path.join(self.top, "tmp"), os.path.join(self.top, "gtmp")
        put = self.put
        for n, s in (("a.txt", "alpha"), ("b", "b" * 1000), ("sub/c.bin", "\x00\x01"), (".hidden", "h"), ("sub/.d", "d")):
            put(os.path.join(R, n), s.encode())
        put(os.path.join(self.top, "secret"), b"SECRET-1")
        put(os.path.join(self.top, "outside/secret"), b"SECRET-2")
        put(os.path.join(self.top, "remote2/x"), b"SECRET-3")
        put(os.path.join(self.G, "__dataplicity_remote_directory_scan___.json"), b"[1, 2, 3]")
        self.SN, self.DL = os.path.join(self.T, "dataplicity_remote"), os.path.join(self.T, "dataplicity_remote_downloads")
        if c["snapdir"]:
            os.mkdir(self.SN)
            os.mkdir(self.DL)
            put(os.path.join(self.SN, "old"), b"old")
            if c["snap"]:
                put(os.path.join(self.SN, "u1"), c["snap"].encode())
            put(os.path.join(self.DL, "u1"), b"downloaded so far")
        self.ev, self.n, self.bad, self.faulted, self.on, self.hit, self.meddled = [], 0, [], [], False, False, False

    def put(self, p, data):
        with OPEN(p, "wb") as f:
            f.write(data)

    def tree(self):
        out = {}
        for d, ds, fs in os.walk(self.top):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    continue
                with OPEN(p, "rb") as h:
                    out[p] = h.read()
            out[d] = None
        return out

    # ---- primitives
    def op(self, name, *paths):
        if not self.on:
            return
        self.n += 1
        ps = []
        for p in paths:
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if isinstance(p, str):
                ps.append(p)
                if not posixpath.normpath(os.path.join(os.getcwd(), p)).startswith(self.top + "/"):
                    self.bad.append("%s touches %r" % (name, p))
                    raise PermissionError(errno.EACCES, "outside the scratch directory (driver)")
        self.ev.append((name,) + tuple(ps))
        f = self.c["fault"]
        m = self.c.get("meddle")
        if m == name and not self.meddled:      # the file asked for changes meanwhile
            self.meddled = True
            self.on = False
            try:
                for q in ("a.txt", "b"):
                    with OPEN(os.path.join(self.R, q), "ab") as h:
                        h.write(b"+++")
            finally:
                self.on = True
        if f and isinstance(f[0], str):
            if f[0] == name:
                self.hit = True
                self.faulted.append(self.ev[-1])
                raise EXC[f[1]]()
            if f[2] and self.hit:
                self.faulted.append(self.ev[-1])
                raise EXC[f[1]]()
        elif f and (self.n - 1 == f[0] or (f[2] and self.n - 1 > f[0])):
            self.faulted.append(self.ev[-1])
            raise EXC[f[1]]()

    def direct(self, d, p):
        h, t = posixpath.split(p)
        return h == d and t not in ("", ".", "..") and "/" not in t

    def inside(self, p):
        return p.startswith(self.R + "/") and ".." not in p.split("/")


class File(object):
    def __init__(self, w, f, p, mode):
        self._w, self._f, self._p, self._m = w, f, p, mode
        self._rw = "r" if mode.replace("b", "").replace("t", "") == "r" else "w"

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        try:
            if self._rw != "r":
                self._w.op("close-" + self._m, self._p)
        finally:
            r = self._f.__exit__(*a)
        return r

    def close(self):
        try:
            if not self._f.closed and self._rw != "r":
                self._w.op("close-" + self._m, self._p)
        finally:
            self._f.close()

    def read(self, *a):
        self._w.op("readf", self._p)
        return self._f.read(*a)

    def write(self, *a):
        self._w.op("writef-" + self._m, self._p)
        return self._f.write(*a)

    def seek(self, *a):
        self._w.op("seekf-" + self._m, self._p)
        return self._f.seek(*a)

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, n):
        return getattr(self._f, n)


def patch(w):
    saved = []

    def set_(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def opener(file, mode="r", *a, **k):
        w.op("open-" + mode, file)
        f = OPEN(file, mode, *a, **k)
        return File(w, f, file, mode) if w.on else f

    def osopen(path, *a, **k):
        w.op("open-os", path)
        return OSOPEN(path, *a, **k)
    set_(builtins, "open", opener)
    set_(io, "open", opener)
    set_(os, "open", osopen)
    for n, f in REAL.items():
        def g(*a, _n=n, _f=f, **k):
            ps = [x for x in a[:2] if isinstance(x, (str, bytes))]
            if not w.on:
                return _f(*a, **k)
            w.op(_n, *(ps[:1] if _n in ("mkdir", "makedirs", "remove", "unlink", "rmdir", "truncate") else ps))
            on, w.on = w.on, False
            try:
                return _f(*a, **k)
            finally:
                w.on = on
        set_(os, n, g)
    set_(tempfile, "gettempdir", lambda: w.G)

    def usage(p):
        w.op("usage")
        return REALUSAGE(p)
    set_(disk_tools, "disk_usage", usage)
    ex, ab = os.path.exists, os.path.getsize
    return lambda: [setattr(o, n, v) for o, n, v in reversed(saved)]


REALUSAGE = disk_tools.disk_usage


class Client(object):
    def __init__(self, rd):
        self.remote_directory, self.sent = rd, []

    def send(self, pt, *a, **k):
        self.sent.append(M2MPacket.create(pt, *a, **k))


def variation(d0, R, isdir, n):
    d, f = posixpath.split(d0)
    if not isdir(d):
        d = R
    r, e = posixpath.splitext(f)
    return "%s/%s(%d)%s" % (d, r, n, e)


def run(c):
    """(world, tree before, tree after, packets, escaped exception, arguments)."""
    w = World(c)
    sub = lambda s: s.replace("@ABS@", w.top).replace("@TMP@", w.T).replace("@DL@", w.DL)
    path, id = b(sub(c["path"])), b(c["id"])
    rd = M.RemoteDirectory(os.path.join(w.top, c["rroot"]), None)
    rd.temp_path = w.T
    cl = Client(rd)
    a = {"path": path, "id": id}
    if c["kind"] == "write":
        a.update(dev=b(sub(c["dev"])), data=c["data"].encode("latin-1"))
        try:
            d0 = posixpath.join(w.R, path.decode("utf-8").lstrip("/"))
            a["d0"] = d0
            if w.inside(d0) and "\0" not in d0 and c["taken"]:
                names = [d0] + [variation(d0, w.R, os.path.isdir, i) for i in range(1, c["taken"])]
                for i, p in enumerate(names):
                    if i != c["gap"] and not os.path.exists(p) and os.path.isdir(os.path.dirname(p)):
                        w.put(p, b"taken %d" % i)
        except (UnicodeDecodeError, UnicodeEncodeError, OSError):
            pass
    if c["kind"] == "write" and a.get("d0") and w.inside(a["d0"]):
        try:
            a["free"] = [p for p in [a["d0"]] + [variation(a["d0"], w.R, os.path.isdir, i) for i in range(1, 101)] if not os.path.exists(p)]
        except ValueError:
            pass
    before = w.tree()
    undo = patch(w)
    err = None
    w.on = True
    try:
        try:
            if c["kind"] == "open":
                WSClient.on_open_remote_file(cl, PacketType.open_remote_file, id, path)
            elif c["kind"] == "read":
                WSClient.on_read_remote_file(cl, PacketType.read_remote_file, id, c["offset"], c["size"])
            elif c["kind"] == "close":
                WSClient.on_close_remote_file(cl, PacketType.close_remote_file, id)
            else:
                WSClient.on_write_remote_file(cl, PacketType.write_remote_file, id, path, a["dev"], c["offset"], a["data"], c["final"])
        finally:
            w.on = False
            undo()
    except Exception as e:
        err = e
    after = w.tree()
    return w, before, after, cl.sent, err, a


def changed(before, after):
    return [p for p in sorted(set(before) | set(after)) if p not in before or p not in after or before[p] != after[p]]


def text(bs):
    try:
        return bs.decode("utf-8")
    except UnicodeDecodeError:
        return None


# ------------------------------------------------------------------ C17
def check17(c):
    c = dict(c, meddle=None)
    w, before, after, sent, err, a = run(c)
    if w.bad:
        return w.bad[0]
    for e in w.ev:
        k, ps = e[0], e[1:]
        if k in ("mkdir", "makedirs"):
            if ps[0] != w.SN:
                return "%s request creates directory %s" % (c["kind"], ps[0])
        elif k in ("open-rb", "open-r", "readf", "open-os"):
            p = ps[0]
            if not (w.direct(w.SN, p) or (c["kind"] == "open" and (w.inside(p) or p == w.G + "/__dataplicity_remote_directory_scan___.json"))):
                return "%s request reads %s" % (c["kind"], p)
        else:
            for p in ps:
                if not w.direct(w.SN, p):
                    return "%s request: %s of %s" % (c["kind"], k, p)
    for p in changed(before, after):
        if p != w.SN and not w.direct(w.SN, p):
            return "%s request changes %s" % (c["kind"], p)
    # nothing but what was asked for ends in a snapshot
    for p in changed(before, after):
        if after.get(p) and b"SECRET" in after[p]:
            return "a file outside the remote directory was copied to %s" % p
    for s in sent:
        if b"SECRET" in getattr(s, "data", b""):
            return "a file outside the remote directory was read"
    if c["kind"] == "close" and not c["fault"] and c["snap"] and c["snapdir"] and c["id"] == "u1" and os.path.join(w.SN, "u1") in after:
        return "closing did not remove the snapshot"


# ------------------------------------------------------------------ C18
def check18(c):
    w, before, after, sent, err, a = run(c)
    if w.bad:
        return w.bad[0]
    d0 = a.get("d0")
    dests = []
    if a.get("free"):
        dests = a["free"][:1]
        dests += [posixpath.normpath(p) for p in dests if posixpath.normpath(p) != p]
    failed = False
    for e in w.ev:
        k, ps = e[0], e[1:]
        if e in w.faulted:
            failed = True
        if k in ("mkdir", "makedirs"):
            if ps[0] != w.DL:
                return "a write request creates directory %s" % ps[0]
        elif k in ("rename", "replace", "link", "symlink"):
            if not w.direct(w.DL, ps[0]):
                return "%s is moved away" % ps[0]
            if ps[1] not in dests:
                return "a download is moved to %s (free: %s)" % (ps[1], dests)
        elif k == "usage":
            pass
        elif k in ("remove", "unlink"):
            if not w.direct(w.DL, ps[0]):
                return "a write request removes %s" % ps[0]
        else:
            if not w.direct(w.DL, ps[0]) and ps[0] not in dests:
                return "a write request: %s of %s" % (k, ps[0])
            if ps[0] in dests and not any(x[0] in ("rename", "replace") for x in w.ev):
                return "data are written to %s" % ps[0]
    for p in changed(before, after):
        if p in (w.DL, ) or w.direct(w.DL, p):
            continue
        if p in before:
            return "%s was overwritten or removed" % p
        if p not in dests:
            return "%s was created (free: %s)" % (p, dests)
    code = sent[0].fail if len(sent) == 1 else None
    if code == 3 and not w.faulted and dests and os.path.isdir(os.path.dirname(dests[0])) and "\0" not in dests[0] and dests[0].isascii():
        name = posixpath.basename(dests[0])
        src = text(a["dev"]) or (w.DL + "/" + (text(a["id"]) or ""))
        if name not in ("", ".") and src in before or (not a["dev"] and name not in ("", ".")):
            return "the download was refused although %s is free: %s" % (dests[0], sent[0].fail_reason)
    if code == 2 and not w.faulted and c["offset"] >= 0 and a["dev"] and text(a["dev"]) in before:
        return "the data were refused: %s" % sent[0].fail_reason


# ------------------------------------------------------------------ C19
def check19(c):
    w, before, after, sent, err, a = run(c)
    if w.bad:
        return w.bad[0]
    if err is not None:
        return "%r escapes from a %s request" % (err, c["kind"])
    if c["kind"] == "close":
        return "closing is answered" if sent else None
    if len(sent) != 1:
        return "a %s request is answered by %d packets" % (c["kind"], len(sent))
    r = sent[0]
    want = {"open": PacketType.open_remote_file_result, "read": PacketType.read_remote_file_result, "write": PacketType.write_remote_file_result}[c["kind"]]
    if r.type != want:
        return "a %s request is answered by %r" % (c["kind"], r)
    try:
        r2 = M2MPacket.from_bytes(r.as_bytes if isinstance(r.as_bytes, bytes) else r.as_bytes())
    except Exception as e:
        return "the answer cannot be encoded: %r" % e
    if (r.id if c["kind"] == "write" else r.upload_id) != a["id"]:
        return "the answer carries another id: %r" % r
    id = text(a["id"])
    idok = id is not None and id not in ("", ".", "..") and "/" not in id
    if c["kind"] == "open":
        if r.fail == 0:
            p = text(a["path"])
            src = w.G + "/__dataplicity_remote_directory_scan___.json" if p == "\0scan.json" else posixpath.join(w.R, (p or "").lstrip("/"))
            snap = w.SN + "/" + (id or "")
            if not idok or snap not in after:
                return "success without a snapshot"
            if r.size != len(after[snap]):
                return "the size reported is %d, the snapshot has %d" % (r.size, len(after[snap]))
            src = posixpath.normpath(src)
            if before.get(src) != after[snap] and not (w.meddled and after.get(src) == after[snap]):
                return "the snapshot is not a copy of %s" % src
        elif r.fail != 1:
            return "failure with code %r" % r.fail
        elif not c["fault"] and idok and "\0" not in id and c["snapdir"] and (text(a["path"]) or "\u20ac").isascii() and id.isascii():
            p = text(a["path"]).lstrip("/")
            src = posixpath.join(w.R, p)
            if w.inside(src) and before.get(src) is not None:
                return "a file that can be opened is refused: %s" % r.fail_reason
    elif c["kind"] == "read":
        snap = w.SN + "/" + (id or "")
        if r.fail == 0:
            if not idok or snap not in before:
                return "success without a snapshot"
            if c["offset"] < 0:
                return "success at a negative offset"
            if c["size"] >= 0 and r.data != before[snap][c["offset"]:c["offset"] + c["size"]]:
                return "data %r instead of %r" % (r.data[:40], before[snap][c["offset"]:c["offset"] + c["size"]][:40])
            if r.offset != c["offset"]:
                return "another offset is reported"
        elif r.fail != 1:
            return "failure with code %r" % r.fail
        elif not c["fault"] and snap in before and idok and id.isascii() and 0 <= c["offset"] < 1 << 30:
            return "a snapshot that can be read is refused"
    else:
        dev = text(a["dev"])
        data, off = a["data"], c["offset"]
        if r.fail == 0:
            target = dev if dev else w.DL + "/" + (id or "")
            if text(r.device_path) != target:
                return "the reply names %r" % r.device_path
            if r.position != off + len(data):
                return "position %d after %d bytes at %d" % (r.position, len(data), off)
            new = [p for p in changed(before, after) if p not in before and not w.direct(w.DL, p) and p != w.DL]
            t = posixpath.normpath(target)
            if c["final"]:
                if len(new) != 1 or after.get(t) is not None:
                    return "success of the last chunk, the file was not moved"
                got = after[new[0]]
            else:
                got = after.get(t)
                if new:
                    return "moved before the last chunk"
            if got is None and not data and not c["final"]:
                return None
            if got is None:
                return "success, the file is not there"
            old = b"" if not dev else before.get(t) or b""
            exp = old[:off].ljust(off, b"\0") + data + old[off + len(data):] if data else old
            if got != exp:
                return "the file holds %r instead of %r" % (got[:60], exp[:60])
        elif r.fail in (1, 2, 3):
            ok1 = dev is not None and (idok if not dev else w.direct(w.DL, dev) or w.direct(w.DL, dev.replace("//", "/")))
            first = w.faulted[0][0] if w.faulted else None
            if r.fail == 1 and ok1 and first is None and "\0" not in (id or "") and (id or "").isascii():
                return "failure at stage 1: %s" % r.fail_reason
            if first is None and r.fail != 1 and not ok1:
                return "code %d for an illegal download file" % r.fail
            if ok1 and first and not any(e[0] in ("rename", "replace") for e in w.ev[:w.ev.index(w.faulted[0])]):
                exp = 1 if first in ("mkdir", "makedirs", "open-wb", "close-wb") else 3 if first in ("rename", "replace") else 2 if first.endswith("-r+b") else None
                if exp and exp != r.fail and not (exp == 3 and not w.c["fault"][2]) and not (exp == 2 and not data):
                    return "code %d for a failing %s" % (r.fail, first)
            if ok1 and first is None and r.fail == 3 and (not c["final"] or (data and off < 0)):
                return "code 3 without a move"
            if ok1 and first is None and r.fail == 2 and (not data or (off >= 0 and (not dev or posixpath.normpath(dev) in before) and "\0" not in (id or ""))):
                return "code 2 without a failing write"
        else:
            return "failure with code %r" % r.fail
