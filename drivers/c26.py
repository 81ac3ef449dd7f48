"""C26: disk figures, tags and revision computed by the real code from scripted system answers, and what a poll sends."""
import os, io, subprocess, builtins, re
import agent as A
from dataplicity import client as C, disk_tools as D, tags as T, rpi, device_meta as M

REAL_OPEN, REAL_VFS, REAL_OUT = builtins.open, os.statvfs, subprocess.check_output
EXC = {"FileNotFoundError": FileNotFoundError, "PermissionError": PermissionError, "OSError": OSError, "ValueError": ValueError,
       "CalledProcessError": lambda m: subprocess.CalledProcessError(1, m), "RuntimeError": RuntimeError}


class VFS(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def gen(rng, n):
    kind = ["disk", "tags", "rev", "send"][n % 4]
    if kind in ("disk", "send"):
        blocks = rng.choice([0, 0, 1, 2, 3, 10, 1000, rng.randrange(10 ** 9), rng.randrange(10 ** 12)])
        bfree = rng.choice([0, blocks, blocks // 2, rng.randint(0, blocks)])
        c = {"kind": kind, "blocks": blocks, "bfree": bfree, "bavail": rng.choice([0, bfree, bfree * 95 // 100, rng.randint(0, bfree)]), "frsize": rng.choice([1, 512, 1024, 4096]), "bsize": rng.choice([512, 4096, 65536])}
        if kind == "send":
            c.update(tags=[rng.choice(["a", "b c", "", "x" * 25, "\u00e9"]) for _ in range(rng.randrange(4))], rev=rng.choice([None, "", "a02082", "\u00e9"]))
        return c
    if kind == "tags":
        al = ["a", "b", "xyz", "tag-1", ",", " ", "\n", "\t", "\r", ", ", ",,", "\u00e9", "\u2003", "\u00a0", "\x1c", "\x0b", "\x0c", "q" * 24, "q" * 25, "q" * 26, "-" * 60, "\udcff", ";", "#", "\x00", ".", "|"]
        return {"kind": kind, "out": "".join(rng.choice(al) for _ in range(rng.choice([0, 1, 2, 5, 12, 40]))), "err": rng.choice([None] * 6 + sorted(EXC)), "exists": rng.random() < 0.9, "home": rng.choice([None, "/home/x", "/", ""])}
    ln = ["Revision\t: a02082\n", "revision : 0010", "REVISION:\n", "Revision: B0 :c\n", "Hardware\t: BCM2835\n", "model name : x\n", "no colon\n", "revision\n", "CPU revision\t: 4\n", " : \n", "\n", "Revision \t :  zz  \n", "xRevision: 9\n", "cpu\u00e9: 1\n", "Revision:\u00e9\n", "Serial : revision: 7\n"]
    return {"kind": kind, "lines": [rng.choice(ln) for _ in range(rng.choice([0, 1, 2, 4, 9]))], "err": rng.choice([None] * 5 + ["FileNotFoundError", "PermissionError", "OSError"]), "when": rng.choice(["open", "read"])}


def smaller(c):
    if "lines" in c:
        for i in range(len(c["lines"])):
            yield dict(c, lines=c["lines"][:i] + c["lines"][i + 1:])
    if c.get("out"):
        for i in range(len(c["out"])):
            yield dict(c, out=c["out"][:i] + c["out"][i + 1:])


def vfs(c):
    return VFS(f_blocks=c["blocks"], f_bfree=c["bfree"], f_bavail=c["bavail"], f_frsize=c["frsize"], f_bsize=c["bsize"], f_files=5, f_ffree=4, f_favail=3, f_flag=0, f_namemax=255)


def disk(c):
    seen = []

    def sv(p):
        seen.append(p)
        return vfs(c)
    os.statvfs = sv
    try:
        r = D.disk_usage("/some")
    finally:
        os.statvfs = REAL_VFS
    tot, used, free = c["blocks"] * c["frsize"], (c["blocks"] - c["bfree"]) * c["frsize"], c["bavail"] * c["frsize"]
    if seen != ["/some"]:
        return "asked %r" % seen
    if (r.total, r.used, r.free) != (tot, used, free):
        return "total, used, free = %r, expected %r" % ((r.total, r.used, r.free), (tot, used, free))
    if used + free == 0:
        return None if r.percent == 0 else "percent of an empty file system is %r" % r.percent
    if not 0 <= r.percent <= 100 or abs(r.percent - 100.0 * used / (used + free)) > 0.0500001:
        return "percent %r of used %d and free %d" % (r.percent, used, free)


def tags(c):
    ran = []

    def out(cmd, *a, **k):
        if "dataplicity_tags" not in str(cmd):
            return REAL_OUT(cmd, *a, **k)
        ran.append(cmd)
        if c["err"]:
            raise EXC[c["err"]]("broken")
        return c["out"].encode("utf-8", "surrogateescape")
    home = os.environ.pop("HOME", None)
    if c["home"] is not None:
        os.environ["HOME"] = c["home"]
    want_path = os.path.join("/home/dataplicity/" if c["home"] is None else c["home"], "dataplicity_tags")
    ex = os.path.exists
    subprocess.check_output = out
    os.path.exists = lambda p: c["exists"] if p == want_path else False
    try:
        try:
            r = T.get_tag_list()
        except T.TagError as e:
            r = e
        except Exception as e:
            return "exception %r" % e
    finally:
        subprocess.check_output, os.path.exists = REAL_OUT, ex
        os.environ.pop("HOME", None)
        if home is not None:
            os.environ["HOME"] = home
    if c["exists"] and c["err"] and not issubclass(EXC[c["err"]] if isinstance(EXC[c["err"]], type) else Exception, OSError):
        return None if isinstance(r, T.TagError) else "a failing script gives %r" % (r,)
    if isinstance(r, Exception):
        return "raised %r" % r
    text = c["out"].encode("utf-8", "surrogateescape").decode("utf-8", "ignore")
    want = []
    if c["exists"] and not c["err"]:
        w = ""
        for ch in text + " ":
            if ch == "," or ch.isspace():
                if w:
                    want.append(w[:25])
                w = ""
            else:
                w += ch
    if r != want:
        return "tags %r, expected %r" % (r, want)


def rev(c):
    data = [l.encode("utf-8") for l in c["lines"]]

    class F(io.BytesIO):
        def _fail(self):
            if c["err"] and c["when"] == "read":
                raise EXC[c["err"]]("read")

        def __next__(self):
            self._fail()
            return io.BytesIO.__next__(self)

        def read(self, *a):
            self._fail()
            return io.BytesIO.read(self, *a)

        def readline(self, *a):
            self._fail()
            return io.BytesIO.readline(self, *a)

        def readlines(self, *a):
            self._fail()
            return io.BytesIO.readlines(self, *a)

    def op(path, *a, **k):
        if path != "/proc/cpuinfo":
            return REAL_OPEN(path, *a, **k)
        if c["err"] and c["when"] == "open":
            raise EXC[c["err"]]("open")
        f = F(b"".join(d if d.endswith(b"\n") else d + b"\n" for d in data))
        return f if "b" in (a[0] if a else k.get("mode", "r")) else io.TextIOWrapper(f, "utf-8")
    builtins.open = op
    try:
        try:
            r = rpi.get_machine_revision()
        except UnicodeDecodeError as e:
            r = e
        except Exception as e:
            return "exception %r" % e
    finally:
        builtins.open = REAL_OPEN
    want = None
    if not c["err"]:
        for d in data:
            k, s, v = d.partition(b":")
            if s and k.strip().lower() == b"revision":
                want = v.strip().lower().decode("utf-8")
                break
    if r != want:
        return "revision %r, expected %r" % (r, want)


def send(c):
    s = A.Server()
    M._META_CACHE = None
    olds = C.get_tag_list, rpi.get_machine_revision, os.statvfs
    C.get_tag_list, rpi.get_machine_revision = (lambda: list(c["tags"])), (lambda: c["rev"])
    os.statvfs = lambda p: vfs(c) if p == "/" else vfs(dict(c, blocks=c["blocks"] + 7))
    try:
        a = A.agent(s)
        a.poll()
    finally:
        C.get_tag_list, rpi.get_machine_revision, os.statvfs = olds
        M._META_CACHE = None
    got = {x["method"]: x.get("params") for b in s.batches for x in b}
    want = {"disk_capacity": c["blocks"] * c["frsize"], "disk_used": (c["blocks"] - c["bfree"]) * c["frsize"]}
    if got.get("device.set_disk_space") != want:
        return "reported %r, expected %r" % (got.get("device.set_disk_space"), want)
    if got.get("device.set_machine_defined_tags") != {"tag_list": c["tags"]}:
        return "reported tags %r, expected %r" % (got.get("device.set_machine_defined_tags"), c["tags"])
    if got.get("device.set_machine_revision") != {"revision_code": c["rev"]}:
        return "reported revision %r, expected %r" % (got.get("device.set_machine_revision"), c["rev"])


def check(c):
    return {"disk": disk, "tags": tags, "rev": rev, "send": send}[c["kind"]](c)
