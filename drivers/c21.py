"""C21: directory scans requested by several threads, with faults in scan, file functions and callbacks, on chosen schedules."""
import os, io, builtins, json, tempfile, threading, errno, types
import sched
from sched import Sched, patched_locks, point, Stuck
from dataplicity import directory_scanner as M
from dataplicity import scan_directory as SDM
from dataplicity import remote_directory as R
from dataplicity.m2m.wsclient import WSClient
from dataplicity.m2m.packets import PacketType

ScanDirectoryError = M.ScanDirectoryError
ROOT = os.path.realpath(os.environ.get("VP_SCRATCH", "/nonexistent"))
NAME = "__dataplicity_remote_directory_scan___.json"
OPEN, IOOPEN = builtins.open, io.open
RENAME, REPLACE = os.rename, os.replace
EXC = {"scan": lambda: ScanDirectoryError("cannot"), "os": lambda: OSError(errno.ENOSPC, "full"), "value": lambda: ValueError("x"), "runtime": lambda: RuntimeError("\u20ac"), "memory": lambda: MemoryError()}
LIMIT = 30


def gen(rng, n):
    reqs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        reqs.append({"how": rng.choice(["scanner", "scanner", "request"]), "cb": rng.choice([None, "ok", "ok", "ok"] + sorted(EXC)), "scan": rng.choice(["ok"] * 6 + sorted(EXC) + ["bad"]),
                     "fault": rng.choice([None] * 5 + [[w, rng.choice(sorted(EXC))] for w in ("open", "write", "close", "rename", "start")]), "size": rng.choice([0, 3, 30, 3000]), "twice": rng.random() < 0.2})
    return {"reqs": reqs, "choices": [rng.choice([0, 0, 0, 1, 1, 2]) for _ in range(rng.choice([0, 10, 40]))], "again": rng.random() < 0.5}


def smaller(c):
    for i in range(len(c["reqs"])):
        if len(c["reqs"]) > 1:
            yield dict(c, reqs=c["reqs"][:i] + c["reqs"][i + 1:])
    for i, r in enumerate(c["reqs"]):
        for k, v in (("fault", None), ("scan", "ok"), ("cb", "ok"), ("size", 0)):
            if r[k] != v:
                yield dict(c, reqs=c["reqs"][:i] + [dict(r, **{k: v})] + c["reqs"][i + 1:])
    if c["choices"]:
        yield dict(c, choices=c["choices"][:-1])


class World(object):
    def __init__(self, c):
        self.c, self.active, self.bad, self.log = c, 0, None, []
        self.made, self.published, self.called = {}, set(), {}
        self.nscan = 0
        self.path = os.path.join(ROOT, NAME)

    def say(self, t):
        self.bad = self.bad or t

    def req(self):
        """Request the current thread works for."""
        return getattr(LOCAL, "req", None)

    def fault(self, what):
        point()
        r = self.req()
        if r is not None:
            f = self.c["reqs"][r]["fault"]
            if f and f[0] == what:
                raise EXC[f[1] if what != "start" or f[1] != "memory" else "runtime"]()

    def look(self):
        try:
            with OPEN(self.path, "rb") as f:
                got = f.read()
        except OSError:
            return
        for i, (req, v) in self.made.items():
            if v is not None and got == v:
                self.published.add(i)


LOCAL = threading.local()


class File(object):
    """A buffered file: what is written is stored when it is flushed or closed."""

    def __init__(self, w, f, path):
        self._w, self._f, self._p, self._buf = w, f, path, []

    def write(self, d):
        self._w.fault("write")
        if not isinstance(d, str if isinstance(self._f, io.TextIOBase) else (bytes, bytearray)):
            raise TypeError("a bytes-like object is required, not %r" % type(d).__name__)
        self._buf.append(d)
        if len(d) > 100:
            self._f.write(d[:50])
            self._f.flush()
            self._buf[-1] = d[50:]
        return len(d)

    def flush(self):
        self._w.fault("close")
        for d in self._buf:
            self._f.write(d)
        self._buf = []
        self._f.flush()
        self._w.look()

    def close(self):
        if not self._f.closed:
            try:
                self.flush()
            finally:
                self._f.close()
                self._w.look()
                point()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        return getattr(self._f, n)


def run(w):
    c = w.c
    saved = []

    def put(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def scan(root, *a, **k):
        i = w.nscan
        w.nscan += 1
        req = w.req()
        r = c["reqs"][req] if req is not None else {"scan": "ok", "size": 3}
        LOCAL.scan = i
        w.active += 1
        if w.active > 1:
            w.say("two scans run at the same time")
        try:
            point()
            if root != "/the/root":
                w.say("another directory is scanned: %r" % root)
            if r["scan"] in EXC:
                raise EXC[r["scan"]]()
            d = {"root": str(i), "files": ["x" * 10] * r["size"]}
            if r["scan"] == "bad":
                d["bad"] = {1, 2}
                w.made[i] = (req, None)
            else:
                w.made[i] = (req, json.dumps(d).encode())
            point()
            return d
        finally:
            w.active -= 1

    class Thread(object):
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.t, self.a, self.k, self.daemon = target, args, kwargs or {}, daemon

        def start(self):
            req = w.req()
            w.fault("start")

            def go():
                LOCAL.req = req
                LOCAL.scan = None
                return self.t(*self.a, **self.k) if self.t else self.run()
            sched.CUR.spawn(go)
            point()

        def setDaemon(self, d):
            pass

        def run(self):
            pass

    def opener(file, mode="r", *a, **k):
        p = os.path.join(os.getcwd(), os.fspath(file)) if isinstance(file, (str, bytes, os.PathLike)) else ""
        if isinstance(p, bytes) or not p.startswith(ROOT):
            return OPEN(file, mode, *a, **k)
        if "r" not in mode:
            w.fault("open")
        f = OPEN(file, mode, *a, **k)
        return f if "r" in mode else File(w, f, p)

    def ren(f):
        def g(a, b, **k):
            w.fault("rename")
            f(a, b, **k)
            w.look()
            point()
        return g
    with patched_locks(M):
        put(builtins, "open", opener)
        put(io, "open", opener)
        put(os, "rename", ren(RENAME))
        put(os, "replace", ren(REPLACE))
        put(tempfile, "gettempdir", lambda: ROOT)
        put(threading, "Thread", Thread)
        for n, v in list(vars(M).items()):
            if v is sched.RealThread:
                put(M, n, Thread)
        if callable(getattr(M, "scan_directory", None)):
            put(M, "scan_directory", scan)
        else:
            put(M.scan_directory, "scan_directory", scan)
        try:
            return body(w, c)
        finally:
            for o, n, v in reversed(saved):
                setattr(o, n, v)


def body(w, c):
    sc = M.DirectoryScanner("/the/root")
    rd = R.RemoteDirectory(ROOT, sc)

    def callback(i, what):
        def cb():
            point()
            n = w.called[i] = w.called.get(i, 0) + 1
            w.look()
            mine = getattr(LOCAL, "scan", None)
            if mine is None:
                w.say("success is announced without a scan")
            elif mine not in w.made:
                w.say("success is announced although the scan failed")
            elif mine not in w.published:
                w.say("success is announced before the scan was written completely")
            elif n > (2 if c["reqs"][i]["twice"] else 1):
                w.say("success is announced twice")
            if what in EXC:
                raise EXC[what]()
        return cb

    class Client(object):
        def __init__(self, i):
            self.i, self.remote_directory, self.directory_scanner = i, rd, sc

        def send(self, pt, *a, **k):
            if pt not in ("scan_remote_directory_result", PacketType.scan_remote_directory_result):
                w.say("answered by %r" % pt)
            if (a[0] if a else list(k.values())[0]) == "":
                callback(self.i, c["reqs"][self.i]["cb"])()

    def one(i):
        r = c["reqs"][i]

        def f():
            LOCAL.req = i
            LOCAL.scan = None
            for _ in range(2 if r["twice"] else 1):
                if r["how"] == "request":
                    WSClient.on_scan_remote_directory(Client(i), PacketType.scan_remote_directory)
                else:
                    try:
                        sc.perform_scan(on_success=None if r["cb"] is None else callback(i, r["cb"]))
                    except Exception as e:
                        if not (r["fault"] and r["fault"][0] == "start"):
                            raise
        return f
    s = Sched(c["choices"])
    try:
        res = s.run([one(i) for i in range(len(c["reqs"]))])
    except Stuck as e:
        return str(e)
    if w.bad:
        return w.bad
    for i, r in enumerate(res[:len(c["reqs"])]):
        if r and r[0] == "exc" and c["reqs"][i]["how"] == "request" and c["reqs"][i]["cb"] not in EXC:
            return "%r escapes from the request" % r[1]
        if r and r[0] == "exc" and c["reqs"][i]["how"] != "request":
            return "%r escapes from perform_scan" % r[1]
    for t in s.ts[len(c["reqs"]):]:
        r = t.result
    # a lone request works afterwards
    n = len(w.made)
    got = []

    def last():
        LOCAL.req = None
        LOCAL.scan = None
        sc.perform_scan(on_success=lambda: got.append(getattr(LOCAL, "scan", None)))
    try:
        Sched([]).run([last])
    except Stuck as e:
        return "afterwards: %s" % e
    if w.bad:
        return w.bad
    if len(got) != 1 or got[0] not in w.published:
        return "a scan requested afterwards is announced %d times" % len(got)
    return None


def check(c):
    w = World(c)
    for f in os.listdir(ROOT):
        p = os.path.join(ROOT, f)
        if os.path.isfile(p):
            os.unlink(p)
    r = run(w)
    return w.bad or r
