"""C21: scan success is announced only after the scan was written completely; scans exclude each other."""
from .common import *
from vp.env import thread_main

DS = "dataplicity.directory_scanner"
WS = "dataplicity.m2m.wsclient"
NAME = "/__dataplicity_remote_directory_scan___.json"


def fail(ex, what):
    if ex.choose(2, what + " fails"):
        ex.anyexc(what)


def held(ex):
    """The scanner's own lock (the one it was built with) is held by this thread, and still the one others will take."""
    sc = ex.h(ex.g["scanner"])
    return any(isinstance(sc.fields.get(n), Ref) and sc.fields[n].oid == r.oid and ex.h(r).fields.get("depth", 0) > 0 for n, r in ex.g["locks"])


def setup(ex):
    e, g = ex.task.ext, ex.g
    G = ex.fresh("tmp", "str").t
    ex.assume(z3.And(z3.PrefixOf(zstr("/"), G), z3.Not(z3.SuffixOf(zstr("/"), G))))
    g.update(G=G, disk=(), jsons=(), scanned=None, done=0, sent=(), running=False, tempnames=())
    e["tempfile.gettempdir"] = lambda ex, a, k: mk("str", G)
    root = ex.fresh("root", "str")
    sc = ex.call(ex.w.cls(DS + ".DirectoryScanner"), [root])
    g["scanner"] = sc
    g["locks"] = tuple((n, v) for n, v in sorted(ex.h(sc).fields.items()) if isinstance(v, Ref) and ex.clsname_of(v) in ("threading.RLock", "threading.Lock"))
    files(ex)

    def scan(ex, fn, a, k):
        """scan_directory(root, ...): any result, or any failure (its result is C20)."""
        ex.prove(held(ex), "a scan runs only while the scanner's lock is held")
        ex.prove(isval(ex, a[0] if a else k["root_path"], root), "the scanner's own directory is scanned")
        g["scanned"] = None
        if ex.choose(2, "scan fails"):
            if ex.choose(2, "known failure"):
                ex.exc(SD + ".ScanDirectoryError", "scan failed")
            ex.anyexc("scan")
        r = ex.opaque("$scan")
        g["scanned"] = r
        g["jsons"] = ()
        return r
    SD = "dataplicity.scan_directory"
    ex.task.contracts[SD + ":scan_directory"] = scan

    def dumps(ex, a, k):
        fail(ex, "json.dumps")
        j = ex.fresh("json", "str")
        if set(k) <= {"separators", "indent", "sort_keys", "ensure_ascii"}:
            if isinstance(a[0], Ref) and g["scanned"] is not None and a[0].oid == g["scanned"].oid:
                g["jsons"] = g["jsons"] + (j.t,)
        if k.get("ensure_ascii", True) is True:
            ex.assume(T.ENCOK(j.t))
        return j
    e["json.dumps"] = dumps
    e["json.JSONEncoder.encode"] = lambda ex, ref, a, k: dumps(ex, a, {})

    def dump(ex, a, k):
        file_write(ex, a[1], [dumps(ex, a[:1], k)], {})
    e["json.dump"] = dump
    return sc


# ------------------------------------------------------------------ files
def put(ex, p, c):
    """The file at p now holds c (None: anything)."""
    out = []
    for q, d in ex.g["disk"]:
        if not q.eq(p):
            out.append((q, d))
    ex.g["disk"] = tuple(out) + ((p, c),)


def path(ex, v):
    v = ex.expand(v)
    if kind_of(v) != "str":
        ex.unsupported("file names that are no texts")
    return z3.simplify(term(v))


def get(ex, p):
    for q, d in ex.g["disk"]:
        if q.eq(p):
            return d
    return None


def file_write(ex, ref, a, k):
    f = ex.h(ref).fields
    v = ex.expand(a[0])
    if f["closed"]:
        ex.exc("builtins.ValueError", "I/O operation on closed file")
    if kind_of(v) != ("str" if f["text"] else "bytes"):
        ex.exc("builtins.TypeError", "a bytes-like object is required")
    t = term(v)
    if f["text"]:
        if not ex.branch(T.ENCOK(t)):
            ex.exc("builtins.UnicodeEncodeError", "ordinal not in range")
        t = T.UTF8(t)
    fail(ex, "write")
    f["pending"] = f["pending"] + (t,)
    return mk("int", z3.Length(t))


def files(ex):
    e = ex.task.ext

    def open_(ex, a, k):
        p = path(ex, a[0] if a else k["file"])
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(mode, str):
            ex.unsupported("open mode")
        published = p.eq(z3.simplify(T.cat(ex.g["G"], zstr(NAME))))
        if published and "r" not in mode:
            ex.prove(held(ex), "the published scan is written only while the scanner's lock is held")
        fail(ex, "open")
        m = mode.replace("b", "").replace("t", "")
        if m in ("w", "x"):
            put(ex, p, ())
        elif m != "r":
            put(ex, p, None)
        text = "b" not in mode
        enc = k.get("encoding", a[3] if len(a) > 3 else None)
        if text and (enc is None or str(enc).lower() not in ("utf-8", "utf8", "ascii")):
            ex.unsupported("text files of the default encoding")
        return ex.opaque("$file", path=p, mode=m, pending=(), closed=False, text=text, fresh=m in ("w", "x"))
    e["builtins.open"] = e["io.open"] = e["codecs.open"] = open_
    e["$file.__enter__"] = lambda ex, ref, a, k: ref
    e["$file.write"] = file_write

    def flush(ex, ref, a=None, k=None):
        f = ex.h(ref).fields
        if f["pending"]:
            cur = get(ex, f["path"])
            put(ex, f["path"], None)
            fail(ex, "flush")
            put(ex, f["path"], None if cur is None or not f["fresh"] else cur + f["pending"])
            f["pending"] = ()
    e["$file.flush"] = flush

    def close(ex, ref, a, k):
        f = ex.h(ref).fields
        if f["closed"]:
            return None
        f["closed"] = True
        flush(ex, ref)
        fail(ex, "close")
    e["$file.close"] = e["$file.__exit__"] = close
    e["$file.fileno"] = lambda ex, ref, a, k: ref
    e["$file.get:name"] = lambda ex, ref, a, k: mk("str", ex.h(ref).fields["path"])
    e["os.fsync"] = e["os.chmod"] = lambda ex, a, k: fail(ex, "fsync")

    def rename(ex, a, k):
        s, d = path(ex, a[0]), path(ex, a[1])
        ex.prove(held(ex), "the published scan is written only while the scanner's lock is held")
        fail(ex, "rename")
        put(ex, d, get(ex, s))
        put(ex, s, None)
    for n in ("os.rename", "os.replace", "shutil.move"):
        e[n] = rename

    def remove(ex, a, k):
        p = path(ex, a[0])
        fail(ex, "remove")
        put(ex, p, None)
    e["os.remove"] = e["os.unlink"] = remove
    e["os.path.exists"] = e["os.path.isfile"] = lambda ex, a, k: bool(ex.choose(2, "exists"))
    e["os.getpid"] = lambda ex, a, k: ex.fresh("pid", "int")


def published(ex):
    """The published file holds the complete JSON of the last scan."""
    c = get(ex, z3.simplify(T.cat(ex.g["G"], zstr(NAME))))
    if c is None or ex.g["scanned"] is None:
        return False
    c = T.cat(*c) if c else zstr("")
    js = [c == T.UTF8(j) for j in ex.g["jsons"]]
    return z3.Or(*js) if js else False


def announce(ex, a, k):
    g = ex.g
    g["done"] += 1
    ex.prove(g["done"] == 1, "success is announced at most once")
    ex.prove(published(ex), "success is announced only when the published file holds the complete scan")
    ex.eng.reach(ex, "announced")
    if ex.choose(2, "callback fails"):
        g["cbfail"] = True
        ex.anyexc("callback")


def t_thread(ex):
    """perform_scan, and what the thread it starts does."""
    sc = setup(ex)
    g = ex.g
    g["cbfail"] = False
    cb = HostFn("callback", announce) if ex.choose(2, "callback") else None
    kw = {} if cb is None else {"on_success": cb}
    if ex.choose(2, "sizes"):
        kw["file_sizes"] = ex.fresh("sizes", "bool")
    k, v = outcome(ex, lambda: ex.call(method(ex, sc, "perform_scan"), [], kw))
    run_threads(ex, sc, cb)


def run_threads(ex, sc, cb):
    g = ex.g
    ts = g.get("started", ())
    ex.prove(len(ts) <= 1, "one request starts at most one scan")
    if not ts:
        ex.prove(free(ex, sc), "no lock is left held")
    ex.prove(g["done"] == 0 or not ts, "nothing is announced before the scan ran")
    for t in ts:
        k, v = outcome(ex, lambda: thread_main(ex, t))
        ex.prove(free(ex, sc), "no lock is left held")
        if g["cbfail"]:
            ex.prove(k == "ok", "a failing callback does not disturb the scanner")
        if g["done"]:
            ex.prove(published(ex), "the scan announced stays published")
        ex.eng.reach(ex, "scanned" if k == "ok" else "failed")


def free(ex, sc):
    return all(ex.h(r).fields.get("depth", 0) == 0 for _, r in ex.g["locks"])


def t_request(ex):
    """A request of the server: WSClient.on_scan_remote_directory."""
    sc = setup(ex)
    g, e = ex.g, ex.task.ext
    g["cbfail"] = False
    rd = ex.new(HInst(ex.w.cls("dataplicity.remote_directory.RemoteDirectory"), {"directory_scanner": sc, "path": ex.fresh("path", "str"), "temp_path": ex.fresh("temp", "str")}))
    client = ex.opaque("$client", remote_directory=rd)

    def send(ex, ref, a, k):
        ex.prove(len(a) == 2 and not k and result_type(ex, a[0]), "the answer is a scan result")
        if ex.branch(term(ex.expand(a[1])) == zstr("")):
            announce(ex, a, k)
        else:
            ex.eng.reach(ex, "error reported")
    e["$client.send"] = send
    fn = ex.w.func(WS + ":WSClient.on_scan_remote_directory")
    PT = ex.fresh("type", "int")
    k, v = outcome(ex, lambda: ex.call(fn, [client, PT]))
    ex.prove(k == "ok", "a scan request lets no exception escape")
    run_threads(ex, sc, None)


def result_type(ex, v):
    if v == "scan_remote_directory_result":
        return True
    n = getattr(v, "name", None)
    return n == "scan_remote_directory_result" or "scan_remote_directory_result" in repr(v)


def tasks(w):
    R = "any scan result or failure, any failure of the file functions, any callback"
    return [Task("scan", t_thread, DS + ":DirectoryScanner._perform_scan", must_reach=["announced", "scanned", "failed"], requires=R, ensures=["announced once, only when published", "scan and publication under the scanner's lock", "no lock left held"]),
            Task("request", t_request, WS + ":WSClient.on_scan_remote_directory", must_reach=["announced", "scanned", "failed", "error reported"], requires=R, ensures=["the success answer is sent once, only when published"])]


ASSUMPTIONS = ["threading.Lock excludes other threads between acquire and release", "data written are in the file once flush or close succeeds", "json.dumps returns ASCII text unless told otherwise (its content is assumed to be the JSON of its argument)",
               "no other program writes the scan file", "the exception of a thread that cannot be started has a message (Python: \"can't start new thread\")"]
