"""Shared setting of the remote-file contracts (C17, C18, C19): the real RemoteDirectory behind the real packet handlers of
WSClient, over file functions that may all fail.  Every file function checks the path it is given (C17, C18) and keeps the
ghosts of what took place (C19); an obligation is proved by the property it belongs to (task.prop)."""
from .common import *
from vp import paths

RD = "dataplicity.remote_directory"
WS = "dataplicity.m2m.wsclient"
SCAN = "/__dataplicity_remote_directory_scan___.json"
SNAPDIR, DLDIR = "dataplicity_remote", "dataplicity_remote_downloads"


def fail(ex, what):
    """The call may fail in any way."""
    if not ex.choose(2, what + " fails"):
        return
    try:
        ex.anyexc(what)
    except PyExc as e:
        ex.h(e.ref).fields.update(strerror=ex.fresh("strerror", "str"), errno=ex.fresh("errno", "int"), filename=None)
        raise


def chk(ex, prop, cond, what):
    if ex.task.prop == prop:
        ex.prove(cond, what)


def ptext(ex, v):
    v = ex.expand(v)
    if kind_of(v) != "str":
        ex.prove(False, "file functions are given texts")
        raise PathEnd()
    return term(v)


# ------------------------------------------------------------------ where a path may be
def inside(ex, p):
    R = ex.g["R"]
    t = z3.PrefixOf(zstr("/"), p) if R is None else z3.Or(p == R, z3.PrefixOf(T.cat(R, zstr("/")), p))
    return z3.And(t, paths.clean(ex, p))


def name_ok(t):
    return z3.And(t != zstr(""), t != zstr("."), t != zstr(".."), z3.Not(z3.Contains(t, zstr("/"))))


def area(ex, d):
    return T.cat(ex.g["T"], zstr("/" + d))


def direct(ex, d, p):
    """p is a file directly inside the agent's directory d."""
    h, t = paths.split_path(ex, p)
    return z3.And(h == area(ex, d), name_ok(t))


def setup(ex, kind, root=True, tmp=True):
    e, g = ex.task.ext, ex.g
    G = ex.fresh("tmp", "str").t
    R = None if root and ex.choose(2, "remote directory is the root") else ex.fresh("R", "str").t
    for d in [G] + ([] if R is None else [R]):
        ex.assume(z3.And(z3.PrefixOf(zstr("/"), d), z3.Not(z3.SuffixOf(zstr("/"), d)), paths.clean(ex, d)))
    ex.assume(T.ENCOK(G))
    given = ex.fresh("configured path", "str")
    expanded = ex.fresh("expanded path", "str")
    g.update(R=R, T=None, kind=kind, sent=(), free=None, taken=0, copied=False, stored=(), moved=(), wfail=False, ofail=False, mfail=False, allocfail=False, files=())

    def expanduser(ex, a, k):
        return expanded if isval(ex, a[0], given) is not False and ex.branch(isval(ex, a[0], given)) else ex.fresh("expanduser", "str")
    e["os.path.expanduser"] = expanduser
    e["os.path.abspath"] = e["os.path.realpath"] = lambda ex, a, k: mk("str", zstr("/") if R is None else R)
    e["tempfile.gettempdir"] = lambda ex, a, k: mk("str", G)
    e["os.path.exists"] = lambda ex, a, k: bool(tmp and ex.choose(2, "/var/tmp exists"))
    rd = ex.call(ex.w.cls(RD + ".RemoteDirectory"), [given, ex.opaque("$scanner")])
    g["T"] = term(ex.h(rd).fields["temp_path"])
    files(ex, G)
    ex.task.contracts["dataplicity.disk_tools:disk_usage"] = usage
    if kind == "write":
        ex.task.contracts[RD + ":RemoteDirectory.copy_download"] = copy_contract
    client = ex.opaque("$client", remote_directory=rd)
    e["$client.send"] = send
    return rd, client


def usage(ex, fn, a, k):
    fail(ex, "disk_usage")
    return ex.opaque("$usage", used=ex.fresh("used", "int"), total=ex.fresh("total", "int"), free=ex.fresh("free", "int"))


def copy_contract(ex, fn, a, k):
    """copy_download(device_path, path): moves a file of the download directory into the remote directory (task "copy"), or fails."""
    src, path = ex.expand(a[1] if len(a) > 1 else k["device_path"]), ex.expand(a[2] if len(a) > 2 else k["path"])
    src = z3.simplify(ptext(ex, src))
    touches(ex, MOVE_FROM, src)
    ex.prove(isval(ex, path, ex.g["path"]), "the download is moved to the path requested")
    try:
        fail(ex, "copy_download")
    except PyExc:
        ex.g["mfail"] = True
        raise
    ex.g["moved"] = ex.g["moved"] + ((src, None),)


def send(ex, ref, a, k):
    ex.g["sent"] = ex.g["sent"] + ((a[0], tuple(a[1:]), tuple(k.items())),)


# ------------------------------------------------------------------ file functions
READ, WRITE, REMOVE, MOVE_FROM, MOVE_TO, COPY_TO = "read", "written", "removed", "moved away", "a destination of a move", "written"


def touches(ex, how, p, phase=None):
    """A file is about to be read, written or removed."""
    g = ex.g
    if g["kind"] in ("open", "read", "close"):
        if ex.task.prop != "C17":
            return
        if g["kind"] == "open" and how == READ:
            ok = p == T.cat(g["G"], zstr(SCAN))
            if not ex.eng.entails(ex, ok, 3000):
                ins = inside(ex, p)
                ok = ins if ex.eng.entails(ex, ins, 3000) else z3.Or(ok, ins, direct(ex, SNAPDIR, p))
        else:
            ok = direct(ex, SNAPDIR, p)
        chk(ex, "C17", ok, "a file %s by %s request is %s" % (how, g["kind"], "inside the remote directory, the scan file or a snapshot" if g["kind"] == "open" and how == READ else "a snapshot file"))
    else:
        if how == MOVE_TO:
            dst_ok(ex, p)
        else:
            chk(ex, "C18", direct(ex, DLDIR, p), "a file %s by a write request is directly inside the download directory" % how)
            if how == REMOVE:
                chk(ex, "C18", g["wfail"] is True, "a download is removed only after a failed write")


def dst_ok(ex, p):
    g = ex.g
    if ex.task.prop != "C18":
        return
    if g["wanted"] is None:
        ex.prove(False, "a download is moved only to a decodable path that is checked")
        return
    ex.prove(g["free"] is not None and p == g["free"], "the destination is a path found not to exist")
    alts = [(z3.And(p == a, c)) for a, c in alternatives(ex)]
    ex.prove(z3.Or(*alts), "the destination is the requested name or its next numbered variation, at most the 100th")
    for (a, _), c in zip(alternatives(ex), alts):
        if ex.eng.check(ex, c, 3000) != "unsat":
            ex.prove(inside(ex, a), "a download is moved only to a path inside the remote directory")


def alternatives(ex, n=None):
    """The wanted path and its next variation, beside it or in the remote directory, with the condition each is allowed under."""
    d0, h, root, xt = ex.g["wanted"]
    n = term(ex.g["taken"]) if n is None else n
    R = ex.g["R"]
    out = [(d0, n == 0)]
    for d in (h, R) if R is not None else (h, zstr(""), zstr("/")):
        out.append((T.cat(d, zstr("/"), root, zstr("("), T.DEC(n), zstr(")"), xt), z3.And(n >= 1, n <= 100)))
    return out


def wanted(ex):
    """The requested path inside the remote directory."""
    from vp.builtins_ import strip_chars
    m = term(strip_chars(ex, S("str", T.DEC8(term(ex.g["path"]))), "lstrip", "/", "str"))
    return T.cat(zstr("/"), m) if ex.g["R"] is None else T.cat(ex.g["R"], zstr("/"), m)


def wanted_parts(ex):
    if not ex.branch(T.VALID8(term(ex.g["path"]))):
        return None
    d0 = wanted(ex)
    h, f = paths.split_path(ex, d0)
    root, xt = paths.split_ext(ex, f)
    return d0, h, root, xt


def content(ex, p):
    """Content of the file at this path."""
    memo = ex.g["contents"]
    for q, c in memo:
        if q.eq(p):
            return c
    c = ex.fresh("content", "bytes").t
    ex.g["contents"] = memo + ((p, c),)
    return c


def size_of(ex, p):
    for q, s in ex.g["sizes"]:
        if q.eq(p):
            return s
    return ex.fresh("filesize", "int")


def files(ex, G):
    e, g = ex.task.ext, ex.g
    g.update(G=G, contents=(), sizes=())

    def exists(ex, a, k):
        p = z3.simplify(ptext(ex, a[0]))
        if ex.choose(2, "path exists"):
            if g_in(ex, "copy"):
                ex.g["taken"] = ex.binop("+", ex.g["taken"], 1)
            return True
        ex.g["free"] = p
        return False

    def g_in(ex, kind):
        return ex.g["kind"] == kind
    e["os.path.exists"] = e["os.path.lexists"] = exists
    e["os.path.isdir"] = e["os.path.isfile"] = e["os.path.islink"] = lambda ex, a, k: (ptext(ex, a[0]), bool(ex.choose(2, "isdir")))[1]

    def mkdir(ex, a, k):
        p = ptext(ex, a[0])
        d = SNAPDIR if ex.g["kind"] not in ("write", "copy") else DLDIR
        chk(ex, "C17" if d == SNAPDIR else "C18", p == area(ex, d), "only the agent's own directory is created")
        try:
            fail(ex, "mkdir")
        except PyExc:
            ex.g["allocfail"] = True
            raise
    e["os.mkdir"] = e["os.makedirs"] = mkdir

    def getsize(ex, a, k):
        p = z3.simplify(ptext(ex, a[0]))
        fail(ex, "getsize")
        r = size_of(ex, p)
        ex.assume(r.t >= 0)
        return r
    e["os.path.getsize"] = getsize
    e["os.stat"] = lambda ex, a, k: ex.opaque("$stat", st_size=getsize(ex, a, k))

    def copyfile(ex, a, k):
        src, dst = ptext(ex, a[0]), z3.simplify(ptext(ex, a[1] if len(a) > 1 else k["dst"]))
        touches(ex, READ, src)
        if ex.g["kind"] in ("write", "copy"):
            touches(ex, MOVE_TO, dst)
        else:
            touches(ex, WRITE, dst)
        fail(ex, "copyfile")
        ex.g["sizes"] = ((dst, ex.fresh("snapshot size", "int")),)
        ex.g["copied"] = (src, dst)
        return a[1]
    for n in ("copyfile", "copy", "copy2"):
        e["shutil." + n] = copyfile

    def move(ex, a, k):
        src, dst = z3.simplify(ptext(ex, a[0])), z3.simplify(ptext(ex, a[1]))
        touches(ex, MOVE_FROM, src)
        touches(ex, MOVE_TO, dst)
        try:
            fail(ex, "move")
        except PyExc:
            ex.g["mfail"] = True
            raise
        ex.g["moved"] = ex.g["moved"] + ((src, dst),)
    for n in ("os.rename", "os.replace", "os.link", "os.symlink", "shutil.move"):
        e[n] = move

    def remove(ex, a, k):
        touches(ex, REMOVE, ptext(ex, a[0]))
        fail(ex, "remove")
    e["os.remove"] = e["os.unlink"] = remove

    def open_(ex, a, k):
        p = z3.simplify(ptext(ex, a[0] if a else k["file"]))
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        buf = a[2] if len(a) > 2 else k.get("buffering", -1)
        if not isinstance(mode, str) or "b" not in mode:
            ex.prove(False, "files are opened as bytes")
            raise PathEnd()
        m = mode.replace("b", "")
        if m == "r":
            touches(ex, READ, p)
        else:
            touches(ex, WRITE, p)
        alloc = m in ("w", "x", "w+", "x+")
        try:
            fail(ex, "open")
        except PyExc:
            ex.g["allocfail" if alloc else "wfail"] = True
            ex.g["ofail"] = True
            raise
        if alloc:
            ex.g["stored"] = ()      # whatever the file held is gone
        return ex.opaque("$file", path=p, mode=m, pos=0, pending=(), written=False, closed=False, buffered=buf != 0)
    e["builtins.open"] = e["io.open"] = open_
    e["$file.__enter__"] = lambda ex, ref, a, k: ref
    e["$file.fileno"] = lambda ex, ref, a, k: ref
    e["os.fsync"] = lambda ex, a, k: fail(ex, "fsync")

    def wfailing(ex, what, f):
        try:
            fail(ex, what)
        except PyExc:
            ex.g["allocfail" if f["mode"][0] in "wx" and not f["pending"] and not f["written"] else "wfail"] = True
            raise

    def flush(ex, ref, a=None, k=None):
        f = ex.h(ref).fields
        if f["mode"] == "r":
            return None
        wfailing(ex, "flush", f)
        ex.g["stored"] = ex.g["stored"] + f["pending"]
        f["pending"] = ()
    e["$file.flush"] = flush

    def close(ex, ref, a, k):
        f = ex.h(ref).fields
        if f["closed"]:
            return None
        f["closed"] = True
        flush(ex, ref)
    e["$file.close"] = e["$file.__exit__"] = close

    def seek(ex, ref, a, k):
        f = ex.h(ref).fields
        if (a[1] if len(a) > 1 else k.get("whence", 0)) != 0:
            ex.unsupported("seek from elsewhere")
        wfailing(ex, "seek", f)
        o = ex.expand(a[0])
        if ex.branch(term(o) < 0):
            ex.g["wfail"] = True
            ex.exc(("builtins.ValueError", "builtins.OSError")[ex.choose(2, "which")], "negative seek position")
        f["pos"] = o
        return o
    e["$file.seek"] = seek
    e["$file.tell"] = lambda ex, ref, a, k: ex.h(ref).fields["pos"]

    def read(ex, ref, a, k):
        f = ex.h(ref).fields
        fail(ex, "read")
        n = ex.expand(a[0]) if a else -1
        c, pos = content(ex, f["path"]), term(f["pos"])
        if n is None or ex.branch(term(n) < 0):
            d = z3.SubString(c, pos, z3.Length(c))
        else:
            d = z3.SubString(c, pos, term(n))
            if not f["buffered"]:
                m = ex.fresh("short", "int").t
                ex.assume(z3.And(m >= 1, m <= term(n)))
                d = z3.SubString(c, pos, m)
        f["pos"] = mk("int", pos + z3.Length(d))
        return mk("bytes", d)
    e["$file.read"] = read

    def write(ex, ref, a, k):
        f = ex.h(ref).fields
        d = ex.expand(a[0])
        if f["mode"] not in ("r+", "w", "w+", "x", "a", "a+"):
            ex.exc("builtins.OSError", "not writable")
        f["written"] = True
        wfailing(ex, "write", f)
        pos = ex.fresh("end of file", "int") if f["mode"] in ("a", "a+") else f["pos"]
        f["pending"] = f["pending"] + ((f["path"], pos, d, f["mode"]),)
        f["pos"] = ex.binop("+", pos, z_len(d))
        return z_len(d)
    e["$file.write"] = write

    def truncate(ex, ref, a, k):
        chk(ex, "C19", False, "a chunk is stored without cutting the file")
    e["$file.truncate"] = truncate


def z_len(d):
    return len(d) if is_native(d) else mk("int", z3.Length(term(d)))


# ------------------------------------------------------------------ requests
def request(ex, client, name, *args):
    """The handler WSClient exposes for the packet."""
    f = ex.w.func(WS + ":WSClient.on_" + name)
    pt = "packet type"
    return outcome(ex, lambda: ex.call(f, [client, pt] + list(args)))


FIELDS = {"open_remote_file_result": [("upload_id", "bytes"), ("size", "int"), ("fail", "int"), ("fail_reason", "bytes")],
          "read_remote_file_result": [("upload_id", "bytes"), ("offset", "int"), ("size", "int"), ("data", "bytes"), ("fail", "int"), ("fail_reason", "bytes")],
          "write_remote_file_result": [("id", "bytes"), ("position", "int"), ("chunk_size", "int"), ("device_path", "bytes"), ("fail", "int"), ("fail_reason", "bytes")]}


def reply(ex, name):
    """The one result packet sent, by field; texts count as their UTF-8 bytes (C03)."""
    sent = ex.g["sent"]
    ex.prove(len(sent) == 1, "each request is answered by exactly one packet")
    if len(sent) != 1:
        raise PathEnd()
    pt, a, k = sent[0]
    ptn = pt.name if isinstance(pt, EnumV) else pt
    ex.prove(ptn == name, "the answer is the result packet of the request")
    if ptn != name:
        raise PathEnd()
    spec = FIELDS[name]
    ex.prove(len(a) <= len(spec), "the packet has its fields")
    d = dict(zip([n for n, _ in spec], a))
    d.update(dict(k))
    ex.prove(set(d) == set(n for n, _ in spec), "the packet has exactly its fields")
    for n, t in spec:
        if n not in d:
            raise PathEnd()
        v = ex.expand(d[n])
        kd = kind_of(v)
        if t == "bytes" and kd == "str":
            v = v.encode("utf-8") if is_native(v) else mk("bytes", T.UTF8(term(v)))
            kd = "bytes"
        ex.prove(kd == t, "field %s has its declared type" % n)
        if kd != t:
            raise PathEnd()
        d[n] = v
    return d


def cand_paths(ex, lv):
    if "taken" not in lv.g:
        return []
    g = lv.g
    out = []
    flags = []          # locals that may hold the answer for the path tried last
    for k, v in sorted(lv.locals.items()):
        if kind_of(v) == "bool" and "@" not in k:
            flags += [(k, term(v)), ("not " + k, z3.Not(term(v)))]
    for k, v in sorted(lv.locals.items()):
        if kind_of(v) == "str" and g["wanted"] is not None and flags:
            e0 = lv.entry.locals.get(k)
            if kind_of(e0) == "str" and z3.simplify(term(e0)).eq(z3.simplify(g["wanted"][0])):
                for k2, v2 in sorted(lv.locals.items()):
                    if kind_of(v2) == "int":
                        out.append(("%s is variation %s" % (k, k2), z3.Or(*[z3.And(term(v) == x, y) for x, y in alternatives(ex, term(v2))])))
        for b, c in flags:
            if kind_of(v) == "int":
                out.append(("%s = taken before %s" % (k, b), term(v) + z3.If(c, z3.IntVal(1), z3.IntVal(0)) == term(g["taken"])))
            if kind_of(v) == "str" and g["wanted"] is not None:
                e0 = lv.entry.locals.get(k)
                if kind_of(e0) == "str" and z3.simplify(term(e0)).eq(z3.simplify(g["wanted"][0])):
                    out.append(("%s is free but for %s" % (k, b), z3.Or(c, term(v) == g["free"] if g["free"] is not None else z3.BoolVal(False))))
        if kind_of(v) == "int":
            out.append(("%s = taken" % k, term(v) == term(g["taken"])))
            out.append(("%s <= 100" % k, term(v) <= 100))
            out.append(("%s >= 0" % k, term(v) >= 0))
        if kind_of(v) == "str" and g["wanted"] is not None:
            d0, e0 = z3.simplify(g["wanted"][0]), lv.entry.locals.get(k)
            if kind_of(e0) != "str" or not z3.simplify(term(e0)).eq(d0):
                continue
            t = term(v)
            out.append(("%s is the wanted path or its variation" % k, z3.Or(*[z3.And(t == a, c) for a, c in alternatives(ex)])))
    return out
