"""C19: every remote file request gets exactly one truthful reply."""
from .rd import *


def same(ex, v, want):
    return isval(ex, v, want)


def t_open(ex):
    rd, client = setup(ex, "open", root=False, tmp=False)
    p, u = ex.fresh("path", "bytes"), ex.fresh("upload_id", "bytes")
    k, v = request(ex, client, "open_remote_file", u, p)
    ex.prove(k == "ok", "no exception escapes")
    d = reply(ex, "open_remote_file_result")
    ex.prove(same(ex, d["upload_id"], u), "the reply carries the request's upload id")
    if ex.branch(term(d["fail"]) == 0):
        c = ex.g["copied"]
        ex.prove(bool(c), "success is reported only when the snapshot was made")
        if c:
            ex.prove(len(ex.g["sizes"]) == 1 and same(ex, d["size"], ex.g["sizes"][0][1]), "the size reported is the snapshot's")
            ex.prove(c[1] == T.cat(area(ex, SNAPDIR), zstr("/"), T.DEC8(u.t)), "the snapshot made is the one named by the upload id")
            ex.prove(z3.Or(c[0] == T.cat(ex.g["G"], zstr(SCAN)), c[0] == T.cat(ex.g["R"], zstr("/"), lstripped(ex, p))), "the file copied is the one asked for")
        ex.eng.reach(ex, "opened")
    else:
        ex.prove(term(d["fail"]) == 1, "a failure is reported with its stage code")
        ex.eng.reach(ex, "open failed")


def lstripped(ex, p):
    from vp.builtins_ import strip_chars
    return term(strip_chars(ex, S("str", T.DEC8(p.t)), "lstrip", "/", "str"))


def t_read(ex):
    rd, client = setup(ex, "read", root=False, tmp=False)
    u, off, size = ex.fresh("upload_id", "bytes"), ex.fresh("offset", "int"), ex.fresh("size", "int")
    k, v = request(ex, client, "read_remote_file", u, off, size)
    ex.prove(k == "ok", "no exception escapes")
    d = reply(ex, "read_remote_file_result")
    ex.prove(same(ex, d["upload_id"], u), "the reply carries the request's upload id")
    if ex.branch(term(d["fail"]) == 0):
        snap = z3.simplify(T.cat(area(ex, SNAPDIR), zstr("/"), T.DEC8(u.t)))
        got = [c for q, c in ex.g["contents"] if q.eq(snap)]
        ex.prove(len(got) == 1, "success is reported only when the snapshot was read")
        if got:
            ex.prove(z3.Implies(z3.And(size.t >= 0), term(d["data"]) == z3.SubString(got[0], off.t, size.t)), "the data are the snapshot's bytes at the offset, at most the size asked for")
            ex.prove(off.t >= 0, "nothing is read at a negative offset")
        ex.prove(same(ex, d["offset"], off), "the reply carries the offset")
        ex.eng.reach(ex, "read")
    else:
        ex.prove(term(d["fail"]) == 1, "a failure is reported with its stage code")
        ex.eng.reach(ex, "read failed")


def t_close(ex):
    rd, client = setup(ex, "close", root=False, tmp=False)
    k, v = request(ex, client, "close_remote_file", ex.fresh("upload_id", "bytes"))
    ex.prove(k == "ok", "no exception escapes")
    ex.prove(ex.g["sent"] == (), "closing is not answered")
    ex.eng.reach(ex, "closed")


def t_write(ex):
    rd, client = setup(ex, "write", root=False, tmp=False)
    g = ex.g
    f = lambda n, k: ex.fresh(n, k)
    path, dev, id, off, data, fin = f("path", "bytes"), f("device_path", "bytes"), f("id", "bytes"), f("offset", "int"), f("data", "bytes"), f("final", "int")
    g.update(path=path, wanted=None)
    k, v = request(ex, client, "write_remote_file", id, path, dev, off, data, fin)
    ex.prove(k == "ok", "no exception escapes")
    d = reply(ex, "write_remote_file_result")
    ex.prove(same(ex, d["id"], id), "the reply carries the request's id")
    code = term(d["fail"])
    empty = z3.Length(data.t) == 0
    n = z3.Length(data.t)
    if ex.branch(code == 0):
        target = T.cat(area(ex, DLDIR), zstr("/"), T.DEC8(id.t)) if ex.branch(z3.Length(dev.t) == 0) else T.DEC8(dev.t)
        ex.prove(term(d["device_path"]) == T.UTF8(target), "the reply names the file written")
        ex.prove(term(d["position"]) == off.t + n, "the position reported follows the data")
        st = [z3.And(q == target, term(o) == off.t, term(x) == data.t) for q, o, x, m in g["stored"] if m == "r+"]
        ex.prove(z3.Or(empty, *st), "success is reported only when the data were stored at the offset")
        moved = [q == target for q, _ in g["moved"]]
        ex.prove(z3.Or(fin.t == 0, *moved), "success of the last chunk is reported only when the file was moved in place")
        ex.eng.reach(ex, "written")
    elif ex.branch(code == 1):
        ok = z3.And(T.VALID8(dev.t), z3.Or(z3.And(dev.t == zstr(""), T.VALID8(id.t), name_ok(T.DEC8(id.t))), z3.And(dev.t != zstr(""), direct_(ex, T.DEC8(dev.t)))))
        if g["allocfail"] is not True:
            ex.prove(z3.Not(ok), "stage 1 is reported only when no download file can be had")
        ex.prove(g["stored"] == () and g["moved"] == (), "after a failure at stage 1 nothing takes place")
        ex.eng.reach(ex, "failed 1")
    elif ex.branch(code == 2):
        ex.prove(g["wfail"] is True, "stage 2 is reported only when writing failed")
        ex.prove(g["moved"] == (), "after a failure at stage 2 nothing is moved")
        ex.eng.reach(ex, "failed 2")
    else:
        ex.prove(code == 3, "a failure is reported with its stage code")
        ex.prove(g["mfail"] is True and g["moved"] == (), "stage 3 is reported only when moving failed")
        ex.prove(fin.t != 0, "stage 3 is reached by a last chunk only")
        ex.eng.reach(ex, "failed 3")


def direct_(ex, p):
    h, t = paths.split_path(ex, p)
    return z3.And(h == area(ex, DLDIR), name_ok(t))


def tasks(w):
    R = "any bytes and integers in the request; every file function may fail"
    out = [Task("open", t_open, RD + ":RemoteDirectory.on_open_remote_file", must_reach=["opened", "open failed"], requires=R, ensures=["one reply with the id", "success => snapshot made, its size"]),
           Task("read", t_read, RD + ":RemoteDirectory.on_read_remote_file", must_reach=["read", "read failed"], requires=R, ensures=["one reply with the id", "success => bytes of the snapshot at the offset"]),
           Task("close", t_close, RD + ":RemoteDirectory.on_close_remote_file", must_reach=["closed"], requires=R, ensures=["no reply, no exception"]),
           Task("write", t_write, RD + ":RemoteDirectory.on_write_remote_file", must_reach=["written", "failed 1", "failed 2", "failed 3"], requires=R,
                ensures=["one reply with the id", "success => stored at the offset and moved if final", "failure => its stage code"])]
    for t in out:
        t.branch_timeout, t.cand_timeout = 1000, 2000
        t.prop, t.slices = "C19", True
    return out


ASSUMPTIONS = ["WSClient.send accepts packets whose fields have their declared types, texts included (C03)", "the temporary directory has a name of valid text", "messages of exceptions can be encoded (they hold no lone surrogates)",
               "a buffered file's read(n) returns the next n bytes, fewer only at the end; data written are stored once flush or close succeeds (Python)", "copy_download moves the file or raises (proved in C18)"]

DEPS = ["c18:copy"]
