"""C13: the file service streams exactly the requested file."""
from .service import *

FS = "dataplicity.m2m.fileservice"
MIB = 1048576


def t_stream(ex):
    e = ex.task.ext
    ch = channel(ex)
    path = ex.fresh("path", "str")
    ex.g.update(rd=b"", eof=False, bad=False, opened=False, P=path)
    ex.task.write_check = lambda ex, d: ex.prove(z3.Length(term(d)) <= MIB, "chunks have at most 1 MiB")

    def open_(ex, a, k):
        p = ex.expand(a[0])
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        ex.prove(kind_of(mode) == "str" and mode in ("rb", "br"), "the file is read as bytes")
        ex.prove(kind_of(p) == "str", "the path is a text")
        want = z3.If(z3.PrefixOf(zstr("/"), path.t), path.t, T.cat(zstr("/"), path.t))
        ex.prove(term(p) == want, "the path is taken from the root directory")
        ex.prove(ex.g["opened"] is False, "the file is opened once")
        ex.g["opened"] = True
        if ex.choose(2, "open fails"):
            ex.g["bad"] = True
            ex.anyexc("open", base=("builtins.OSError", "builtins.ValueError")[ex.choose(2, "how")])
        return ex.opaque("$file")
    for n in ("builtins.open", "io.open"):
        e[n] = open_
    e["$file.__enter__"] = lambda ex, ref, a, k: ref

    def close(ex, ref, a, k):
        if ex.choose(2, "closing the file fails"):
            ex.anyexc("close", base="builtins.OSError")
    e["$file.__exit__"] = close
    e["$file.close"] = close

    def read(ex, ref, a, k):
        n = a[0] if a else -1
        if ex.choose(2, "read fails"):
            ex.g["bad"] = True
            ex.anyexc("read", base=("builtins.OSError", "builtins.MemoryError")[ex.choose(2, "how")])
        if ex.g["eof"] is not False and (ex.g["eof"] is True or ex.branch(ex.g["eof"].t)):
            return b""
        c = ex.fresh("chunk", "bytes")
        if n is not None:
            ex.assume(z3.Implies(term(n) >= 0, z3.Length(c.t) <= term(n)))
            ex.assume(z3.Implies(z3.And(term(n) >= 0, term(n) == 0), z3.Length(c.t) == 0))
        if ex.branch(z3.Length(c.t) == 0):
            if n is None or ex.branch(term(n) != 0):
                ex.g["eof"] = True
            return b""
        cat_g(ex, "rd", c.t)
        return c
    e["$file.read"] = read
    th = service(ex, FS + ".FileService", ch, path)
    if th is None:
        ex.eng.reach(ex, "not started")
        return
    k, r = outcome(ex, lambda: thread_main(ex, th))
    got, want = term(ex.g["wr"]), term(ex.g["rd"])
    ex.prove(z3.PrefixOf(got, want), "what is written is the file's content from its start, in order")
    ex.prove([x[0] for x in ex.g["ev"]].count("close") == 1, "the channel is closed exactly once")
    flag = lambda n: ex.g[n] is True or (ex.g[n] is not False and ex.branch(ex.g[n].t))
    if flag("bad"):
        ex.prove(any(x[0] == "control" and control_is(ex, x[1], type="error") for x in ex.g["ev"]), "a file that cannot be opened or read is reported")
        ex.eng.reach(ex, "unreadable")
    elif flag("observed"):
        ex.eng.reach(ex, "channel closed")
    elif flag("wrfail"):
        ex.eng.reach(ex, "broken")
    else:
        ex.prove(flag("opened") and flag("eof"), "the file is read to its end")
        ex.prove(got == want, "the whole file is written")
        ex.eng.reach(ex, "complete")


def cand_stream(ex, lv):
    if "rd" not in lv.g:
        return []
    out = [("wr = rd", term(lv.g["wr"]) == term(lv.g["rd"]))]
    for k, v in sorted(lv.locals.items()):
        if kind_of(v) == "bytes":
            out.append(("wr+%s = rd" % k, T.cat(term(lv.g["wr"]), term(v)) == term(lv.g["rd"])))
            out.append(("len %s" % k, z3.Length(term(v)) <= MIB))
    for n in ("eof", "bad", "observed", "wrfail"):
        v = lv.g[n]
        v = z3.BoolVal(v) if isinstance(v, bool) else v.t
        out.append(("not " + n, z3.Not(v)))
        for k, x in sorted(lv.locals.items()):
            if kind_of(x) == "bytes":
                out.append(("%s while %s empty" % (n, k), z3.Implies(v, z3.Length(term(x)) == 0)))
                out.append(("%s empty only %s" % (k, n), z3.Implies(z3.Length(term(x)) == 0, v)))
    return out


def tasks(w):
    t = Task("stream", t_stream, FS + ":FileService._run_service", candidates=[cand_stream], must_reach=["not started", "unreadable", "channel closed", "broken", "complete"],
             requires="any path; a file of any content and size, read in pieces of any sizes; any failure of opening, reading, closing or writing; a channel closed at any moment",
             ensures=["written = prefix of the content; = content unless closed, unreadable or broken", "every chunk <= 1 MiB", "error control when unreadable", "one close, last"])
    return [t]


ASSUMPTIONS = ["a channel's send_control, close and is_closed do not fail (its transport failures are swallowed by WSClient.send_bytes)", "a file object's read(n) returns up to n of the next bytes and b'' only at the end (Python)",
               "termination of the loop: files are finite"]
