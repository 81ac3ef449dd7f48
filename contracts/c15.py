"""C15: terminal input, output and size are passed through unchanged."""
from .term import *
from vp.env_os import JSONOK, JSONOF

TIOCSWINSZ = 0x5414
REQ = "a running terminal (real constructor and real spawn); any data; every system call may fail or be partial"


def size_of(ex, call, fd, name):
    """(columns, rows) an ioctl sets."""
    ex.prove(conj(isval(ex, call[1], fd), isval(ex, call[2], TIOCSWINSZ)), "the size is set on the terminal itself")
    buf = call[3]
    ex.prove(isinstance(buf, Ref) and ex.clsname_of(buf) == "array.array", name)
    it = ex.h(buf).fields["items"]
    ex.prove(len(it) == 4, name)
    return it[1], it[0]


def t_input(ex):
    p, ch = process(ex)
    data = ex.fresh("data", "bytes")
    ex.g["tty"] = b""
    ex.g["ttyfail"] = False
    ex.g["DATA"] = data

    def write(ex, fd, d):
        d = ex.expand(d)
        ex.prove(kind_of(d) == "bytes", "bytes are written to the terminal")
        ex.prove(isval(ex, fd, calls(ex, "fork")[-1][2]), "input goes to this terminal")
        if ex.choose(2, "write to the terminal fails"):
            ex.g["ttyfail"] = True
            env_os.oserr(ex, "write")
        n = ex.fresh("accepted", "int")
        t = term(d)
        ex.assume(z3.And(n.t >= 0, n.t <= z3.Length(t), z3.Implies(z3.Length(t) > 0, n.t > 0)))
        acc, rest = ex.fresh("acc", "bytes"), ex.fresh("rest", "bytes")
        ex.assume(z3.And(t == z3.Concat(acc.t, rest.t), z3.Length(acc.t) == n.t, z3.SubString(t, n.t, z3.Length(t) - n.t) == rest.t))
        cat_g(ex, "tty", acc.t)
        return n
    ex.task.write_data = write

    def go(fd, pid):
        k, v = outcome(ex, lambda: ex.call(cb(ex, ch, "on_data"), [data]))
        got = term(ex.g["tty"])
        ex.prove(z3.PrefixOf(got, data.t), "input is written to the terminal in order, once")
        if not ex.g["ttyfail"]:
            ex.prove(k == "ok", "input does not fail")
            ex.prove(got == data.t, "input is written to the terminal completely")
            ex.prove(ex.g["chan"] == (), "the channel stays open")
            ex.eng.reach(ex, "written")
        else:
            ex.prove(k == "ok", "failing input does not fail the receiving thread")
            ex.prove(len([c for c in ex.g["chan"] if c[0] == "close"]) >= 1, "a terminal that takes no input is closed")
            ex.eng.reach(ex, "failed")
        ex.prove(term(ex.g["wr"]) == z3.StringVal(""), "input is not echoed by the agent")
        raise PathEnd()
    running(ex, p, go)


def cand_input(ex, lv):
    if "DATA" not in lv.g:
        return []
    out = [("tty prefix of data", z3.PrefixOf(term(lv.g["tty"]), term(lv.g["DATA"])))]
    for k, v in lv.locals.items():
        if kind_of(v) == "bytes":
            out.append(("tty+%s = data" % k, T.cat(term(lv.g["tty"]), term(v)) == term(lv.g["DATA"])))
        if kind_of(v) == "int":
            out.append(("%s = len(tty)" % k, term(v) == z3.Length(term(lv.g["tty"]))))
    return out


def var_input(ex, lv):
    if "DATA" not in lv.g:
        return []
    return [("bytes left", z3.Length(term(lv.g["DATA"])) - z3.Length(term(lv.g["tty"])))] + int_variants(ex, lv)


def due(ex):
    d = ex.g.get("due")
    if d is not None:
        ex.prove(term(d) % 2 == 0, "output the terminal has ready is read, also when it hangs up")


def t_output(ex):
    p, ch = process(ex)
    ex.g["rd"] = b""

    def read(ex, fd, n):
        ex.prove(isval(ex, fd, calls(ex, "fork")[-1][2]), "output is read from this terminal")
        if ex.choose(2, "read fails"):
            ex.g["due"] = None
            env_os.oserr(ex, "read")
        ex.g["due"] = None
        c = ex.fresh("chunk", "bytes")
        ex.assume(z3.Length(c.t) <= term(n))
        ex.prove(z3.Implies(z3.BoolVal(True), term(ex.g["wr"]) == term(ex.g["rd"])), "output is written to the channel before more is read")
        cat_g(ex, "rd", c.t)
        return c
    ex.task.read_data = read
    ex.task.poll_hook = None

    ex.g["due"] = None

    def result(ex, ref, out):
        due(ex)
        ex.g["due"] = out[0][1] if out else None
        ex.prove(term(ex.g["wr"]) == term(ex.g["rd"]), "output is written to the channel at once")
    ex.task.poll_result = result
    k, v = outcome(ex, lambda: ex.call(method(ex, p, "run"), []))
    if not calls(ex, "fork"):
        ex.eng.reach(ex, "not started")
        return
    due(ex)
    got, want = term(ex.g["wr"]), term(ex.g["rd"])
    if ex.g["wrfail"]:
        ex.prove(z3.PrefixOf(got, want), "output is written to the channel in order, once")
        ex.eng.reach(ex, "broken")
    else:
        ex.prove(got == want, "everything read from the terminal is written to the channel in order")
        ex.eng.reach(ex, "finished")


def cand_output(ex, lv):
    if "rd" not in lv.g:
        return []
    d = lv.g.get("due")
    return [("wr = rd", term(lv.g["wr"]) == term(lv.g["rd"])), ("nothing ready is unread", z3.BoolVal(True) if d is None else term(d) % 2 == 0)]


def started_size(ex, want, name):
    def go(fd, pid):
        io = calls(ex, "ioctl")
        ex.prove(len(io) >= 1, name)
        c, r = size_of(ex, io[-1], fd, name)
        ex.prove(conj(isval(ex, c, want[0]), isval(ex, r, want[1])), name)
        ex.eng.reach(ex, "started")
        raise PathEnd()
    return go


def t_default(ex):
    which = ex.choose(3, "who starts it")
    if which == 0:
        p, ch = process(ex)
        running(ex, p, started_size(ex, (80, 24), "a terminal starts at 80 columns by 24 rows"))
        return
    ch = channel(ex)
    term_ = ex.call(ex.w.cls("dataplicity.m2mmanager.Terminal"), ["shell", "bash -i"])
    if which == 1:
        args, want = [limiter(ex), ch], (80, 24)
    else:
        c, r = ex.fresh("columns", "int"), ex.fresh("rows", "int")
        for x in (c, r):
            ex.assume(z3.And(x.t >= 0, x.t <= 32767))
        args, want = [limiter(ex), ch, ex.newlist([c, r])], (c, r)
    outcome(ex, lambda: ex.call(method(ex, term_, "launch"), args))
    th = ex.g.get("started", ())
    if not th:
        raise PathEnd()
    from vp.env import thread_main
    ex.prove(len(th) == 1, "one terminal thread is started")

    class P(object):
        pass
    ex.task.poll_hook = None
    st = started_size(ex, want, "a terminal starts at the size asked for, or at 80 columns by 24 rows")

    def hook(ex, ref):
        f = calls(ex, "fork")[-1]
        st(f[2], f[1])
    ex.task.poll_hook = hook
    outcome(ex, lambda: thread_main(ex, th[0]))


def control_case(ex):
    """(message, valid size or None, decidable)"""
    msg = ex.fresh("message", "bytes")
    return msg


def wanted(ex, msg):
    """('size', columns, rows) for a well-formed resize request, ('other',) for anything that must change nothing, None when
    nothing is required (sizes no terminal has)."""
    if not ex.branch(JSONOK(msg.t)):
        return ("other",)
    j = ex.expand(S("py:json", z3.simplify(JSONOF(msg.t))))
    if not (isinstance(j, Ref) and isinstance(ex.h(j), HDict)):
        return ("other",)
    if not has_key(ex, j, "type"):
        return ("other",)
    ty = ex.expand(ex.getitem(j, "type"))
    if kind_of(ty) != "str" or not ex.branch(term(ty) == zstr("window_resize")):
        return ("other",)
    if not has_key(ex, j, "size"):
        return ("other",)
    s = ex.expand(ex.getitem(j, "size"))
    if not (isinstance(s, Ref) and isinstance(ex.h(s), HList)):
        if kind_of(s) in ("str",) or isinstance(s, Ref):
            return ("other",)
        return ("other",)
    seq = ex.h(s).seq
    if not ex.branch(z3.Length(seq) == 2):
        return ("other",)
    c, r = ex.expand(S("py:json", z3.simplify(seq[0]))), ex.expand(S("py:json", z3.simplify(seq[1])))
    for x in (c, r):
        if kind_of(x) == "bool":
            return None
        if kind_of(x) != "int":
            return ("other",)
    for x in (c, r):
        if not ex.branch(z3.And(term(x) >= 0, term(x) <= 32767)):
            return None
    return ("size", c, r)


def t_control(ex):
    """A control message while the terminal runs."""
    p, ch = process(ex)
    msg = ex.fresh("message", "bytes")
    w = wanted(ex, msg)

    def go(fd, pid):
        n = len(calls(ex, "ioctl"))
        ex.g["os"] = tuple(x for x in ex.g["os"] if x[0] == "fork")
        outcome(ex, lambda: ex.call(cb(ex, ch, "on_control"), [msg]))
        io = calls(ex, "ioctl")
        if w is not None and w[0] == "other":
            ex.prove(len(io) == 0, "a control message that is no resize request changes nothing")
            ex.eng.reach(ex, "other")
        elif w is not None:
            ex.prove(len(io) == 1, "a resize request sets the size once")
            c, r = size_of(ex, io[0], fd, "a resize request sets the size")
            ex.prove(conj(isval(ex, c, w[1]), isval(ex, r, w[2])), "a resize request for c columns and r rows sets exactly c columns and r rows")
            ex.eng.reach(ex, "resized")
        ex.prove([x for x in ex.g["os"] if x[0] not in ("fork", "ioctl")] == [] and ex.g["chan"] == () and term(ex.g["wr"]).eq(z3.StringVal("")),
                 "a control message does nothing else")
        raise PathEnd()
    running(ex, p, go)


def t_control_before(ex):
    """A control message before the process was started decides at most its size."""
    p, ch = process(ex)
    msg = ex.fresh("message", "bytes")
    w = wanted(ex, msg)
    outcome(ex, lambda: ex.call(cb(ex, ch, "on_control"), [msg]))
    ex.prove(ex.g.get("os", ()) == (), "nothing is done to a terminal that does not run yet")
    if w is None:
        raise PathEnd()
    want = (80, 24) if w[0] == "other" else w[1:]
    ex.g["seen"] = False

    def go(fd, pid):
        ex.g["seen"] = True
        started_size(ex, want, "a control message that is no resize request changes nothing" if w[0] == "other" else "a resize request for c columns and r rows sets exactly c columns and r rows")(fd, pid)
    k, v = running(ex, p, go)
    if calls(ex, "fork") and not ex.g["seen"] and not calls(ex, "exec"):
        ex.prove(len(calls(ex, "ioctl")) == 1, "a control message never keeps a terminal from starting")
        c, r = size_of(ex, calls(ex, "ioctl")[0], calls(ex, "fork")[0][2], "the size is set when the terminal starts")
        ex.prove(conj(isval(ex, c, want[0]), isval(ex, r, want[1])), "the size is set when the terminal starts")


def tasks(w):
    P = "dataplicity.m2m."
    return [
        Task("terminal input", t_input, P + "remoteprocess:RemoteProcess.on_data", candidates=[cand_input], variant_candidates=[var_input], terminates=True, must_reach=["written", "failed"],
             requires=REQ, ensures=["bytes accepted by the terminal = data, in order", "on failure a prefix, and the channel is closed"]),
        Task("terminal output", t_output, P + "remoteprocess:RemoteProcess.run", candidates=[cand_output], must_reach=["finished", "broken"], requires=REQ,
             ensures=["bytes written to the channel = bytes read"]),
        Task("starting size", t_default, P + "remoteprocess:RemoteProcess.__init__", must_reach=["started"], requires=REQ, ensures=["80x24 unless told otherwise"]),
        Task("control while running", t_control, P + "remoteprocess:RemoteProcess.on_control", must_reach=["other", "resized"], requires=REQ + "; any message bytes",
             ensures=["well-formed resize => exactly that size", "anything else => no change"]),
        Task("control before start", t_control_before, P + "remoteprocess:RemoteProcess.on_control", must_reach=["started"], requires="a terminal not started yet; any message bytes",
             ensures=["the starting size is the last well-formed request or 80x24"]),
    ]


ASSUMPTIONS = ["os.write accepts a non-empty prefix or fails", "resize requests outside 0..32767 or with booleans are not constrained", "one message is handled at a time (the receiving thread)"]
