"""Contracts assumed of the operating system: descriptors, polling, processes, pseudo terminals, JSON text.
Ghosts: 'os' = tuple of recorded calls."""
import z3
from .values import *
from . import theory as T
from .interp import EXT
from .env import ext


def rec(ex, *e):
    ex.g["os"] = ex.g.get("os", ()) + (e,)


def calls(ex, *names):
    return [e for e in ex.g.get("os", ()) if e[0] in names]


def oserr(ex, what, cls="builtins.OSError"):
    ex.exc(cls, what, errno=ex.fresh("errno", "int"), strerror=ex.fresh("strerror", "str"), filename=None)


def arg(args, kw, i, name, default=None):
    return args[i] if len(args) > i else kw.get(name, default)


# ------------------------------------------------------------------ select.poll
POLLIN, POLLPRI, POLLERR, POLLHUP, POLLNVAL = 1, 2, 8, 16, 32


@ext("select.poll")
def _poll(ex, args, kw):
    return ex.opaque("select.poll", n=0)


def fdterm(ex, fd):
    fd = ex.expand(fd)
    if isinstance(fd, Ref):
        fd = ex.call(ex.getattr(fd, "fileno"), [])
    if kind_of(fd) != "int":
        ex.exc("builtins.TypeError", "argument must be an int, or have a fileno() method")
    return fd


@ext("select.poll.register")
def _register(ex, ref, args, kw):
    f = ex.h(ref).fields
    fd, ev = fdterm(ex, args[0]), arg(args, kw, 1, "eventmask", 7)
    for i in range(f["n"]):
        if ex.branch(term(f["fd%d" % i]) == term(fd)):
            f["ev%d" % i], f["reg%d" % i] = ev, True
            return
    i = f["n"]
    if i >= 4:
        ex.unsupported("many polled descriptors")
    f["fd%d" % i], f["ev%d" % i], f["reg%d" % i] = fd, ev, True
    f["n"] = i + 1


EXT["select.poll.modify"] = _register


@ext("select.poll.unregister")
def _unregister(ex, ref, args, kw):
    f = ex.h(ref).fields
    fd = fdterm(ex, args[0])
    for i in range(f["n"]):
        if ex.branch(term(f["fd%d" % i]) == term(fd)):
            if ex.truth(f["reg%d" % i]):
                f["reg%d" % i] = False
                return
    ex.exc("builtins.KeyError", fd)


@ext("select.poll.poll")
def _pollpoll(ex, ref, args, kw):
    """Some of the registered descriptors, in any order, each with a non-empty set of requested or error events."""
    h = getattr(ex.task, "poll_hook", None)
    if h is not None:
        r = h(ex, ref)
        if r is not None:
            return r
    if not getattr(ex.task, "nofail", False) and ex.choose(2, "poll fails"):
        oserr(ex, "poll")
    f = ex.h(ref).fields
    out = []
    for i in range(f["n"]):
        if not ex.truth(f["reg%d" % i]) or ex.choose(2, "descriptor %d has an event" % i):
            continue
        ev = f["ev%d" % i]
        if not isinstance(ev, int):
            ex.unsupported("symbolic event mask")
        allowed = (ev & (POLLIN | POLLPRI | 4)) | POLLERR | POLLHUP | POLLNVAL
        m = ex.fresh("revents", "int")
        ex.assume(z3.And(m.t > 0, m.t < 64))
        for b in (1, 2, 4, 8, 16, 32):
            if not allowed & b:
                ex.assume((m.t / b) % 2 == 0)
        out.append((f["fd%d" % i], m))
    if len(out) == 2 and ex.choose(2, "order of the events"):
        out.reverse()
    if len(out) > 2:
        ex.unsupported("more than two polled descriptors")
    chk = getattr(ex.task, "poll_result", None)
    if chk is not None:
        chk(ex, ref, out)
    return ex.newlist(out)


# ------------------------------------------------------------------ descriptors
@ext("os.read")
def _read(ex, args, kw):
    """At most n bytes; none only at the end of file."""
    fd, n = args
    h = getattr(ex.task, "read_data", None)
    if h is not None:
        return h(ex, fd, n)
    ex.unsupported("os.read")


@ext("os.write")
def _write(ex, args, kw):
    """Writes some non-empty prefix, or fails."""
    fd, data = args
    h = getattr(ex.task, "write_data", None)
    if h is not None:
        return h(ex, fd, data)
    ex.unsupported("os.write")


@ext("os.close")
def _close(ex, args, kw):
    rec(ex, "close", args[0])


@ext("os.kill")
def _kill(ex, args, kw):
    rec(ex, "kill", args[0], args[1])


@ext("pty.fork")
def _fork(ex, args, kw):
    if ex.choose(2, "fork fails"):
        oserr(ex, "fork")
    if ex.choose(2, "in the child"):
        ex.g["child"] = True
        return (0, -1)
    pid, fd = ex.fresh("pid", "int"), ex.fresh("master_fd", "int")
    ex.assume(z3.And(pid.t > 0, fd.t >= 0))
    rec(ex, "fork", pid, fd)
    return (pid, fd)


@ext("fcntl.ioctl")
def _ioctl(ex, args, kw):
    rec(ex, "ioctl", args[0], args[1], args[2] if len(args) > 2 else 0)
    if ex.choose(2, "ioctl fails"):
        oserr(ex, "ioctl")
    return 0


@ext("array.array", "new:array.array")
def _array(ex, args, kw):
    """array('h', ints)"""
    if args[0] != "h":
        ex.unsupported("array type")
    items = ex.unpack(args[1], None)
    out = []
    for x in items:
        x = ex.expand(x)
        if kind_of(x) not in ("int", "bool"):
            ex.exc("builtins.TypeError", "an integer is required")
        if kind_of(x) == "bool":
            x = int(x) if isinstance(x, bool) else mk("int", z3.If(x.t, 1, 0))
        if ex.branch(z3.Or(term(x) > 32767, term(x) < -32768)):
            ex.exc("builtins.OverflowError", "signed short integer out of range")
        out.append(x)
    return ex.opaque("array.array", items=tuple(out))


@ext("os.execlp", "os.execvp", "os.execv")
def _exec(ex, args, kw):
    rec(ex, "exec", tuple(args))
    if ex.choose(2, "exec fails"):
        oserr(ex, "exec")
    raise PathEnd()


@ext("os._exit")
def _exit(ex, args, kw):
    raise PathEnd()


SHLEX = z3.Function("SHLEX", z3.StringSort(), SeqPy)


@ext("shlex.split")
def _split(ex, args, kw):
    s = ex.expand(args[0])
    if isinstance(s, str):
        import shlex
        return ex.newlist(shlex.split(s))
    if kind_of(s) != "str":
        ex.unsupported("shlex.split")
    if ex.choose(2, "command line cannot be split"):
        ex.exc("builtins.ValueError", "No closing quotation")
    r = ex.newlist([])
    o = ex.h(r)
    o.items, o.seq, o.ekind = None, z3.Function("SHLEXS", z3.StringSort(), z3.SeqSort(z3.StringSort()))(s.t), "str"
    return r


# ------------------------------------------------------------------ JSON
JSONOK = z3.Function("JSONOK", z3.StringSort(), z3.BoolSort())
JSONOF = z3.Function("JSONOF", z3.StringSort(), Py)
JSONTXT = z3.Function("JSONTXT", Py, z3.StringSort())


@ext("json.loads")
def _loads(ex, args, kw):
    v = ex.expand(args[0])
    if kind_of(v) not in ("str", "bytes"):
        ex.exc("builtins.TypeError", "the JSON object must be str, bytes or bytearray")
    t = term(v)
    if not ex.branch(JSONOK(t)):
        ex.exc("json.decoder.JSONDecodeError", "Expecting value", doc="", pos=0)
    r = S("py:json", z3.simplify(JSONOF(t)))
    return r


@ext("json.dumps")
def _dumps(ex, args, kw):
    p = ex.to_py(args[0])
    t = JSONTXT(p)
    ex.assume(z3.And(JSONOK(t), JSONOF(t) == p))
    return S("str", t)
