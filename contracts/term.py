"""Shared setting of the terminal contracts (C15, C16): a RemoteProcess built by its real constructor over a recording
channel; its real run() is executed and the code under scrutiny is run from inside poll(), while the process is running."""
from .common import *
from vp import env_os
from vp.env_os import calls, rec

RP = "dataplicity.m2m.remoteprocess"


def cat_g(ex, name, t):
    ex.g[name] = mk("bytes", T.cat(term(ex.g[name]), t))


def channel(ex, may_fail=True):
    """A channel that keeps its callbacks and records what it is asked; closing it runs its close callback once."""
    e = ex.task.ext
    ex.g.setdefault("wr", b"")
    ex.g.setdefault("wrfail", False)
    ex.g.setdefault("chan", ())

    def set_callbacks(ex, ref, args, kw):
        names = ["on_data", "on_close", "on_control"]
        v = dict(zip(names, args))
        v.update(kw)
        for n in names:
            ex.h(ref).fields["$" + n] = v.get(n)

    def write(ex, ref, args, kw):
        d = ex.expand(args[0])
        ex.prove(kind_of(d) == "bytes", "only bytes are written to the channel")
        if may_fail and ex.choose(2, "channel write fails"):
            ex.g["wrfail"] = True
            ex.anyexc("write")
        cat_g(ex, "wr", term(d))

    def close(ex, ref, args, kw):
        ex.g["chan"] = ex.g["chan"] + (("close", ref.oid),)
        if ex.h(ref).fields["is_closed"] is False:
            ex.h(ref).fields["is_closed"] = True
            cb = ex.h(ref).fields.get("$on_close")
            if cb is not None:
                try:
                    ex.call(cb, [])
                except PyExc:
                    pass

    def control(ex, ref, args, kw):
        ex.g["chan"] = ex.g["chan"] + (("control", args[0]),)
    e.update({"$chan.set_callbacks": set_callbacks, "$chan.write": write, "$chan.close": close, "$chan.send_control": control})
    return ex.opaque("$chan", is_closed=False, number=ex.fresh("number", "int"))


def limiter(ex):
    e = ex.task.ext
    ex.g.setdefault("slots", ())
    for n in ("increment", "decrement"):
        e["$limiter." + n] = lambda ex, ref, a, k, n=n: ex.g.__setitem__("slots", ex.g["slots"] + (n,))
    e["$limiter.__call__"] = lambda ex, ref, a, k: ex.opaque("$slot")
    e["$slot.__enter__"] = slot_enter
    e["$slot.__exit__"] = slot_exit
    return ex.opaque("$limiter")


def slot_enter(ex, ref, args, kw):
    """The contract of a limiter's context (C09)."""
    if ex.choose(2, "limit reached"):
        ex.exc("dataplicity.limiter.LimitReached", "limit")
    ex.g["slots"] = ex.g["slots"] + ("increment",)


def slot_exit(ex, ref, args, kw):
    if args[0] is not None:
        ex.g["slots"] = ex.g["slots"] + ("decrement",)
    return None


def process(ex, size=NotImplemented, ch=None):
    """(process object, its channel)"""
    ch = ch or channel(ex)
    kw = {} if size is NotImplemented else {"size": size}
    p = ex.call(ex.w.cls(RP + ".RemoteProcess"), [limiter(ex), "bash -i", ch], kw)
    return p, ch


def running(ex, p, at_poll, stop=True):
    """Runs the real run(); at_poll(fd, pid) is executed once, inside the first poll, and the terminal then hangs up."""
    st = {"n": 0}

    def hook(ex, ref):
        st["n"] += 1
        if st["n"] == 1 and not ex.g.get("polled"):
            ex.g["polled"] = True
            f = calls(ex, "fork")[-1]
            at_poll(f[2], f[1])
            if stop:
                oserr = ex.h(ref).fields["fd0"]
                return ex.newlist([(oserr, 16)])
        return None
    ex.g["polled"] = False
    ex.task.poll_hook = hook
    return outcome(ex, lambda: ex.call(method(ex, p, "run"), []))


def cb(ex, ch, name):
    return ex.h(ch).fields["$" + name]
