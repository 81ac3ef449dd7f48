"""Shared setting of the service contracts (C10, C13, C14): a channel that records what it is asked and may be closed by
the other end at any moment, a limiter with its contract (C09), and the thread a service starts."""
from .common import *
from .term import limiter, cat_g
from vp.env import thread_main


def channel(ex, write_fails=True):
    """Contract of a channel (C06, C07): writes and control messages are sent in order; close() requests its end."""
    e, g = ex.task.ext, ex.g
    g.update(wr=b"", wrfail=False, ev=(), observed=False)

    def still_open(ex, what):
        ex.prove(not any(x[0] == "close" for x in ex.g["ev"]), "nothing follows the closing of the channel")

    def write(ex, ref, a, k):
        d = ex.expand(a[0] if a else k["data"])
        ex.prove(kind_of(d) == "bytes", "only bytes are written to the channel")
        still_open(ex, "write")
        h = ex.task.__dict__.get("write_check")
        if h:
            h(ex, d)
        if write_fails and ex.g.get("started") and ex.choose(2, "channel write fails"):
            ex.g["wrfail"] = True
            ex.anyexc("write")
        cat_g(ex, "wr", term(d))

    def close(ex, ref, a, k):
        still_open(ex, "close")
        ex.g["ev"] = ex.g["ev"] + (("close",),)

    def control(ex, ref, a, k):
        still_open(ex, "control")
        ex.g["ev"] = ex.g["ev"] + (("control", a[0] if a else k["control"]),)

    def is_closed(ex, ref, a, k):
        if ex.g["observed"] is False:
            if not ex.choose(2, "channel closed meanwhile"):
                return False
            ex.g["observed"] = True
            return True
        if ex.g["observed"] is True:
            return True
        return ex.g["observed"]
    e.update({"$chan.write": write, "$chan.close": close, "$chan.send_control": control, "$chan.get:is_closed": is_closed, "$chan.get:_closed": is_closed,
              "$chan.set_callbacks": lambda ex, ref, a, k: None})
    return ex.opaque("$chan", number=ex.fresh("number", "int"))


def control_is(ex, d, **want):
    """The control message has these (concrete) entries."""
    if not (isinstance(d, Ref) and isinstance(ex.h(d), HDict)):
        return False
    try:
        items = dict(ex.dict_items(ex.h(d)))
    except Exception:
        return False
    return all(items.get(k) == v for k, v in want.items())


def service(ex, cls, ch, *args):
    """Starts the service; the thread object, or None when it could not be started."""
    n = len(ex.g.get("started", ()))
    k, r = outcome(ex, lambda: ex.call(ex.w.cls(cls), [limiter(ex), ch] + list(args)))
    st = ex.g.get("started", ())[n:]
    ex.prove(k == "ok", "no failure of a service escapes to its caller")
    ex.prove(len(st) <= 1, "a service has one thread")
    return st[0] if st else None
