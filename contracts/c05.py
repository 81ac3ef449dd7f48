"""C05: no incoming message or handler failure ends the connection loop."""
from .ws import *

REQ = "any event source (ends, fails, or is interrupted at any point); handling any event may fail with anything or request exit; any channel table with a witness"


def exits(ex, label):
    ex.exc("builtins.SystemExit" if ex.choose(2, label + ": exit kind") else "builtins.KeyboardInterrupt", "exit")


def t_run(ex):
    e = ex.task.ext
    ex.g.update(yielded=ex.fresh("y0", "int"), handled=None, over=False, exit=False, entered=False)
    ex.g["handled"] = ex.g["yielded"]

    def enter(ex, ref, a, k):
        if ex.choose(2, "entering the connection fails"):
            ex.g["over"] = True
            ex.anyexc("connection")
        ex.g["entered"] = True
        return ref

    def leave(ex, ref, a, k):
        if ex.choose(2, "leaving the connection fails"):
            ex.anyexc("connection")
        return None
    e["lomond.websocket.WebSocket.__enter__"] = enter
    e["lomond.websocket.WebSocket.__exit__"] = leave

    def nxt(ex, ref, a, k):
        ex.prove(not ex.g["exit"] and not ex.g["over"], "after an exit request no further event is taken")
        ex.prove(term(ex.g["handled"]) == term(ex.g["yielded"]), "every event is processed before the next one is taken")
        c = ex.choose(4, "event source")
        if c == 0:
            i = ex.g["yielded"]
            ex.g["yielded"] = mk("int", z3.simplify(term(i) + 1))
            return ex.opaque("$event", index=i, name=ex.fresh("event", "str"), data=ex.fresh("payload", "bytes"))
        ex.g["over"] = True
        if c == 1:
            ex.eng.reach(ex, "ended")
            ex.exc("builtins.StopIteration")
        if c == 2:
            ex.eng.reach(ex, "failed")
            ex.anyexc("event source")
        exits(ex, "source")
    e["$events.__next__"] = nxt
    e["$events.__iter__"] = lambda ex, ref, a, k: ref
    e["lomond.persist.persist"] = lambda ex, a, k: ex.opaque("$events")

    def on_event(ex, fn, args, kw):
        ev = args[1]
        ex.prove(isval(ex, ex.h(ev).fields["index"], ex.g["handled"]), "events are processed once each and in order")
        ex.g["handled"] = mk("int", z3.simplify(term(ex.g["handled"]) + 1))
        c = ex.choose(3, "handling the event")
        if c == 1:
            ex.anyexc("handler")
        if c == 2:
            ex.g["exit"] = True
            ex.eng.reach(ex, "exit")
            exits(ex, "handler")
    ex.task.contracts[MOD + ":WSClient.on_event"] = on_event
    s = make_client(ex, simple=True)
    j = ex.fresh("j", "int")
    ch = witness(ex, s, j, "cb.j")
    e["lomond.websocket.WebSocket.close"] = lambda ex, ref, a, k: None
    if ex.choose(2, "the agent closed the client"):
        ex.call(method(ex, s.client, "close"), [])
    k, v = outcome(ex, lambda: ex.call(method(ex, s.client, "run"), []))
    ex.prove(k == "ok", "the connection thread finishes without an escaping exception")
    ex.prove(ex.g["over"] or ex.g["exit"], "only the event source ending or failing, or an exit request, ends the loop")
    if not ex.g["exit"]:
        ex.prove(term(ex.g["handled"]) == term(ex.g["yielded"]), "every event taken was processed")
    ex.prove(ex.g["cb.j"] == (("close", ()),), "every open channel is closed exactly once when the loop ends")
    ex.prove(yes(ex, ex.getattr(ch, "is_closed")), "every open channel is closed when the loop ends")
    ex.prove(not has_key(ex, s.channels, j), "no channel is left in the table when the loop ends")


def cand(ex, lv):
    g = lv.g
    if "handled" not in g or kind_of(g.get("handled")) != "int":
        return []
    return [("handled = yielded", term(g["handled"]) == term(g["yielded"]))]


def t_event(ex):
    """What on_event may do is within the contract run() relies on: it returns or raises; anything it starts is its own."""
    s = make_client(ex)
    e = ex.task.ext
    did = []

    def c(name):
        def f(ex, fn, args, kw):
            did.append((name, tuple(args[1:])))
            if ex.choose(2, name + " fails"):
                ex.anyexc(name)
        return f
    for n in ("on_ready", "on_disconnected", "on_binary", "sync_identity"):
        ex.task.contracts[MOD + ":WSClient." + n] = c(n)
    names = ["ready", "disconnected", "binary", "poll", None]
    want = {"ready": "on_ready", "disconnected": "on_disconnected", "binary": "on_binary", "poll": "sync_identity"}
    i = ex.choose(5, "event")
    nm = names[i]
    if nm is None:
        nm = ex.fresh("name", "str")
        for x in names[:4]:
            ex.assume(nm.t != z3.StringVal(x))
    data = ex.fresh("payload", "bytes")
    k, v = outcome(ex, lambda: ex.call(method(ex, s.client, "on_event"), [ex.opaque("$event", name=nm, data=data)]))
    if i == 4:
        ex.prove(did == [] and k == "ok", "an event of another kind is ignored")
    else:
        ex.prove(len(did) == 1 and did[0][0] == want[names[i]], "an event is handled once, according to its kind")
        if i == 2:
            ex.prove(isval(ex, did[0][1][0], data), "the message handled is the one received")
    ex.eng.reach(ex, "ev%d" % i)


def tasks(w):
    return [
        Task("WSClient.run", t_run, MOD + ":WSClient.run", must_reach=["ended", "failed", "exit", "end"], candidates=[cand], requires=REQ, weight=3,
             ensures=["every event processed once, in order, before the next", "only source end/failure or exit request ends the loop", "every channel closed exactly once and forgotten", "no exception escapes"]),
        Task("WSClient.on_event", t_event, MOD + ":WSClient.on_event", must_reach=["ev%d" % i for i in range(5)], requires="any event; handlers may fail with anything", ensures=["handled once according to its kind"]),
    ]


DEPS = ["c04:WSClient.on_binary", "c04:unknown codes and other values", "c07:WSClient.on_disconnected"]
ASSUMPTIONS = ["handlers raise Exception subclasses, SystemExit or KeyboardInterrupt", "the websocket's __exit__ does not swallow exceptions", "every handler returns or raises (per-handler termination is C02 for decoding)"]
