"""C07: random histories of packets and channel operations against a model of the channel table."""
from m2m import *

OPS = ["route", "route", "route_control", "notify_open", "notify_close", "disconnect", "write", "control", "close", "addcb", "response", "callbacks", "grab", "onclose"]


def gen(rng, n):
    ops = []
    for _ in range(rng.randrange(1, 14)):
        ops.append([rng.choice(OPS), rng.randrange(3), rng.choice(["", "a", "bc", "xyz"]), rng.choice([0, 0, 1, 2, 3])])
    return {"ops": ops}


def smaller(c):
    for i in range(len(c["ops"])):
        yield {"ops": c["ops"][:i] + c["ops"][i + 1:]}


class Base(BaseException):
    pass


def check(c):
    cl = client()
    ws = cl.websocket
    chans, table, rsp, want_rsp = [], {}, {}, {}
    ncb = [0]

    def model(k):
        if k not in table:
            ch = cl.get_channel(k)
            if ch.is_closed or any(ch is m["ch"] for m in chans):
                return None
            table[k] = dict(ch=ch, k=k, closed=False, log=[], want=[], fail=None, buf=b"", cb=False)
            chans.append(table[k])
        return table[k]

    def install(m, fail):
        m["fail"], m["cb"] = fail, True

        def f(ev):
            def g(*a):
                m["log"].append((ev,) + a)
                if ev == "close" and m["fail"] == 2:
                    m["ch"].on_close()
                if m["fail"] == 3 and ev == "close":
                    raise Base(ev)
                if m["fail"]:
                    raise ValueError(ev)
            return g
        m["ch"].set_callbacks(on_data=f("data"), on_close=f("close"), on_control=f("control"))
    for op, k, d, x in c["ops"]:
        d = d.encode()
        del ws.out[:]
        want_out = []
        try:
            if op in ("route", "route_control", "notify_open", "notify_close"):
                m = table.get(k) if op == "notify_close" else model(k)
                if m is None and op != "notify_close":
                    return "channel %d is not a fresh open channel" % k
                raised = None
                try:
                    cl.on_binary(benc([CODES[op], k] + ([d] if op.startswith("route") else [])))
                except ValueError as e:
                    raised = e
                if m is not None:
                    if op == "notify_close":
                        if not m["closed"] and m["cb"]:
                            m["want"].append(("close",))
                        m["closed"] = True
                        table.pop(k, None)
                        if raised:
                            return "close notice raised %r" % (raised,)
                    elif not m["closed"] and op == "route":
                        if m["cb"]:
                            m["want"].append(("data", d))
                        else:
                            m["buf"] += d
                    elif not m["closed"] and op == "route_control" and m["cb"]:
                        m["want"].append(("control", d))
            elif op == "disconnect":
                try:
                    cl.on_disconnected()
                except (Exception, Base) as e:
                    return "on_disconnected raised %r" % (e,)
                for m in table.values():
                    if not m["closed"] and m["cb"]:
                        m["want"].append(("close",))
                    m["closed"] = True
                table.clear()
                for i in list(want_rsp):
                    for q in want_rsp.pop(i):
                        if rsp[q] != [None]:
                            return "callback got %r on disconnect" % (rsp[q],)
            elif op == "grab":
                if model(k) is None:
                    return "channel %d is not a fresh open channel" % k
            elif op == "callbacks":
                if k in table:
                    install(table[k], x)
            elif op == "addcb":
                q = ncb[0]
                ncb[0] += 1
                rsp[q] = []

                def cb(r, q=q, x=x):
                    rsp[q].append(r)
                    if x:
                        raise ValueError("cb")
                cl.add_callback(k, cb)
                want_rsp.setdefault(k, []).append(q)
            elif op == "response":
                cl.on_binary(benc([100, k, {b"r": d}]))
                for q in want_rsp.pop(k, []):
                    if rsp[q] != [{b"r": d}]:
                        return "callback got %r for a response" % (rsp[q],)
            elif chans:
                m = chans[k % len(chans)]
                ch = m["ch"]
                if op == "write":
                    ch.write(d)
                    want_out = [] if m["closed"] else [[5, m["k"], d]]
                elif op == "control":
                    ch.send_control({"a": d.decode()})
                    want_out = [] if m["closed"] else [[22, m["k"]]]
                elif op == "close":
                    ch.close()
                    want_out = [] if m["closed"] else [[11, m["k"]]]
                elif op == "onclose" and m["closed"]:
                    ch.on_close()
        except (Exception, Base) as e:
            return "%s raised %r" % (op, e)
        if [p[:len(w)] for p, w in zip(ws.out, want_out)] != want_out or len(ws.out) != len(want_out):
            return "%s sent %r, expected %r" % (op, ws.out, want_out)
        for m in chans:
            if m["log"] != m["want"]:
                return "after %s on %d: callbacks of channel %d saw %r, expected %r" % (op, k, m["k"], m["log"], m["want"])
            if m["ch"].is_closed != m["closed"]:
                return "after %s on %d: channel %d closed is %r" % (op, k, m["k"], m["ch"].is_closed)
            if m["ch"].size != len(m["buf"]):
                return "after %s: channel %d holds %d bytes, expected %r" % (op, m["k"], m["ch"].size, m["buf"])
        for i, qs in want_rsp.items():
            for q in qs:
                if rsp[q]:
                    return "callback of command %d ran early: %r" % (i, rsp[q])
        for q, v in rsp.items():
            if len(v) > 1:
                return "callback invoked %d times" % len(v)
        for i, m in table.items():
            if not cl.has_channel(i) or cl.get_channel(i) is not m["ch"]:
                return "channel %d is not known under its number" % i
        for i in range(3):
            if i not in table and cl.has_channel(i):
                return "channel %d is still known after it was closed" % i
