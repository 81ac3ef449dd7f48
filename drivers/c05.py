"""C05: random event streams with failing messages, handlers, callbacks and event sources through the real connection loop."""
from m2m import *
import dataplicity.m2m.wsclient as W

FAIL = {"E": ValueError, "A": AssertionError, "K": KeyError, "S": SystemExit, "I": KeyboardInterrupt, "R": RuntimeError, "O": OSError, "U": UnicodeError, "M": MemoryError, "T": StopIteration}


class Event(object):
    def __init__(self, name, data=b""):
        self.name, self.data = name, data


def gen(rng, n):
    evs = []
    for _ in range(rng.randrange(1, 9)):
        evs.append(rng.choice([["ready"], ["poll"], ["poll", rng.choice("EAKROUMT")], ["disconnected"], ["open", rng.randrange(4)], ["open", rng.randrange(4)],
                               ["data", rng.randrange(4), rng.choice("-EAKT")], ["raw", rng.choice(["", "x", "i", "i5", "l", "d", "9:a", "li14ee", "i5e", "li99ee", "d1:ae", "5", "lli", "\xff", "i" + "9" * 30 + "e", "1" * 30 + ":a", "l" * 50])],
                               ["instr", rng.choice("EAKSIROT")], ["other"], ["shut"], ["close", rng.randrange(4)], ["remote", rng.choice("EAKROT")], ["control", rng.randrange(4), rng.choice("-EAK")]]))
    return {"events": evs, "end": rng.choice(["end", "end", "E", "S", "I", "R", "O"]), "closecb": rng.choice("-EA"), "exit": rng.choice("----E"), "fail_send": rng.random() < 0.2, "enter": rng.choice("------E")}


def smaller(c):
    for i in range(len(c["events"])):
        yield dict(c, events=c["events"][:i] + c["events"][i + 1:])
    for k, v in (("closecb", "-"), ("exit", "-"), ("fail_send", False), ("end", "end")):
        if c[k] != v:
            yield dict(c, **{k: v})


class Man(object):
    def __init__(self):
        self.arm, self.polls, self.instr = "-", 0, 0

    def boom(self):
        a, self.arm = self.arm, "-"
        if a != "-":
            raise FAIL[a]("planned")

    def set_identity(self, i):
        self.polls += 1
        self.boom()

    def on_instruction(self, s, d):
        self.instr += 1
        self.boom()


class Remote(Man):
    def on_open_remote_file(self, *a):
        self.polls += 1
        self.boom()


def check(c):
    man, rem = Man(), Remote()
    cl = client(manager=man, remote=rem)
    ws = cl.websocket
    ws.fail = c["fail_send"]
    if c["exit"] != "-" or c["enter"] != "-":
        class WS2(type(ws)):
            def __exit__(self, *a):
                if c["exit"] != "-":
                    raise FAIL[c["exit"]]("exit")

            def __enter__(self):
                if c["enter"] != "-":
                    raise FAIL[c["enter"]]("enter")
                return self
        ws.__class__ = WS2
    closes, opened = {}, []
    src = dict(yielded=0, over=False)
    cbarm = {"v": "-"}

    def touch(k):
        if not cl.has_channel(k):
            ch = cl.get_channel(k)
            n = len(opened)
            opened.append(ch)
            closes[n] = 0

            def on_close():
                closes[n] += 1
                if c["closecb"] != "-":
                    raise FAIL[c["closecb"]]("close")

            def on_data(d):
                a, cbarm["v"] = cbarm["v"], "-"
                if a != "-":
                    raise FAIL[a]("data")
            ch.set_callbacks(on_data=on_data, on_close=on_close, on_control=on_data)
    stopped_by = []
    expected = dict(polls=0, instr=0, remote=0)
    rsp = []
    cl.add_callback(77, lambda r: rsp.append(r))

    def source(*a, **k):
        for e in c["events"]:
            src["yielded"] += 1
            n = e[0]
            if n == "poll":
                man.arm = e[1] if len(e) > 1 else "-"
                expected["polls"] += 1
                yield Event("poll")
            elif n == "open":
                touch(e[1])
                yield Event("binary", benc([14, e[1]]))
            elif n in ("data", "control"):
                touch(e[1])
                cbarm["v"] = e[2]
                yield Event("binary", benc([6 if n == "data" else 21, e[1], b"d"]))
            elif n == "raw":
                yield Event("binary", e[1].encode("latin-1"))
            elif n == "instr":
                man.arm = e[1]
                expected["instr"] += 1
                if e[1] in "SI":
                    stopped_by.append(e[1])
                yield Event("binary", benc([16, b"s", {b"a": b"b"}]))
                if e[1] in "SI":
                    raise AssertionError("went on after an exit request")
            elif n == "remote":
                rem.arm = e[1]
                expected["remote"] += 1
                yield Event("binary", benc([24, b"u", b"p"]))
            elif n == "close":
                yield Event("binary", benc([19, e[1]]))
            elif n == "shut":
                cl.close()
                yield Event("pong")
            elif n == "other":
                yield Event("pong")
            else:
                yield Event(n)
        src["over"] = True
        if c["end"] != "end":
            raise FAIL[c["end"]]("source")
    old = W.persist
    W.persist = source
    try:
        try:
            cl.run()
        except BaseException as e:
            if type(e).__name__ == "CaseTimeout":
                raise
            return "the connection thread ends with %r after %d events" % (e, src["yielded"])
    finally:
        W.persist = old
    if c["enter"] == "-":
        if not src["over"] and not stopped_by:
            return "the loop stopped after event %d of %d" % (src["yielded"], len(c["events"]))
        if man.polls != expected["polls"] or man.instr != expected["instr"] or rem.polls != expected["remote"]:
            return "events were not handled once each: polls %d/%d instructions %d/%d remote %d/%d" % (man.polls, expected["polls"], man.instr, expected["instr"], rem.polls, expected["remote"])
    for n, ch in enumerate(opened):
        if not ch.is_closed:
            return "channel %d is still open after the loop ended" % ch.number
        if closes[n] != 1:
            return "channel %d closed %d times" % (ch.number, closes[n])
    if list(cl.open_channels):
        return "channels %r are still in the table" % list(cl.open_channels)
    return None
