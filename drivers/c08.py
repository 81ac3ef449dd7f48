"""C08: histories of connection events, identities, polls and API failures against the protocol."""
from m2m import *
import agent

IDS = [b"id-1", b"id-2", b"\xff\xfe", b""]


def gen(rng, n):
    ops = []
    for _ in range(rng.randrange(1, 12)):
        ops.append(rng.choice([["ready"], ["identity", rng.randrange(4) if rng.random() < 0.2 else rng.randrange(2)], ["identity", 0], ["poll"], ["poll"], ["poll"], ["disconnected"],
                               ["ping", rng.choice([0, 1, 5, 1023, 1024, 1025, 3000, " a ", "\x00\x01\n", "\xff\xfe", " " * 1030])], ["event", rng.choice(["connected", "connecting", "text", "pong", "closing", "back_off", "rejected", "connect_fail", "protocol_error", "unknown"])], ["api", rng.choice(["ok", "ok", "down", "garbage", "notlist", "err:device.check_auth", "err:m2m.associate", "no:m2m.associate", "no:device.check_auth"])]]))
    return {"ops": ops}


def smaller(c):
    for i in range(len(c["ops"])):
        yield {"ops": c["ops"][:i] + c["ops"][i + 1:]}


class Event(object):
    def __init__(self, name):
        self.name = name


def check(c):
    sv = agent.Server()
    a = agent.agent(sv)
    cl = a.m2m.m2m_client
    ws = cl.websocket
    mode = ["ok"]

    def reply(call):
        what, _, m = mode[0].partition(":")
        if m and call["method"] == m:
            return ("error", {"code": 1, "message": "m"}) if what == "err" else None
        return ("ok", True)
    sv.reply = reply
    ident, acked = None, None
    for op in c["ops"]:
        del ws.out[:]
        del sv.batches[:]
        want, report = [], False
        if op[0] == "api":
            mode[0] = op[1]
            sv.mode = op[1] if ":" not in op[1] else "ok"
            continue
        try:
            if op[0] in ("ready", "poll", "disconnected"):
                cl.on_event(Event(op[0]))
                if op[0] == "ready":
                    want = [[1]] if ident is None else [[2, ident]]
                if op[0] == "disconnected":
                    ident = None
                report = op[0] == "poll"
            elif op[0] == "identity":
                ident = IDS[op[1]]
                cl.on_binary(benc([9, ident]))
                report = True
            elif op[0] == "event":
                cl.on_event(Event(op[1]))
            else:
                data = op[1].encode("latin-1") if not isinstance(op[1], int) else bytes(bytearray(i % 251 for i in range(op[1])))
                cl.on_binary(benc([7, data]))
                want = [[8, data[:1024]]]
        except Exception as e:
            return "%s raised %r" % (op, e)
        if ws.out != want:
            return "%s sent %r, expected %r" % (op, ws.out, want)
        sent = [b for b in sv.batches]
        text = None
        try:
            text = ident.decode("utf-8") if ident else None
        except UnicodeDecodeError:
            pass
        if report and ident and ident != acked:
            if text is None:
                if sent:
                    return "an identity that is not text was reported: %r" % (sent,)
                acked = None
                continue
            if len(sent) != 1:
                return "%s: %d reports of an identity that is not acknowledged" % (op, len(sent))
            b = sent[0]
            if not agent.creds_ok(b) or [x["method"] for x in b] != ["device.check_auth", "m2m.associate"] or b[1]["params"] != {"identity": text}:
                return "wrong report %r" % (b,)
            acked = ident if mode[0] == "ok" else None
        elif sent:
            return "%s: reported although %s" % (op, "acknowledged" if ident == acked else "there is nothing to report")
