"""C24: random instructions through the packet layer against the table of actions; every action is replaced by a recorder."""
import subprocess
from m2m import *
import agent
from dataplicity.m2m import fileservice, commandservice, echoservice
from dataplicity import m2mmanager, portforward, directory_scanner, client as C

LOG = []


def rec(cls, name, f):
    def g(self, *a, **k):
        LOG.append(f(self, *a, **k))
    setattr(cls, name, g)


def bound(names):
    def get(args, kw):
        d = dict(zip(names, args))
        d.update(kw)
        return d
    return get


_f = bound(["limiter", "channel", "path"])
_c = bound(["limiter", "channel", "command"])
_t = bound(["limiter", "channel", "size"])
rec(fileservice.FileService, "__init__", lambda self, *a, **k: ["file", _f(a, k)["channel"].number, _f(a, k)["path"]])
rec(commandservice.CommandService, "__init__", lambda self, *a, **k: ["command", _c(a, k)["channel"].number, _c(a, k)["command"]])
rec(echoservice.EchoService, "__init__", lambda self, channel: ["echo", channel.number])
rec(m2mmanager.Terminal, "launch", lambda self, *a, **k: ["terminal", self.name, _t(a, k)["channel"].number, _t(a, k).get("size")])
rec(portforward.Connection, "start", lambda self: ["tunnel", self.channel.number, list(self.host_port)])
rec(directory_scanner.DirectoryScanner, "perform_scan", lambda self, *a, **k: ["scan"])
rec(C.Client, "sync", lambda self, *a, **k: ["sync"])
rec(C.Client, "exit", lambda self, *a, **k: ["exit"])


class Popen(object):
    pid = 1

    def __init__(self, args, *a, **k):
        LOG.append(["process", args])


subprocess.Popen = subprocess.call = subprocess.check_call = Popen

FIELDS = {"sync": [], "open-terminal": ["port", "name", "size"], "open-echo": ["port"], "open-portforward": ["service", "route"], "open-portredirect": ["device_port", "m2m_port"],
          "reboot-device": [], "read-file": ["port", "path"], "run-command": ["port", "command"], "scan-directory": []}
ALL = sorted(set(f for v in FIELDS.values() for f in v))
NAMES = {"web": 80, "ext": 81, "extalt": 8000, "alt": 8080}
TEXT = ["web", "ext", "extalt", "alt", "shell", "other", "80", "", "/etc/x", "ls -l", "caf\u00e9 \u20ac", "Shell", " ls -l ", "echo 'a  b'\n", "/a b /", "a;b"]


def value(rng, f):
    if f in ("port", "device_port", "m2m_port"):
        return rng.choice([0, 1, 22, 80, 443, 8000, 8080, 65535, rng.randrange(1, 5000)])
    if f == "name":
        return rng.choice(["shell", "shell", "other", "Shell", "x"])
    if f == "service":
        return rng.choice(["web", "ext", "extalt", "alt", "nope", "80"])
    if f == "route":
        n = 4 if rng.random() < 0.85 else rng.choice([0, 3, 5])
        return [rng.choice([7, 8, 9, 10 + i, 80]) if i % 2 else rng.choice(["n1", "n2"]) for i in range(n)]
    if f == "size":
        return rng.choice([[80, 24], [132, 43], [1, 1]])
    return rng.choice(TEXT)


def gen(rng, n):
    acts = sorted(FIELDS)
    ops = []
    for _ in range(rng.randrange(1, 4)):
        a = rng.choice(acts) if rng.random() < 0.85 else rng.choice(["", "synch", "open", "exit", "restart", 5] + [f(x) for x in acts for f in (str.upper, str.title, lambda y: y + " ", lambda y: " " + y, lambda y: y[:-1], lambda y: y.replace("-", "_"), lambda y: y + "s")][::1])
        d = {"action": a} if rng.random() < 0.95 else {}
        for f in FIELDS.get(a, ALL):
            if rng.random() < 0.88:
                d[f] = value(rng, f)
        if rng.random() < 0.5:
            for f in rng.sample(ALL, 3):
                if f not in FIELDS.get(a, ALL):
                    d[f] = value(rng, f)
        ops.append(d)
    return {"ops": ops, "text": rng.random() < 0.2}


def smaller(c):
    for i in range(len(c["ops"])):
        yield {"ops": c["ops"][:i] + c["ops"][i + 1:], "text": c["text"]}
        for k in sorted(c["ops"][i]):
            d = dict(c["ops"][i])
            d.pop(k)
            yield {"ops": c["ops"][:i] + [d] + c["ops"][i + 1:], "text": c["text"]}


def text(v):
    return v


def expected(d):
    a = d.get("action")
    need = [f for f in FIELDS.get(a, []) if f != "size"] if isinstance(a, str) else []
    if a not in FIELDS or any(f not in d for f in need):
        return []
    if a in ("sync", "scan-directory"):
        return [[{"sync": "sync", "scan-directory": "scan"}[a]]]
    if a == "reboot-device":
        return [["process", ["/usr/bin/sudo", "/sbin/reboot"]]]
    if a == "open-terminal":
        return [["terminal", d["name"], d["port"], d.get("size")]] if d["name"] in ("shell", "other") else []
    if a == "open-echo":
        return [["echo", d["port"]]]
    if a == "read-file":
        return [["file", d["port"], d["path"]]]
    if a == "run-command":
        return [["command", d["port"], d["command"]]]
    if a == "open-portforward":
        if len(d["route"]) != 4 or d["service"] not in NAMES:
            return []
        return [["tunnel", d["route"][3], ["127.0.0.1", NAMES[d["service"]]]]]
    return [["tunnel", d["m2m_port"], ["127.0.0.1", d["device_port"]]]]


def check(c):
    a = agent.agent(agent.Server())
    a.m2m.add_terminal("other", "vi")
    cl = a.m2m.m2m_client
    for d in c["ops"]:
        del LOG[:]
        wire = {k.encode("utf-8"): v for k, v in d.items()}
        try:
            cl.on_binary(benc([16, b"server", wire]))
        except Exception as e:
            return "instruction %r: %r escaped" % (d, e)
        if LOG != expected(d):
            return "instruction %r started %r, expected %r" % (d, LOG, expected(d))
        del LOG[:]
        try:
            cl.on_binary(benc([16, b"server", {b"\xff": b"\xff", b"port": {b"a": 1}}]))
        except Exception as e:
            return "an instruction without action: %r escaped" % (e,)
        if LOG:
            return "an instruction without action started %r" % (LOG,)
