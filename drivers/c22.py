"""C22: the real JSON-RPC client against a scripted HTTP peer."""
import json, http.client, socket, urllib.error
from dataplicity import jsonrpc as J

EXCS = [OSError("x"), http.client.IncompleteRead(b""), http.client.BadStatusLine("x"), socket.timeout("x"), urllib.error.URLError("x"), ValueError("x"), AttributeError("x"), RuntimeError("x"), EOFError(), MemoryError()]
CODES = (-32700, -32600, -32601, -32602, -32603)
URL = "http://example.invalid/rpc"


def jval(rng, d=0):
    return rng.choice([None, True, False, 0, 1, 2, -32601, 1.5, "", "a", "2", "\u00e9", [], {}, {"a": [1]}, [None], "2.0"])


def error(rng):
    e = {}
    if rng.random() < 0.85:
        e["code"] = rng.choice(list(CODES) + [0, 1, -32099, -32000, 100, "x", None, -32604, -32768, 404])
    if rng.random() < 0.6:
        e["message"] = rng.choice(["boom", "", "\u00e9", None, 5])
    if rng.random() < 0.5:
        e["data"] = jval(rng)
    return e


def reply(rng, ids):
    r = {}
    if rng.random() < 0.93:
        r["jsonrpc"] = rng.choice(["2.0"] * 9 + ["1.0", 2.0, "", None, "2.00", 2])
    if rng.random() < 0.95:
        r["id"] = rng.choice(list(ids) * 4 + [None, "x", 0, 3, -1, "2", "3", "", 99])
    if rng.random() < 0.7:
        r["result"] = jval(rng)
    if rng.random() < 0.35:
        r["error"] = error(rng) if rng.random() < 0.9 else rng.choice([None, "text", [], 0, 7, False])
    return r


def gen(rng, n):
    kind = ["call", "batch", "ids", "context", "batch"][n % 5]
    c = {"kind": kind, "fail": rng.choice([None] * 8 + ["open", "read", "close"]), "exc": rng.choice([0, 0] + list(range(len(EXCS))))}
    if kind == "call":
        c["calls"] = []
        for i in range(rng.choice([1, 1, 2, 3])):
            c["calls"].append(rng.choice(["@", "@", "@", "@", "@", "bad", "", "[]", "null", "3", "\"jsonrpc id\"", "[\"jsonrpc\", \"id\"]", "{}", "\xff", "notify"]))
        c["replies"] = [reply(rng, [2 + i]) for i in range(len(c["calls"]))]
    elif kind in ("batch", "ids"):
        c["ops"] = [rng.choice([["call"], ["call"], ["notify"], ["with", rng.choice(["a", "b", "2", 2, 3, 4, 5, "", 1, "a b"])]]) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
        ids = [o[1] for o in c["ops"] if o[0] == "with"] + [2, 3]
        c["replies"] = [reply(rng, ids) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        for r in c["replies"]:
            if rng.random() < 0.9:
                r["jsonrpc"] = "2.0"
                r.setdefault("id", rng.choice(ids))
        c["raw"] = rng.choice([None] * 9 + ["", "{}", "nope", "null", "[", "[3]"])
        c["checks"] = [rng.choice(ids + ["zz", 77]) for _ in range(rng.choice([0, 1, 2, 3]))]
    else:
        c["before"] = rng.choice(["", "", "abandon", "send"])
        c["raises"] = rng.choice([None, None, "ValueError", "KeyboardInterrupt", "SystemExit"])
        c["n"] = rng.choice([0, 1, 2])
    return c


def smaller(c):
    for k in ("ops", "replies", "checks", "calls"):
        for i in range(len(c.get(k, []))):
            if k == "calls" and len(c["calls"]) > 1 and i == len(c["calls"]) - 1:
                yield dict(c, calls=c["calls"][:-1], replies=c["replies"][:-1])
            elif k != "calls" and c["kind"] != "call":
                yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})


class Peer(object):
    def __init__(self, fail, exc=0):
        self.exc = exc
        self.fail, self.posts, self.text = fail, [], None
        self.bad = None

    def __call__(self, url, data=None, **kw):
        if url != URL:
            self.bad = "request went to %r" % (url,)
        self.posts.append(json.loads(data.decode("utf-8")))
        if self.fail == "open":
            raise EXCS[self.exc]
        return File(self)


class File(object):
    def __init__(self, p):
        self.p = p

    def read(self, *a):
        if self.p.fail == "read":
            raise EXCS[self.p.exc]
        t, self.p.text = self.p.text, b""
        return t

    def close(self):
        if self.p.fail == "close":
            raise EXCS[self.p.exc]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def remote(e, method, err):
    """Text when e is not the exception for that error object."""
    want = J.RemoteError if err.get("code") in CODES else J.RemoteMethodError
    if type(e) is not want:
        return "error reply %r raised %r instead of %s" % (err, e, want.__name__)
    if e.method != method or e.code != err.get("code") or e.data != err.get("data"):
        return "error reply %r to %s was reported with method %r code %r data %r" % (err, method, e.method, e.code, e.data)
    if "message" in err and e.message != err["message"]:
        return "error reply %r was reported with message %r" % (err, e.message)


def attempt(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "exc", e


def wellformed(err):
    return isinstance(err, dict) and (err.get("code") is None or isinstance(err["code"], (int, str)))


def call_of(post, method, params):
    if not isinstance(post, dict) or post.get("jsonrpc") != "2.0" or post.get("method") != method or post.get("params") != params or "id" not in post:
        return "the request of call %s was %r" % (method, post)


def check_call(c, peer, cl):
    for i, kind in enumerate(c["calls"]):
        m, n0 = "m%d" % i, len(peer.posts)
        if kind == "notify":
            peer.text = b""
            k, r = attempt(cl.notify, m, x=i)
            if len(peer.posts) != n0 + 1 or "id" in peer.posts[-1] or peer.posts[-1].get("method") != m:
                return "notification sent %r" % (peer.posts[n0:],)
            if c["fail"] and not (k == "exc" and type(r) is J.ServerUnreachableError and r.url == URL):
                return "notify with a failing %s gave %r" % (c["fail"], r)
            continue
        body = c["replies"][i]
        txt = json.dumps(body).encode() if kind == "@" else kind.encode("latin-1")
        peer.text = txt
        k, r = attempt(cl.call, m, x=i)
        if len(peer.posts) != n0 + 1:
            return "a call sent %d requests" % (len(peer.posts) - n0)
        t = call_of(peer.posts[-1], m, {"x": i})
        if t:
            return t
        if c["fail"]:
            if not (k == "exc" and type(r) is J.ServerUnreachableError and r.url == URL):
                return "call with a failing %s gave %r" % (c["fail"], r)
            continue
        try:
            j = json.loads(txt.decode("utf-8"))
        except ValueError:
            j = None
        mine = isinstance(j, dict) and j.get("jsonrpc") == "2.0" and "id" in j and j["id"] == peer.posts[-1]["id"]
        if mine and "error" not in j:
            if k != "ok" or not same(r, j.get("result")):
                return "reply %r to call %r gave %r" % (j, peer.posts[-1], r)
        elif k == "ok":
            return "reply %r to call %r was taken as the result %r" % (txt, peer.posts[-1], r)
        elif mine and wellformed(j["error"]):
            t = remote(r, m, j["error"])
            if t:
                return t
        elif not mine and isinstance(r, (J.RemoteError, J.RemoteMethodError)):
            return "reply %r to call %r was reported as the remote error %r" % (txt, peer.posts[-1], r)


def build(c, b):
    """Adds the operations; returns [(method, id or None)] of the accepted ones, or a text."""
    out, ids = [], []
    for i, o in enumerate(c["ops"]):
        m = "m%d" % i
        if o[0] == "call":
            k, r = attempt(b.call, m, x=i)
        elif o[0] == "notify":
            k, r = attempt(b.notify, m, x=i)
        else:
            k, r = attempt(b.call_with_id, o[1], m, x=i)
            if k == "exc" and o[1] not in ids:
                return "id %r was refused although unused (%r): %r" % (o[1], ids, r)
        if k == "ok":
            out.append((m, i, o))
        elif o[0] != "with":
            return "%s failed: %r" % (o[0], r)
        new = [x["id"] for x in b.calls if "id" in x]
        if len(set(new)) != len(new):
            return "ids of the batch %r are not unique after %r" % (new, c["ops"][:i + 1])
        ids = new
    return out


def check_batch(c, peer, cl):
    b = cl.batch()
    acc = build(c, b)
    if isinstance(acc, str):
        return acc
    if c["kind"] == "ids":
        return None
    txt = json.dumps(c["replies"]).encode() if c["raw"] is None else c["raw"].encode()
    peer.text = txt
    k, r = attempt(b.send)
    if len(peer.posts) != 1:
        return "send made %d requests" % len(peer.posts)
    if c["fail"] and not (k == "exc" and type(r) is J.ServerUnreachableError and r.url == URL):
        return "batch with a failing %s gave %r" % (c["fail"], r)
    ps = peer.posts[0]
    if not isinstance(ps, list) or len(ps) != len(acc):
        return "batch of %r sent %r" % (acc, ps)
    meth = {}
    for p, (m, i, o) in zip(ps, acc):
        if o[0] == "notify":
            if "id" in p or p.get("method") != m:
                return "notification sent as %r" % (p,)
            continue
        t = call_of(p, m, {"x": i})
        if t:
            return t
        if o[0] == "with" and p["id"] != o[1]:
            return "call with id %r sent as %r" % (o[1], p)
        meth[p["id"]] = m
    try:
        j = json.loads(txt.decode())
    except ValueError:
        j = None
    ok = k == "ok"
    if ok and not isinstance(j, list):
        return "answer %r was accepted" % (txt,)
    fine = {}
    for i in list(meth) + [99]:
        k, r = attempt(b.get_result, i)
        mine = [x for x in j if isinstance(x, dict) and "id" in x and x["id"] == i] if isinstance(j, list) and not c["fail"] else []
        good, bad = [x for x in mine if "error" not in x], [x for x in mine if "error" in x]
        fine[i] = k == "ok"
        if k == "ok":
            if not any(same(r, x.get("result")) for x in good):
                return "result of id %r is %r with replies %r" % (i, r, j)
        elif ok and good:
            return "result of id %r raised %r with replies %r" % (i, r, j)
        elif ok and bad and i in meth and all(wellformed(x["error"]) for x in bad):
            ts = [remote(r, meth[i], x["error"]) for x in bad]
            if all(ts):
                return ts[-1]
        elif not bad and isinstance(r, (J.RemoteError, J.RemoteMethodError)):
            return "id %r raised %r without an error reply: %r" % (i, r, j)
    want = [i for i in c["checks"] if i in fine]
    k, r = attempt(b.check, *want)
    if (k == "ok") != all(fine[i] for i in want):
        return "check%r gave %r although %r" % (tuple(want), r, fine)


def check_context(c, peer, cl):
    peer.text = b"[]"
    if c["before"] == "send":
        peer.fail = None
    b = cl.batch()
    E = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}.get(c["raises"])
    got = None
    try:
        with b as bb:
            if bb is not b:
                return "entering gives another object"
            for i in range(c["n"]):
                b.call("m", x=i)
            if c["before"] == "abandon":
                b.abandon("why")
            if c["before"] == "send":
                b.send()
            if E is not None:
                raise E("x")
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        got = e
    if E is not None and type(got) is not E:
        return "a failing batch (%s) ended with %r" % (c["raises"], got)
    want = {"abandon": 0, "send": 1}.get(c["before"], 0 if E else 1)
    if len(peer.posts) != want:
        return "leaving the batch (%s, raises %s) left %d requests sent, expected %d" % (c["before"] or "built", c["raises"], len(peer.posts), want)
    if E is None and not c["before"] and c["fail"] and not isinstance(got, J.ServerUnreachableError):
        return "leaving with a failing %s gave %r" % (c["fail"], got)


def check(c):
    peer = Peer(c["fail"], c.get("exc", 0))
    old, J.urlopen = J.urlopen, peer
    try:
        cl = J.JSONRPC(URL)
        t = {"call": check_call, "batch": check_batch, "ids": check_batch, "context": check_context}[c["kind"]](c, peer, cl)
        return t or peer.bad
    finally:
        J.urlopen = old
