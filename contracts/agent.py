"""Shared setting of the contracts on the agent client: a Client built by its real constructor over recording stand-ins
for its parts; the contract of a JSON-RPC batch (established for the real Batch by C22)."""
from .common import *

D = "dataplicity."


# ------------------------------------------------------------------ contract of jsonrpc.Batch
def new_batch(ex, args, kw):
    return ex.opaque("$batch", calls=(), sent=False, abandoned=False, acks=())


def fail_jsonrpc(ex, what):
    c = ex.choose(3, what + " error")
    if c == 0:
        ex.exc(D + "jsonrpc.RemoteMethodError", "x", method=ex.fresh("method", "str"), code=ex.fresh("code", "int"), data=None, message=ex.fresh("message", "str"))
    if c == 1:
        ex.exc(D + "jsonrpc.ServerUnreachableError", "x", url=ex.fresh("url", "str"), original=None)
    ex.anyexc(what)


def b_send(ex, ref, args, kw):
    o = ex.h(ref)
    o.fields["sent"] = True
    ex.g["batches"] = ex.g.get("batches", ()) + (o.fields["calls"],)
    if ex.choose(2, "sending fails"):
        ex.g["sendfail"] = ex.g.get("sendfail", 0) + 1
        o.fields["sent"] = None
        fail_jsonrpc(ex, "send")


def b_exit(ex, ref, args, kw):
    o = ex.h(ref)
    if args[0] is None and not o.fields["abandoned"]:
        b_send(ex, ref, [], {})
    return None


def b_call_id(ex, ref, args, kw):
    o = ex.h(ref)
    cid, m = args
    if not isinstance(cid, str) or not isinstance(m, str):
        ex.unsupported("symbolic call id")
    if any(c[0] == cid for c in o.fields["calls"]):
        ex.exc("builtins.ValueError", "duplicate call id in batch")
    o.fields["calls"] += ((cid, m, tuple(sorted(kw.items()))),)


def b_call(ex, ref, args, kw):
    o = ex.h(ref)
    o.fields["calls"] += ((("auto", len(o.fields["calls"])), args[0], tuple(sorted(kw.items()))),)


def b_notify(ex, ref, args, kw):
    o = ex.h(ref)
    o.fields["calls"] += ((None, args[0], tuple(sorted(kw.items()))),)


def b_result(ex, ref, args, kw):
    o = ex.h(ref)
    cid = args[0]
    if not o.fields["sent"]:
        ex.exc("builtins.TypeError", "argument of type 'NoneType' is not iterable")
    known = any(c[0] == cid for c in o.fields["calls"])
    st = dict(o.fields["acks"]).get(cid)
    if st is None:
        st = ex.choose(3, "reply to %s" % cid) if known else 2
        o.fields["acks"] += ((cid, st),)
        if st == 0:
            ex.g["acked"] = ex.g.get("acked", ()) + ((len(ex.g["batches"]), cid),)
    if st == 0:
        return ex.fresh("result", "str")
    if st == 1:
        if len(args) > 1 or kw:
            return args[1] if len(args) > 1 else kw["default"]
        fail_jsonrpc(ex, "result")
    ex.exc("builtins.KeyError", "No such call_id in response")


def b_check(ex, ref, args, kw):
    for a in args:
        b_result(ex, ref, [a], {})


def b_abandon(ex, ref, args, kw):
    ex.h(ref).fields["abandoned"] = True


BATCH = {"new:" + D + "jsonrpc.Batch": new_batch, "$batch.__enter__": lambda ex, ref, a, k: ref, "$batch.__exit__": b_exit, "$batch.send": b_send,
         "$batch.call_with_id": b_call_id, "$batch.call": b_call, "$batch.notify": b_notify, "$batch.get_result": b_result, "$batch.check": b_check,
         "$batch.abandon": b_abandon}


# ------------------------------------------------------------------ the client
def make_agent(ex):
    """A Client built by the real constructor with explicit serial and credentials; its parts are opaque."""
    e = ex.task.ext
    for k, f in BATCH.items():
        e.setdefault(k, f)
    for c in ("directory_scanner.DirectoryScanner", "remote_directory.RemoteDirectory"):
        e.setdefault("new:" + D + c, lambda ex, a, k, c=c: ex.opaque("$" + c.split(".")[1]))
    ex.task.contracts.setdefault(D + "m2mmanager:M2MManager.init", lambda ex, fn, a, k: ex.opaque("$M2MManager"))
    ex.task.contracts.setdefault(D + "portforward:PortForwardManager.init", lambda ex, fn, a, k: ex.opaque("$PortForwardManager"))
    e.setdefault("platform.uname", lambda ex, a, k: tuple(ex.fresh("uname", "str") for _ in range(6)))
    a = ex.w.cls(D + "client.Client")
    serial, token = ex.fresh("serial", "str"), ex.fresh("auth_token", "str")
    ex.assume(z3.And(z3.Length(serial.t) > 0, z3.Length(token.t) > 0))
    c = ex.call(a, [], {"rpc_url": "http://x/", "m2m_url": "ws://x?y", "serial": serial, "auth_token": token, "remote_directory_path": "/rd"})
    ex.g["batches"], ex.g["acked"] = (), ()
    return c, serial, token


def check_auth(ex, batch, serial, token, name="a batch to the server starts with this device's own credentials"):
    ok = len(batch) > 0 and batch[0][1] == "device.check_auth" and batch[0][0] is not None
    ex.prove(ok, name)
    p = dict(batch[0][2])
    ex.prove("serial" in p and "auth_token" in p, name)
    ex.prove(conj(isval(ex, p["serial"], serial), isval(ex, p["auth_token"], token)), name)
