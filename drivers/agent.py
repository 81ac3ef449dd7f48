"""An agent Client over a scripted JSON-RPC server and a recording websocket."""
import json, io, sys
import m2m
from dataplicity import client as C, jsonrpc as J
from dataplicity.m2m import wsclient as W

W.WebSocket = m2m.WebSocket
W.WSClient.start = lambda self: None


class Server(object):
    """reply(call) -> ("ok", result) | ("error", obj) | None (no reply); mode: 'down', 'garbage', 'notlist' or 'ok'."""
    def __init__(self):
        self.batches, self.mode, self.reply = [], "ok", lambda call: ("ok", True)

    def __call__(self, url, data=None, *a, **k):
        calls = json.loads(data.decode("utf-8"))
        self.batches.append(calls)
        if self.mode == "down":
            raise OSError("down")
        if self.mode == "garbage":
            return io.BytesIO(b"<html>")
        if self.mode == "notlist":
            return io.BytesIO(b'{"error": 1}')
        out = []
        for c in calls:
            r = self.reply(c)
            if r is not None and "id" in c:
                out.append({"jsonrpc": "2.0", "id": c["id"], ("result" if r[0] == "ok" else "error"): r[1]})
        return io.BytesIO(json.dumps(out).encode("utf-8"))


def agent(server, **kw):
    J.urlopen = server
    kw.setdefault("rpc_url", "http://localhost:1/")
    kw.setdefault("m2m_url", "ws://localhost:1/")
    return C.Client(serial="SERIAL", auth_token="TOKEN", remote_directory_path=kw.pop("remote_directory_path", "."), **kw)


def creds_ok(batch):
    p = batch[0].get("params", {}) if batch else {}
    return bool(batch) and batch[0]["method"] == "device.check_auth" and p.get("serial") == "SERIAL" and p.get("auth_token") == "TOKEN"
