"""A WSClient over a recording websocket, and an independent bencode codec for the drivers."""
from dataplicity.m2m import wsclient as W


def benc(v):
    if isinstance(v, bool):
        raise ValueError(v)
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, bytes):
        return b"%d:%s" % (len(v), v)
    if isinstance(v, str):
        return benc(v.encode("utf-8"))
    if isinstance(v, (list, tuple)):
        return b"l" + b"".join(benc(x) for x in v) + b"e"
    if isinstance(v, dict):
        return b"d" + b"".join(benc(k) + benc(v[k]) for k in sorted(v)) + b"e"
    raise ValueError(type(v))


def bdec(b, i=0):
    c = b[i:i + 1]
    if c == b"i":
        j = b.index(b"e", i)
        return int(b[i + 1:j]), j + 1
    if c in b"ld":
        out, i = [], i + 1
        while b[i:i + 1] != b"e":
            v, i = bdec(b, i)
            out.append(v)
        i += 1
        return (out, i) if c == b"l" else (dict(zip(out[::2], out[1::2])), i)
    j = b.index(b":", i)
    n = int(b[i:j])
    return b[j + 1:j + 1 + n], j + 1 + n


class WebSocket(object):
    def __init__(self, *a, **k):
        self.out, self.events, self.fail = [], [], False

    def send_binary(self, b):
        if self.fail:
            from lomond.errors import WebSocketUnavailable
            raise WebSocketUnavailable("no")
        self.out.append(bdec(b)[0])

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Any(object):
    def __init__(self, log=None):
        self.log = log if log is not None else []

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)

        def f(*a, **k):
            self.log.append((n, a, k))
        return f


def client(manager=None, remote=None, **kw):
    old = W.WebSocket
    W.WebSocket = WebSocket
    try:
        return W.WSClient(manager if manager is not None else Any(), "ws://x", remote if remote is not None else Any(), **kw)
    finally:
        W.WebSocket = old


CODES = dict(null=0, request_join=1, request_identify=2, welcome=3, log=4, request_send=5, route=6, ping=7, pong=8, set_identity=9, request_open=10,
             request_close=11, request_close_all=12, keep_alive=13, notify_open=14, request_login=15, instruction=16, notify_login_success=17,
             notify_login_fail=18, notify_close=19, request_leave=20, route_control=21, request_send_control=22, open_remote_file=24, open_remote_file_result=25,
             close_remote_file=26, read_remote_file=27, read_remote_file_result=28, scan_remote_directory=29, scan_remote_directory_result=30,
             write_remote_file=31, write_remote_file_result=32, response=100, command_add_route=101, command_send_instruction=102, command_log=103,
             command_broadcast_log=104, command_set_name=106, command_check_nodes=107, command_get_identities=108, command_set_auth=109,
             command_set_meta=110, command_get_meta=111, peer_add_route=200, peer_forward=201, peer_notify_disconnect=202, peer_notify_name=203, peer_close_port=204)
