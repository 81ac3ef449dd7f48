"""C15: terminal sessions over stand-in system calls against the list of bytes and sizes."""
import json
from faketty import *

WELL = '{"type": "window_resize", "size": [%d, %d]}'
OTHER = ['', '{', '[]', '5', 'null', '"window_resize"', '{"type": "other"}', '{"type": "window_resize"}', '{"size": [90, 30]}', '{"type": "window_resize", "size": null}',
         '{"type": "window_resize", "size": [90]}', '{"type": "window_resize", "size": []}', '{"type": "window_resize", "size": [90, 30, 2]}', '{"type": "window_resize", "size": ["90", "30"]}',
         '{"type": "window_resize", "size": "ab"}', '{"type": "window_resize", "size": {"a": 1, "b": 2}}', '{"type": "window_resize", "size": [90, null]}', '{"type": "window_resize", "size": [90.5, 30]}',
         '{"type": "Window_resize", "size": [90, 30]}', '{"type": ["window_resize"], "size": [90, 30]}', '{"type": "window_resize", "size": [99999, 30]}', '{"type": "window_resize", "size": [90, 99999]}',
         '{"type": "resize", "size": [91, 31]}', '{"type": "window_resize", "SIZE": [91, 31]}', '\\u00e9', '{"type": null, "size": [91, 31]}', '{"type": "window_resize", "size": [[90], 30]}']


def data(rng):
    k = rng.random()
    if k < 0.1:
        return ""
    if k < 0.2:
        return "\x00\xff\x04\x03" * rng.randrange(1, 4)
    return "".join(rng.choice("ab\r\n\x00\xe9\x80") for _ in range(rng.randrange(1, 12)))


def ctl(rng):
    if rng.random() < 0.6:
        return WELL % (rng.choice([0, 1, 24, 80, 132, 200, 32767, rng.randrange(1, 400)]), rng.choice([0, 1, 24, 80, 50, 32767, rng.randrange(1, 400)]))
    return rng.choice(OTHER)


def gen(rng, n):
    steps = []
    for _ in range(rng.randrange(1, 6)):
        k = rng.random()
        if k < 0.35:
            steps.append(["in", data(rng)])
        elif k < 0.6:
            steps.append(["out", data(rng) or "x"])
        elif k < 0.95:
            steps.append(["ctl", ctl(rng)])
        else:
            steps.append(["idle"])
    size = None if rng.random() < 0.6 else [rng.choice([80, 100, 24, 1]), rng.choice([24, 40, 80, 2])]
    return {"size": size, "via": rng.choice(["process", "terminal"]), "before": [ctl(rng) for _ in range(rng.choice([0, 0, 1, 2]))], "steps": steps,
            "end": rng.choice([["hup"], ["last", "bye"], ["eio"]]), "accept": [rng.choice([1, 1, 2, 3, 100]) for _ in range(rng.randrange(20))],
            "wfail": rng.choice([None] * 5 + [0, 1, 2])}


def smaller(c):
    for k in ("steps", "before", "accept"):
        for i in range(len(c[k])):
            yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
    for k, v in (("wfail", None), ("size", None), ("end", ["hup"]), ("via", "process")):
        if c[k] != v:
            yield dict(c, **{k: v})


def b(s):
    return s.encode("latin-1")


def wanted(msg):
    """(columns, rows), None when nothing changes, Ellipsis when nothing is required"""
    try:
        v = json.loads(msg)
    except ValueError:
        return None
    if not isinstance(v, dict) or v.get("type") != "window_resize":
        return None
    s = v.get("size")
    if isinstance(s, list) and len(s) == 2 and all(type(x) is int for x in s):
        return tuple(s) if all(0 <= x <= 32767 for x in s) else None
    return None


def check(c):
    ch = Channel()
    sent, sizes, out, bad = [], [tuple(c["size"] or (80, 24))], [], []
    script = []
    t = TTY({1: script}, c["accept"], c["wfail"])

    def ask(m):
        try:
            ch.cbs["on_control"](m if isinstance(m, bytes) else b(m))
        except Exception:
            pass

    def step(s):
        def f(fd):
            if fd in t.sizes and len(t.sizes[fd]) == 0 or fd not in t.sizes:
                bad.append("no size set when the terminal starts")
            if s[0] == "in":
                sent.append(b(s[1]))
                n = t.writes
                try:
                    ch.cbs["on_data"](b(s[1]))
                except Exception as e:
                    bad.append("input fails with %r" % (e,))
            elif s[0] == "ctl":
                w = wanted(s[1])
                n = len(t.sizes.get(fd, []))
                ask(s[1])
                new = t.sizes.get(fd, [])[n:]
                if w is None and new:
                    bad.append("control message %r sets the size %r" % (s[1], new))
                if w is not None and new != [(w[1], w[0])]:
                    bad.append("control message %r sets rows, columns %r" % (s[1], new))
        return f
    for s in c["steps"]:
        if s[0] in ("in", "ctl"):
            script.append(step(s))
        elif s[0] == "out":
            out.append(b(s[1]))
            script.append(("out", b(s[1])))
        else:
            script.append(("idle",))
    e = c["end"]
    if e[0] == "last":
        out.append(b(e[1]))
        script.append(("last", b(e[1])))
    else:
        script.append((e[0],))
    start = [sizes[0]]
    with t:
        if c["via"] == "terminal":
            from dataplicity import m2mmanager
            made = []

            class Th(object):
                def __init__(self, target=None, **k):
                    made.append(target)

                def start(self):
                    pass
            old = threading.Thread
            threading.Thread = Th
            try:
                lim = Limiter("terminals", 5)
                term = m2mmanager.Terminal("shell", "bash -i")
                if c["size"] is None:
                    term.launch(lim, ch)
                else:
                    term.launch(lim, ch, list(c["size"]))
            finally:
                threading.Thread = old
            run = made[0] if made else None
            if run is None:
                return "no terminal thread is started"
        else:
            kw = {} if c["size"] is None else {"size": list(c["size"])}
            run = process(ch, **kw).run
        for m in c["before"]:
            w = wanted(m)
            ask(m)
            if w is not None:
                start.append(w)
        old = threading.Thread.start
        threading.Thread.start = lambda self: None
        try:
            run()
        except Exception as ex:
            if not ch.is_closed:
                return "the terminal fails with %r" % (ex,)
        finally:
            threading.Thread.start = old
    if bad:
        return bad[0]
    fd = FD0 + 1
    if t.sizes.get(fd, [None])[0] != start[-1][::-1]:
        return "the terminal starts with rows, columns %r, not %r" % (t.sizes.get(fd, [None])[0], start[-1][::-1])
    got = b"".join(t.written.get(fd, []))
    want = b"".join(sent)
    if c["wfail"] is None or t.writes <= c["wfail"]:
        if got != want:
            return "sent %r, the terminal got %r" % (want, got)
        if ch.is_closed:
            return "the channel is closed"
    else:
        if not ch.is_closed:
            return "the terminal takes no input and the channel is still open"
    data = b"".join(x[1] for x in ch.log if x[0] == "write")
    if not ch.is_closed and data != b"".join(out) or not b"".join(out).startswith(data):
        return "the terminal wrote %r, the channel got %r" % (b"".join(out), data)
    if any(x[0] == "control" for x in ch.log):
        return "a control message is sent"
    if set(t.written) - {fd} or set(t.sizes) - {fd}:
        return "another terminal is touched"
