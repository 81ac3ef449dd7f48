"""C06: received chunks against reads, sequentially and interleaved."""
from dataplicity.m2m import wsclient as W
from sched import *


def gen(rng, n):
    chunks = [("%02d" % i * 4)[:rng.randrange(0, 5)] for i in range(rng.randrange(1, 5))]
    if rng.random() < 0.5:
        ops = []
        for c in chunks:
            ops.append(["data", c])
            for _ in range(rng.randrange(0, 3)):
                ops.append(["read", rng.randrange(0, 8), rng.random() < 0.3])
        ops += [["read", rng.randrange(0, 30), False] for _ in range(2)]
        return {"seq": True, "cb": rng.random() < 0.15, "threads": [ops], "choices": []}
    return {"seq": False, "cb": False, "threads": [[["data", c] for c in chunks], [["read", rng.randrange(0, 8), rng.random() < 0.3] for _ in range(rng.randrange(1, 4))]],
            "choices": [rng.choice([0, 0, 0, 1]) for _ in range(rng.randrange(120))]}


def smaller(c):
    for i in range(len(c["threads"])):
        for j in range(len(c["threads"][i])):
            t = [list(x) for x in c["threads"]]
            del t[i][j]
            yield dict(c, threads=t)


class Client(object):
    def __getattr__(self, n):
        return lambda *a, **k: None


def check(c):
    with patched_locks(W):
        ch = instrument(W.Channel)(Client(), 5)
    sent, got, calls = [], [], []
    if c["cb"]:
        ch.set_callbacks(on_data=lambda d: calls.append(d))
    bad = []

    def one(op):
        if op[0] == "data":
            d = op[1].encode()
            sent.append(d)
            ch.on_data(d)
        else:
            r = ch.read(op[1], timeout=0, block=True) if op[2] else ch.read(op[1])
            got.append(r)
            if not isinstance(r, bytes) or len(r) > op[1]:
                bad.append("read(%d) gives %r" % (op[1], r))
        if c["seq"] and not c["cb"]:
            rest = b"".join(sent)[len(b"".join(got)):]
            if op[0] == "read" and len(r) != min(op[1], len(rest) + len(r)):
                bad.append("read(%d) gives %d bytes with %d buffered" % (op[1], len(r), len(rest) + len(r)))
            if ch.size != len(rest):
                bad.append("size %r with %d bytes buffered" % (ch.size, len(rest)))
            if bool(ch) != bool(rest):
                bad.append("readable is %r with %d bytes buffered" % (bool(ch), len(rest)))

    def thread(ops):
        return lambda: [one(op) for op in ops] and None
    try:
        rs = Sched(c["choices"]).run([thread(t) for t in c["threads"]])
    except Stuck as e:
        return str(e)
    for r in rs:
        if r[0] == "exc":
            return "unexpected exception %r" % (r[1],)
    if bad:
        return bad[0]
    if c["cb"]:
        if b"".join(calls) != b"".join(sent) or len(calls) != len(sent):
            return "callback got %r for %r" % (calls, sent)
        if any(got):
            return "data given to the callback is read as well"
        return None
    rest = b"".join(sent)[len(b"".join(got)):]
    if bool(ch) != bool(rest):
        return "readable is %r, buffered should be %r" % (bool(ch), rest)
    if ch.size != len(rest):
        return "size is %r, buffered should be %r" % (ch.size, rest)
    got.append(ch.read(1000))
    if b"".join(got) != b"".join(sent):
        return "received %r, read %r" % (sent, got)
