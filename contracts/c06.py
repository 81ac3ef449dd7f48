"""C06: a channel delivers received bytes exactly once and in order (one receiving and one reading thread)."""
from .common import *
from vp.monitor import Monitor, settle

MOD = "dataplicity.m2m.wsclient"


def client_ext(ex, rec):
    """An opaque client recording what channels ask of it."""
    for n in ("channel_write", "channel_control_write", "close_channel"):
        def f(ex, ref, args, kw, n=n):
            ex.g[rec] = ex.g.get(rec, ()) + ((n,) + tuple(args),)
        ex.task.ext["$client." + n] = f
    ex.g[rec] = ()
    return ex.opaque("$client")


def make_channel(ex):
    """A channel built by the real constructor."""
    client = client_ext(ex, "sent")
    number = ex.fresh("number", "int")
    ch = ex.call(ex.w.cls(MOD + ".Channel"), [client, number])
    return ch, number


def parts(ex, ch):
    """(lock, buffer, event) of a fresh channel, found by their types."""
    locks, bufs, evs = [], [], []
    for n, v in sorted(ex.h(ch).fields.items()):
        if isinstance(v, Ref):
            o = ex.h(v)
            if isinstance(o, HList):
                bufs.append(v)
            elif isinstance(o, HOpq) and o.cls in ("threading.RLock", "threading.Lock"):
                locks.append(v)
            elif isinstance(o, HOpq) and o.cls == "threading.Event":
                evs.append(v)
    if len(bufs) != 1 or len(evs) != 1 or len(locks) > 1:
        ex.unsupported("a channel without exactly one buffer, one event and one lock")
    return (locks[0] if locks else None), bufs[0], evs[0]


def seq(ex, buf):
    o = ex.h(buf)
    return o.seq if o.items is None else ex.seq_term(o, "bytes")


class ChannelMonitor(Monitor):
    """State: the buffered bytes and the readable flag.  Invariant: no empty chunk is buffered; flag <=> some chunk is.
    Steps of `role`: 'reader' removes prefixes, 'receiver' appends; the other role interferes."""
    def __init__(self, ex, ch, role):
        self.lock, self.buf, self.ev = parts(ex, ch)
        self.role, self.ch = role, ch
        self.moved, self.steps, self.obs = [], 0, []

        def inv(ex):
            s = seq(ex, self.buf)
            f = ex.h(self.ev).fields["flag"]
            f = z3.BoolVal(f) if isinstance(f, bool) else f.t
            return z3.And(T.NE(s), f == (z3.Length(s) > 0))

        def havoc(ex):
            o = ex.h(self.buf)
            o.items, o.ekind = None, "bytes"
            o.seq = ex.freshseq("buffered", "bytes")
            ex.h(self.ev).fields["flag"] = ex.fresh("readable", "bool")
            ex.assume(inv(ex))

        def state(ex):
            return seq(ex, self.buf)

        def step(ex, a, b):
            a, b = z3.simplify(a), z3.simplify(b)
            if role == "reader":
                split_empty(ex, a)
                if not a.eq(b):
                    split_empty(ex, b)
            ex.prove(inv(ex), "the readable flag is set exactly when something is buffered")
            A, Bb = T.J(a), T.J(b)
            self.steps += 1
            self.obs.append((A, Bb))
            if a.eq(b):
                return
            if role == "reader":
                r = ex.fresh("removed", "bytes").t
                ex.prove(z3.SuffixOf(Bb, A), "a read only removes bytes from the front")
                ex.assume(A == z3.Concat(r, Bb))
            else:
                r = ex.fresh("added", "bytes").t
                ex.prove(z3.PrefixOf(A, Bb), "receiving only adds bytes at the end")
                ex.assume(Bb == z3.Concat(A, r))
            self.moved.append(r)
        Monitor.__init__(self, ex, ch, self.lock, set(), state, havoc, step, containers=(self.buf, self.ev))
        # a new channel satisfies the invariant
        self.quiet += 1
        ex.prove(inv(ex), "a new channel has nothing buffered and is not readable")
        ex.prove(z3.Length(seq(ex, self.buf)) == 0, "a new channel has nothing buffered and is not readable")
        self.quiet -= 1


def split_empty(ex, s):
    """Case split on emptiness of a list of chunks; records the defining facts of the head."""
    if not ex.branch(z3.Length(s) == 0):
        ex.seq_uncons(s, "bytes")
    else:
        ex.assume(s == z3.Empty(s.sort()))
        ex.assume(T.J(s) == z3.StringVal(""))


def cand_read(ex, lv):
    """Loop invariants tried: the front collected so far, then the buffer, is the buffer as it was."""
    m = ex.monitors[0] if ex.monitors else None
    if m is None or m.pending is None:
        return []
    A = T.J(m.pending[0])
    m.quiet += 1
    try:
        b = T.J(seq(ex, m.buf))
        out = [("buffer invariant", T.NE(seq(ex, m.buf)))]
    finally:
        m.quiet -= 1
    if "count" not in ex.g:
        return out
    n = ex.g["count"].t
    for k, v in list(lv.locals.items()):
        t = None
        if isinstance(v, S) and v.kind == "bytes":
            t = v.t
        elif isinstance(v, bytes):
            t = zstr(v)
        elif isinstance(v, Ref) and v != m.buf and isinstance(ex.heap.get(v.oid), HList):
            o = ex.h(v)
            if o.items is not None or o.ekind == "bytes":
                try:
                    t = T.J(ex.seq_term(o, "bytes"))
                except Exception:
                    t = None
        if t is None:
            continue
        out.append(("%s + buffer = old" % k, A == z3.Concat(t, b)))
        out.append(("len %s <= n" % k, z3.Length(t) <= n))
        for k2, v2 in lv.locals.items():
            if isinstance(v2, S) and v2.kind == "int" or (isinstance(v2, int) and not isinstance(v2, bool)):
                out.append(("%s = n - len %s" % (k2, k), term(v2) == n - z3.Length(t)))
                out.append(("%s = len %s" % (k2, k), term(v2) == z3.Length(t)))
    return out


def var_read(ex, lv):
    m = ex.monitors[0] if ex.monitors else None
    if m is None:
        return []
    m.quiet += 1
    try:
        s = seq(ex, m.buf)
    finally:
        m.quiet -= 1
    return [("bytes + chunks buffered", z3.Length(T.J(s)) + z3.Length(s))] + int_variants(ex, lv)


def t_read(ex):
    ch, number = make_channel(ex)
    m = ChannelMonitor(ex, ch, "reader")
    n = ex.fresh("count", "int")
    ex.assume(n.t >= 0)
    ex.g["count"] = n
    c = ex.choose(3, "blocking")
    kw = {} if c == 0 else {"block": True, "timeout": ex.fresh("timeout", "real") if c == 1 else None}
    k, v = outcome(ex, lambda: ex.call(method(ex, ch, "read"), [n], kw))
    settle(ex)
    if k != "ok":
        ex.prove(False, "a read does not fail")
    ex.prove(kind_of(v) == "bytes", "a read returns bytes")
    got = term(v)
    ex.prove(m.steps > 0, "a read looks at the buffer")
    removed = T.cat(*m.moved)
    split_empty(ex, z3.simplify(m.state(ex)))
    ex.prove(got == removed, "a read returns exactly the bytes it removes, in order")
    ex.prove(z3.Length(got) <= n.t, "a read returns at most the requested number of bytes")
    last = m.obs[-1][1]
    ex.prove(z3.Or(z3.Length(got) == n.t, last == z3.StringVal("")), "a read returns everything buffered up to the requested number")


def t_data(ex):
    ch, number = make_channel(ex)
    data = ex.fresh("data", "bytes")
    with_cb = ex.choose(3, "callbacks")
    seen = []

    def cb(ex, args, kw):
        seen.append(args)
        if ex.choose(2, "callback fails"):
            ex.exc("builtins.ValueError", "callback")
    if with_cb:
        on = HostFn("on_data", cb)
        ex.call(method(ex, ch, "set_callbacks"), [], {"on_data": on if with_cb == 1 else None, "on_close": HostFn("c", cb), "on_control": HostFn("k", cb)})
    m = ChannelMonitor(ex, ch, "receiver")
    k, v = outcome(ex, lambda: ex.call(method(ex, ch, "on_data"), [data]))
    settle(ex)
    added = T.cat(*m.moved)
    if with_cb == 1:
        ex.prove(len(seen) == 1 and len(seen[0]) == 1, "received data is handed to the data callback exactly once")
        ex.prove(ex.eq(seen[0][0], data) if hasattr(ex, "eq") else term(seen[0][0]) == data.t, "the data callback gets the received bytes")
        ex.prove(len(m.moved) == 0, "data handed to the callback is not buffered as well")
        ex.eng.reach(ex, "callback")
    else:
        ex.prove(k == "ok", "receiving data does not fail")
        ex.prove(not seen, "no other callback sees received data")
        ex.prove(added == data.t, "received data is buffered exactly once, at the end")
        ex.eng.reach(ex, "buffered")


def t_size(ex):
    ch, number = make_channel(ex)
    m = ChannelMonitor(ex, ch, "reader")
    v = ex.getattr(ch, "size")
    settle(ex)
    ex.prove(not m.moved, "asking for the size changes nothing")
    ex.prove(kind_of(v) == "int" and m.steps == 1 and term(v) == z3.Length(m.obs[0][0]), "the size is the number of buffered bytes")


def t_bool(ex):
    ch, number = make_channel(ex)
    m = ChannelMonitor(ex, ch, "reader")
    b = ex.truth(ch)
    settle(ex)
    ex.prove(not m.moved and m.steps >= 1, "asking whether something is buffered changes nothing")
    s = z3.simplify(m.state(ex))
    split_empty(ex, s)
    ex.prove(z3.BoolVal(b) == (m.obs[-1][1] != z3.StringVal("")), "a channel is true exactly when something is buffered")


def cand_sum(ex, lv):
    out = []
    if lv.done is None or not z3.is_seq(lv.done) or z3.is_string(lv.done) or lv.done.sort() != T.SeqStr:
        return out
    for k, v in lv.locals.items():
        if kind_of(v) == "int":
            out.append(("%s = len(J(done))" % k, term(v) == z3.Length(T.J(lv.done))))
    return out


def tasks(w):
    ts = [
        Task("Channel.read", t_read, MOD + ":Channel.read", candidates=[cand_read], variant_candidates=[var_read], terminates=True,
             requires="count >= 0; any buffer of non-empty chunks; any receiver interference at lock and event operations; blocking or not, with or without timeout",
             ensures=["result = bytes removed from the front, in order", "len(result) = min(count, buffered)", "flag <=> buffered"]),
        Task("Channel.on_data", t_data, MOD + ":Channel.on_data", must_reach=["callback", "buffered"],
             requires="any data; any buffer; callbacks set or not", ensures=["callback gets the data once, or exactly the data is appended"]),
        Task("Channel.size", t_size, MOD + ":Channel.size", candidates=[cand_sum], requires="any buffer", ensures=["result = len(buffered bytes)"]),
        Task("Channel.__bool__", t_bool, MOD + ":Channel.__bool__", requires="any buffer", ensures=["result <=> something is buffered"]),
    ]
    for t in ts:
        t.volgroup = "channel"
    return ts


ASSUMPTIONS = ["one thread receives (on_data) and one thread reads; set_callbacks is not concurrent with on_data",
               "received chunks are byte strings (guaranteed by the packet field types, C03/C04)"]
