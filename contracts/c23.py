"""C23: polls report until acknowledged, never repeat, never fail; the agent polls until asked to exit and shuts down."""
from .common import *
from .agent import make_agent, check_auth, BATCH, D
from . import agent

META = {"device.set_agent_version": ("agent_version", "agent_version"), "device.set_machine_revision": ("machine_revision", "revision_code"),
        "device.set_model_name": ("model_name", "model_name"), "device.set_os_version": ("os_version", "os_version"),
        "device.set_uname": ("uname", "uname"), "device.set_ip_addresses": ("ip_list", "ip_list")}
DISK, TAGS = "device.set_disk_space", "device.set_machine_defined_tags"


def ack(ex, o, cid):
    """Reply of the server to a call of a sent batch (0 result, 1 error, 2 none), decided when it matters."""
    acks = dict(o.fields["acks"])
    if cid in acks:
        return acks[cid]
    auth = o.fields["calls"][0][0]
    # (for the tags the kinds of error are told apart; elsewhere any exception stands for all of them)
    st = ex.choose(3 if is_tags(o) else 2, "reply to %s" % (cid,))
    o.fields["acks"] += ((cid, st),)
    if cid != auth and st == 0 and ack(ex, o, auth) != 0:
        raise PathEnd()        # the server acknowledges nothing to an unauthenticated caller
    return st


def is_tags(o):
    return any(c[1] == TAGS for c in o.fields["calls"])


def fail(ex, o, what):
    if is_tags(o):
        agent.fail_jsonrpc(ex, what)
    ex.anyexc(what)


def get_result(ex, ref, a, k):
    o = ex.h(ref)
    cid = a[0]
    if not o.fields["sent"]:
        ex.exc("builtins.TypeError", "argument of type 'NoneType' is not iterable")
    st = ack(ex, o, cid) if any(c[0] == cid for c in o.fields["calls"]) else 2
    if st == 0:
        return ex.fresh("result", "str")
    if st == 1:
        if len(a) > 1 or k:
            return a[1] if len(a) > 1 else k["default"]
        fail(ex, o, "result")
    ex.exc("builtins.KeyError", "No such call_id in response")


def check(ex, ref, a, k):
    for x in a:
        get_result(ex, ref, [x], {})


def seqval(ex, v):
    """Contents of a list as a sequence term, None when it is no such list."""
    if isinstance(v, Ref) and isinstance(ex.h(v), HList):
        o = ex.h(v)
        if o.items == []:
            return z3.Empty(z3.SeqSort(z3.StringSort()))
        if o.seq is not None:
            return o.seq
    if isinstance(v, S) and v.kind == "seq:str":
        return v.t
    return None


def send(ex, ref, a, k):
    o = ex.h(ref)
    o.fields["sent"] = True
    calls = o.fields["calls"]
    g = ex.g
    check_auth(ex, calls, g["serial"], g["token"])
    ms = [c[1] for c in calls]
    g["sent"] = g["sent"] + ((ref, tuple(ms)),)
    if DISK in ms:
        ex.prove(g["now"] is not None and g["now"].t >= term(g["disk"]) + 3600, "disk figures are sent at most once per hour")
        g["disk"] = g["now"]
        ex.eng.reach(ex, "disk")
    if TAGS in ms:
        ex.prove(g["tags"] is not None, "tags are sent only when known")
        v = seqval(ex, dict(calls[ms.index(TAGS)][2]).get("tag_list"))
        ex.prove(v is not None and v == g["tags"].t, "the tags sent are the current ones")
        ex.prove(g["acked_tags"] is None or g["acked_tags"].t != g["tags"].t, "acknowledged tags are not sent again")
        ex.eng.reach(ex, "tags")
    if any(m in META for m in ms):
        ex.prove(no(ex, g["acked_meta"]), "acknowledged device information is not sent again")
        ex.prove(set(m for m in ms if m in META) == set(META), "all device information is sent")
        for m in META:
            p = dict(calls[ms.index(m)][2])
            want = g["meta"].get(META[m][0])
            v = p.get(META[m][1])
            ex.prove(v is want or isval(ex, v, want), "the device information sent is this device's")
        ex.eng.reach(ex, "meta")
    if ex.choose(2, "sending fails"):
        o.fields["sent"] = None
        fail(ex, o, "send")


def b_exit(ex, ref, a, k):
    if a[0] is None and not ex.h(ref).fields["abandoned"]:
        send(ex, ref, [], {})


def setup(ex):
    e, cs, g = ex.task.ext, ex.task.contracts, ex.g
    e.update({"$batch.send": send, "$batch.__exit__": b_exit, "$batch.get_result": get_result, "$batch.check": check})

    def now(ex, a, k):
        t = ex.fresh("time", "real")
        if ex.g.get("now") is not None:
            ex.assume(t.t >= ex.g["now"].t)
        if ex.g.get("first") is None:
            ex.g["first"] = t
        ex.g["now"] = t
        return t
    e["time.time"] = now
    g.update(sent=(), disk=None, attempt=None, tags=None, acked_tags=None, acked_meta=False, meta={}, now=None, first=None, did=())
    c, g["serial"], g["token"] = make_agent(ex)
    # before the first report: one that was due when the agent started
    g["disk"] = mk("real", z3.RealVal(0))
    if g["now"] is not None:
        ex.assume(g["now"].t >= 10 ** 6)
    g["attempt"] = mk("real", g["now"].t - 3600) if g["now"] is not None else g["disk"]

    def du(ex, fn, a, k):
        ex.g["did"] += ("disk",)
        ex.g["attempt"] = ex.g["now"]
        if ex.choose(2, "disk usage fails"):
            ex.anyexc("disk usage")
        return ex.opaque("$usage", total=ex.fresh("total", "int"), used=ex.fresh("used", "int"), free=ex.fresh("free", "int"), percent=ex.fresh("percent", "real"))

    def tg(ex, fn, a, k):
        ex.g["did"] += ("tags",)
        w = ex.choose(3, "tag script")
        if w == 1:
            ex.exc(D + "tags.TagError", "x")
        if w == 2:
            ex.anyexc("tag script")
        t = ex.freshseq("tags", "str")
        ex.g["tags"] = S("seq:str", t)
        return ex.newseq(t, "str")

    def gm(ex, fn, a, k):
        ex.g["did"] += ("meta",)
        if ex.choose(2, "device information fails"):
            ex.g["meta"] = None
            ex.anyexc("meta")
        m = {n: ex.fresh(n, "str") for n in ("agent_version", "machine_revision", "model_name", "os_version", "uname")}
        m["ip_list"] = ex.newseq(ex.freshseq("ips", "str"), "str")
        ex.g["meta"] = m
        return ex.newdict([[n, v] for n, v in sorted(m.items())])
    cs["dataplicity.disk_tools:disk_usage"], cs["dataplicity.tags:get_tag_list"], cs["dataplicity.device_meta:get_meta"] = du, tg, gm
    cs["dataplicity.client:Client.make_sync_id"] = lambda ex, fn, a, k: ex.fresh("sync_id", "str")
    g.update(first=None)
    g["client"] = c
    return c


def t_polls(ex):
    c = setup(ex)

    def step(ex, a, k):
        g = ex.g
        g.update(sent=(), tags=None, meta={}, first=None, did=())
        disk0, meta0, tags0 = g["attempt"], g["acked_meta"], g["acked_tags"]
        kk, r = outcome(ex, lambda: ex.call(method(ex, c, "poll"), []))
        ex.prove(kk == "ok", "a poll never fails")
        ex.prove(g["did"].count("tags") == 1, "a poll looks at the tags")
        if ex.branch(g["first"].t >= term(disk0) + 3600):
            ex.prove(g["did"].count("disk") == 1, "a poll looks at the disk when an hour has passed")
        ex.prove(sum(1 for r_, ms in g["sent"] if DISK in ms) <= 1 and sum(1 for r_, ms in g["sent"] if TAGS in ms) <= 1, "each report is sent at most once per poll")
        # tags
        tb = [(r_, ms) for r_, ms in g["sent"] if TAGS in ms]
        if g["tags"] is not None and (tags0 is None or ex.branch(tags0.t != g["tags"].t)):
            ex.prove(len(tb) == 1, "changed tags are sent")
        for r_, ms in tb:
            o = ex.h(r_)
            if o.fields["sent"] and ack(ex, o, o.fields["calls"][ms.index(TAGS)][0]) == 0:
                g["acked_tags"] = g["tags"]
                ex.eng.reach(ex, "tags acknowledged")
        # device information
        mb = [(r_, ms) for r_, ms in g["sent"] if any(m in META for m in ms)]
        ex.prove(len(mb) <= 1, "device information is sent at most once per poll")
        if meta0 is False or (meta0 is not True and not ex.branch(meta0.t)):
            ex.prove(g["did"].count("meta") == 1, "device information not yet acknowledged is looked up again")
            ex.prove(g["meta"] is None or len(mb) == 1, "device information not yet acknowledged is sent again")
        for r_, ms in mb:
            o = ex.h(r_)
            if o.fields["sent"] and all(ack(ex, o, cl[0]) == 0 for cl in o.fields["calls"] if cl[1] in META):
                g["acked_meta"] = True
                ex.eng.reach(ex, "meta acknowledged")
        g.update(sent=(), tags=None, meta={}, first=None, did=())
    harness(ex, "def history(more, poll):\n    while more():\n        poll()\n", HostFn("more", lambda ex, a, k: ex.fresh("more", "bool")), HostFn("poll", step))


def cands(ex, lv):
    g, out = lv.g, []
    if "client" not in g:
        return out
    f = ex.h(g["client"]).fields
    if True:
        for n, v in sorted(f.items()):
            if kind_of(v) == "bool":
                out.append(("%s = meta acknowledged" % n, term(v) == term(g["acked_meta"])))
            if kind_of(v) in ("real", "int"):
                t = z3.ToReal(term(v)) if kind_of(v) == "int" else term(v)
                out.append(("%s >= last disk report + 3600" % n, t >= term(g["disk"]) + 3600))
                out.append(("%s <= last look at the disk + 3600" % n, t <= term(g["attempt"]) + 3600))
            s = seqval(ex, v)
            if v is None or s is not None:
                a = g["acked_tags"]
                out.append(("%s = tags acknowledged" % n, z3.BoolVal(a is None) if s is None else z3.BoolVal(False) if a is None else s == a.t))
    return out


# ------------------------------------------------------------------ run_forever
def t_run(ex):
    c = setup(ex)
    g, e = ex.g, ex.task.ext
    g.update(polls=0, asked=False, closed=0, waiting=True, stop=False)

    def poll(ex, fn, a, k):
        ex.prove(ex.g["asked"] is False, "no poll after an exit request")
        ex.prove(ex.g["closed"] == 0, "no poll after shutting down")
        ex.g["waiting"] = False
        w = ex.choose(3, "poll")
        if w:
            ex.g["stop"] = True
            ex.exc(["builtins.SystemExit", "builtins.KeyboardInterrupt"][w - 1])

    def wait(ex, ref, a, k):
        ex.prove(ex.g["waiting"] is False, "the agent polls before it waits")
        tm = a[0] if a else k.get("timeout")
        ex.prove(tm is not None, "the agent waits with a time limit")
        w = ex.choose(3, "wait")
        if w == 0:
            ex.g["waiting"] = True
            return False
        ex.g["stop"] = True
        if w == 1:
            ex.g["asked"] = True
            return True
        ex.anyexc("wait", base="builtins.BaseException")

    def close(ex, fn, a, k):
        ex.g["closed"] = ex.g["closed"] + 1
    e["threading.Event.wait"] = wait
    e["threading.Event.is_set"] = lambda ex, ref, a, k: True if ex.g["asked"] is True else ex.fresh("set", "bool")
    ex.task.contracts["dataplicity.client:Client.poll"] = poll
    ex.task.contracts["dataplicity.client:Client.close"] = close
    k, r = outcome(ex, lambda: ex.call(method(ex, c, "run_forever"), []))
    th = ex.g.get("started", ())
    if not th:
        raise PathEnd()        # no thread available: the agent does not start
    ex.prove(ex.g["stop"] is True, "the agent polls until asked to exit or interrupted")
    ex.prove(ex.g["closed"] == 1, "the agent shuts down exactly once")
    if ex.g["asked"] is True:
        ex.prove(k == "ok", "an exit request ends the agent without an error")
    for t in th:
        ex.prove(ex.h(t).fields.get("running") is False, "the clock watch is told to stop")
    ex.eng.reach(ex, "asked" if ex.g["asked"] is True else "interrupted")


def cand_run(ex, lv):
    g, out = lv.g, []
    for n in ("waiting", "asked", "stop"):
        if n in g:
            v = g[n]
            out.append(("not " + n, z3.Not(term(v))))
            out.append((n, term(v)))
    if "closed" in g:
        out.append(("not closed", term(g["closed"]) == 0))
    return out


def t_exit(ex):
    c = setup(ex)
    ex.call(method(ex, c, "exit"), [])
    evs = [v for n, v in sorted(ex.h(c).fields.items()) if isinstance(v, Ref) and getattr(ex.h(v), "cls", None) and "threading.Event" in str(getattr(ex.h(v).cls, "name", ex.h(v).cls))]
    ex.prove(any(ex.h(v).fields.get("flag") is True for v in evs), "an exit request sets the event the agent waits for")


def tasks(w):
    return [Task("any history of polls", t_polls, "dataplicity.client:Client.poll", candidates=[cands], max_paths=40000, must_reach=["disk", "tags", "meta", "tags acknowledged", "meta acknowledged"],
                 requires="a client in any state reachable by polls; any clock readings, figures, tags, failures and replies", weight=5,
                 ensures=["no exception; every step performed", "disk at most hourly", "tags sent iff different from the acknowledged ones", "meta sent until acknowledged, never after", "credentials first"]),
            Task("run_forever", t_run, "dataplicity.client:Client.run_forever", candidates=[cand_run], must_reach=["asked", "interrupted"],
                 requires="polls and waits that end normally or with an interruption", ensures=["poll, then wait/poll until asked", "clock watch stopped, close() once"]),
            Task("exit", t_exit, "dataplicity.client:Client.exit", ensures=["the exit event is set"])]


ASSUMPTIONS = ["the clock does not run backwards and is past 1970-01-12", "Batch satisfies its contract (C22)",
               "a server that rejects the credentials acknowledges no other call of the batch"]
