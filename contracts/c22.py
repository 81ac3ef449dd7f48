"""C22: a JSON-RPC result is returned only for the matching successful response."""
from .common import *
from vp.env_os import JSONOK, JSONOF, JSONTXT
from vp.builtins_ import eq, dict_has

J = "dataplicity.jsonrpc"
CODES = (-32700, -32600, -32601, -32602, -32603)


def net(ex):
    """The network: a request fails at any point or is answered with any bytes."""
    e, g = ex.task.ext, ex.g
    g.update(posted=(), answer=None, dumped=None, fail=False)
    g["url"] = ex.fresh("url", "str")

    def dumps(ex, a, k):
        ex.g["dumped"] = a[0]
        t = z3.Function("JSONTXT." + str(len(ex.g["posted"])), z3.IntSort(), z3.StringSort())(z3.IntVal(0))
        ex.assume(T.ENCOK(t))
        ex.g["text"] = t
        return S("str", t)
    e["json.dumps"] = dumps

    def urlopen(ex, a, k):
        data = a[1] if len(a) > 1 else k.get("data")
        ex.prove(isval(ex, a[0], ex.g["url"]), "requests go to the server's address")
        ex.prove(kind_of(data) == "bytes" and term(data) == T.UTF8(ex.g["text"]), "the request body is the JSON of the call")
        ex.g["posted"] = ex.g["posted"] + (ex.g["dumped"],)
        if ex.choose(2, "urlopen fails"):
            ex.g["fail"] = True
            ex.anyexc("urlopen")
        return ex.opaque("$reply")
    e["urllib.request.urlopen"] = urlopen

    def read(ex, ref, a, k):
        if ex.choose(2, "reading fails"):
            ex.g["fail"] = True
            ex.anyexc("read")
        if ex.g["answer"] is not None:
            return b""
        ex.g["answer"] = ex.fresh("answer", "bytes")
        return ex.g["answer"]
    e["$reply.read"] = read

    def close(ex, ref, a, k):
        if ex.choose(2, "closing fails"):
            ex.g["fail"] = True
            ex.anyexc("close")
    e["$reply.close"] = close
    e["$reply.__enter__"] = lambda ex, ref, a, k: ref
    e["$reply.__exit__"] = close
    return ex.call(ex.w.cls(J + ".JSONRPC"), [g["url"]])


def pstr(s):
    return Py.PStr(zstr(s))


def get(j, k):
    return T.DGET(j, pstr(k))


def has(j, k):
    return T.DHAS(j, pstr(k))


def same_id(p, k):
    """p == k in Python for a JSON value p and an id k (text or integer)."""
    if kind_of(k) == "str":
        return p == Py.PStr(term(k))
    i = term(k)
    return z3.Or(p == Py.PInt(i), z3.And(Py.is_PFloat(p), Py.pf(p) == z3.ToReal(i)), z3.And(Py.is_PBool(p), z3.If(Py.pb(p), 1, 0) == i))


def check_remote(ex, r, method, err):
    """The exception r reports the error object err of that method."""
    f = ex.h(r.ref).fields
    ex.prove(r.clsname in (J + ".RemoteError", J + ".RemoteMethodError"), "an error reply is raised as a remote error")
    at = lambda n: ex.getattr(r.ref, n)
    code = T.DGET(err, pstr("code"))
    known = z3.And(has(err, "code"), z3.Or(*[same_id(code, c) for c in CODES]))
    ex.prove(known if r.clsname.endswith(".RemoteError") else z3.Not(known), "the kind of remote error follows from the code")
    m = at("method")
    ex.prove(isval(ex, m, method), "the remote error carries the method")
    for n in ("code", "data", "message"):
        v = at(n)
        if ex.branch(has(err, n)):
            ex.prove(ex.to_py(v) == get(err, n), "the remote error carries the code, data and message")
        elif n != "message":
            ex.prove(v is None or ex.to_py(v) == Py.PNone, "the remote error carries the code, data and message")


def well_formed_error(err):
    code = get(err, "code")
    return z3.And(Py.is_PDict(err), z3.Or(z3.Not(has(err, "code")), Py.is_PInt(code), Py.is_PStr(code), Py.is_PNone(code)))


def entry(ex, ref, key):
    """Value of a concrete key of a dict object."""
    from vp.builtins_ import dict_get
    ok, v = dict_get(ex, ex.h(ref), key)
    ex.prove(ok, "a call carries version, method, parameters and id")
    return v


def check_call(ex, c, method, params, cid=None):
    """The call object c is that of the method with these parameters; returns its id."""
    ex.prove(isinstance(c, Ref) and isinstance(ex.h(c), HDict), "a call is a JSON object")
    ex.prove(entry(ex, c, "jsonrpc") == "2.0", "a call carries the version")
    ex.prove(isval(ex, entry(ex, c, "method"), method), "a call carries its method")
    p = entry(ex, c, "params")
    ps = dict(ex.dict_items(ex.h(p)))
    ex.prove(set(ps) == set(params) and all(ps[n] is params[n] or yes(ex, isval(ex, ps[n], params[n])) is True for n in params), "a call carries its parameters")
    i = entry(ex, c, "id")
    if cid is not None:
        ex.prove(isval(ex, i, cid), "a call carries its id")
    return i


def parsed(ex):
    """(True, JSON value) of the answer, (False, None) when there is none or it is no JSON text."""
    a = ex.g["answer"]
    if ex.g["fail"] or a is None:
        return False, None
    if not ex.branch(T.VALID8(term(a))):
        return False, None
    t = T.DEC8(term(a))
    if not ex.branch(JSONOK(t)):
        return False, None
    return True, z3.simplify(JSONOF(t))


def unreachable(ex, r):
    ex.prove(r.clsname == J + ".ServerUnreachableError", "an unreachable server is reported as such")
    ex.prove(isval(ex, ex.getattr(r.ref, "url"), ex.g["url"]), "an unreachable server is reported with its address")
    ex.eng.reach(ex, "unreachable")


def t_call(ex):
    c = net(ex)
    method, p = ex.fresh("method", "str"), ex.fresh("param", "str")
    k, r = outcome(ex, lambda: ex.call(ex.getattr(c, "call"), [method], {"foo": p}))
    ex.prove(len(ex.g["posted"]) == 1, "a call sends one request")
    cid = check_call(ex, ex.g["posted"][0], method, {"foo": p})
    if ex.g["fail"]:
        ex.prove(k == "exc", "no result without an answer")
        unreachable(ex, r)
        return
    ok, j = parsed(ex)
    if not ok:
        ex.prove(k == "exc", "no result without a JSON answer")
        ex.eng.reach(ex, "garbage")
        return
    head = z3.And(Py.is_PDict(j), has(j, "jsonrpc"), get(j, "jsonrpc") == pstr("2.0"), has(j, "id"), same_id(get(j, "id"), cid))
    if k == "ok":
        ex.prove(z3.And(head, z3.Not(has(j, "error"))), "a result is returned only for the matching successful response")
        ex.prove(z3.If(has(j, "result"), ex.to_py(r) == get(j, "result"), ex.to_py(r) == Py.PNone), "the result returned is the response's")
        ex.eng.reach(ex, "result")
        return
    ex.prove(z3.Not(z3.And(head, z3.Not(has(j, "error")))), "the matching successful response gives its result")
    if ex.branch(z3.And(head, well_formed_error(get(j, "error")))):
        check_remote(ex, r, method, get(j, "error"))
        ex.eng.reach(ex, "error")
    else:
        ex.prove(r.clsname not in (J + ".RemoteError", J + ".RemoteMethodError") or ex.branch(head) is True, "only an error reply to this call is a remote error")
        ex.eng.reach(ex, "refused")


# ------------------------------------------------------------------ batches
GOODR = z3.Function("GOODR", SeqPy, Py, Py, z3.BoolSort())     # some reply of the list, carrying that id and no error
GOOD = z3.Function("GOOD", SeqPy, Py, Py, z3.BoolSort())       # the result of such a reply
BADE = z3.Function("BADE", SeqPy, Py, Py, z3.BoolSort())       # the error of some reply carrying that id and an error
ANYG = z3.Function("ANYG", SeqPy, Py, z3.BoolSort())           # such a reply exists
ANYB = z3.Function("ANYB", SeqPy, Py, z3.BoolSort())


def step_facts(ex, d, x):
    kt, k = ex.g["KT"], ex.g["K"]
    d2 = z3.Concat(d, z3.Unit(x))
    v = z3.Const("v", Py)
    good = z3.And(Py.is_PDict(x), has(x, "id"), same_id(get(x, "id"), k), z3.Not(has(x, "error")))
    bad = z3.And(Py.is_PDict(x), has(x, "id"), same_id(get(x, "id"), k), has(x, "error"))
    for f in (GOODR, GOOD, BADE):
        ex.assume(z3.ForAll([v], z3.Implies(f(d, kt, v), f(d2, kt, v)), patterns=[f(d, kt, v)]))
    ex.assume(z3.Implies(good, z3.And(GOODR(d2, kt, x), GOOD(d2, kt, z3.If(has(x, "result"), get(x, "result"), Py.PNone)))))
    ex.assume(z3.Implies(bad, BADE(d2, kt, get(x, "error"))))
    ex.assume(z3.And(ANYG(d2, kt) == z3.Or(ANYG(d, kt), good), ANYB(d2, kt) == z3.Or(ANYB(d, kt), bad)))


def on_elem(ex, st, d, x, r):
    if st["ekind"] == "py:json" and "K" in ex.g:
        step_facts(ex, d, x)


def mapval(ex, o, k):
    """(has, value) of a dict object at key k as terms."""
    kt = ex.to_py(k)
    if o.base is None:
        h, v = z3.BoolVal(False), Py.PNone
    else:
        h = o.base.has(ex, k)
        h = z3.BoolVal(h) if isinstance(h, bool) else h
        v = o.base.fg(kt) if isinstance(o.base, T.AbsMap) else T.DGET(o.base.t, kt)
    for ek, ev in o.entries:
        c = eq(ex, ek, k)
        c = z3.BoolVal(c) if isinstance(c, bool) else c
        try:
            t = ex.to_py(ev)
        except Unsupported:
            return None, None
        h, v = z3.If(c, z3.BoolVal(True), h), z3.If(c, t, v)
    return h, v


def cand_batch(ex, lv):
    out = []
    if "K" not in lv.g or lv.done is None or lv.done.sort() != SeqPy:
        return out
    d, kt, k = lv.done, lv.g["KT"], lv.g["K"]
    for n, v in sorted(lv.locals.items()):
        if isinstance(v, Ref) and isinstance(ex.h(v), HDict):
            o = ex.h(v)
            if o.base is not None and not isinstance(o.base, (T.AbsMap, T.TermMap)):
                continue
            if any(not isinstance(ek, (str, int, type(None), S)) for ek, _ in o.entries):
                continue
            h, x = mapval(ex, o, k)
            if h is None:
                continue
            out.append((n + ": some good reply", h == ANYG(d, kt)))
            out.append((n + ": some error reply", h == ANYB(d, kt)))
            out.append((n + ": replies", z3.Implies(h, GOODR(d, kt, x))))
            out.append((n + ": objects", z3.Implies(h, Py.is_PDict(x))))
            out.append((n + ": results", z3.Implies(h, GOOD(d, kt, x))))
            out.append((n + ": errors", z3.Implies(h, BADE(d, kt, x))))
    return out


def t_batch(ex):
    c = net(ex)
    b = ex.call(ex.getattr(c, "batch"), [])
    m1, m2, p = ex.fresh("method", "str"), ex.fresh("method", "str"), ex.fresh("param", "str")
    cid = ex.fresh("call_id", "str")
    auto = ex.choose(2, "which call")
    ex.call(ex.getattr(b, "call_with_id"), [cid, m1], {"foo": p})
    ex.call(ex.getattr(b, "call"), [m2], {"foo": p})
    ex.call(ex.getattr(b, "notify"), [m2], {"foo": p})
    lists = [v for n, v in sorted(ex.h(b).fields.items()) if isinstance(v, Ref) and isinstance(ex.h(v), HList) and ex.h(v).items is not None and len(ex.h(v).items) == 3]
    ex.g.pop("K", None)
    st = {}
    ex.task.on_seq_elem = on_elem
    e = ex.task.ext

    def setK(calls):
        check_call(ex, calls[0], m1, {"foo": p}, cid)
        i2 = check_call(ex, calls[1], m2, {"foo": p})
        n = dict(ex.dict_items(ex.h(calls[2])))
        ex.prove("id" not in n and n.get("jsonrpc") == "2.0", "a notification carries no id")
        ex.g["K"] = i2 if auto else cid
        ex.g["KT"] = ex.to_py(ex.g["K"])
        for f in (ANYG, ANYB):
            ex.assume(z3.Not(f(z3.Empty(SeqPy), ex.g["KT"])))
    old = e["urllib.request.urlopen"]

    def urlopen(ex, a, k):
        cs = ex.g["dumped"]
        ex.prove(isinstance(cs, Ref) and isinstance(ex.h(cs), HList) and ex.h(cs).items is not None and len(ex.h(cs).items) == 3, "a batch sends all its calls together")
        setK(ex.h(cs).items)
        return old(ex, a, k)
    e["urllib.request.urlopen"] = urlopen
    k, r = outcome(ex, lambda: ex.call(ex.getattr(b, "send"), []))
    ex.prove(len(ex.g["posted"]) == 1, "a batch is sent with one request")
    K, KT = ex.g["K"], ex.g["KT"]
    if ex.g["fail"]:
        ex.prove(k == "exc", "an unreachable server is an error")
        unreachable(ex, r)
    ok, j = parsed(ex)
    if not ok:
        ex.prove(k == "exc", "an answer that is no JSON is an error")
    seq = z3.simplify(Py.pl(j)) if ok else None
    kk, v = outcome(ex, lambda: ex.call(ex.getattr(b, "get_result"), [K]))
    if kk == "ok":
        ex.prove(ok and k == "ok", "no result without an answer")
        # the result of a reply is the result of that reply
        x = z3.Const("v", Py)
        ex.assume(z3.ForAll([x], z3.Implies(GOODR(seq, KT, x), GOOD(seq, KT, z3.If(has(x, "result"), get(x, "result"), Py.PNone))), patterns=[GOODR(seq, KT, x)]))
        ex.prove(z3.And(Py.is_PList(j), GOOD(seq, KT, ex.to_py(v))), "a batch returns only the result of a reply carrying that id without error")
        ex.eng.reach(ex, "batch result")
    elif k == "ok":
        ex.prove(z3.Not(ANYG(seq, KT)), "a successful reply for the id gives its result")
        if v.clsname in (J + ".RemoteError", J + ".RemoteMethodError"):
            err = ex.g.get("handled")
            ex.prove(ANYB(seq, KT), "a remote error is raised only for an error reply for the id")
            ex.prove(err is not None and BADE(seq, KT, err[1]), "the error raised is that of the reply for the id")
            ex.prove(isval(ex, err[0], m2 if auto else m1), "the error raised names the method of the call")
            ex.eng.reach(ex, "batch error")
        elif v.clsname == "builtins.KeyError":
            ex.prove(z3.Not(ANYB(seq, KT)), "an error reply for the id is raised as a remote error")
            ex.eng.reach(ex, "no reply")


def handle_contract(ex, fn, a, k):
    """JSONRPC._handle_error(method, error): proved by its own task."""
    err = ex.to_py(a[2])
    ex.g["handled"] = (a[1], err)
    if ex.branch(well_formed_error(err)):
        ex.exc([J + ".RemoteError", J + ".RemoteMethodError"][ex.choose(2, "kind of error")], "x", method=a[1], code=None, data=None, message=None)
    ex.exc("builtins.AttributeError", "get")


def t_handle(ex):
    c = net(ex)
    m = ex.fresh("method", "str")
    e = ex.fresh("error", "py:json")
    k, r = outcome(ex, lambda: ex.call(ex.getattr(c, "_handle_error"), [m, e]))
    ex.prove(k == "exc", "an error is raised")
    if ex.branch(well_formed_error(e.t)):
        check_remote(ex, r, m, e.t)
        ex.eng.reach(ex, "general" if r.clsname.endswith(".RemoteError") else "method")


def send_contract(ex, fn, a, k):
    if ex.g.get("direct"):
        return ex.run_body(fn, a, k)
    ex.task.sends.append(a[0])
    if ex.choose(2, "sending fails"):
        ex.anyexc("send")


def get_result_contract(ex, fn, a, k):
    if len(a) != 2 or k:
        ex.unsupported("default given")
    if not ex.branch(OKID(term(a[1]))):
        ex.anyexc("no result")
    return ex.fresh("result", "str")


def t_context(ex):
    c = net(ex)
    b = ex.call(ex.getattr(c, "batch"), [])
    n = ex.task.sends = []

    first = ex.choose(3, "calls first")
    if first == 1:
        ex.call(ex.getattr(b, "call_with_id"), ["a", "m"], {})
    r = ex.call(ex.getattr(b, "__enter__"), [])
    ex.prove(r == b, "entering a batch gives the batch")
    pre = ex.choose(3, "before")
    if pre == 1:
        ex.call(ex.getattr(b, "abandon"), [] if ex.choose(2, "reason") else ["x"])
    if first == 2:
        ex.call(ex.getattr(b, "call"), ["m"], {})
    if pre == 2:
        ex.g["direct"] = True
        if outcome(ex, lambda: ex.call(ex.getattr(b, "send"), []))[0] != "ok":
            raise PathEnd()
        ex.g["direct"] = False
    w = ex.choose(2, "building fails")
    x = (None, None, None)
    if w:
        try:
            ex.anyexc("body", base="builtins.BaseException")
        except PyExc as pe:
            x = (ex.h(pe.ref).cls, pe.ref, None)
    k, r = outcome(ex, lambda: ex.call(ex.getattr(b, "__exit__"), list(x)))
    if pre or w:
        ex.prove(n == [], "a batch that is abandoned, sent already or was not completed is not sent")
        ex.prove(k == "ok" and not (w and ex.branch(yes(ex, r))), "the reason of an incomplete batch is passed on")
        ex.eng.reach(ex, "not sent")
    else:
        ex.prove(n == [b], "a completed batch is sent once")
        ex.prove(k == "exc" or not ex.branch(yes(ex, r)), "failures are passed on")
        ex.eng.reach(ex, "sent")


# ------------------------------------------------------------------ ids
class AbsSet(object):
    def __init__(self, ex):
        n = ex.names.get("$absset", 0)
        ex.names["$absset"] = n + 1
        self.f = z3.Function("member!%d" % n, Py, z3.BoolSort())
        self.added = []

    def has(self, ex, x):
        xs = [eq(ex, y, x) for y in self.added]
        return z3.Or(self.f(ex.to_py(x)), *[z3.BoolVal(c) if isinstance(c, bool) else c for c in xs])


def set_havoc(ex, ref, o):
    o.items, o.seq = None, AbsSet(ex)
    return True


def set_method(ex, ref, o, name, a, k):
    if name != "add" or not isinstance(o.seq, AbsSet):
        ex.unsupported("set method " + name)
    s = AbsSet.__new__(AbsSet)
    s.f, s.added = o.seq.f, o.seq.added + [a[0]]
    o.seq = s


def list_havoc(ex, ref, o):
    o.items, o.seq, o.ekind = None, None, "refs"
    return True


def list_method(ex, ref, o, name, a, k):
    if name != "append":
        ex.unsupported("list method " + name)
    ex.g["added"] = ex.g["added"] + (a[0],)


def t_ids(ex):
    c = net(ex)
    b = ex.call(ex.getattr(c, "batch"), [])
    ex.g.update(n=0, added=(), b=b, X=ex.fresh("some id", ["str", "int"][ex.choose(2, "kind of id")]))
    ex.task.list_refs = True
    ex.task.set_havoc, ex.task.set_method, ex.task.list_havoc, ex.task.list_method = set_havoc, set_method, list_havoc, list_method

    def step(ex, a, k):
        ex.g["added"] = ()
        lists = [(ex.h(v), list(ex.h(v).items)) for n, v in sorted(ex.h(b).fields.items()) if isinstance(v, Ref) and isinstance(ex.h(v), HList) and ex.h(v).items is not None]
        w = ex.choose(4, "operation")
        m = ex.fresh("method", "str")
        if w == 0:
            k, r = outcome(ex, lambda: ex.call(ex.getattr(b, "call"), [m], {}))
            ex.prove(k == "ok", "adding a call does not fail")
        elif w == 3:
            k, r = outcome(ex, lambda: ex.call(ex.getattr(b, "notify"), [m], {}))
        else:
            i = ex.fresh("new id", ["str", "int"][w - 1])
            k, r = outcome(ex, lambda: ex.call(ex.getattr(b, "call_with_id"), [i, m], {}))
        new = list(ex.g["added"])
        for o, old in lists:
            if o.items is not None and len(o.items) > len(old):
                new += o.items[len(old):]
        ex.g["added"] = ()
        calls = [x for x in new if isinstance(x, Ref) and isinstance(ex.h(x), HDict)]
        ex.prove(k == "exc" or len(calls) == 1, "a call accepted is part of the batch")
        ex.prove(k == "ok" or not calls, "a call refused is not part of the batch")
        for x in calls:
            d = dict(ex.dict_items(ex.h(x)))
            if w == 3:
                ex.prove("id" not in d, "a notification has no id")
                continue
            ex.prove("id" in d, "a call has an id")
            q = eq(ex, d["id"], ex.g["X"])
            if ex.branch(z3.BoolVal(q) if isinstance(q, bool) else q):
                ex.prove(term(ex.g["n"]) == 0, "ids of a batch's calls are unique")
                ex.g["n"] = mk("int", term(ex.g["n"]) + 1)
                ex.eng.reach(ex, "added")
    harness(ex, "def build(more, op):\n    while more():\n        op()\n", HostFn("more", lambda ex, a, k: ex.fresh("more", "bool")), HostFn("op", step))


def cand_ids(ex, lv):
    if "b" not in lv.g:
        return []
    X, n = lv.g["X"], term(lv.g["n"])
    out = [("at most one", n <= 1), ("not negative", n >= 0)]
    for f, v in sorted(ex.h(lv.g["b"]).fields.items()):
        if isinstance(v, Ref) and isinstance(ex.h(v), HSet):
            o = ex.h(v)
            if o.items is not None:
                cs = [eq(ex, y, X) for y in o.items]
                c = z3.Or(*[z3.BoolVal(q) if isinstance(q, bool) else q for q in cs]) if cs else z3.BoolVal(False)
            elif isinstance(o.seq, AbsSet):
                c = o.seq.has(ex, X)
            else:
                continue
            out.append(("%s knows the ids" % f, z3.Implies(n >= 1, c)))
        if isinstance(v, Ref) and isinstance(ex.h(v), HDict):
            h, _ = mapval(ex, ex.h(v), X)
            if h is not None:
                out.append(("%s knows the ids" % f, z3.Implies(n >= 1, h)))
    return out


# ------------------------------------------------------------------ check
OKID = z3.Function("OKID", z3.StringSort(), z3.BoolSort())


def t_check(ex):
    c = net(ex)
    b = ex.call(ex.getattr(c, "batch"), [])
    ids = ex.freshseq("ids", "str")
    W = ex.fresh("some id", "str")
    ex.g["W"] = W

    k, r = outcome(ex, lambda: harness(ex, "def check(f, ids):\n    return f(*ids)\n", ex.getattr(b, "check"), ex.newseq(ids, "str")))
    if k == "ok":
        ex.prove(z3.Implies(z3.Contains(ids, z3.Unit(W.t)), OKID(W.t)), "checking ids fails unless every id has a result")
        ex.eng.reach(ex, "all fine")
    else:
        ex.eng.reach(ex, "failed")


def cand_check(ex, lv):
    if "W" in lv.g and lv.done is not None and lv.done.sort() == z3.SeqSort(z3.StringSort()):
        return [("done ids have results", z3.Implies(z3.Contains(lv.done, z3.Unit(lv.g["W"].t)), OKID(lv.g["W"].t)))]
    return []


def t_notify(ex):
    c = net(ex)
    m, p = ex.fresh("method", "str"), ex.fresh("param", "str")
    k, r = outcome(ex, lambda: ex.call(ex.getattr(c, "notify"), [m], {"foo": p}))
    ex.prove(len(ex.g["posted"]) == 1, "a notification sends one request")
    d = dict(ex.dict_items(ex.h(ex.g["posted"][0])))
    ex.prove("id" not in d and d.get("jsonrpc") == "2.0" and yes(ex, isval(ex, d["method"], m)) is not False, "a notification carries no id")
    if ex.g["fail"]:
        ex.prove(k == "exc", "an unreachable server is an error")
        unreachable(ex, r)


def tasks(w):
    hc = {J + ":JSONRPC._handle_error": handle_contract}
    out = [Task("call", t_call, J + ":JSONRPC.call", must_reach=["unreachable", "garbage", "result", "error", "refused"], requires="any method and parameter; any failure or answer",
                ensures=["returns j.result iff j is a 2.0 response with this id and no error", "ServerUnreachableError / RemoteError / RemoteMethodError with their data"]),
           Task("batch", t_batch, J + ":Batch.send", candidates=[cand_batch], must_reach=["unreachable", "batch result", "batch error", "no reply"],
                requires="a batch of a call with a chosen id, a call and a notification; any answer (lists of any length)",
                ensures=["get_result(id) returns only results of error-free replies with that id", "error replies raise a remote error", "otherwise an exception"]),
           Task("error object", t_handle, J + ":JSONRPC._handle_error", must_reach=["general", "method"], requires="any JSON value", ensures=["remote error by code with method, code, data, message"]),
           Task("leaving a batch", t_context, J + ":Batch.__exit__", must_reach=["sent", "not sent"], requires="any way of leaving", ensures=["sent once unless abandoned, incomplete or already sent"]),
           Task("ids of a batch", t_ids, J + ":Batch.call", candidates=[cand_ids], must_reach=["added"], requires="any sequence of calls and notifications", ensures=["no id occurs twice"]),
           Task("check", t_check, J + ":Batch.check", candidates=[cand_check], must_reach=["all fine", "failed"], requires="any number of ids", ensures=["returns iff every id has a result"]),
           Task("notify", t_notify, J + ":JSONRPC.notify", must_reach=["unreachable"], requires="any method and parameter", ensures=["one request without id"])]
    for t in out:
        t.opaque_slices = True
        if t.name == "batch":
            t.contracts.update(hc)
        if t.name == "leaving a batch":
            t.contracts[J + ":Batch.send"] = send_contract
        if t.name == "check":
            t.contracts[J + ":Batch.get_result"] = get_result_contract
    return out


ASSUMPTIONS = ["json.loads returns the value of a JSON text, json.dumps its text (Python)", "an error reply has an object with an integer, text or absent code as its error"]
