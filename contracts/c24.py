"""C24: each instruction triggers exactly the requested action with its own parameters."""
from .common import *
from vp.builtins_ import dict_get
from .ws import MOD as WS

D = "dataplicity."
NAMES = {"web": 80, "ext": 81, "extalt": 8000, "alt": 8080}


def events(ex):
    return ex.g["did"]


def did(ex, *e):
    ex.g["did"] = ex.g["did"] + (e,)


def setting(ex):
    """An M2MManager made by its real init over recording parts; the real port-forward manager with its standard services."""
    e, c = ex.task.ext, ex.task.contracts
    ex.g["did"] = ()

    def chan(ex, ref, args, kw):
        a = list(args) + list(kw.values())
        return ex.opaque("$chan", number=a[0])
    e["$ws.get_channel"] = chan
    e["$ws.start"] = lambda ex, ref, a, k: None
    e["new:" + WS + ".WSClient"] = lambda ex, a, k: ex.opaque("$ws")
    for n, cls in (("file", "m2m.fileservice.FileService"), ("command", "m2m.commandservice.CommandService")):
        def f(ex, args, kw, n=n):
            names = ["limiter", "channel", "path" if n == "file" else "command"]
            v = dict(zip(names, args))
            v.update(kw)
            did(ex, n, number(ex, v["channel"]), v[names[2]])
            return ex.opaque("$service")
        e["new:" + D + cls] = f

    def echo(ex, args, kw):
        did(ex, "echo", number(ex, (list(args) + list(kw.values()))[0]))
        return ex.opaque("$service")
    e["new:" + D + "m2m.echoservice.EchoService"] = echo
    e["new:" + D + "portforward.Connection"] = connection
    e["$connection.start"] = lambda ex, ref, a, k: did(ex, "tunnel", number(ex, fld(ex, ref, "channel")), fld(ex, ref, "host_port"))

    def connect(ex, ref, a, k):
        did(ex, "tunnel", number(ex, fld(ex, ref, "channel")), fld(ex, ref, "host_port"))
    e["$connection.connect"] = connect

    def launch(ex, fn, args, kw):
        v = dict(zip(["self", "limiter", "channel", "size"], args))
        v.update(kw)
        did(ex, "terminal", v["self"], number(ex, v["channel"]), v.get("size"))
    c[D + "m2mmanager:Terminal.launch"] = launch

    def popen(ex, args, kw):
        did(ex, "process", args[0] if args else kw.get("args"))
        return ex.opaque("$process", pid=ex.fresh("pid", "int"))
    e["subprocess.Popen"] = e["new:subprocess.Popen"] = e["subprocess.call"] = e["subprocess.check_call"] = e["subprocess.check_output"] = e["os.system"] = popen
    client = ex.opaque("$client")
    for n in ("sync", "exit", "poll", "close"):
        e["$client." + n] = lambda ex, ref, a, k, n=n: did(ex, n)
    e["$scanner.perform_scan"] = lambda ex, ref, a, k: did(ex, "scan")
    o = ex.h(client).fields
    o["directory_scanner"] = ex.opaque("$scanner")
    o["remote_directory"] = rd = ex.opaque("$rd")
    o["m2m"] = m = ex.call(ex.getattr(ex.w.cls(D + "m2mmanager.M2MManager"), "init"), [client, rd], {"m2m_url": "ws://x"})
    o["port_forward"] = ex.call(ex.getattr(ex.w.cls(D + "portforward.PortForwardManager"), "init"), [client])
    ex.call(method(ex, m, "add_terminal"), ["other", "vi"])
    ex.prove(events(ex) == (), "starting the manager starts no action")
    return m


def number(ex, ch):
    return ex.h(ch).fields["number"]


def connection(ex, args, kw):
    v = dict(zip(["limiter", "close_event", "channel", "host_port"], args))
    v.update(kw)
    return ex.opaque("$connection", channel=v["channel"], host_port=v["host_port"])


class Instr(object):
    """An instruction: a dictionary as decoded from the wire, with `names` singled out and any other fields."""
    def __init__(self, ex, action, names):
        self.m = m = T.ObjMap("instruction", ex, lambda ex, k: ex.fresh("value", "py:benc"), "bytes")
        self.vals = {}
        lits = []
        for n in ["action"] + names:
            t = zstr(n)
            if n == "action":
                self.vals[n] = action
            elif ex.choose(2, "field %s is present" % n) == 0:
                self.vals[n] = ex.fresh(n, "py:benc")
            else:
                ex.assume(z3.Not(m.fh(t)))
                lits.append(n)
                continue
            ex.assume(m.fh(t))
            m.wit.append([t, self.vals[n]])
        self.names = ["action"] + names
        real = m.factory
        k0 = []

        def other(ex, k):
            # the tolerant text of any other field's name is none of the names this action uses
            for n in self.names:
                ex.assume(k.t != zstr(n))
                ex.assume(T.DECI(k.t) != zstr(n))
            return real(ex, k)
        m.factory = other
        self.ref = ex.newdict(base=m)

        def havoc(ex, ref, o):
            if ref == self.ref:
                return False
            saved = []
            for n in self.names:
                found, v = dict_get(ex, o, n)
                saved.append((n, found, v))
            o.entries, o.base = [[n, v if f else DEL] for n, f, v in saved], T.AbsMap("fields", ex)
            ex.g["$frame%d" % ref.oid] = tuple(saved)
            ex.g["$frames"] = tuple(set(ex.g.get("$frames", ())) | {ref.oid})
            return True
        ex.task.dict_havoc = havoc

        def back(ex, lv):
            for oid in ex.g.get("$frames", ()):
                for n, f, v in ex.g["$frame%d" % oid]:
                    f2, v2 = dict_get(ex, ex.h(Ref(oid)), n)
                    ex.prove(f == f2 and (not f or ex.same(v, v2) or ex.to_py(v) == ex.to_py(v2)), "other fields do not disturb the fields of the action")
        ex.task.on_backedge = back

    def text(self, ex, n):
        """What the agent has to use for a field: its tolerant text when it is a byte string."""
        v = self.vals[n]
        v = ex.expand(v)
        if kind_of(v) == "bytes":
            return mk("str", T.DECI(term(v)))
        return v


def eqv(ex, a, b):
    return ex.to_py(a) == ex.to_py(b)


def run(ex, m, ins):
    k, v = outcome(ex, lambda: ex.call(method(ex, m, "on_instruction"), [ex.fresh("sender", "bytes"), ins.ref]))
    return k


def simple(action, fields, kind, event):
    """action with required fields -> exactly the event (kind, field values in order)."""
    def body(ex):
        m = setting(ex)
        ins = Instr(ex, action.encode(), fields)
        k = run(ex, m, ins)
        ev = events(ex)
        if any(f not in ins.vals for f in fields):
            ex.prove(ev == (), "an instruction with a missing field starts nothing")
            ex.eng.reach(ex, "missing")
            return
        ex.prove(len(ev) == 1 and ev[0][0] == kind, "the instruction starts exactly the action it names")
        ex.prove(k == "ok", "a complete instruction does not fail")
        event(ex, m, ins, ev[0])
        ex.eng.reach(ex, "started")
    return body


def ev_none(ex, m, ins, e):
    pass


def ev_echo(ex, m, ins, e):
    ex.prove(eqv(ex, e[1], ins.text(ex, "port")), "the action runs on the channel named")


def ev_file(ex, m, ins, e):
    ex.prove(eqv(ex, e[1], ins.text(ex, "port")), "the action runs on the channel named")
    ex.prove(eqv(ex, e[2], ins.text(ex, "path")), "the file named is sent")


def ev_command(ex, m, ins, e):
    ex.prove(eqv(ex, e[1], ins.text(ex, "port")), "the action runs on the channel named")
    ex.prove(eqv(ex, e[2], ins.text(ex, "command")), "the command named is run")


def ev_redirect(ex, m, ins, e):
    ex.prove(eqv(ex, e[1], ins.text(ex, "m2m_port")), "the tunnel uses the channel named")
    host, port = ex.unpack(e[2], 2)
    ex.prove(host == "127.0.0.1" and eqv(ex, port, ins.text(ex, "device_port")), "the tunnel goes to the port named")


def t_terminal(ex):
    m = setting(ex)
    ins = Instr(ex, b"open-terminal", ["port", "name", "size"])
    for n in ("name",):
        if n in ins.vals:
            v = ex.expand(ins.vals[n])
            if kind_of(v) == "obj":
                raise PathEnd()           # a name that is a list or dictionary: fails or finds nothing (unhashable)
    k = run(ex, m, ins)
    ev = events(ex)
    if "port" not in ins.vals or "name" not in ins.vals:
        ex.prove(ev == (), "an instruction with a missing field starts nothing")
        return
    ex.prove(k == "ok", "a complete instruction does not fail")
    name = ins.text(ex, "name")
    known = [n for n in ("shell", "other") if kind_of(name) == "str" and ex.branch(term(name) == zstr(n))]
    if not known:
        ex.prove(ev == (), "an unknown terminal starts nothing")
        ex.eng.reach(ex, "unknown")
        return
    ex.prove(len(ev) == 1 and ev[0][0] == "terminal", "the instruction starts exactly the action it names")
    ex.prove(ev[0][1] == ex.call(method(ex, m, "get_terminal"), [known[0]]), "the terminal named is opened")
    ex.prove(ex.getattr(ev[0][1], "command") == {"shell": "bash -i", "other": "vi"}[known[0]], "the terminal named is opened")
    ex.prove(eqv(ex, ev[0][2], ins.text(ex, "port")), "the action runs on the channel named")
    if "size" in ins.vals:
        ex.prove(eqv(ex, ev[0][3], ins.text(ex, "size")), "the terminal gets the size named")
    else:
        ex.prove(ev[0][3] is None, "without a size the terminal gets the standard one")
    ex.eng.reach(ex, "started")


def t_forward(ex):
    m = setting(ex)
    ins = Instr(ex, b"open-portforward", ["service", "route"])
    route = None
    if "route" in ins.vals:
        r = ins.vals["route"]
        route = ex.expand(r)
        if kind_of(route) == "bytes" or kind_of(route) == "obj" and not isinstance(ex.h(route), HList):
            raise PathEnd()               # only lists (and numbers) are considered as routes
    if "service" in ins.vals and kind_of(ex.expand(ins.vals["service"])) == "obj":
        raise PathEnd()
    n = None
    if isinstance(route, Ref):
        seq = ex.h(route).seq
        n = ex.branch(z3.Length(seq) == 4)
    k = run(ex, m, ins)
    ev = events(ex)
    if "service" not in ins.vals or "route" not in ins.vals:
        ex.prove(ev == (), "an instruction with a missing field starts nothing")
        ex.eng.reach(ex, "missing")
        return
    if not n:
        ex.prove(ev == (), "an instruction with a malformed route starts nothing")
        ex.eng.reach(ex, "malformed")
        return
    ex.prove(k == "ok", "a complete instruction does not fail")
    name = ins.text(ex, "service")
    known = [x for x in NAMES if kind_of(name) == "str" and ex.branch(term(name) == zstr(x))]
    if not known:
        ex.prove(ev == (), "an unknown service starts nothing")
        ex.eng.reach(ex, "unknown")
        return
    ex.prove(len(ev) == 1 and ev[0][0] == "tunnel", "the instruction starts exactly the action it names")
    ex.prove(ex.to_py(ev[0][1]) == seq[3], "the tunnel uses the channel named by the route")
    host, port = ex.unpack(ev[0][2], 2)
    ex.prove(conj(isval(ex, host, "127.0.0.1"), isval(ex, port, NAMES[known[0]])), "the tunnel goes to the service named")
    ex.eng.reach(ex, "started")


ACTIONS = ["sync", "open-terminal", "open-echo", "open-portforward", "open-portredirect", "reboot-device", "read-file", "run-command", "scan-directory"]


def t_other(ex):
    m = setting(ex)
    c = ex.choose(3, "action")
    if c == 0:
        a = ex.fresh("action", "bytes")
        for n in ACTIONS:
            ex.assume(T.DECI(a.t) != zstr(n))
            ex.assume(a.t != zstr(n))
    elif c == 1:
        a = ex.fresh("action", "py:benc")
        if kind_of(ex.expand(a)) in ("bytes", "obj"):
            raise PathEnd()
    else:
        a = None
    fields = ["port", "name", "path", "command", "service", "route", "device_port", "m2m_port"]
    ins = Instr(ex, a if a is not None else b"x", [])
    # all other fields are present with some value
    if a is None:
        ins.m.wit.pop()
        ins.vals.pop("action")
        ex2 = ex.newdict(base=T.ObjMap("noaction", ex, ins.m.factory, "bytes"))
        ex.assume(z3.Not(ex.h(ex2).base.fh(zstr("action"))))
        ins.ref = ex2
    else:
        for f in fields:
            v = ex.fresh(f, "py:benc")
            t = zstr(f)
            ex.assume(ins.m.fh(t))
            # one kind each is enough: these values are not looked at
            ex.assume(Py.is_PInt(v.t))
            ins.m.wit.append([t, v])
    run(ex, m, ins)
    ex.prove(events(ex) == (), "any other instruction starts nothing")
    ex.eng.reach(ex, "kind%d" % c)


def t_packet(ex):
    """Failures do not escape the packet handler; the manager gets the instruction's own sender and data."""
    from .ws import make_client
    from .c07 import handler
    from .c08 import pt
    got = []

    def on_instr(ex, ref, args, kw):
        got.append((args, kw))
        if ex.choose(2, "instruction fails"):
            ex.eng.reach(ex, "fails")
            ex.anyexc("instruction")
    ex.task.ext["$manager.on_instruction"] = on_instr
    s = make_client(ex, tables=False)
    sender, data = ex.fresh("sender", "bytes"), ex.newdict(base=T.AbsMap("data", ex))
    k, v = outcome(ex, lambda: ex.call(handler(ex, s, pt(ex, "instruction")), [pt(ex, "instruction"), sender, data]))
    ex.prove(k == "ok", "a failing instruction does not escape the packet handler")
    ex.prove(len(got) == 1, "an instruction is carried out exactly once")
    a = list(got[0][0]) + list(got[0][1].values())
    ex.prove(len(a) == 2 and a[1] == data and isval(ex, a[0], sender), "the instruction carried out is the one received")


def tasks(w):
    mm = D + "m2mmanager:M2MManager.on_instruction"
    R = "any other fields with any values; fields present or not, of any type"
    E = ["exactly the named action, with its own parameters", "a missing field => nothing"]
    ts = []
    for a, fields, kind, ev, must in [
            ("sync", [], "sync", ev_none, ["started"]), ("open-echo", ["port"], "echo", ev_echo, ["started", "missing"]),
            ("open-portredirect", ["device_port", "m2m_port"], "tunnel", ev_redirect, ["started", "missing"]),
            ("reboot-device", [], "process", lambda ex, m, i, e: ex.prove(ex.unpack(e[1], None) == ["/usr/bin/sudo", "/sbin/reboot"], "the reboot command is run"), ["started"]),
            ("read-file", ["port", "path"], "file", ev_file, ["started", "missing"]),
            ("run-command", ["port", "command"], "command", ev_command, ["started", "missing"]),
            ("scan-directory", [], "scan", ev_none, ["started"])]:
        ts.append(Task("on_instruction " + a, simple(a, fields, kind, ev), mm, must_reach=must, requires=R, ensures=E))
    ts.append(Task("on_instruction open-terminal", t_terminal, mm, must_reach=["started", "unknown"], requires=R, ensures=E))
    ts.append(Task("on_instruction open-portforward", t_forward, mm, must_reach=["started", "unknown", "malformed", "missing"], requires=R, ensures=E))
    ts.append(Task("on_instruction other", t_other, mm, must_reach=["kind0", "kind1", "kind2"], requires="an action that is none of the nine, or not text, or absent", ensures=["nothing starts"]))
    ts.append(Task("instruction packet", t_packet, WS + ":WSClient.on_instruction_packet", must_reach=["fails", "end"], requires="the manager may fail with anything", ensures=["no exception escapes"]))
    for t in ts:
        t.contracts = dict(t.contracts)
        t.ext = dict(t.ext)
    return ts


ASSUMPTIONS = ["no two fields of an instruction have names with the same tolerant UTF-8 text", "routes are lists or numbers; terminal and service names are not containers",
               "starting a service never raises (C10)", "Python 3 branch of the decoding (PY3 is true under the package's interpreter)"]
