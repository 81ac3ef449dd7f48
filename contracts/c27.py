"""C27: the exit status of the command line. The real main() and App.run() over an assumed argument parser."""
from .common import *

A = "dataplicity.app"
LEVELS = ["NOTSET", "DEBUG", "INFO", "WARN", "WARNING", "ERROR", "CRITICAL"]
REQ = "any arguments argparse accepts; any result or exception of the sub-command, of logging set-up and of creating the client"


def setting(ex, sub):
    """sub: what the selected sub-command does, a function of the interpreter, or None for no sub-command."""
    e = ex.task.ext
    ex.g["err"], ex.g["ran"], ex.g["cfg"] = 0, (), ()

    def write(ex, a, k):
        t = term(ex.expand(a[0]))
        ex.g["err"] = mk("int", z3.simplify(term(ex.g["err"]) + z3.Length(t)))
    e["sys.stderr.write"] = write
    e["sys.stdout.write"] = lambda ex, a, k: (ex.anyexc("stdout") if ex.choose(2, "stdout fails") else None)

    def exit_(ex, a, k):
        ex.exc("builtins.SystemExit", *a, code=(a[0] if a else None))
    e["sys.exit"] = exit_
    e["get:sys.argv"] = lambda ex, a, k: ex.newlist([ex.memo_argv[0], ex.memo_argv[1]])
    ex.memo_argv = (ex.fresh("prog", "str"), ex.fresh("arg", "str"))
    ns = {"quiet": ex.fresh("quiet", "bool"), "debug": ex.fresh("debug", "bool"), "log_level": ex.fresh("log_level", "str"),
          "log_file": None if ex.choose(2, "no log file") else ex.fresh("log_file", "str"), "subcommand": None if sub is None else sub}
    for n in ("server_url", "m2m_url", "serial", "auth_token", "remote_directory"):
        ns[n] = ex.fresh(n, "str")
    ex.ns = ns

    def parse(ex, ref, a, k):
        if ex.choose(2, "argparse ends the program"):
            code = ex.choose(2, "help or version was asked for")
            ex.g["argparse"] = True
            ex.exc("builtins.SystemExit", 0 if code else 2, code=0 if code else 2)
        return ex.opaque("argparse.Namespace", **ns)
    ex.g["argparse"] = False
    e["new:argparse.ArgumentParser"] = lambda ex, a, k: ex.opaque("$parser")
    e["argparse.ArgumentParser"] = e["new:argparse.ArgumentParser"]
    e["$parser.add_argument"] = lambda ex, ref, a, k: None
    e["$parser.print_help"] = lambda ex, ref, a, k: None
    e["$parser.print_usage"] = lambda ex, ref, a, k: None
    e["$parser.error"] = lambda ex, ref, a, k: (ex.g.__setitem__("err", 1), ex.exc("builtins.SystemExit", 2, code=2))
    e["$parser.add_subparsers"] = lambda ex, ref, a, k: ex.opaque("$subparsers")
    e["$subparsers.add_parser"] = lambda ex, ref, a, k: ex.opaque("$parser")
    e["$parser.parse_args"] = parse

    def config(name):
        def f(ex, a, k):
            ex.g["cfg"] = ex.g["cfg"] + (name,)
            if ex.choose(2, "logging cannot be set up"):
                ex.g["badlog"] = True
                ex.anyexc("logging")
        return f
    ex.g["badlog"] = False
    e["logging.config.dictConfig"] = config("file")
    e["logging.basicConfig"] = config("std")


def status(ex, k, v):
    """(exit status of the process, is it a clean SystemExit); None status when unknown."""
    if k == "ok":
        return z3.IntVal(0), "returned"
    cls = ex.clsname_of(v)
    if cls == "builtins.SystemExit":
        code = ex.expand(ex.getattr(v, "code"))
        if code is None:
            return z3.IntVal(0), "exit"
        kc = kind_of(code)
        if kc == "bool":
            return z3.If(term(code), z3.IntVal(1), z3.IntVal(0)), "exit"
        if kc == "int":
            return term(code) % 256, "exit"
        return z3.IntVal(1), "text"
    return z3.IntVal(1), "exception"


def valid_level(ex, lv):
    u = ex.builtin_method(ex.ns["log_level"], "upper", [], {})
    return z3.Or(ex.ns["quiet"].t, *[term(u) == zstr(n) for n in LEVELS])


def check(ex, k, v, name, ran):
    """What every run has to satisfy; ran() -> (did the selected sub-command run, its result, its exception)"""
    st, how = status(ex, k, v)
    if ex.g["argparse"]:
        ex.prove(how == "exit", "argparse decides about arguments it does not accept")
        return
    ok = ex.branch(valid_level(ex, None))
    did, res, err = ran()
    if not ok:
        ex.prove(st != 0, "an invalid log level ends the program with a non-zero status")
        ex.prove(how == "exit", "an invalid log level is reported as such")
        ex.prove(term(ex.g["err"]) > 0, "an invalid log level is reported")
        ex.prove(not did, "nothing runs with an invalid log level")
        ex.eng.reach(ex, "level")
        return
    if ex.g["badlog"]:
        ex.prove(st != 0, "a failing log set-up gives a non-zero status")
        return
    if ex.ns["subcommand"] is None:
        ex.prove(st != 0, "a missing sub-command gives a non-zero status")
        ex.prove(how == "exit", "a missing sub-command does not raise")
        ex.prove(not did, "nothing runs without a sub-command")
        ex.eng.reach(ex, "missing")
        return
    ex.prove(did, "the selected sub-command is run")
    if err is None:
        if res is None or res is False:
            ex.prove(st == 0, "a sub-command that finishes gives status zero")
            ex.prove(how in ("exit", "returned"), "a sub-command that finishes gives status zero")
            ex.eng.reach(ex, "success")
        elif kind_of(res) == "int":
            ex.prove((st == 0) == (term(res) % 256 == 0), "a sub-command's own error code gives a non-zero status")
            ex.eng.reach(ex, "code")
        return
    if ex.branch(ex.ns["debug"].t):
        ex.prove(k == "exc" and v == err, "in debug mode the exception is passed on")
        ex.eng.reach(ex, "debug")
        return
    ex.prove(st != 0, "an exception of the sub-command gives a non-zero status")
    ex.prove(how == "exit", "outside debug mode the exception is not passed on")
    ex.prove(term(ex.g["err"]) > 0, "an exception of the sub-command gives a message on standard error")
    ex.eng.reach(ex, "failure")


def t_any(ex):
    """Any sub-command."""
    sub = [None, "run", "version"][ex.choose(3, "sub-command")]
    setting(ex, sub)
    st = {"n": 0, "res": None, "err": None}

    def run(ex, fn, a, k):
        st["n"] += 1
        ex.prove(sub is not None and ex.clsname_of(a[0]) == {"run": "dataplicity.subcommands.run.Run", "version": "dataplicity.subcommands.version.Version"}.get(sub), "only the selected sub-command is run")
        ex.prove(st["n"] == 1, "the sub-command is run once")
        ex.prove(isval(ex, ex.getattr(ex.getattr(a[0], "args"), "log_level"), ex.ns["log_level"]), "the sub-command sees the arguments")
        c = ex.choose(4, "sub-command ends")
        if c == 0:
            return None
        if c == 1:
            st["res"] = False
            return False
        if c == 2:
            st["res"] = ex.fresh("code", "int")
            return st["res"]
        try:
            ex.anyexc("sub-command")
        except PyExc as x:
            st["err"] = x.ref
            raise
    for m in ("dataplicity.subcommands.run:Run.run", "dataplicity.subcommands.version:Version.run"):
        ex.task.contracts[m] = run
    k, v = outcome(ex, lambda: ex.call(ex.w.func(A + ":main"), []))
    v = v.ref if k == "exc" else v
    check(ex, k, v, "", lambda: (st["n"] == 1, st["res"], st["err"]))


def t_real(ex):
    """The two real sub-commands, over a client that may fail anywhere."""
    sub = ["run", "version"][ex.choose(2, "sub-command")]
    setting(ex, sub)
    st = {"err": None, "made": 0, "ran": 0, "out": None}
    C = "dataplicity.client"

    def fails(ex, what):
        if ex.choose(2, what + " fails"):
            try:
                ex.anyexc(what)
            except PyExc as x:
                st["err"] = x.ref
                raise

    def init(ex, fn, a, k):
        st["made"] += 1
        names = ["rpc_url", "m2m_url", "serial", "auth_token", "remote_directory_path"]
        d = dict(zip(names, a[1:]))
        d.update(k)
        for n, w in zip(names, ["server_url", "m2m_url", "serial", "auth_token", "remote_directory"]):
            ex.prove(isval(ex, d.get(n), ex.ns[w]), "the client is made from the arguments given")
        fails(ex, "client")

    def forever(ex, fn, a, k):
        st["ran"] += 1
        fails(ex, "run_forever")

    def out(ex, a, k):
        st["out"] = a[0]
        fails(ex, "stdout")
    ex.task.contracts[C + ":Client.__init__"] = init
    ex.task.contracts[C + ":Client.run_forever"] = forever
    ex.task.ext["sys.stdout.write"] = out
    k, v = outcome(ex, lambda: ex.call(ex.w.func(A + ":main"), []))
    v = v.ref if k == "exc" else v

    def ran():
        if sub == "run":
            did = st["made"] == 1 and (st["ran"] == 1 or st["err"] is not None)
        else:
            did = st["out"] is not None
        return did, None, st["err"]
    check(ex, k, v, "", ran)


def tasks(w):
    E = ["status 0 iff the sub-command finished without error", "message on stderr otherwise; debug passes the exception on", "invalid level => message, non-zero, nothing run"]
    return [Task("main, any sub-command", t_any, A + ":App.run", must_reach=["success", "failure", "debug", "missing", "level", "code"], requires=REQ, ensures=E),
            Task("main, real sub-commands", t_real, "dataplicity.subcommands.run:Run.run", must_reach=["success", "failure", "debug", "level"], requires=REQ, ensures=E)]


ASSUMPTIONS = ["argparse delivers the option values (exercised by the driver with the real argparse)", "writing to standard error does not fail",
               "exit statuses are taken modulo 256; a sub-command returning a non-zero multiple of 256 is not required to give a non-zero status"]
