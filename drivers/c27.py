"""C27: the real command line with the real argument parser; sub-commands and the client are scripted."""
import sys, io, logging, os
from dataplicity import app, client as C
from dataplicity.subcommands.run import Run
from dataplicity.subcommands.version import Version

LEVELS = ["NOTSET", "DEBUG", "INFO", "WARN", "WARNING", "ERROR", "CRITICAL"]
RUN, VERSION = Run.run, Version.run


class Odd(Exception):
    def __str__(self):
        return "caf\u00e9 {} %s"


EXC = {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "Odd": Odd, "RuntimeError": RuntimeError, "AttributeError": AttributeError, "StopIteration": StopIteration}


def gen(rng, n):
    lv = rng.choice([None, None] + LEVELS + [l.lower() for l in LEVELS] + ["", "x", "TRACE", "10", "Info", "INFO "])
    return {"level": lv, "quiet": rng.random() < 0.15, "debug": rng.random() < 0.3, "file": rng.choice([None, None, None, "ok", "bad"]),
            "sub": rng.choice([None, "run", "run", "run", "version"]), "real": rng.random() < 0.4,
            "out": rng.choice([None, None, 0, False, 1, 3, -1, 255] + sorted(EXC) * 2), "opts": [k for k in ("--server-url", "--m2m-url", "--serial", "--auth", "--remote-dir") if rng.random() < 0.3]}


def smaller(c):
    for k, v in (("level", None), ("quiet", False), ("debug", False), ("file", None), ("real", False), ("opts", [])):
        if c[k] != v:
            yield dict(c, **{k: v})


def check(c):
    argv = ["/usr/bin/dataplicity"]
    if c["level"] is not None:
        argv += ["--log-level", c["level"]]
    if c["quiet"]:
        argv.append("--quiet")
    if c["debug"]:
        argv.append("--debug")
    log = None
    if c["file"]:
        log = os.path.join(os.environ["VP_SCRATCH"], "log.txt" if c["file"] == "ok" else "no/such/folder/log.txt")
        argv += ["--log-file", log]
    for o in c["opts"]:
        argv += [o, "value" + o]
    if c["sub"]:
        argv.append(c["sub"])
    st = {"ran": [], "made": None}

    def out():
        if isinstance(c["out"], str):
            raise EXC[c["out"]]("it failed")
        return c["out"]

    def run(self):
        st["ran"].append("run")
        return out()

    def version(self):
        st["ran"].append("version")
        return out()

    def forever(self):
        st["ran"].append("run")
        out()

    def init(self, **k):
        st["made"] = k
    saved = sys.argv, sys.stdout, sys.stderr, C.Client.__init__, C.Client.run_forever
    lg = logging.getLogger()
    hs, level = list(lg.handlers), lg.level
    sys.argv, sys.stdout, sys.stderr = argv, io.StringIO(), io.StringIO()
    C.Client.__init__, C.Client.run_forever = init, forever
    real = c["real"] and c["sub"] == "run"
    Run.run, Version.run = (RUN if real else run), version
    try:
        try:
            app.main()
            res, code = "returned", 0
        except SystemExit as e:
            res, code = "exit", e.code
        except Exception as e:
            res, code = e, 1
        err = sys.stderr.getvalue()
    finally:
        sys.argv, sys.stdout, sys.stderr, C.Client.__init__, C.Client.run_forever = saved
        Run.run, Version.run = RUN, VERSION
        for h in list(lg.handlers):
            if h not in hs:
                lg.removeHandler(h)
                h.close()
        lg.setLevel(level)
    status = 0 if code is None else code & 255 if isinstance(code, int) else 1
    if c["quiet"] or ("INFO" if c["level"] is None else c["level"]).upper() in LEVELS:
        pass
    else:
        if res != "exit" or status == 0 or not err or st["ran"]:
            return "invalid log level: %r, status %r, standard error %r, ran %r" % (res, status, err, st["ran"])
        return None
    if c["file"] == "bad":
        return "status 0 although logging could not be set up" if status == 0 else None
    if c["sub"] is None:
        return "missing sub-command: %r, status %r, ran %r" % (res, status, st["ran"]) if res != "exit" or status == 0 or st["ran"] else None
    if st["ran"] != [c["sub"]]:
        return "sub-command %r ran as %r" % (c["sub"], st["ran"])
    if real:
        names = {"--server-url": "rpc_url", "--m2m-url": "m2m_url", "--serial": "serial", "--auth": "auth_token", "--remote-dir": "remote_directory_path"}
        want = dict((n, "value" + o if o in c["opts"] else None) for o, n in names.items())
        if dict((k, v) for k, v in (st["made"] or {}).items() if k in want) != want:
            return "the client is made with %r, not %r" % (st["made"], want)
    if isinstance(c["out"], str):
        if c["debug"]:
            return None if isinstance(res, EXC[c["out"]]) else "in debug mode the exception is not passed on: %r" % (res,)
        if res != "exit" or status == 0 or not err:
            return "the sub-command fails with %s: %r, status %r, standard error %r" % (c["out"], res, status, err)
        return None
    want = 0 if real or c["out"] is None else int(c["out"]) & 255
    if res not in ("exit", "returned") or status != want:
        return "the sub-command returns %r: %r, status %r" % (c["out"], res, status)
