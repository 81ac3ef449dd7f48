"""C23: histories of polls of a real client against a scripted clock, disk, tag script, device and server."""
import os, subprocess, time, threading
import agent as A
from dataplicity import client as C, device_meta as M, rpi, clockcheck
try:
    from dataplicity import tags as T
except ImportError:
    T = None

METHODS = ["device.set_agent_version", "device.set_machine_revision", "device.set_model_name", "device.set_os_version", "device.set_uname", "device.set_ip_addresses"]
DISK, TAGS, AUTH = "device.set_disk_space", "device.set_machine_defined_tags", "device.check_auth"
CLOCK = time.time
VFS, OUT, EXISTS, WAIT = os.statvfs, subprocess.check_output, os.path.exists, threading.Event.wait


M.get_meta()         # looks up what it caches elsewhere


class V(object):
    f_blocks, f_bfree, f_bavail, f_frsize, f_bsize, f_files, f_ffree, f_favail, f_flag, f_namemax = 100, 50, 40, 512, 512, 1, 1, 1, 0, 255


def gen(rng, n):
    if n % 12 == 11:
        return {"run": rng.choice([1, 2, 5]), "end": rng.choice(["exit", "exit", "KeyboardInterrupt", "SystemExit"])}
    ops = []
    for _ in range(rng.randrange(1, 9)):
        srv = rng.choice(["ok", "ok", "ok", "down", "garbage", "notlist", "authfail"] + ["err:" + m for m in METHODS + [DISK, TAGS]] + ["no:" + m for m in METHODS + [TAGS]])
        ops.append({"dt": rng.choice([0, 60, 60, 60, 1800, 3539, 3540, 3599, 3600, 3601, 7200, 100000]), "srv": srv, "disk": rng.random() < 0.85,
                    "tags": rng.choice([[], [], ["a"], ["a"], ["b"], ["a", "b"], ["b", "a"], "fail", "missing", "oserror", "odd"]), "meta": rng.random() < 0.85})
    return {"ops": ops}


def smaller(c):
    if "ops" in c:
        for i in range(len(c["ops"])):
            if len(c["ops"]) > 1:
                yield {"ops": c["ops"][:i] + c["ops"][i + 1:]}


def check(c):
    return run(c) if "run" in c else polls(c)


def run(c):
    s = A.Server()
    a = A.agent(s)
    log, n = [], [0]
    real_sleep = clockcheck.sleep
    clockcheck.sleep = lambda t: real_sleep(0.001)

    def wait(self, timeout=None):
        if self is a.exit_event:
            log.append("wait")
        return WAIT(self, 0.001 if timeout is not None else None)

    def poll():
        log.append("poll")
        n[0] += 1
        if n[0] == c["run"]:
            if c["end"] == "exit":
                a.exit()
            else:
                raise {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}[c["end"]]()
        if n[0] > c["run"]:
            raise SystemExit()
    a.poll = poll
    a.close = lambda: log.append("close")
    threading.Event.wait = wait
    try:
        try:
            a.run_forever()
        except BaseException as e:
            return "ended with %r" % e
    finally:
        threading.Event.wait = WAIT
        clockcheck.sleep = real_sleep
    if n[0] != c["run"]:
        return "%d polls until asked to end after %d: %s" % (n[0], c["run"], log)
    if log.count("close") != 1 or log[-1] != "close":
        return "shut down %d times: %s" % (log.count("close"), log)


def polls(c):
    s = A.Server()
    now = [1.6e9]
    op = [None]
    time.time = lambda: now[0]

    def vfs(p):
        if not op[0]["disk"]:
            raise OSError("disk")
        return V

    def out(cmd, *a, **k):
        if "dataplicity_tags" not in str(cmd):
            return OUT(cmd, *a, **k)
        t = op[0]["tags"]
        if t == "fail":
            raise subprocess.CalledProcessError(1, "x")
        if t == "oserror":
            raise OSError("x")
        return ",".join(t).encode()
    uname = M.get_uname

    def bad():
        if not op[0]["meta"]:
            raise RuntimeError("no uname")
        return "uname"

    def reply(call):
        what, _, m = op[0]["srv"].partition(":")
        if what == "authfail":
            return ("error", {"code": 5, "message": "no"})
        if m == call["method"]:
            return ("error", {"code": 1, "message": "m"}) if what == "err" else None
        return ("ok", True)
    s.reply = reply
    M._META_CACHE = None
    M.get_uname = bad
    os.statvfs, subprocess.check_output = vfs, out

    def exists(p):
        if not str(p).endswith("dataplicity_tags"):
            return EXISTS(p)
        if op[0]["tags"] == "odd":
            raise RuntimeError("odd")
        return op[0]["tags"] != "missing"
    os.path.exists = exists
    try:
        a = A.agent(s)
        meta_ok, tags_ok, last_disk, last_try, meta_cached = False, None, None, None, False
        for i, o in enumerate(c["ops"]):
            op[0] = o
            now[0] += o["dt"]
            s.mode = o["srv"] if o["srv"] in ("down", "garbage", "notlist") else "ok"
            del s.batches[:]
            try:
                a.poll()
            except BaseException as e:
                return "poll %d raised %r" % (i, e)
            by = {}
            for b in s.batches:
                if not A.creds_ok(b):
                    return "poll %d: a batch without this device's credentials: %r" % (i, b)
                for x in b:
                    by.setdefault(x["method"], []).append(x)
            ok = s.mode == "ok" and o["srv"] != "authfail"

            def acked(m):
                return ok and m not in o["srv"]
            due = last_try is None or now[0] - last_try >= 3600
            if DISK in by:
                if len(by[DISK]) > 1 or last_disk is not None and now[0] - last_disk < 3600:
                    return "poll %d: disk figures sent again after %s s" % (i, now[0] - (last_disk or now[0]))
                last_disk = now[0]
            elif due and o["disk"]:
                return "poll %d: disk figures not sent although due" % i
            if due:
                last_try = now[0]
            tags = {"fail": None, "odd": None, "missing": [], "oserror": []}.get(o["tags"], o["tags"]) if isinstance(o["tags"], str) else o["tags"]
            want = tags is not None and tags != tags_ok
            if (TAGS in by) != want:
                return "poll %d: tags %r %s although the last acknowledged ones are %r" % (i, tags, "sent" if TAGS in by else "not sent", tags_ok)
            if want:
                if len(by[TAGS]) > 1 or by[TAGS][0]["params"] != {"tag_list": tags}:
                    return "poll %d: tags sent %r, expected %r" % (i, by[TAGS], tags)
                if acked(TAGS):
                    tags_ok = tags
            sent = [m for m in METHODS if m in by]
            if meta_ok and sent:
                return "poll %d: acknowledged device information sent again" % i
            if o["meta"]:
                meta_cached = True
            if not meta_ok and (o["meta"] or meta_cached):
                if sent != METHODS or any(len(by[m]) > 1 for m in METHODS):
                    return "poll %d: device information not acknowledged, sent %r" % (i, sent)
                meta_ok = all(acked(m) for m in METHODS)
    finally:
        time.time, M.get_uname, os.statvfs, subprocess.check_output, os.path.exists = CLOCK, uname, VFS, OUT, EXISTS
        M._META_CACHE = None
