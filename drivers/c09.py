"""C09: interleavings of limiter operations."""
from dataplicity import limiter as L
from sched import *

OPS = ["inc", "dec", "ctx", "bad", "badlim", "baderr"]


def gen(rng, n):
    if n < 12:
        return {"limit": n % 4 - 1, "pre": 0, "threads": [], "choices": []}
    limit = rng.randrange(1, 4)
    if rng.random() < 0.3:
        return {"limit": limit, "pre": 0, "threads": [[rng.choice(OPS) for _ in range(rng.randrange(1, 12))]], "choices": []}
    return {"limit": limit, "pre": rng.randrange(limit + 1), "threads": [[rng.choice(OPS) for _ in range(rng.randrange(1, 3))] for _ in range(rng.randrange(2, 4))],
            "choices": [rng.choice([0, 0, 0, 1, 2]) for _ in range(rng.randrange(60))]}


class Boom(Exception):
    pass


def smaller(c):
    for i in range(len(c["threads"])):
        yield dict(c, threads=c["threads"][:i] + c["threads"][i + 1:])
        for j in range(len(c["threads"][i])):
            t = [list(x) for x in c["threads"]]
            del t[i][j]
            yield dict(c, threads=t)


def check(c):
    limit = c["limit"]
    try:
        with patched_locks(L):
            lim = instrument(L.Limiter)("test", limit)
    except Exception:
        return "positive limit %d refused" % limit if limit > 0 else None
    if limit <= 0:
        return "limit %d accepted" % limit
    for _ in range(c["pre"]):
        lim.increment()
    state = {"sure": c["pre"], "bad": None, "net": c["pre"], "ref": c["pre"]}
    seq = len(c["threads"]) == 1

    def one(op):
        if op == "dec":
            if not seq and state["sure"] <= 0:
                return        # threads release only slots that were taken
            state["sure"] -= 1
            try:
                lim.decrement()
            except L.LimiterError as e:
                state["sure"] += 1
                if seq and state["net"] > 0:
                    state["bad"] = "release refused with %d in use" % state["net"]
            else:
                state["net"] -= 1
            return
        taken = False
        try:
            if op == "inc":
                lim.increment()
                taken = True
            else:
                ran = []
                try:
                    with lim():
                        ran.append(1)
                        if op != "ctx":
                            raise {"bad": Boom, "badlim": L.LimitReached, "baderr": L.LimiterError}[op]("start-up")
                        taken = True
                except Exception as e:
                    if not ran:
                        raise
                    if str(e) != "start-up":
                        state["bad"] = "failure of start-up code replaced by %r" % (e,)
                else:
                    if op != "ctx":
                        state["bad"] = "failure of start-up code swallowed"
                    if not ran:
                        state["bad"] = "start-up code not run"
        except L.LimitReached:
            if seq and state["net"] < limit:
                state["bad"] = "refused with %d of %d in use" % (state["net"], limit)
            return
        if seq and op in ("inc", "ctx") and state["net"] >= limit:
            state["bad"] = "slot given with %d of %d in use" % (state["net"], limit)
        if taken:
            state["sure"] += 1
            state["net"] += 1
            if state["sure"] > limit:
                state["bad"] = "%d slots in use, limit %d" % (state["sure"], limit)
        if state["net"] < 0:
            state["bad"] = "more slots released than taken"

    def thread(ops):
        def go():
            for op in ops:
                one(op)
        return go
    try:
        rs = Sched(c["choices"]).run([thread(t) for t in c["threads"]])
    except Stuck as e:
        return str(e)
    for r in rs:
        if r[0] == "exc":
            return "unexpected exception %r" % (r[1],)
    if state["bad"]:
        return state["bad"]
    net = state["net"]
    if not 0 <= net <= limit:
        return "net %d slots in use, limit %d" % (net, limit)
    k = 0
    try:
        while k < limit + 20:
            lim.decrement()
            k += 1
    except L.LimiterError:
        pass
    if k != net:
        return "%d slots are in use according to the operations, %d can be released" % (net, k)
    k = 0
    try:
        while k < limit + 20:
            lim.increment()
            k += 1
    except L.LimitReached:
        pass
    if k != limit:
        return "%d slots given with limit %d" % (k, limit)
