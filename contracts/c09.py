"""C09: limiter."""
from .common import *
from vp.monitor import Monitor, settle

MOD = "dataplicity.limiter"


def make_limiter(ex):
    """A limiter built by the real constructor, then in an arbitrary reachable state."""
    cls = ex.w.cls(MOD + ".Limiter")
    limit = ex.fresh("limit", "int")
    ex.assume(limit.t > 0)
    name = ex.fresh("name", "str")
    lim = ex.call(cls, [name, limit])
    return lim, limit


def discover(ex, lim, limit):
    """(counter field, lock) of a fresh limiter: the one integer that is 0, the one lock."""
    f = ex.h(lim).fields
    cnt = [n for n, v in f.items() if isinstance(v, int) and not isinstance(v, bool)]
    locks = [v for v in f.values() if isinstance(v, Ref) and ex.clsname_of(v) in ("threading.RLock", "threading.Lock")]
    if len(cnt) != 1 or f[cnt[0]] != 0:
        ex.prove(False, "a new limiter has no slot in use")
    if len(locks) > 1:
        ex.unsupported("several locks in a limiter")
    return cnt[0], (locks[0] if locks else None)


class LimiterMonitor(Monitor):
    def __init__(self, ex, lim, limit, own=0):
        self.cnt, lock = discover(ex, lim, limit)
        self.limit, self.own = limit, own
        self.delta = z3.IntVal(0)
        self.last = None
        self.nsteps = 0

        def havoc(ex):
            v = ex.fresh("inuse", "int")
            ex.assume(z3.And(v.t >= 0, v.t <= self.limit.t, v.t >= self.own + self.delta))
            ex.h(lim).fields[self.cnt] = v

        def state(ex):
            return term(ex.h(lim).fields[self.cnt])

        def step(ex, a, b):
            b = I(b)
            ex.prove(z3.And(b >= 0, b <= self.limit.t), "slots in use stay between zero and the limit")
            self.delta = z3.simplify(self.delta + b - a)
            self.last = a
            self.nsteps += 1
        Monitor.__init__(self, ex, lim, lock, {self.cnt}, state, havoc, step)


def t_init(ex):
    cls = ex.w.cls(MOD + ".Limiter")
    limit = ex.fresh("limit", "int")
    name = ex.fresh("name", "str")
    k, v = outcome(ex, lambda: ex.call(cls, [name, limit]))
    if k == "ok":
        ex.prove(limit.t > 0, "a limiter is only created with a positive limit")
        discover(ex, v, limit)
        ex.eng.reach(ex, "created")
    else:
        ex.prove(z3.Not(limit.t > 0), "a positive limit is accepted")
        ex.eng.reach(ex, "refused")


def t_inc(ex):
    lim, limit = make_limiter(ex)
    m = LimiterMonitor(ex, lim, limit)
    k, v = outcome(ex, lambda: ex.call(method(ex, lim, "increment"), []))
    settle(ex)
    if k == "ok":
        ex.prove(m.delta == 1, "taking a slot adds exactly one")
        ex.eng.reach(ex, "taken")
    else:
        ex.prove(v.clsname == MOD + ".LimitReached", "a refused slot is reported with the limit error")
        ex.prove(m.delta == 0, "a refused slot leaves the count unchanged")
        ex.prove(m.last is not None and I(m.last) >= limit.t, "a slot is refused only when none is free")
        ex.eng.reach(ex, "refused")


def t_dec(ex):
    lim, limit = make_limiter(ex)
    m = LimiterMonitor(ex, lim, limit)
    k, v = outcome(ex, lambda: ex.call(method(ex, lim, "decrement"), []))
    settle(ex)
    if k == "ok":
        ex.prove(m.delta == -1, "releasing a slot subtracts exactly one")
        ex.eng.reach(ex, "released")
    else:
        ex.prove(ex.is_sub(v.clsname, MOD + ".LimiterError"), "a failed release is reported as a limiter error")
        ex.prove(m.delta == 0, "a failed release leaves the count unchanged")
        ex.prove(m.last is not None and I(m.last) <= 0, "a release fails only when no slot is in use")
        ex.eng.reach(ex, "refused")


def t_ctx(ex):
    lim, limit = make_limiter(ex)
    m = LimiterMonitor(ex, lim, limit)
    ran = []

    def body(v):
        ran.append(1)
        d = m.delta
        if m.held(ex):      # the step in progress counts too
            d = z3.simplify(m.delta + m.state(ex) - m.pending[0])
        ex.prove(d == 1, "the slot is taken before the start-up code runs")
        if ex.choose(2, "start-up code fails"):
            try:
                ex.anyexc("start-up")
            except PyExc as e:
                ran.append(e.ref)
                raise

    def go():
        ex.with_value(ex.call(lim, []), body)
    k, v = outcome(ex, go)
    settle(ex)
    if k == "ok":
        ex.prove(bool(ran) and m.delta == 1, "successful start-up code keeps exactly one slot")
        ex.eng.reach(ex, "kept")
    elif ran:
        ex.prove(m.delta == 0, "failed start-up code gives its slot back")
        ex.prove(v.ref == ran[-1], "the failure of start-up code is passed on")
        ex.eng.reach(ex, "given back")
    else:
        ex.prove(m.delta == 0, "a refused context leaves the count unchanged")
        ex.prove(v.clsname == MOD + ".LimitReached", "a refused context is reported with the limit error")
        ex.eng.reach(ex, "refused")


def tasks(w):
    ts = [
        Task("Limiter.__init__", t_init, MOD + ":Limiter.__init__", must_reach=["created", "refused"], requires="true",
             ensures=["normal => limit > 0 and no slot in use", "exception => limit <= 0"]),
        Task("Limiter.increment", t_inc, MOD + ":Limiter.increment", must_reach=["taken", "refused"], requires="limit > 0, 0 <= in use <= limit, any interference",
             ensures=["normal => exactly one atomic +1 within the limit", "LimitReached => no change and none was free"]),
        Task("Limiter.decrement", t_dec, MOD + ":Limiter.decrement", must_reach=["released", "refused"], requires="as above",
             ensures=["normal => exactly one atomic -1 not below zero", "LimiterError => no change and none in use"]),
        Task("limiter_context", t_ctx, MOD + ":limiter_context", must_reach=["kept", "given back", "refused"], requires="as above; body raises any Exception or none",
             ensures=["body fails => net change 0 and the exception is passed on", "body succeeds => net change +1", "LimitReached => body not run, net change 0"]),
    ]
    for t in ts:
        t.volgroup = "limiter"
    return ts
