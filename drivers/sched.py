"""Deterministic schedules of real threads: only one runs at a time, and at every point (lock operation, access to an
attribute of an instrumented object, explicit point()) the next thread to run is taken from a choice list."""
import threading as _t, sys

RealThread, RealSemaphore = _t.Thread, _t.Semaphore
_allocate = _t._allocate_lock if hasattr(_t, "_allocate_lock") else _t.Lock
CUR = None


class Stuck(Exception):
    pass


class Abort(BaseException):
    pass


class _T(object):
    def __init__(self, fn, i):
        self.fn, self.i, self.done, self.waiting, self.result = fn, i, False, None, None
        self.go = _allocate()
        self.go.acquire()


class Sched(object):
    """run(fns) -> list of ('ok', value) / ('exc', exception) in order."""

    def __init__(self, choices, after=None):
        self.choices, self.pos, self.after = list(choices), 0, after
        self.me, self.ts, self.trace, self.dead = None, [], [], False
        self.back = _allocate()
        self.back.acquire()

    def pick(self, n):
        if n <= 1:
            return 0
        c = self.choices[self.pos] if self.pos < len(self.choices) else 0
        self.pos += 1
        return c % n

    def point(self):
        t = self.me
        if t is None or _cur_ident() != t.ident:
            return
        self.back.release()
        t.go.acquire()
        if self.dead:
            raise Abort()

    def run(self, fns):
        global CUR
        CUR = self
        self.ts = [_T(f, i) for i, f in enumerate(fns)]
        for t in self.ts:
            RealThread(target=self._main, args=(t,), daemon=True).start()
        last, steps = None, 0
        try:
            while True:
                run = [t for t in self.ts if not t.done and (t.waiting is None or t.waiting.free_for(t))]
                if not run:
                    if all(t.done for t in self.ts):
                        break
                    raise Stuck("deadlock: threads %s wait for locks" % [t.i for t in self.ts if not t.done])
                steps += 1
                if steps > 20000:
                    raise Stuck("no end after %d steps" % steps)
                if last in run:          # choice 0: let the current one go on
                    run.remove(last)
                    run.insert(0, last)
                t = run[self.pick(len(run))]
                last = t
                self.me = t
                t.go.release()
                self.back.acquire()
                self.me = None
                if self.after:
                    self.after()
        finally:
            self.dead = True
            for t in self.ts:
                if not t.done:
                    self.me = t
                    t.go.release()
                    self.back.acquire()
            self.me = None
            CUR = None
        return [t.result for t in self.ts]

    def spawn(self, fn):
        """Another thread, started while the schedule runs."""
        t = _T(fn, len(self.ts))
        self.ts.append(t)
        RealThread(target=self._main, args=(t,), daemon=True).start()
        return t

    def _main(self, t):
        t.go.acquire()
        t.ident = _cur_ident()
        try:
            if not self.dead:
                t.result = ("ok", t.fn())
        except Abort:
            pass
        except BaseException as e:
            t.result = ("exc", e)
        t.done = True
        self.back.release()


def _cur_ident():
    return _t.get_ident()


def point():
    if CUR is not None:
        CUR.point()


class SimLock(object):
    reentrant = True

    def __init__(self):
        self.owner, self.depth = None, 0

    def free_for(self, t):
        return self.owner is None or (self.reentrant and self.owner == t.ident)

    def acquire(self, blocking=True, timeout=-1):
        me = _cur_ident()
        s = CUR
        if s is not None and not s.dead and s.me is not None and getattr(s.me, "ident", None) == me:
            s.point()
            while not (self.owner is None or (self.reentrant and self.owner == me)):
                if not blocking:
                    return False
                s.me.waiting = self
                s.point()
                s.me.waiting = None
            s.me.waiting = None
        elif not (self.owner is None or (self.reentrant and self.owner == me)):
            if s is not None and s.dead:
                raise Abort()
            raise Stuck("deadlock on a lock left held")
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner != _cur_ident():
            raise RuntimeError("release of a lock not held")
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == _cur_ident()

    def locked(self):
        return self.owner is not None


class SimPlainLock(SimLock):
    reentrant = False


def instrument(cls, only=None):
    """A subclass whose instance attribute reads and writes are scheduling points."""
    base_get, base_set = cls.__getattribute__, cls.__setattr__

    def __getattribute__(self, name):
        if not name.startswith("__") and name in object.__getattribute__(self, "__dict__"):
            point()
        return base_get(self, name)

    def __setattr__(self, name, v):
        point()
        base_set(self, name, v)
    return type(cls)(cls.__name__, (cls,), {"__getattribute__": __getattribute__, "__setattr__": __setattr__})


class patched_locks(object):
    """While active, threading.RLock/Lock made by the named modules are simulated ones."""

    def __init__(self, *mods):
        self.mods, self.saved = mods, []

    def __enter__(self):
        class Th(object):
            def __getattr__(self, n):
                return {"RLock": SimLock, "Lock": SimPlainLock}.get(n) or getattr(_t, n)
        th = Th()
        for m in self.mods:
            for n, v in list(vars(m).items()):
                new = None
                if v is _t.RLock:
                    new = SimLock
                elif v is _t.Lock:
                    new = SimPlainLock
                elif v is _t:
                    new = th
                if new is not None:
                    self.saved.append((m, n, v))
                    setattr(m, n, new)
        return self

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)
