"""Rely/guarantee reasoning at lock granularity.  A monitor owns some shared state (fields of one object and the contents
of containers they hold).  While its lock is held the state is private; every time the lock is taken, and at every single
access made without the lock, the other threads may first have changed the state to anything its invariant and the rely
condition allow.  State that some operation of the group changes without the lock is not protected by it ("racy").  Each maximal stretch without such a point is an atomic step; `step(ex, before, after)` states the
guarantee of every step and accumulates ghost effects."""

from .values import *


class Monitor(object):
    def __init__(self, ex, owner, lock, fields, state, havoc, step, containers=()):
        """lock: Ref or None (nothing is ever protected); fields: guarded field names; state(ex) -> snapshot;
        havoc(ex): arbitrary state allowed by the invariant; step(ex, before, after)."""
        self.owner, self.lock, self.fields = owner, lock, set(fields)
        self.state, self.havoc, self.step = state, havoc, step
        self.pending = None
        self.quiet = 0
        self.containers, self.free = containers, None
        # shared state some operation changes without the lock: the lock does not protect it
        self.racy = set(n[5:] for n in ex.task.volatile if n.startswith("racy:"))
        for c in containers:
            ex.h(c).guard = self
        self.vol = sorted(n for n in ex.task.volatile if n in ex.h(owner).fields)
        self.fields |= set(self.vol)
        self.kinds = {n: kind_of(ex.h(owner).fields[n]) for n in self.vol}
        for n, k in self.kinds.items():
            if k not in ("int", "bool", "str", "bytes", "real"):
                ex.unsupported("shared field %s of kind %s is changed" % (n, k))
        ex.monitors.append(self)
        ex.task.read_hook, ex.task.write_hook = read_hook, write_hook
        ex.task.on_acquire, ex.task.on_release = on_acquire, on_release

    def held(self, ex):
        return self.lock is not None and "*" not in self.racy and self.locked(ex)

    def locked(self, ex):
        return self.lock is not None and ex.h(self.lock).fields.get("depth", 0) > 0

    def interfere(self, ex):
        self.settle(ex)
        self.quiet += 1
        try:
            self.havoc(ex)
            for n, k in self.kinds.items():      # changed by some operation: may hold anything
                ex.h(self.owner).fields[n] = ex.fresh(n, k)
            self.pending = (self.state(ex),)
            self.free = None if self.lock is None or self.locked(ex) else self.contents(ex)
        finally:
            self.quiet -= 1

    def settle(self, ex):
        if self.pending is not None:
            p, self.pending = self.pending, None
            self.quiet += 1
            try:
                if self.free is not None and "*" not in self.racy and self.contents(ex) != self.free:
                    unprotected(ex, "*")
                self.step(ex, p[0], self.state(ex))
            finally:
                self.quiet -= 1

    def contents(self, ex):
        out = []
        for c in self.containers:
            o = ex.h(c)
            out.append(repr(o.fields) if isinstance(o, HOpq) else (tuple(map(repr, o.items)) if o.items is not None else o.seq.sexpr()) if isinstance(o, HList) else repr(ex.heap[c.oid].__dict__))
        return out

    def access(self, ex, name=None):
        if self.quiet:
            return
        if not self.held(ex):
            self.interfere(ex)
        elif name in self.racy:
            self.refresh(ex, name)

    def refresh(self, ex, name):
        """A field that others change without the lock is used while holding it."""
        self.interfere(ex)


def unprotected(ex, name):
    """Something is changed without holding the lock: start over, not relying on the lock for it."""
    ex.task.volatile.add("racy:" + name)
    raise Restart(())


def settle(ex):
    for m in ex.monitors:
        m.settle(ex)


def on_acquire(ex, ref):
    for m in ex.monitors:
        if m.lock == ref:
            m.interfere(ex)


def on_release(ex, ref):
    for m in ex.monitors:
        if m.lock == ref:
            m.settle(ex)


def read_hook(ex, ref, o, name, r):
    for m in ex.monitors:
        if m.owner == ref and name in m.fields:
            m.access(ex, name)
            return o.fields[name]
    return r


def write_hook(ex, ref, o, name, val):
    for m in ex.monitors:
        if m.owner != ref:
            continue
        if name in m.fields:
            if not m.quiet and m.lock is not None and not m.locked(ex) and not m.racy & {name, "*"}:
                unprotected(ex, name)
            m.access(ex, name)
        elif not m.quiet and name in o.fields:
            ex.task.volatile.add(name)           # not constant after all: start over with an arbitrary value
            raise Restart(())
