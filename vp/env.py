"""Contracts assumed of the runtime environment (standard library, operating system, lomond).  Each entry is a trusted
external contract; the ones a run used are listed in its evidence."""
import z3
from .values import *
from . import theory as T
from .interp import EXT, Ex, BUILTINS

NOENV = object()


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


# ------------------------------------------------------------------ logging: no effect on program state
def _log(level):
    def f(ex, ref, args, kw):
        if ex.task.log_hook is not None:
            ex.task.log_hook(ex, level, args, kw)
        return None
    return f


for _n in ("debug", "info", "warning", "error", "critical", "exception", "warn", "log"):
    EXT["logging.Logger." + _n] = _log(_n)
EXT["logging.Logger.isEnabledFor"] = lambda ex, ref, a, k: ex.fresh("logenabled", "bool")


@ext("logging.getLogger")
def _getlogger(ex, args, kw):
    return ex.opaque("logging.Logger")


# ------------------------------------------------------------------ threading
@ext("threading.RLock", "new:threading.RLock")
def _rlock(ex, args, kw):
    return ex.opaque("threading.RLock", depth=0)


@ext("threading.Lock", "new:threading.Lock")
def _lock(ex, args, kw):
    return ex.opaque("threading.Lock", depth=0)


def _acquire(ex, ref, args, kw):
    o = ex.h(ref)
    d = o.fields.get("depth", 0)
    tm = args[1] if len(args) > 1 else kw.get("timeout", -1)
    if args and args[0] is False or kw.get("blocking") is False or not (isinstance(tm, int) and tm == -1):
        if d and o.cls == "threading.Lock" or not d and ex.choose(2, "lock is taken"):
            return False
    elif d and o.cls == "threading.Lock":
        ex.prove(False, "no self-deadlock on a non-reentrant lock")
    o.fields["depth"] = d + 1
    if d == 0 and ex.task.on_acquire is not None:
        ex.task.on_acquire(ex, ref)
    return True


def _release(ex, ref, args, kw):
    o = ex.h(ref)
    d = o.fields.get("depth", 0)
    if not d:
        ex.exc("builtins.RuntimeError", "release unlocked lock")
    if d == 1 and ex.task.on_release is not None:
        ex.task.on_release(ex, ref)
    o.fields["depth"] = d - 1
    return None


EXT["threading.Lock.locked"] = lambda ex, ref, a, k: True if ex.h(ref).fields.get("depth", 0) else bool(ex.choose(2, "lock is taken"))
for _c in ("threading.RLock", "threading.Lock"):
    EXT[_c + ".acquire"] = EXT[_c + ".__enter__"] = _acquire
    EXT[_c + ".release"] = EXT[_c + ".__exit__"] = _release


@ext("threading.Event", "new:threading.Event")
def _event(ex, args, kw):
    return ex.opaque("threading.Event", flag=False)


def _ev_set(v):
    def f(ex, ref, args, kw):
        o = ex.h(ref)
        ex.touch(o)
        o.fields["flag"] = v
    return f


EXT["threading.Event.set"] = _ev_set(True)
EXT["threading.Event.clear"] = _ev_set(False)


@ext("threading.Event.is_set", "threading.Event.isSet")
def _ev_isset(ex, ref, args, kw):
    o = ex.h(ref)
    if o.fields.get("shared"):      # another thread may have changed it
        return ex.fresh("event", "bool")
    ex.touch(o)
    return o.fields["flag"]


@ext("threading.Event.wait")
def _ev_wait(ex, ref, args, kw):
    """True once the flag is set; false (only possible with a timeout) if it is not set at that moment."""
    o = ex.h(ref)
    tm = args[0] if args else kw.get("timeout")
    ex.g["waits"] = ex.g.get("waits", ()) + (tm,)
    if o.fields.get("shared"):
        return ex.fresh("event", "bool") if tm is not None else True
    ex.touch(o)
    f = o.fields["flag"]
    if tm is None:
        ex.assume(f if isinstance(f, bool) else f.t)
        return True
    return f


@ext("threading.Thread.__init__")
def _thread_init(ex, ref, args, kw):
    f = ex.h(ref).fields
    names = ["group", "target", "name", "args", "kwargs"]
    vals = dict(zip(names, args))
    vals.update(kw)
    f["$target"], f["$args"], f["$kwargs"] = vals.get("target"), vals.get("args", ()), vals.get("kwargs")
    f["$thread"] = "created"


@ext("new:threading.Thread")
def _thread_new(ex, args, kw):
    r = ex.new(HInst(ex.w.cls("threading.Thread"), {}))
    _thread_init(ex, r, args, kw)
    return r


@ext("threading.Thread.start")
def _thread_start(ex, ref, args, kw):
    f = ex.h(ref).fields
    if f.get("$thread") != "created":
        ex.exc("builtins.RuntimeError", "thread.__init__() not called or thread started twice")
    if ex.choose(2, "thread start fails"):
        ex.exc("builtins.RuntimeError", "can't start new thread")
    f["$thread"] = "started"
    ex.g["started"] = ex.g.get("started", ()) + (ref,)
    h = ex.g.get("$on_start")
    if h is not None:
        h.f(ex, [ref], {})


def thread_main(ex, ref):
    """What a started thread executes."""
    o = ex.h(ref)
    m = ex.class_attr(o.cls, "run")
    if m is not None:
        return ex.call(ex.bind(m, ref, o.cls), [])
    t = o.fields.get("$target")
    if t is None:
        return None
    kw = {}
    if isinstance(o.fields.get("$kwargs"), Ref):
        kw = dict((a, b) for a, b in ex.dict_items(ex.h(o.fields["$kwargs"])))
    return ex.call(t, ex.unpack(o.fields["$args"], None), kw)


EXT["threading.Thread.is_alive"] = lambda ex, ref, a, k: ex.fresh("alive", "bool")
EXT["threading.Thread.join"] = lambda ex, ref, a, k: None
EXT["threading.Thread.run"] = lambda ex, ref, a, k: thread_main(ex, ref)
EXT["threading.Thread.__repr__"] = lambda ex, ref, a, k: ex.fresh("threadrepr", "str")
EXT["threading.current_thread"] = lambda ex, a, k: ex.opaque("threading.Thread")


# ------------------------------------------------------------------ time
@ext("time.time")
def _time(ex, args, kw):
    return ex.fresh("time", "real")


@ext("time.sleep")
def _sleep(ex, args, kw):
    return None


# ------------------------------------------------------------------ lexical path functions (POSIX)
def txt(ex, v):
    v = ex.expand(v)
    if kind_of(v) not in ("str", "bytes"):
        ex.exc("builtins.TypeError", "expected str, bytes or os.PathLike object")
    return v


@ext("os.path.join")
def _join(ex, args, kw):
    a = txt(ex, args[0])
    k = kind_of(a)
    sep = "/" if k == "str" else b"/"
    for b in args[1:]:
        b = txt(ex, b)
        if kind_of(b) != k:
            ex.exc("builtins.TypeError", "Can't mix strings and bytes in path components")
        if ex.truth(ex.builtin_method(b, "startswith", [sep], {})):
            a = b
        elif is_native(a) and (not a or a.endswith(sep)):
            a = ex.binop("+", a, b)
        elif isinstance(a, S) and ex.branch(z3.Or(z3.Length(a.t) == 0, z3.SuffixOf(zstr("/"), a.t))):
            a = ex.binop("+", a, b)
        else:
            a = ex.binop("+", ex.binop("+", a, sep), b)
    return a


@ext("weakref.ref", "new:weakref.ref", "_weakref.ref")
def _weakref(ex, args, kw):
    v = args[0]
    return HostFn("weakref", lambda ex, a, k: v)


@ext("functools.partial", "new:functools.partial")
def _partial(ex, args, kw):
    return PartialV(args[0], list(args[1:]), dict(kw))


@ext("contextlib.contextmanager")
def _ctxman(ex, args, kw):
    return CtxFunc(args[0])


@ext("sys.stdout.write", "sys.stderr.write")
def _sw(ex, args, kw):
    return None


@ext("math.sqrt")
def _sqrt(ex, args, kw):
    ex.unsupported("sqrt")


@ext("random.choice")
def _rchoice(ex, args, kw):
    v = ex.expand(args[0])
    if isinstance(v, Ref):
        items = ex.unpack(v, None)
        return items[ex.choose(len(items), "random")]
    if isinstance(v, (str, tuple)):
        if len(v) <= 4:
            return v[ex.choose(len(v), "random")]
        c = ex.fresh("random", "str")
        ex.assume(z3.Length(c.t) == 1)
        return c
    ex.unsupported("random.choice")


@ext("random.randint", "random.randrange")
def _randint(ex, args, kw):
    r = ex.fresh("random", "int")
    if len(args) == 2:
        ex.assume(z3.And(r.t >= term(args[0]), r.t <= term(args[1])))
    return r


@ext("random.random")
def _random(ex, args, kw):
    r = ex.fresh("random", "real")
    ex.assume(z3.And(r.t >= 0, r.t < 1))
    return r


# ------------------------------------------------------------------ collections
@ext("collections.deque")
def _deque(ex, args, kw):
    if len(args) > 1 or kw:
        ex.unsupported("bounded deque")
    r = ex.newlist([], "deque")
    if args:
        ex.call(ex.getattr(r, "extend"), [args[0]])
    return r


@ext("collections.OrderedDict")
def _odict(ex, args, kw):
    return BUILTINS["dict"](ex, args, kw)


@ext("collections.defaultdict")
def _ddict(ex, args, kw):
    r = BUILTINS["dict"](ex, args[1:], kw)
    ex.h(r).default = args[0] if args else None
    ex.h(r).typ = "defaultdict"
    return r


# ------------------------------------------------------------------ inspect
def _callable_parts(ex, f):
    if isinstance(f, BoundV):
        return f.func, [f.self_]
    if isinstance(f, FuncV):
        return f, []
    ex.unsupported("inspect of %r" % (f,))


@ext("inspect.getfullargspec", "inspect.getargspec")
def _getfullargspec(ex, args, kw):
    fn, pre = _callable_parts(ex, args[0])
    a = fn.node.args
    names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
    return ex.opaque("inspect.FullArgSpec", args=ex.newlist(names), varargs=a.vararg.arg if a.vararg else None, varkw=a.kwarg.arg if a.kwarg else None,
                     defaults=tuple(ex.world(d) for d in fn.defaults) or None, kwonlyargs=ex.newlist([x.arg for x in a.kwonlyargs]))


@ext("inspect.FullArgSpec.__getitem__")
def _argspec_item(ex, ref, args, kw):
    n = ["args", "varargs", "varkw", "defaults", "kwonlyargs"]
    if not isinstance(args[0], int) or not -7 <= args[0] < 5:
        ex.unsupported("argspec index")
    return ex.h(ref).fields[n[args[0]]]


class _Frame(object):
    def __init__(self):
        self.loc, self.selfv = {}, None


@ext("inspect.getcallargs")
def _getcallargs(ex, args, kw):
    fn, pre = _callable_parts(ex, args[0])
    fr = _Frame()
    ex.bind_args(fn, pre + list(args[1:]), kw, fr)
    return ex.newdict([[k, v] for k, v in fr.loc.items()])
