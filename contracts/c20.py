"""C20: a directory scan lists exactly what is visible, once, within its depth limit.

The loop of scan_directory runs over an arbitrary tree: what it keeps (the stack of directories being read, the identities
seen, the listing made so far) is abstract at the loop head, and one iteration - what it does for one arbitrary entry of an
arbitrary directory at an arbitrary depth - is checked against the listing that entry requires."""
from .common import *

SD = "dataplicity.scan_directory"


def may_fail(ex, what):
    if ex.choose(2, what + " fails"):
        ex.anyexc(what)


def entails(ex, c):
    return ex.eng.entails(ex, z3.simplify(c), 3000)


# ------------------------------------------------------------------ paths
def child(ex, P, name):
    """Relative path of an entry."""
    return name if entails(ex, P == zstr("")) else T.cat(P, zstr("/"), name)


def full(ex, rel):
    """Path of a directory given its relative path; the root itself may be written with a trailing slash."""
    r = ex.g["root"]
    if entails(ex, rel == zstr("")):
        return [r] if ex.g["isroot"] else [r, T.cat(r, zstr("/"))]
    return [T.cat(r, rel)] if ex.g["isroot"] else [T.cat(r, zstr("/"), rel)]


# ------------------------------------------------------------------ the stack of directories being read
class Stk(object):
    """An arbitrary stack: element i belongs to a directory at depth i, with its path, its iterator (and constants + i)."""
    def __init__(self, ex, template):
        n = ex.names.get("$stk", 0)
        ex.names["$stk"] = n + 1
        self.base, self.template = z3.Int("stack!%d" % n), template
        ex.assume(self.base >= 0)
        self.memo, self.above, self.popped = {}, (), 0

    def but(self, **k):
        s = Stk.__new__(Stk)
        s.__dict__.update(self.__dict__)
        s.__dict__.update(k)
        return s

    def len(self):
        return z3.simplify(self.base - self.popped + len(self.above))


def template_of(ex, items):
    if not all(isinstance(x, tuple) for x in items):
        return None
    for x in items:
        out = []
        for v in x:
            if kind_of(v) == "str":
                out.append("path")
            elif isinstance(v, Ref) and ex.clsname_of(v) == "$iter":
                out.append("iter")
            elif kind_of(v) == "int" and isinstance(v, int):
                out.append(v)
            else:
                return None
        return tuple(out)
    return ()


def stk_havoc(ex, ref, o):
    s = o.src[1] if o.src is not None and o.src[0] == "stack" else None
    if s is None:
        if o.items is None:
            return False
        t = template_of(ex, o.items)
        if t is None:
            return False
        if t == ():
            t = ex.task.__dict__.get("template", ("path", "iter"))
        else:
            ex.task.template = t
            for i, x in enumerate(o.items):
                on_stack(ex, x, t, z3.IntVal(i))
        s = Stk(ex, t)
    o.items, o.seq, o.ekind, o.src = None, None, "refs", ("stack", Stk(ex, s.template))
    ex.g["stack_oid"] = ref.oid
    return True


def on_stack(ex, x, t, i):
    """A new element fits the stack: an entered directory at its depth."""
    x = ex.expand(x)
    it = [v for v in x if isinstance(v, Ref) and ex.clsname_of(v) == "$iter"] if isinstance(x, tuple) and len(x) == len(t) else []
    if len(it) != 1:
        ex.unsupported("unknown kind of stack element")
    f = ex.h(it[0]).fields
    for v, k in zip(x, t):
        if k == "path":
            ex.prove(kind_of(v) == "str" and term(v) == f["rel"], "a directory on the stack is kept with its path")
        elif k != "iter":
            ex.prove(kind_of(v) == "int" and I(term(v)) == k + i, "a directory on the stack is kept with its depth")
    ex.prove(f["depth"] == i, "a directory on the stack is at the depth of its position")


def element(ex, s):
    if s.above:
        return s.above[-1]
    if not ex.branch(s.base > s.popped):
        ex.exc("builtins.IndexError", "list index out of range")
    if s.popped not in s.memo:
        i = z3.simplify(s.base - 1 - s.popped)
        if ex.branch(i == 0):
            P = zstr("")
        else:
            P = ex.fresh("dir", "str").t
            ex.assume(z3.And(P != zstr(""), z3.Not(z3.PrefixOf(zstr("/"), P)), z3.Not(z3.SuffixOf(zstr("/"), P))))
        it = ex.opaque("$iter", rel=P, depth=i, done=False)
        s.memo[s.popped] = tuple(mk("str", P) if k == "path" else it if k == "iter" else mk("int", z3.simplify(k + i)) for k in s.template)
        ex.g["paths"] = ex.g["paths"] + (P,)
    return s.memo[s.popped]


def list_get(ex, ref, o, i):
    if o.src is None or o.src[0] != "stack" or i != -1:
        ex.unsupported("element of a list unknown after a loop")
    return element(ex, o.src[1])


def list_len(ex, ref, o):
    if o.src is not None and o.src[0] == "stack":
        return mk("int", o.src[1].len())
    ex.unsupported("length of a list unknown after a loop")


def list_method(ex, ref, o, name, a, k):
    if o.src is not None and o.src[0] == "names" and name == "append":
        o.src = ("names", o.src[1], o.src[2] + (a[0],))
        return None
    if o.src is None or o.src[0] != "stack":
        ex.unsupported("list unknown after a loop")
    s = o.src[1]
    if name == "append":
        on_stack(ex, a[0], s.template, s.len())
        o.src = ("stack", s.but(above=s.above + (ex.expand(a[0]),)))
        return None
    if name == "pop" and (not a or a[0] == -1):
        x = element(ex, s)
        it = [v for v in x if isinstance(v, Ref) and ex.clsname_of(v) == "$iter"][0]
        ex.prove(ex.h(it).fields["done"] is True, "a directory is left only when all its entries were seen")
        o.src = ("stack", s.but(above=s.above[:-1]) if s.above else s.but(popped=s.popped + 1))
        return x
    ex.unsupported("stack method " + name)


# ------------------------------------------------------------------ the listing
class DirMap(object):
    """The listing made so far: it has the directories on the stack, and none not yet entered."""
    keykind = "str"

    def __init__(self, ex):
        n = ex.names.get("$dirmap", 0)
        ex.names["$dirmap"] = n + 1
        self.n, self.memo = n, []
        self.f = z3.Function("listed!%d" % n, z3.StringSort(), z3.BoolSort())

    def key(self):
        return ("dirmap", self.n)

    def has(self, ex, k):
        k = ex.expand(k)
        if kind_of(k) != "str":
            return False
        t = term(k)
        if any(entails(ex, t == P) for P in ex.g["paths"]):
            return True
        c = ex.g["cur"]
        if c is not None:
            f = ex.h(c).fields
            if entails(ex, t == child(ex, f["P"], f["nm"])):
                return False      # every path is met once: names in a directory are distinct, directories are read once
        return self.f(t)

    def get(self, ex, k):
        t = term(ex.expand(k))
        for q, r in self.memo:
            if entails(ex, q == t):
                return r
        r = ex.newdict(base=RecMap(ex))
        self.memo.append((t, r))
        return r

    def length(self, ex=None):
        return z3.Int("dirs!%d" % self.n)

    def loop(self, ex, *a):
        ex.unsupported("iteration over the listing")


class RecMap(object):
    """What is listed under one directory so far."""
    keykind = "str"

    def __init__(self, ex):
        n = ex.names.get("$recmap", 0)
        ex.names["$recmap"] = n + 1
        self.n, self.memo = n, {}

    def key(self):
        return ("recmap", self.n)

    def has(self, ex, k):
        if k not in ("dirs", "files"):
            ex.prove(False, "only files and dirs are listed")
            raise PathEnd()
        return z3.Bool("has %s!%d" % (k, self.n))

    def get(self, ex, k):
        if k not in self.memo:
            l = ex.newlist([])
            o = ex.h(l)
            o.items, o.seq, o.ekind, o.src = None, None, "refs", ("names", k, ())
            self.memo[k] = l
        return self.memo[k]

    def length(self, ex=None):
        return z3.Int("reclen!%d" % self.n)

    def loop(self, ex, *a):
        ex.unsupported("iteration over a listing")


def dict_havoc(ex, ref, o):
    if not isinstance(o.base, DirMap):
        if not all(isinstance(k, str) and k == "" for k, v in o.entries) or o.base is not None:
            return False
        if o.entries:
            ex.task.dirs_oid = ref.oid
        elif ex.task.__dict__.get("dirs_oid") != ref.oid:
            return False
        # before the first iteration: the root, if it could be entered
        ok = [it for p, it in ex.g["rootscans"] if it is not None]
        ex.prove(len(o.entries) == len(ok) and all(empty(ex, v) for k, v in o.entries), "a directory is part of the listing exactly when it could be entered")
    o.entries, o.base = [], DirMap(ex)
    ex.g["listing_oid"] = ref.oid
    return True


def empty(ex, v):
    return isinstance(v, Ref) and isinstance(ex.h(v), HDict) and ex.h(v).base is None and not ex.h(v).entries


# ------------------------------------------------------------------ identities seen
class IdSet(object):
    """An arbitrary set; `added`: what was added since the loop head."""
    def __init__(self, ex):
        n = ex.names.get("$idset", 0)
        ex.names["$idset"] = n + 1
        self.f, self.added = z3.Function("seen!%d" % n, Py, z3.BoolSort()), ()

    def has(self, ex, x):
        x = ex.to_py(x)
        return z3.Or(self.f(x), *[x == y for y in self.added])


def set_havoc(ex, ref, o):
    if o.items is not None:
        ex.prove(o.items == [], "no directory is taken as seen at the start")
    o.items, o.seq = None, IdSet(ex)
    ex.g["seen_oid"] = ref.oid
    return True


def set_method(ex, ref, o, name, a, k):
    if name != "add" or not isinstance(o.seq, IdSet):
        ex.unsupported("set method " + name)
    s = IdSet.__new__(IdSet)
    s.f, s.added = o.seq.f, o.seq.added + (ex.to_py(a[0]),)
    o.seq = s


# ------------------------------------------------------------------ the file system
def environment(ex):
    e, g = ex.task.ext, ex.g
    isroot = bool(ex.choose(2, "the root directory of the system"))
    R = zstr("/") if isroot else ex.fresh("root", "str").t
    if not isroot:
        ex.assume(z3.And(z3.PrefixOf(zstr("/"), R), z3.Not(z3.SuffixOf(zstr("/"), R))))
    g.update(root=R, isroot=isroot, cur=None, scans=(), rootscans=(), paths=(), stack_oid=None, listing_oid=None, seen_oid=None)
    for n in ("cur", "stack_oid", "listing_oid", "seen_oid"):
        ex.task.ghost_havoc[n] = (lambda n: lambda ex: None if n == "cur" else ex.g[n])(n)
    ex.task.ghost_havoc["scans"] = ex.task.ghost_havoc["paths"] = lambda ex: ()
    e["os.path.expanduser"] = lambda ex, a, k: ex.fresh("expanded", "str")
    e["os.path.abspath"] = e["os.path.realpath"] = lambda ex, a, k: mk("str", R)
    e["os.path.isdir"] = lambda ex, a, k: bool(ex.choose(2, "is a directory"))

    def scandir(ex, a, k):
        p = ex.expand(a[0] if a else k["path"])
        if kind_of(p) != "str":
            ex.unsupported("scandir of no text")
        p = term(p)
        c = ex.g["cur"]
        if c is None:
            ex.prove(ex.g["rootscans"] == () and disj_([p == q for q in full(ex, zstr(""))]), "only the root and directories met are entered")
            rel, depth = zstr(""), z3.IntVal(0)
        else:
            f = ex.h(c).fields
            rel = child(ex, f["P"], f["nm"])
            depth = z3.simplify(f["depth"] + 1)
            ex.prove(disj_([p == q for q in full(ex, rel)]), "only the root and directories met are entered")
            ex.prove(wanted(ex, c), "no hidden, too deep or already entered directory is entered")
            ex.prove(ex.g["scans"] == (), "no directory is entered twice")
        try:
            may_fail(ex, "scandir")
            it = ex.opaque("$iter", rel=z3.simplify(rel), depth=depth, done=False)
        except PyExc:
            note(ex, c, (rel, None))
            raise
        note(ex, c, (rel, it))
        ex.eng.reach(ex, "entered")
        return it

    def note(ex, c, x):
        n = "rootscans" if c is None else "scans"
        ex.g[n] = ex.g[n] + (x,)
    e["os.scandir"] = e["posix.scandir"] = e["nt.scandir"] = scandir

    def nxt(ex, ref, a, k):
        settle(ex)
        f = ex.h(ref).fields
        w = ex.choose(3, "next entry")
        if w == 0:
            f["done"] = True
            ex.exc("builtins.StopIteration")
        if w == 1:
            f["done"] = True
            ex.exc("builtins.OSError", "reading the directory fails")
        name = ex.fresh("name", "str")
        ex.assume(z3.And(name.t != zstr(""), z3.Not(z3.Contains(name.t, zstr("/")))))
        c = ex.opaque("$entry", P=f["rel"], depth=f["depth"], nm=name.t, memo=())
        ex.g["cur"] = c
        return c
    e["$iter.__next__"] = nxt
    e["$iter.__iter__"] = e["$iter.__enter__"] = lambda ex, ref, a, k: ref
    e["$iter.__exit__"] = e["$iter.close"] = lambda ex, ref, a, k: None
    e["$entry.get:name"] = lambda ex, ref, a, k: mk("str", ex.h(ref).fields["nm"])
    e["$entry.get:path"] = lambda ex, ref, a, k: mk("str", full(ex, child(ex, ex.h(ref).fields["P"], ex.h(ref).fields["nm"]))[0])

    def ask(what):
        def f(ex, ref, a, k):
            v = answer(ex, ref, what, k.get("follow_symlinks", True) is True and not a)
            if v == "fails":
                ex.anyexc(what)
            return v
        return f
    for n in ("is_dir", "is_file", "is_symlink", "inode", "stat"):
        e["$entry." + n] = ask(n)


def answer(ex, ref, what, follow=True):
    """What the entry answers (decided once)."""
    f = ex.h(ref).fields
    for w, v in f["memo"]:
        if w == (what, follow):
            return v
    if what in ("is_dir", "is_file", "is_symlink"):
        v = ("fails", False, True)[ex.choose(3, what)]
        if what == "is_file" and v is True and answer(ex, ref, "is_dir", follow) is True:
            raise PathEnd()      # nothing is both
    elif ex.choose(2, what + " fails"):
        v = "fails"
    elif what == "inode":
        v = ex.fresh("inode", "int")
    else:
        v = ex.opaque("os.stat_result", st_size=ex.fresh("size", "int"), st_ino=ex.fresh("st_ino", "int"), st_dev=ex.fresh("st_dev", "int"), st_mode=ex.fresh("st_mode", "int"))
    f["memo"] = f["memo"] + (((what, follow), v),)
    return v


def disj_(cs):
    return z3.Or(*cs) if cs else z3.BoolVal(False)


def too_deep(ex, f):
    m = ex.g["max_depth"]
    return z3.BoolVal(False) if m is None else f["depth"] + 1 >= m.t


def seen(ex):
    """The set of identities of the directories listed before this iteration."""
    if ex.g["seen_oid"] is None:
        return None
    return ex.h(Ref(ex.g["seen_oid"])).seq


def wanted(ex, c):
    """The entry is a directory to be listed and entered."""
    f = ex.h(c).fields
    if ex.branch(z3.PrefixOf(zstr("."), f["nm"])) or answer(ex, c, "is_dir") is not True or ex.branch(too_deep(ex, f)):
        return False
    i = answer(ex, c, "inode")
    if i == "fails":
        return False
    s = seen(ex)
    if s is None:
        return True      # a pass over the loop before its state is abstract, or nothing is ever remembered (settle)
    return not ex.branch(s.f(ex.to_py(i)))


def settle(ex):
    """What was done for the entry met last is what it requires."""
    g = ex.g
    c = g["cur"]
    if g["listing_oid"] is None:
        g["cur"] = None
        return
    o = ex.h(Ref(g["listing_oid"]))
    if not isinstance(o.base, DirMap):
        ex.prove(False, "what is listed stays listed")
        raise PathEnd()
    adds = []
    for q, r in o.base.memo:
        adds += [(q,) + x for x in added(ex, ex.h(r))]
    new = list(o.entries)
    if c is None:
        ex.prove(new == [] and adds == [] and not pushed(ex), "what is listed stays listed, nothing is listed without an entry")
        return
    f = ex.h(c).fields
    want = wanted(ex, c)
    s = seen(ex)
    if want:
        i = ex.to_py(answer(ex, c, "inode"))
        ok = len(adds) == 1 and adds[0][1] == "dirs" and kind_of(adds[0][2]) == "str"
        ex.prove(ok and z3.And(adds[0][0] == f["P"], term(adds[0][2]) == f["nm"]), "a visible directory within the limit not met before is listed, once")
        ex.prove(len(g["scans"]) == 1, "a directory listed is entered")
        ex.prove(s is not None and len(s.added) >= 1 and z3.And(*[x == i for x in s.added]), "a directory listed is remembered")
        if len(g["scans"]) == 1:
            rel, it = g["scans"][0]
            if it is None:
                ex.prove(new == [], "a directory is part of the listing exactly when it could be entered")
                ex.prove(not pushed(ex), "only directories entered are read")
            else:
                ex.prove(len(new) == 1 and empty(ex, new[0][1]) and kind_of(new[0][0]) == "str" and term(new[0][0]) == rel, "a directory is part of the listing exactly when it could be entered")
                p = pushed(ex)
                ex.prove(len(p) == 1 and it in p[0], "a directory entered is read")
        ex.eng.reach(ex, "directory")
        return
    ex.prove(new == [] and g["scans"] == () and not pushed(ex), "no hidden, too deep or already entered directory is entered")
    ex.prove(s is None or s.added == (), "only directories listed are remembered")
    hidden = ex.branch(z3.PrefixOf(zstr("."), f["nm"]))
    if not hidden and answer(ex, c, "is_dir") is not True and answer(ex, c, "is_file") is True:
        ok = len(adds) == 1 and adds[0][1] == "files"
        x = ex.expand(adds[0][2]) if ok else None
        ok = ok and isinstance(x, tuple) and len(x) == 2 and kind_of(x[0]) == "str" and kind_of(x[1]) == "int"
        ex.prove(ok and z3.And(adds[0][0] == f["P"], term(x[0]) == f["nm"]), "a visible file is listed, once")
        if ok:
            st = answer(ex, c, "stat") if ex.truth(g["sizes"]) else "fails"
            ex.prove(I(term(x[1])) == (-1 if st == "fails" else term(ex.h(st).fields["st_size"])), "a file is listed with its size, or -1")
            ex.eng.reach(ex, "file")
        return
    ex.prove(adds == [], "nothing but visible files and directories not met before is listed")
    ex.eng.reach(ex, "hidden" if hidden else "skipped")


def added(ex, r):
    out = []
    for k in ("dirs", "files"):
        base = r.base.memo.get(k)
        vs = [v for q, v in r.entries if q == k]
        if base is not None:
            out += [(k, x) for x in ex.h(base).src[2]]
        for v in vs:
            if base is not None and isinstance(v, Ref) and v.oid == base.oid:
                continue
            if base is not None or len(vs) > 1 or ex.branch(r.base.has(ex, k)):
                ex.prove(False, "what is listed stays listed")
                raise PathEnd()
            o = ex.h(v) if isinstance(v, Ref) else None
            if not isinstance(o, HList) or o.items is None:
                ex.prove(False, "listings are lists")
                raise PathEnd()
            out += [(k, x) for x in o.items]
    if any(q not in ("dirs", "files") for q, v in r.entries):
        ex.prove(False, "only files and dirs are listed")
        raise PathEnd()
    return out


def pushed(ex):
    if ex.g["stack_oid"] is None:
        return ()
    return ex.h(Ref(ex.g["stack_oid"])).src[1].above


def t_scan(ex):
    environment(ex)
    g, t = ex.g, ex.task
    t.list_refs = True
    t.list_havoc, t.list_get, t.list_len, t.list_method = stk_havoc, list_get, list_len, list_method
    t.dict_havoc, t.set_havoc, t.set_method = dict_havoc, set_havoc, set_method
    t.on_backedge = lambda ex, lv: settle(ex)
    g["sizes"] = ex.fresh("file_sizes", "bool")
    g["max_depth"] = ex.fresh("max_depth", "int") if ex.choose(2, "limited") else None
    k, v = outcome(ex, lambda: ex.call(ex.w.func(SD + ":scan_directory"), [ex.fresh("given path", "str")], {"file_sizes": g["sizes"], "max_depth": g["max_depth"]}))
    settle(ex)
    if k == "exc":
        ex.prove(v.clsname in (SD + ".ScanDirectoryError", "builtins.OSError"), "the scan fails only when the root is no directory or a directory cannot be read on")
        return
    ok = isinstance(v, Ref) and isinstance(ex.h(v), HDict) and ex.h(v).base is None
    d = dict((a, b) for a, b in ex.h(v).entries) if ok else {}
    ex.prove(ok and set(d) == {"root", "time", "directories"}, "the result has root, time and directories")
    if not ok or set(d) != {"root", "time", "directories"}:
        return
    ex.prove(isval(ex, d["root"], mk("str", g["root"])), "the root listed is the absolute path of the directory")
    L = d["directories"]
    if g["listing_oid"] is None:
        ok = [it for p, it in g["rootscans"] if it is not None]
        ex.prove(isinstance(L, Ref) and isinstance(ex.h(L), HDict) and ex.h(L).base is None and len(ex.h(L).entries) == len(ok) and all(q == "" and empty(ex, r) for q, r in ex.h(L).entries), "nothing but an empty root is listed if nothing was found")
        return
    ex.prove(isinstance(L, Ref) and L.oid == g["listing_oid"], "the result is the listing made")
    ex.prove(len(g["rootscans"]) == 1, "the root is entered once")
    if g["stack_oid"] is not None:
        ex.prove(ex.h(Ref(g["stack_oid"])).src[1].len() == 0, "the scan ends only when every directory entered was read to its end")
    ex.eng.reach(ex, "result")


def tasks(w):
    return [Task("scan", t_scan, SD + ":scan_directory", must_reach=["result", "entered", "directory", "file", "hidden", "skipped"],
                 requires="any directory tree and depth limit; every call on an entry, and entering any directory, may fail",
                 ensures=["each visible file, and each visible directory within the limit not met before, is listed once under its directory", "nothing else is listed or entered", "every directory entered is read to its end"])]


ASSUMPTIONS = ["a directory is identified by the inode number its entry reports", "reading a directory yields each of its entries once, names have no slash", "no path is both file and directory",
               "if reading on in a directory fails (the iterator itself), the scan as a whole may fail", "termination: the tree is finite (each directory entry with a new inode is entered once)"]
