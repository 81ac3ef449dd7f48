"""C20: scans of made-up trees (with link cycles, failing entries) and of real directories."""
import os, errno, shutil, posixpath
from dataplicity import scan_directory as M

ROOT = os.path.realpath(os.environ.get("VP_SCRATCH", "/nonexistent"))
REAL = os.scandir
FAULTS = ["is_dir", "is_file", "inode", "stat", "scandir"]
EXC = [lambda: OSError(errno.EIO, "io"), lambda: PermissionError(errno.EACCES, "no"), lambda: ValueError("x"), lambda: UnicodeEncodeError("ascii", "x", 0, 1, "odd")]
NAMES = ["a", "b", "c.txt", ".hid", "..x", "d.d", "\u20ac", "e f", "z", ".git", "\udcff", "b~", "~", "a.", "CON", "lost+found", "__pycache__", "node_modules", "-x", "%s", "A"]


def gen(rng, n):
    if n % 5 == 4:
        return {"kind": "real", "items": [[rng.choice(["dir", "dir", "file", "link", "hard", "fifo", "dead"]), rng.choice(["", "a", "a/b", ".h", "c", "a/b/c"]), rng.choice(["a", "b", "c", ".h", "x", "x.txt"]), rng.choice(["..", ".", "a", "../a", "x", "none"])] for _ in range(rng.randrange(12))],
                "sizes": rng.random() < 0.5, "max_depth": rng.choice([None, 10, 10, 1, 2, 3, 0, -1])}
    # nodes 0..k-1: directories as lists of [name, kind, target or size, faults]; links make cycles
    k = rng.choice([1, 2, 3, 4, 6])
    nodes = []
    for i in range(k):
        es, used = [], set()
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            nm = rng.choice(NAMES)
            if nm in used:
                continue
            used.add(nm)
            kind = rng.choice(["dir", "dir", "file", "file", "none"])
            fl = [rng.choice(FAULTS)] if rng.random() < 0.15 else []
            es.append([nm, kind, rng.randrange(k) if kind == "dir" else rng.choice([0, 1, 5000000000]), fl, rng.randrange(4)])
        nodes.append(es)
    return {"kind": "fake", "nodes": nodes, "sizes": rng.random() < 0.5, "max_depth": rng.choice([None, None, 10, 10, 1, 2, 2, 3, 0, -1]), "rootfail": rng.random() < 0.04, "own": rng.random() < 0.5, "root": rng.choice(["@/r", "@/r", "@/r/", "@/r/../r"]), "dup": rng.random() < 0.2}


def smaller(c):
    if c["kind"] == "real":
        for i in range(len(c["items"])):
            yield dict(c, items=c["items"][:i] + c["items"][i + 1:])
        return
    for i, es in enumerate(c["nodes"]):
        for j, e in enumerate(es):
            ns = [list(x) for x in c["nodes"]]
            del ns[i][j]
            yield dict(c, nodes=ns)
            if e[3]:
                ns = [list(x) for x in c["nodes"]]
                ns[i][j] = e[:3] + [[]] + e[4:]
                yield dict(c, nodes=ns)


class Entry(object):
    def __init__(self, path, e, ino):
        self.path, self.name, self._e, self._ino = path, e[0], e, ino

    def _f(self, what):
        if what in self._e[3]:
            raise EXC[self._e[4]]()

    def is_dir(self, follow_symlinks=True):
        self._f("is_dir")
        return self._e[1] == "dir"

    def is_file(self, follow_symlinks=True):
        self._f("is_file")
        return self._e[1] == "file"

    def is_symlink(self):
        return False

    def inode(self):
        self._f("inode")
        return self._ino

    def stat(self, follow_symlinks=True):
        self._f("stat")

        class St(object):
            st_size, st_ino, st_dev = (self._e[2] if self._e[1] == "file" else 4096), self._ino, 7
            st_mode = 0o40755 if self._e[1] == "dir" else 0o100644
        return St()


class Iter(object):
    def __init__(self, es):
        self.it = iter(es)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    next = __next__

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def patch(f):
    saved = [(os, "scandir", os.scandir)]
    for n, v in list(vars(M).items()):
        if v is REAL:
            saved.append((M, n, v))
    for o, n, v in saved:
        setattr(o, n, f)
    return lambda: [setattr(o, n, v) for o, n, v in saved]


def judge(res, root, entered, listing, sizes, max_depth):
    """entered: [relative path, entries or None]; entries: [name, kind, size, inode or None, how is_dir/is_file/stat answer]."""
    if set(res) != {"root", "time", "directories"}:
        return "the result has %s" % sorted(res)
    if res["root"] != root:
        return "root is %r" % res["root"]
    D = res["directories"]
    paths = [p for p, es in entered]
    for p in paths:
        if paths.count(p) > 1:
            return "%r is entered twice" % p
        if any(x.startswith(".") for x in p.split("/")):
            return "hidden %r is entered" % p
        if p and max_depth is not None and len(p.split("/")) + 1 > max_depth:
            return "%r is entered with limit %r" % (p, max_depth)
    ok = {p: es for p, es in entered if es is not None}
    if set(D) != set(ok):
        return "directories listed: %s, entered: %s" % (sorted(D), sorted(ok))
    inodes, owed = [], {}
    for p, es in ok.items():
        r = D[p]
        if set(r) - {"files", "dirs"}:
            return "%r has %s" % (p, sorted(r))
        files, dirs = [tuple(x) for x in r.get("files", [])], list(r.get("dirs", []))
        want = sorted((n, z if sizes and z is not None else -1) for n, k, z, i in es if k == "file" and not n.startswith("."))
        if sorted(files) != want:
            return "files of %r: %s instead of %s" % (p, sorted(files), want)
        deep = max_depth is not None and (len(p.split("/")) if p else 0) + 2 > max_depth
        can = {} if deep else {n: i for n, k, z, i in es if k == "dir" and i is not None and not n.startswith(".")}
        for n in dirs:
            if dirs.count(n) > 1:
                return "%r is listed twice in %r" % (n, p)
            if n not in can:
                return "%r is listed as a directory in %r" % (n, p)
            inodes.append(can[n])
            q = p + "/" + n if p else n
            if q not in paths:
                return "%r is listed but not entered" % q
        for n, i in can.items():
            owed[i] = (p, n)
    for i in inodes:
        if inodes.count(i) > 1:
            return "a directory is listed twice (inode %d)" % i
    for i, (p, n) in owed.items():
        if i not in inodes:
            return "directory %r in %r is not listed" % (n, p)
    for p in paths:
        if p:
            h, n = posixpath.split(p)
            if n not in D.get(h, {}).get("dirs", []):
                return "%r is entered but not listed" % p


def ask(f):
    try:
        return f()
    except OSError:
        return None


def check(c):
    top = os.path.join(ROOT, "w")
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top + "/r")
    root = top + "/r"
    entered = []
    kw = {"file_sizes": c["sizes"], "max_depth": c["max_depth"]}
    if c["kind"] == "fake":
        at = {"": 0}

        def scandir(path="."):
            p = os.path.normpath(path)
            if p != root and not p.startswith(root + "/"):
                raise AssertionError("outside the tree: %r" % path)
            rel = "" if p == root else p[len(root) + 1:]
            if rel not in at:
                entered.append([rel, None])
                raise FileNotFoundError(errno.ENOENT, path)
            node, fail = at[rel] if isinstance(at[rel], tuple) else (at[rel], c["rootfail"])
            if fail is not False and fail is not None:
                entered.append([rel, None])
                raise EXC[0 if fail is True else fail]()
            es, out = [], []
            for j, e in enumerate(c["nodes"][node]):
                ino = e[2] + 100 if e[1] == "dir" else 1000 + node * 50 + j
                if c["own"] and e[1] == "dir":
                    ino = 1000 + node * 50 + j      # each entry its own inode (what scandir tells about symbolic links)
                if c["dup"]:
                    ino = ino % 3
                d = Entry(os.path.join(path, e[0]), e, ino)
                out.append(d)
                f = e[3]
                k = "dir" if e[1] == "dir" and "is_dir" not in f else "file" if e[1] == "file" and "is_file" not in f else "none"
                es.append([e[0], k, e[2] if "stat" not in f else None, None if "inode" in f else ino])
                at[rel + "/" + e[0] if rel else e[0]] = (e[2], e[4] if "scandir" in f else False) if e[1] == "dir" else (0, 0)
            entered.append([rel, es])
            if len(entered) > 3000:
                raise AssertionError("does not end")
            return Iter(out)
        undo = patch(scandir)
        try:
            res = M.scan_directory(c["root"].replace("@", top), **kw)
        except AssertionError as e:
            return str(e)
        except Exception as e:
            return "the scan fails with %r" % e
        finally:
            undo()
    else:
        for k, d, n, t in c["items"]:
            dd = os.path.join(root, d)
            p = os.path.join(dd, n)
            try:
                os.makedirs(dd, exist_ok=True)
                if k == "dir":
                    os.mkdir(p)
                elif k == "file":
                    with open(p, "xb") as f:
                        f.write(b"x" * len(d))
                elif k == "hard":
                    os.link(os.path.join(root, t), p)
                elif k == "fifo":
                    os.mkfifo(p)
                else:
                    os.symlink(t if k == "link" else "/nonexistent", p)
            except OSError:
                pass

        def scandir(path="."):
            p = os.path.normpath(path)
            rel = "" if p == root else p[len(root) + 1:]
            try:
                out = list(REAL(path))
            except OSError:
                entered.append([rel, None])
                raise
            es = []
            for d in out:
                es.append([d.name, ask(d.is_dir) and "dir" or ask(d.is_file) and "file" or "none", ask(lambda: d.stat().st_size) if ask(d.is_file) else None, ask(d.inode)])
            entered.append([rel, es])
            return Iter(out)
        undo = patch(scandir)
        try:
            res = M.scan_directory(root, **kw)
        except Exception as e:
            return "the scan fails with %r" % e
        finally:
            undo()
    return judge(res, root, entered, None, c["sizes"], c["max_depth"])
