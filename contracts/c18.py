"""C18: remote writes stay in the download area and never overwrite a file."""
from .rd import *


def t_write(ex):
    rd, client = setup(ex, "write", root=False)
    f = lambda n, k: ex.fresh(n, k)
    path, dev, id, off, data, fin = f("path", "bytes"), f("device_path", "bytes"), f("id", "bytes"), f("offset", "int"), f("data", "bytes"), f("final", "int")
    ex.g.update(path=path, wanted=None)
    request(ex, client, "write_remote_file", id, path, dev, off, data, fin)
    if ex.g["moved"]:
        ex.eng.reach(ex, "moved")
    if ex.g["wfail"] is True:
        ex.eng.reach(ex, "write failed")


def t_copy(ex):
    rd, client = setup(ex, "copy", tmp=False)
    g = ex.g
    g["path"] = path = ex.fresh("path", "bytes")
    g["wanted"] = wanted_parts(ex)
    name = ex.fresh("name", "str")
    ex.assume(name_ok(name.t))
    src = mk("str", T.cat(area(ex, DLDIR), zstr("/"), name.t))
    k, v = outcome(ex, lambda: ex.call(method(ex, rd, "copy_download"), [src, path]))
    if k == "exc" and g["mfail"] is not True:
        bad = True if g["wanted"] is None else z3.Not(paths.clean(ex, g["wanted"][0]))
        ex.prove(disj_(bad, term(g["taken"]) >= 101), "a download is refused only for an illegal path, a failing move or 100 taken variations")
        ex.eng.reach(ex, "refused")
    if k == "ok":
        ex.prove(len(g["moved"]) == 1 and g["moved"][0][0] == term(src), "a download accepted is moved, once")
        ex.eng.reach(ex, "moved")
    else:
        ex.prove(g["moved"] == (), "a download refused is not moved")


def disj_(a, b):
    return True if a is True else z3.Or(a, b)


def tasks(w):
    out = [Task("write", t_write, RD + ":RemoteDirectory.on_write_remote_file", must_reach=["moved", "write failed"],
                requires="any id, path, device path, offset, data and final flag; every file function may fail",
                ensures=["writes and removes only directly inside the download directory", "a finished download is given to copy_download with the path requested"]),
           Task("copy", t_copy, RD + ":RemoteDirectory.copy_download", candidates=[cand_paths], must_reach=["moved", "refused"],
                requires="a file directly inside the download directory; any path; any remote directory; any pattern of existing files; every file function may fail",
                ensures=["moved inside the remote directory, to a free path, the wanted one or its next variation up to the 100th", "refused only for an illegal path, a failing move or 100 taken variations"])]
    for t in out:
        t.branch_timeout, t.cand_timeout = 1000, 2000
        t.prop, t.slices = "C18", True
    return out


ASSUMPTIONS = ["os.path.abspath returns an absolute path without '..' that ends in '/' only if it is the root; tempfile.gettempdir likewise (Python)", "symbolic links are not modelled: containment is lexical",
               "a path found not to exist stays free until the move (nobody else writes into the remote directory at that moment)", "file functions touch only the paths they are given"]
