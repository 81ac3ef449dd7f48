"""C17: remote reads never leave the remote directory or the snapshot area."""
from .rd import *


def t_open(ex):
    rd, client = setup(ex, "open")
    ex.g["path"] = None
    p, u = ex.fresh("path", "bytes"), ex.fresh("upload_id", "bytes")
    k, v = request(ex, client, "open_remote_file", u, p)
    ex.eng.reach(ex, "copied" if ex.g["copied"] else "refused")


def t_read(ex):
    rd, client = setup(ex, "read")
    ex.g["path"] = None
    request(ex, client, "read_remote_file", ex.fresh("upload_id", "bytes"), ex.fresh("offset", "int"), ex.fresh("size", "int"))
    ex.eng.reach(ex, "read" if ex.g["contents"] else "not read")


def t_close(ex):
    rd, client = setup(ex, "close")
    ex.g["path"] = None
    request(ex, client, "close_remote_file", ex.fresh("upload_id", "bytes"))
    ex.eng.reach(ex, "closed")


def tasks(w):
    R = "any bytes as path and id; any remote directory (an absolute path without '..'); every file function may fail"
    out = [Task("open", t_open, RD + ":RemoteDirectory.add_upload", must_reach=["copied", "refused"], requires=R, ensures=["reads inside the remote directory or the scan file", "writes a snapshot file"]),
           Task("read", t_read, RD + ":RemoteDirectory.read_upload", must_reach=["read", "not read"], requires=R, ensures=["reads a snapshot file"]),
           Task("close", t_close, RD + ":RemoteDirectory.close_upload", must_reach=["closed"], requires=R, ensures=["removes a snapshot file"])]
    for t in out:
        t.branch_timeout = 1000
        t.prop, t.slices = "C17", True
    return out


ASSUMPTIONS = ["os.path.abspath returns an absolute path without '..' that ends in '/' only if it is the root; tempfile.gettempdir likewise (Python)", "symbolic links are not modelled: containment is lexical",
               "file functions touch only the paths they are given"]
