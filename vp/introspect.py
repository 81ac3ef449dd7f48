"""Runs under the repository's own interpreter (PyPy): imports every module of the real package from
$VP_REPO and dumps, as JSON, the module-level world the verifier resolves names in: functions (file, line,
defaults, closures), classes (MRO, dict), constants, enums, registries.  No code of the package other than
its import-time code is executed."""
import sys, os, json, types, importlib, pkgutil, functools, enum
REPO = os.path.realpath(os.environ.get("VP_REPO", "/repo"))
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
import dataplicity
assert os.path.realpath(dataplicity.__file__).startswith(REPO + "/"), dataplicity.__file__
mods = {}
for m in pkgutil.walk_packages(dataplicity.__path__, "dataplicity.", onerror=lambda n: None):
    if not m.name.endswith("__main__"):
        mods[m.name] = importlib.import_module(m.name)
mods["dataplicity"] = dataplicity
objs, ids, keep = {}, {}, []

def cname(c):
    return "%s.%s" % (getattr(c, "__module__", "builtins") or "builtins", getattr(c, "__qualname__", getattr(c, "__name__", "?")))

def in_repo_file(f):
    return os.path.realpath(f).startswith(REPO + "/dataplicity")

def is_repo_class(c):
    return (c.__module__ or "").split(".")[0] == "dataplicity"

def ref(o, fn):
    k = id(o)
    if k in ids:
        return {"r": ids[k]}
    n = len(ids)
    ids[k] = n
    keep.append(o)
    objs[n] = None
    objs[n] = fn(o)
    return {"r": n}

def d_func(f):
    co = f.__code__
    out = {"k": "func", "file": os.path.realpath(co.co_filename), "line": co.co_firstlineno, "name": co.co_name,
           "qualname": f.__qualname__, "module": f.__module__,
           "defaults": [dump(x) for x in (f.__defaults__ or ())],
           "kwdefaults": {k: dump(v) for k, v in (f.__kwdefaults__ or {}).items()}, "closure": {}, "attrs": {}}
    if f.__closure__:
        for n, c in zip(co.co_freevars, f.__closure__):
            try:
                out["closure"][n] = dump(c.cell_contents)
            except ValueError:
                pass
    for k, v in f.__dict__.items():
        out["attrs"][k] = dump(v)
    return out

def d_class(c):
    if issubclass(c, enum.Enum):
        return {"k": "enumclass", "name": cname(c), "mro": [cname(x) for x in c.__mro__],
                "members": [[m.name, m.value] for m in c]}
    return {"k": "class", "name": cname(c), "qualname": c.__qualname__, "module": c.__module__,
            "bases": [dump(b) for b in c.__bases__],
            "mro": [dump(x) for x in c.__mro__],
            "dict": {k: dump(v) for k, v in c.__dict__.items() if k not in ("__dict__", "__weakref__", "__doc__", "__module__", "__annotations__")},
            "doc": dump(c.__doc__)}

def dump(o, depth=0):
    if o is None: return {"k": "none"}
    if o is Ellipsis: return {"k": "ellipsis"}
    if isinstance(o, enum.Enum):
        return {"k": "enum", "cls": cname(type(o)), "name": o.name, "v": o.value if isinstance(o.value, (int, str)) else None, "int": isinstance(o, int)}
    t = type(o)
    if t is bool: return {"k": "bool", "v": o}
    if t is int: return {"k": "int", "v": str(o)}
    if t is float: return {"k": "float", "v": repr(o)}
    if t is str: return {"k": "str", "v": o}
    if t is bytes: return {"k": "bytes", "v": o.hex()}
    if t is tuple: return {"k": "tuple", "v": [dump(x) for x in o]}
    if t is list: return ref(o, lambda o: {"k": "list", "v": [dump(x) for x in o]})
    if t in (set, frozenset): return ref(o, lambda o: {"k": "set", "v": [dump(x) for x in sorted(o, key=repr)]})
    if t is dict: return ref(o, lambda o: {"k": "dict", "v": [[dump(a), dump(b)] for a, b in o.items()]})
    if isinstance(o, types.ModuleType): return {"k": "module", "name": o.__name__}
    if isinstance(o, types.FunctionType):
        w = o
        if hasattr(o, "__wrapped__") and not in_repo_file(o.__code__.co_filename) and isinstance(o.__wrapped__, types.FunctionType) and in_repo_file(o.__wrapped__.__code__.co_filename):
            return ref(o, lambda o: {"k": "wrapped", "by": cname(o) if False else o.__code__.co_filename.rsplit("/", 1)[-1], "func": dump(o.__wrapped__)})
        if in_repo_file(o.__code__.co_filename): return ref(o, d_func)
        return {"k": "efunc", "name": cname(o)}
    if isinstance(o, type):
        if is_repo_class(o): return ref(o, d_class)
        return {"k": "eclass", "name": cname(o), "mro": [cname(x) for x in o.__mro__]}
    if isinstance(o, property):
        return ref(o, lambda o: {"k": "property", "fget": dump(o.fget), "fset": dump(o.fset)})
    if isinstance(o, classmethod): return ref(o, lambda o: {"k": "classmethod", "func": dump(o.__func__)})
    if isinstance(o, staticmethod): return ref(o, lambda o: {"k": "staticmethod", "func": dump(o.__func__)})
    if isinstance(o, functools.partial):
        return ref(o, lambda o: {"k": "partial", "func": dump(o.func), "args": [dump(x) for x in o.args], "kw": {k: dump(v) for k, v in o.keywords.items()}})
    if isinstance(o, types.BuiltinFunctionType):
        return {"k": "efunc", "name": cname(o)}
    if isinstance(o, types.MethodType):
        s = o.__self__
        if isinstance(s, type): return {"k": "efunc", "name": cname(s) + "." + o.__name__} if not is_repo_class(s) else {"k": "bound", "self": dump(s), "func": dump(o.__func__)}
        return {"k": "efunc", "name": cname(type(s)) + "." + o.__name__}
    if is_repo_class(t):
        return ref(o, lambda o: {"k": "inst", "cls": dump(type(o)), "dict": {k: dump(v) for k, v in getattr(o, "__dict__", {}).items()}})
    return ref(o, lambda o: {"k": "einst", "cls": cname(type(o)), "repr": repr(o)[:200] if type(o).__name__ == "Logger" else type(o).__name__})

out = {"modules": {}, "repo": REPO, "version": sys.version}
for name, m in sorted(mods.items()):
    out["modules"][name] = {"file": os.path.realpath(m.__file__), "vars": {k: dump(v) for k, v in vars(m).items() if not (k.startswith("__") and k not in ("__version__", "__name__"))}}
# exception classes the environment contracts raise
extra = {}
import socket, select, subprocess, lomond.errors, threading, json as _json, urllib.error, shutil
for c in (socket.timeout, socket.error, select.error, subprocess.CalledProcessError, lomond.errors.WebSocketError,
          lomond.errors.WebSocketUnavailable, lomond.errors.TransportFail, lomond.errors.WebSocketClosed, lomond.errors.WebSocketClosing,
          _json.JSONDecodeError, urllib.error.URLError, shutil.Error, shutil.SameFileError):
    extra[cname(c)] = [cname(x) for x in c.__mro__]
import builtins
for n, c in vars(builtins).items():
    if isinstance(c, type):
        extra["builtins." + n] = [cname(x) for x in c.__mro__]
out["extra"] = extra
# integer constants of the system modules used
consts = {}
import pty, subprocess, signal, termios, fcntl, stat, errno, math
for m in (pty, subprocess, select, socket, os, signal, termios, fcntl, stat, errno, math, sys):
    for k, v in vars(m).items():
        if isinstance(v, (int, str, float)) and not k.startswith("_"):
            consts[m.__name__ + "." + k] = dump(v if not isinstance(v, enum.Enum) else (int(v) if isinstance(v, int) else v))
for k in ("sep", "curdir", "pardir", "extsep", "altsep"):
    consts["os.path." + k] = dump(getattr(os.path, k))
out["consts"] = consts
out["objs"] = {str(k): v for k, v in objs.items()}
json.dump(out, sys.stdout)
