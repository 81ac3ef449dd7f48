"""Resolves names of the real package: dump of its import-time world + AST of its source files."""
import ast, json, os, subprocess
from .values import *

PYPY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
ALIAS = {"_socket": "socket", "posixpath": "os.path", "posix": "os", "_io": "io", "genericpath": "os.path", "_thread": "threading"}
ALIASF = {"threading.allocate_lock": "threading.Lock", "time.time": "time.time", "io.open": "builtins.open",
          "random.Random.choice": "random.choice", "six.moves.xrange": "builtins.range",
          "json.dumps": "json.dumps", "subprocess.Popen": "subprocess.Popen", "builtins.OSError": "builtins.OSError",
          "builtins.IOError": "builtins.OSError", "builtins.EnvironmentError": "builtins.OSError", "socket.error": "builtins.OSError", "select.error": "builtins.OSError", "functools.partial": "functools.partial",
          "collections.deque": "collections.deque", "_collections.deque": "collections.deque"}


def canon(name):
    parts = name.split(".")
    for i in range(len(parts), 0, -1):
        p = ".".join(parts[:i])
        if p in ALIAS:
            name = ".".join([ALIAS[p]] + parts[i:])
            break
    return ALIASF.get(name, name)


class World(object):
    def __init__(self, repo="/repo"):
        self.repo = os.path.realpath(repo)
        env = dict(os.environ, VP_REPO=self.repo, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        for k in list(env):
            if k.startswith("DATAPLICITY_"):
                del env[k]
        p = subprocess.run([PYPY, os.path.join(HERE, "introspect.py")], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError("import of the package failed:\n" + p.stderr.decode("utf-8", "replace")[-2000:])
        self.d = json.loads(p.stdout.decode("utf-8"))
        self.objs = self.d["objs"]
        self.trees, self.nodes, self.memo, self.src = {}, {}, {}, {}
        self.classes = {}
        self.mro_names = {k: [canon(x) for x in v] for k, v in ((canon(a), b) for a, b in self.d["extra"].items())}
        self.mutables = []
        for k, v in self.objs.items():
            if v["k"] in ("class", "enumclass"):
                self.conv({"r": int(k)})

    # ---- AST location
    def tree(self, file):
        if file not in self.trees:
            with open(file, encoding="utf-8") as f:
                src = f.read()
            self.src[file] = src
            t = ast.parse(src)
            idx = {}
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    line = n.lineno
                    if getattr(n, "decorator_list", None):
                        line = n.decorator_list[0].lineno
                    idx.setdefault((line, n.name if isinstance(n, ast.FunctionDef) else "<lambda>"), n)
            self.trees[file] = (t, idx)
        return self.trees[file]

    def find(self, file, line, name):
        return self.tree(file)[1].get((line, name))

    # ---- dump -> values
    def conv(self, d):
        if "r" in d:
            k = d["r"]
            if k not in self.memo:
                o = self.objs[str(k)]
                self.memo[k] = None
                self.memo[k] = self._conv_obj(o, k)
            return self.memo[k]
        k = d["k"]
        if k == "none": return None
        if k == "ellipsis": return Ellipsis
        if k == "bool": return d["v"]
        if k == "int": return int(d["v"])
        if k == "float": return float(d["v"])
        if k == "str": return d["v"]
        if k == "bytes": return bytes.fromhex(d["v"])
        if k == "tuple": return tuple(self.conv(x) for x in d["v"])
        if k == "enum":
            return EnumV(canon(d["cls"]), d["name"], d["v"])
        if k == "module": return ModV(canon(d["name"]))
        if k == "efunc": return ExtV(canon(d["name"]))
        if k == "eclass":
            n = canon(d["name"])
            self.mro_names.setdefault(n, [canon(x) for x in d["mro"]])
            return ClassV(n, self.mro_names[n])
        raise Unsupported("dump kind %s" % k)

    def _conv_obj(self, o, k):
        t = o["k"]
        if t == "func":
            node = self.find(o["file"], o["line"], o["name"])
            if node is None:
                return ExtV("?" + o["qualname"])
            f = FuncV(node, o["module"], o["qualname"], file=o["file"])
            self.memo[k] = f
            f.defaults = [self.conv(x) for x in o["defaults"]]
            f.kwdefaults = {a: self.conv(b) for a, b in o["kwdefaults"].items()}
            f.cells = {a: self.conv(b) for a, b in o["closure"].items()}
            f.attrs = {a: self.conv(b) for a, b in o["attrs"].items()}
            q = o["qualname"].split(".")
            if len(q) > 1 and q[-2] != "<locals>":
                f.clsname = o["module"] + "." + ".".join(q[:-1])
            return f
        if t == "wrapped":
            f = self.conv(o["func"])
            if o["by"] == "contextlib.py":
                return CtxFunc(f)
            return ExtV("?wrapped")
        if t == "class":
            c = ClassV(o["name"], [], {}, module=o["module"], qualname=o["qualname"])
            self.memo[k] = c
            self.classes[o["name"]] = c
            c.mro = [x.name if isinstance(x, ClassV) else "?" for x in (self.conv(m) if not ("r" in m and m["r"] == k) else c for m in o["mro"])]
            c.bases = [self.conv(b) for b in o["bases"]]
            c.dict = {a: self.conv(b) for a, b in o["dict"].items()}
            self.mro_names[c.name] = c.mro
            return c
        if t == "enumclass":
            n = canon(o["name"])
            self.mro_names[n] = [canon(x) for x in o["mro"]]
            c = ClassV(n, self.mro_names[n], enum=[(a, b) for a, b in o["members"]])
            self.classes[n] = c
            return c
        if t == "property": return PropV(self.conv(o["fget"]), self.conv(o["fset"]))
        if t == "classmethod": return ClsMeth(self.conv(o["func"]))
        if t == "staticmethod": return StatMeth(self.conv(o["func"]))
        if t == "partial": return PartialV(self.conv(o["func"]), [self.conv(x) for x in o["args"]], {a: self.conv(b) for a, b in o["kw"].items()})
        if t in ("list", "dict", "set", "inst", "einst", "bound"):
            return ("$world", k)      # materialised in the path's heap on first use
        raise Unsupported("dump object %s" % t)

    def module_var(self, mod, name):
        m = self.d["modules"].get(mod)
        if m is None or name not in m["vars"]:
            return None, False
        return self.conv(m["vars"][name]), True

    def is_repo_module(self, name):
        return name in self.d["modules"]

    def cls(self, name):
        """ClassV by canonical name."""
        if name in self.classes:
            return self.classes[name]
        if name in self.mro_names:
            return ClassV(name, self.mro_names[name])
        raise Unsupported("unknown class " + name)

    def has_cls(self, name):
        return name in self.classes or name in self.mro_names

    def func(self, key):
        """FuncV (or CtxFunc) for 'module:qual.name'."""
        mod, q = key.split(":")
        parts = q.split(".")
        if mod not in self.d["modules"]:
            return None
        if parts[0] not in self.d["modules"][mod]["vars"]:
            return None
        v = self.conv(self.d["modules"][mod]["vars"][parts[0]])
        for p in parts[1:]:
            if not isinstance(v, ClassV) or v.dict is None:
                return None
            w = None
            for m in v.mro:
                c = self.classes.get(m)
                if c is not None and c.dict and p in c.dict:
                    w = c.dict[p]
                    break
            if w is None:
                return None
            v = w
        return v
