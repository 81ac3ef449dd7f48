"""Symbolic interpreter for the real source of the package (AST of /repo's files, resolved through the dump of its
import-time world).  One Ex object executes one path; the Engine re-executes a task once per decision prefix."""
import ast, itertools, os
from .values import *
from . import values as V
from . import theory as T
from .world import World, canon

PROPAGATE = (PathEnd, Restart, Unsupported)
SIGNALS = (ReturnS, BreakS, ContinueS, PyExc, GenExit)
_scope = {}


def scope_of(node):
    """(locals, globals, nonlocals, is_generator) of a function node."""
    if node in _scope:
        return _scope[node]
    loc, glo, non = set(), set(), set()
    gen = [False]
    a = node.args
    for x in a.args + a.kwonlyargs + getattr(a, "posonlyargs", []):
        loc.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            loc.add(x.arg)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                walk(g.iter)
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    loc.add(c.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for b in (node.body if isinstance(node.body, list) else [node.body]):
        walk(b)
    loc -= glo | non
    _scope[node] = (loc, glo, non, gen[0])
    return _scope[node]


class Frame(object):
    __slots__ = ("func", "loc", "parent", "module", "clsname", "names", "glo", "non", "ycb", "uid", "cells", "selfv", "handling", "maybe")

    def __init__(self, func, parent, module, clsname, names, glo, non, uid, cells):
        self.func, self.parent, self.module, self.clsname = func, parent, module, clsname
        self.names, self.glo, self.non, self.uid, self.cells = names, glo, non, uid, cells
        self.loc, self.ycb, self.selfv, self.handling, self.maybe = {}, None, None, [], set()


class LoopInfo(object):
    def __init__(self):
        self.mod, self.dead, self.dead_var, self.vars_seen, self.entered = {}, set(), set(), set(), False
        self.backedges = 0


class L(object):
    """View of a loop state given to candidate generators."""
    pass


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&",
       ast.BitXor: "^", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}


def nparams(m):
    """Registry entries are plain functions f(ex, args, kw) or methods f(ex, ref, args, kw)."""
    c = m.__code__
    return c.co_argcount - len(m.__defaults__ or ())


ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ANUM}


def lengths_only(c):
    """The term is built of numbers and lengths of string variables only."""
    if not z3.is_app(c):
        return False
    k = c.decl().kind()
    if k == z3.Z3_OP_SEQ_LENGTH:
        return c.arg(0).num_args() == 0 and c.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED
    if k not in ARITH or k == z3.Z3_OP_EQ and not z3.is_int(c.arg(0)):
        return False
    return all(lengths_only(c.arg(i)) for i in range(c.num_args()))


def length_vars(c, memo):
    if c.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
        n = c.arg(0).decl().name()
        if n not in memo:
            memo[n] = z3.Int("|" + n + "|")
        return memo[n]
    if c.num_args() == 0:
        return c
    return c.decl()(*[length_vars(c.arg(i), memo) for i in range(c.num_args())])


class Ex(object):
    def __init__(self, eng, task, prefix):
        self.eng, self.task, self.w = eng, task, eng.world
        self.prefix, self.dec = list(prefix), []
        self.pc, self.pcset = [], set()
        self.solver = z3.Solver()
        self.heap, self.names = {}, {}
        self.noid, self.nframe = 1, 0
        self.g = {}
        self.frames, self.allframes = [], []
        self.gmods = {}
        self.wmemo = {}
        self.memo = {}
        self.inputs = []
        self.events = []
        self.depth = 0
        self.calls = []
        self.loopstack = []
        self.curexc = []
        self.steps = 0
        self.monitors = []
        self.unknown = {}

    # ------------------------------------------------------------ logic
    def fresh(self, label, kind, log=True):
        n = self.names.get(label, 0)
        self.names[label] = n + 1
        t = z3.Const("%s!%d" % (label, n), sort_of(kind))
        s = S(kind, t)
        if log:
            self.inputs.append((label, s))
        if kind == "bytes":
            pass
        return s

    def freshseq(self, label, ekind):
        n = self.names.get(label, 0)
        self.names[label] = n + 1
        return z3.Const("%s!%d" % (label, n), z3.SeqSort(sort_of(ekind)))

    def freshbool(self, label):
        return self.fresh(label, "bool").t

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if z3.is_true(c):
            return
        k = c.get_id()
        if k in self.pcset:
            return
        self.pcset.add(k)
        self.pc.append(c)
        if z3.is_false(c):
            raise PathEnd()

    def sat(self, c, timeout=None):
        return self.eng.sat(self, c, timeout or self.task.branch_timeout)

    def branch(self, c):
        """Decide a condition; explores both outcomes when both are feasible."""
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if c.get_id() in self.pcset:
                d = True
            elif z3.simplify(z3.Not(c)).get_id() in self.pcset:
                d = False
            elif self.task.slices and lengths_only(c) and self.by_lengths(c) is not None:
                d = self.by_lengths(c)
            else:
                a = self.sat(c)
                if a == "unsat":
                    d = False
                else:
                    b = self.sat(z3.Not(c))
                    if b == "unsat":
                        d = True
                    else:
                        d = True
                        self.eng.schedule(self.dec + [False])
        self.dec.append(d)
        self.assume(c if d else z3.simplify(z3.Not(c)))
        return d

    def by_lengths(self, c):
        """True/False if the condition on lengths is decided by what the path assumes of lengths alone."""
        s = z3.SimpleSolver()
        s.set("timeout", 300)
        memo = {}
        for p in self.pc:
            if lengths_only(p):
                s.add(length_vars(p, memo))
        s.add(*[v >= 0 for v in memo.values()])
        for d, q in ((True, z3.Not(c)), (False, c)):
            s.push()
            s.add(length_vars(q, memo), *[v >= 0 for v in memo.values()])
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return d
        return None

    def choose(self, n, label=""):
        """Nondeterministic choice among n alternatives."""
        if n == 1:
            return 0
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.eng.schedule(self.dec + [("c", k)])
            d = ("c", 0)
        self.dec.append(d)
        self.inputs.append(("choice:" + label, d[1]))
        return d[1]

    def prove(self, c, name):
        """Record an obligation: c holds on this path."""
        self.eng.obligation(self, c, name)
        if c is not True and c is not False:
            self.assume(c)
        elif c is False:
            raise PathEnd()

    def holds(self, c):
        """Silent entailment query (used for candidate invariants and precision, never counted)."""
        if c is True:
            return True
        if c is False:
            return False
        return self.eng.entails(self, c, self.task.cand_timeout)

    def unsupported(self, why):
        where = ""
        if self.frames and self.frames[-1].func is not None:
            where = " in %s" % self.frames[-1].func.key
        raise Unsupported(why + where)

    # ------------------------------------------------------------ heap
    def new(self, obj):
        oid = self.noid
        self.noid += 1
        self.heap[oid] = obj
        return Ref(oid)

    def h(self, ref):
        return self.heap[ref.oid]

    def newlist(self, items, typ="list"):
        return self.new(HList(items=list(items), typ=typ))

    def newseq(self, seq, ekind, typ="list"):
        return self.new(HList(seq=seq, ekind=ekind, typ=typ))

    def newdict(self, entries=(), base=None, typ="dict"):
        return self.new(HDict(entries=[list(e) for e in entries], base=base, typ=typ))

    def opaque(self, cls, tag=None, **fields):
        return self.new(HOpq(cls, dict(fields), tag=tag))

    def inst(self, clsname, **fields):
        return self.new(HInst(self.w.cls(clsname), dict(fields)))

    def clsname_of(self, v):
        if isinstance(v, Ref):
            o = self.h(v)
            if isinstance(o, HInst):
                return o.cls.name
            if isinstance(o, HOpq):
                return o.cls
            if isinstance(o, HList):
                return {"list": "builtins.list", "deque": "collections.deque", "tuple": "builtins.tuple"}.get(o.typ, "builtins." + o.typ)
            if isinstance(o, HDict):
                return "builtins.dict" if o.typ == "dict" else o.typ
            if isinstance(o, HSet):
                return "builtins.set"
            return "builtins.object"
        if isinstance(v, S):
            if is_py(v.kind):
                return self.clsname_of(self.expand(v))
            return {"real": "builtins.float"}.get(v.kind, "builtins." + v.kind) if v.ecls is None else v.ecls
        if isinstance(v, EnumV):
            return v.cls
        if v is None:
            return "builtins.NoneType"
        if is_native(v):
            return "builtins." + type(v).__name__
        if isinstance(v, ClassV):
            return "builtins.type"
        if isinstance(v, (FuncV, CtxFunc)):
            return "builtins.function"
        if isinstance(v, (BoundV,)):
            return "builtins.method"
        return "builtins.object"

    def mro_of(self, name):
        if name in self.w.classes:
            return self.w.classes[name].mro
        return self.w.mro_names.get(name, [name, "builtins.object"])

    def is_sub(self, name, sup):
        u = self.unknown.get(name)
        if u is not None:
            return self.unknown_sub(u, sup)
        return sup in self.mro_of(name) or name == sup

    # ------------------------------------------------------------ exceptions
    def exc(self, clsname, *args, **fields):
        """Create and raise an exception of the interpreted program."""
        r = self.new(HInst(self.w.cls(clsname) if self.w.has_cls(clsname) else ClassV(clsname, [clsname, "builtins.Exception", "builtins.BaseException", "builtins.object"]), dict(fields)))
        self.h(r).fields.setdefault("args", tuple(args))
        raise PyExc(r, clsname, self.frames[-1].func.key if self.frames and self.frames[-1].func else "")

    def anyexc(self, label="an exception", base="builtins.Exception"):
        """Raise an arbitrary exception: any class below `base`, decided lazily where the program tests it."""
        n = self.names.get("$anyexc", 0)
        self.names["$anyexc"] = n + 1
        cn = "?%s#%d" % (base.split(".")[-1], n)
        mro = [cn] + self.mro_of(base)
        self.unknown[cn] = {"base": mro[1:], "yes": [], "no": []}
        r = self.new(HInst(ClassV(cn, mro), {"args": (self.fresh("message", "str"),)}))
        raise PyExc(r, cn, label)

    def unknown_sub(self, u, sup):
        if sup in u["base"]:
            return True
        if any(sup in self.mro_of(y) for y in u["yes"]):
            return True
        m = self.mro_of(sup)
        if u["base"][0] not in m or any(n in m for n in u["no"]):
            return False
        if u["yes"] and not any(y in m for y in u["yes"]):
            return False
        if self.choose(2, "exception is a " + sup.split(".")[-1]):
            u["yes"].append(sup)
            return True
        u["no"].append(sup)
        return False

    def touch(self, o):
        """An access to an object whose contents a monitor guards."""
        g = getattr(o, "guard", None)
        if g is not None:
            g.access(self)

    # ------------------------------------------------------------ py terms
    def to_py(self, v):
        """Py term of a value (freezes mutable containers)."""
        if isinstance(v, S):
            k = v.kind
            if is_py(k):
                return v.t
            return {"int": Py.PInt, "bool": Py.PBool, "str": Py.PStr, "bytes": Py.PBytes, "real": Py.PFloat}[k](v.t)
        if v is None:
            return Py.PNone
        if isinstance(v, bool):
            return Py.PBool(z3.BoolVal(v))
        if isinstance(v, EnumV):
            return Py.PInt(z3.IntVal(v.value)) if isinstance(v.value, int) else self.unsupported("enum term")
        if isinstance(v, int):
            return Py.PInt(z3.IntVal(v))
        if isinstance(v, float):
            return Py.PFloat(term(v))
        if isinstance(v, str):
            return Py.PStr(zstr(v))
        if isinstance(v, bytes):
            return Py.PBytes(zstr(v))
        if isinstance(v, tuple):
            return Py.PTuple(T.seq_of([self.to_py(x) for x in v], Py))
        if isinstance(v, Ref):
            o = self.h(v)
            if isinstance(o, HList):
                o.frozen = True
                c = Py.PTuple if o.typ == "tuple" else Py.PList
                return c(self.seq_py(o))
            if isinstance(o, HDict):
                if o.base is not None and not o.entries and isinstance(o.base, T.TermMap):
                    return o.base.t
                o.frozen = True
                if o.base is None and all(e[1] is not DEL for e in o.entries):
                    ks, vs = [], []
                    for k, x in o.entries:
                        ks.append(self.to_py(k))
                        vs.append(self.to_py(x))
                    return Py.PDict(T.seq_of(ks, Py), T.seq_of(vs, Py))
                if isinstance(o.base, T.PairSeq) and not o.entries:
                    return T.DICTOF(o.base.seq)
        if isinstance(v, Ref):
            return Py.PRef(z3.IntVal(v.oid))
        self.unsupported("no term for %r" % (v,))

    def seq_py(self, o):
        """Seq(Py) term of a list object."""
        if o.items is not None:
            return T.seq_of([self.to_py(x) for x in o.items], Py)
        if is_py(o.ekind):
            return o.seq
        return T.lift(o.ekind, o.seq)

    def elem_term(self, ekind, v):
        if is_py(ekind):
            return self.to_py(v)
        if kind_of(v) != ekind:
            v2 = self.expand(v) if isinstance(v, S) else v
            if kind_of(v2) != ekind:
                self.unsupported("element kind %s in a list of %s" % (kind_of(v2), ekind))
            v = v2
        return term(v)

    def seq_term(self, o, ekind):
        if o.items is not None:
            return T.seq_of([self.elem_term(ekind, x) for x in o.items], sort_of(ekind))
        if o.ekind == ekind or (is_py(o.ekind) and is_py(ekind)):
            return o.seq
        if o.ekind is None:
            return z3.Empty(z3.SeqSort(sort_of(ekind)))
        self.unsupported("list of %s used as list of %s" % (o.ekind, ekind))

    DOM = {"py": ["PNone", "PBool", "PInt", "PFloat", "PStr", "PBytes", "PList", "PTuple", "PDict"],
           "py:benc": ["PBytes", "PInt", "PList", "PDict"],
           "py:enc": ["PBytes", "PStr", "PInt", "PList", "PTuple", "PDict", "PMap"],
           "py:json": ["PNone", "PBool", "PInt", "PFloat", "PStr", "PList", "PDict"],
           "py:key": ["PBytes", "PInt"]}
    CON = {"PNone": 0, "PBool": "pb", "PInt": "pi", "PStr": "ps", "PBytes": "py", "PFloat": "pf"}

    def expand(self, v):
        """Value of a Py term with its constructor decided."""
        if not isinstance(v, S) or not is_py(v.kind):
            return v
        t = z3.simplify(v.t)
        con = None
        if z3.is_app(t) and t.decl().name() in ("PNone", "PBool", "PInt", "PStr", "PBytes", "PFloat", "PList", "PTuple", "PDict", "PRef", "PMap"):
            con = t.decl().name()
        key = ("con", t.get_id())
        if con is None and key in self.memo:
            con = self.memo[key]
        if con is None:
            dom = self.DOM[v.kind]
            for d in dom[:-1]:
                if self.branch(getattr(Py, "is_" + d)(t)):
                    con = d
                    break
            else:
                con = dom[-1]
                self.assume(getattr(Py, "is_" + con)(t))
            self.memo[key] = con
        if con == "PNone":
            return None
        if con == "PBool":
            return mk("bool", Py.pb(t))
        if con == "PInt":
            return mk("int", Py.pi(t))
        if con == "PStr":
            return mk("str", Py.ps(t))
        if con == "PBytes":
            return mk("bytes", Py.py(t))
        if con == "PFloat":
            return mk("real", Py.pf(t))
        if con == "PRef":
            o = z3.simplify(Py.po(t))
            if z3.is_int_value(o):
                return Ref(o.as_long())
            self.unsupported("reference out of a symbolic container")
        k2 = ("obj", t.get_id())
        if k2 in self.memo:
            return self.memo[k2]
        if con == "PList":
            r = self.newseq(z3.simplify(Py.pl(t)), v.kind)
            self.h(r).frozen = True
            self.h(r).term = t
        elif con == "PTuple":
            r = self.newseq(z3.simplify(Py.pt(t)), v.kind, typ="tuple")
            self.h(r).frozen = True
        elif con == "PDict":
            r = self.newdict(base=T.TermMap(t, v.kind))
        else:   # PMap: an object outside the domain of interest
            r = self.opaque("builtins.object", tag=t)
        self.memo[k2] = r
        return r

    def from_term(self, kind, t):
        if is_py(kind):
            t = z3.simplify(t)
            v = S(kind, t)
            if z3.is_app(t) and t.decl().name() in ("PNone", "PBool", "PInt", "PStr", "PBytes", "PFloat", "PRef"):
                return self.expand(v)
            return v
        return mk(kind, t)

    # ------------------------------------------------------------ frames and names
    def push(self, func, parent, module, clsname, node, cells=None):
        loc, glo, non, gen = scope_of(node)
        f = Frame(func, parent, module, clsname, loc, glo, non, self.nframe, cells or {})
        self.nframe += 1
        self.frames.append(f)
        self.allframes.append(f)
        return f

    @property
    def f(self):
        return self.frames[-1]

    def lookup(self, name):
        f = self.f
        if name in f.glo:
            return self.module_get(f.module, name)
        g = f
        while g is not None:
            if name in g.loc:
                v = g.loc[name]
                if isinstance(v, Poison):
                    self.unsupported("value of %s after a loop (%s)" % (name, v.why))
                return v
            if name in g.maybe:
                self.unsupported("%s is bound by an earlier loop iteration only" % name)
            if name in g.names and name not in g.non:
                if g is f:
                    self.exc("builtins.UnboundLocalError", "local variable %r referenced before assignment" % name)
                self.exc("builtins.NameError", "free variable %r" % name)
            if name in g.cells:
                return self.world(g.cells[name])
            g = g.parent
        return self.module_get(f.module, name)

    def module_get(self, module, name):
        k = (module, name)
        if k in self.gmods:
            return self.gmods[k]
        v, ok = self.w.module_var(module, name)
        if ok:
            return self.world(v)
        n = canon("builtins." + name)
        if name in BUILTINS:
            return ExtV(n)
        if self.w.has_cls(n):
            return self.w.cls(n)
        if name in ("Ellipsis",):
            return Ellipsis
        self.exc("builtins.NameError", "name %r is not defined" % name)

    def store(self, name, v):
        f = self.f
        if name in f.glo:
            self.gmods[(f.module, name)] = v
            return
        if name in f.non:
            g = f.parent
            while g is not None:
                if name in g.names and name not in g.non:
                    g.loc[name] = v
                    return
                g = g.parent
            self.unsupported("nonlocal %s" % name)
        f.loc[name] = v

    def world(self, v):
        """Materialise a mutable module-level object in this path's heap."""
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "$world":
            k = v[1]
            if k in self.wmemo:
                return self.wmemo[k]
            o = self.w.objs[str(k)]
            t = o["k"]
            if t == "list":
                r = self.new(HList(items=[]))
                self.wmemo[k] = r
                self.h(r).items = [self.world(self.w.conv(x)) for x in o["v"]]
            elif t == "dict":
                r = self.newdict()
                self.wmemo[k] = r
                self.h(r).entries = [[self.world(self.w.conv(a)), self.world(self.w.conv(b))] for a, b in o["v"]]
            elif t == "set":
                r = self.new(HSet(items=[self.world(self.w.conv(x)) for x in o["v"]]))
                self.wmemo[k] = r
            elif t == "inst":
                r = self.new(HInst(self.w.conv(o["cls"]), {}))
                self.wmemo[k] = r
                for a, b in o["dict"].items():
                    self.h(r).fields[a] = self.world(self.w.conv(b))
            elif t == "einst":
                from .world import canon
                r = self.opaque(canon(o["cls"]), tag=o["repr"])
                self.wmemo[k] = r
            elif t == "bound":
                r = BoundV(self.w.conv(o["func"]), self.world(self.w.conv(o["self"])))
                self.wmemo[k] = r
            return self.wmemo[k]
        if isinstance(v, tuple) and any(isinstance(x, tuple) for x in v):
            return tuple(self.world(x) for x in v)
        if isinstance(v, tuple):
            return v
        return v

    # ------------------------------------------------------------ calls
    def call(self, fn, args=(), kw=None):
        args, kw = list(args), dict(kw or {})
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kw)
        if isinstance(fn, BoundV):
            f = fn.func
            return self.call(f, [fn.self_] + args, kw)
        if isinstance(fn, CtxFunc):
            return self.new(HCtx(fn.func, args, kw))
        if isinstance(fn, HostFn):
            return fn.f(self, args, kw)
        if isinstance(fn, ExtV):
            return self.call_ext(fn.name, args, kw)
        if isinstance(fn, ExtBound):
            return self.call_ext(fn.name, [fn.self_] + args, kw)
        if isinstance(fn, BMeth):
            return self.builtin_method(fn.recv, fn.name, args, kw)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, PartialV):
            k2 = dict(fn.kw)
            k2.update(kw)
            return self.call(fn.func, list(fn.args) + args, k2)
        if isinstance(fn, Ref):
            o = self.h(fn)
            if isinstance(o, HInst):
                m = self.class_attr(o.cls, "__call__")
                if m is not None:
                    return self.call(self.bind(m, fn, o.cls), args, kw)
            if isinstance(o, HOpq):
                return self.opq_call(fn, o, "__call__", args, kw)
        if isinstance(fn, S) and is_py(fn.kind):
            return self.call(self.expand(fn), args, kw)
        if isinstance(fn, Poison):
            self.unsupported("call of a value unknown after a loop")
        self.exc("builtins.TypeError", "object is not callable")

    def call_func(self, fn, args, kw):
        self.steps += 1
        c = self.task.contracts.get(fn.key)
        if c is not None and not (self.task.target == fn.key and not any(f.func is fn or (f.func and f.func.key == fn.key) for f in self.frames)):
            self.eng.used_contract(fn.key, self.task)
            return c(self, fn, args, kw)
        if self.depth > 60:
            self.unsupported("recursion without a contract at %s" % fn.key)
        self.eng.saw_function(fn, self.task)
        node = fn.node
        isgen = scope_of(node)[3]
        if isgen:
            return self.new(HCtx(fn, args, kw))
        return self.run_body(fn, args, kw)

    def bind_args(self, fn, args, kw, fr):
        a = fn.node.args
        pos = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        defaults = dict(zip(pos[len(pos) - len(fn.defaults):], fn.defaults)) if fn.defaults else {}
        name = fn.qualname
        vals = {}
        if len(args) > len(pos) and not a.vararg:
            self.exc("builtins.TypeError", "%s() takes %d positional arguments but %d were given" % (name, len(pos), len(args)))
        for n, v in zip(pos, args):
            vals[n] = v
        extra = args[len(pos):]
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = []
        for k, v in kw.items():
            if k in pos or k in kwonly:
                if k in vals:
                    self.exc("builtins.TypeError", "%s() got multiple values for argument %r" % (name, k))
                vals[k] = v
            elif a.kwarg:
                rest.append([k, v])
            else:
                self.exc("builtins.TypeError", "%s() got an unexpected keyword argument %r" % (name, k))
        for n in pos + kwonly:
            if n not in vals:
                if n in defaults:
                    vals[n] = self.world(defaults[n])
                elif n in fn.kwdefaults:
                    vals[n] = self.world(fn.kwdefaults[n])
                else:
                    self.exc("builtins.TypeError", "%s() missing required argument: %r" % (name, n))
        if a.vararg:
            if len(extra) == 1 and isinstance(extra[0], StarArg):
                vals[a.vararg.arg] = extra[0].v
            else:
                vals[a.vararg.arg] = tuple(extra)
        if a.kwarg:
            vals[a.kwarg.arg] = self.newdict(rest)
        fr.loc.update(vals)
        fr.selfv = vals.get(pos[0]) if pos else None

    def run_body(self, fn, args, kw, ycb=None):
        self.depth += 1
        fr = self.push(fn, fn.frame, fn.module, fn.clsname, fn.node, fn.cells)
        fr.ycb = ycb
        try:
            self.bind_args(fn, args, kw, fr)
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body)
            try:
                self.block(fn.node.body)
            except ReturnS as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            while self.frames[-1] is not fr:
                self.frames.pop()
            self.frames.pop()

    def call_ext(self, name, args, kw):
        m = self.task.ext.get(name) or EXT.get(name)
        if m is None:
            b = BUILTINS.get(name[9:]) if name.startswith("builtins.") else None
            if b is not None:
                return b(self, args, kw)
            if self.w.has_cls(name):
                return self.instantiate(self.w.cls(name), args, kw)
            self.unsupported("external %s has no contract" % name)
        self.eng.used_env(name, self.task)
        if nparams(m) == 4:
            return m(self, args[0], args[1:], kw)
        return m(self, args, kw)

    def opq_call(self, ref, o, name, args, kw):
        m = self.env_method(o.cls, name)
        if m is None:
            self.unsupported("external method %s.%s has no contract" % (o.cls, name))
        self.eng.used_env(o.cls + "." + name, self.task)
        return m(self, ref, args, kw)

    def env_method(self, cls, name):
        for c in self.mro_of(cls):
            k = c + "." + name
            m = self.task.ext.get(k) or EXT.get(k)
            if m is not None:
                if nparams(m) == 3:
                    return lambda ex, ref, args, kw: m(ex, [ref] + list(args), kw)
                return m
        return None

    def instantiate(self, cls, args, kw):
        h = self.task.ext.get("new:" + cls.name) or EXT.get("new:" + cls.name)
        if h is not None:
            self.eng.used_env(cls.name, self.task)
            return h(self, args, kw)
        if cls.enum is not None:
            return self.enum_call(cls, args)
        if cls.dict is None:   # external class
            b = BUILTINS.get(cls.name[9:]) if cls.name.startswith("builtins.") else None
            if b is not None:
                return b(self, args, kw)
            m = EXT.get(cls.name) or self.task.ext.get(cls.name)
            if m is not None:
                self.eng.used_env(cls.name, self.task)
                return m(self, args, kw)
            if "builtins.BaseException" in cls.mro:
                r = self.new(HInst(cls, {"args": tuple(args)}))
                return r
            if cls.name == "builtins.object":
                return self.new(HInst(cls, {}))
            self.unsupported("external class %s has no contract" % cls.name)
        if cls.dict is not None and "builtins.tuple" in cls.mro and "_fields" in cls.dict:
            return self.new_namedtuple(cls, args, kw)
        r = self.new(HInst(cls, {}))
        self.eng.saw_class(cls, self.task)
        if "builtins.BaseException" in cls.mro:
            self.h(r).fields["args"] = tuple(args)
        init = self.class_attr(cls, "__init__")
        if init is not None:
            self.call(self.bind(init, r, cls), args, kw)
        else:
            e = self.ext_class_attr(cls, "__init__")
            if e is not None:
                self.call(ExtBound(e, r), args, kw)
            elif "builtins.BaseException" in cls.mro:
                pass
            elif args or kw:
                self.exc("builtins.TypeError", "%s() takes no arguments" % cls.qualname)
        return r

    def new_namedtuple(self, cls, args, kw):
        names = cls.dict["_fields"]
        dflt = cls.dict.get("_field_defaults")
        if not isinstance(names, tuple) or self.class_attr(cls, "__init__") is not None:
            self.unsupported("tuple class " + cls.name)
        f = dict(zip(names, args))
        if len(args) > len(names) or any(k in f or k not in names for k in kw) or len(args) + len(kw) < len(names):
            if len(args) + len(kw) < len(names):
                d = self.world(dflt)
                if not isinstance(d, Ref) or self.h(d).entries:
                    self.unsupported("defaults of tuple class " + cls.name)
            self.exc("builtins.TypeError", "%s() arguments" % cls.qualname)
        f.update(kw)
        return self.new(HInst(cls, f))

    def enum_call(self, cls, args):
        v = args[0]
        v = self.expand(v)
        if isinstance(v, EnumV):
            v = v.value
        if kind_of(v) in ("int", "bool") and not (isinstance(v, S) and v.kind == "bool"):
            if isinstance(v, int):
                for n, x in cls.enum:
                    if x == v:
                        return EnumV(cls.name, n, x)
                self.exc("builtins.ValueError", "not a valid member")
            for n, x in cls.enum:
                if self.branch(v.t == x):
                    return EnumV(cls.name, n, x)
        self.exc("builtins.ValueError", "not a valid member")

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name, after=None):
        """Attribute from the repo classes of the MRO (None when only external classes define it)."""
        seen = after is None
        for m in cls.mro:
            if not seen:
                if m == after:
                    seen = True
                continue
            c = self.w.classes.get(m)
            if c is not None and c.dict is not None and name in c.dict:
                return self.cls_get(c, name)
        return None

    def cls_get(self, c, name):
        k = ("cls", c.name, name)
        if k in self.gmods:
            return self.gmods[k]
        return self.world(c.dict[name])

    def ext_class_attr(self, cls, name, after=None):
        seen = after is None
        for m in cls.mro:
            if not seen:
                if m == after:
                    seen = True
                continue
            c = self.w.classes.get(m)
            if c is not None and c.dict is not None:
                continue
            for k in (m + "." + name,):
                if k in self.task.ext or k in EXT:
                    return k
        return None

    def bind(self, m, ref, cls):
        if isinstance(m, (FuncV, CtxFunc, HostFn)):
            return BoundV(m, ref)
        if isinstance(m, ClsMeth):
            return BoundV(m.func, cls)
        if isinstance(m, StatMeth):
            return m.func
        if isinstance(m, PropV):
            return self.call(m.fget, [ref])
        return m

    NOATTR = object()

    def getattr(self, v, name, default=NOATTR):
        r = self.getattr0(v, name)
        if r is self.NOATTR and name == "__doc__" and not is_native(v):
            return self.fresh("doc", "str", log=False)
        if r is self.NOATTR:
            if default is not self.NOATTR:
                return default
            self.exc("builtins.AttributeError", "object has no attribute %r" % name)
        return r

    def getattr0(self, v, name):
        if isinstance(v, S) and is_py(v.kind):
            v = self.expand(v)
        if isinstance(v, Ref):
            o = self.h(v)
            if isinstance(o, HInst):
                if name in o.fields and o.cls.dict is not None and "_fields" in o.cls.dict and "builtins.tuple" in o.cls.mro:
                    return o.fields[name]
                m = self.class_attr(o.cls, name)
                if isinstance(m, PropV):
                    return self.call(m.fget, [v])
                if name in o.fields:
                    r = o.fields[name]
                    if isinstance(r, Poison):
                        self.unsupported("field %s unknown after a loop" % name)
                    hook = self.task.read_hook
                    if hook is not None:
                        r = hook(self, v, o, name, r)
                    return r
                if m is not None:
                    return self.bind(m, v, o.cls)
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    self.unsupported("__dict__")
                p = self.env_method(o.cls.name, "get:" + name)
                if p is not None:
                    return p(self, v, [], {})
                e = self.ext_class_attr(o.cls, name)
                if e is not None:
                    return ExtBound(e, v)
                if "builtins.BaseException" in o.cls.mro:
                    return self.exc_attr(v, o, name)
                lz = self.task.lazy_field
                if lz is not None:
                    r = lz(self, v, o, name)
                    if r is not self.NOATTR:
                        o.fields[name] = r
                        return r
                return self.NOATTR
            if isinstance(o, HOpq):
                if name in o.fields and not name.startswith("$"):
                    return o.fields[name]
                p = self.env_method(o.cls, "get:" + name)
                if p is not None:
                    return p(self, v, [], {})
                if self.env_method(o.cls, name) is not None:
                    return HostFn(o.cls + "." + name, lambda ex, a, k, v=v, o=o: ex.opq_call(v, o, name, a, k))
                if self.env_method(o.cls, "noattr:" + name) is not None or name.startswith("__") or o.cls.startswith("builtins."):
                    return self.NOATTR
                self.unsupported("attribute %s of external %s has no contract" % (name, o.cls))
            if isinstance(o, (HList, HDict, HSet, HCtx, HIter)):
                if name in METHODS.get(self.kind_tag(o), ()):
                    return BMeth(v, name)
                return self.NOATTR
        if isinstance(v, ModV):
            if self.w.is_repo_module(v.name):
                k = (v.name, name)
                if k in self.gmods:
                    return self.gmods[k]
                x, ok = self.w.module_var(v.name, name)
                if ok:
                    return self.world(x)
                if self.w.is_repo_module(v.name + "." + name):
                    return ModV(v.name + "." + name)
                return self.NOATTR
            full = v.name + "." + name
            k = ("ext", full)
            if k in self.gmods:
                return self.gmods[k]
            full0 = full
            from .world import canon
            full = canon(full)
            if full in self.w.d["consts"] and "get:" + full not in self.task.ext:
                return self.w.conv(self.w.d["consts"][full])
            g = self.task.ext.get("get:" + full) or EXT.get("get:" + full)
            if g is not None:
                return g(self, [], {})
            if full in self.task.ext or full in EXT:
                return ExtV(full)
            if "new:" + full in self.task.ext or "new:" + full in EXT or self.w.has_cls(full):
                return self.w.cls(full) if self.w.has_cls(full) else ClassV(full, [full, "builtins.object"])
            if full in SUBMODULES:
                return ModV(full)
            if full in ABSENT:
                return self.NOATTR
            return ExtV(full)
        if isinstance(v, ClassV):
            if v.enum is not None:
                for n, x in v.enum:
                    if n == name:
                        return EnumV(v.name, n, x)
            if name == "__name__":
                return (v.qualname or v.name).split(".")[-1]
            if v.dict is not None:
                m = self.class_attr(v, name)
                if m is not None:
                    if isinstance(m, ClsMeth):
                        return BoundV(m.func, v)
                    if isinstance(m, StatMeth):
                        return m.func
                    return m
            if v.dict is None or name != "__init__":
                k = v.name + "." + name
                if k in self.task.ext or k in EXT:
                    return ExtV(k)
            if name == "__init__":
                e = self.ext_class_attr(v, name)
                return ExtV(e) if e else ExtV("builtins.object.__init__")
            if v.name in ("builtins.dict", "builtins.str", "builtins.bytes", "builtins.int", "builtins.list"):
                return ExtV(v.name + "." + name)
            return self.NOATTR
        if isinstance(v, SuperV):
            o = self.h(v.obj) if isinstance(v.obj, Ref) else None
            cls = o.cls if o is not None else v.obj
            m = self.class_attr(cls, name, after=v.cls.name)
            if m is not None:
                return self.bind(m, v.obj, cls)
            e = self.ext_class_attr(cls, name, after=v.cls.name)
            if e is not None:
                return ExtBound(e, v.obj)
            if name == "__init__":
                return HostFn("object.__init__", lambda ex, a, k: ex.super_init(v.obj, a))
            return self.NOATTR
        if isinstance(v, EnumV):
            if name in ("name", "value"):
                return getattr(v, name)
            return self.NOATTR
        if isinstance(v, FuncV):
            if name in v.attrs:
                return self.world(v.attrs[name])
            if name == "__name__":
                return v.qualname.split(".")[-1]
            return self.NOATTR
        if isinstance(v, BoundV):
            if name == "__self__":
                return v.self_
            if name == "__func__":
                return v.func
            return self.getattr0(v.func, name)
        if isinstance(v, ExtV):
            full = v.name + "." + name
            if full in self.task.ext or full in EXT or full in self.w.d["consts"]:
                return self.getattr0(ModV(v.name), name)
            return self.NOATTR
        k = kind_of(v)
        if k == "tuple":
            nt = getattr(v, "_vpfields", None)
        if k in METHODS and name in METHODS[k]:
            return BMeth(v, name)
        if isinstance(v, (CtxFunc, HostFn, BMeth, ExtBound, PartialV)):
            return self.NOATTR
        return self.NOATTR

    def super_init(self, obj, args):
        o = self.h(obj)
        if "builtins.BaseException" in o.cls.mro:
            o.fields["args"] = tuple(args)

    def exc_attr(self, v, o, name):
        if name in ("args",):
            return o.fields.get("args", ())
        if name in ("errno", "strerror", "filename", "filename2") and self.is_sub(o.cls.name, "builtins.OSError"):
            a = o.fields.get("args", ())
            if name in ("errno", "strerror") and len(a) >= 2:
                return a[0 if name == "errno" else 1]
            r = None
            o.fields[name] = r
            return r
        if name in ("__traceback__", "__cause__", "__context__"):
            return None
        if name in ("message", "code", "returncode", "output", "reason"):
            if name == "code" and self.is_sub(o.cls.name, "builtins.SystemExit"):
                a = o.fields.get("args", ())
                return a[0] if a else None
        u = self.unknown.get(o.cls.name)
        if u is not None and any(y.startswith("dataplicity.") for y in u["yes"]) and not name.startswith("__"):
            o.fields[name] = self.fresh("exc." + name, "str")    # set by the unknown subclass's constructor
            return o.fields[name]
        if name == "with_traceback":
            return HostFn("with_traceback", lambda ex, a, k: v)
        return self.NOATTR

    def setattr(self, v, name, val):
        if isinstance(v, Ref):
            o = self.h(v)
            if isinstance(o, HInst):
                m = self.class_attr(o.cls, name)
                if isinstance(m, PropV):
                    if m.fset is None:
                        self.exc("builtins.AttributeError", "can't set attribute")
                    self.call(m.fset, [v, val])
                    return
                hook = self.task.write_hook
                if hook is not None:
                    hook(self, v, o, name, val)
                o.fields[name] = val
                return
            if isinstance(o, HOpq):
                m = self.env_method(o.cls, "set:" + name)
                if m is not None:
                    m(self, v, [val], {})
                else:
                    o.fields[name] = val
                return
        if isinstance(v, ClassV):
            self.gmods[("cls", v.name, name)] = val
            return
        if isinstance(v, ModV) and self.w.is_repo_module(v.name):
            self.gmods[(v.name, name)] = val
            return
        self.unsupported("attribute store on %r" % (v,))

    def kind_tag(self, o):
        if isinstance(o, HList):
            return "deque" if o.typ == "deque" else ("tuple" if o.typ == "tuple" else "list")
        if isinstance(o, HDict):
            return "dict"
        if isinstance(o, HSet):
            return "set"
        if isinstance(o, HIter):
            return "iter"
        return "gen"

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.steps += 1
            if self.steps > self.task.max_steps:
                self.unsupported("step limit")
            getattr(self, "s_" + type(s).__name__)(s)

    def s_Pass(self, n):
        pass

    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value)

    def s_Return(self, n):
        raise ReturnS(self.ev(n.value) if n.value is not None else None)

    def s_Break(self, n):
        raise BreakS()

    def s_Continue(self, n):
        raise ContinueS()

    def s_Global(self, n):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, n):
        from .world import canon
        for a in n.names:
            name = a.name if a.asname else a.name.split(".")[0]
            self.store(a.asname or name, ModV(canon(a.name if a.asname else name)))

    def s_ImportFrom(self, n):
        from .world import canon
        base = n.module or ""
        if n.level:
            parts = self.f.module.split(".")
            isp = self.w.d["modules"][self.f.module]["file"].endswith("__init__.py")
            parts = parts[:len(parts) - n.level + (1 if isp else 0)]
            base = ".".join(parts + ([n.module] if n.module else []))
        for a in n.names:
            self.store(a.asname or a.name, self.getattr(ModV(canon(base)), a.name))

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def s_AugAssign(self, n):
        op = OPS[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.store(t.id, self.augop(op, cur, self.ev(n.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(op, cur, self.ev(n.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(op, cur, self.ev(n.value)))
        else:
            self.unsupported("augmented assignment target")

    def augop(self, op, a, b):
        if op == "+" and isinstance(a, Ref) and isinstance(self.h(a), HList) and self.h(a).typ != "tuple":
            self.builtin_method(a, "extend", [b], {})
            return a
        if op == "|" and isinstance(a, Ref) and isinstance(self.h(a), HSet):
            self.builtin_method(a, "update", [b], {})
            return a
        return self.binop(op, a, b)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            if isinstance(t.slice, ast.Slice):
                self.setslice(o, t.slice, v)
            else:
                self.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, None if star else len(t.elts), minimum=len(t.elts) - 1 if star else None)
            if star:
                i = star[0]
                if len(items) < len(t.elts) - 1:
                    self.exc("builtins.ValueError", "not enough values to unpack")
                tail = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.newlist(items[i:len(items) - tail]))
                for e, x in zip(t.elts[i + 1:], items[len(items) - tail:]):
                    self.assign(e, x)
            else:
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        else:
            self.unsupported("assignment target")

    def unpack(self, v, n, minimum=None):
        """Concrete items of an iterable; with n given, exactly n items (ValueError otherwise)."""
        v = self.expand(v)
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, Ref) and isinstance(self.h(v), HList):
            o = self.h(v)
            if o.items is not None:
                items = list(o.items)
            elif n is not None:
                if not self.branch(z3.Length(o.seq) == n):
                    self.exc("builtins.ValueError", "wrong number of values to unpack")
                items = [self.seq_at(o, i) for i in range(n)]
            else:
                self.unsupported("unpacking of a list of unknown length")
        elif isinstance(v, (str, bytes)):
            items = [v[i:i + 1] if isinstance(v, str) else v[i] for i in range(len(v))]
        elif isinstance(v, S) and v.kind in ("str", "bytes"):
            if n is None:
                self.unsupported("unpacking of a string of unknown length")
            if not self.branch(z3.Length(v.t) == n):
                self.exc("builtins.ValueError", "wrong number of values to unpack")
            items = [self.getitem(v, i) for i in range(n)]
        elif isinstance(v, Ref) and isinstance(self.h(v), (HDict, HSet, HIter, HCtx, HInst, HOpq)):
            src = self.iter_source(v)
            if src[0] != "items":
                if n is not None and src[0] == "map":
                    return self.unpack_map(src, n)
                self.unsupported("unpacking of an unknown iterable")
            items = list(src[1])
        else:
            self.exc("builtins.TypeError", "cannot unpack non-iterable object")
        if n is not None and len(items) != n:
            self.exc("builtins.ValueError", "wrong number of values to unpack")
        return items

    def unpack_map(self, src, n):
        m = src[1]
        if not self.branch(m.length() == n):
            self.exc("builtins.ValueError", "wrong number of values to unpack")
        out = []
        for i in range(n):
            k = self.fresh("mapkey", "py")
            out.append(S(m.keykind, k.t))
        return out

    def seq_at(self, o, i):
        """Element i (a non-negative python int or int term known to be in range) of a symbolic list."""
        it = i if not isinstance(i, int) else z3.IntVal(i)
        t = o.seq
        tt = z3.simplify(t)
        return self.from_term(o.ekind, z3.simplify(T.nth(tt, it)))

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.f.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                if isinstance(t.slice, ast.Slice):
                    self.delslice(o, t.slice)
                else:
                    self.delitem(o, self.ev_index(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                h = self.h(o)
                if t.attr not in h.fields:
                    self.exc("builtins.AttributeError", t.attr)
                del h.fields[t.attr]
            else:
                self.unsupported("del")

    def s_FunctionDef(self, n):
        f = self.make_func(n, n.name)
        v = f
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d), [v])
        self.store(n.name, v)

    def make_func(self, node, name):
        base = self.f.func.qualname + ".<locals>." if self.f.func is not None else ""
        a = node.args
        fv = FuncV(node, self.f.module, base + name, [self.ev(d) for d in a.defaults],
                   {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, frame=self.f, clsname=self.f.clsname)
        return fv

    def s_ClassDef(self, n):
        self.unsupported("local class")

    def s_If(self, n):
        if self.truth(self.ev(n.test)):
            self.block(n.body)
        else:
            self.block(n.orelse)

    def s_Assert(self, n):
        if not self.truth(self.ev(n.test)):
            args = [self.ev(n.msg)] if n.msg is not None else []
            self.exc("builtins.AssertionError", *args)

    def s_Raise(self, n):
        if n.exc is None:
            if not self.curexc:
                self.exc("builtins.RuntimeError", "No active exception to reraise")
            raise self.curexc[-1]
        e = self.ev(n.exc)
        if n.cause is not None:
            self.ev(n.cause)
        if isinstance(e, ClassV):
            e = self.instantiate(e, [], {})
        if isinstance(e, Ref):
            o = self.h(e)
            cn = self.clsname_of(e)
            if self.is_sub(cn, "builtins.BaseException"):
                raise PyExc(e, cn, self.f.func.key if self.f.func else "")
        self.exc("builtins.TypeError", "exceptions must derive from BaseException")

    def matches(self, pe, t):
        if isinstance(t, tuple):
            return any(self.matches(pe, x) for x in t)
        if isinstance(t, ExtV) and self.w.has_cls(t.name):
            t = self.w.cls(t.name)
        if not isinstance(t, ClassV):
            self.unsupported("exception class %r" % (t,))
        return self.is_sub(pe.clsname, t.name)

    def s_Try(self, n):
        try:
            self.try_inner(n)
        except SIGNALS as sig:
            if n.finalbody:
                self.run_finally(n.finalbody, sig)
            raise
        else:
            self.block(n.finalbody)

    s_TryStar = s_Try

    def run_finally(self, body, sig):
        if isinstance(sig, PyExc):
            self.curexc.append(sig)
        try:
            self.block(body)
        finally:
            if isinstance(sig, PyExc):
                self.curexc.pop()

    def try_inner(self, n):
        nf = len(self.frames)
        try:
            self.block(n.body)
        except PyExc as pe:
            for hd in n.handlers:
                if hd.type is None or self.matches(pe, self.ev(hd.type)):
                    if hd.name:
                        self.store(hd.name, pe.ref)
                    self.curexc.append(pe)
                    try:
                        self.block(hd.body)
                    finally:
                        self.curexc.pop()
                        if hd.name:
                            self.f.loc.pop(hd.name, None)
                    return
            raise
        else:
            self.block(n.orelse)

    def s_With(self, n):
        self.with_items(n.items, 0, lambda: self.block(n.body))

    def with_items(self, items, i, body):
        if i == len(items):
            return body()
        it = items[i]
        cm = self.ev(it.context_expr)

        def inner(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            self.with_items(items, i + 1, body)
        self.with_value(cm, inner)

    def with_value(self, cm, inner):
        cm = self.expand(cm)
        if isinstance(cm, Ref) and isinstance(self.h(cm), HCtx):
            return self.with_gen(self.h(cm), inner)
        ent = self.getattr(cm, "__enter__") if not isinstance(cm, Ref) or not isinstance(self.h(cm), HOpq) else None
        ref = cm
        o = self.h(cm)

        def exit_(a):
            if isinstance(o, HOpq):
                return self.opq_call(ref, o, "__exit__", a, {})
            return self.call(self.getattr(ref, "__exit__"), a)
        v = self.call(ent, []) if ent is not None else self.opq_call(cm, o, "__enter__", [], {})
        try:
            inner(v)
        except PyExc as pe:
            self.curexc.append(pe)
            try:
                r = exit_([self.w.cls(pe.clsname) if self.w.has_cls(pe.clsname) else ClassV(pe.clsname, self.mro_of(pe.clsname)), pe.ref, None])
            finally:
                self.curexc.pop()
            if not self.truth(r):
                raise
        except (ReturnS, BreakS, ContinueS, GenExit):
            exit_([None, None, None])
            raise
        else:
            exit_([None, None, None])

    def with_gen(self, hc, inner):
        """with statement over a @contextmanager function: its body runs with `yield` executing the with-body."""
        state = {"n": 0, "sig": None}
        outer = list(self.frames)

        def ycb(v):
            if state["n"]:
                self.exc("builtins.RuntimeError", "generator didn't stop")
            state["n"] = 1
            saved = self.frames
            self.frames = outer[:]
            d = self.depth
            try:
                inner(v)
            except (ReturnS, BreakS, ContinueS, GenExit) as sig:
                state["sig"] = sig     # the generator resumes normally after yield
            finally:
                self.frames = saved
                self.depth = d
            return None
        try:
            self.run_body(hc.func, hc.args, hc.kwargs, ycb=ycb)
        finally:
            self.frames = outer
        if not state["n"]:
            self.exc("builtins.RuntimeError", "generator didn't yield")
        if state["sig"] is not None:
            raise state["sig"]

    # ------------------------------------------------------------ loops
    def s_While(self, n):
        def step():
            return self.truth(self.ev(n.test))
        self.run_loop(n, step, lambda: self.block(n.body), lambda: self.block(n.orelse))

    def s_For(self, n):
        it = self.ev(n.iter)
        self.for_each(n, it, lambda v: self.assign(n.target, v), lambda: self.block(n.body), lambda: self.block(n.orelse))

    def for_each(self, node, it, bindv, body, orelse):
        src = self.iter_source(it)
        k = src[0]
        if k == "items":
            i = 0
            items = src[1]
            live = src[2] if len(src) > 2 else None     # live list: re-read on each step
            watch = live if isinstance(live, tuple) else None
            live = None if watch else live
            while True:
                if watch and i:
                    B_check_live(self, watch)
                cur = live.items if live is not None and live.items is not None else items
                if live is not None and live.items is None:
                    self.unsupported("list becomes symbolic while iterated")
                if i >= len(cur):
                    break
                v = cur[i]
                i += 1
                bindv(v)
                try:
                    body()
                except BreakS:
                    return
                except ContinueS:
                    pass
            orelse()
        elif k == "seq":
            self.loop_seq(node, src[1], src[2], bindv, body, orelse, src[3] if len(src) > 3 else None)
        elif k == "stream":
            nxt = src[1]

            def step():
                ok, v = nxt(self)
                if ok:
                    bindv(v)
                return ok
            self.run_loop(node, step, body, orelse)
        elif k == "gen":
            self.loop_gen(src[1], bindv, body, orelse)
        elif k == "map":
            watch = src[3] if len(src) > 3 else None

            def body2():
                try:
                    body()
                except ContinueS:
                    pass
                if watch:
                    B_check_live(self, watch)
            src[1].loop(self, node, src[2], bindv, body2, orelse)
        else:
            self.unsupported("iteration over %s" % k)

    def loop_gen(self, hc, bindv, body, orelse):
        outer = list(self.frames)

        def ycb(v):
            saved, d = self.frames, self.depth
            self.frames = outer[:]
            try:
                bindv(v)
                body()
            except ContinueS:
                pass
            except (BreakS, ReturnS, PyExc) as sig:
                raise GenExit(sig)
            finally:
                self.frames, self.depth = saved, d
            return None
        try:
            if hc.frame is not None:   # generator expression
                self.run_genexp(hc, ycb)
            else:
                self.run_body(hc.func, hc.args, hc.kwargs, ycb=ycb)
        except GenExit as ge:
            self.frames = outer
            if isinstance(ge.sig, BreakS):
                return
            raise ge.sig
        finally:
            self.frames = outer
        orelse()

    def run_genexp(self, hc, ycb):
        saved = self.frames
        self.frames = saved + [hc.frame]
        try:
            self.comp_run(hc.func, hc.frame, lambda: ycb(self.ev(hc.func.elt)), first=hc.args[0])
        finally:
            self.frames = saved

    def loop_seq(self, node, seq, ekind, bindv, body, orelse, tag):
        """for over a symbolic sequence: seq == done ++ rest at the loop head."""
        fr = self.f
        n = self.names.get("$loop", 0)
        self.names["$loop"] = n + 1
        dn, rn = "$done%d" % n, "$rest%d" % n
        fr.loc[dn] = S("seq:" + ekind, z3.Empty(z3.SeqSort(sort_of(ekind))))
        fr.loc[rn] = S("seq:" + ekind, seq)
        st = {"dn": dn, "rn": rn, "seq": seq, "ekind": ekind, "tag": tag}

        def on_havoc():
            d, r = self.freshseq("done", ekind), self.freshseq("rest", ekind)
            fr.loc[dn], fr.loc[rn] = S("seq:" + ekind, d), S("seq:" + ekind, r)
            self.assume(z3.Concat(d, r) == seq)
            self.task.on_seq_head(self, st, d, r)

        def step():
            r, d = fr.loc[rn].t, fr.loc[dn].t
            if self.branch(z3.Length(r) == 0):
                self.assume(r == z3.Empty(r.sort()))
                self.assume(d == seq)
                return False
            e, r2 = self.seq_uncons(r, ekind)
            fr.loc[rn] = S("seq:" + ekind, r2)
            fr.loc[dn] = S("seq:" + ekind, z3.Concat(d, z3.Unit(e)))
            self.task.on_seq_elem(self, st, d, e, r2)
            bindv(self.from_term(ekind, e))
            return True
        self.run_loop(node, step, body, orelse, on_havoc=on_havoc, hidden={(fr.uid, dn), (fr.uid, rn)}, seqinfo=st)

    def seq_uncons(self, r, ekind):
        k = ("uncons", r.get_id())
        if k not in self.memo:
            e = self.fresh("elem", ekind).t
            r2 = self.freshseq("tail", ekind)
            self.memo[k] = (e, r2, r)
            self.assume(r == z3.Concat(z3.Unit(e), r2))
            if ekind == "bytes":
                self.assume(T.J(r) == z3.Concat(e, T.J(r2)))
                self.assume(T.NE(r) == z3.And(e != z3.StringVal(""), T.NE(r2)))
        return self.memo[k][0], self.memo[k][1]

    # -- state snapshots
    def snapshot(self):
        s = {}
        for f in self.allframes:
            for k, v in f.loc.items():
                s[("L", f.uid, k)] = v
        for oid, o in self.heap.items():
            if isinstance(o, (HInst, HOpq)):
                for k, v in o.fields.items():
                    s[("H", oid, k)] = v
            elif isinstance(o, HList):
                s[("H", oid, "$list")] = ("list", tuple(o.items)) if o.items is not None else ("seq", o.ekind, o.seq)
            elif isinstance(o, HDict):
                s[("H", oid, "$dict")] = (tuple(tuple(e) for e in o.entries), o.base)
            elif isinstance(o, HSet):
                s[("H", oid, "$set")] = (tuple(o.items) if o.items is not None else None, o.seq)
        for k, v in self.g.items():
            s[("G", 0, k)] = v
        for k, v in self.gmods.items():
            s[("M", 0, k)] = v
        return s

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, S) and isinstance(b, S):
            return a.kind == b.kind and (a.t is b.t or a.t.eq(b.t))
        if isinstance(a, S) or isinstance(b, S):
            return False
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if type(a) is not type(b):
            return False
        if isinstance(a, (T.TermMap, T.PairSeq)):
            return a.key() == b.key()
        try:
            return bool(a == b)
        except Exception:
            return False

    def shape(self, v, horizon):
        if v is None:
            return ("none",)
        if isinstance(v, S):
            return ("kind", v.kind)
        if isinstance(v, (bool, int, float, str, bytes)):
            return ("const", kind_of(v), v)
        if isinstance(v, EnumV):
            return ("enum", v)
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.shape(x, horizon) for x in v)
        if isinstance(v, Ref):
            if v.oid < horizon:
                return ("ref", v.oid)
            o = self.h(v)
            if isinstance(o, HList):
                return ("newlist", o.typ, self.ekind_of(o))
            if isinstance(o, HInst):
                return ("newinst", o.cls, tuple(sorted((k, self.shape(x, horizon)) for k, x in o.fields.items())))
            if isinstance(o, HOpq):
                return ("newopq", o.cls)
            return ("newobj", type(o).__name__)
        if isinstance(v, z3.ExprRef):
            return ("term", v.sort())
        if isinstance(v, Poison):
            return ("poison", v.why)
        if isinstance(v, (HostFn, BMeth, ExtBound, PartialV)):
            return ("newobj", type(v).__name__)
        return ("val", v)

    def ekind_of(self, o):
        if o.items is None:
            return o.ekind
        ks = set()
        for x in o.items:
            k = kind_of(x)
            ks.add(k if k in ("int", "bool", "str", "bytes", "real") else (k if is_py(k) else "py"))
            if isinstance(x, Ref) and isinstance(self.h(x), (HInst, HOpq, HIter, HCtx)):
                return "refs"
            if isinstance(x, tuple) and any(isinstance(y, Ref) and isinstance(self.h(y), (HInst, HOpq, HIter, HCtx)) for y in x):
                return "refs"
        if not ks:
            return None
        if len(ks) == 1:
            return ks.pop()
        return "py"

    def havoc_value(self, shapes, label):
        """A value of one of the recorded shapes, unconstrained within it."""
        alts = {}
        for s in shapes:
            if s[0] == "const":
                alts.setdefault(("k", s[1]), set()).add(s)
            elif s[0] == "kind":
                alts.setdefault(("k", s[1]), set()).add(s)
            elif s[0] == "newlist":
                alts.setdefault(("nl", s[1]), set()).add(s)
            elif s[0] == "newinst":
                alts.setdefault(("ni", s[1].name), set()).add(s)
            else:
                alts.setdefault(s, set()).add(s)
        keys = sorted(alts, key=repr)
        if len(keys) > 1:
            pois = [k for k in keys if self.poisonous(k, alts[k])]
            if pois:      # the unusable alternative covers the others (None is kept apart: it is only compared)
                keys = [k for k in keys if k == ("none",)] + pois[:1]
        i = self.choose(len(keys), "havoc:" + label)
        k = keys[i]
        grp = alts[k]
        if k[0] == "k":
            if len(grp) == 1 and next(iter(grp))[0] == "const":
                return next(iter(grp))[2]
            return self.fresh("hv." + label, k[1]) if not k[1].startswith("seq:") else S(k[1], self.freshseq("hv." + label, k[1][4:]))
        if k[0] == "nl":
            eks = {s[2] for s in grp} - {None}
            ek = self.join_ekind(eks)
            if ek is None:
                return self.newlist([], k[1])
            if ek == "refs":
                return Poison("list of objects built in a loop")
            return self.newseq(self.freshseq("hv." + label, ek), ek, typ=k[1])
        if k[0] == "ni":
            fields = {}
            for s in grp:
                for n, sh in s[2]:
                    fields.setdefault(n, set()).add(sh)
            cls = next(iter(grp))[1]
            return self.new(HInst(cls, {n: self.havoc_value(fs, label + "." + n) for n, fs in sorted(fields.items())}))
        s = next(iter(grp))
        if s[0] == "none":
            return None
        if s[0] == "enum":
            return s[1]
        if s[0] == "tuple":
            return tuple(self.havoc_value({x}, "%s.%d" % (label, j)) for j, x in enumerate(s[1:]))
        if s[0] == "ref":
            return Ref(s[1])
        if s[0] == "term":
            n = self.names.get("hv." + label, 0)
            self.names["hv." + label] = n + 1
            return z3.Const("hv.%s!%d" % (label, n), s[1])
        if s[0] == "val":
            return s[1]
        if s[0] == "newopq":
            mk_ = self.task.opq_factory.get(s[1])
            if mk_ is not None:
                return mk_(self)
        return Poison("object created in an earlier iteration (%s)" % (s,))

    def poisonous(self, k, grp):
        if k[0] == "nl":
            return self.join_ekind({s[2] for s in grp} - {None}) == "refs"
        if k[0] == "newopq":
            return k[1] not in self.task.opq_factory
        return k[0] in ("newobj", "poison")

    def join_ekind(self, eks):
        eks = set(eks)
        if not eks:
            return None
        if len(eks) == 1:
            return eks.pop()
        if "refs" in eks:
            return "refs"
        return "py"

    def havoc_loc(self, loc, shapes):
        k, a, b = loc
        if k == "L":
            for f in self.allframes:
                if f.uid == a:
                    if ("absent",) in shapes and b not in f.loc:
                        f.maybe.add(b)      # first bound inside the loop: possibly unbound at the head, not readable there
                        return
                    f.loc[b] = self.havoc_value(shapes, str(b))
        elif k == "G":
            hv = self.task.ghost_havoc.get(b)
            self.g[b] = hv(self) if hv is not None else self.havoc_value(shapes, "g." + str(b))
        elif k == "M":
            self.gmods[b] = self.havoc_value(shapes, str(b[-1]))
        else:
            o = self.heap.get(a)
            if o is None:
                return
            if b == "$list":
                eks = {s[1] for s in shapes if s[0] == "list"}
                ek = self.join_ekind(eks - {None})
                if self.task.list_refs and ek is not None:
                    ek = "refs"
                if ek is None:
                    o.items, o.seq = [], None
                elif ek == "refs":
                    hv = self.task.list_havoc
                    if hv is None or not hv(self, Ref(a), o):
                        o.items, o.seq, o.ekind = None, None, "refs"
                else:
                    o.items, o.seq, o.ekind, o.src = None, self.freshseq("hv.list", ek), ek, None
            elif b == "$dict":
                hv = self.task.dict_havoc
                if hv is None or not hv(self, Ref(a), o):
                    o.entries, o.base = [], T.AbsMap("hv.dict%d" % a, self)
            elif b == "$set":
                hv = self.task.set_havoc
                if hv is None or not hv(self, Ref(a), o):
                    o.items, o.seq = None, None
            else:
                o.fields[b] = self.havoc_value(shapes, str(b))

    def loc_shape(self, loc, val, horizon):
        if loc[2] == "$list":
            o = self.heap[loc[1]]
            if val[0] == "list":
                tmp = HList(items=list(val[1]))
                return ("list", self.ekind_of(tmp))
            return ("list", val[1])
        if loc[2] == "$dict":
            return ("dict",)
        if loc[2] == "$set":
            return ("set",)
        return self.shape(val, horizon)

    ABSENT = object()

    def run_loop(self, node, step, body, orelse=None, on_havoc=None, hidden=(), seqinfo=None):
        task = self.task
        key = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.f.module if self.frames else "", tuple(self.dec))
        info = task.loops.get(key)
        if info is None:
            info = task.loops[key] = LoopInfo()
        at = tuple(self.dec)
        entry = L()
        entry.locals = self.visible()
        entry.g = dict(self.g)
        lv = L()
        lv.entry, lv.info, lv.seqinfo, lv.key = entry, info, seqinfo, key[:3]
        snap0 = self.snapshot()
        # candidates at entry
        at_entry = self.candidates(lv)
        known = set(lv.names)
        if not info.entered:
            bad = [n for n, c in at_entry if n not in info.dead and not self.holds(c)]
            info.dead.update(bad)
            info.entered = True
        horizon = self.noid
        entry.horizon = horizon
        for loc in sorted(info.mod, key=repr):
            self.havoc_loc(loc, info.mod[loc])
        if on_havoc is not None:
            on_havoc()
        assumed = set()
        for n, c in self.candidates(lv):
            if n not in info.dead and n in known:      # what was not stated of the state before the loop is not assumed of its head
                self.assume(c)
                assumed.add(n)
            elif n not in info.dead and STRICT_DBG:
                print("   [%s] loop %s not stated at entry: %s" % (task.name, key[:3], n))
        self.task.on_loop_head(self, lv)
        head_vars = dict(self.variants(lv))
        snap = self.snapshot()
        self.loopstack.append(key)
        try:
            go = step()
        finally:
            self.loopstack.pop()
        if not go:
            if orelse is not None:
                orelse()
            return
        self.loopstack.append(key)
        try:
            body()
        except BreakS:
            self.loopstack.pop()
            return
        except ContinueS:
            pass
        except BaseException:
            self.loopstack.pop()
            raise
        self.loopstack.pop()
        # back-edge
        info.backedges += 1
        now = self.snapshot()
        changed = False
        for loc, v in now.items():
            if loc[0] == "H" and loc[1] >= horizon:
                continue
            if loc[0] == "L" and ((loc[1], loc[2]) in hidden or self.frame_new(loc[1], snap)):
                continue
            old = snap.get(loc, self.ABSENT)
            if old is self.ABSENT and loc[0] == "L":
                # first bound inside the loop body: unbound at the head
                sh = ("absent",)
                if loc not in info.mod:
                    info.mod[loc] = {sh}
                    changed = True
                continue
            if old is not self.ABSENT and self.same(old, v):
                continue
            sh = self.loc_shape(loc, v, horizon)
            shs = info.mod.get(loc)
            if shs is None or shs == {("absent",)}:
                shs = info.mod[loc] = set()
                if loc in snap0:
                    shs.add(self.loc_shape(loc, snap0[loc], horizon))
                else:
                    shs.add(("none",) if loc[0] != "H" else self.loc_shape(loc, v, horizon))
                changed = True
            if not self.shape_in(sh, shs):
                shs.add(sh)
                changed = True
        for loc in snap:
            if loc not in now and loc[0] in ("G", "M"):
                self.unsupported("ghost removed in loop")
        if changed:
            raise Restart(at)
        bad = [n for n, c in self.candidates(lv) if n not in info.dead and not self.holds(c)]
        if STRICT_DBG and assumed - set(lv.names):
            print("   [%s] loop %s not stated at the back edge: %s" % (task.name, key[:3], sorted(assumed - set(lv.names))))
        bad += sorted(assumed - set(lv.names) - set(bad))
        if bad:
            if task.debug:
                print("   [%s] loop %s drops %s" % (task.name, key[:3], bad))
            info.dead.update(bad)
            raise Restart(at)
        self.task.on_backedge(self, lv)
        now_vars = dict(self.variants(lv))
        info.dead_var.update(set(head_vars) - set(now_vars))
        for n, m in now_vars.items():
            if n in info.dead_var:
                continue
            info.vars_seen.add(n)
            m0 = head_vars.get(n)
            if m0 is None or not self.holds(z3.And(m0 >= 0, m < m0)):
                info.dead_var.add(n)
        raise PathEnd()

    def frame_new(self, uid, snap):
        return uid not in self._uids(snap)

    def _uids(self, snap):
        u = snap.get("$uids")
        if u is None:
            u = {k[1] for k in snap if isinstance(k, tuple) and k[0] == "L"}
            u |= {f.uid for f in self.frames}
            snap2 = u
            return snap2
        return u

    def shape_in(self, sh, shs):
        if sh in shs:
            return True
        if sh[0] == "const":
            return ("kind", sh[1]) in shs
        if sh[0] == "list":
            eks = {s[1] for s in shs if s[0] == "list"}
            if sh[1] is None or sh[1] in eks:
                return True
            return self.join_ekind((eks | {sh[1]}) - {None}) == self.join_ekind(eks - {None})
        if sh[0] == "kind":
            return False
        return False

    def visible(self):
        out = {}
        fr = self.f if self.frames else None
        chain = []
        while fr is not None:
            chain.append(fr)
            fr = fr.parent
        for f in reversed(chain):
            out.update(f.loc)
        # consumers of generators and callers: their locals may carry the accumulators
        for i, f in enumerate(self.frames):
            if f in chain:
                continue
            for k, v in f.loc.items():
                out.setdefault("%s@%d" % (k, i), v)
        return out

    def candidates(self, lv):
        lv.locals = self.visible()
        lv.g = self.g
        if lv.seqinfo is not None:
            lv.done, lv.rest = self.f.loc[lv.seqinfo["dn"]].t, self.f.loc[lv.seqinfo["rn"]].t
            lv.seq, lv.tag = lv.seqinfo["seq"], lv.seqinfo["tag"]
        else:
            lv.done = lv.rest = lv.seq = lv.tag = None
        out = []
        seen = set()
        for fn in [generic_candidates] + self.task.candidates:
            for n, c in fn(self, lv):
                if n in seen:
                    continue
                seen.add(n)
                if c is True:
                    continue
                if c is False:
                    c = z3.BoolVal(False)
                out.append((n, c))
        lv.names = seen
        return out

    def variants(self, lv):
        if not self.task.variant_candidates:
            return []
        lv.locals = self.visible()
        lv.g = self.g
        out = []
        if lv.seqinfo is not None:
            out.append(("len(rest)", z3.Length(self.f.loc[lv.seqinfo["rn"]].t)))
        for fn in self.task.variant_candidates:
            out.extend(fn(self, lv))
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        return getattr(self, "e_" + type(n).__name__)(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Tuple(self, n):
        return tuple(self.ev_star(n.elts))

    def e_List(self, n):
        return self.newlist(self.ev_star(n.elts))

    def e_Set(self, n):
        r = self.new(HSet(items=[]))
        for x in self.ev_star(n.elts):
            self.builtin_method(r, "add", [x], {})
        return r

    def ev_star(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.unpack(self.ev(e.value), None))
            else:
                out.append(self.ev(e))
        return out

    def e_Dict(self, n):
        r = self.newdict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.builtin_method(r, "update", [self.ev(v)], {})
            else:
                kk = self.ev(k)
                self.setitem(r, kk, self.ev(v))
        return r

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def ev_index(self, s):
        if isinstance(s, ast.Index):
            s = s.value
        return self.ev(s)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        s = n.slice
        if isinstance(s, ast.Slice):
            lo = self.ev(s.lower) if s.lower is not None else None
            hi = self.ev(s.upper) if s.upper is not None else None
            st = self.ev(s.step) if s.step is not None else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.ev_index(s))

    def e_Slice(self, n):
        return self.unsupported("slice object")

    def e_Lambda(self, n):
        return self.make_func(n, "<lambda>")

    def e_IfExp(self, n):
        return self.ev(n.body) if self.truth(self.ev(n.test)) else self.ev(n.orelse)

    def e_BoolOp(self, n):
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v
            if isinstance(n.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, n):
        v = self.expand(self.ev(n.operand))
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            if isinstance(t, bool):
                return not t
            return mk("bool", z3.Not(t))
        if isinstance(n.op, ast.USub):
            if is_native(v):
                return -v
            return mk(v.kind if v.kind != "bool" else "int", -term(v))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, int):
                return ~v
        self.unsupported("unary operator")

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(OPS.get(type(n.op)) or self.unsupported("operator"), a, b)

    def e_Compare(self, n):
        a = self.ev(n.left)
        for i, (op, x) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(x)
            r = self.compare(CMP[type(op)], a, b)
            if i == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return r
            a = b

    def e_Call(self, n):
        # super() needs the frame
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in self.f.names:
            if n.args:
                c = self.ev(n.args[0])
                o = self.ev(n.args[1])
            else:
                fr = self.f
                while fr.clsname is None:
                    fr = fr.parent
                c, o = self.w.cls(fr.clsname), fr.selfv
            return SuperV(c, o)
        fn = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                sv = self.expand(self.ev(a.value))
                if isinstance(sv, Ref) and isinstance(self.h(sv), HList) and self.h(sv).items is None:
                    args.append(StarArg(sv))
                elif self.unknown_len(sv):
                    args.append(StarArg(self.havoc_items(sv)))
                else:
                    args.extend(self.unpack(sv, None))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.expand(self.ev(k.value))
                o = self.h(d)
                if not isinstance(o, HDict) or o.base is not None:
                    self.unsupported("** of a symbolic dict")
                for a, b in self.dict_items(o):
                    if not isinstance(a, str):
                        self.exc("builtins.TypeError", "keywords must be strings")
                    if a in kw:
                        self.exc("builtins.TypeError", "multiple values for keyword argument")
                    kw[a] = b
            else:
                kw[k.arg] = self.ev(k.value)
        if any(isinstance(a, StarArg) for a in args):
            args = self.star_args(fn, args)
        return self.call(fn, args, kw)

    def unknown_len(self, v):
        if isinstance(v, S):
            return v.kind in ("str", "bytes")
        return isinstance(v, Ref) and isinstance(self.h(v), HDict) and self.h(v).base is not None

    def havoc_items(self, v):
        """A list of as many items as v has, about which nothing else is known."""
        ek = {"str": "str", "bytes": "int"}[v.kind] if isinstance(v, S) else "py:any"
        seq = self.freshseq("items", ek)
        if isinstance(v, S):
            self.assume(z3.Length(seq) == z3.Length(v.t))
        return self.newseq(seq, ek)

    def star_args(self, fn, args):
        """Positional *args of symbolic length: decide the length up to what the callee can bind, one extra class above."""
        f, n = (fn.func, len(args)) if isinstance(fn, BoundV) else (fn, len(args) - 1)
        if isinstance(f, FuncV) and isinstance(args[-1], StarArg) and sum(isinstance(a, StarArg) for a in args) == 1:
            fa = f.node.args
            if fa.vararg and n == len(getattr(fa, "posonlyargs", []) + fa.args) and f.key not in self.task.contracts and not scope_of(f.node)[3]:
                return args
        out = []
        for a in args:
            if not isinstance(a, StarArg):
                out.append(a)
                continue
            o = self.h(a.v)
            bound = self.task.star_bound
            for n in range(bound + 1):
                if self.branch(z3.Length(o.seq) == n):
                    out.extend(self.seq_at(o, i) for i in range(n))
                    break
            else:
                # more than `bound` items: first `bound` items, then an opaque remainder
                out.extend(self.seq_at(o, i) for i in range(bound))
                out.append(MoreArgs(a.v, bound))
        return out

    def e_JoinedStr(self, n):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value)
                spec = ""
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec)
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[x.conversion]
                parts.append(T_format(self, v, conv, spec))
        return self.concat_str(parts, "str")

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.store(n.target.id, v)
        return v

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        fr = self.f
        while fr is not None and fr.ycb is None:
            fr = fr.parent
        if fr is None:
            self.unsupported("yield outside a driven generator")
        return fr.ycb(v)

    def e_YieldFrom(self, n):
        it = self.ev(n.value)
        fr = self.f
        self.for_each(n, it, lambda v: fr.loc.__setitem__("$yf", v), lambda: fr.ycb(fr.loc["$yf"]), lambda: None)
        return None

    # comprehensions: explicit accumulation loops in a child frame
    def comp_frame(self, n):
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        f = Frame(self.f.func, self.f, self.f.module, self.f.clsname, names, set(), set(), self.nframe, {})
        self.nframe += 1
        self.allframes.append(f)
        f.selfv = self.f.selfv
        return f

    def comp_run(self, n, fr, emit, i=0, first=None):
        if i == len(n.generators):
            return emit()
        g = n.generators[i]
        it = first if i == 0 and first is not None else self.ev(g.iter)

        def body():
            for c in g.ifs:
                if not self.truth(self.ev(c)):
                    return
            self.comp_run(n, fr, emit, i + 1)
        self.for_each(CompNode(n, i), it, lambda v: self.assign(g.target, v), body, lambda: None)

    def comp(self, n, acc, emit):
        it = self.ev(n.generators[0].iter)
        fr = self.comp_frame(n)
        k = self.names.get("$acc", 0)
        self.names["$acc"] = k + 1
        fr.loc["$acc"] = acc
        self.frames.append(fr)
        try:
            self.comp_run(n, fr, lambda: emit(fr.loc["$acc"]), first=it)
            return fr.loc["$acc"]
        finally:
            while self.frames[-1] is not fr:
                self.frames.pop()
            self.frames.pop()

    def e_ListComp(self, n):
        return self.comp(n, self.newlist([]), lambda a: self.builtin_method(a, "append", [self.ev(n.elt)], {}))

    def e_SetComp(self, n):
        return self.comp(n, self.new(HSet(items=[])), lambda a: self.builtin_method(a, "add", [self.ev(n.elt)], {}))

    def e_DictComp(self, n):
        h = self.task.dictcomp_hook
        if h is not None:
            r = h(self, n)
            if r is not None:
                return r

        def emit(a):
            k = self.ev(n.key)
            self.setitem(a, k, self.ev(n.value))
        return self.comp(n, self.newdict(), emit)

    def e_GeneratorExp(self, n):
        it = self.ev(n.generators[0].iter)
        fr = self.comp_frame(n)
        return self.new(HCtx(n, [it], {}, frame=fr))

    def e_Await(self, n):
        self.unsupported("await")

    def e_Starred(self, n):
        self.unsupported("starred expression")


class StarArg(object):
    def __init__(self, v):
        self.v = v


class MoreArgs(object):
    """Unknown further positional arguments (more than any callee in scope binds)."""
    def __init__(self, v, n):
        self.v, self.n = v, n


class CompNode(object):
    def __init__(self, n, i):
        self.lineno, self.col_offset = n.lineno, n.col_offset * 10 + i


STRICT_DBG = bool(os.environ.get("VP_STRICT_DBG"))


def generic_candidates(ex, lv):
    """Shape-independent facts tried at every loop: bounds of integers against their entry values."""
    out = []
    for k, v in lv.locals.items():
        if "@" in k:
            continue
        if kind_of(v) in ("int", "real") and not (isinstance(v, float) and v - v != 0):
            e = lv.entry.locals.get(k)
            if e is not None and kind_of(e) == kind_of(v):
                out.append((k + ">=entry", term(v) >= term(e)))
                out.append((k + "<=entry", term(v) <= term(e)))
            out.append((k + ">=0", term(v) >= 0))
    for k, v in lv.g.items():
        if kind_of(v) in ("int", "real") and not (isinstance(v, float) and v - v != 0):
            e = lv.entry.g.get(k)
            if e is not None and kind_of(e) == kind_of(v):
                out.append(("g." + k + ">=entry", term(v) >= term(e)))
                out.append(("g." + k + "<=entry", term(v) <= term(e)))
            out.append(("g." + k + ">=0", term(v) >= 0))
    return out


EXT = {}
BUILTINS = {}
METHODS = {}
SUBMODULES = {"os.path", "logging.config", "logging.handlers", "urllib.parse", "urllib.request", "six.moves"}
ABSENT = {"sys.setcheckinterval"}


def B_check_live(ex, watch):
    from .builtins_ import check_live
    check_live(ex, watch)


def T_format(ex, v, conv, spec):
    from .builtins_ import fmt_value
    return fmt_value(ex, v, conv, spec)


from . import builtins_   # noqa: E402  (registers builtins on Ex)
