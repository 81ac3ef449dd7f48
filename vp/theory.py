"""Function symbols of the specification theory, with smart constructors that apply their defining equations."""
import z3
from .values import Py, SeqPy, S, zstr, unz, sort_of, is_py, mk, Unsupported

Str, Int, Bool = z3.StringSort(), z3.IntSort(), z3.BoolSort()
SeqStr = z3.SeqSort(Str)
_J = z3.Function("J", SeqStr, Str)              # concatenation of a list of byte strings
_DEC = z3.Function("DEC", Int, Str)             # decimal rendering of an integer
_UTF8 = z3.Function("UTF8", Str, Str)
_ENCOK = z3.Function("ENCOK", Str, Bool)        # text without lone surrogates
_DEC8 = z3.Function("DEC8", Str, Str)
_VALID8 = z3.Function("VALID8", Str, Bool)
_DECI = z3.Function("DECI", Str, Str)           # decode, errors ignored
_DECR = z3.Function("DECR", Str, Str)           # decode, errors replaced
_ENCR = z3.Function("ENCR", Str, Str)
INTOK = z3.Function("INTOK", Str, Bool)         # int(s) accepts s
INTOF = z3.Function("INTOF", Str, Int)
_LOWER = z3.Function("LOWER", Str, Str)
_UPPER = z3.Function("UPPER", Str, Str)
_STRIP = z3.Function("STRIP", Str, Str)
REPR = z3.Function("REPR", Py, Str)
STRPY = z3.Function("STRPY", Py, Str)
DHAS = z3.Function("DHAS", Py, Py, Bool)
DGET = z3.Function("DGET", Py, Py, Py)
DLEN = z3.Function("DLEN", Py, Int)
DICTOF = z3.Function("DICTOF", SeqPy, Py)       # dict(list of pairs)
DIGITS = z3.Plus(z3.Range("0", "9"))
DECRE = z3.Plus(z3.Union(z3.Range("0", "9"), z3.Re("-")))


def seq_of(ts, sort):
    srt = z3.SeqSort(sort if isinstance(sort, z3.SortRef) else sort)
    if not ts:
        return z3.Empty(srt)
    if len(ts) == 1:
        return z3.Unit(ts[0])
    return z3.Concat(*[z3.Unit(t) for t in ts])


def parts(t):
    """Flattened arguments of a concatenation."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out.extend(parts(c))
        return out
    return [t]


def is_empty(t):
    return (z3.is_string_value(t) and t.as_string() == "") or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EMPTY)


def is_unit(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT


def cat(*ts):
    ts = [p for t in ts for p in parts(t) if not is_empty(p)]
    if not ts:
        return z3.StringVal("")
    if len(ts) == 1:
        return ts[0]
    return z3.Concat(*ts)


def J(s):
    s = z3.simplify(s)
    out = []
    for p in parts(s):
        if is_empty(p):
            continue
        if is_unit(p):
            out.append(p.arg(0))
        else:
            out.append(_J(p))
    return cat(*out)


_NE = z3.Function("NE", SeqStr, Bool)


def NE(s):
    """No element of the list is empty."""
    out = []
    for p in parts(z3.simplify(s)):
        if is_empty(p):
            continue
        out.append(p.arg(0) != z3.StringVal("") if is_unit(p) else _NE(p))
    return z3.And(*out) if out else z3.BoolVal(True)


def nth(t, i):
    if z3.is_int_value(i):
        n = i.as_long()
        for p in parts(t):
            if is_unit(p):
                if n == 0:
                    return p.arg(0)
                n -= 1
            else:
                break
    return t[i]


def lift(kind, seq):
    """Seq(Py) of a typed sequence."""
    con = {"int": Py.PInt, "bool": Py.PBool, "str": Py.PStr, "bytes": Py.PBytes, "real": Py.PFloat}[kind]
    f = z3.Function("LIFT_" + kind, seq.sort(), SeqPy)
    out = []
    for p in parts(z3.simplify(seq)):
        if is_empty(p):
            continue
        out.append(z3.Unit(con(p.arg(0))) if is_unit(p) else f(p))
    if not out:
        return z3.Empty(SeqPy)
    return z3.Concat(*out) if len(out) > 1 else out[0]


def DEC(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return z3.StringVal(str(t.as_long()))
    return _DEC(t)


def dec_facts(t):
    """True of the decimal rendering of every integer."""
    d = DEC(t)
    return [z3.InRe(d, DECRE), z3.Length(d) >= 1, INTOK(d), INTOF(d) == t,
            z3.Implies(t >= 0, z3.InRe(d, DIGITS))]


def ascii_known(t):
    for p in parts(z3.simplify(t)):
        if z3.is_string_value(p):
            if any(ord(c) > 127 for c in unz(p)):
                return False
        elif not (z3.is_app(p) and p.decl().name() in ("DEC",)):
            return False
    return True


def _hom(f, t):
    out = []
    for p in parts(z3.simplify(t)):
        if is_empty(p):
            continue
        if ascii_known(p):
            out.append(p)
        else:
            out.append(f(p))
    return cat(*out)


def UTF8(t):
    def one(p):
        if z3.is_string_value(p):
            return zstr(unz(p).encode("utf-8", "surrogatepass"))
        return _UTF8(p)
    return _hom(one, t)


def ENCOK(t):
    out = []
    for p in parts(z3.simplify(t)):
        if ascii_known(p):
            continue
        if z3.is_string_value(p):
            try:
                unz(p).encode("utf-8")
            except UnicodeEncodeError:
                return z3.BoolVal(False)
            continue
        out.append(_ENCOK(p))
    return z3.And(*out) if out else z3.BoolVal(True)


def ENCR(t):
    return _hom(_ENCR, t)


def VALID8(t):
    if ascii_known(t):
        return z3.BoolVal(True)
    if z3.is_string_value(t):
        try:
            unz(t).encode("latin-1").decode("utf-8")
            return z3.BoolVal(True)
        except UnicodeError:
            return z3.BoolVal(False)
    return _VALID8(t)


def DEC8(t):
    if ascii_known(t):
        return t
    if z3.is_app(t) and t.decl().name() == "UTF8":
        return t.arg(0)
    return _DEC8(t)


def DECI(t):
    return t if ascii_known(t) else _DECI(t)


def DECR(t):
    return t if ascii_known(t) else _DECR(t)


def LOWER(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return zstr(unz(t).lower())
    if z3.is_app(t) and t.decl().name() == "STRIP":
        return _STRIP(LOWER(t.arg(0)))
    if z3.is_app(t) and t.decl().name() == "LOWER":
        return t
    return _LOWER(t)


def UPPER(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return zstr(unz(t).upper())
    return _UPPER(t)


def STRIP(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return zstr(unz(t).strip())
    if z3.is_app(t) and t.decl().name() == "STRIP":
        return t
    return _STRIP(t)


# ------------------------------------------------------------------ abstract maps
class TermMap(object):
    """A dict given by a Py term (a decoded message or JSON object)."""
    def __init__(self, t, dom):
        self.t, self.dom = t, dom
        self.keykind = {"py:benc": "py:key", "py:json": "str"}.get(dom, "py:key")

    def key(self):
        return ("term", self.t.get_id())

    def has(self, ex, k):
        return DHAS(self.t, ex.to_py(k))

    def get(self, ex, k):
        return ex.from_term(self.dom, DGET(self.t, ex.to_py(k)))

    def length(self, ex=None):
        return DLEN(self.t)

    def loop(self, ex, node, what, bindv, body, orelse):
        loop_map(self, ex, node, what, bindv, body, orelse)


class AbsMap(object):
    """An unknown map from Py keys to Py values."""
    n = 0

    def __init__(self, name, ex, dom="py", keykind="py"):
        c = ex.names.get("$absmap", 0)
        ex.names["$absmap"] = c + 1
        self.name, self.dom, self.keykind = "%s!%d" % (name, c), dom, keykind
        self.fh = z3.Function("has." + self.name, Py, Bool)
        self.fg = z3.Function("get." + self.name, Py, Py)
        self.fl = z3.Int("len." + self.name)

    def key(self):
        return ("abs", self.name)

    def has(self, ex, k):
        return self.fh(ex.to_py(k))

    def get(self, ex, k):
        return ex.from_term(self.dom, self.fg(ex.to_py(k)))

    def length(self, ex=None):
        return self.fl

    def loop(self, ex, node, what, bindv, body, orelse):
        loop_map(self, ex, node, what, bindv, body, orelse)


class ObjMap(object):
    """A map whose values are objects created on demand by a factory: value(key) is the same object for equal keys.
    `wit`: keys known to be present whose iteration must be accounted for individually."""
    def __init__(self, name, ex, factory, keykind="int"):
        self.name, self.factory, self.keykind = name, factory, keykind
        self.fh = z3.Function("has." + name, sort_of(keykind), Bool)
        self.wit = []          # [key value, object ref]
        self.live = True

    def key(self):
        return ("obj", self.name, tuple(id(x) for x in self.wit))

    def kt(self, ex, k):
        k = ex.expand(k)
        from .values import term, kind_of
        if kind_of(k) != self.keykind:
            return None
        return term(k)

    def has(self, ex, k):
        t = self.kt(ex, k)
        if t is None:
            return False
        return self.fh(t)

    def get(self, ex, k):
        t = self.kt(ex, k)
        for wk, wv in self.wit:
            if ex.branch(wk == t):
                return wv
        v = self.factory(ex, mk(self.keykind, t))
        self.wit.append([t, v])
        return v

    def length(self, ex=None):
        return z3.Int("len." + self.name)

    def loop(self, ex, node, what, bindv, body, orelse):
        loop_objmap(self, ex, node, what, bindv, body, orelse)


class PairSeq(object):
    def __init__(self, seq):
        self.seq = seq

    def key(self):
        return ("pairs", self.seq.get_id())


def loop_map(m, ex, node, what, bindv, body, orelse):
    """for over an abstract map: every iteration sees some key of the map (all keys are covered because the key is
    arbitrary; order and multiplicity are not used)."""
    def step():
        if ex.choose(2, "map-iter") == 0:
            return False
        k = ex.fresh("mkey", m.keykind)
        ex.assume(m.has(ex, k))
        ex.task.on_map_key(ex, m, k)
        v = m.get(ex, k) if what != "keys" else None
        bindv({"keys": k, "values": v, "items": (k, v)}[what])
        return True
    ex.run_loop(node, step, body, orelse)


def loop_objmap(m, ex, node, what, bindv, body, orelse):
    """Iteration over an object map: arbitrary other entries, with each witnessed present key visited exactly once
    in between.  `others` are fresh arbitrary objects distinct from the witnesses."""
    wits = [(k, v) for k, v in m.wit if ex.branch(m.fh(k))]

    def bind(k, v):
        kk = mk(m.keykind, k)
        bindv({"keys": kk, "values": v, "items": (kk, v)}[what])

    def others(tag):
        def step():
            if ex.choose(2, "map-iter") == 0:
                return False
            k = ex.fresh("mkey", m.keykind).t
            ex.assume(m.fh(k))
            for wk, _ in m.wit:
                ex.assume(k != wk)
            v = m.factory(ex, mk(m.keykind, k))
            bind(k, v)
            return True

        class N(object):
            lineno, col_offset = getattr(node, "lineno", 0), getattr(node, "col_offset", 0) * 100 + tag
        st = {"broke": True}

        def done():
            st["broke"] = False
        ex.run_loop(N, step, body, done)
        return st["broke"]
    from .values import BreakS, ContinueS
    if others(0):
        return
    for i, (k, v) in enumerate(wits):
        bind(k, v)
        try:
            body()
        except BreakS:
            return
        except ContinueS:
            pass
        if others(i + 1):
            return
    orelse()
