"""Value domain of the verifier: natives stand for concrete Python values, S for symbolic ones."""
import z3

_P = z3.Datatype("Py")
_P.declare("PNone")
_P.declare("PBool", ("pb", z3.BoolSort()))
_P.declare("PInt", ("pi", z3.IntSort()))
_P.declare("PStr", ("ps", z3.StringSort()))
_P.declare("PBytes", ("py", z3.StringSort()))
_P.declare("PFloat", ("pf", z3.RealSort()))
_P.declare("PList", ("pl", z3.SeqSort(z3.DatatypeSort("Py"))))
_P.declare("PTuple", ("pt", z3.SeqSort(z3.DatatypeSort("Py"))))
_P.declare("PDict", ("pk", z3.SeqSort(z3.DatatypeSort("Py"))), ("pv", z3.SeqSort(z3.DatatypeSort("Py"))))
_P.declare("PMap", ("pm", z3.IntSort()))
_P.declare("PRef", ("po", z3.IntSort()))
Py = _P.create()
SeqPy = z3.SeqSort(Py)
_SORT = {"int": z3.IntSort(), "bool": z3.BoolSort(), "str": z3.StringSort(), "bytes": z3.StringSort(),
        "real": z3.RealSort(), "py": Py}


def sort_of(kind):
    return _SORT[kind.split(":")[0]]


def is_py(kind):
    return kind == "py" or kind.startswith("py:")


class S(object):
    __slots__ = ("kind", "t", "ecls")

    def __init__(self, kind, t, ecls=None):
        self.kind, self.t, self.ecls = kind, t, ecls

    def __repr__(self):
        return "<%s %s>" % (self.kind, str(self.t)[:120].replace("\n", " "))


class EnumV(object):
    """A member of an enumeration of the repository (or a concrete enum constant)."""
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumV) and (self.cls, self.name) == (o.cls, o.name)

    def __hash__(self):
        return hash((self.cls, self.name))

    def __repr__(self):
        return "<%s.%s>" % (self.cls, self.name)


class Ref(object):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return "<ref %d>" % self.oid


class FuncV(object):
    def __init__(self, node, module, qualname, defaults=(), kwdefaults=None, frame=None, cells=None, attrs=None, clsname=None, file=None):
        self.node, self.module, self.qualname = node, module, qualname
        self.defaults, self.kwdefaults = list(defaults), dict(kwdefaults or {})
        self.frame, self.cells, self.attrs, self.clsname, self.file = frame, cells or {}, attrs or {}, clsname, file

    @property
    def key(self):
        return "%s:%s" % (self.module, self.qualname)

    def __repr__(self):
        return "<func %s>" % self.key


class CtxFunc(object):
    """A function decorated with contextlib.contextmanager."""
    def __init__(self, func):
        self.func = func


class BoundV(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and o.self_ == self.self_

    def __hash__(self):
        return hash(id(self.func))

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class BMeth(object):
    """Method of a builtin type bound to a value."""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ExtV(object):
    """An external function or module member, by canonical name."""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, (ExtV, ClassV)) and o.name == self.name      # a built-in type comes in both forms

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "<ext %s>" % self.name


class ExtBound(object):
    def __init__(self, name, self_):
        self.name, self.self_ = name, self_

    def __repr__(self):
        return "<ext %s of %r>" % (self.name, self.self_)


class ModV(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(("mod", self.name))


class ClassV(object):
    def __init__(self, name, mro, dict_=None, bases=(), module=None, qualname=None, enum=None):
        self.name, self.mro, self.dict, self.bases, self.module, self.qualname, self.enum = name, mro, dict_, bases, module, qualname, enum

    def __eq__(self, o):
        return isinstance(o, (ExtV, ClassV)) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "<class %s>" % self.name


class PropV(object):
    def __init__(self, fget, fset):
        self.fget, self.fset = fget, fset


class ClsMeth(object):
    def __init__(self, func):
        self.func = func


class StatMeth(object):
    def __init__(self, func):
        self.func = func


class PartialV(object):
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class HostFn(object):
    """A callable implemented by the verifier: f(ip, args, kwargs)."""
    def __init__(self, name, f):
        self.name, self.f = name, f


class Poison(object):
    """Value unknown after a loop cut; using it is outside the verifier's reach."""
    def __init__(self, why):
        self.why = why


# ---------------------------------------------------------------- heap objects
class HInst(object):
    def __init__(self, cls, fields=None, label=None):
        self.cls, self.fields, self.label = cls, fields if fields is not None else {}, label
        self.guards = {}


class HOpq(object):
    """Opaque environment object; fields hold model state."""
    def __init__(self, cls, fields=None, label=None, tag=None):
        self.cls, self.fields, self.label, self.tag = cls, fields if fields is not None else {}, label, tag


class HList(object):
    """list/deque: concrete spine (items) or symbolic sequence (seq: z3 Seq over sort_of(ekind))."""
    def __init__(self, items=None, seq=None, ekind=None, label=None, typ="list"):
        self.items, self.seq, self.ekind, self.label, self.typ = items, seq, ekind, label, typ
        self.frozen = False
        self.guard = None   # monitor protecting the contents
        self.src = None   # provenance of symbolic lists (e.g. ("split", s, sep))

DEL = object()


class HDict(object):
    """Log-structured map: entries newest last; base = abstract map or None."""
    def __init__(self, entries=None, base=None, label=None, typ="dict", default=None):
        self.entries, self.base, self.label, self.typ, self.default = entries if entries is not None else [], base, label, typ, default
        self.guard = None
        self.frozen = False


class HSet(object):
    def __init__(self, items=None, seq=None, label=None):
        self.items, self.seq, self.label = items, seq, label   # seq: z3 array/None
        self.arr = None
        self.guard = None


class HIter(object):
    """Iterator object; impl has next(ip) -> (True, v) | (False, None), and .symbolic"""
    def __init__(self, impl, label=None):
        self.impl, self.label = impl, label


class HCtx(object):
    """Generator context manager or generator instance (call not yet started)."""
    def __init__(self, func, args, kwargs, frame=None):
        self.func, self.args, self.kwargs, self.label, self.frame = func, args, kwargs, None, frame


# ---------------------------------------------------------------- control signals
class PathEnd(Exception):
    pass


class Restart(Exception):
    def __init__(self, at):
        self.at = at


class GenExit(BaseException):
    """GeneratorExit thrown into an interpreted generator; carries the consumer's own signal."""
    def __init__(self, sig):
        self.sig = sig


class Unsupported(Exception):
    pass


class ReturnS(Exception):
    def __init__(self, v):
        self.v = v


class BreakS(Exception):
    pass


class ContinueS(Exception):
    pass


class PyExc(Exception):
    """An exception of the interpreted program."""
    def __init__(self, ref, clsname, where=""):
        self.ref, self.clsname, self.where = ref, clsname, where

    def __str__(self):
        return "%s at %s" % (self.clsname, self.where)


NATIVE = (type(None), bool, int, float, str, bytes, tuple, type(Ellipsis))


def is_native(v):
    return isinstance(v, NATIVE)


def deep_native(v):
    """A native value with no symbolic part."""
    if isinstance(v, tuple):
        return all(deep_native(x) for x in v)
    return isinstance(v, (type(None), bool, int, float, str, bytes, type(Ellipsis)))


def zstr(s):
    """z3 string literal for a Python str or bytes value (bytes as code points 0..255)."""
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch not in "\\\"":
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


def unz(t):
    """Python str of a z3 string literal term."""
    s = t.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        elif s.startswith("\\u", i) and len(s) >= i + 6:
            out.append(chr(int(s[i + 2:i + 6], 16)))
            i += 6
        elif s.startswith("\\x", i) and len(s) >= i + 4:
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def term(v):
    """z3 term of a scalar value in its own sort."""
    if isinstance(v, S):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, EnumV):
        return z3.IntVal(v.value)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        return z3.RealVal(repr(v)) if "e" not in repr(v) else z3.RealVal("%.20f" % v)
    if isinstance(v, (str, bytes)):
        return zstr(v)
    raise Unsupported("no scalar term for %r" % (v,))


def kind_of(v):
    if isinstance(v, S):
        return v.kind
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, (int, EnumV)):
        return "int"
    if isinstance(v, float):
        return "real"
    if isinstance(v, str):
        return "str"
    if isinstance(v, bytes):
        return "bytes"
    if isinstance(v, tuple):
        return "tuple"
    return "obj"


def simp(t):
    return z3.simplify(t)


def native_of(kind, t):
    """Convert a ground term to a native value if it is a literal, else S."""
    if kind == "int" and z3.is_int_value(t):
        return t.as_long()
    if kind == "bool":
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    if kind == "str" and z3.is_string_value(t):
        return unz(t)
    if kind == "bytes" and z3.is_string_value(t):
        try:
            return unz(t).encode("latin-1")
        except UnicodeEncodeError:
            return S(kind, t)
    if kind == "real" and z3.is_rational_value(t):
        f = t.as_fraction()
        if float(f) == f:
            return float(f)
    return S(kind, t)


def mk(kind, t):
    return native_of(kind, simp(t))
