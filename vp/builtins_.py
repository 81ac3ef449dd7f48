"""Builtin operations, functions and methods of the interpreted language."""
import string as _string
from .values import *
from . import theory as T
from . import interp as I
from .interp import Ex, BUILTINS, METHODS, EXT


# ------------------------------------------------------------------ truth, equality, comparison
def truth_term(ex, v):
    v = ex.expand(v)
    if v is None:
        return False
    if isinstance(v, (bool, int, float, str, bytes, tuple)):
        return bool(v)
    if isinstance(v, EnumV):
        return bool(v.value)
    if isinstance(v, S):
        if v.kind == "bool":
            return v.t
        if v.kind in ("int", "real"):
            return v.t != 0
        return z3.Length(v.t) > 0
    if isinstance(v, Ref):
        o = ex.h(v)
        if isinstance(o, (HList, HDict, HSet)):
            ex.touch(o)
        if isinstance(o, HList):
            if o.items is None and o.seq is None:
                if ex.task.list_len is not None:
                    return term(ex.task.list_len(ex, v, o)) != 0
                ex.unsupported("truth of a list unknown after a loop")
            return bool(o.items) if o.items is not None else z3.Length(o.seq) > 0
        if isinstance(o, HDict):
            if o.base is None:
                return bool(o.entries)
            t = dict_len(ex, o)
            return t > 0 if not isinstance(t, int) else bool(t)
        if isinstance(o, HSet):
            if o.items is not None:
                return bool(o.items)
            ex.unsupported("truth of a symbolic set")
        if isinstance(o, HInst):
            for n in ("__bool__", "__len__"):
                m = ex.class_attr(o.cls, n)
                if m is not None:
                    return truth_term(ex, ex.call(ex.bind(m, v, o.cls), []))
            return True
        if isinstance(o, HOpq):
            m = ex.env_method(o.cls, "__bool__")
            if m is not None:
                return truth_term(ex, ex.opq_call(v, o, "__bool__", [], {}))
            return True
    if isinstance(v, Poison):
        ex.unsupported("value unknown after a loop")
    return True


def truth(ex, v):
    return ex.branch(truth_term(ex, v))


NUM = ("int", "bool", "real")


def num_term(v):
    t = term(v)
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def eq(ex, a, b):
    """Python == as bool or z3 Bool."""
    if a is b:
        if not isinstance(a, float):
            return True
    if isinstance(a, S) and is_py(a.kind) and isinstance(b, S) and is_py(b.kind):
        if a.kind in ("py:benc", "py:key", "py:enc") or a.kind == b.kind == "py:str":
            return a.t == b.t
        return a.t == b.t
    if isinstance(a, S) and is_py(a.kind):
        if a.kind in ("py:key", "py:benc") and kind_of(b) in ("int", "bytes"):
            return a.t == ex.to_py(b)
        if kind_of(b) in ("str", "bytes", "none") and a.kind != "py:enc":
            return a.t == ex.to_py(b)
        a = ex.expand(a)
    if isinstance(b, S) and is_py(b.kind):
        return eq(ex, b, a)
    ka, kb = kind_of(a), kind_of(b)
    if ka in NUM and kb in NUM:
        if is_native(a) and is_native(b):
            return a == b
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            if not isinstance(a, S) and not isinstance(b, S):
                return (a.value if isinstance(a, EnumV) else a) == (b.value if isinstance(b, EnumV) else b)
        if ka == kb == "bool":
            return term(a) == term(b)
        return num_term(a) == num_term(b)
    if ka in ("str", "bytes") and kb == ka:
        if is_native(a) and is_native(b):
            return a == b
        return term(a) == term(b)
    if ka == "tuple" and kb == "tuple":
        if len(a) != len(b):
            return False
        return conj([eq(ex, x, y) for x, y in zip(a, b)])
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.oid == b.oid:
            return True
        x, y = ex.h(a), ex.h(b)
        if isinstance(x, HList) and isinstance(y, HList):
            if (x.typ == "tuple") != (y.typ == "tuple"):
                return False
            if x.items is not None and y.items is not None:
                if len(x.items) != len(y.items):
                    return False
                return conj([eq(ex, p, q) for p, q in zip(x.items, y.items)])
            if x.items is not None and not x.items and y.seq is not None:
                return z3.Length(y.seq) == 0
            if y.items is not None and not y.items and x.seq is not None:
                return z3.Length(x.seq) == 0
            if x.ekind == y.ekind:
                return x.seq == y.seq
            ek = x.ekind if x.items is None else y.ekind
            try:
                return ex.seq_term(x, ek) == ex.seq_term(y, ek)
            except Unsupported:
                return ex.seq_py(x) == ex.seq_py(y)
        if isinstance(x, HInst):
            m = ex.class_attr(x.cls, "__eq__")
            if m is not None:
                return truth_term(ex, ex.call(ex.bind(m, a, x.cls), [b]))
            return False
        if isinstance(x, HDict) and isinstance(y, HDict):
            return ex.to_py(a) == ex.to_py(b)
        if isinstance(x, HSet) or isinstance(y, HSet):
            ex.unsupported("set equality")
        return False
    if isinstance(a, tuple) and isinstance(b, Ref) and isinstance(ex.h(b), HList) and ex.h(b).typ == "tuple":
        return eq(ex, b, a)
    if isinstance(b, tuple) and isinstance(a, Ref) and isinstance(ex.h(a), HList) and ex.h(a).typ == "tuple":
        o = ex.h(a)
        if not ex.branch(z3.Length(o.seq) == len(b)):
            return False
        return conj([eq(ex, ex.seq_at(o, i), x) for i, x in enumerate(b)])
    if ka == "obj" and kb == "obj" and not isinstance(a, Ref) and not isinstance(b, Ref):
        return a == b
    return False


def conj(cs):
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    if not cs:
        return True
    return z3.And(*cs) if len(cs) > 1 else cs[0]


def compare(ex, op, a, b):
    if op in ("is", "is not"):
        r = is_op(ex, a, b)
        if op == "is not":
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return r if isinstance(r, bool) else mk("bool", r)
    if op in ("in", "not in"):
        r = contains(ex, b, a)
        if op == "not in":
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return r if isinstance(r, bool) else mk("bool", r)
    if op in ("==", "!="):
        r = eq(ex, a, b)
        if op == "!=":
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return r if isinstance(r, bool) else mk("bool", r)
    a, b = ex.expand(a), ex.expand(b)
    ka, kb = kind_of(a), kind_of(b)
    if ka in NUM and kb in NUM:
        if not isinstance(a, S) and not isinstance(b, S):
            x = a.value if isinstance(a, EnumV) else a
            y = b.value if isinstance(b, EnumV) else b
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        x, y = num_term(a), num_term(b)
        return mk("bool", {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
    if ka == kb and ka in ("str", "bytes"):
        if is_native(a) and is_native(b):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        x, y = term(a), term(b)
        return mk("bool", {"<": x < y, "<=": x <= y, ">": y < x, ">=": y <= x}[op])
    if ka == kb == "tuple":
        for x, y in zip(a, b):
            if not ex.branch(eq(ex, x, y)):
                return compare(ex, op, x, y)
        return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op]
    ex.exc("builtins.TypeError", "'%s' not supported between instances" % op)


def is_op(ex, a, b):
    for x, y in ((a, b), (b, a)):
        if x is None or x is True or x is False or x is Ellipsis:
            if isinstance(y, S) and is_py(y.kind):
                if x is None:
                    y2 = ex.expand(y)
                    return y2 is None
                y = ex.expand(y)
            if isinstance(y, S) and y.kind == "bool" and x is not None:
                return y.t if x else z3.Not(y.t)
            return y is x
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    if isinstance(a, (ClassV, FuncV, EnumV, ExtV, ModV)) or isinstance(b, (ClassV, FuncV, EnumV, ExtV, ModV)):
        return a == b
    if isinstance(a, S) and isinstance(b, S) and a.t.eq(b.t):
        return True
    if kind_of(a) != kind_of(b):
        return False
    return eq(ex, a, b)


def contains(ex, c, x):
    c = ex.expand(c)
    k = kind_of(c)
    if k in ("str", "bytes"):
        x = ex.expand(x)
        kx = kind_of(x)
        if kx != k:
            if k == "bytes" and kx == "int":
                ex.unsupported("int in bytes")
            ex.exc("builtins.TypeError", "in <string> requires string")
        if is_native(c) and is_native(x):
            return x in c
        return z3.Contains(term(c), term(x))
    if k == "tuple":
        return disj([eq(ex, y, x) for y in c])
    if isinstance(c, Ref):
        o = ex.h(c)
        ex.touch(o)
        if isinstance(o, HList):
            if o.items is not None:
                return disj([eq(ex, y, x) for y in o.items])
            if o.src is not None and o.src[0] == "split":
                s, sep = o.src[1], o.src[2]
                x = ex.expand(x)
                if kind_of(x) not in ("str", "bytes"):
                    return False
                if is_native(x) and (len(sep) and (sep in x)):
                    return False
                st = zstr(sep)
                if not is_native(x):
                    ex.unsupported("membership of a symbolic piece")
                if x in ("..", b"..") and sep in ("/", b"/"):
                    from .paths import has_piece
                    return has_piece(ex, s, "/", "..")
                return z3.Contains(T.cat(st, s, st), zstr(sep + x + sep))
            if o.seq is None:
                ex.unsupported("membership in a list unknown after a loop")
            try:
                e = ex.elem_term(o.ekind, x)
            except Unsupported:
                return False
            return z3.Contains(o.seq, z3.Unit(e))
        if isinstance(o, HDict):
            return dict_has(ex, o, x)
        if isinstance(o, HSet):
            return set_has(ex, o, x)
        if isinstance(o, HInst):
            m = ex.class_attr(o.cls, "__contains__")
            if m is not None:
                return truth_term(ex, ex.call(ex.bind(m, c, o.cls), [x]))
        if isinstance(o, HOpq):
            return truth_term(ex, ex.opq_call(c, o, "__contains__", [x], {}))
        src = ex.iter_source(c)
        if src[0] == "items":
            return disj([eq(ex, y, x) for y in src[1]])
    if isinstance(c, ClassV) and c.enum is not None:
        return isinstance(x, EnumV) and x.cls == c.name
    ex.exc("builtins.TypeError", "argument is not iterable")


def disj(cs):
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    if not cs:
        return False
    return z3.Or(*cs) if len(cs) > 1 else cs[0]


# ------------------------------------------------------------------ arithmetic and concatenation
def binop(ex, op, a, b):
    a, b = ex.expand(a), ex.expand(b)
    ka, kb = kind_of(a), kind_of(b)
    if op == "%" and ka in ("str", "bytes"):
        return percent(ex, a, b)
    if isinstance(a, EnumV) and isinstance(a.value, int):
        a = a.value
    if isinstance(b, EnumV) and isinstance(b.value, int):
        b = b.value
    if ka in NUM and kb in NUM:
        if is_native(a) and is_native(b):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b,
                        "%": lambda: a % b, "|": lambda: a | b, "&": lambda: a & b, "^": lambda: a ^ b, "**": lambda: a ** b,
                        "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
            except ZeroDivisionError:
                ex.exc("builtins.ZeroDivisionError", "division by zero")
        x, y = num_term(a), num_term(b)
        real = ka == "real" or kb == "real" or op == "/"
        if real:
            x = z3.ToReal(x) if z3.is_int(x) else x
            y = z3.ToReal(y) if z3.is_int(y) else y
        k = "real" if real else "int"
        if op == "+":
            return mk(k, x + y)
        if op == "-":
            return mk(k, x - y)
        if op == "*":
            return mk(k, x * y)
        if op in ("/", "//", "%"):
            if ex.branch(y == 0):
                ex.exc("builtins.ZeroDivisionError", "division by zero")
            if op == "/":
                return mk("real", x / y)
            if real:
                ex.unsupported("float // or %")
            # z3 div/mod round toward making the remainder non-negative; Python floors
            if ex.branch(y > 0):
                return mk("int", x / y if op == "//" else x % y)
            q = z3.If(x % y == 0, x / y, x / y - 1)
            return mk("int", q if op == "//" else x - q * y)
        if op == "&" and isinstance(a, int) and not isinstance(b, int):
            a, b, x, y = b, a, y, x
        if op == "&" and isinstance(b, int) and b >= 0 and bin(b).count("1") <= 8:     # exact: the sum of the bits kept
            bits = [1 << i for i in range(b.bit_length()) if b >> i & 1]
            return mk("int", z3.Sum([((x / k) % 2) * k for k in bits])) if bits else 0
        f = z3.Function("BIT" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
        return mk("int", f(x, y))
    if op == "+":
        if ka == kb and ka in ("str", "bytes"):
            return concat_str(ex, [a, b], ka)
        if ka == "tuple" and kb == "tuple":
            return a + b
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = ex.h(a), ex.h(b)
            if isinstance(x, HList) and isinstance(y, HList) and (x.typ == "tuple") == (y.typ == "tuple"):
                return list_concat(ex, x, y)
    if op == "*":
        if ka in ("str", "bytes") and is_native(a) and isinstance(b, int):
            return a * b
        if kb in ("str", "bytes") and is_native(b) and isinstance(a, int):
            return a * b
        if isinstance(a, Ref) and isinstance(ex.h(a), HList) and isinstance(b, int) and ex.h(a).items is not None:
            return ex.newlist(ex.h(a).items * b)
        if ka == "tuple" and isinstance(b, int):
            return a * b
        if ka in ("str", "bytes", "tuple") or kb in ("str", "bytes", "tuple"):
            ex.unsupported("repetition")
    if op in ("|", "-", "&", "^") and isinstance(a, Ref) and isinstance(ex.h(a), HSet):
        if isinstance(b, Ref) and isinstance(ex.h(b), HSet) and ex.h(a).items is not None and ex.h(b).items is not None:
            x, y = ex.h(a).items, ex.h(b).items
            if op == "|":
                r = ex.new(HSet(items=list(x)))
                for v in y:
                    ex.builtin_method(r, "add", [v], {})
                return r
            if op == "-":
                return ex.new(HSet(items=[v for v in x if not ex.branch(disj([eq(ex, v, w) for w in y]))]))
            if op == "&":
                return ex.new(HSet(items=[v for v in x if ex.branch(disj([eq(ex, v, w) for w in y]))]))
        ex.unsupported("set operation")
    ex.exc("builtins.TypeError", "unsupported operand types for %s: %s and %s" % (op, ka, kb))


def concat_str(ex, ps, kind):
    if all(is_native(p) for p in ps):
        return ("" if kind == "str" else b"").join(ps)
    return mk(kind, T.cat(*[term(p) for p in ps]))


def list_concat(ex, x, y):
    if x.items is not None and y.items is not None:
        return ex.newlist(x.items + y.items, x.typ)
    ek = ex.join_ekind({ex.ekind_of(x), ex.ekind_of(y)} - {None})
    return ex.newseq(z3.Concat(seq_as(ex, x, ek), seq_as(ex, y, ek)), ek, x.typ)


def seq_as(ex, o, ek):
    """Seq term of a list in the element kind ek, converting to Py where needed."""
    if is_py(ek):
        return ex.seq_py(o)
    return ex.seq_term(o, ek)


# ------------------------------------------------------------------ formatting
def str_of(ex, v, rep=False):
    """str(v) / repr(v): native str or S str."""
    if isinstance(v, S) and is_py(v.kind):
        f = T.REPR if rep else T.STRPY
        return S("str", f(v.t))
    if is_native(v) and not isinstance(v, tuple):
        return repr(v) if rep else str(v)
    if isinstance(v, S):
        if v.kind == "int":
            for c in T.dec_facts(v.t):
                ex.assume(c)
            return S("str", T.DEC(v.t))
        if v.kind == "str" and not rep:
            return v
        if v.kind == "bool":
            return "True" if ex.branch(v.t) else "False"
        return S("str", T.REPR(ex.to_py(v)))
    if isinstance(v, EnumV):
        return "<%s.%s: %r>" % (v.cls.split(".")[-1], v.name, v.value) if rep else "%s.%s" % (v.cls.split(".")[-1], v.name)
    if isinstance(v, tuple):
        ps = []
        for x in v:
            ps += [", ", str_of(ex, x, True)]
        return concat_str(ex, ["("] + ps[1:] + [",)" if len(v) == 1 else ")"], "str")
    if isinstance(v, Ref):
        o = ex.h(v)
        if isinstance(o, HInst):
            for n in (("__repr__",) if rep else ("__str__", "__repr__")):
                m = ex.class_attr(o.cls, n)
                if m is not None:
                    r = ex.call(ex.bind(m, v, o.cls), [])
                    return r
                if n == "__str__" and "builtins.BaseException" in o.cls.mro:
                    break
            if "builtins.BaseException" in o.cls.mro and not rep:
                a = o.fields.get("args", ())
                if isinstance(a, tuple) and len(a) == 1 and not ex.is_sub(o.cls.name, "builtins.KeyError") and not ex.is_sub(o.cls.name, "builtins.OSError"):
                    return str_of(ex, a[0])
                if a == ():
                    return "" if not ex.is_sub(o.cls.name, "builtins.OSError") else opaque_str(ex, v, "str")
                return opaque_str(ex, v, "str")
            if "builtins.BaseException" in o.cls.mro and rep:
                ps = []
                for x in o.fields.get("args", ()):
                    ps += [", ", str_of(ex, x, True)]
                return concat_str(ex, [o.cls.name.split(".")[-1] + "("] + ps[1:] + [")"], "str")
            return opaque_str(ex, v, "repr")
        if isinstance(o, HOpq):
            m = ex.env_method(o.cls, "__repr__")
            if m is not None:
                return ex.opq_call(v, o, "__repr__", [], {})
            return opaque_str(ex, v, "repr")
        try:
            return S("str", T.REPR(ex.to_py(v)))
        except Unsupported:
            return opaque_str(ex, v, "repr")
    if isinstance(v, ClassV):
        return "<class '%s'>" % (v.name[9:] if v.name.startswith("builtins.") else v.name)
    return opaque_str(ex, v, "repr")


def opaque_str(ex, v, what):
    k = ("opqstr", what, v if isinstance(v, Ref) else repr(v))
    if k not in ex.memo:
        ex.memo[k] = ex.fresh("text", "str")
        ex.assume(T.ENCOK(ex.memo[k].t))   # texts produced by the runtime contain no lone surrogates
    return ex.memo[k]


def fmt_value(ex, v, conv, spec):
    if conv in ("r", "a"):
        v = str_of(ex, v, True)
    elif conv == "s":
        v = str_of(ex, v)
    if spec and not isinstance(spec, str):
        ex.unsupported("dynamic format spec")
    if spec:
        if is_native(v):
            try:
                return format(v, spec)
            except ValueError:
                ex.exc("builtins.ValueError", "format")
            except TypeError:
                ex.exc("builtins.TypeError", "format")
        v = ex.expand(v)
        k = kind_of(v)
        if spec == "d" and k == "bool":
            return str_of(ex, mk("int", num_term(v)))
        if spec in ("d", "s") and k == {"d": "int", "s": "str"}[spec]:
            return str_of(ex, v)
        if k in ("int", "real", "str", "bool"):
            return memo_str(ex, ("fmt", spec, term(v).get_id()), term(v))
        ex.exc("builtins.TypeError", "unsupported format string")
    return str_of(ex, v)


def memo_str(ex, k, keep=None):
    if k not in ex.memo:
        s = ex.fresh("text", "str")
        ex.assume(T.ENCOK(s.t))
        ex.memo[k] = (s, keep)
    return ex.memo[k][0]


def str_format(ex, f, args, kw):
    if not isinstance(f, str):
        if isinstance(f, S):
            return memo_str(ex, ("format", f.t.get_id(), tuple(map(repr, args))))
        ex.unsupported("dynamic format string")
    ps, auto = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(f):
        if lit:
            ps.append(lit)
        if field is None:
            continue
        import re
        m = re.match(r"^([^.\[]*)(.*)$", field)
        head, rest = m.group(1), m.group(2)
        if head == "":
            if auto >= len(args):
                ex.exc("builtins.IndexError", "Replacement index out of range")
            v = args[auto]
            auto += 1
        elif head.isdigit():
            if int(head) >= len(args):
                ex.exc("builtins.IndexError", "Replacement index out of range")
            v = args[int(head)]
        else:
            if head not in kw:
                ex.exc("builtins.KeyError", head)
            v = kw[head]
        for acc in re.findall(r"\.([A-Za-z_0-9]+)|\[([^\]]*)\]", rest):
            v = ex.getattr(v, acc[0]) if acc[0] else ex.getitem(v, int(acc[1]) if acc[1].isdigit() else acc[1])
        if isinstance(v, I.MoreArgs):
            ex.unsupported("format of unknown arguments")
        ps.append(fmt_value(ex, v, conv, spec))
    return concat_str(ex, ps, "str")


def percent(ex, f, args):
    if not is_native(f):
        return memo_str(ex, ("percent", f.t.get_id()), f.t)
    isb = isinstance(f, bytes)
    fs = f.decode("latin-1") if isb else f
    import re
    toks = re.split(r"(%(?:\([^)]*\))?[-#0 +]*(?:\d+|\*)?(?:\.\d+)?[a-zA-Z%])", fs)
    args = ex.expand(args)
    al = list(args) if isinstance(args, tuple) else [args]
    ps, i = [], 0
    for t in toks:
        if not t:
            continue
        if t[0] != "%" or len(t) == 1:
            ps.append(t)
            continue
        if t == "%%":
            ps.append("%")
            continue
        c = t[-1]
        if t.startswith("%("):
            v = ex.getitem(args, t[2:t.index(")")])
        else:
            if i >= len(al):
                ex.exc("builtins.TypeError", "not enough arguments for format string")
            v = al[i]
            i += 1
        v = ex.expand(v)
        if c == "s" and t == "%s":
            if isb:
                if kind_of(v) != "bytes":
                    ex.exc("builtins.TypeError", "%b requires bytes")
                ps.append(v if isinstance(v, S) else v.decode("latin-1"))
            else:
                ps.append(str_of(ex, v))
        elif c == "r":
            ps.append(str_of(ex, v, True))
        elif c in "dif" or c in "xXeEgGu":
            if kind_of(v) not in NUM:
                ex.exc("builtins.TypeError", "%d format: a number is required")
            if is_native(v):
                ps.append(t % v)
            elif t in ("%d", "%i") and kind_of(v) == "int":
                ps.append(str_of(ex, v))
            else:
                ps.append(memo_str(ex, ("pct", t, term(v).get_id()), term(v)))
        else:
            ps.append(memo_str(ex, ("pct", t, repr(v))))
    if not (isinstance(args, Ref)) and i < len(al) and not (len(al) == 1 and not isinstance(args, tuple) and isinstance(args, Ref)):
        ex.exc("builtins.TypeError", "not all arguments converted during string formatting")
    r = T.cat(*[term(p) for p in ps]) if ps else z3.StringVal("")
    return mk("bytes" if isb else "str", r)


# ------------------------------------------------------------------ indexing
def clamp_slice(ex, n, lo, hi):
    """Start and stop terms of a slice with non-negative semantics, n = length term."""
    def norm(x, dflt):
        if x is None:
            return dflt
        x = ex.expand(x)
        if kind_of(x) not in ("int", "bool"):
            ex.exc("builtins.TypeError", "slice indices must be integers")
        t = num_term(x)
        if isinstance(x, int):
            if x < 0:
                t = z3.If(n + x < 0, z3.IntVal(0), n + x)
            else:
                t = z3.If(n < x, n, z3.IntVal(x)) if x else z3.IntVal(0)
            return t
        if ex.branch(t < 0):
            return z3.If(n + t < 0, z3.IntVal(0), n + t)
        return z3.If(n < t, n, t)
    a = norm(lo, z3.IntVal(0))
    b = norm(hi, n)
    return a, b


def getslice(ex, o, lo, hi, st):
    o = ex.expand(o)
    if st is not None and st != 1:
        if (is_native(o) or isinstance(o, Ref)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            if is_native(o):
                return o[lo:hi:st]
            h = ex.h(o)
            if isinstance(h, HList) and h.items is not None:
                return ex.newlist(h.items[lo:hi:st], h.typ)
        ex.unsupported("slice step")
    conc = all(x is None or (isinstance(x, int)) for x in (lo, hi))
    if is_native(o) and isinstance(o, (str, bytes, tuple)):
        if conc:
            return o[lo:hi]
        if isinstance(o, tuple):
            ex.unsupported("symbolic tuple slice")
        o = S(kind_of(o), term(o))
    if isinstance(o, S) and o.kind in ("str", "bytes"):
        return str_slice(ex, o, lo, hi)
    if isinstance(o, Ref):
        h = ex.h(o)
        if isinstance(h, HList):
            if h.typ == "deque":
                ex.exc("builtins.TypeError", "sequence index must be integer, not 'slice'")
            if h.items is not None:
                if conc:
                    return tuple(h.items[lo:hi]) if h.typ == "tuple" else ex.newlist(h.items[lo:hi])
                ek = ex.ekind_of(h)
                if ek in (None, "refs"):
                    ex.unsupported("symbolic slice of a concrete list")
                seq = ex.seq_term(h, ek) if not is_py(ek) else ex.seq_py(h)
            else:
                if h.seq is None:
                    ex.unsupported("slice of a list unknown after a loop")
                seq, ek = h.seq, h.ekind
            p, m, q = seq_split3(ex, seq, lo, hi, ek)
            r = ex.newseq(m, ek, h.typ)
            return r
        if isinstance(h, HInst):
            ex.unsupported("slice of an instance")
    ex.exc("builtins.TypeError", "object is not subscriptable")


def str_slice(ex, o, lo, hi):
    n = z3.Length(o.t)
    if lo is None and hi is None:
        return o
    # leading literals/units: exact for small concrete bounds
    key = ("sslice", o.t.get_id(), repr(lo) if not isinstance(lo, S) else lo.t.get_id(), repr(hi) if not isinstance(hi, S) else hi.t.get_id())
    if key in ex.memo:
        return ex.memo[key]
    if ex.task.opaque_slices:
        # any string (over-approximation, for contracts where no property depends on slices)
        ex.memo[key] = ex.fresh("slice", o.kind, log=False)
        return ex.memo[key]
    if lo in (None, 0) or hi is None:
        cut = hi if lo in (None, 0) else lo
        a, b = clamp_slice(ex, n, None, cut)
        k2 = ("scut", o.t.get_id(), z3.simplify(b).get_id())
        if k2 not in ex.memo:
            p, q = ex.fresh("pre", o.kind, log=False).t, ex.fresh("suf", o.kind, log=False).t
            ex.assume(o.t == z3.Concat(p, q))
            ex.assume(z3.Length(p) == b)
            ex.memo[k2] = (p, q, o.t, b)
        p, q = ex.memo[k2][:2]
        r = S(o.kind, p if lo in (None, 0) else q)
    else:
        a, b = clamp_slice(ex, n, lo, hi)
        r = mk(o.kind, z3.SubString(o.t, a, z3.If(b > a, b - a, z3.IntVal(0))))
    ex.memo[key] = r
    return r


def seq_split3(ex, seq, lo, hi, ek):
    n = z3.Length(seq)
    a, b = clamp_slice(ex, n, lo, hi)
    key = ("split3", seq.get_id(), z3.simplify(a).get_id(), z3.simplify(b).get_id())
    if key not in ex.memo:
        p, m, q = ex.freshseq("sp", ek), ex.freshseq("sm", ek), ex.freshseq("sq", ek)
        ex.assume(seq == z3.Concat(p, m, q))
        ex.assume(z3.Length(p) == a)
        ex.assume(z3.Length(m) == z3.If(b > a, b - a, z3.IntVal(0)))
        if ek == "bytes":
            ex.assume(T.J(seq) == T.cat(T.J(p), T.J(m), T.J(q)))
        if lo is None or lo == 0:
            p = z3.Empty(seq.sort())
            ex.assume(seq == z3.Concat(m, q))
        if hi is None:
            ex.assume(z3.Implies(a <= n, z3.And(z3.Length(q) == 0)))
        ex.memo[key] = (p, m, q, seq)
    return ex.memo[key][:3]


def norm_index(ex, i, n):
    """Decide that index i is in range [0,n) after wrapping; raises IndexError otherwise. n: int or term."""
    i = ex.expand(i)
    if kind_of(i) not in ("int", "bool"):
        ex.exc("builtins.TypeError", "indices must be integers")
    if isinstance(i, EnumV):
        i = i.value
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if not 0 <= j < n:
            ex.exc("builtins.IndexError", "index out of range")
        return j
    t = num_term(i)
    nt = n if not isinstance(n, int) else z3.IntVal(n)
    if isinstance(i, int):
        if i >= 0:
            if not ex.branch(nt > i):
                ex.exc("builtins.IndexError", "index out of range")
            return i
        if not ex.branch(nt >= -i):
            ex.exc("builtins.IndexError", "index out of range")
        return z3.simplify(nt + i)
    if ex.branch(t < 0):
        t = t + nt
    if not ex.branch(z3.And(t >= 0, t < nt)):
        ex.exc("builtins.IndexError", "index out of range")
    return z3.simplify(t)


def getitem(ex, o, i):
    o = ex.expand(o)
    if isinstance(o, Ref):
        ex.touch(ex.h(o))
    if isinstance(o, tuple):
        j = norm_index(ex, i, len(o))
        if isinstance(j, int):
            return o[j]
        for k in range(len(o)):
            if ex.branch(j == k):
                return o[k]
        raise PathEnd()
    if isinstance(o, (str, bytes)):
        i2 = ex.expand(i)
        if isinstance(i2, int):
            j = norm_index(ex, i2, len(o))
            return o[j]
        o = S(kind_of(o), term(o))
    if isinstance(o, S) and o.kind in ("str", "bytes"):
        j = norm_index(ex, i, z3.Length(o.t))
        jt = j if not isinstance(j, int) else z3.IntVal(j)
        c = z3.SubString(o.t, jt, 1)
        if o.kind == "str":
            return mk("str", c)
        return mk("int", z3.StrToCode(c))
    if isinstance(o, Ref):
        h = ex.h(o)
        if isinstance(h, HList):
            if h.items is not None:
                j = norm_index(ex, i, len(h.items))
                if isinstance(j, int):
                    return h.items[j]
                for k in range(len(h.items)):
                    if ex.branch(j == k):
                        return h.items[k]
                raise PathEnd()
            if h.seq is None:
                hk = ex.task.list_get
                if hk is not None:
                    return hk(ex, o, h, i)
                ex.unsupported("element of a list unknown after a loop")
            if h.src is not None and h.src[0] == "split" and i == 0:
                pass
            j = norm_index(ex, i, z3.Length(h.seq))
            if j == 0:
                e, r = ex.seq_uncons(h.seq, h.ekind)
                return ex.from_term(h.ekind, e)
            if not isinstance(j, int) and isinstance(i, int) and i == -1:
                k = ("unsnoc", h.seq.get_id())
                if k not in ex.memo:
                    e, q = ex.fresh("last", h.ekind).t, ex.freshseq("init", h.ekind)
                    ex.assume(h.seq == z3.Concat(q, z3.Unit(e)))
                    if h.ekind == "bytes":
                        ex.assume(T.J(h.seq) == T.cat(T.J(q), e))
                    ex.memo[k] = (e, q, h.seq)
                return ex.from_term(h.ekind, ex.memo[k][0])
            return ex.seq_at(h, j)
        if isinstance(h, HDict):
            found, v = dict_get(ex, h, i)
            if not found:
                if h.default is not None:
                    nv = ex.call(h.default, [])
                    setitem(ex, o, i, nv)
                    return nv
                ex.exc("builtins.KeyError", i)
            return v
        if isinstance(h, HInst):
            m = ex.class_attr(h.cls, "__getitem__")
            if m is not None:
                return ex.call(ex.bind(m, o, h.cls), [i])
        if isinstance(h, HOpq):
            m = ex.env_method(h.cls, "__getitem__")
            if m is not None:
                return ex.opq_call(o, h, "__getitem__", [i], {})
    if isinstance(o, ClassV) and o.enum is not None:
        i = ex.expand(i)
        if isinstance(i, str):
            for n, x in o.enum:
                if n == i:
                    return EnumV(o.name, n, x)
        elif isinstance(i, S) and i.kind == "str":
            for n, x in o.enum:
                if ex.branch(i.t == zstr(n)):
                    return EnumV(o.name, n, x)
        ex.exc("builtins.KeyError", i)
    ex.exc("builtins.TypeError", "object is not subscriptable")


def setitem(ex, o, i, v):
    o = ex.expand(o)
    if isinstance(o, Ref):
        h = ex.h(o)
        ex.touch(h)
        if isinstance(h, HList) and h.typ != "tuple":
            mutable(ex, h)
            if h.items is not None:
                j = norm_index(ex, i, len(h.items))
                if isinstance(j, int):
                    h.items = h.items[:j] + [v] + h.items[j + 1:]
                    return
                ex.unsupported("symbolic index store")
            j = norm_index(ex, i, z3.Length(h.seq))
            ek = ex.join_ekind({h.ekind, scalar_kind(ex, v)})
            if ek != h.ekind:
                h.seq, h.ekind = seq_as(ex, h, ek), ek
            if j == 0:
                e, r = ex.seq_uncons(h.seq, h.ekind)
                h.seq = z3.Concat(z3.Unit(ex.elem_term(ek, v)), r)
            else:
                jt = j if not isinstance(j, int) else z3.IntVal(j)
                p, m, q = seq_split3(ex, h.seq, S("int", jt), S("int", jt + 1), h.ekind)
                h.seq = z3.Concat(p, z3.Unit(ex.elem_term(ek, v)), q)
            h.src = None
            return
        if isinstance(h, HDict):
            mutable(ex, h)
            k = hash_key(ex, i)
            for n in range(len(h.entries) - 1, -1, -1):
                if ex.branch(eq(ex, h.entries[n][0], k)):
                    h.entries[n] = [h.entries[n][0], v]
                    return
            h.entries.append([k, v])
            return
        if isinstance(h, HInst):
            m = ex.class_attr(h.cls, "__setitem__")
            if m is not None:
                ex.call(ex.bind(m, o, h.cls), [i, v])
                return
        if isinstance(h, HOpq):
            ex.opq_call(o, h, "__setitem__", [i, v], {})
            return
    ex.exc("builtins.TypeError", "object does not support item assignment")


def scalar_kind(ex, v):
    k = kind_of(v)
    if k in ("int", "bool", "str", "bytes", "real") or is_py(k):
        return k
    return "py"


def mutable(ex, h):
    if h.frozen:
        ex.unsupported("mutation of a container that was abstracted into a term")


def hash_key(ex, k):
    k = ex.expand(k) if isinstance(k, S) and k.kind not in ("py:key",) else k
    if isinstance(k, Ref):
        o = ex.h(k)
        if isinstance(o, (HDict, HSet)) or (isinstance(o, HList) and o.typ != "tuple"):
            ex.exc("builtins.TypeError", "unhashable type")
    if isinstance(k, tuple):
        for x in k:
            hash_key(ex, x)
    return k


def delitem(ex, o, i):
    o = ex.expand(o)
    h = ex.h(o) if isinstance(o, Ref) else None
    if h is not None:
        ex.touch(h)
    if isinstance(h, HDict):
        mutable(ex, h)
        k = hash_key(ex, i)
        for n in range(len(h.entries) - 1, -1, -1):
            if ex.branch(eq(ex, h.entries[n][0], k)):
                if h.entries[n][1] is DEL:
                    ex.exc("builtins.KeyError", i)
                if h.base is None:
                    del h.entries[n]
                else:
                    h.entries[n] = [h.entries[n][0], DEL]
                return
        if h.base is None or not ex.branch(h.base.has(ex, k)):
            ex.exc("builtins.KeyError", i)
        h.entries.append([k, DEL])
        return
    if isinstance(h, HList) and h.typ != "tuple":
        if h.items is not None:
            j = norm_index(ex, i, len(h.items))
            if isinstance(j, int):
                h.items = h.items[:j] + h.items[j + 1:]
                return
        elif i == 0:
            builtin_method(ex, o, "popleft" if h.typ == "deque" else "pop", [0] if h.typ != "deque" else [], {})
            return
        ex.unsupported("del of a list element")
    ex.exc("builtins.TypeError", "object doesn't support item deletion")


def setslice(ex, o, s, v):
    h = ex.h(o)
    if s.lower is None and s.upper is None and s.step is None and isinstance(h, HList):
        mutable(ex, h)
        items = builtin_list(ex, [v], {})
        x = ex.h(items)
        h.items, h.seq, h.ekind, h.src = x.items, x.seq, x.ekind, None
        return
    ex.unsupported("slice assignment")


def delslice(ex, o, s):
    h = ex.h(o)
    if isinstance(h, HList) and s.step is None:
        mutable(ex, h)
        lo = ex.ev(s.lower) if s.lower is not None else None
        hi = ex.ev(s.upper) if s.upper is not None else None
        if lo in (None, 0) and hi is None:
            h.items, h.seq, h.src = [], None, None
            return
        if h.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi)):
            items = list(h.items)
            del items[lo:hi]
            h.items = items
            return
        if h.items is None:
            p, m, q = seq_split3(ex, h.seq, lo, hi, h.ekind)
            h.seq = z3.Concat(p, q)
            return
    ex.unsupported("slice deletion")


# ------------------------------------------------------------------ dict and set
def dict_has(ex, o, k):
    k = hash_key(ex, k)
    for ek, ev in reversed(o.entries):
        if ex.branch(eq(ex, ek, k)):
            return ev is not DEL
    if o.base is None:
        return False
    return o.base.has(ex, k)


def dict_get(ex, o, k):
    k = hash_key(ex, k)
    for ek, ev in reversed(o.entries):
        if ex.branch(eq(ex, ek, k)):
            return (False, None) if ev is DEL else (True, ev)
    if o.base is None or not ex.branch(o.base.has(ex, k)):
        return False, None
    return True, o.base.get(ex, k)


def dict_len(ex, o):
    if o.base is None:
        return len(o.entries)
    n = o.base.length()
    for k, v in o.entries:
        inb = o.base.has(ex, k)
        inb = z3.BoolVal(inb) if isinstance(inb, bool) else inb
        if v is DEL:
            n = n - z3.If(inb, 1, 0)
        else:
            n = n + z3.If(inb, 0, 1)
    return n


def dict_items(ex, o):
    if o.base is not None:
        ex.unsupported("items of a symbolic dict")
    return [(k, v) for k, v in o.entries]


def set_has(ex, o, x):
    x = hash_key(ex, x)
    if o.items is not None:
        return disj([eq(ex, y, x) for y in o.items])
    if o.seq is not None and hasattr(o.seq, "has"):
        return o.seq.has(ex, x)
    ex.unsupported("membership in a symbolic set")


# ------------------------------------------------------------------ iteration
def iter_source(ex, v):
    v = ex.expand(v)
    if isinstance(v, tuple):
        return ("items", list(v))
    if isinstance(v, str):
        return ("items", list(v))
    if isinstance(v, bytes):
        return ("items", list(v))
    if isinstance(v, Ref):
        o = ex.h(v)
        ex.touch(o)
        if isinstance(o, HList):
            if o.items is not None:
                return ("items", list(o.items), o)
            if o.seq is None and o.src is not None and o.src[0] == "mapsnap":
                return ("map",) + tuple(o.src[1:])
            if o.seq is None:
                hk = ex.task.list_iter
                if hk is not None:
                    return hk(ex, v, o)
                ex.unsupported("iteration over a list unknown after a loop")
            return ("seq", o.seq, o.ekind, o.src)
        if isinstance(o, HDict):
            return dict_view(ex, o, "keys")
        if isinstance(o, HSet):
            if o.items is not None:
                return ("items", list(o.items))
            ex.unsupported("iteration over a symbolic set")
        if isinstance(o, HIter):
            return o.impl if isinstance(o.impl, tuple) else ("stream", o.impl)
        if isinstance(o, HCtx):
            return ("gen", o)
        if isinstance(o, HInst):
            m = ex.class_attr(o.cls, "__iter__")
            if m is not None:
                return iter_source(ex, ex.call(ex.bind(m, v, o.cls), []))
            m = ex.class_attr(o.cls, "__next__")
        if isinstance(o, HOpq):
            m = ex.env_method(o.cls, "__iter__")
            if m is not None:
                it = ex.opq_call(v, o, "__iter__", [], {})
                if it != v:
                    return iter_source(ex, it)
            m = ex.env_method(o.cls, "__next__")
            if m is not None:
                def nxt(ex_):
                    try:
                        return True, ex_.opq_call(v, o, "__next__", [], {})
                    except PyExc as e:
                        if e.clsname == "builtins.StopIteration":
                            return False, None
                        raise
                return ("stream", nxt)
    if isinstance(v, ClassV) and v.enum is not None:
        return ("items", [EnumV(v.name, n, x) for n, x in v.enum])
    if isinstance(v, S) and v.kind in ("str", "bytes"):
        seq = z3.Function("CHARS", z3.StringSort(), z3.SeqSort(z3.StringSort()))(v.t)
        return ("seq", seq, v.kind if v.kind == "str" else ex.unsupported("iteration over symbolic bytes"))
    ex.exc("builtins.TypeError", "object is not iterable")


def dict_view(ex, o, what):
    live = ("dict", o, dict_size_mark(o))
    if o.base is None:
        if what == "keys":
            return ("items", [k for k, v in o.entries], live)
        if what == "values":
            return ("items", [v for k, v in o.entries], live)
        return ("items", [(k, v) for k, v in o.entries], live)
    if o.entries:
        if not isinstance(o.base, T.ObjMap):
            ex.unsupported("iteration over an updated symbolic dict")
        return ("map", UpdatedObjMap(HDict([list(e) for e in o.entries], o.base)), what, live)
    return ("map", o.base, what, live)


def dict_size_mark(o):
    return (tuple((id(e[0]) if not isinstance(e[0], (int, str, bytes)) else e[0], e[1] is DEL) for e in o.entries), id(o.base))


def check_live(ex, live):
    """A dict that gained or lost a key while iterated makes the iteration fail."""
    if live[0] == "dict" and dict_size_mark(live[1]) != live[2]:
        ex.exc("builtins.RuntimeError", "dictionary changed size during iteration")


class UpdatedObjMap(object):
    """An object map with local additions and deletions."""
    def __init__(self, o):
        self.o = o
        self.keykind = o.base.keykind

    def length(self, ex=None):
        return z3.Int("len.updated")

    def loop(self, ex, node, what, bindv, body, orelse):
        o = self.o
        m = o.base
        loc = [(term(ex.expand(k)), v) for k, v in o.entries]
        dead = [k for k, v in loc if v is DEL]
        live = [(k, v) for k, v in loc if v is not DEL]
        mm = T.ObjMap(m.name, ex, m.factory, m.keykind)
        mm.wit = [w for w in m.wit if not any(ex.branch(w[0] == k) for k, _ in loc)]
        hidden = [k for k, _ in loc]

        class H(T.ObjMap):
            pass
        real = m.fh
        mm.fh = lambda k: z3.And(real(k), *[k != h for h in hidden])
        for k, v in live:
            kk = mk(m.keykind, k)
            bindv({"keys": kk, "values": v, "items": (kk, v)}[what])
            try:
                body()
            except BreakS:
                return
            except ContinueS:
                pass
        T.loop_objmap(mm, ex, node, what, bindv, body, orelse)


def accumulate(ex, it, init, step, node=None):
    """acc = init; for x in it: acc = step(acc, x) -- the accumulator is a loop variable visible to invariants."""
    class Nn(object):
        lineno, col_offset = -1, -1
    n = ex.names.get("$accf", 0)
    ex.names["$accf"] = n + 1
    f = I.Frame(ex.f.func if ex.frames else None, ex.f if ex.frames else None, ex.f.module if ex.frames else "", None, set(), set(), set(), ex.nframe, {})
    ex.nframe += 1
    ex.allframes.append(f)
    ex.frames.append(f)
    f.loc["$acc"] = init
    try:
        def bindv(v):
            f.loc["$item"] = v

        def body():
            v = f.loc.pop("$item")
            f.loc["$acc"] = step(f.loc["$acc"], v)
        ex.for_each(Nn, it, bindv, body, lambda: None)
        return f.loc["$acc"]
    finally:
        while ex.frames[-1] is not f:
            ex.frames.pop()
        ex.frames.pop()


def to_items(ex, v):
    """Concrete item list of an iterable or None."""
    v = ex.expand(v)
    if isinstance(v, Ref) and isinstance(ex.h(v), HCtx):
        r = accumulate(ex, v, ex.newlist([]), lambda a, x: (builtin_method(ex, a, "append", [x], {}), a)[1])
        o = ex.h(r)
        return o.items, o
    src = iter_source(ex, v)
    if src[0] == "items":
        return list(src[1]), None
    if src[0] == "seq":
        return None, HList(seq=src[1], ekind=src[2])
    r = accumulate(ex, v, ex.newlist([]), lambda a, x: (builtin_method(ex, a, "append", [x], {}), a)[1])
    o = ex.h(r)
    return o.items, o


# ------------------------------------------------------------------ builtin functions
def builtin(name):
    def deco(f):
        BUILTINS[name] = f
        return f
    return deco


@builtin("len")
def b_len(ex, args, kw):
    v = ex.expand(args[0])
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, S) and v.kind in ("str", "bytes"):
        return mk("int", z3.Length(v.t))
    if isinstance(v, Ref):
        o = ex.h(v)
        ex.touch(o)
        if isinstance(o, HList):
            if o.items is None and o.seq is None:
                hk = ex.task.list_len
                if hk is not None:
                    return hk(ex, v, o)
                ex.unsupported("length of a list unknown after a loop")
            return len(o.items) if o.items is not None else mk("int", z3.Length(o.seq))
        if isinstance(o, HDict):
            n = dict_len(ex, o)
            if not isinstance(n, int):
                ex.assume(n >= 0)
                return mk("int", n)
            return n
        if isinstance(o, HSet):
            if o.items is not None:
                return len(o.items)
            ex.unsupported("len of a symbolic set")
        if isinstance(o, HInst):
            m = ex.class_attr(o.cls, "__len__")
            if m is not None:
                return ex.call(ex.bind(m, v, o.cls), [])
        if isinstance(o, HOpq) and ex.env_method(o.cls, "__len__"):
            return ex.opq_call(v, o, "__len__", [], {})
    ex.exc("builtins.TypeError", "object has no len()")


@builtin("isinstance")
def b_isinstance(ex, args, kw):
    v, cls = args
    cls = flatten_classes(ex, cls)
    if isinstance(v, S) and is_py(v.kind):
        # decide by constructor without fixing more than needed
        t = z3.simplify(v.t)
        known = (z3.is_app(t) and t.decl().name() in PYCLS) or ("con", t.get_id()) in ex.memo
        dom = ex.DOM[v.kind]
        if not known and all(d in PYCLS for d in dom):
            hit = [d for d in dom if any(ex.is_sub(PYCLS[d], c) for c in cls)]
            if not hit:
                return False
            if len(hit) == len(dom):
                return True
            r = ex.branch(z3.Or(*[getattr(Py, "is_" + d)(t) for d in hit]))
            if len(hit if r else [d for d in dom if d not in hit]) == 1:
                ex.memo[("con", t.get_id())] = (hit if r else [d for d in dom if d not in hit])[0]
            return r
        v = ex.expand(v)
    n = ex.clsname_of(v)
    return any(ex.is_sub(n, c) for c in cls)


PYCLS = {"PNone": "builtins.NoneType", "PBool": "builtins.bool", "PInt": "builtins.int", "PStr": "builtins.str", "PBytes": "builtins.bytes",
         "PFloat": "builtins.float", "PList": "builtins.list", "PTuple": "builtins.tuple", "PDict": "builtins.dict", "PMap": "builtins.dict"}


def flatten_classes(ex, c):
    if isinstance(c, tuple):
        out = []
        for x in c:
            out += flatten_classes(ex, x)
        return out
    if isinstance(c, ClassV):
        return [c.name]
    if isinstance(c, ExtV):
        return [c.name]
    if c is None:
        ex.exc("builtins.TypeError", "isinstance() arg 2 must be a type")
    ex.unsupported("isinstance against %r" % (c,))


@builtin("issubclass")
def b_issubclass(ex, args, kw):
    return any(ex.is_sub(args[0].name, c) for c in flatten_classes(ex, args[1]))


@builtin("getattr")
def b_getattr(ex, args, kw):
    name = args[1]
    if not isinstance(name, str):
        ex.unsupported("getattr with a symbolic name")
    if len(args) > 2:
        v = ex.expand(args[0])
        if isinstance(v, Ref) and isinstance(ex.h(v), HOpq) and name.startswith("_") and not name.startswith("__"):
            ex.eng.used_env("external objects have no attribute %s" % name, ex.task)
            return args[2]
        try:
            return ex.getattr(args[0], name)
        except PyExc as e:
            if e.clsname == "builtins.AttributeError":
                return args[2]
            raise
    return ex.getattr(args[0], name)


@builtin("hasattr")
def b_hasattr(ex, args, kw):
    try:
        ex.getattr(args[0], args[1])
        return True
    except PyExc as e:
        if e.clsname == "builtins.AttributeError":
            return False
        raise


@builtin("setattr")
def b_setattr(ex, args, kw):
    if not isinstance(args[1], str):
        ex.unsupported("setattr with a symbolic name")
    ex.setattr(args[0], args[1], args[2])


@builtin("delattr")
def b_delattr(ex, args, kw):
    del ex.h(args[0]).fields[args[1]]


@builtin("callable")
def b_callable(ex, args, kw):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, CtxFunc, ExtV, ExtBound, HostFn, BMeth, ClassV, PartialV)):
        return True
    if isinstance(v, Ref) and isinstance(ex.h(v), HInst):
        return ex.class_attr(ex.h(v).cls, "__call__") is not None
    if isinstance(v, Ref) and isinstance(ex.h(v), HOpq):
        return ex.env_method(ex.h(v).cls, "__call__") is not None
    return False


def minmax(ex, args, kw, lt):
    if len(args) == 1:
        items, o = to_items(ex, args[0])
        if items is None:
            ex.unsupported("min/max of a symbolic sequence")
    else:
        items = args
    if kw:
        ex.unsupported("min/max with key")
    if not items:
        ex.exc("builtins.ValueError", "arg is an empty sequence")
    r = items[0]
    for x in items[1:]:
        if is_native(r) and is_native(x):
            r = x if (x < r if lt else x > r) else r
            continue
        a, b = ex.expand(r), ex.expand(x)
        if kind_of(a) in ("int", "bool") and kind_of(b) in ("int", "bool"):
            p, q = num_term(a), num_term(b)
            r = mk("int", z3.If(q < p if lt else q > p, q, p))
        else:
            r = b if ex.truth(compare(ex, "<" if lt else ">", b, a)) else a
    return r


BUILTINS["min"] = lambda ex, a, k: minmax(ex, a, k, True)
BUILTINS["max"] = lambda ex, a, k: minmax(ex, a, k, False)


@builtin("sum")
def b_sum(ex, args, kw):
    return accumulate(ex, args[0], args[1] if len(args) > 1 else 0, lambda a, x: binop(ex, "+", a, x))


@builtin("any")
def b_any(ex, args, kw):
    r = {"v": False}

    def step(a, x):
        if ex.truth(x):
            raise BreakS()
        return a
    try:
        items, o = (None, None)
        src = iter_source(ex, args[0])
        if src[0] == "items":
            for x in src[1]:
                if ex.truth(x):
                    return True
            return False
    except BreakS:
        return True
    hit = []

    class Nn(object):
        lineno, col_offset = -2, -2
    f = ex.f

    def body():
        if ex.truth(f.loc["$any"]):
            f.loc["$hit"] = True
            raise BreakS()
    f.loc["$hit"] = False
    ex.for_each(Nn, args[0], lambda v: f.loc.__setitem__("$any", v), body, lambda: None)
    return f.loc["$hit"]


@builtin("all")
def b_all(ex, args, kw):
    src = iter_source(ex, args[0])
    if src[0] == "items":
        for x in src[1]:
            if not ex.truth(x):
                return False
        return True

    class Nn(object):
        lineno, col_offset = -3, -3
    f = ex.f

    def body():
        if not ex.truth(f.loc["$all"]):
            f.loc["$ok"] = False
            raise BreakS()
    f.loc["$ok"] = True
    ex.for_each(Nn, args[0], lambda v: f.loc.__setitem__("$all", v), body, lambda: None)
    return f.loc["$ok"]


@builtin("sorted")
def b_sorted(ex, args, kw):
    v = ex.expand(args[0])
    if ex.task.sorted_hook is not None and isinstance(v, Ref) and isinstance(ex.h(v), (HDict, HIter)):
        src = iter_source(ex, v)
        if src[0] == "map":
            return ex.task.sorted_hook(ex, src, kw)
    items, o = to_items(ex, args[0])
    if items is not None:
        if kw.get("key") is None:
            if all(deep_native(x) for x in items):
                try:
                    return ex.newlist(sorted(items, reverse=bool(kw.get("reverse"))))
                except TypeError:
                    ex.exc("builtins.TypeError", "'<' not supported")
            if all(isinstance(x, tuple) and x and isinstance(x[0], str) for x in items) and len({x[0] for x in items}) == len(items):
                return ex.newlist(sorted(items, key=lambda x: x[0], reverse=bool(kw.get("reverse"))))
            if len(items) < 2:
                return ex.newlist(items)
        else:
            ks = [ex.call(kw["key"], [x]) for x in items]
            if all(deep_native(k) for k in ks):
                return ex.newlist([x for _, _, x in sorted(((k, i, x) for i, (k, x) in enumerate(zip(ks, items))), key=lambda z: z[:2], reverse=bool(kw.get("reverse")))])
        ex.unsupported("sorted of symbolic items")
    hk = ex.task.sorted_hook
    if hk is not None:
        return hk(ex, o, kw)
    ex.unsupported("sorted of a symbolic sequence")


@builtin("iter")
def b_iter(ex, args, kw):
    if len(args) == 2:
        fn, sent = args

        def nxt(ex_):
            v = ex_.call(fn, [])
            if ex_.branch(eq(ex_, v, sent)):
                return False, None
            return True, v
        return ex.new(HIter(nxt))
    v = ex.expand(args[0])
    if isinstance(v, Ref) and isinstance(ex.h(v), (HIter, HCtx)):
        return v
    src = iter_source(ex, v)
    if src[0] == "items":
        return ex.new(HIter(("items",) + tuple(src[1:])))
    return ex.new(HIter(src))


@builtin("next")
def b_next(ex, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        o = ex.h(v)
        try:
            if isinstance(o, HIter):
                if callable(o.impl):
                    ok, x = o.impl(ex)
                    if ok:
                        return x
                    ex.exc("builtins.StopIteration")
                if o.impl[0] == "items":
                    items = o.impl[1]
                    if items:
                        o.impl = ("items", items[1:])
                        return items[0]
                    ex.exc("builtins.StopIteration")
                if o.impl[0] == "seq":
                    seq, ek = o.impl[1], o.impl[2]
                    if ex.branch(z3.Length(seq) > 0):
                        e, r = ex.seq_uncons(seq, ek)
                        o.impl = ("seq", r, ek) + tuple(o.impl[3:])
                        return ex.from_term(ek, e)
                    ex.exc("builtins.StopIteration")
                if o.impl[0] == "stream":
                    ok, x = o.impl[1](ex)
                    if ok:
                        return x
                    ex.exc("builtins.StopIteration")
            elif isinstance(o, HOpq):
                return ex.opq_call(v, o, "__next__", [], {})
            elif isinstance(o, HCtx) and o.frame is not None:
                # first element of a generator expression (then abandoned)
                return next_gen(ex, v, o)
        except PyExc as e:
            if e.clsname == "builtins.StopIteration" and len(args) > 1:
                return args[1]
            raise
    ex.unsupported("next() of this object")


def next_gen(ex, v, o):
    class Nn(object):
        lineno, col_offset = -4, -4
    f = ex.f
    f.loc["$nx"] = None
    f.loc["$got"] = False

    def body():
        f.loc["$got"] = True
        raise BreakS()
    ex.for_each(Nn, v, lambda x: f.loc.__setitem__("$nx", x), body, lambda: None)
    if not f.loc["$got"]:
        ex.exc("builtins.StopIteration")
    return f.loc["$nx"]


@builtin("range")
def b_range(ex, args, kw):
    args = [ex.expand(a) for a in args]
    args = [a.value if isinstance(a, EnumV) else a for a in args]
    if all(isinstance(a, int) for a in args):
        r = range(*args)
        if len(r) > 2000:
            return ex.new(HIter(range_stream(ex, args)))
        return ex.newlist(list(r))
    return ex.new(HIter(range_stream(ex, args)))


def range_stream(ex, args):
    lo, hi, st = (0, args[0], 1) if len(args) == 1 else ((args[0], args[1], 1) if len(args) == 2 else args)
    if not isinstance(st, int) or st == 0:
        ex.unsupported("symbolic range step")
    n = ex.names.get("$range", 0)
    ex.names["$range"] = n + 1
    g = "$range%d" % n
    ex.g[g] = lo

    def nxt(e):
        cur = e.g[g]
        if not e.truth(compare(e, "<" if st > 0 else ">", cur, hi)):
            return False, None
        e.g[g] = binop(e, "+", cur, st)
        return True, cur
    return nxt


@builtin("enumerate")
def b_enumerate(ex, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    src = iter_source(ex, args[0])
    if src[0] == "items":
        return ex.newlist([(start + i, x) for i, x in enumerate(src[1])])
    it = b_iter(ex, [args[0]], {})
    n = ex.names.get("$enum", 0)
    ex.names["$enum"] = n + 1
    g = "$enum%d" % n
    ex.g[g] = start

    def nxt(e):
        try:
            v = b_next(e, [it], {})
        except PyExc as x:
            if x.clsname == "builtins.StopIteration":
                return False, None
            raise
        i = e.g[g]
        e.g[g] = binop(e, "+", i, 1)
        return True, (i, v)
    return ex.new(HIter(nxt))


@builtin("zip")
def b_zip(ex, args, kw):
    srcs = [iter_source(ex, a) for a in args]
    if any(s[0] == "items" for s in srcs) and all(s[0] in ("items", "seq") for s in srcs):
        n = min(len(s[1]) for s in srcs if s[0] == "items")
        out = []
        for i in range(n):
            row = []
            for s in srcs:
                if s[0] == "items":
                    row.append(s[1][i])
                else:
                    if not ex.branch(z3.Length(s[1]) > i):
                        return ex.newlist(out)
                    row.append(ex.from_term(s[2], z3.simplify(T.nth(z3.simplify(s[1]), z3.IntVal(i)))))
            if any(isinstance(x, I.MoreArgs) for x in row):
                ex.unsupported("more arguments than expected bound")
            out.append(tuple(row))
        return ex.newlist(out)
    ex.unsupported("zip of symbolic iterables")


@builtin("map")
def b_map(ex, args, kw):
    src = iter_source(ex, args[1])
    if len(args) == 2 and src[0] == "items":
        return ex.newlist([ex.call(args[0], [x]) for x in src[1]])
    if len(args) == 2:
        it = b_iter(ex, [args[1]], {})

        def nxt(e):
            try:
                v = b_next(e, [it], {})
            except PyExc as x:
                if x.clsname == "builtins.StopIteration":
                    return False, None
                raise
            return True, e.call(args[0], [v])
        return ex.new(HIter(nxt))
    ex.unsupported("map")


@builtin("filter")
def b_filter(ex, args, kw):
    src = iter_source(ex, args[1])
    fn = args[0]
    if src[0] == "items":
        return ex.newlist([x for x in src[1] if ex.truth(ex.call(fn, [x]) if fn is not None else x)])
    if src[0] == "seq":
        def step(a, x):
            if ex.truth(ex.call(fn, [x]) if fn is not None else x):
                builtin_method(ex, a, "append", [x], {})
            return a
        return accumulate(ex, args[1], ex.newlist([]), step)
    ex.unsupported("filter")


@builtin("reversed")
def b_reversed(ex, args, kw):
    src = iter_source(ex, args[0])
    if src[0] == "items":
        return ex.newlist(list(reversed(src[1])))
    ex.unsupported("reversed")


def map_snapshot(ex, v):
    """list(view of an object map): the entries as they are now."""
    v = ex.expand(v)
    if isinstance(v, Ref) and isinstance(ex.h(v), (HIter, HDict)):
        src = iter_source(ex, v)
        if src[0] == "map" and isinstance(src[1], (T.ObjMap, UpdatedObjMap)):
            r = ex.newlist([])
            h = ex.h(r)
            h.items, h.seq, h.ekind, h.src = None, None, "refs", ("mapsnap",) + tuple(src[1:3])
            return r
    return None


@builtin("list")
def builtin_list(ex, args, kw):
    if not args:
        return ex.newlist([])
    snap = map_snapshot(ex, args[0])
    if snap is not None:
        return snap
    items, o = to_items(ex, args[0])
    if items is not None:
        return ex.newlist(items)
    r = ex.newseq(o.seq, o.ekind)
    v = ex.expand(args[0])
    if isinstance(v, Ref) and isinstance(ex.h(v), HList):
        ex.h(r).src = ex.h(v).src
    return r


@builtin("tuple")
def b_tuple(ex, args, kw):
    if not args:
        return ()
    snap = map_snapshot(ex, args[0])
    if snap is not None:
        return snap
    items, o = to_items(ex, args[0])
    if items is not None:
        return tuple(items)
    return ex.newseq(o.seq, o.ekind, typ="tuple")


@builtin("set")
def b_set(ex, args, kw):
    r = ex.new(HSet(items=[]))
    if args:
        builtin_method(ex, r, "update", [args[0]], {})
    return r


BUILTINS["frozenset"] = b_set


@builtin("dict")
def b_dict(ex, args, kw):
    r = ex.newdict()
    if args:
        v = ex.expand(args[0])
        if isinstance(v, Ref) and isinstance(ex.h(v), HDict):
            o = ex.h(v)
            ex.h(r).entries = [list(e) for e in o.entries]
            ex.h(r).base = o.base
        else:
            hk = ex.task.dict_hook
            if hk is not None:
                x = hk(ex, v)
                if x is not None:
                    return x
            if isinstance(v, Ref) and isinstance(ex.h(v), HList) and ex.h(v).items is None:
                o = ex.h(v)
                ex.h(r).base = T.PairSeq(ex.seq_py(o))
                return r

            def step(a, x):
                k, val = ex.unpack(x, 2)
                setitem(ex, a, k, val)
                return a
            r = accumulate(ex, v, r, step)
    for k, v in kw.items():
        setitem(ex, r, k, v)
    return r


@builtin("int")
def b_int(ex, args, kw):
    if not args:
        return 0
    v = ex.expand(args[0])
    if isinstance(v, EnumV):
        return v.value
    if is_native(v) and not isinstance(v, tuple) and v is not None:
        try:
            return int(v, *[a for a in args[1:]])
        except ValueError:
            ex.exc("builtins.ValueError", "invalid literal for int()")
        except OverflowError:
            ex.exc("builtins.OverflowError")
    if isinstance(v, S):
        if v.kind == "int":
            return v
        if v.kind == "bool":
            return mk("int", z3.If(v.t, 1, 0))
        if v.kind == "real":
            return mk("int", z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v.kind in ("str", "bytes"):
            for c in ex.task.int_facts(ex, v.t):
                ex.assume(c)
            # digits-only strings are accepted; the empty string is not
            ex.assume(z3.Implies(z3.InRe(v.t, T.DIGITS), z3.And(T.INTOK(v.t), T.INTOF(v.t) >= 0)))
            ex.assume(z3.Implies(z3.Length(v.t) == 0, z3.Not(T.INTOK(v.t))))
            if not ex.branch(T.INTOK(v.t)):
                ex.exc("builtins.ValueError", "invalid literal for int()")
            return mk("int", T.INTOF(v.t))
    if isinstance(v, Ref) and isinstance(ex.h(v), HInst):
        m = ex.class_attr(ex.h(v).cls, "__int__")
        if m is not None:
            return ex.call(ex.bind(m, v, ex.h(v).cls), [])
    ex.exc("builtins.TypeError", "int() argument must be a string or a number")


@builtin("float")
def b_float(ex, args, kw):
    v = ex.expand(args[0]) if args else 0.0
    if is_native(v) and v is not None and not isinstance(v, tuple):
        try:
            return float(v)
        except ValueError:
            ex.exc("builtins.ValueError")
    if isinstance(v, S) and v.kind in NUM:
        t = num_term(v)
        return mk("real", z3.ToReal(t) if z3.is_int(t) else t)
    ex.exc("builtins.TypeError", "float()")


@builtin("bool")
def b_bool(ex, args, kw):
    t = truth_term(ex, args[0]) if args else False
    return t if isinstance(t, bool) else mk("bool", t)


@builtin("str")
def b_str(ex, args, kw):
    if not args:
        return ""
    if len(args) > 1 or kw:
        return builtin_method(ex, args[0], "decode", args[1:], kw)
    v = args[0]
    if isinstance(v, S) and is_py(v.kind):
        v = ex.expand(v)
    return str_of(ex, v)


@builtin("repr")
def b_repr(ex, args, kw):
    return str_of(ex, args[0], True)


@builtin("format")
def b_format(ex, args, kw):
    return fmt_value(ex, args[0], None, args[1] if len(args) > 1 else "")


@builtin("bytes")
def b_bytes(ex, args, kw):
    if not args:
        return b""
    v = ex.expand(args[0])
    if len(args) > 1 or kw:
        return builtin_method(ex, v, "encode", args[1:], kw)
    if kind_of(v) == "bytes":
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return bytes(v)
    if isinstance(v, Ref) and isinstance(ex.h(v), HOpq):
        return ex.opq_call(v, ex.h(v), "__bytes__", [], {})
    if kind_of(v) == "str":
        ex.exc("builtins.TypeError", "string argument without an encoding")
    ex.unsupported("bytes()")


BUILTINS["bytearray"] = b_bytes


@builtin("abs")
def b_abs(ex, args, kw):
    v = ex.expand(args[0])
    if is_native(v):
        return abs(v)
    t = num_term(v)
    return mk(v.kind, z3.If(t < 0, -t, t))


@builtin("round")
def b_round(ex, args, kw):
    v = ex.expand(args[0])
    nd = args[1] if len(args) > 1 else None
    if is_native(v) and (nd is None or isinstance(nd, int)):
        return round(v, nd) if nd is not None else round(v)
    hk = ex.task.round_hook
    if hk is not None:
        return hk(ex, v, nd)
    ex.unsupported("round")


@builtin("type")
def b_type(ex, args, kw):
    n = ex.clsname_of(args[0])
    if ex.w.has_cls(n):
        return ex.w.cls(n)
    return ClassV(n, ex.mro_of(n))


@builtin("id")
def b_id(ex, args, kw):
    v = args[0]
    return v.oid if isinstance(v, Ref) else 0


@builtin("hash")
def b_hash(ex, args, kw):
    ex.unsupported("hash")


@builtin("print")
def b_print(ex, args, kw):
    return None


@builtin("dir")
def b_dir(ex, args, kw):
    v = args[0]
    o = ex.h(v) if isinstance(v, Ref) else None
    names = set()
    if isinstance(o, HInst):
        names |= set(o.fields)
        for m in o.cls.mro:
            c = ex.w.classes.get(m)
            if c is not None and c.dict is not None:
                names |= set(c.dict)
    return ex.newlist(sorted(names))


@builtin("ord")
def b_ord(ex, args, kw):
    v = ex.expand(args[0])
    if is_native(v):
        return ord(v)
    return mk("int", z3.StrToCode(v.t))


@builtin("chr")
def b_chr(ex, args, kw):
    v = ex.expand(args[0])
    if is_native(v):
        return chr(v)
    return mk("str", z3.StrFromCode(v.t))


@builtin("property")
def b_property(ex, args, kw):
    return PropV(args[0], None)


@builtin("open")
def b_open(ex, args, kw):
    return ex.call_ext("io.open", args, kw)


@builtin("memoryview")
def b_memoryview(ex, args, kw):
    return args[0]


@builtin("divmod")
def b_divmod(ex, args, kw):
    return (binop(ex, "//", args[0], args[1]), binop(ex, "%", args[0], args[1]))


@builtin("super")
def b_super(ex, args, kw):
    ex.unsupported("super")


@builtin("vars")
def b_vars(ex, args, kw):
    o = ex.h(args[0])
    return ex.newdict([[k, v] for k, v in o.fields.items()])


# ------------------------------------------------------------------ methods of builtin types
METHODS["str"] = {"encode", "format", "join", "split", "rsplit", "startswith", "endswith", "lstrip", "rstrip", "strip", "lower", "upper",
                  "partition", "rpartition", "replace", "find", "rfind", "isdigit", "splitlines", "count", "isalpha", "isalnum", "index",
                  "title", "format_map", "isspace", "ljust", "rjust", "zfill", "isdecimal", "casefold", "capitalize", "isnumeric"}
METHODS["bytes"] = {"decode", "join", "split", "rsplit", "startswith", "endswith", "lstrip", "rstrip", "strip", "lower", "upper",
                    "partition", "rpartition", "replace", "find", "rfind", "isdigit", "splitlines", "count", "hex", "index", "isspace", "isalpha"}
METHODS["list"] = {"append", "extend", "pop", "insert", "remove", "index", "count", "sort", "reverse", "clear", "copy"}
METHODS["deque"] = {"append", "extend", "pop", "popleft", "appendleft", "clear", "extendleft", "remove", "count", "copy"}
METHODS["tuple"] = {"index", "count"}
METHODS["dict"] = {"get", "items", "keys", "values", "pop", "setdefault", "update", "copy", "clear", "popitem", "__contains__"}
METHODS["set"] = {"add", "remove", "discard", "update", "copy", "clear", "union", "difference", "intersection", "issubset", "issuperset", "pop"}
METHODS["iter"] = {"__next__", "__iter__", "close"}
METHODS["gen"] = {"__next__", "__iter__", "close"}
METHODS["int"] = {"bit_length", "to_bytes", "__int__"}
METHODS["bool"] = METHODS["int"]
METHODS["real"] = {"is_integer"}


def builtin_method(ex, recv, name, args, kw):
    recv = ex.expand(recv)
    k = kind_of(recv)
    if k in ("str", "bytes"):
        return str_method(ex, recv, name, args, kw, k)
    if k == "tuple":
        if name == "index":
            for i, x in enumerate(recv):
                if ex.branch(eq(ex, x, args[0])):
                    return i
            ex.exc("builtins.ValueError", "not in tuple")
        if name == "count":
            return sum(1 for x in recv if ex.branch(eq(ex, x, args[0])))
    if isinstance(recv, Ref):
        o = ex.h(recv)
        ex.touch(o)
        if isinstance(o, HList):
            return list_method(ex, recv, o, name, args, kw)
        if isinstance(o, HDict):
            return dict_method(ex, recv, o, name, args, kw)
        if isinstance(o, HSet):
            return set_method(ex, recv, o, name, args, kw)
        if isinstance(o, (HIter, HCtx)):
            if name == "__next__":
                return b_next(ex, [recv], {})
            if name == "__iter__":
                return recv
            return None
    ex.unsupported("method %s" % name)


def sym_append(ex, o, v):
    ek = ex.join_ekind({o.ekind, scalar_kind(ex, v)} - {None})
    if o.ekind != ek:
        o.seq = seq_as(ex, o, ek)
        o.ekind = ek
    o.seq = z3.Concat(o.seq, z3.Unit(ex.elem_term(ek, v)))
    o.src = None


def list_method(ex, ref, o, name, args, kw):
    if o.items is None and o.seq is None:
        hk = ex.task.list_method
        if hk is not None:
            return hk(ex, ref, o, name, args, kw)
        ex.unsupported("list unknown after a loop")
    if name in ("append", "extend", "pop", "popleft", "appendleft", "insert", "remove", "clear", "sort", "reverse", "extendleft"):
        if o.typ == "tuple":
            ex.exc("builtins.AttributeError", name)
        mutable(ex, o)
    if name == "append":
        if o.items is not None:
            o.items = o.items + [args[0]]
        else:
            sym_append(ex, o, args[0])
        return None
    if name == "extend":
        items, x = to_items(ex, args[0])
        if items is not None:
            for v in items:
                list_method(ex, ref, o, "append", [v], {})
        else:
            if o.items is not None and not o.items:
                o.items, o.seq, o.ekind = None, x.seq, x.ekind
            else:
                ek = ex.join_ekind({ex.ekind_of(o), x.ekind} - {None})
                o.seq = z3.Concat(seq_as(ex, o, ek), seq_as(ex, x, ek))
                o.items, o.ekind = None, ek
        return None
    if name in ("pop", "popleft"):
        idx = 0 if name == "popleft" else (args[0] if args else -1)
        if o.items is not None:
            if not o.items:
                ex.exc("builtins.IndexError", "pop from an empty list")
            j = norm_index(ex, idx, len(o.items))
            if not isinstance(j, int):
                ex.unsupported("pop at a symbolic index")
            v = o.items[j]
            o.items = o.items[:j] + o.items[j + 1:]
            return v
        if not ex.branch(z3.Length(o.seq) > 0):
            ex.exc("builtins.IndexError", "pop from an empty list")
        if idx == 0:
            e, r = ex.seq_uncons(o.seq, o.ekind)
            o.seq, o.src = r, None
            return ex.from_term(o.ekind, e)
        if idx == -1:
            v = getitem(ex, ref, -1)
            o.seq, o.src = ex.memo[("unsnoc", o.seq.get_id())][1], None
            return v
        ex.unsupported("pop at index")
    if name == "appendleft":
        if o.items is not None:
            o.items = [args[0]] + o.items
        else:
            ek = ex.join_ekind({o.ekind, scalar_kind(ex, args[0])})
            o.seq = z3.Concat(z3.Unit(ex.elem_term(ek, args[0])), seq_as(ex, o, ek))
            o.ekind = ek
        return None
    if name == "insert":
        if args[0] == 0:
            return list_method(ex, ref, o, "appendleft", [args[1]], {})
        if o.items is not None and isinstance(args[0], int):
            items = list(o.items)
            items.insert(args[0], args[1])
            o.items = items
            return None
    if name == "clear":
        o.items, o.seq, o.src = [], None, None
        return None
    if name == "copy":
        return builtin_list(ex, [ref], {})
    if name == "reverse" and o.items is not None:
        o.items = list(reversed(o.items))
        return None
    if name == "sort":
        r = b_sorted(ex, [ref], kw)
        x = ex.h(r)
        o.items, o.seq, o.ekind = x.items, x.seq, x.ekind
        return None
    if name == "remove" and o.items is not None:
        for i, x in enumerate(o.items):
            if ex.branch(eq(ex, x, args[0])):
                o.items = o.items[:i] + o.items[i + 1:]
                return None
        ex.exc("builtins.ValueError", "list.remove(x): x not in list")
    if name == "index" and o.items is not None:
        for i, x in enumerate(o.items):
            if ex.branch(eq(ex, x, args[0])):
                return i
        ex.exc("builtins.ValueError", "not in list")
    if name == "count" and o.items is not None:
        return sum(1 for x in o.items if ex.branch(eq(ex, x, args[0])))
    ex.unsupported("list method %s" % name)


def view(ex, ref, what):
    def mkk():
        return dict_view(ex, ex.h(ref), what)
    src = dict_view(ex, ex.h(ref), what)
    r = ex.new(HIter(src))
    return r


def dict_method(ex, ref, o, name, args, kw):
    if name == "get":
        found, v = dict_get(ex, o, args[0])
        return v if found else (args[1] if len(args) > 1 else None)
    if name in ("items", "keys", "values"):
        return view(ex, ref, name)
    if name == "__contains__":
        r = dict_has(ex, o, args[0])
        return r if isinstance(r, bool) else mk("bool", r)
    if name == "copy":
        r = ex.newdict(o.entries, o.base)
        return r
    mutable(ex, o)
    if name == "pop":
        found, v = dict_get(ex, o, args[0])
        if found:
            delitem(ex, ref, args[0])
            return v
        if len(args) > 1:
            return args[1]
        ex.exc("builtins.KeyError", args[0])
    if name == "setdefault":
        found, v = dict_get(ex, o, args[0])
        if found:
            return v
        d = args[1] if len(args) > 1 else None
        setitem(ex, ref, args[0], d)
        return d
    if name == "update":
        if args:
            v = ex.expand(args[0])
            if isinstance(v, Ref) and isinstance(ex.h(v), HDict):
                x = ex.h(v)
                if x.base is not None:
                    ex.unsupported("update from a symbolic dict")
                for a, b in dict_items(ex, x):
                    setitem(ex, ref, a, b)
            else:
                items, _ = to_items(ex, v)
                for it in items:
                    a, b = ex.unpack(it, 2)
                    setitem(ex, ref, a, b)
        for a, b in kw.items():
            setitem(ex, ref, a, b)
        return None
    if name == "clear":
        o.entries, o.base = [], None
        return None
    if name == "popitem" and o.base is None:
        if not o.entries:
            ex.exc("builtins.KeyError", "popitem(): dictionary is empty")
        e = o.entries[-1]
        o.entries = o.entries[:-1]
        return (e[0], e[1])
    ex.unsupported("dict method %s" % name)


def set_method(ex, ref, o, name, args, kw):
    if o.items is None:
        hk = ex.task.set_method
        if hk is not None:
            return hk(ex, ref, o, name, args, kw)
        ex.unsupported("method of a symbolic set")
    if name == "add":
        x = hash_key(ex, args[0])
        if not ex.branch(set_has(ex, o, x)):
            o.items = o.items + [x]
        return None
    if name in ("discard", "remove"):
        for i, x in enumerate(o.items):
            if ex.branch(eq(ex, x, args[0])):
                o.items = o.items[:i] + o.items[i + 1:]
                return None
        if name == "remove":
            ex.exc("builtins.KeyError", args[0])
        return None
    if name in ("update", "union", "difference", "intersection", "issubset", "issuperset"):
        items, x = to_items(ex, args[0])
        if items is None:
            ex.unsupported("set of symbolic items")
        if name == "update":
            for v in items:
                set_method(ex, ref, o, "add", [v], {})
            return None
        other = ex.new(HSet(items=[]))
        set_method(ex, other, ex.h(other), "update", [args[0]], {})
        if name in ("union", "difference", "intersection"):
            return binop(ex, {"union": "|", "difference": "-", "intersection": "&"}[name], ref, other)
        a, b = (o.items, ex.h(other).items) if name == "issubset" else (ex.h(other).items, o.items)
        return all(ex.branch(disj([eq(ex, p, q) for q in b])) for p in a)
    if name == "copy":
        return ex.new(HSet(items=list(o.items)))
    if name == "clear":
        o.items = []
        return None
    if name == "pop":
        if not o.items:
            ex.exc("builtins.KeyError", "pop from an empty set")
        v = o.items[0]
        o.items = o.items[1:]
        return v
    ex.unsupported("set method %s" % name)


def str_method(ex, s, name, args, kw, k):
    emp = "" if k == "str" else b""
    if name == "format":
        return str_format(ex, s, args, kw)
    if name == "join":
        return str_join(ex, s, args[0], k)
    args = [ex.expand(a) for a in args]
    kw = {a: ex.expand(b) for a, b in kw.items()}
    if name == "encode":
        return encode(ex, s, args, kw)
    if name == "decode":
        return decode(ex, s, args, kw)
    if is_native(s) and all(deep_native(a) for a in args) and all(deep_native(a) for a in kw.values()):
        try:
            r = getattr(s, name)(*args, **kw)
        except (TypeError, ValueError, AttributeError) as e:
            ex.exc("builtins." + type(e).__name__, str(e))
        if isinstance(r, list):
            return ex.newlist(r)
        return r
    t = term(s)
    if name in ("startswith", "endswith"):
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        if len(args) > 1:
            ex.unsupported("startswith with position")
        ps = args[0] if isinstance(args[0], tuple) else (args[0],)
        for p in ps:
            if kind_of(p) != k:
                ex.exc("builtins.TypeError", "startswith arg")
        return mk("bool", z3.Or(*[f(term(p), t) for p in ps]) if len(ps) > 1 else f(term(ps[0]), t))
    if name in ("lower", "upper", "casefold"):
        return mk(k, T.LOWER(t) if name != "upper" else T.UPPER(t))
    if name in ("strip", "lstrip", "rstrip"):
        if not args or args[0] is None:
            if name == "strip":
                r = S(k, T.STRIP(t))
                strip_facts(ex, t, r.t)
                return mk(k, r.t)
            f = z3.Function(name.upper(), z3.StringSort(), z3.StringSort())
            return mk(k, f(t))
        if not is_native(args[0]):
            ex.unsupported("strip of symbolic characters")
        return strip_chars(ex, s, name, args[0], k)
    if name in ("split", "rsplit"):
        return split(ex, s, name, args, kw, k)
    if name in ("partition", "rpartition"):
        sep = args[0]
        key = (name, t.get_id(), term(sep).get_id())
        if not ex.branch(z3.Contains(t, term(sep))):
            return (mk(k, t), emp, emp) if name == "partition" else (emp, emp, mk(k, t))
        if key not in ex.memo:
            p, q = ex.fresh("part", k, log=False).t, ex.fresh("part", k, log=False).t
            ex.assume(t == z3.Concat(p, term(sep), q))
            if is_native(sep) and len(sep) == 1:
                ex.assume(z3.Not(z3.Contains(p if name == "partition" else q, term(sep))))
            ex.memo[key] = (p, q, t)
        p, q = ex.memo[key][:2]
        return (S(k, p), sep, S(k, q))
    if name == "replace":
        if len(args) == 2:
            f = z3.Function("REPLALL", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
            return mk(k, f(t, term(args[0]), term(args[1])))
    if name in ("find", "index"):
        st = num_term(args[1]) if len(args) > 1 else z3.IntVal(0)
        i = z3.IndexOf(t, term(args[0]), st)
        if name == "index" and ex.branch(i < 0):
            ex.exc("builtins.ValueError", "substring not found")
        return mk("int", i)
    if name == "isdigit" or name == "isdecimal":
        if k == "bytes":
            return mk("bool", z3.InRe(t, T.DIGITS))
        f = z3.Function("ISDIGIT", z3.StringSort(), z3.BoolSort())
        ex.assume(z3.Implies(z3.InRe(t, T.DIGITS), f(t)))
        return mk("bool", f(t))
    if name == "count":
        f = z3.Function("COUNT", z3.StringSort(), z3.StringSort(), z3.IntSort())
        ex.assume(f(t, term(args[0])) >= 0)
        return mk("int", f(t, term(args[0])))
    if name in ("isalpha", "isalnum", "isspace", "isnumeric"):
        f = z3.Function(name.upper(), z3.StringSort(), z3.BoolSort())
        return mk("bool", f(t))
    if name == "splitlines":
        r = ex.newseq(z3.Function("SPLITLINES", z3.StringSort(), z3.SeqSort(z3.StringSort()))(t), k)
        return r
    f = z3.Function(name.upper(), z3.StringSort(), z3.StringSort())
    if name in ("title", "capitalize", "hex"):
        return mk("str", f(t))
    ex.unsupported("string method %s" % name)


def strip_facts(ex, t, r):
    ex.assume(z3.Length(r) <= z3.Length(t))
    ex.assume(z3.Contains(t, r))
    ex.assume(z3.Implies(z3.Length(t) == 0, z3.Length(r) == 0))


def strip_chars(ex, s, name, chars, k):
    t = term(s)
    key = (name, t.get_id(), chars)
    if key in ex.memo:
        return ex.memo[key][0]
    cs = list(chars) if isinstance(chars, str) else [bytes([c]) for c in chars]
    res = [z3.Re(zstr(c)) for c in cs]
    star = z3.Star(z3.Union(*res) if len(res) > 1 else res[0])
    left = name in ("strip", "lstrip")
    right = name in ("strip", "rstrip")
    m = ex.fresh("strip", k, log=False).t
    ps = []
    if left:
        p = ex.fresh("lead", k, log=False).t
        ex.assume(z3.InRe(p, star))
        ps.append(p)
    ps.append(m)
    if right:
        q = ex.fresh("trail", k, log=False).t
        ex.assume(z3.InRe(q, star))
        ps.append(q)
    ex.assume(t == z3.Concat(*ps))
    for c in cs:
        if left:
            ex.assume(z3.Not(z3.PrefixOf(zstr(c), m)))
        if right:
            ex.assume(z3.Not(z3.SuffixOf(zstr(c), m)))
    r = S(k, m)
    ex.memo[key] = (r, t)
    if chars in ("/", b"/"):
        from .paths import has_piece
        ex.assume(has_piece(ex, t, "/", "..") == has_piece(ex, m, "/", ".."))
    return r


def split(ex, s, name, args, kw, k):
    t = term(s)
    sep = args[0] if args else kw.get("sep")
    mx = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
    if sep is not None and not is_native(sep):
        ex.unsupported("split on a symbolic separator")
    if mx not in (-1, None):
        if mx == 1 and sep is not None:
            a, m, b = str_method(ex, s, "partition" if name == "split" else "rpartition", [sep], {}, k)
            if m == ("" if k == "str" else b""):
                return ex.newlist([s])
            return ex.newlist([a, b])
        ex.unsupported("split with maxsplit")
    f = z3.Function("SPLIT", z3.StringSort(), z3.StringSort(), z3.SeqSort(z3.StringSort()))
    seq = f(t, zstr(sep if sep is not None else ""))
    r = ex.newseq(seq, k)
    if sep is not None:
        ex.h(r).src = ("split", t, sep)
        ex.assume(z3.Length(seq) >= 1)
    return r


def str_join(ex, sep, it, k):
    items, o = to_items(ex, it)
    if items is not None:
        ps = []
        for x in items:
            x = ex.expand(x)
            if kind_of(x) != k:
                ex.exc("builtins.TypeError", "sequence item: expected %s instance" % k)
            ps.append(x)
        out = []
        for i, p in enumerate(ps):
            if i and not (is_native(sep) and not sep):
                out.append(sep)
            out.append(p)
        return concat_str(ex, out, k) if out else ("" if k == "str" else b"")
    if o.ekind != k:
        if o.ekind is not None and not is_py(o.ekind):
            if not ex.branch(z3.Length(o.seq) == 0):
                ex.exc("builtins.TypeError", "sequence item")
            return "" if k == "str" else b""
        hk = ex.task.join_hook
        if hk is not None:
            r = hk(ex, sep, o, k)
            if r is not None:
                return r
        ex.unsupported("join of a heterogeneous sequence")
    if is_native(sep) and not sep:
        return mk(k, T.J(o.seq))
    f = z3.Function("JOIN", z3.StringSort(), o.seq.sort(), z3.StringSort())
    return mk(k, f(term(sep), o.seq))


def encode(ex, s, args, kw):
    enc = args[0] if args else kw.get("encoding", "utf-8")
    err = args[1] if len(args) > 1 else kw.get("errors", "strict")
    if not isinstance(enc, str) or not isinstance(err, str):
        ex.unsupported("dynamic codec")
    e = enc.lower().replace("_", "-")
    if is_native(s):
        try:
            return s.encode(enc, err)
        except UnicodeEncodeError:
            ex.exc("builtins.UnicodeEncodeError")
    t = s.t
    if e in ("utf-8", "utf8"):
        if T.ascii_known(t):
            return mk("bytes", t)
        if err == "strict":
            if not ex.branch(T.ENCOK(t)):
                ex.exc("builtins.UnicodeEncodeError")
            return mk("bytes", T.UTF8(t))
        ex.assume(z3.Implies(T.ENCOK(t), T.ENCR(t) == T.UTF8(t)))
        return mk("bytes", T.ENCR(t))
    if e in ("ascii",):
        if T.ascii_known(t):
            return mk("bytes", t)
        f = z3.Function("ASCIIOK", z3.StringSort(), z3.BoolSort())
        if err == "strict" and not ex.branch(f(t)):
            ex.exc("builtins.UnicodeEncodeError")
        if err == "strict":
            ex.assume(T.UTF8(t) == t)
            return mk("bytes", t)
    ex.unsupported("codec %s/%s" % (enc, err))


def decode(ex, s, args, kw):
    enc = args[0] if args else kw.get("encoding", "utf-8")
    err = args[1] if len(args) > 1 else kw.get("errors", "strict")
    if not isinstance(enc, str) or not isinstance(err, str):
        ex.unsupported("dynamic codec")
    e = enc.lower().replace("_", "-")
    if kind_of(s) != "bytes":
        ex.exc("builtins.AttributeError", "decode")
    if is_native(s):
        try:
            return s.decode(enc, err)
        except UnicodeDecodeError:
            ex.exc("builtins.UnicodeDecodeError")
    t = s.t
    if e in ("utf-8", "utf8"):
        if T.ascii_known(t):
            return mk("str", t)
        d = T.DEC8(t)
        ok = T.VALID8(t)
        ex.assume(z3.Implies(ok, z3.And(T._UTF8(d) == t, T._ENCOK(d), (z3.Length(d) == 0) == (z3.Length(t) == 0))))
        if err == "strict":
            if not ex.branch(ok):
                ex.exc("builtins.UnicodeDecodeError")
            return mk("str", d)
        r = T.DECI(t) if err == "ignore" else (T.DECR(t) if err == "replace" else None)
        if r is None:
            if err == "surrogateescape" or err == "backslashreplace":
                r = z3.Function("DEC_" + err, z3.StringSort(), z3.StringSort())(t)
            else:
                ex.unsupported("decode errors=%s" % err)
        ex.assume(z3.Implies(ok, r == d))
        if err != "surrogateescape":
            ex.assume(T._ENCOK(r))
        return mk("str", r)
    if e in ("ascii", "latin-1", "latin1", "iso-8859-1"):
        if e != "ascii":
            return mk("str", t)
        f = z3.Function("ISASCII", z3.StringSort(), z3.BoolSort())
        if err == "strict" and not ex.branch(f(t)):
            ex.exc("builtins.UnicodeDecodeError")
        return mk("str", t) if err == "strict" else memo_str(ex, ("ascii", err, t.get_id()), t)
    ex.unsupported("codec %s" % enc)


for _n, _f in (("truth", truth), ("truth_term", truth_term), ("eq", eq), ("compare", compare), ("binop", binop), ("getitem", getitem),
               ("setitem", setitem), ("delitem", delitem), ("getslice", getslice), ("setslice", setslice), ("delslice", delslice),
               ("iter_source", iter_source), ("builtin_method", builtin_method), ("concat_str", concat_str), ("dict_items", dict_items),
               ("str_of", str_of)):
    setattr(Ex, _n, _f)

EXT["builtins.dict.get"] = lambda ex, a, k: builtin_method(ex, a[0], "get", a[1:], k)
EXT["builtins.object.__init__"] = lambda ex, a, k: None
