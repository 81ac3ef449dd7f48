"""C02: decoding untrusted bytes.

_decode is verified with its recursive calls under its own contract (induction on what is left to read).  The reader hands out
the input in order, each byte once: g.read is what was read so far, g.rest what is left."""
from .common import *

BC = "dataplicity.m2m.bencode"
DE = BC + ".DecodeError"
_ALLP = z3.Function("ALLP", SeqPy, z3.BoolSort())
_VALID = z3.Function("VALID", Py, z3.BoolSort())


def valid(t):
    """A Py term is an integer, byte string, list or dictionary made of such values."""
    t = z3.simplify(t)
    n = z3.is_app(t) and t.decl().name()
    if n in ("PInt", "PBytes"):
        return z3.BoolVal(True)
    if n == "PList":
        return allp(Py.pl(t), valid)
    if n in ("PNone", "PStr", "PBool", "PFloat", "PTuple", "PRef"):
        return z3.BoolVal(False)
    return _VALID(t)


def pair(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().name() == "PTuple":
        return allp(t.arg(0), valid)
    return z3.BoolVal(False)


def allp(s, of=None):
    """Every element of a sequence is a (key, value) pair of values (or a value)."""
    s = z3.simplify(s)
    if T.is_empty(s):
        return z3.BoolVal(True)
    if T.is_unit(s):
        return (of or pair)(s.arg(0))
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return z3.And(*[allp(x, of) for x in s.children()])
    return (_ALLP if of is None else z3.Function("ALLV", SeqPy, z3.BoolSort()))(s)


def is_value(ex, v):
    """Condition: what a Python value of the interpreter is, is an integer, byte string, list or dictionary of such."""
    if isinstance(v, S) and v.kind in ("py:benc", "py:key"):
        return True
    if kind_of(v) in ("int", "bytes"):
        return True
    if isinstance(v, Ref):
        o = ex.h(v)
        if isinstance(o, HList) and o.typ == "list":
            if o.items is not None:
                return conj(*[is_value(ex, x) for x in o.items])
            return True if o.ekind in ("int", "bytes", "py:benc", "py:key", None) else (allp(o.seq, valid) if is_py(o.ekind) else False)
        if isinstance(o, HDict):
            c = [is_value(ex, x) for e in o.entries for x in e]
            if isinstance(o.base, T.PairSeq):
                c.append(allp(o.base.seq))
            elif o.base is not None:
                c.append(getattr(o.base, "dom", None) == "py:benc" and getattr(o.base, "keykind", None) == "py:key")
            return conj(*c)
        return False
    if isinstance(v, S) and is_py(v.kind):
        return valid(v.t)
    return False


def take(ex, x, rest):
    ex.g["rest"], ex.g["read"] = S("bytes", rest), S("bytes", T.cat(term(ex.g["read"]), x))
    return S("bytes", x)


def read(ex, args, kw):
    """io.BytesIO.read"""
    rest = term(ex.g["rest"])
    n = ex.expand(args[0]) if args else None
    if n is None:
        return take(ex, rest, zstr(""))
    if kind_of(n) != "int":
        ex.unsupported("read of no number of bytes")
    if isinstance(n, int) and n == 1:
        if ex.branch(z3.Length(rest) == 0):
            return b""
        c, r = term(ex.fresh("byte", "bytes")), term(ex.fresh("rest", "bytes"))
        ex.assume(z3.And(z3.Length(c) == 1, rest == z3.Concat(c, r)))
        return take(ex, c, r)
    n = term(n)
    if ex.branch(n > 2 ** 63 - 1):
        ex.exc("builtins.OverflowError", "too large")
    if ex.branch(z3.Or(n < 0, n >= z3.Length(rest))):
        return take(ex, rest, zstr(""))
    x, r = term(ex.fresh("bytes", "bytes")), term(ex.fresh("rest", "bytes"))
    ex.assume(z3.And(z3.Length(x) == n, rest == z3.Concat(x, r)))
    return take(ex, x, r)


def nested(ex, fn, args, kw):
    """_decode's contract, for its recursive calls."""
    v = args[0] if len(args) == 1 and not kw else None
    if not (isinstance(v, HostFn) and v.f is read):
        ex.unsupported("a recursive call that is not given the reader")
    rest = term(ex.g["rest"])
    ex.prove(z3.Length(rest) < z3.Length(ex.g["R"].t), "a nested value is decoded from fewer bytes than the value it is in")
    k = ex.choose(3, "nested value")
    r = term(ex.fresh("rest", "bytes"))
    if k == 0:
        x = term(ex.fresh("bad", "bytes"))
        ex.assume(rest == z3.Concat(x, r))
        take(ex, x, r)
        ex.exc(DE, "invalid")
    if k == 1:
        ex.assume(rest == z3.Concat(zstr("e"), r))
        take(ex, zstr("e"), r)
        return None
    x = term(ex.fresh("nested", "bytes"))
    ex.assume(z3.And(z3.Length(x) > 0, rest == z3.Concat(x, r)))
    take(ex, x, r)
    v = ex.fresh("value", "py:benc")
    ex.assume(_VALID(v.t))
    return v


def dict_hook(ex, v):
    if isinstance(v, Ref) and isinstance(ex.h(v), HList):
        if ex.choose(2, "hashable keys"):
            ex.exc("builtins.TypeError", "unhashable type")
    return None


def t_decode_value(ex):
    R = ex.fresh("input", "bytes")
    ex.g.update(R=R, rest=R, read=b"")
    k, v = outcome(ex, lambda: ex.call(ex.w.func(BC + ":_decode"), [HostFn("read", read)], {}))
    if k == "exc":
        ex.prove(ex.is_sub(v.clsname, DE), "no exception but a decode error escapes")
        ex.eng.reach(ex, "refused")
        return
    rd = term(ex.g["read"])
    v = ex.expand(v) if isinstance(v, S) and is_py(v.kind) and v.kind != "py:benc" else v
    ex.prove(z3.Length(rd) > 0, "a value or an end marker is read from at least one byte")
    if v is None:
        ex.prove(rd == zstr("e"), "an end marker is read from its byte")
        ex.eng.reach(ex, "end marker")
        return
    ex.prove(is_value(ex, v), "a value made only of integers, byte strings, lists and dictionaries is returned")
    if kind_of(v) == "bytes":
        w = term(v)
        n = ex.g.get("pre")
        i = z3.IndexOf(rd, zstr(":"), 0)
        size = z3.SubString(rd, 0, i)
        ex.prove(z3.And(i > 0, z3.InRe(size, T.DIGITS)), "the length of a byte string is a plain decimal number")
        ex.prove(z3.And(rd == z3.Concat(size, zstr(":"), w), T.INTOF(size) == z3.Length(w)), "a byte string returned is as long as its length says and follows it")
        ex.eng.reach(ex, "bytes")
    elif kind_of(v) == "int":
        ex.eng.reach(ex, "integer")
    elif isinstance(v, Ref):
        ex.eng.reach(ex, "list" if isinstance(ex.h(v), HList) else "dict")


def t_decode(ex):
    data = ex.fresh("data", "bytes")
    st = {"n": 0}

    def opened(ex, args, kw):
        ex.prove(kind_of(args[0]) == "bytes" and term(args[0]) == data.t, "the bytes given are read from their start")
        return ex.opaque("io.BytesIO")
    ex.task.ext["io.BytesIO"] = opened
    ex.task.ext["io.BytesIO.read"] = lambda ex, ref, a, k: ex.unsupported("decode reads for itself")

    def dec(ex, fn, args, kw):
        ex.g["n"] += 1
        k = ex.choose(3, "decoded")
        if k == 0:
            ex.exc(DE, "invalid")
        return None if k == 1 else ex.g["v"]
    ex.g.update(n=0, v=ex.fresh("value", "py:benc"))
    ex.task.contracts[BC + ":_decode"] = dec
    k, v = outcome(ex, lambda: ex.call(ex.w.func(BC + ":decode"), [data], {}))
    ex.prove(ex.g["n"] == 1, "a value is decoded once")
    if k == "exc":
        ex.prove(ex.is_sub(v.clsname, DE), "no exception but a decode error escapes")
        ex.eng.reach(ex, "refused")
        return
    ex.prove(v is ex.g["v"] or (isinstance(v, S) and v.kind == "py:benc" and v.t.eq(ex.g["v"].t)), "the value decoded is returned, and no end marker")
    ex.eng.reach(ex, "value")


def cand(ex, lv):
    if "R" not in lv.g:
        return []
    rd, rest, R = term(lv.g["read"]), term(lv.g["rest"]), lv.g["R"].t
    out = [("R", R == z3.Concat(rd, rest)), ("some read", z3.Length(rd) > 0), ("progress", z3.Length(rest) < z3.Length(R))]
    for k, v in sorted(lv.locals.items()):
        if kind_of(v) == "bytes":
            t = term(v)
            for k2, v2 in sorted(lv.locals.items()):
                if k2 != k and kind_of(v2) == "bytes":
                    x = T.cat(t, term(v2))
                    out += [("read = %s %s" % (k, k2), rd == x), ("read = i %s %s" % (k, k2), rd == T.cat(zstr("i"), x)), ("short %s" % k2, z3.Length(term(v2)) <= 1), ("progress but %s" % k2, z3.Length(rest) + z3.Length(term(v2)) <= z3.Length(R)),
                            ("end %s" % k2, z3.Implies(z3.Length(term(v2)) == 0, z3.Length(rest) == 0))]
            out += [("read = %s" % k, rd == t), ("read = i %s" % k, rd == T.cat(zstr("i"), t)), ("digits %s" % k, z3.InRe(t, T.DIGITS)), ("no less %s" % k, z3.Length(t) > 0)]
        if isinstance(v, Ref) and isinstance(ex.h(v), HList):
            o = ex.h(v)
            if o.items is not None:
                s = T.seq_of([ex.to_py(x) for x in o.items], Py) if all(kind_of(x) != "obj" or isinstance(x, tuple) for x in o.items) else None
            elif is_py(o.ekind or "") and o.seq is not None:
                s = o.seq
            else:
                s = None
            if s is not None:
                out += [("pairs %s" % k, allp(s)), ("values %s" % k, allp(s, valid))]
    return out


def elem(ex, st, d, e, r2):
    """An element of a list of pairs of values is a pair of values."""
    if st["seq"].sort() == SeqPy and ex.holds(allp(st["seq"])):
        ex.assume(z3.And(Py.is_PTuple(e), z3.Length(Py.pt(e)) == 2))
        for i in (0, 1):
            x = z3.simplify(Py.pt(e)[i])
            ex.assume(z3.And(_VALID(x), z3.Or(*[getattr(Py, "is_" + c)(x) for c in ("PBytes", "PInt", "PList", "PDict")])))
        for s in (d, r2):
            ex.assume(allp(s))


def var(ex, lv):
    if "rest" not in lv.g:
        return []
    n = z3.Length(term(lv.g["rest"]))
    return [("left", n)] + [("left and %s" % k, n + z3.Length(term(v))) for k, v in sorted(lv.locals.items()) if kind_of(v) == "bytes" and "@" not in k]


def fresh_ghost(n):
    return lambda ex: ex.fresh("hv." + n, "bytes")


def tasks(w):
    a = Task("decode a value", t_decode_value, BC + ":_decode", prove_timeout=4000, candidates=[cand], variant_candidates=[var], terminates=True,
             must_reach=["refused", "end marker", "bytes", "integer", "list", "dict"], requires="any input",
             ensures=["only DecodeError escapes", "value of the bencode domain", "a byte string is D ':' w with D decimal and int(D) == len(w)", "at least one byte read", "every loop and recursive call leaves fewer bytes to read"])
    a.contracts[BC + ":_decode"] = nested
    a.dict_hook = dict_hook
    a.dict_havoc = lambda ex, ref, o: (setattr(o, "entries", []), setattr(o, "base", T.AbsMap("hv.dict", ex, "py:benc", "py:key")), True)[-1]
    a.ghost_havoc.update(rest=fresh_ghost("rest"), read=fresh_ghost("read"))

    a.on_seq_elem = elem

    def on_backedge(ex, lv):
        for r, o in list(ex.heap.items()):
            if isinstance(o, HDict):
                ex.prove(is_value(ex, Ref(r)), "a value made only of integers, byte strings, lists and dictionaries is returned")
    a.on_backedge = on_backedge
    b = Task("decode", t_decode, BC + ":decode", must_reach=["refused", "value"], requires="any byte string", ensures=["only DecodeError escapes", "never an end marker"])
    return [a, b]


ASSUMPTIONS = ["io.BytesIO.read(n) returns the next n bytes, or what is left, and raises OverflowError for n >= 2**63 (CPython and PyPy)", "int() of a string of decimal digits is its number or a ValueError; other strings give an integer or a ValueError",
               "dict(pairs) raises nothing but TypeError", "nesting below the interpreter's recursion limit (as the statement says)"]
