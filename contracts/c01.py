"""C01: bencode encoding is canonical and lossless.

ENC is the canonical encoding, defined by recursion on the value (unfolded for each value that is looked into):
ENC(b) = DEC(len b) ':' b, ENC(text) = ENC(utf-8 of text), ENC(n) = 'i' DEC(n) 'e', ENC(list or tuple) = 'l' ENCS 'e', ENC(dict) = 'd' EKV(keys in
ascending order) 'e'.  add_encode and _decode are verified with their recursive calls under their own contracts (induction on the value)."""
from .common import *
from vp.interp import Ex

BC = "dataplicity.m2m.bencode"
ADD = BC + ":encode.<locals>.add_encode"
Ex.DOM.setdefault("py:any", ["PBytes", "PStr", "PInt", "PBool", "PList", "PTuple", "PDict", "PNone", "PFloat", "PMap"])
Ex.DOM.setdefault("py:bdec", ["PBytes", "PInt", "PList", "PDict"])
Str, Bool = z3.StringSort(), z3.BoolSort()
ENC = z3.Function("ENC", Py, Str)
INDOM = z3.Function("INDOM", Py, Bool)
SORTKEYS = z3.Function("SORTKEYS", Py, SeqPy)
_ENCS, _EKV = z3.Function("ENCS", SeqPy, Str), z3.Function("EKV", Py, SeqPy, Str)
_ALLDOM, _ALLKV = z3.Function("ALLDOM", SeqPy, Bool), z3.Function("ALLKV", Py, SeqPy, Bool)
_PAIRS = z3.Function("PAIRS", Py, SeqPy, SeqPy)
E0 = zstr("")


def bstr(b):
    return T.cat(T.DEC(z3.simplify(z3.Length(b))), zstr(":"), b)


def hom(seq, unit, other):
    return [unit(p.arg(0)) if T.is_unit(p) else other(p) for p in T.parts(z3.simplify(seq)) if not T.is_empty(p)]


def ENCS(s):
    return T.cat(*hom(s, ENC, _ENCS))


def EKV(m, s):
    return T.cat(*hom(s, lambda k: T.cat(ENC(k), ENC(T.DGET(m, k))), lambda p: _EKV(m, p)))


def ALLDOM(s):
    return z3.And(*hom(s, INDOM, _ALLDOM)) if hom(s, INDOM, _ALLDOM) else z3.BoolVal(True)


def ALLKV(m, s):
    h = hom(s, lambda k: z3.And(Py.is_PBytes(k), INDOM(T.DGET(m, k))), lambda p: _ALLKV(m, p))
    return z3.And(*h) if h else z3.BoolVal(True)


def PAIRS(m, s):
    h = hom(s, lambda k: z3.Unit(Py.PTuple(z3.Concat(z3.Unit(k), z3.Unit(T.DGET(m, k))))), lambda p: _PAIRS(m, p))
    return (z3.Concat(*h) if len(h) > 1 else h[0]) if h else z3.Empty(SeqPy)


def unfold(ex, t, kind="py:any"):
    """The defining equations of ENC and INDOM for the value t, whose constructor is decided."""
    v = ex.expand(S(kind, t))
    n = None
    for c in ("PBytes", "PStr", "PInt", "PBool", "PList", "PTuple", "PDict", "PNone", "PFloat", "PMap"):
        if ex.holds(getattr(Py, "is_" + c)(t)):
            n = c
            break
    if n == "PBytes":
        e, d = bstr(Py.py(t)), z3.BoolVal(True)
    elif n == "PStr":
        e, d = bstr(T.UTF8(Py.ps(t))), T.ENCOK(Py.ps(t))
    elif n == "PInt":
        e, d = T.cat(zstr("i"), T.DEC(Py.pi(t)), zstr("e")), z3.BoolVal(True)
    elif n == "PBool":
        e, d = T.cat(zstr("i"), T.DEC(z3.If(Py.pb(t), z3.IntVal(1), z3.IntVal(0))), zstr("e")), z3.BoolVal(True)
    elif n in ("PList", "PTuple"):
        q = Py.pl(t) if n == "PList" else Py.pt(t)
        e, d = T.cat(zstr("l"), ENCS(q), zstr("e")), ALLDOM(q)
    elif n == "PDict":
        e, d = T.cat(zstr("d"), EKV(t, SORTKEYS(t)), zstr("e")), ALLKV(t, SORTKEYS(t))
    else:
        e, d = None, z3.BoolVal(False)
    return n, e, d


# ---------------------------------------------------------------- encoding
def chunks(ex, fn):
    """The list of encoded pieces that the function adds to."""
    out, f, seen = {}, fn.frame, set()
    while f is not None:
        for k, v in f.loc.items():
            if isinstance(v, BMeth) and v.name in ("append", "extend"):
                v = v.recv
            if isinstance(v, Ref) and isinstance(ex.h(v), HList) and not getattr(ex.h(v), "frozen", False):
                out[v.oid] = v
        f = f.parent
    return list(out.values())


def nested(ex, fn, args, kw):
    """add_encode's contract, for its recursive calls: adds pieces that make up ENC(value), or refuses a value outside the domain."""
    c = chunks(ex, fn)
    if len(args) != 1 or kw or len(c) != 1:
        ex.unsupported("a recursive call that is not given a value only")
    v = ex.to_py(args[0])
    ex.assume(z3.Implies(Py.is_PBytes(v), INDOM(v)))
    if not ex.branch(INDOM(v)):
        ex.anyexc("refused")
    o = ex.h(c[0])
    s = ex.seq_term(o, "bytes")
    x = ex.freshseq("pieces", "bytes")
    ex.assume(T.J(x) == ENC(v))
    o.items, o.seq, o.ekind, o.src = None, (z3.Concat(s, x) if not T.is_empty(z3.simplify(s)) else x), "bytes", None
    return None


def EKVP(s):
    """The encoding of a sequence of (key, value) pairs."""
    f = z3.Function("EKVP", SeqPy, Str)
    return T.cat(*hom(s, lambda p: T.cat(ENC(Py.pt(p)[0]), ENC(Py.pt(p)[1])), f))


def ALLKVP(s):
    f = z3.Function("ALLKVP", SeqPy, Bool)
    h = hom(s, lambda p: z3.And(Py.is_PBytes(Py.pt(p)[0]), INDOM(Py.pt(p)[1])), f)
    return z3.And(*h) if h else z3.BoolVal(True)


def sorted_hook(ex, o, kw):
    m = ex.g["v"]
    items = isinstance(o, tuple) and o[0] == "map" and o[2] == "items"
    if kw or not is_keys(ex, o[:2] + ("keys",) if items else o, m):
        ex.unsupported("sorted of something else than the keys of the dictionary")
    if ex.choose(2, "keys cannot be compared"):
        ex.assume(z3.Not(ALLKV(m, SORTKEYS(m))))
        ex.exc("builtins.TypeError", "'<' not supported")
    if items:       # the keys differ, so that their order is the order of the pairs
        q = PAIRS(m, SORTKEYS(m))
        ex.assume(z3.And(EKVP(q) == EKV(m, SORTKEYS(m)), ALLKVP(q) == ALLKV(m, SORTKEYS(m))))
        return ex.newseq(q, "py:any")
    return ex.newseq(SORTKEYS(m), "py:any")


def is_keys(ex, o, m):
    """The object sorted is the dictionary m or its keys, which are what SORTKEYS(m) orders."""
    return isinstance(o, tuple) and o[0] == "map" and isinstance(o[1], T.TermMap) and o[1].t.eq(m) and o[2] == "keys"


def t_encode(ex):
    v = ex.fresh("value", "py:any")
    t = v.t
    n, e, d = unfold(ex, t)
    ex.g.update(v=t, enc=e)
    ex.task.sorted_hook = sorted_hook

    def elem(ex, st, dn, x, r2):
        if st["seq"].sort() != SeqPy:
            return
        if n == "PDict" and st["seq"].eq(PAIRS(t, SORTKEYS(t))):
            ex.assume(z3.And(Py.is_PTuple(x), z3.Length(Py.pt(x)) == 2))
            ex.assume(ALLKVP(st["seq"]) == z3.And(ALLKVP(dn), ALLKVP(z3.Unit(x)), ALLKVP(r2)))
            return
        if n == "PDict":
            ex.assume(T.DHAS(t, x))
            ex.assume(ALLKV(t, st["seq"]) == z3.And(ALLKV(t, dn), ALLKV(t, z3.Unit(x)), ALLKV(t, r2)))
        ex.assume(ALLDOM(st["seq"]) == z3.And(ALLDOM(dn), INDOM(x), ALLDOM(r2)))
    ex.task.on_seq_elem = elem

    def dec(ex, fn, args, kw):
        ok = e is not None and kind_of(args[0]) == "bytes" and ex.holds(term(args[0]) == e)
        if not ok and ex.choose(2, "bytes that are no encoding"):
            ex.exc(BC + ".DecodeError", "invalid")
        return ex.fresh("decoded", "py:benc")
    ex.task.contracts[BC + ":decode"] = dec
    k, r = outcome(ex, lambda: ex.call(ex.w.func(BC + ":encode"), [ex.expand(v)], {}))
    if ex.branch(d):
        ex.prove(k == "ok", "a value of the domain can be encoded")
        if k == "ok":
            ex.prove(kind_of(r) == "bytes" and term(r) == e, "the bytes are the canonical encoding of the value")
            ex.eng.reach(ex, "encoded " + n)
    else:
        ex.prove(k == "exc", "a value outside the domain is refused")
        ex.eng.reach(ex, "refused " + n)


def cand_encode(ex, lv):
    if "enc" not in lv.g or lv.done is None:
        return []
    t, out = lv.g["v"], []
    if lv.done.sort() != SeqPy:
        return out
    d = lv.done
    out += [("pairs so far", ALLKVP(d)), ("items so far", ALLDOM(d)), ("entries so far", ALLKV(t, d))]
    for r, o in sorted(ex.heap.items()):
        if isinstance(o, HList) and not getattr(o, "frozen", False) and o.typ == "list" and (o.items is not None or o.ekind == "bytes"):
            if o.items is not None and not all(kind_of(x) == "bytes" for x in o.items):
                continue
            j = T.J(ex.seq_term(o, "bytes"))
            out += [("pieces %d = l items" % r, j == T.cat(zstr("l"), ENCS(d))), ("pieces %d = d pairs" % r, j == T.cat(zstr("d"), EKVP(d))), ("pieces %d = d entries" % r, j == T.cat(zstr("d"), EKV(t, d)))]
    return out


# ---------------------------------------------------------------- decoding
NUMC = z3.Union(z3.Range("0", "9"), z3.Re("-"))


def seg(ex):
    i = ex.g["i"]
    return ex.g["segs"][i] if i < len(ex.g["segs"]) else None


def step_seg(ex):
    ex.g["i"] += 1
    s = seg(ex)
    ex.g["got"], ex.g["left"] = S("bytes", E0), S("bytes", s[1] if s and s[0] == "sym" else E0)


def read(ex, args, kw):
    """The reader over an encoding followed by any bytes, piece by piece (segments: fixed characters, numbers, contents, nested values)."""
    n = ex.expand(args[0]) if args else None
    if n is None or kind_of(n) != "int":
        ex.unsupported("read of no number of bytes")
    while True:
        s = seg(ex)
        if s is None:
            ex.g["over"] = True
            return ex.fresh("beyond", "bytes")
        if s[0] == "sym" and ex.branch(z3.Length(term(ex.g["left"])) == 0):
            if not (isinstance(n, int) and n == 1):
                if ex.branch(term(n) == 0):
                    return b""
            step_seg(ex)
            continue
        break
    if isinstance(n, int) and n == 1:
        if s[0] == "lit":
            step_seg(ex)
            return s[1].encode()
        if s[0] != "sym":
            ex.unsupported("reading into a nested value")
        c, r = term(ex.fresh("byte", "bytes")), term(ex.fresh("left", "bytes"))
        left = term(ex.g["left"])
        ex.assume(z3.And(z3.Length(c) == 1, left == z3.Concat(c, r)))
        got = term(ex.g["got"])
        ex.assume(z3.Implies(s[1] == T.cat(got, left), s[1] == T.cat(T.cat(got, c), r)))
        if s[2] is not None:
            ex.assume(z3.InRe(c, s[2]))
            ex.assume(z3.InRe(c, T.DIGITS) == z3.InRe(c, z3.Range("0", "9")))
            ex.assume(z3.InRe(r, z3.Star(s[2])))
        ex.g["got"], ex.g["left"] = S("bytes", T.cat(term(ex.g["got"]), c)), S("bytes", r)
        return S("bytes", c)
    left = term(ex.g["left"])
    if s[0] == "sym" and ex.branch(term(n) == z3.Length(left)):
        step_seg(ex)
        return S("bytes", left)
    ex.g["over"] = True
    if ex.choose(2, "too large"):
        ex.exc("builtins.OverflowError", "too large")
    return ex.fresh("other bytes", "bytes")


def nested_dec(ex, fn, args, kw):
    v = args[0] if len(args) == 1 and not kw else None
    if not (isinstance(v, HostFn) and v.f is read):
        ex.unsupported("a recursive call that is not given the reader")
    s = seg(ex)
    if s is None or s[0] not in ("items", "entries"):
        ex.g["over"] = True
        ex.exc(BC + ".DecodeError", "not at a value")
    todo, done = ex.g["todo"].t, ex.g["done"].t
    m = ex.g["v"]
    if ex.g["phase"] == 0:
        if ex.branch(z3.Length(todo) == 0):
            ex.assume(todo == z3.Empty(SeqPy))
            ex.assume(done == s[1])
            ex.g["i"] += 2      # the end marker belongs to the call that meets it
            return None
        k, r = ex.seq_uncons(todo, "py")
        ex.g["todo"] = S("seq:py", r)
        if s[0] == "items":
            ex.g["done"] = S("seq:py", z3.Concat(done, z3.Unit(k)))
            return ex.from_term("py:benc", k)
        ex.assume(Py.is_PBytes(k))
        ex.g["phase"], ex.g["key"] = 1, S("py", k)
        return ex.from_term("py:benc", k)
    k = ex.g["key"].t
    ex.g["phase"], ex.g["done"] = 0, S("seq:py", z3.Concat(done, z3.Unit(k)))
    return ex.from_term("py:benc", T.DGET(m, k))


def pair_elem(ex, st, dn, x, r2):
    """An element of the entries is a pair of a byte string and a value."""
    m = ex.g["v"]
    if st["seq"].sort() == SeqPy and ex.g["segs"][1][0] == "entries" and ex.holds(st["seq"] == PAIRS(m, SORTKEYS(m))):
        ex.assume(z3.And(Py.is_PTuple(x), z3.Length(Py.pt(x)) == 2, Py.is_PBytes(z3.simplify(Py.pt(x)[0]))))


def dict_hook(ex, v):
    m = ex.g["v"]
    if not (isinstance(v, Ref) and isinstance(ex.h(v), HList)):
        return None
    if ex.holds(ex.seq_py(ex.h(v)) == PAIRS(m, SORTKEYS(m))):
        return S("py:benc", m)
    if ex.choose(2, "hashable"):
        ex.exc("builtins.TypeError", "unhashable")
    return ex.fresh("dictionary", "py:benc")


def t_decode(ex):
    v = ex.fresh("value", "py:bdec")
    t = v.t
    n, e, d = unfold(ex, t, "py:bdec")
    ex.assume(d)
    ex.task.dict_hook = dict_hook
    q = None
    if n == "PBytes":
        b = Py.py(t)
        D = T.DEC(z3.simplify(z3.Length(b)))
        for c in T.dec_facts(z3.simplify(z3.Length(b))):
            ex.assume(c)
        ex.assume(z3.InRe(D, T.DIGITS))
        segs = (("sym", D, z3.Range("0", "9")), ("lit", ":"), ("sym", b, None))
    elif n == "PInt":
        D = T.DEC(Py.pi(t))
        for c in T.dec_facts(Py.pi(t)):
            ex.assume(c)
        segs = (("lit", "i"), ("sym", D, NUMC), ("lit", "e"))
    elif n == "PList":
        q = Py.pl(t)
        segs = (("lit", "l"), ("items", q), ("lit", "e"))
    else:
        q = SORTKEYS(t)
        segs = (("lit", "d"), ("entries", q), ("lit", "e"))
    ex.g.update(v=t, segs=segs, i=0, got=S("bytes", E0), left=S("bytes", segs[0][1] if segs[0][0] == "sym" else E0), over=False, phase=0)
    ex.g["done"], ex.g["todo"], ex.g["key"] = S("seq:py", z3.Empty(SeqPy)), S("seq:py", q if q is not None else z3.Empty(SeqPy)), S("py", Py.PNone)
    k, r = outcome(ex, lambda: ex.call(ex.w.func(BC + ":_decode"), [HostFn("read", read)], {}))
    ex.prove(k == "ok", "an encoding decodes")
    if k != "ok":
        return
    got = dict_term(ex, r) if isinstance(r, Ref) and isinstance(ex.h(r), HDict) else None
    if got is not None and n == "PDict":
        # a dictionary filled from all its entries, keys in order, is the dictionary
        ex.assume(DOF(PAIRS(t, q)) == t)
    ex.prove((got if got is not None else ex.to_py(r)) == t, "decoding an encoding gives the value back")
    end = ex.g["i"]
    if end == len(segs) - 1 and segs[-1][0] == "sym":
        end = len(segs) if ex.branch(z3.Length(term(ex.g["left"])) == 0) else end
    ex.prove(not ex.g["over"] and end == len(segs), "exactly the encoding is consumed")
    ex.eng.reach(ex, "decoded " + n)


def cand_decode(ex, lv):
    """Facts for each position in the encoding that the reader may be at; the names carry the position."""
    if "segs" not in lv.g:
        return []
    at, segs = lv.g["i"], lv.g["segs"]
    got, left, out = term(lv.g["got"]), term(lv.g["left"]), []
    bs = [(k, term(v)) for k, v in sorted(lv.locals.items()) if kind_of(v) == "bytes"]
    done, todo, m = lv.g["done"].t, lv.g["todo"].t, lv.g["v"]
    whole = [p[1] for p in segs if p[0] in ("items", "entries")]
    lists = []
    for k, v in sorted(lv.locals.items()) if whole else []:
        if isinstance(v, Ref) and isinstance(ex.h(v), (HList, HDict)):
            try:
                q = ex.seq_py(ex.h(v)) if isinstance(ex.h(v), HList) else None
                if q is not None:
                    lists.append((k, q))
            except Unsupported:
                pass
            if isinstance(ex.h(v), HDict) and lv.done is not None and lv.done.sort() == SeqPy:
                d = dict_term(ex, v)
                if d is not None:
                    out.append(("%s = pairs so far" % k, d == DOF(lv.done)))
    ends = []
    for k, v in sorted(lv.locals.items()) if whole else []:
        u = None
        if v is not None and kind_of(v) != "obj":
            try:
                u = z3.Unit(ex.to_py(v))
            except (Unsupported, KeyError, z3.Z3Exception):
                pass
        ends.append((k, u))
    for i in range(4):
        s = segs[i] if i < len(segs) else ("end",)

        def add(n, c):
            out.append(("%d: %s" % (i, n), c if i == at else True))
        add("not here", False)
        for k, v in sorted(lv.locals.items()):
            add(k + " is given", v is not None)
            add(k + " is None", v is None)
        for p in segs[:i]:
            for k, t in bs:
                if p[0] == "lit":
                    add("%s = %s" % (k, p[1]), t == zstr(p[1]))
                elif p[0] == "sym":
                    add("%s = number" % k, t == p[1])
        if s[0] == "sym":
            add("segment", s[1] == T.cat(got, left))
            if s[2] is not None:
                add("numeric", z3.InRe(left, z3.Star(s[2])))
            for k, t in bs:
                add("%s = got" % k, t == got)
                if s[2] is not None:
                    add("%s numeric" % k, z3.InRe(t, s[2]))
                    add("%s digit" % k, z3.InRe(t, s[2]) == z3.InRe(t, T.DIGITS))
                for k2, t2 in bs:
                    if k2 != k:
                        add("%s %s = got" % (k, k2), T.cat(t, t2) == got)
        if whole:
            add("between entries", lv.g["phase"] == 0)
            for k, q in lists:
                add("%s = items" % k, q == done)
                add("%s = entries" % k, q == PAIRS(m, done))
                add("%s = whole" % k, q == whole[0])
                for k2, u in ends:
                    add("%s %s = items" % (k, k2), u is not None and z3.Concat(q, u) == done)
    if whole:
        out.append(("items", whole[0] == z3.Concat(done, todo)))
    return out


DSTORE, DNONE = z3.Function("DSTORE", Py, Py, Py, Py), z3.Const("DNONE", Py)


def DOF(s):
    """The dictionary filled from a sequence of (key, value) pairs, in order."""
    f = z3.Function("DOF", SeqPy, Py)
    ps = [p for p in T.parts(z3.simplify(s)) if not T.is_empty(p)]
    if not ps:
        return DNONE
    if T.is_unit(ps[-1]):
        p, r = ps[-1].arg(0), (z3.Concat(*ps[:-1]) if len(ps) > 2 else ps[0] if len(ps) == 2 else z3.Empty(SeqPy))
        return DSTORE(DOF(r), z3.simplify(Py.pt(p)[0]), z3.simplify(Py.pt(p)[1]))
    return f(s) if len(ps) == 1 else f(z3.Concat(*ps))


class Built:
    """The dictionary a loop has filled so far."""
    def __init__(self, t):
        self.t = t


def dict_term(ex, ref):
    o = ex.h(ref)
    if o.base is None:
        t = DNONE
    elif isinstance(o.base, Built):
        t = o.base.t
    else:
        return None
    for k, v in o.entries:
        try:
            t = DSTORE(t, ex.to_py(k), ex.to_py(v))
        except Unsupported:
            return None
    return t


def tasks(w):
    a = Task("encode", t_encode, ADD, candidates=[cand_encode],
             must_reach=["encoded " + n for n in ("PBytes", "PStr", "PInt", "PBool", "PList", "PTuple", "PDict")] + ["refused " + n for n in ("PStr", "PList", "PTuple", "PDict", "PNone", "PFloat", "PMap")],
             requires="any value", ensures=["ENC(value) iff the value is in the domain, else an exception"])
    a.contracts[ADD] = nested
    b = Task("decode an encoding", t_decode, BC + ":_decode", candidates=[cand_decode], must_reach=["decoded " + n for n in ("PBytes", "PInt", "PList", "PDict")],
             requires="ENC(v) followed by any bytes, for any v", ensures=["returns v", "reads exactly ENC(v)"])
    b.contracts[BC + ":_decode"] = nested_dec
    from . import c02
    c = Task("decode", c02.t_decode, BC + ":decode", must_reach=["refused", "value"], requires="any byte string", ensures=["the value _decode gives, read from the start"])
    for n in ("got", "left"):
        b.ghost_havoc[n] = (lambda n: lambda ex: ex.fresh("hv." + n, "bytes"))(n)
    for n in ("done", "todo"):
        b.ghost_havoc[n] = (lambda n: lambda ex: S("seq:py", ex.freshseq("hv." + n, "py")))(n)
    b.ghost_havoc["i"] = lambda ex: ex.choose(4, "position in the encoding")
    b.dict_havoc = lambda ex, ref, o: (setattr(o, "entries", []), setattr(o, "base", Built(ex.fresh("built", "py").t)), True)[-1]
    b.on_seq_elem = pair_elem
    b.ghost_havoc["key"] = lambda ex: ex.fresh("hv.key", "py")
    return [a, b, c]


ASSUMPTIONS = ["sorted() of a dictionary's keys gives them in ascending order (SORTKEYS), and fails only for keys that cannot be compared, which are not all byte strings",
               "a dictionary filled from all its entries in key order, at once or one by one, is the dictionary", "DEC(n) is non-empty, consists of digits and '-', of digits only for n >= 0, and int(DEC(n)) == n",
               "text with lone surrogates has no UTF-8 form and is outside the domain; values are of the built-in types, not of subclasses", "nesting below the interpreter's recursion limit, no cyclic values"]
