"""Rewriting of string and sequence terms with the equalities of the path condition, oriented as a triangular
substitution (the left side does not occur in the right side).  Replacing a goal by its normal form is an equivalence
under the path condition, so a proof of the normal form is a proof of the goal."""
import z3
from . import theory as T
from .values import zstr

SMART = {"J": T.J, "NE": T.NE, "UTF8": T.UTF8, "ENCOK": T.ENCOK, "DEC8": T.DEC8, "VALID8": T.VALID8, "DECI": T.DECI, "DECR": T.DECR,
         "LOWER": T.LOWER, "UPPER": T.UPPER, "STRIP": T.STRIP, "DEC": T.DEC}
CONCAT = z3.Z3_OP_SEQ_CONCAT


def is_atom(t):
    """An uninterpreted constant or application of an uninterpreted function of string or sequence sort."""
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_seq(t)


def concat(ps, sort):
    out = []
    for p in ps:
        out.extend(q for q in T.parts(p) if not T.is_empty(q))
    merged = []
    for p in out:
        if merged and z3.is_string_value(p) and z3.is_string_value(merged[-1]):
            merged[-1] = z3.simplify(z3.Concat(merged[-1], p))
        else:
            merged.append(p)
    if not merged:
        return z3.StringVal("") if sort == z3.StringSort() else z3.Empty(sort)
    return merged[0] if len(merged) == 1 else z3.Concat(*merged)


class Rules(object):
    def __init__(self):
        self.n, self.map, self.memo, self.keep = 0, {}, {}, []

    def update(self, pc):
        while self.n < len(pc):
            c = pc[self.n]
            self.n += 1
            self.learn(c)

    def learn(self, c):
        if z3.is_and(c):
            for x in c.children():
                self.learn(x)
            return
        if z3.is_app(c) and c.num_args() == 2:
            a, b = c.arg(0), c.arg(1)
            k = c.decl().kind()
            if (z3.is_eq(c) or k == z3.Z3_OP_LE) and z3.is_int(a):
                if z3.is_int_value(a) and z3.is_eq(c):
                    a, b = b, a
                if z3.is_int_value(b) and b.as_long() == 0 and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
                    self.equal(a.arg(0), z3.Empty(a.arg(0).sort()) if a.arg(0).sort() != z3.StringSort() else z3.StringVal(""))
                return
            if z3.is_eq(c) and z3.is_seq(a):
                self.equal(a, b)

    def equal(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a.eq(b):
            return
        a, b = self.cancel(a, b)
        for x, y in ((a, b), (b, a)):
            if is_atom(x) and not self.occurs(x, y):
                if is_atom(y) and x.decl().arity() == 0 and y.decl().arity() > 0 and False:
                    continue
                self.map[x.get_id()] = y
                self.keep.append((x, y))
                self.memo.clear()
                return

    def occurs(self, x, t, seen=None):
        seen = seen if seen is not None else set()
        if t.get_id() in seen:
            return False
        seen.add(t.get_id())
        return t.eq(x) or any(self.occurs(x, c, seen) for c in t.children())

    def cancel(self, a, b):
        pa, pb = T.parts(a), T.parts(b)
        pa, pb = [p for p in pa if not T.is_empty(p)], [p for p in pb if not T.is_empty(p)]
        while pa and pb and pa[0].eq(pb[0]):
            pa.pop(0), pb.pop(0)
        while pa and pb and pa[-1].eq(pb[-1]):
            pa.pop(), pb.pop()
        return concat(pa, a.sort()), concat(pb, b.sort())

    def norm(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r[0]
        r = self._norm(t)
        self.memo[k] = (r, t)
        return r

    def _norm(self, t):
        if not z3.is_app(t):
            return t
        n = t.num_args()
        if n:
            ch = [self.norm(c) for c in t.children()]
            kind = t.decl().kind()
            if kind == CONCAT:
                t = concat(ch, t.sort())
                if z3.is_app(t) and t.decl().kind() == CONCAT:
                    return t
            elif kind == z3.Z3_OP_UNINTERPRETED and t.decl().name() in SMART and n == 1:
                t = SMART[t.decl().name()](ch[0])
                if not is_atom(t) and z3.is_app(t) and t.decl().kind() == CONCAT:
                    return self.norm(t) if any(self.map.get(p.get_id()) is not None for p in T.parts(t)) else t
            elif z3.is_eq(t) and z3.is_seq(ch[0]):
                a, b = self.cancel(ch[0], ch[1])
                if a.eq(b):
                    return z3.BoolVal(True)
                t = a == b
            elif z3.is_and(t):
                t = z3.And(*ch)
            elif z3.is_or(t):
                t = z3.Or(*ch)
            elif any(not x.eq(y) for x, y in zip(ch, t.children())):
                t = t.decl()(*ch)
        r = self.map.get(t.get_id())
        if r is not None:
            return self.norm(r)
        return t


def normal(ex, c):
    r = getattr(ex, "rules", None)
    if r is None:
        r = ex.rules = Rules()
    r.update(ex.pc)
    try:
        return z3.simplify(r.norm(c))
    except z3.Z3Exception:
        return c
