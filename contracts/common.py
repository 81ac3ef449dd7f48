"""Helpers shared by the contract files."""
import z3
from vp.values import *
from vp import theory as T
from vp.engine import Task
from vp import env
from vp.interp import EXT


def I(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def outcome(ex, f):
    """('ok', value) or ('exc', PyExc)."""
    try:
        return "ok", f()
    except PyExc as e:
        return "exc", e


def method(ex, ref, name):
    return ex.getattr(ref, name)


def fld(ex, ref, name):
    return ex.h(ref).fields[name]


def int_variants(ex, lv):
    out = []
    for k, v in lv.locals.items():
        if kind_of(v) == "int":
            out.append((k, term(v)))
            e = lv.entry.locals.get(k)
            for k2, v2 in lv.locals.items():
                if k2 != k and kind_of(v2) == "int" and "@" not in k2:
                    out.append(("%s - %s" % (k2, k), term(v2) - term(v)))
    return out


def yes(ex, v):
    """Condition: v is true."""
    return ex.truth_term(v)


def no(ex, v):
    c = ex.truth_term(v)
    return (not c) if isinstance(c, bool) else z3.Not(c)


def isval(ex, v, want):
    """Condition: v is a scalar equal to want, of the same kind."""
    v = ex.expand(v)
    if kind_of(v) != kind_of(want) or kind_of(v) in ("obj", "tuple"):
        return False
    if v is None:
        return True
    return term(v) == term(want)


def conj(*cs):
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    return z3.And(*cs) if cs else True


def has_key(ex, d, k):
    from vp.builtins_ import dict_has
    return ex.branch(dict_has(ex, ex.h(d), k))


def harness(ex, src, *args):
    """Runs a loop of calls written in Python (proof harness, not code under test) so that it gets invariants."""
    import ast
    memo = ex.task.__dict__.setdefault("harness_nodes", {})
    if src not in memo:
        memo[src] = ast.parse(src).body[0]
    n = memo[src]
    fn = FuncV(n, "dataplicity.client", "<harness>." + n.name, [])
    return ex.run_body(fn, list(args), {})
