"""Lexical POSIX paths as terms: pieces of a split text, os.path.split and splitext.

HP(sep, x, t) says that x is one of the pieces of t split at the one-character separator.  It is taken apart along the
separators a term shows; what stays are atoms about terms without a visible separator, with these facts, true of every
text: a text without the separator has one piece, itself; a text that does not contain x has no such piece."""
import z3
from .values import *
from . import theory as T
from .env import ext, txt

_HP = z3.Function("HASPIECE", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.BoolSort())


def segments(t, sep):
    """The parts of t between the separators it shows: lists of terms."""
    out = [[]]
    for p in T.parts(z3.simplify(t)):
        if z3.is_string_value(p):
            ps = unz(p).split(sep)
            for i, q in enumerate(ps):
                if i:
                    out.append([])
                if q:
                    out[-1].append(q)
        else:
            out[-1].append(p)
    return out


def has_piece(ex, t, sep, x):
    cs = []
    for seg in segments(t, sep):
        if all(isinstance(p, str) for p in seg):
            if "".join(seg) == x:
                return z3.BoolVal(True)
            continue
        if len(seg) > 1 and any(isinstance(p, str) and any(c not in x for c in p) for p in seg):
            # shows a character x does not have: if no part hides a separator, it is a piece other than x
            other = True
        else:
            other = False
        st = T.cat(*[zstr(p) if isinstance(p, str) else p for p in seg])
        a = _HP(zstr(sep), zstr(x), st)
        key = ("haspiece", a.get_id())
        if key not in ex.memo:
            ex.memo[key] = (a,)
            vs = [p for p in seg if not isinstance(p, str) and p.decl().name() != "DEC"]
            one = z3.And(*[z3.Not(z3.Contains(v, zstr(sep))) for v in vs])
            ex.assume(z3.Implies(one, a == (st == zstr(x))))
            ex.assume(z3.Implies(z3.Not(z3.Contains(st, zstr(x))), z3.Not(a)))
            if other:
                ex.assume(z3.Implies(one, z3.Not(a)))
        cs.append(a)
    return z3.Or(*cs) if cs else z3.BoolVal(False)


def clean(ex, t):
    """No piece of the path is '..'."""
    return z3.Not(has_piece(ex, t, "/", ".."))


def unslash(ex, t):
    """t without its trailing slashes (str.rstrip('/'))."""
    ps = T.parts(z3.simplify(t))
    while ps:
        p = ps.pop()
        if z3.is_string_value(p):
            q = unz(p).rstrip("/")
            if q:
                return T.cat(*(ps + [zstr(q)]))
            continue
        if not ex.branch(z3.SuffixOf(zstr("/"), p)):
            if ex.branch(z3.Length(p) == 0):
                continue
            return T.cat(*(ps + [p]))
        key = ("rstrip/", p.get_id())
        if key not in ex.memo:
            m, q = ex.fresh("strip", "str", log=False).t, ex.fresh("trail", "str", log=False).t
            ex.assume(p == z3.Concat(m, q))
            ex.assume(z3.InRe(q, z3.Plus(z3.Re("/"))))
            ex.assume(z3.Not(z3.SuffixOf(zstr("/"), m)))
            ex.memo[key] = (m, q, p)
            ex.assume(has_piece(ex, p, "/", "..") == has_piece(ex, m, "/", ".."))
        m = ex.memo[key][0]
        if not ex.branch(z3.Length(m) == 0):
            return T.cat(*(ps + [m]))
    return zstr("")


def split_path(ex, t):
    """posixpath.split of a text: (head, tail) terms."""
    ps = T.parts(z3.simplify(t))
    tail = []
    while ps:
        p = ps.pop()
        if z3.is_string_value(p):
            s = unz(p)
            if "/" not in s:
                tail.insert(0, p)
                continue
            i = s.rindex("/") + 1
            if s[i:]:
                tail.insert(0, zstr(s[i:]))
            ps.append(zstr(s[:i]))
            break
        if not ex.branch(z3.Contains(p, zstr("/"))):
            tail.insert(0, p)
            continue
        key = ("split/", p.get_id())
        if key not in ex.memo:
            h, q = ex.fresh("head", "str", log=False).t, ex.fresh("tail", "str", log=False).t
            ex.assume(p == z3.Concat(h, zstr("/"), q))
            ex.assume(z3.Not(z3.Contains(q, zstr("/"))))
            ex.memo[key] = (h, q, p)
            ex.assume(has_piece(ex, p, "/", "..") == z3.Or(has_piece(ex, h, "/", ".."), has_piece(ex, q, "/", "..")))
        h, q = ex.memo[key][:2]
        tail.insert(0, q)
        ps += [h, zstr("/")]
        break
    head, tail = T.cat(*ps) if ps else zstr(""), T.cat(*tail) if tail else zstr("")
    if not ps:
        return head, tail
    h = unslash(ex, head)
    return (head if T.is_empty(h) else h), tail


def split_ext(ex, t):
    """posixpath.splitext of a text."""
    t = z3.simplify(t)
    if z3.is_string_value(t):
        import posixpath
        return tuple(zstr(x) for x in posixpath.splitext(unz(t)))
    key = ("splitext", t.get_id())
    if key not in ex.memo:
        if not ex.branch(z3.Contains(t, zstr("."))):
            ex.memo[key] = (t, zstr(""), t)
        else:
            r, e = ex.fresh("root", "str", log=False).t, ex.fresh("ext", "str", log=False).t
            ex.assume(t == z3.Concat(r, e))
            ex.assume(z3.Or(e == zstr(""), z3.And(z3.PrefixOf(zstr("."), e), z3.Length(r) > 0)))
            ex.assume(z3.Not(z3.Contains(e, zstr("/"))))
            ex.assume(z3.Contains(t, zstr("/")) == z3.Contains(r, zstr("/")))
            ex.memo[key] = (r, e, t)
    return ex.memo[key][:2]


def _path1(f, g):
    def h(ex, args, kw):
        p = txt(ex, args[0])
        if is_native(p):
            import posixpath
            return getattr(posixpath, f)(p)
        k = kind_of(p)
        return g(ex, k, term(p))
    return h


ext("os.path.split")(_path1("split", lambda ex, k, t: tuple(mk(k, x) for x in split_path(ex, t))))
ext("os.path.dirname")(_path1("dirname", lambda ex, k, t: mk(k, split_path(ex, t)[0])))
ext("os.path.basename")(_path1("basename", lambda ex, k, t: mk(k, split_path(ex, t)[1])))
ext("os.path.splitext")(_path1("splitext", lambda ex, k, t: tuple(mk(k, x) for x in split_ext(ex, t))))
ext("os.path.isabs")(_path1("isabs", lambda ex, k, t: mk("bool", z3.PrefixOf(zstr("/"), t))))
