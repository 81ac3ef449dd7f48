"""C26: disk figures, tags and machine revision are computed from what the system reports."""
from .common import *
from .agent import make_agent
from vp.builtins_ import str_slice, str_method, seq_as
import re as _re

R100 = z3.Function("ROUND1", z3.RealSort(), z3.RealSort())     # round(x, 1)


# ------------------------------------------------------------------ disk
def t_disk(ex):
    e = ex.task.ext
    v = {}
    for n in ("f_blocks", "f_frsize", "f_bfree", "f_bavail", "f_bsize", "f_files", "f_ffree", "f_favail", "f_flag", "f_namemax"):
        v[n] = ex.fresh(n, "int")
        ex.assume(v[n].t >= 0)
    ex.assume(v["f_frsize"].t > 0)
    ex.assume(v["f_bfree"].t <= v["f_blocks"].t)
    path = ex.fresh("path", "str")
    st = {"n": 0}

    def statvfs(ex, a, k):
        ex.prove(isval(ex, a[0], path), "the file system of the path is asked")
        if ex.choose(2, "statvfs fails"):
            ex.exc("builtins.OSError", "statvfs")
        st["n"] += 1
        return ex.opaque("os.statvfs_result", **v)
    e["os.statvfs"] = statvfs

    def rnd(ex, x, nd):
        if nd != 1:
            ex.unsupported("rounding to %r digits" % (nd,))
        t = term(x)
        if kind_of(x) == "int":
            t = z3.ToReal(t)
        r = R100(t)
        # rounding to one decimal is monotone, keeps one-decimal numbers and moves a number by at most 0.05
        ex.assume(z3.And(r - t <= z3.Q(1, 20), t - r <= z3.Q(1, 20)))
        for b in (0, 100):
            ex.assume(z3.And(z3.Implies(t >= b, r >= b), z3.Implies(t <= b, r <= b)))
        return mk("real", r)
    ex.task.round_hook = rnd
    k, r = outcome(ex, lambda: ex.call(ex.w.func("dataplicity.disk_tools:disk_usage"), [path]))
    if k == "exc":
        ex.prove(st["n"] == 0, "the figures are computed whenever the system reports them")
        return
    f = v["f_frsize"].t
    tot, used, free, pc = [ex.getattr(r, n) for n in ("total", "used", "free", "percent")]
    total = z3.simplify(v["f_blocks"].t * f)
    bfree, bavail = v["f_bfree"].t * f, v["f_bavail"].t * f
    ex.prove(term(tot) == v["f_blocks"].t * f, "total is the size of the file system in bytes")
    ex.prove(term(used) == v["f_blocks"].t * f - bfree, "used is total minus free bytes")
    ex.prove(term(free) == bavail, "free is what users may still use")
    # lemmas about products of non-negative numbers
    u, a = z3.Int("used$"), z3.Int("avail$")
    ex.assume(z3.And(u == v["f_blocks"].t * f - bfree, a == bavail))
    ex.prove((v["f_blocks"].t - v["f_bfree"].t) * f >= 0, "lemma: used is not negative")
    ex.prove(v["f_bavail"].t * f >= 0, "lemma: free is not negative")
    p = term(pc)
    if kind_of(pc) == "int":
        p = z3.ToReal(p)
    ex.g["u"], ex.g["a"] = u, a
    if ex.branch(u + a == 0):
        ex.prove(p == 0, "the percentage of an empty file system is 0")
        ex.eng.reach(ex, "empty")
    else:
        ex.prove(z3.And(p >= 0, p <= 100), "the percentage lies between 0 and 100")
        share = z3.ToReal(u) / z3.ToReal(u + a) * 100
        ex.prove(z3.And(p - share <= z3.Q(1, 20), share - p <= z3.Q(1, 20)), "the percentage is the used share of the space users can use")
        ex.eng.reach(ex, "computed")


# ------------------------------------------------------------------ tags
SeqStr = z3.SeqSort(z3.StringSort())
PIECES = z3.Function("PIECES", z3.StringSort(), SeqStr)    # all pieces between separators
TAGS = z3.Function("TAGS", SeqStr, SeqStr)                 # the non-empty ones, each cut to 25 characters
SEPS = frozenset([","] + [chr(c) for c in range(0x3100) if chr(c).isspace()])


def separators(ex, pat):
    """Set of characters a pattern of one character (or a run of them) matches, None for any other pattern."""
    m = _re.match(r"^(\[[^\]]*\]|\\s)(\+?)$", pat)
    if not m:
        return None, False
    c = _re.compile(m.group(1))
    return frozenset(chr(x) for x in range(0x3100) if c.match(chr(x))), bool(m.group(2))


def t_tags(ex):
    e = ex.task.ext
    ex.g.update(fail=None, out=None, asked=0)
    home = ex.fresh("HOME", "str")
    e["get:os.environ"] = lambda ex, a, k: ex.opaque("$environ")

    def env_get(ex, ref, a, k):
        ex.prove(a[0] == "HOME", "the home directory is looked up")
        if ex.choose(2, "HOME unset"):
            return a[1] if len(a) > 1 else k.get("default")
        return home
    e["$environ.get"] = env_get
    e["os.path.exists"] = exists
    e["os.path.isfile"] = exists

    def check_output(ex, a, k):
        ex.g["asked"] += 1
        ex.prove(isval(ex, a[0] if not isinstance(a[0], Ref) else ex.unpack(a[0], None)[0], ex.g["path"]), "the script found is the one run")
        c = ex.choose(3, "the script")
        if c == 0:
            ex.g["out"] = ex.fresh("output", "bytes")
            return ex.g["out"]
        if c == 1:
            ex.g["fail"] = "start"
            ex.exc(["builtins.OSError", "builtins.FileNotFoundError", "builtins.PermissionError"][ex.choose(3, "why")], "cannot start")
        ex.g["fail"] = "run"
        ex.exc(["subprocess.CalledProcessError", "builtins.ValueError", "builtins.Exception"][ex.choose(3, "kind")], 1, "dataplicity_tags")
    e["subprocess.check_output"] = check_output

    def resplit(ex, a, k):
        pat, s = a[0], ex.expand(a[1])
        if not isinstance(pat, str) or kind_of(s) != "str" or len(a) > 2:
            ex.unsupported("re.split")
        seps, run = separators(ex, pat)
        if seps is None or run:
            ex.unsupported("splitting at %r" % (pat,))
        if seps == SEPS:
            seq = PIECES(term(s))
        else:
            seq = z3.Function("PIECES." + repr(sorted(map(ord, seps)))[:80], z3.StringSort(), SeqStr)(term(s))
        ex.g["pieces"] = seq
        return ex.newseq(seq, "str")
    e["re.split"] = resplit

    def elem(ex, st, d, x, r):
        if st["ekind"] == "str":
            t = TAGS(z3.Concat(d, z3.Unit(x)))
            st_ = T.STRIP(x)
            cut, cut2 = term(str_slice(ex, S("str", x), None, 25)), term(str_slice(ex, S("str", st_), None, 25))
            ex.assume(cut == cut2)
            ex.assume(t == z3.If(x == z3.StringVal(""), TAGS(d), z3.Concat(TAGS(d), z3.Unit(cut))))
            ex.assume(T.STRIP(x) == x)           # no white space in a piece
    ex.task.on_seq_elem = elem
    k, r = outcome(ex, lambda: ex.call(ex.w.func("dataplicity.tags:get_tag_list"), []))
    if k == "exc":
        ex.prove(ex.g["fail"] == "run", "only a failing script is an error")
        ex.prove(r.clsname == "dataplicity.tags.TagError", "a failing script is reported as a tag error")
        ex.eng.reach(ex, "error")
        return
    ex.prove(ex.g["fail"] != "run", "a failing script is an error")
    ex.prove(isinstance(r, Ref) and isinstance(ex.h(r), HList), "the tags are a list")
    o = ex.h(r)
    seq = o.seq if o.items is None else None
    if ex.g["out"] is None:
        ex.prove(o.items == [] or o.items is not None and len(o.items) == 0, "no script, no tags")
        ex.eng.reach(ex, "none")
        return
    ex.assume(TAGS(z3.Empty(SeqStr)) == z3.Empty(SeqStr))
    want = TAGS(PIECES(T.DECI(term(ex.g["out"]))))
    if seq is None:
        seq = seq_as(ex, o, "str")
    ex.prove(seq == want, "the tags are the non-empty pieces between commas and white space, in order, each cut to 25 characters")
    ex.eng.reach(ex, "tags")


def exists(ex, a, k):
    ex.g["path"] = a[0]
    if ex.choose(2, "no script"):
        return False
    return True


def cand_tags(ex, lv):
    out = []
    if lv.done is not None and lv.done.sort() == SeqStr:
        for k, v in lv.locals.items():
            if isinstance(v, Ref) and isinstance(ex.h(v), HList) and (ex.h(v).items == [] or ex.h(v).seq is not None and ex.h(v).seq.sort() == SeqStr):
                h = ex.h(v)
                s = z3.Empty(SeqStr) if h.items == [] else h.seq
                if h.items == []:
                    ex.assume(TAGS(z3.Empty(SeqStr)) == z3.Empty(SeqStr))
                out.append(("%s = TAGS(done)" % k, s == TAGS(lv.done)))
    return out


# ------------------------------------------------------------------ machine revision
def t_revision(ex):
    e = ex.task.ext
    ex.g.update(found=False, value=b"", err=False)

    def open_(ex, a, k):
        ex.prove(a[0] == "/proc/cpuinfo", "the processor information is read")
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        ex.prove(mode == "rb", "as bytes")
        if ex.choose(2, "open fails"):
            ex.g["err"] = True
            ex.exc(["builtins.FileNotFoundError", "builtins.PermissionError", "builtins.OSError"][ex.choose(3, "how")], "open")
        return ex.opaque("$file")
    for n in ("builtins.open", "io.open"):
        e[n] = open_
    e["$file.__enter__"] = lambda ex, ref, a, k: ref
    e["$file.__exit__"] = lambda ex, ref, a, k: None
    e["$file.close"] = lambda ex, ref, a, k: None
    e["$file.__iter__"] = lambda ex, ref, a, k: ref

    def line(ex, ref, a, k):
        c = ex.choose(3, "next line")
        if c == 0:
            ex.exc("builtins.StopIteration")
        if c == 2:
            ex.g["err"] = True
            ex.exc("builtins.OSError", "read")
        l = ex.fresh("line", "bytes")
        if ex.branch(z3.Contains(l.t, zstr(":"))):
            p, _, q = str_method(ex, l, "partition", [b":"], {}, "bytes")
            if ex.branch(z3.Or(z3.BoolVal(ex.g["found"]) if isinstance(ex.g["found"], bool) else ex.g["found"].t, T.LOWER(T.STRIP(p.t)) != zstr("revision"))):
                pass
            else:
                ex.g["found"] = True
                ex.g["value"] = mk("bytes", T.LOWER(T.STRIP(q.t)))
        return l
    e["$file.__next__"] = line
    k, r = outcome(ex, lambda: ex.call(ex.w.func("dataplicity.rpi:get_machine_revision"), []))
    found = ex.g["found"] if isinstance(ex.g["found"], bool) else ex.branch(ex.g["found"].t)
    if k == "exc":
        ex.prove(r.clsname == "builtins.UnicodeDecodeError" and found, "only a revision that is no text is an error")
        ex.eng.reach(ex, "undecodable")
        return
    if found and not ex.g["err"]:
        ex.prove(kind_of(r) == "str" and term(r) == T.DEC8(term(ex.g["value"])), "the revision is the first revision value")
        ex.eng.reach(ex, "found")
    elif ex.g["err"]:
        ex.prove(r is None, "unreadable processor information gives no revision")
        ex.eng.reach(ex, "unreadable")
    else:
        ex.prove(r is None, "without a revision value there is none")
        ex.eng.reach(ex, "absent")


def cand_rev(ex, lv):
    if "found" not in lv.g:
        return []
    f = lv.g["found"]
    return [("not found yet", z3.Not(z3.BoolVal(f) if isinstance(f, bool) else f.t))]


# ------------------------------------------------------------------ what is sent to the server
def sent(ex, method):
    """Parameters of the last call of that method over all batches."""
    for b in reversed(ex.g["batches"]):
        for c in b:
            if c[1] == method:
                return dict(c[2])
    return None


def t_reports(ex):
    e = ex.task.ext

    def b_exit(ex, ref, a, k):
        if a[0] is None:
            ex.g["batches"] = ex.g["batches"] + (ex.h(ref).fields["calls"],)
    e["$batch.__exit__"] = b_exit
    e["$batch.get_result"] = lambda ex, ref, a, k: ex.fresh("result", "str")
    e["$batch.check"] = lambda ex, ref, a, k: None
    c, serial, token = make_agent(ex)
    tot, used, free, pc = [ex.fresh(n, "int") for n in ("total", "used", "free", "percent")]
    tags = ex.newseq(ex.freshseq("tags", "str"), "str")
    rev = [None, ex.fresh("revision", "str")][ex.choose(2, "revision")]
    cs = ex.task.contracts
    asked = []

    def du(ex, fn, a, k):
        asked.append(a[0] if a else k.get("path"))
        return ex.call(ex.w.cls("dataplicity.disk_tools.sdiskusage"), [], {"total": tot, "used": used, "free": free, "percent": pc})
    cs["dataplicity.disk_tools:disk_usage"] = du
    cs["dataplicity.tags:get_tag_list"] = lambda ex, fn, a, k: tags
    cs["dataplicity.rpi:get_machine_revision"] = lambda ex, fn, a, k: rev
    cs["dataplicity.rpi:get_model_name"] = lambda ex, fn, a, k: ex.fresh("model", "str")
    for n in ("get_os_version", "get_uname"):
        cs["dataplicity.device_meta:" + n] = lambda ex, fn, a, k, n=n: ex.fresh(n, "str")
    cs["dataplicity.device_meta:get_ip_address_list"] = lambda ex, fn, a, k: ex.newseq(ex.freshseq("ips", "str"), "str")
    cs["dataplicity.client:Client.make_sync_id"] = lambda ex, fn, a, k: ex.fresh("sync_id", "str")
    old = term(tags) if not isinstance(tags, Ref) else ex.h(tags).seq
    k, r = outcome(ex, lambda: ex.call(method(ex, c, "poll"), []))
    ex.prove(k == "ok", "a poll does not fail")
    d = sent(ex, "device.set_disk_space")
    if d is not None:
        ex.prove(asked == ["/"], "the figures reported are those of the root file system")
        ex.prove("disk_capacity" in d and "disk_used" in d, "capacity and usage are reported")
        ex.prove(conj(isval(ex, d["disk_capacity"], tot), isval(ex, d["disk_used"], used)), "the reported capacity and usage are the total and used bytes")
        ex.eng.reach(ex, "disk reported")
    d = sent(ex, "device.set_machine_defined_tags")
    if d is not None:
        v = d.get("tag_list")
        ex.prove(isinstance(v, Ref) and isinstance(ex.h(v), HList) and ex.h(v).seq is not None, "the tag list is reported")
        ex.prove(ex.h(v).seq == old, "the reported tags are the tags of the script")
        ex.eng.reach(ex, "tags reported")
    d = sent(ex, "device.set_machine_revision")
    if d is not None:
        ex.prove("revision_code" in d, "the revision is reported")
        ex.prove(isval(ex, d["revision_code"], rev), "the reported revision is the machine's")
        ex.eng.reach(ex, "revision reported")


def tasks(w):
    return [Task("disk usage", t_disk, "dataplicity.disk_tools:disk_usage", must_reach=["empty", "computed"], requires="any figures with 0 <= free <= total blocks, block size > 0",
                 ensures=["total, used, free in bytes", "0 <= percent <= 100, within 0.05 of the exact share; 0 if empty"]),
            Task("tags", t_tags, "dataplicity.tags:get_tag_list", candidates=[cand_tags], must_reach=["error", "none", "tags"], requires="any script output or failure",
                 ensures=["tags = non-empty pieces cut to 25", "[] when missing or unstartable", "TagError when failing"]),
            Task("machine revision", t_revision, "dataplicity.rpi:get_machine_revision", candidates=[cand_rev], must_reach=["found", "absent", "unreadable"],
                 requires="any lines; opening or reading may fail", ensures=["first value whose key is revision, or None"]),
            Task("what a poll reports", t_reports, "dataplicity.client:Client.poll", must_reach=["disk reported", "tags reported", "revision reported"],
                 requires="a fresh client; any figures, tags and revision", ensures=["the figures, tags and revision sent are the ones found out"])]


ASSUMPTIONS = ["floating point numbers are treated as real numbers", "round(x, 1) is monotone, exact on 0 and 100 and within 0.05", "white space characters of re and str.strip agree (Python)",
               "re.split with a one-character class yields the pieces between matches (Python)"]
