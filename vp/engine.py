"""Path exploration, solver interface and obligation bookkeeping for one verification task."""
import os, subprocess, tempfile, time, traceback
import z3
from .values import *
from . import theory as T
from .interp import Ex, EXT
from .rewrite import normal

CVC5 = "cvc5"


class Task(object):
    """One contract: `body(ex)` builds a state satisfying the precondition, runs the real function and states the
    postconditions with ex.prove.  Everything else configures the environment of that run."""

    def __init__(self, name, body, target=None, **kw):
        self.name, self.body, self.target = name, body, target
        self.contracts, self.ext, self.loops = {}, {}, {}
        self.candidates, self.variant_candidates = [], []
        self.branch_timeout, self.cand_timeout, self.prove_timeout = 4000, 6000, 20000
        self.max_steps, self.debug, self.star_bound = 60000, bool(os.environ.get("VP_DEBUG")), 8
        self.slices = self.opaque_slices = self.list_refs = False
        self.ghost_havoc, self.opq_factory = {}, {}
        self.read_hook = self.write_hook = self.lazy_field = self.list_havoc = self.dict_havoc = self.set_havoc = None
        self.list_get = self.list_iter = self.list_len = self.list_method = self.set_method = None
        self.dictcomp_hook = self.dict_hook = self.sorted_hook = self.join_hook = self.round_hook = None
        self.log_hook = None
        self.on_acquire = self.on_release = None
        self.poll_hook = self.poll_result = self.read_data = self.write_data = None
        self.must_reach = ["end"]
        self.max_paths = 6000
        self.time_limit = 500
        self.bounded = None          # text when the task is only a bounded stand-in
        self.requires = ""           # human text of the precondition
        self.volatile, self.volgroup = set(), None      # shared fields found to change; tasks of a group share them
        self.weight = 1
        self.terminates = False      # every loop must have a decreasing measure among the candidates
        self.ensures = []            # human text of the postconditions
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)

    def on_seq_head(self, ex, st, d, r):
        pass

    def on_seq_elem(self, ex, st, d, e, r2):
        pass

    def on_loop_head(self, ex, lv):
        pass

    def on_backedge(self, ex, lv):
        pass

    def on_map_key(self, ex, m, k):
        pass

    def int_facts(self, ex, t):
        return []


LIGHT = ("HASPIECE", "VALID8", "ENCOK")


def light(t):
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if t.num_args() == 0:
        return True
    if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() in LIGHT:
        return True
    if k == z3.Z3_OP_SEQ_CONTAINS:
        return True
    if t.sort() == z3.StringSort() or any(a.sort() == z3.StringSort() for a in t.children()):
        return False
    return all(light(a) for a in t.children())


class Failure(object):
    def __init__(self, name, kind, detail, dec, model, where):
        self.name, self.kind, self.detail, self.dec, self.model, self.where = name, kind, detail, dec, model, where

    def as_json(self):
        return {"obligation": self.name, "kind": self.kind, "detail": self.detail, "where": self.where, "model": self.model,
                "path": [str(d) for d in self.dec]}


class Engine(object):
    def __init__(self, world, task, deadline=None):
        self.world, self.task = world, task
        self.work = []
        self.obl = {}            # (dec, n) -> (name, status, backend, time)
        self.failures = {}       # (dec, n) -> Failure
        self.contracts_used, self.functions, self.classes, self.env = set(), set(), set(), set()
        self.cache, self.keep, self.syms, self.lights = {}, [], {}, {}
        self.stats = {"paths": 0, "completed": 0, "z3": 0, "z3_time": 0.0, "cvc5": 0, "cvc5_time": 0.0, "restarts": 0, "cached": 0}
        self.reached = {}        # label -> number of feasible paths
        self.deadline = deadline or (time.time() + task.time_limit)
        self.stop_on_first = bool(os.environ.get("VP_STOP"))

    # ---- services used by Ex
    def schedule(self, prefix):
        self.work.append(list(prefix))

    def used_contract(self, key, task):
        self.contracts_used.add(key)

    def saw_function(self, fn, task):
        self.functions.add(fn.key)

    def saw_class(self, cls, task):
        self.classes.add(cls.name)

    def used_env(self, name, task):
        self.env.add(name)

    def sync(self, ex):
        n = getattr(ex, "synced", 0)
        if n < len(ex.pc):
            for c in ex.pc[n:]:
                ex.solver.add(c)
            ex.synced = len(ex.pc)

    def check(self, ex, c, timeout, model=False):
        """sat/unsat/unknown of pc and c (c None: pc alone); returns (result, model)."""
        key = (tuple(sorted(ex.pcset)), c.get_id() if c is not None else None)
        r = self.cache.get(key)
        if r is not None and (r[0] != "unknown" or r[1] >= timeout) and not (model and r[0] == "sat"):
            self.stats["cached"] += 1
            return r[0]
        t0 = time.time()
        if t0 > self.deadline:
            raise Unsupported("time limit of the task")
        if c is not None and self.task.slices and not model:
            res = self.check_slice(ex, c, timeout)
            if res is not None:
                self.stats["z3"] += 1
                self.stats["z3_time"] += time.time() - t0
                self.cache[key] = (res, timeout)
                self.keep.append((list(ex.pc), c))
                return res
        self.sync(ex)
        ex.solver.push()
        ex.solver.set("timeout", int(timeout))
        try:
            if c is not None:
                ex.solver.add(c)
            res = str(ex.solver.check())
            ex.lastmodel = None
            if res == "sat" and model:
                try:
                    ex.lastmodel = ex.solver.model()
                except z3.Z3Exception:
                    pass
        except z3.Z3Exception:
            res = "unknown"
        finally:
            ex.solver.pop()
        dt = time.time() - t0
        if self.task.debug and dt > 2:
            print("   slow query %.1fs %s: %s" % (dt, res, str(c)[:200].replace("\n", " ")))
        self.stats["z3"] += 1
        self.stats["z3_time"] += dt
        self.cache[key] = (res, timeout)
        self.keep.append((list(ex.pc), c))
        return res

    def symbols(self, t):
        r = self.syms.get(t.get_id())
        if r is None:
            names, todo, seen = set(), [t], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        names.add(x.decl().name())
                    todo.extend(x.children())
                elif z3.is_quantifier(x):
                    todo.append(x.body())
            r = self.syms[t.get_id()] = (frozenset(names), t)
        return r[0]

    def light(self, t):
        """Text predicates may occur in t, but no equation or concatenation of texts outside them."""
        r = self.lights.get(t.get_id())
        if r is None:
            r = self.lights[t.get_id()] = (light(t), t)
        return r[0]

    def check_slice(self, ex, c, timeout):
        """Satisfiability of c with the part of pc that shares symbols with it, directly or through others: the rest of pc,
        which is satisfiable on a feasible path, cannot contradict it.  First with less still (sound for unsat only)."""
        syms = [self.symbols(a) for a in ex.pc]
        want = set(self.symbols(c))
        light = [a for a in ex.pc if self.light(a)]
        if self.light(c):
            s = z3.Solver()
            s.set("timeout", 2000)
            for a in light:
                s.add(a)
            s.add(c)
            if s.check() == z3.unsat:
                return "unsat"
        s = z3.Solver()
        left = list(range(len(ex.pc)))
        used = []
        while True:
            more = [i for i in left if syms[i] & want]
            if not more:
                break
            for i in more:
                want |= syms[i]
            used += more
            left = [i for i in left if i not in set(more)]
        s.set("timeout", int(timeout))
        for i in sorted(used):
            s.add(ex.pc[i])
        s.add(c)
        try:
            return str(s.check())
        except z3.Z3Exception:
            return "unknown"

    def sat(self, ex, c, timeout):
        return self.check(ex, c, timeout)

    def entails(self, ex, c, timeout):
        c = z3.simplify(c)
        if z3.is_true(c) or c.get_id() in ex.pcset:
            return True
        c = normal(ex, c)
        if z3.is_true(c) or c.get_id() in ex.pcset:
            return True
        if z3.is_false(c):
            return self.check(ex, None, timeout) == "unsat"
        return self.check(ex, z3.Not(c), timeout) == "unsat"

    def obligation(self, ex, c, name):
        ex.nobl = getattr(ex, "nobl", 0) + 1
        key = (tuple(map(str, ex.dec)), ex.nobl)
        t0 = time.time()
        status, backend, model = self.discharge(ex, c)
        dt = time.time() - t0
        self.obl[key] = (name, status, backend, dt)
        if status != "proved":
            where = ex.frames[-1].func.key if ex.frames and ex.frames[-1].func is not None else ""
            self.failures[key] = Failure(name, "obligation", "%s: %s" % (status, str(c)[:600]), list(ex.dec), model, where)
        else:
            self.failures.pop(key, None)

    def discharge(self, ex, c):
        if c is True:
            return "proved", "evaluation", None
        if c is False:
            neg = None
        else:
            c = z3.simplify(c)
            if z3.is_true(c):
                return "proved", "simplifier", None
            if c.get_id() in ex.pcset:
                return "proved", "simplifier", None
            raw = c
            c = normal(ex, c)
            if z3.is_true(c) or c.get_id() in ex.pcset:
                return "proved", "rewriting", None
            if self.task.slices and not z3.is_false(c):
                if z3.is_and(c):
                    rs = [self.discharge(ex, x) for x in c.children()]
                    return next((r for r in rs if r[0] != "proved"), rs[0])
                for x in (raw, c):
                    if self.check_slice(ex, z3.Not(x), 3000) == "unsat":
                        self.stats["z3"] += 1
                        return "proved", "z3", None
            neg = z3.Not(c)
            if z3.is_false(c):
                neg = None
        r = self.check(ex, neg, self.task.prove_timeout, True)
        if r == "unsat":
            return "proved", "z3", None
        if r == "sat":
            return "refuted", "z3", self.model_of(ex, neg)
        r = self.cvc5(ex, neg)
        if r == "unsat":
            return "proved", "cvc5", None
        return ("refuted" if r == "sat" else "undecided"), "cvc5", self.model_of(ex, neg)

    def model_of(self, ex, neg):
        m = getattr(ex, "lastmodel", None)
        out = []
        for label, s in ex.inputs[:200]:
            if isinstance(s, S):
                if m is None:
                    continue
                try:
                    v = mk(s.kind, m.eval(s.t, model_completion=True))
                    out.append([label, v if isinstance(v, (int, str, bool, float)) else (v.decode("latin-1") if isinstance(v, bytes) else str(v)[:200])])
                except Exception:
                    pass
            else:
                out.append([label, s])
        return out

    def cvc5(self, ex, neg):
        t0 = time.time()
        s = z3.Solver()
        for c in ex.pc:
            s.add(c)
        if neg is not None:
            s.add(neg)
        txt = s.to_smt2()
        if "seq.nth_i" in txt or "seq.nth_u" in txt:
            return "unknown"
        txt = "(set-logic ALL)\n" + txt.replace("(check-sat)", "") + "(check-sat)\n"
        f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
        try:
            f.write(txt)
            f.close()
            p = subprocess.run([CVC5, "--strings-exp", "--seq-array=lazy", "--tlimit=20000", f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40)
            r = p.stdout.decode().strip().split("\n")[0]
        except Exception:
            r = "unknown"
        finally:
            os.unlink(f.name)
        self.stats["cvc5"] += 1
        self.stats["cvc5_time"] += time.time() - t0
        return r if r in ("sat", "unsat") else "unknown"

    # ---- exploration
    def extends(self, p, at):
        return len(p) >= len(at) and tuple(map(str, p[:len(at)])) == tuple(map(str, at))

    def run(self):
        task = self.task
        self.work = [[]]
        t0, t_bad = time.time(), None
        while self.work:
            prefix = self.work.pop()
            ex = Ex(self, task, prefix)
            self.stats["paths"] += 1
            if self.stats["paths"] > task.max_paths:
                self.fail(ex, "path limit", "more than %d paths" % task.max_paths)
                break
            if time.time() > self.deadline:
                self.fail(ex, "time limit", "exploration did not finish within its time limit")
                break
            try:
                task.body(ex)
                self.reach(ex, "end")
                self.stats["completed"] += 1
            except PathEnd:
                pass
            except Restart as r:
                self.stats["restarts"] += 1
                at = tuple(r.at)
                self.work = [p for p in self.work if not self.extends(p, at)]
                self.drop(at)
                self.work.append(list(at))
                if self.stats["restarts"] > 4000:
                    self.fail(ex, "restarts", "loop invariants did not stabilise")
                    break
            except Unsupported as u:
                self.fail(ex, "outside the verifier's reach", str(u))
                if task.debug:
                    traceback.print_exc()
            except PyExc as e:
                self.fail(ex, "escaping exception", "%s %s" % (e, self.show_args(ex, e)))
            except (ReturnS, BreakS, ContinueS, GenExit) as e:
                self.fail(ex, "internal", repr(e))
            except z3.Z3Exception as e:
                self.fail(ex, "internal", "z3: %s" % e)
                if task.debug:
                    traceback.print_exc()
            except RecursionError:
                self.fail(ex, "outside the verifier's reach", "recursion depth")
            if len(self.failures) > 300:
                break
            bad = [self.obl[k][3] for k in self.failures if k in self.obl]
            if not self.failures:
                t_bad = None
            elif t_bad is None:
                t_bad = time.time()
            if len(bad) >= 4 and sum(bad) > 60 or t_bad and time.time() - t_bad > (5 if self.stop_on_first else 60):      # refuted often enough: what is left would not change the verdict
                self.stats["stopped"] = True
                break
        self.stats["time"] = time.time() - t0
        return self.result()

    def show_args(self, ex, e):
        try:
            a = ex.h(e.ref).fields.get("args", ())
            return str(a)[:200]
        except Exception:
            return ""

    def reach(self, ex, label):
        if self.reached.get(label, 0) < 1:
            if self.check(ex, None, 4000) != "unsat":
                self.reached[label] = self.reached.get(label, 0) + 1

    def fail(self, ex, kind, detail):
        key = (tuple(map(str, ex.dec)), "x" + kind)
        where = ""
        try:
            if kind in ("escaping exception", "outside the verifier's reach") and ex.pc and self.check(ex, None, 10000) == "unsat":
                return
        except Unsupported:
            pass
        m = None
        if kind == "escaping exception":
            m = self.model_of(ex, None)
        self.failures[key] = Failure(kind, kind, detail, list(ex.dec), m, where)

    def drop(self, at):
        at = tuple(map(str, at))
        n = len(at)
        for k, info in self.task.loops.items():
            if len(k[3]) >= n and tuple(map(str, k[3][:n])) == at:
                info.backedges, info.dead_var, info.vars_seen = 0, set(), set()
        for d in (self.obl, self.failures):
            for k in [k for k in d if k[0][:n] == at]:
                del d[k]

    def result(self):
        task = self.task
        names = {}
        for (name, status, backend, dt) in self.obl.values():
            e = names.setdefault(name, {"instances": 0, "proved": 0, "time": 0.0, "backends": {}})
            e["instances"] += 1
            e["proved"] += status == "proved"
            e["time"] += dt
            e["backends"][backend] = e["backends"].get(backend, 0) + 1
        missing = [l for l in task.must_reach if not self.reached.get(l)]
        fails = [f.as_json() for f in self.failures.values()]
        if missing and not fails:
            fails.append({"obligation": "reachability", "kind": "vacuous", "detail": "no feasible path reaches %s" % missing, "where": "", "model": None, "path": []})
        if not names and not fails:
            fails.append({"obligation": "obligations", "kind": "vacuous", "detail": "no obligation was generated", "where": "", "model": None, "path": []})
        if task.terminates and not fails:
            nterm = 0
            for k, i in task.loops.items():
                if i.backedges and not (i.vars_seen - i.dead_var):
                    fails.append({"obligation": "loop termination", "kind": "obligation", "detail": "no measure was found to decrease in the loop at %s" % (k[:3],), "where": str(k[2]), "model": None, "path": list(map(str, k[3]))})
                elif i.backedges:
                    nterm += 1
            if nterm:
                names["loop termination"] = {"instances": nterm, "proved": nterm, "time": 0.0, "backends": {"z3": nterm}}
        loops = [{"at": list(k[:3]), "dropped": sorted(i.dead), "variants": sorted(i.vars_seen - i.dead_var), "backedges": i.backedges}
                 for k, i in task.loops.items()]
        return {"task": task.name, "target": task.target, "requires": task.requires, "ensures": task.ensures, "bounded": task.bounded,
                "obligations": names, "failures": fails, "stats": self.stats, "functions": sorted(self.functions),
                "contracts_used": sorted(self.contracts_used), "env": sorted(self.env), "loops": len(loops),
                "volatile": sorted(task.volatile)}
