"""Writes DESIGN.md: the text below plus tables taken from the contract files, the planted bugs and the findings."""
import importlib, json, os, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vp.world import World

HEAD = """# Contract-based deductive verification of dataplicity-agent

This file is written by `python3-vt tools/gen_design.py` from the text in that script and from what is in `contracts/`,
`seeded/` and `known_findings.txt`.

## 1. The verifier

No deductive verifier for Python is installed (CrossHair is bounded symbolic testing, Nagini and its relatives are not here),
so /verif carries one.  `vp/` is a verification-condition generator that works on the *current* source of /repo:

* **What is verified is the code that runs.**  `vp/world.py` parses /repo's source files on every run and, under the
  interpreter the agent runs with (PyPy 3.9), imports the package and dumps its module-level state (constants, class tables,
  the packet registry, enums, bound defaults).
  Nothing is dropped from a function: an unsupported construct makes the obligation fail as "outside the verifier's reach",
  it is never skipped.  /repo is not annotated; contracts are sidecars (`contracts/cNN.py`) attached to functions by name.
* **Execution.**  `vp/interp.py` and `vp/builtins_.py` execute a function under contract symbolically for all inputs, path by
  path, with Python's semantics: exceptions, `finally`/`with`, generators and context managers, closures, properties,
  metaclass-built tables, `bytes`/`str`/`int`/`list`/`dict` values as z3 terms (integers unbounded as in Python; strings and
  sequences of any length; arbitrary Python data as a recursive datatype `Py`).
* **Loops** are cut at an inductive invariant.  A contract gives *candidate* invariants as schemas over whatever locals and
  ghost state exist at the loop head (so they survive renamed locals and rewritten loops); a Houdini fixpoint keeps the
  inductive ones; the state changed by the loop is discovered, not declared.  Termination, where a contract asks for it, is a
  decreasing measure.  No loop is unrolled and no input bounded, except in tasks marked *bounded* below.
* **Calls.**  A callee under contract is used by its contract (checked in its own task); helpers without contract are executed
  in place.  Recursion (`_decode`, C02) is by induction: the recursive call is checked against the contract and a measure.
* **Environment.**  System and library calls (`os.*`, `select`, sockets, `threading`, `subprocess`, files, JSON, logging ...) are
  *assumed contracts* (`vp/env.py`, `vp/env_os.py`, and per property): any result the documentation allows, any failure,
  partial reads and writes; ghost state records what happened.  They are listed in every evidence file as trusted base.
* **Concurrency** is thread-modular (`vp/monitor.py`): at every lock operation, event operation and unprotected shared access
  the other threads may have changed the shared state in any way their guarantee allows; every step of the code under contract is proved
  to respect its own guarantee.
* **Back ends**: z3 (python bindings), then cvc5 for what z3 leaves unknown; obligations that simplify to a constant are counted as
  discharged by evaluation/simplification.  Each named obligation with its instances, back end and time is in
  `evidence/<id>.json`.
* **A check** (`check.py ID quick|thorough`) first runs a concrete driver (`drivers/cNN.py`) on the real code under PyPy for a few seconds
  (seeded random and systematic cases; its result is never counted as proof; it exists to supply failing inputs for the replay file),
  then discharges every obligation.  Exit 1 comes with the failed obligation and, where the driver has one, the failing input
  (`drivers/run.py ID --replay FILE` runs it again); otherwise the VIOLATION line ends in no-failing-input-found.  *thorough* runs the
  same obligations with longer solver limits and the driver for longer.  `tools/selftest.py` (setup) checks the verifier itself on small programs with
  known answers, true and false.
* **must_reach**: every task names outcomes that must be reachable, so a vacuous precondition or a contradictory environment is an
  error and not a proof.

Why this reaches what the tests cannot: the 51 tests sample a few literal inputs and replace threads, sockets and processes by mocks; the
obligations hold for every input, every failing call and every interference the environment contracts allow.

### Trusted or assumed throughout

* Python semantics as encoded in `vp/` (no mechanised semantics of Python exists here); the import-time dump by PyPy.
* Module- and class-level mutable state has its import-time content when a task starts, unless the contract says otherwise (a cache filled by
  an earlier call is seen only by the tasks that make two calls and by the drivers; see c03-bytes-memo).
* Environment contracts; machine resources (memory, recursion depth, threads that are scheduled eventually); asynchronous exceptions
  (KeyboardInterrupt) only where the contract raises them.
* z3 and cvc5.

## 2. Properties
"""

EXTRA = {
 "C01": "The recursion of `add_encode` and `_decode` is by induction on the value; together: decode(encode(v) + anything) is v with text as bytes and tuples as lists, because ENC does not tell those apart.  The reader in the decoding task hands out an encoding piece by piece; touching a byte after it fails the task.",
 "C02": "`_decode` is proved by induction over what is left to read: its recursive calls are used under its own contract and must be given less input.  The statement excludes nesting beyond the recursion limit.",
 "C03": "45 packet types are enumerated from the protocol table in `contracts/protocol.py` (the oracle, independent of /repo's attribute tables); for each, building from any values (any one of them of any kind or missing, by position or name) and parsing any decoded list.  The bencoding itself is a function symbol BENC here, decided by C01/C02.",
 "C04": "Per packet code the real dispatcher table, handler lookup and handler run on any list starting with the code; the oracle is the protocol table.",
 "C06": "One receiving and one reading thread, as in the agent; the other thread's interference is its guarantee (appends at the end / removes at the front).",
 "C09": "Any number of threads: the counter may change arbitrarily within 0..limit outside the lock.",
 "C11": "Known and not claimed: a connected socket keeps its 5 s timeout; out-of-band data (POLLPRI alone) ends a tunnel.",
 "C16": "`Terminal.close` over its list of processes is a **bounded** stand-in (1, 2 and 3 processes), labelled so in the evidence; everything else is unbounded.  Observed and not claimed: a terminal closed before its process started is never hung up.",
 "C20": "The loop over an arbitrary tree is decided with an abstract stack, visited set and listing: one arbitrary entry of an arbitrary directory per iteration.  Directory identity is the entry's inode.",
 "C21": "Assumes Thread.start does not fail with an exception without a message (the answer would then be empty).",
 "C23": "`any history of polls` proves one poll from any state satisfying the invariant of earlier polls, so any history.",
 "C25": "A relational property: two runs of the real code with different passwords, everything else shared, must show equal texts.",
}

FALSE = """
## 5. False alarms met and corrected

* C20 driver: links that loop (ELOOP) were treated as visible directories; the oracle now uses what the system reports.
* C25 driver: packet codes given as lists, and text with lone surrogates, are outside what the code is asked to print; excluded.  The contract first compared whole packets; the
  statement now says what may be shown (the first 32 bytes of other fields).
* C02 driver: the oracle took a length field of thirty digits for a huge number although its leading digits were zeros.
* Engine: `is` between a built-in type met as a name and as an attribute value answered False (missed c03-body-default until corrected);
  length-only branches are decided by arithmetic alone; a negated path condition is not asked again.

## 6. Limits

* A change may leave the verifier's reach (a new library call without contract, an unsupported construct).  The check then reports the obligation as
  not discharged, with no failing input unless the driver finds one.
* The drivers are bounded and never counted as proof.
* Everything under "trusted" above.
"""

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
w = World()
seeds = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m))
out = [HEAD]
na = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "contracts", i.lower() + ".py")):
        na.append(p)
        continue
    m = importlib.import_module("contracts." + i.lower())
    out.append("### %s %s\n" % (i, p["title"]))
    doc = " ".join((m.__doc__ or "").split())
    doc = re.sub(r"^C\d\d: *", "", doc)
    if p["title"].lower() in doc.lower().rstrip("."):
        doc = doc[len(p["title"]):].lstrip(" .") if doc.lower().startswith(p["title"].lower()) else doc
    out.append((doc[:1].upper() + doc[1:] + ("" if doc.endswith(".") or not doc else ".")) + ("  " + EXTRA[i] if EXTRA.get(i) else "") + "\n")
    groups, order = {}, []
    for t in m.tasks(w):
        n = re.sub(r"^(packet|build|parse|on_instruction) ", "", t.name)
        norm = lambda x: re.sub(r"code \d+", "its code", x).replace("of " + n, "of this type")
        k = (norm(t.requires), tuple(map(norm, t.ensures)), bool(t.bounded))
        if k not in groups:
            order.append(k)
        groups.setdefault(k, []).append(t)
    for k in order:
        g = groups[k]
        names = ", ".join("`%s`" % t.name for t in g[:3]) + (" and %d more" % (len(g) - 3) if len(g) > 3 else "")
        tg = sorted({t.target for t in g if t.target})
        out.append("* %s on %s. For: %s. Ensures: %s.%s" % (names, ", ".join("`%s`" % x.replace("dataplicity.", "") for x in tg[:3]) + (" ..." if len(tg) > 3 else ""), k[0] or "all inputs", "; ".join(k[1]), " **Bounded**: %s." % g[0].bounded if k[2] else ""))
    if getattr(m, "ASSUMPTIONS", None):
        out.append("\nAssumes: " + "; ".join(m.ASSUMPTIONS) + ".")
    try:
        e = json.load(open(os.path.join(HERE, "evidence", i + ".json")))
        out.append("Cost of the last run: %s obligations discharged, %s s." % (e["coverage"].get("discharged"), round(e.get("wall_s", e.get("duration_s", e.get("seconds", 0))) or 0)))
    except (OSError, KeyError):
        pass
    out.append("")
if na:
    out.append("## 2b. Not applicable\n")
    NA = json.load(open(os.path.join(HERE, "tools", "na.json"))) if os.path.exists(os.path.join(HERE, "tools", "na.json")) else {}
    for p in na:
        out.append("* %s %s: %s" % (p["id"], p["title"], NA.get(p["id"], "")))
    out.append("")
out.append("## 3. Defects found in /repo and repaired\n\nEach is one `fix:` commit; the check of the property reports it again if it returns.  No finding is left unrepaired in the known-findings file (`known_findings.txt`).\n")
for l in open(os.path.join(HERE, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, pr, h, *rest = l.split()
        out.append("* %s (%s): %s" % (pr.split("=")[1], h, " ".join(rest)))
out.append("\n## 4. Planted bugs\n\nAll of these pass the existing tests and were caught by the check of their property when last tried (`tools/try_seed.sh`), nearly all with a concrete failing input.\n")
for i in sorted(seeds):
    out.append("* **%s**: " % i + "; ".join("%s (needs %s)" % (d, m["needs"]) for d, m in seeds[i]))
out.append(FALSE)
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
