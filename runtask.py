import sys, json, importlib
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from vp.world import World
from vp.engine import Engine
import os
w = World(os.environ.get("VP_REPO", "/repo"))
mod = importlib.import_module("contracts." + sys.argv[1])
for t in mod.tasks(w):
    if len(sys.argv) > 2 and not any(a == t.name for a in sys.argv[2:]): continue
    r = Engine(w, t).run()
    print("==", t.name, {k: (v["proved"], v["instances"]) for k, v in r["obligations"].items()})
    print("   stats", {k: (round(v, 2) if isinstance(v, float) else v) for k, v in r["stats"].items()}, "contracts", r["contracts_used"], "fn", r["functions"])
    seen=set()
    for f in r["failures"]:
        key=(f["obligation"],f["detail"][:60])
        if key in seen: continue
        seen.add(key)
        print("   FAIL", f["obligation"], "|", f["kind"], "|", f["detail"][:400], "|", f["where"], "|", (f["model"] or [])[:12], f["path"])
