"""tools/mkseed.py ID PROPERTY FILE <<<JSON {old,new,needs,what,demo}: makes seeded/ID from an edit of /repo (left clean)."""
import sys, json, os, subprocess
i, prop = sys.argv[1:3]
j = json.load(sys.stdin)
edits = j["edits"]
for f, old, new in edits:
    p = os.path.join("/repo", f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/demo.py", "w").write(j["demo"])
open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8\ntimeout 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump({"property": prop, "needs": j["needs"], "what_it_breaks": j["what"]}, open(d + "/meta.json", "w"), indent=1)
