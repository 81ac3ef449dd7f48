"""Writes MANIFEST.json from the contract modules present."""
import json, os, importlib, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "contracts", i.lower() + ".py")):
        m = importlib.import_module("contracts." + i.lower())
        note = getattr(m, "NOTE", "") or (m.__doc__ or "").strip().replace("\n", " ")
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i, "thorough_cmd": "python3-vt check.py %s thorough" % i,
                       "technique": "contract-based deductive verification of the real functions (symbolic execution of /repo's source, z3/cvc5 obligations)",
                       "level": "proof",
                       "level_note": note + " Assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", [])[:4] + ["environment contracts listed in the evidence file"]) + ". A bounded concrete driver searches for failing inputs; it is never counted as proof."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/selftest.py", "checks": checks, "not_applicable": na,
           "notes": "Each check attaches contracts to the current source in /repo, generates verification conditions from it and discharges them with z3/cvc5; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
