"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = "symbolic execution of the repository's code, SMT (z3) decides every branch and assertion for all values within bounds"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        m = importlib.import_module("checks." + i)
        b = m.bounds("quick") if hasattr(m, "bounds") else m.BOUNDS
        checks.append(dict(property=i, quick_cmd="python3-vt -m vf.run %s --tier quick" % i,
                           thorough_cmd="python3-vt -m vf.run %s --tier thorough" % i,
                           technique=getattr(m, "TECHNIQUE", TECH), level=getattr(m, "LEVEL", "model_checking"),
                           level_note="Bounded (quick tier): " + b + ("; stand-ins: " + "; ".join(m.ASSUMPTIONS) if getattr(m, "ASSUMPTIONS", None) else "")))
    else:
        na.append(dict(property=i, reason="not claimed: no solver-based check built yet"))
json.dump(dict(version=1, setup_cmd="python3-vt -m compileall -q vf checks", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
