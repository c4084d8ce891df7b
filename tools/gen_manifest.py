"""Writes MANIFEST.json from the checks present in sa/checks and the reasons below."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECH = json.load(open(os.path.join(ROOT, "tools", "technique.json")))
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "sa", "checks", p.lower() + ".py")):
        m = importlib.import_module(f"sa.checks.{p.lower()}")
        checks.append({
            "property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, "abstract interpretation of the Python source (dataflow)"),
            "level": "other",
            "level_note": " ".join(m.__doc__.split()) + " Assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", []) or ["the models of library calls in sa/evalmod.py"]) + ".",
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "python3 -m compileall -q sa check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are static: they parse /repo's current Python source (and JSON schemas) and never import or run it.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
