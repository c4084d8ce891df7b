#!/usr/bin/env python3
"""python3 check.py <property>: decide one property of /repo's current source, statically.

Exit 0: it holds (or only known findings break it).  Exit 1, with VIOLATION lines: it does not.
Exit 2: the analysis could not be carried out (an anchor is gone, or too little was found to analyse).
"""
import ast
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

from sa.project import AnalysisBroken, Project  # noqa: E402
from sa.report import Report, known  # noqa: E402


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"sa.checks.{prop.lower()}")
    rep = Report(prop)
    try:
        project = Project()
        mod.check(project, rep, tier)
    except AnalysisBroken as e:
        print(f"analysis broken: {e}", file=sys.stderr)
        return 2
    kn = known(ROOT).get(prop, {})
    new = []
    for key, text in rep.violations:
        if key in kn:
            print(f"KNOWN-FINDING: property={prop} {key} | {kn[key]}")
        else:
            new.append((key, text))
    ev = os.environ.get("VERIF_EV") or os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    n_ok = sum(1 for o in rep.obligations if o[1])
    cov = {
        "explanation": mod.__doc__.strip(),
        "rule": getattr(mod, "RULE", mod.__doc__.strip()),
        "obligations": len(rep.obligations),
        "discharged": n_ok,
        "analysed": {k: len(v) for k, v in sorted(rep.analysed.items())},
        "analysed_items": {k: sorted(v)[:80] for k, v in sorted(rep.analysed.items())},
        "modules_parsed": len(project.modules),
        "functions_parsed": sum(1 for m in project.modules.values() for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.Lambda))),
        "samples": [{"obligation": k, "holds": o} for k, o, _ in rep.obligations[:400]],
        "known_findings": [k for k, _ in rep.violations if k in kn],
        "violations": [{"key": k, "text": t} for k, t in new],
    }
    if rep.notes:
        cov["notes"] = rep.notes
    data = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    path = os.path.join(ev, f"{prop}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for key, text in new:
        print(f"{prop}: {key}: {text}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop}: {n_ok} of {len(rep.obligations)} obligations hold, {len(new)} violations, {time.time() - t0:.1f} s")
    return 1 if new else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
