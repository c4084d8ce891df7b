#!/usr/bin/env python3
"""Make or re-validate planted bugs.

plant.py new FILE.py     FILE.py defines BUGS = {id: dict(property, edits=[(file, old, new)...], demo, needs, what)}
plant.py run [ID...]     re-validate: patch applies, tests pass, demo separates, and which checks catch it
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
DEMO = '#!/bin/bash\nset -e\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1\nexec timeout 200 /opt/venv/bin/python "$d/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="plant")
    r = os.path.join(d, "repo")
    sh(f"git -C /repo worktree list >/dev/null; mkdir {r} && git -C /repo archive HEAD | tar x -C {r} && cd {r} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", "/")
    return d, r


def tests(r):
    out = []
    for v in ("venv", "venv-noxml"):
        rc, o = sh(f"/opt/{v}/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 --continue-on-collection-errors tests", os.path.join(r, "python"), {"PYTHONPATH": os.path.join(r, "python"), "PYTHONDONTWRITEBYTECODE": "1"})
        out.append((rc, o.strip().splitlines()[-1] if o.strip() else ""))
    return out


def validate(i, props=None):
    base = os.path.join(SEED, i)
    meta = json.load(open(os.path.join(base, "meta.json")))
    d, r = copy()
    try:
        rc0, o0 = sh(f"bash {base}/demo.sh", r)
        rc, o = sh(f"git apply {base}/patch.diff", r)
        if rc:
            return i, "PATCH DOES NOT APPLY " + o
        rc1, o1 = sh(f"bash {base}/demo.sh", r)
        t = tests(r)
        res = {}
        for p in props or [meta["property"]]:
            if os.path.exists(os.path.join(ROOT, "sa", "checks", p.lower() + ".py")):
                rc, o = sh(f"python3 check.py {p}", ROOT, {"VERIF_REPO": r, "VERIF_EV": d})
                v = [l for l in o.splitlines() if not l.startswith("VIOLATION")]
                res[p] = ("caught" if rc == 1 else f"MISSED rc={rc}") + " " + " / ".join(v[:2])[:300]
            else:
                res[p] = "no check"
        ok = rc0 == 0 and rc1 != 0 and all(x[0] == 0 for x in t)
        msg = ("ok " if ok else f"BAD demo={rc0},{rc1} tests={t}\n{o0[-600:]}\n--\n{o1[-600:]}\n") + f" {res}"
        if "-v" in sys.argv:
            msg += "\n" + o1[-400:]
        return i, msg
    finally:
        shutil.rmtree(d)


def new(f):
    g = {}
    exec(open(f).read(), g)
    for i, b in g["BUGS"].items():
        d, r = copy()
        try:
            for path, old, nw in b["edits"]:
                p = os.path.join(r, "python/moz/l10n", path)
                s = open(p, encoding="utf-8").read()
                if s.count(old) != 1:
                    sys.exit(f"{i}: {path}: {s.count(old)} matches of {old!r}")
                open(p, "w", encoding="utf-8").write(s.replace(old, nw))
            base = os.path.join(SEED, i)
            os.makedirs(base, exist_ok=True)
            _, diff = sh("git diff", r)
            open(os.path.join(base, "patch.diff"), "w").write(diff)
            open(os.path.join(base, "demo.sh"), "w").write(b.get("sh", DEMO))
            if "demo" in b:
                open(os.path.join(base, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(base, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(d)
    return list(g["BUGS"])


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("-")]
    ids = new(a[0]) if sys.argv[1] == "new" else (a or sorted(os.listdir(SEED)))
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(validate, ids):
            print(i, m, flush=True)
