"""Types of the expressions of the package, as mypy infers them (in a separate process, from the current source)."""
from __future__ import annotations

import json
import os
import shutil
import subprocess

from .project import PYROOT, AnalysisBroken

ANY = ["any"]
VENV = "/opt/venv/bin/python"
IMMUTABLE = {
    "builtins.str", "builtins.int", "builtins.bool", "builtins.float", "builtins.bytes", "builtins.complex", "builtins.range", "builtins.slice",
    "re.Pattern", "re.Match", "builtins.type", "types.EllipsisType", "types.NoneType", "typing.Pattern", "typing.Match", "logging.Logger",
    "builtins.function", "types.ModuleType", "types.FunctionType", "types.MethodType", "pathlib.Path", "pathlib.PurePath", "builtins.property",
}


class Types:
    def __init__(self, project):
        exe = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
        root = os.path.join(project.repo, PYROOT)
        r = subprocess.run([exe, os.path.join(os.path.dirname(os.path.abspath(__file__)), "typer.py"), root, VENV],
                           capture_output=True, text=True, timeout=300)
        try:
            self.t = json.loads(r.stdout)["modules"]
        except ValueError:
            raise AnalysisBroken(f"mypy gave no types: {r.stderr[-300:]}")
        self.owner = {}

    def of(self, m, e):
        """The type of an expression of module m; ANY when not known."""
        return self.t.get(m.name, {}).get(f"{e.lineno}:{e.col_offset}:{e.end_lineno}:{e.end_col_offset}", ANY)


def items(t):
    return [y for x in t[1] for y in items(x)] if t[0] == "union" else [t]


def is_set(t):
    """Certainly or possibly a set by its type (Any is not)."""
    return any(x[0] == "inst" and x[1] in ("builtins.set", "builtins.frozenset", "typing.AbstractSet", "typing.MutableSet", "collections.abc.Set")
               for x in items(t))


def immutable(t):
    """Whether no value of the type can be changed."""
    for x in items(t):
        if x[0] in ("none", "lit", "callable", "type", "never"):
            continue
        if x[0] == "tuple":
            if all(immutable(y) for y in x[1]):
                continue
            return False
        if x[0] == "inst":
            if x[1] in IMMUTABLE or "enum.Enum" in (x[3] if len(x) > 3 else ()):
                continue
            if x[1] in ("builtins.tuple", "builtins.frozenset") and x[2] and all(immutable(y) for y in x[2]):
                continue
            if set(x[3] if len(x) > 3 else ()) & {"builtins.str", "builtins.int", "builtins.BaseException"}:
                continue
        return False
    return True


def class_names(t):
    return {x[1] for x in items(t) if x[0] == "inst"} | {b for x in items(t) if x[0] == "inst" and len(x) > 3 for b in x[3]}
