"""What a check found: obligations decided, and violations among them."""
from __future__ import annotations

import json
import os

from .project import AnalysisBroken


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = []  # (key, ok, text)
        self.violations = []   # (key, text)
        self.analysed = {}     # what was looked at, by kind -> set
        self.notes = []

    def ok(self, key, text=""):
        self.obligations.append((key, True, text))

    def bad(self, key, text):
        self.obligations.append((key, False, text))
        if (key, text) not in self.violations:
            self.violations.append((key, text))

    def decide(self, key, cond, text):
        self.ok(key, "") if cond else self.bad(key, text)
        return cond

    def saw(self, kind, *what):
        self.analysed.setdefault(kind, set()).update(what)

    def merge(self, other):
        self.obligations += other.obligations
        for x in other.violations:
            if x not in self.violations:
                self.violations.append(x)
        for k, v in other.analysed.items():
            self.analysed.setdefault(k, set()).update(v)
        self.notes += other.notes

    def need(self, kind, n):
        """Refuse to pass vacuously."""
        k = len(self.analysed.get(kind, ()))
        if k < n:
            raise AnalysisBroken(f"only {k} {kind} found, at least {n} expected")


def known(root):
    """{property: {key: description}} of the committed known findings; fixed entries suppress nothing."""
    out = {}
    path = os.path.join(root, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property="):
                prop, _, rest = line[len("known: property="):].partition(" ")
                key, _, desc = rest.partition(" | ")
                out.setdefault(prop, {})[key.strip()] = desc
    return out
