"""The data model rules of MessageFormat 2 on trees (see jsonshape), and messages that keep or break them.

The strings of the trees are constants, placeholders for unknown texts or placeholders for unknown names.
"""
from __future__ import annotations

import itertools
import re

from .checks.c08 import IDENT_P, NAME, NAME_P
from .checks.c09 import Make, Names
from .domain import *
from .jsonshape import Inst

BAD_NAME = "not a name"
OTHER = [None, 5, False, BAD_NAME, "", [], ["x"], {}, {"x": 5}, Inst("VariableRef", {"name": "x"}), Inst("CatchallKey", {"value": None})]


class MF2Make(Make):
    def name(self):
        return self.h.token([NAME])


class Rules:
    """Whether a tree is a valid message: True, False, or None where that is a matter of taste."""

    def __init__(self, names):
        self.names = names

    def is_name(self, s, pattern=NAME_P):
        if not isinstance(s, str):
            return False
        if has_token(s):
            return True if s in self.names else None
        return re.fullmatch(pattern, s) is not None

    def is_id(self, s):
        return self.is_name(s, IDENT_P)

    def both(self, *xs):
        out = True
        for x in xs:
            if x is False:
                return False
            if x is None:
                out = None
        return out

    def message(self, m):
        if not isinstance(m, Inst) or m.cls not in ("PatternMessage", "SelectMessage"):
            return False
        a = m.attrs
        d = self.declarations(a["declarations"])
        if m.cls == "PatternMessage":
            return self.both(d, self.pattern(a["pattern"]))
        if not isinstance(a["selectors"], tuple) or not a["selectors"] or not isinstance(a["variants"], dict):
            return False
        ok = [d]
        for s in a["selectors"]:
            ok.append(self.variable(s))
            if d is False or ok[-1] is False:
                return False
            n, decls = s.attrs["name"], a["declarations"]
            e = decls.get(n)
            while e is not None and e.attrs["function"] is None:
                arg = e.attrs["arg"]
                if not isinstance(arg, Inst) or arg.attrs["name"] == n:
                    return False
                n = arg.attrs["name"]
                e = decls.get(n)
            if e is None:
                return False
        k = len(a["selectors"])
        for keys, p in a["variants"].items():
            ok.append(isinstance(keys, tuple) and len(keys) == k and all(isinstance(x, str) or isinstance(x, Inst) and x.cls == "CatchallKey" for x in keys))
            ok.append(self.pattern(p))
        ok.append(any(isinstance(keys, tuple) and len(keys) == k and all(isinstance(x, Inst) and x.cls == "CatchallKey" for x in keys) for keys in a["variants"]))
        return self.both(*ok)

    def declarations(self, d):
        if not isinstance(d, dict):
            return False
        ok = []
        for n, e in d.items():
            ok += [self.is_name(n), isinstance(e, Inst) and e.cls == "Expression" and self.expression(e)]
        if False in ok:
            return False
        deps = {n: set(refs(n, e)) for n, e in d.items()}
        for n in d:
            seen, todo = set(), list(deps[n])
            while todo:
                x = todo.pop()
                if x == n:
                    return False
                if x not in seen:
                    seen.add(x)
                    todo += deps.get(x, ())
        return self.both(*ok)

    def pattern(self, p):
        if p is None or isinstance(p, (str, int, Inst)):
            return False
        if not isinstance(p, list):
            return None
        ok = []
        for x in p:
            if not isinstance(x, str):
                ok.append(self.expression(x) if isinstance(x, Inst) and x.cls == "Expression" else
                          self.markup(x) if isinstance(x, Inst) and x.cls == "Markup" else False)
        return self.both(*ok)

    def expression(self, e):
        a = e.attrs
        ok = [a["arg"] is None or isinstance(a["arg"], str) or self.variable(a["arg"])]
        if a["function"] is None:
            ok += [a["arg"] is not None, not a["options"]]
        else:
            ok.append(self.is_id(a["function"]))
        return self.both(*ok, self.options(a["options"]), self.attributes(a["attributes"]))

    def markup(self, m):
        a = m.attrs
        return self.both(a["kind"] in ("open", "standalone", "close"), self.is_id(a["name"]), self.options(a["options"]), self.attributes(a["attributes"]))

    def variable(self, v):
        return isinstance(v, Inst) and v.cls == "VariableRef" and self.is_name(v.attrs["name"])

    def options(self, o):
        return isinstance(o, dict) and self.both(*(self.both(self.is_id(k), isinstance(v, str) or self.variable(v)) for k, v in o.items()))

    def attributes(self, o):
        return isinstance(o, dict) and self.both(*(self.both(self.is_id(k), v is True or isinstance(v, str)) for k, v in o.items()))


def refs(n, e):
    """The variables the declaration of n depends on."""
    arg, opts = e.attrs["arg"], e.attrs["options"]
    if isinstance(arg, Inst) and arg.attrs["name"] != n:
        yield arg.attrs["name"]
    for v in opts.values():
        if isinstance(v, Inst):
            yield v.attrs["name"]


def mutants(t, path=()):
    """(what, tree) with one node of a tree replaced"""
    for v in OTHER:
        if not (type(v) is type(t) and v == t):
            yield (path, v), v
    if isinstance(t, Inst):
        for k, x in t.attrs.items():
            for w, y in mutants(x, path + (k,)):
                yield w, Inst(t.cls, {**t.attrs, k: y})
    elif isinstance(t, dict):
        for i, (k, x) in enumerate(t.items()):
            for w, y in mutants(x, path + ("[]",)):
                yield w, {**t, k: y}
            if isinstance(k, tuple):
                for w, y in mutants(k, path + ("key",)):
                    if hashable(y):
                        yield w, {y if j == k else j: z for j, z in t.items()}
            else:
                for y in (None, 5, BAD_NAME, ""):
                    yield (path + ("key",), y), {y if j == k else j: z for j, z in t.items()}
            yield (path + ("[]",), "removed"), {j: z for j, z in t.items() if j != k}
    elif isinstance(t, (list, tuple)):
        for i, x in enumerate(t):
            for w, y in mutants(x, path + ("*",)):
                yield w, type(t)([*t[:i], y, *t[i + 1:]])
            yield (path + ("*",), "removed"), type(t)([*t[:i], *t[i + 1:]])
        if t:
            yield (path + ("*",), "doubled"), type(t)([*t, t[-1]])


def hashable(y):
    try:
        hash(y)
    except TypeError:
        return False
    return not isinstance(y, Inst) or y.cls == "CatchallKey"


def build(b, t):
    """The abstract value of a tree."""
    if isinstance(t, Inst):
        return b.inst(t.cls, **{k: build(b, v) for k, v in t.attrs.items()})
    if isinstance(t, dict):
        if all(isinstance(k, str) for k in t):
            return b.dct(items={k: build(b, v) for k, v in t.items()})
        return b.dct(must=[(build(b, k), build(b, v)) for k, v in t.items()])
    if isinstance(t, list):
        return b.lst([build(b, v) for v in t])
    if isinstance(t, tuple):
        return mk(("t", tuple(build(b, v) for v in t)))
    return const(t)


def graphs(n):
    """Every way in which n declarations refer to each other: (edges, inputs, references in options)"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for r in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, r):
            for inputs in itertools.product((0, 1), repeat=n):
                yield es, inputs
