"""JSON values as Python trees, read off abstract values, and a JSON Schema matcher for them.

A tree is a str, int, bool, None, list or dict; the strings may hold placeholders for unknown strings.
"""
from __future__ import annotations

import json
import os

from .chains import Undecided
from .domain import *
from .domain import V, Obj
from .project import AnalysisBroken


def read(v, st, depth=0):
    """The tree an abstract value stands for, when it is known exactly."""
    if depth > 40:
        raise Undecided("a value containing itself")
    if len(v.atoms) != 1:
        raise Undecided("a value that is not known exactly")
    (a,) = v.atoms
    if a[0] == "c" and (a[2] is None or isinstance(a[2], (str, int, float))):
        return a[2]
    if a[0] == "t":
        return tuple(read(x, st, depth + 1) for x in a[1])
    if a[0] == "o":
        o = st.heap.get(a[1])
        if o is None or o.summary or o.elem is not None or o.flags & {"unordered", "split"}:
            raise Undecided("an object that is not known exactly")
        if o.kind in ("list", "tuple", "gen") and o.kind != "gen":
            return [read(x, st, depth + 1) for x in o.must]
        if o.kind == "dict":
            out = {k: read(x, st, depth + 1) for k, x in o.items.items()}
            for k, x in o.must:
                out[read(k, st, depth + 1)] = read(x, st, depth + 1)
            return out
        if o.kind == "inst":
            return Inst(o.cls.rpartition(":")[2], {k: read(x, st, depth + 1) for k, x in o.attrs.items()})
    raise Undecided("a value that is not followed")


class Inst:
    """An object of a class of the program."""

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def __hash__(self):
        return hash(self.cls)

    def __eq__(self, o):
        return isinstance(o, Inst) and self.cls == o.cls and self.attrs == o.attrs

    def __repr__(self):
        return f"{self.cls}({', '.join(f'{k}={v!r}' for k, v in self.attrs.items())})"


def write(b, x):
    """The abstract value of a tree."""
    if isinstance(x, dict):
        return b.dct(items={k: write(b, v) for k, v in x.items()})
    if isinstance(x, list):
        return b.lst([write(b, v) for v in x])
    return const(x)


class Schemas:
    def __init__(self, repo):
        self.docs = {}
        d = os.path.join(repo, "schemas")
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.endswith(".json"):
                try:
                    with open(os.path.join(d, f), encoding="utf-8") as fh:
                        self.docs[f] = json.load(fh)
                except ValueError as e:
                    raise AnalysisBroken(f"schemas/{f}: {e}")

    def get(self, f):
        if f not in self.docs:
            raise AnalysisBroken(f"schemas/{f} not found")
        return self.docs[f]

    def check(self, x, f, path="", schema=None):
        """None, or where and why a tree does not match a schema."""
        doc = self.get(f)
        s = doc if schema is None else schema
        if s is True:
            return None
        if s is False:
            return f"{path or '/'}: not allowed"
        for k, arg in s.items():
            r = self.keyword(x, f, path, s, k, arg)
            if r:
                return r
        return None

    def resolve(self, f, ref):
        base, _, ptr = ref.partition("#")
        f = base.rpartition("/")[2] or f
        d = self.get(f)
        for p in ptr.split("/")[1:]:
            d = d[p.replace("~1", "/").replace("~0", "~")]
        return f, d

    def keyword(self, x, f, path, s, k, arg):
        here = path or "/"
        if k == "$ref":
            f2, d = self.resolve(f, arg)
            return self.check(x, f2, path, d)
        if k == "type":
            ok = {"object": isinstance(x, dict), "array": isinstance(x, list), "string": isinstance(x, str),
                  "boolean": isinstance(x, bool), "null": x is None, "number": isinstance(x, (int, float)) and not isinstance(x, bool),
                  "integer": isinstance(x, int) and not isinstance(x, bool)}
            if not any(ok[t] for t in (arg if isinstance(arg, list) else [arg])):
                return f"{here}: {short(x)} is not of type {arg}"
        elif k == "const":
            if type(x) is not type(arg) or x != arg:
                return f"{here}: {short(x)} is not {arg!r}"
        elif k == "enum":
            if not any(type(x) is type(y) and x == y for y in arg):
                return f"{here}: {short(x)} is not one of {arg!r}"
        elif k == "required":
            for r in arg if isinstance(x, dict) else ():
                if r not in x:
                    return f"{here}: member {r!r} is missing"
        elif k == "properties" and isinstance(x, dict):
            for n, sub in arg.items():
                r = self.check(x[n], f, f"{path}/{n}", sub) if n in x else None
                if r:
                    return r
            if s.get("type") == "object" and "additionalProperties" not in s and self.closed:
                for n in x:
                    if n not in arg:
                        return f"{here}: the schema declares no member {n!r}"
        elif k == "additionalProperties" and isinstance(x, dict):
            for n in x:
                if n not in s.get("properties", {}):
                    r = self.check(x[n], f, f"{path}/{n}", arg)
                    if r:
                        return r
        elif k == "items" and isinstance(x, list):
            for i, y in enumerate(x):
                if i >= len(s.get("prefixItems", ())):
                    r = self.check(y, f, f"{path}/{i}", arg)
                    if r:
                        return r
        elif k == "prefixItems" and isinstance(x, list):
            for i, (y, sub) in enumerate(zip(x, arg)):
                r = self.check(y, f, f"{path}/{i}", sub)
                if r:
                    return r
            if len(x) > len(arg) and s.get("additionalItems") is False:
                return f"{here}: too many items"
        elif k in ("minItems", "minProperties"):
            if isinstance(x, (list, dict)) and isinstance(x, list) == (k == "minItems") and len(x) < arg:
                return f"{here}: fewer than {arg}"
        elif k in ("oneOf", "anyOf"):
            rs = [self.check(x, f, path, sub) for sub in arg]
            n = sum(r is None for r in rs)
            if n == 0:
                return max(rs, key=lambda r: r.partition(":")[0].count("/"))
            if n > 1 and k == "oneOf" and self.closed:
                return f"{here}: {short(x)} matches more than one alternative"
        elif k == "allOf":
            for sub in arg:
                r = self.check(x, f, path, sub)
                if r:
                    return r
        elif k == "not":
            if self.check(x, f, path, arg) is None:
                return f"{here}: {short(x)} matches what the schema excludes"
        elif k not in ("$schema", "$id", "$defs", "$comment", "title", "description", "additionalItems", "default", "examples"):
            raise AnalysisBroken(f"JSON Schema keyword {k!r} is not known here")
        return None

    closed = True


def short(x):
    s = repr(x)
    return s if len(s) < 80 else s[:77] + "..."
