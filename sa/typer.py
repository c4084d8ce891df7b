"""Run under the Python that has mypy: prints the types of all expressions of the package as JSON.

{module: {"line:col:endline:endcol": type}}; a type is a list: ["any"], ["none"], ["inst", name, [args]], ["union", [types]],
["tuple", [types]], ["callable", result], ["type", type], ["lit", name, value].
"""
import json
import os
import sys

from mypy import build, options, types as T
from mypy.modulefinder import BuildSource
from mypy.nodes import MypyFile


def enc(t, depth=0):
    t = T.get_proper_type(t)
    if t is None or depth > 6 or isinstance(t, T.AnyType):
        return ["any"]
    if isinstance(t, T.UninhabitedType):
        return ["never"]
    if isinstance(t, T.NoneType):
        return ["none"]
    if isinstance(t, T.UnionType):
        return ["union", [enc(x, depth + 1) for x in t.items]]
    if isinstance(t, T.TupleType):
        fb = t.partial_fallback
        if fb.type.fullname != "builtins.tuple":
            return ["inst", fb.type.fullname, []]
        return ["tuple", [enc(x.type if isinstance(x, T.UnpackType) else x, depth + 1) for x in t.items]]
    if isinstance(t, T.LiteralType):
        v = t.value
        return ["lit", t.fallback.type.fullname, v if isinstance(v, (str, int, bool)) else repr(v)]
    if isinstance(t, T.Instance):
        return ["inst", t.type.fullname, [enc(x, depth + 1) for x in t.args], [b.fullname for b in t.type.mro[1:] if b.fullname != "builtins.object"]
                if not t.type.fullname.startswith("builtins.") else []]
    if isinstance(t, T.CallableType):
        if t.is_type_obj():
            return ["type", enc(t.ret_type, depth + 1)]
        return ["callable", enc(t.ret_type, depth + 1)]
    if isinstance(t, T.Overloaded):
        return ["type", enc(t.items[0].ret_type, depth + 1)] if t.is_type_obj() else ["callable", ["any"]]
    if isinstance(t, T.TypeType):
        return ["type", enc(t.item, depth + 1)]
    if isinstance(t, T.TypedDictType):
        return ["inst", "builtins.dict", [["any"], ["any"]], []]
    if isinstance(t, T.TypeVarType):
        return enc(t.upper_bound, depth + 1)
    return ["any"]


def main(root, py):
    o = options.Options()
    o.python_version = (3, 12)
    o.export_types = True
    o.preserve_asts = True
    o.incremental = False
    o.namespace_packages = True
    o.explicit_package_bases = True
    o.mypy_path = [root]
    o.ignore_missing_imports = True
    o.follow_untyped_imports = True
    o.check_untyped_defs = True
    o.allow_redefinition = False
    o.cache_dir = os.devnull
    if py and os.path.exists(py):
        o.python_executable = py
    src = []
    for d, _, fs in os.walk(os.path.join(root, "moz")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                m = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                src.append(BuildSource(p, m[:-9] if m.endswith(".__init__") else m))
    r = build.build(src, o)
    # expressions belong to the file whose tree holds them: keyed by identity through the trees
    out = {}
    owner = {}
    mods = {m: f for m, f in r.files.items() if m.startswith("moz")}
    seen_types = {}

    def put(mod, e, t):
        if e.line < 0 or e.end_line is None:
            return
        k = f"{e.line}:{e.column}:{e.end_line}:{e.end_column}"
        t = enc(t)
        d = out.setdefault(mod, {})
        if k in d and d[k] != t:
            a = d[k][1] if d[k][0] == "union" else [d[k]]
            b = t[1] if t[0] == "union" else [t]
            t = ["union", a + [x for x in b if x not in a]]
        d[k] = t
    types = r.types

    def walk(mod, node, seen):
        stack = [node]
        while stack:
            n = stack.pop()
            if id(n) in seen:
                continue
            seen.add(id(n))
            if n in types:
                put(mod, n, types[n])
            for c in children(n):
                stack.append(c)
    from mypy.nodes import Node, Expression

    def children(n):
        names = set()
        for k in type(n).__mro__:
            names.update(getattr(k, "__mypyc_attrs__", ()) or ())
            names.update(s for s in (getattr(k, "__slots__", ()) or ()) if isinstance(s, str))
        if isinstance(n, MypyFile):
            yield from n.defs
            return
        for a in names:
            if a in ("info", "node", "type", "fullname", "analyzed_target", "names", "imports", "unanalyzed_type", "definition") and a != "node":
                continue
            if a == "node" and type(n).__name__ in ("NameExpr", "MemberExpr", "RefExpr"):
                continue
            try:
                v = getattr(n, a)
            except AttributeError:
                continue
            yield from flat(v, Node)

    def flat(v, Node):
        if isinstance(v, Node) and not isinstance(v, MypyFile):
            yield v
        elif isinstance(v, (list, tuple)):
            for x in v:
                yield from flat(x, Node)
        elif isinstance(v, dict):
            for x in v.values():
                yield from flat(x, Node)
    for m, f in mods.items():
        walk(m, f, set())
    json.dump({"modules": out, "errors": len(r.errors)}, sys.stdout)


main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
