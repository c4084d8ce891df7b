"""Name, constant and call resolution over the syntax trees (flow-insensitive, whole package)."""
from __future__ import annotations

import ast
import builtins

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Names:
    def __init__(self, project):
        self.p = project
        self.mods = project.modules
        self.scopes = {}   # id(scope node) -> {name: [binding]}
        self.owner = {}    # id(node) -> module
        self.calls = []    # (module, Call)
        self._calls_to = None
        for m in self.mods.values():
            self._scan(m)

    # ---- binding tables
    def _scan(self, m):
        for n in ast.walk(m.tree):
            self.owner[id(n)] = m
            if isinstance(n, ast.Call):
                self.calls.append((m, n))
            if isinstance(n, FUNCS):
                sc = self.scopes.setdefault(id(n), {})
                a = n.args
                for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
                    sc.setdefault(x.arg, []).append(("param", n, x.arg))
                for x in (a.vararg, a.kwarg):
                    if x:
                        sc.setdefault(x.arg, []).append(("other", x))
        for n in ast.walk(m.tree):
            sc = None

            def put(name, b, at=n):
                s = self.scope_of(m, at)
                self.scopes.setdefault(id(s), {}).setdefault(name, []).append(b)
            if isinstance(n, ast.Import):
                for al in n.names:
                    put((al.asname or al.name.split(".")[0]), ("import", al.name if al.asname else al.name.split(".")[0]))
            elif isinstance(n, ast.ImportFrom):
                base = self.p.resolve_relative(m, n.level, n.module or "")
                for al in n.names:
                    put(al.asname or al.name, ("import", f"{base}.{al.name}" if base else al.name))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                put(n.name, ("func", n))
            elif isinstance(n, ast.ClassDef):
                put(n.name, ("class", n))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        put(t.id, ("assign", n.value))
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) \
                                        and len(t.elts) == len(n.value.elts) and x in t.elts:
                                    put(x.id, ("assign", n.value.elts[t.elts.index(x)]))
                                else:
                                    put(x.id, ("other", n.value))
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
                if n.value is not None:
                    put(n.target.id, ("assign", n.value))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                put(n.target.id, ("other", n.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        put(x.id, ("for", n.iter) if x is n.target else ("other", n.iter))
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                for x in ast.walk(n.optional_vars):
                    if isinstance(x, ast.Name):
                        put(x.id, ("assign", n.context_expr) if x is n.optional_vars else ("other", n.context_expr))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                put(n.name, ("other", n))

    def scope_of(self, m, node):
        """The function (or module) scope a binding made at node belongs to; class bodies bind into the class."""
        x = m.parents.get(node)
        while x is not None:
            if isinstance(x, FUNCS):
                return x
            if isinstance(x, ast.ClassDef):
                return x
            x = m.parents.get(x)
        return m.tree

    def enclosing(self, node):
        m = self.owner[id(node)]
        x = m.parents.get(node)
        while x is not None:
            if isinstance(x, FUNCS):
                return x
            x = m.parents.get(x)
        return None

    def qual(self, fn):
        m = self.owner[id(fn)]
        parts = [getattr(fn, "name", "<lambda>")]
        x = m.parents.get(fn)
        while x is not None:
            if isinstance(x, FUNCS + (ast.ClassDef,)):
                parts.append(getattr(x, "name", "<lambda>"))
            x = m.parents.get(x)
        return ".".join(reversed(parts))

    def where(self, node):
        m = self.owner[id(node)]
        fn = self.enclosing(node)
        return f"{m.rel}:{getattr(node, 'lineno', 0)} ({self.qual(fn) if fn is not None else '<module>'})"

    def site(self, node):
        """A stable name (no line number) of the place node is in."""
        fn = self.enclosing(node)
        m = self.owner[id(node)]
        return f"{m.name}:{self.qual(fn) if fn is not None else '<module>'}"

    def bindings(self, name, node):
        m = self.owner[id(node)]
        x = m.parents.get(node)
        first = True
        while x is not None:
            if isinstance(x, FUNCS) or (isinstance(x, ast.ClassDef) and first):
                b = self.scopes.get(id(x), {}).get(name)
                if b:
                    return b
                if isinstance(x, FUNCS):
                    first = False
            x = m.parents.get(x)
        return self.scopes.get(id(m.tree), {}).get(name) or []

    # ---- names
    def dotted(self, e, depth=0):
        """All dotted names e may stand for; project functions and classes as 'module:qual'."""
        if depth > 8:
            return set()
        if isinstance(e, ast.Name):
            bs = self.bindings(e.id, e)
            if not bs:
                return {"builtins." + e.id} if hasattr(builtins, e.id) else set()
            out = set()
            for b in bs:
                if b[0] == "import":
                    out |= self.project_name(b[1])
                elif b[0] in ("func", "class"):
                    out.add(f"{self.owner[id(b[1])].name}:{self.qual(b[1])}")
                elif b[0] == "assign" and isinstance(b[1], (ast.Name, ast.Attribute, ast.IfExp, ast.Call)):
                    v = b[1]
                    if isinstance(v, ast.Call):
                        for c in self.dotted(v.func, depth + 1):
                            out.add(c + "()")
                    else:
                        out |= self.dotted(v, depth + 1)
            return out
        if isinstance(e, ast.Attribute):
            return {d + "." + e.attr for d in self.dotted(e.value, depth + 1)}
        if isinstance(e, ast.IfExp):
            return self.dotted(e.body, depth + 1) | self.dotted(e.orelse, depth + 1)
        if isinstance(e, ast.Call):
            return {d + "()" for d in self.dotted(e.func, depth + 1)}
        if isinstance(e, ast.Subscript):
            return {d + "[]" for d in self.dotted(e.value, depth + 1)}
        return set()

    def project_name(self, d, depth=0):
        """moz.l10n.x.y -> 'moz.l10n.x:y' following re-exports."""
        mod, _, name = d.rpartition(".")
        if depth < 6 and mod in self.mods:
            bs = self.scopes.get(id(self.mods[mod].tree), {}).get(name)
            if bs:
                out = set()
                for b in bs:
                    if b[0] == "import":
                        out |= self.project_name(b[1], depth + 1)
                    elif b[0] in ("func", "class"):
                        out.add(f"{mod}:{name}")
                    elif b[0] == "assign" and isinstance(b[1], (ast.Name, ast.Attribute)):
                        out |= self.dotted(b[1], 1)
                if out:
                    return out
        return {d}

    def calls_to(self, fn):
        """Call sites of a project function; None if it also escapes as a value."""
        if self._calls_to is None:
            self._calls_to = {}
            for m, c in self.calls:
                for d in self.dotted(c.func):
                    self._calls_to.setdefault(d, []).append(c)
                if isinstance(c.func, ast.Attribute):
                    self._calls_to.setdefault("." + c.func.attr, []).append(c)
        m = self.owner[id(fn)]
        if isinstance(fn, ast.Lambda):
            return None
        q = f"{m.name}:{self.qual(fn)}"
        r = list(self._calls_to.get(q, ()))
        if isinstance(m.parents.get(fn), ast.ClassDef):
            r += [c for c in self._calls_to.get("." + fn.name, ()) if c not in r]
        return r

    # ---- constants
    def consts(self, e, depth=0, seen=()):
        """The set of constants e may have, or None when unknown."""
        if depth > 10 or id(e) in seen:
            return None
        seen = seen + (id(e),)

        def rec(x):
            return self.consts(x, depth + 1, seen)
        if isinstance(e, ast.Constant):
            return {e.value}
        if isinstance(e, ast.IfExp):
            a, b = rec(e.body), rec(e.orelse)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.BoolOp):
            out = set()
            for x in e.values:
                r = rec(x)
                if r is None:
                    return None
                out |= r
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = rec(e.left), rec(e.right)
            if a is None or b is None:
                return None
            try:
                return {x + y for x in a for y in b}
            except TypeError:
                return None
        if isinstance(e, ast.JoinedStr):
            out = {""}
            for v in e.values:
                r = rec(v.value) if isinstance(v, ast.FormattedValue) else rec(v)
                if r is None:
                    return None
                out = {x + str(y) for x in out for y in r}
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("lower", "upper", "strip") and not e.args:
            r = rec(e.func.value)
            return None if r is None or not all(isinstance(x, str) for x in r) else {getattr(x, e.func.attr)() for x in r}
        if isinstance(e, ast.Name):
            bs = self.bindings(e.id, e)
            if not bs:
                return None
            out = set()
            for b in bs:
                if b[0] == "assign":
                    r = rec(b[1])
                elif b[0] == "for" and isinstance(b[1], (ast.Tuple, ast.List, ast.Set)):
                    r = set()
                    for x in b[1].elts:
                        q = rec(x)
                        r = None if q is None or r is None else r | q
                elif b[0] == "param":
                    r = self.param_consts(b[1], b[2], depth, seen)
                elif b[0] == "import":
                    r = self.import_consts(b[1], depth, seen)
                else:
                    r = None
                if r is None:
                    return None
                out |= r
            return out
        if isinstance(e, ast.Attribute):
            out = set()
            ds = self.dotted(e)
            for d in ds:
                r = self.import_consts(d, depth, seen)
                if r is None:
                    return None
                out |= r
            return out if ds else None
        return None

    def import_consts(self, d, depth, seen):
        mod, _, name = d.rpartition(".")
        if mod not in self.mods:
            return None
        bs = self.scopes.get(id(self.mods[mod].tree), {}).get(name)
        if not bs:
            return None
        out = set()
        for b in bs:
            r = self.consts(b[1], depth + 1, seen) if b[0] == "assign" else \
                self.import_consts(b[1], depth + 1, seen) if b[0] == "import" and depth < 10 else None
            if r is None:
                return None
            out |= r
        return out

    def param_args(self, fn, name):
        """Expressions bound to a parameter over all call sites, and its default; None if some call is opaque."""
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        m = self.owner[id(fn)]
        method = isinstance(m.parents.get(fn), ast.ClassDef)
        dflt = None
        if name in pos:
            i = pos.index(name) - (len(pos) - len(a.defaults))
            dflt = a.defaults[i] if i >= 0 else None
        elif name in kwo:
            dflt = a.kw_defaults[kwo.index(name)]
        out = []
        calls = self.calls_to(fn)
        if calls is None:
            return None
        used_default = not calls
        for c in calls:
            if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                return None
            kw = next((k.value for k in c.keywords if k.arg == name), None)
            if kw is not None:
                out.append(kw)
                continue
            i = pos.index(name) - (1 if method else 0) if name in pos else None
            if i is not None and 0 <= i < len(c.args):
                out.append(c.args[i])
            else:
                used_default = True
        if dflt is not None and (used_default or not fn.name.startswith("_")):
            out.append(dflt)
        elif dflt is None and not calls:
            return None
        return out

    def param_consts(self, fn, name, depth, seen):
        ex = self.param_args(fn, name)
        if ex is None:
            return None
        out = set()
        for x in ex:
            r = self.consts(x, depth + 1, seen)
            if r is None:
                return None
            out |= r
        return out

    def kwargs(self, call):
        """{keyword: expression} of a call, with ** of literal dictionaries unfolded; None if opaque."""
        out = {}
        for k in call.keywords:
            if k.arg is not None:
                out[k.arg] = k.value
                continue
            d = self.dict_items(k.value)
            if d is None:
                return None
            out.update(d)
        return out

    def dict_items(self, e, depth=0):
        if depth > 6:
            return None
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.dict_items(v, depth + 1)
                    if d is None:
                        return None
                    out.update(d)
                elif isinstance(k, ast.Constant):
                    out[k.value] = v
                else:
                    return None
            return out
        if isinstance(e, ast.Call) and "builtins.dict" in self.dotted(e.func) and not e.args:
            return self.kwargs(e)
        if isinstance(e, ast.Name):
            bs = self.bindings(e.id, e)
            if len(bs) == 1 and bs[0][0] == "assign":
                return self.dict_items(bs[0][1], depth + 1)
        return None
