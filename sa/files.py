"""File-system effects: catalogue, call sites, and which functions reach them."""
from __future__ import annotations

import ast

from .names import FUNCS, Names

OPEN = {"builtins.open": 1, "io.open": 1, "codecs.open": 1, "os.fdopen": 1, "pathlib.Path().open": 0, "pathlib.Path.open": 0}
OS_WRITE = {"makedirs", "mkdir", "remove", "unlink", "rename", "renames", "replace", "rmdir", "removedirs", "truncate", "symlink",
            "link", "chmod", "chown", "lchown", "utime", "mkfifo", "mknod", "system", "popen", "open", "ftruncate", "write"}
PATH_WRITE = {"write_text", "write_bytes", "touch", "unlink", "mkdir", "rmdir", "symlink_to", "hardlink_to", "save_as_pofile", "save_as_mofile"}
DESTROY = {"os.remove", "os.unlink", "os.truncate", "os.ftruncate", "shutil.rmtree", "pathlib.Path.unlink", "os.rename", "shutil.move"}
SHUTIL_READ = {"which", "disk_usage", "get_terminal_size", "get_archive_formats"}


def writes(dotted):
    """Does calling this external function change the file system (whatever its arguments)?"""
    head, _, name = dotted.rpartition(".")
    if head == "os" and name in OS_WRITE:
        return True
    if head == "shutil" and name not in SHUTIL_READ:
        return True
    if head.startswith("pathlib.") and name in PATH_WRITE | {"rename", "replace", "chmod"}:
        return True
    return head in ("tempfile", "subprocess") or name in ("save_as_pofile", "save_as_mofile") or head.startswith("polib") and name == "save" \
        or head.startswith("lxml.etree") and "Tree" in head and name in ("write", "write_c14n")


def mode_writes(modes):
    """modes: set of constants or None (unknown)"""
    return modes is None or any(not isinstance(m, str) or set(m) & set("wax+") for m in modes)


class Effects:
    def __init__(self, project):
        self.n = Names(project)
        self.sites = []          # (call node, what)
        self.graph = {}          # function key -> set of keys
        self.funcs = {}          # key -> node
        self.methods = {}        # method name -> keys
        self._scan()

    def outer(self, node):
        """The outermost function (or method) node is in, as 'module:qual'; '<module>' otherwise."""
        m = self.n.owner[id(node)]
        fn, x = None, node
        while x is not None:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = x
            x = m.parents.get(x)
        return f"{m.name}:{self.n.qual(fn) if fn is not None else '<module>'}"

    def _scan(self):
        n = self.n
        for m in n.mods.values():
            self.graph.setdefault(m.name + ":<module>", set())
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and self.outer(x) == f"{m.name}:{n.qual(x)}":
                    k = f"{m.name}:{n.qual(x)}"
                    self.funcs[k] = x
                    self.graph.setdefault(k, set())
                    if isinstance(m.parents.get(x), ast.ClassDef):
                        self.methods.setdefault(x.name, set()).add(k)
        for m in n.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) or isinstance(x, ast.Attribute):
                    src = self.outer(x)
                    ds = n.dotted(x)
                    hit = False
                    for d in ds:
                        d0 = d.replace("()", "")
                        if ":" in d0:
                            hit = True
                            self.edge(src, d0)
                    if isinstance(x, ast.Attribute) and not hit and not any("." in d and ":" not in d and not d.startswith("moz.") for d in ds):
                        for k in self.methods.get(x.attr, ()):
                            self.graph[src].add(k)
        for m, c in n.calls:
            w = self.effect(c)
            if w:
                self.sites.append((c, w))

    def edge(self, src, d):
        if d in self.funcs:
            self.graph[src].add(d)
            return
        mod, _, q = d.partition(":")
        # a class: its methods are reached through method names, its constructor directly
        for s in ("__init__", "__post_init__", "__new__"):
            if f"{mod}:{q}.{s}" in self.funcs:
                self.graph[src].add(f"{mod}:{q}.{s}")
        head = q.split(".")[0]
        if f"{mod}:{head}" in self.funcs:
            self.graph[src].add(f"{mod}:{head}")

    def effect(self, c):
        """What the call does to the file system, or None."""
        n = self.n
        ds = n.dotted(c.func)
        attr = c.func.attr if isinstance(c.func, ast.Attribute) else None
        for d in ds:
            if d in OPEN:
                i = OPEN[d]
                kw = n.kwargs(c) or {}
                e = kw.get("mode", c.args[i] if len(c.args) > i else None)
                if any(isinstance(a, ast.Starred) for a in c.args):
                    return d + " with unknown mode"
                if e is not None and mode_writes(n.consts(e)):
                    return f"{d} mode {ast.unparse(e)}"
            elif writes(d.replace("()", "")):
                return d
        known = any(not d.startswith(("moz.", "pathlib.", "polib.")) and "." in d and ":" not in d for d in ds)
        if attr in PATH_WRITE and not known:
            return "." + attr
        return None

    def reachable(self, key):
        seen, todo = set(), [key]
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo += self.graph.get(k, ())
        return seen

    def path(self, a, b):
        """Some call path from function a to function b."""
        prev, todo = {a: None}, [a]
        for k in todo:
            if k == b:
                out = []
                while k is not None:
                    out.append(k)
                    k = prev[k]
                return out[::-1]
            for j in sorted(self.graph.get(k, ())):
                if j not in prev:
                    prev[j] = k
                    todo.append(j)
        return []
