"""Loading and name resolution of the analysed Python source (never imports it)."""
from __future__ import annotations

import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PYROOT = "python"
PKG = "moz.l10n"


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: exit with an error, never a silent pass."""


class Module:
    def __init__(self, name, path, rel, is_pkg, tree, source):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        self.tree, self.source = tree, source
        self.parents = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                self.parents[c] = n

    def __repr__(self):
        return f"<Module {self.name}>"


class FuncInfo:
    _n = 0

    def __init__(self, node, module, qual, cls=None):
        self.node, self.module, self.qual, self.cls = node, module, qual, cls
        self.name = getattr(node, "name", "<lambda>")
        self.is_gen = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node)
        )
        self.has_nested = any(
            isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(node) if n is not node
        )
        decos = getattr(node, "decorator_list", [])
        self.decorators = [ast.unparse(d) for d in decos]
        self.nonlocals = set()
        self.globals = set()
        for n in own_nodes(node):
            if isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)
            elif isinstance(n, ast.Global):
                self.globals |= set(n.names)
        self.locals = local_names(node) - self.nonlocals - self.globals
        FuncInfo._n += 1
        self.id = FuncInfo._n

    @property
    def full(self):
        return f"{self.module.name}:{self.qual}"

    def __repr__(self):
        return f"<Func {self.full}>"


class ClassInfo:
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.name = node.name
        self.bases = []  # list of atoms resolved at class-exec time
        self.members = {}  # name -> V, filled by interp
        self.fields = []  # dataclass fields: (name, annotation node, default node|None)
        self.is_dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)
        self.is_enum = False
        self.mro = [self]

    @property
    def full(self):
        return f"{self.module.name}:{self.qual}"

    def __repr__(self):
        return f"<Class {self.full}>"


def own_nodes(fn):
    """Nodes of a function body, not descending into nested functions/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            continue
        stack.extend(ast.iter_child_nodes(n))


def local_names(fn):
    names = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)
    if isinstance(fn, ast.Lambda):
        return names
    inner = {id(x) for n in own_nodes(fn) if isinstance(n, ast.comprehension) for x in ast.walk(n.target)}
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if id(n) not in inner:
                names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
    return names


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PYROOT, *PKG.split("."))
        if not os.path.isdir(root):
            raise AnalysisBroken(f"no package at {root}")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, os.path.join(self.repo, PYROOT))
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{path}: {e}")
                self.modules[name] = Module(name, path, os.path.join(PYROOT, rel), is_pkg, tree, src)
        if len(self.modules) < 50:
            raise AnalysisBroken(f"only {len(self.modules)} modules found")

    def resolve_relative(self, mod, level, target):
        if level == 0:
            return target
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([target] if target else []))
