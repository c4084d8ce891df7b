"""Without lxml the package still imports and works: every module is abstractly imported in a world where importing lxml raises ImportError, and the generic functions are interpreted there for every format."""
import ast

from ..domain import *
from ..evalmod import Interp
from ..inputs import Build
from ..interp import Dead, Hooks
from ..par import parallel
from ..project import AnalysisBroken
from ..run import call, find_func
from .c06 import MSG, RES, members, package

RULE = (
    "Abstract import of all modules, with every 'import lxml' raising ImportError: only modules of formats.android and formats.xliff may fail to import. "
    "In the resulting program parse/serialize_resource and parse/serialize_message must complete for every other format they support, must not complete for "
    "Android and XLIFF, and must raise UnsupportedFormat or ValueError there (never an ImportError, or a TypeError from calling None); "
    "an import that fails has to be caught where it is made, by except clauses that do not evaluate what it would have bound; "
    "detect_format must complete without an error."
)
ASSUMPTIONS = ["an installed lxml is complete"]
XML = ("android", "xliff")


class Stub(Hooks):
    """Implementations of formats are not followed."""

    def __init__(self):
        self.entered = set()
        self.none_calls = []

    def call_func(self, I, F, node, fi, args, kwargs, st):
        pk = package(fi)
        if pk is not None and fi.cls is None and F.fi is not None and package(F.fi) is None:
            self.entered.add(pk)
            return TOP
        return None


def world(project):
    I = Interp(project, Stub())
    I.missing = frozenset(["lxml"])
    I.load_all()
    return I


CATCHES = ("ImportError", "ModuleNotFoundError", "Exception", "BaseException")


def targets(m, n):
    """The modules that an import statement names."""
    if isinstance(n, ast.Import):
        return [a.name for a in n.names]
    base = n.module or ""
    if n.level:
        up = m.name.split(".")
        up = up[: len(up) - n.level + (1 if m.is_pkg else 0)]
        base = ".".join(up + ([n.module] if n.module else []))
    return [base] + [f"{base}.{a.name}" for a in n.names]


def fails(m, n, I):
    return any(t == "lxml" or t.startswith("lxml.") or t in I.failed for t in targets(m, n))


def handlers(m, n):
    """The try statements of the same function in whose body the node is, innermost first."""
    while n in m.parents:
        p = m.parents[n]
        if isinstance(p, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            return
        if isinstance(p, ast.Try) and n in p.body:
            yield p
        n = p


def lazy(project, rep, I):
    """Imports that fail inside of functions, and in try statements."""
    for name, m in sorted(project.modules.items()):
        if any(name == f"moz.l10n.formats.{x}" or name.startswith(f"moz.l10n.formats.{x}.") for x in XML):
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Import, ast.ImportFrom)) or not fails(m, n, I):
                continue
            p = n
            while p in m.parents and not isinstance(p, ast.FunctionDef):
                p = m.parents[p]
            fn = p.name if isinstance(p, ast.FunctionDef) else "<module>"
            caught = unbound = False
            bound = {(a.asname or a.name).split(".")[0] for a in n.names}
            if fn == "<module>":
                others = {x.id for s in m.tree.body if s.lineno < n.lineno for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            else:
                others = {x.id for x in ast.walk(p) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in ast.walk(p) if isinstance(a, ast.arg)}
            for t in handlers(m, n):
                for h in t.handlers:
                    names = [x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)] if h.type else ["BaseException"]
                    unbound |= any(x in bound - others for x in names)
                    if any(x in CATCHES for x in names):
                        caught = True
                    if caught or unbound:
                        break
                if caught or unbound:
                    break
            what = ", ".join(sorted(bound))
            rep.saw("imports that fail", f"{name}:{fn}:{what}")
            rep.decide(f"{name}:{fn}:{what}:handler", not unbound,
                       f"{m.rel}:{n.lineno} ({fn}): without lxml, an except clause evaluates the name whose import failed")
            rep.decide(f"{name}:{fn}:{what}:caught", caught or fn != "<module>" and (dispatch(name) or guarded(project, fn)),
                       f"{m.rel}:{n.lineno} ({fn}): without lxml, this import raises an ImportError that is not caught")
    rep.need("imports that fail", 5)


def dispatch(name):
    # where what requests for Android and XLIFF raise is decided by interpretation, below
    return name == "moz.l10n.formats" or name.startswith(("moz.l10n.resource.", "moz.l10n.message."))


def guarded(project, fn, depth=3):
    """Every mention of the function is where an ImportError is caught."""
    found = False
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == fn or isinstance(n, ast.Attribute) and n.attr == fn:
                found = True
                if any(any(not h.type or any(isinstance(x, ast.Name) and x.id in CATCHES for x in ast.walk(h.type)) for h in t.handlers) for t in handlers(m, n)):
                    continue
                p = n
                while p in m.parents and not isinstance(p, ast.FunctionDef):
                    p = m.parents[p]
                if not depth or not isinstance(p, ast.FunctionDef) or not guarded(project, p.name, depth - 1):
                    return False
    return found


def check(project, rep, tier):
    full = Interp(project).load_all()  # in the world with lxml everything has to import
    I = world(project)
    for name in sorted(project.modules):
        xml = any(name == f"moz.l10n.formats.{x}" or name.startswith(f"moz.l10n.formats.{x}.") for x in XML)
        rep.saw("modules imported", name)
        if not xml:
            rep.decide(f"import:{name}", name not in I.failed, f"{name} cannot be imported without lxml: {I.failed.get(name)}")
    if not any(x.startswith("moz.l10n.formats.android") for x in I.failed):
        raise AnalysisBroken("no module needs lxml: the world without it cannot be told apart")
    rep.need("modules imported", 60)
    lazy(project, rep, I)
    R, M = "moz.l10n.resource.", "moz.l10n.message."
    if any(v for k, v in I.failed.items() if not any(f".{x}" in k for x in XML)):
        return

    def one(f, fmt, lead, consume=False, req=True):
        h = Stub()
        I.hooks = h
        b = Build(I)
        name = f.split(":")[1]
        o = call(I, find_func(I, f), lead(b), {}, b.st, consume)
        rep.saw("function x format", f"{name}:{fmt}")
        ids = set()
        for r in o.raises:
            ids |= set(r[0])
        if fmt in XML:
            rep.decide(f"{name}:{fmt}:rejected", not o.completes, f"{name} completes for {fmt} without lxml")
            ok = {"moz.l10n.formats:UnsupportedFormat", "builtins.ValueError"}
            rep.decide(f"{name}:{fmt}:error", bool(ids) and ids <= ok,
                       f"{name} for {fmt} without lxml raises {', '.join(sorted(ids)) or 'TypeError (None is called)'} instead of a clear error")
        elif req:
            rep.decide(f"{name}:{fmt}:works", o.completes, f"{name} has no completing path for {fmt} without lxml")
            rep.decide(f"{name}:{fmt}:no-import-error", not any("Import" in x or "ModuleNotFound" in x for x in ids),
                       f"{name} for {fmt} can raise an ImportError without lxml")
    for fmt in members(I):
        if fmt != "mf2":
            one(R + "parse_resource:parse_resource", fmt, lambda b: [b.fmt(fmt), STR])
            one(R + "serialize_resource:serialize_resource", fmt, lambda b: [b.resource(format=b.fmt(fmt))])
        one(M + "parse:parse_message", fmt, lambda b: [b.fmt(fmt), STR])
        one(M + "serialize:serialize_message", fmt,
            lambda b: [b.fmt(fmt), b.inst("PatternMessage", pattern=b.lst(must=[SOLID]), declarations=b.dct())])
    I.hooks = Hooks()
    for n in ("file.xml", "file.xlf", "file.json", "file.txt", None):
        b = Build(I)
        o = call(I, find_func(I, "moz.l10n.formats:detect_format"), [const(n), STR], {}, b.st)
        ids = set().union(*[set(r[0]) for r in o.raises]) if o.raises else set()
        ids -= {"builtins.AssertionError"}
        rep.saw("function x format", f"detect_format:{n}")
        rep.decide(f"detect_format:{n}", o.completes and not ids, f"detect_format({n!r}, source) fails without lxml: {', '.join(sorted(ids))}")
    rep.need("function x format", 40)
