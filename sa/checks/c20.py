"""Exceptional flow.  (1) mf2_parse_message() is interpreted abstractly on any string, in all contexts of its calls: every `raise`, and
every operation that raises by itself (an attribute or item of what may be None, an item of a string, list or dict, a conversion) is an obligation: its exception
is the documented one, or is caught on the way out, or the operation is guarded.  (2) mf2_from_json() is interpreted on every shape
of message with one node removed or replaced, and (3) mf2_validate_message() on every shape of message of the data model with one node removed, doubled
or replaced by values of other types; all values being known exactly, what escapes is too."""
from __future__ import annotations

import ast

from ..chains import Runs, Undecided
from ..domain import *
from ..evalmod import Interp
from ..inputs import Build
from ..interp import Hooks
from ..jsonshape import Inst, Schemas, read
from ..mf2rules import OTHER, build, mutants
from ..par import parallel
from ..run import call, find_func
from ..xduce import TooLarge, Unsupported
from .c09 import CODECS, Make, Names, malformed, shapes
from .c31 import FN, maker, outcomes, skeleton

RULE = "exceptions that escape the MessageFormat 2 parser, reader and validator are the documented ones"
ASSUMPTIONS = [
    "assertions of the parser hold; memory and the depth of calls suffice",
    "an index is in bounds where its function compares it with the length, or tests what it is an index of",
    "a value that is narrowed by a test and read again from an attribute is still what it was",
]
PARSE = "moz.l10n.formats.mf2.message_parser:mf2_parse_message"
NONE_OF = ("None.", "subscript of None", "slice of None")
INDEX = ("string index", "list index", "tuple index")
SKIP = ("unknown value", "ordering comparison", "+ of unsupported", "iteration over non-iterable", "of an element without any", "len()")


class Sites(Hooks):
    def __init__(self):
        self.what = {}
        self.where = {}

    def implicit(self, I, F, node, exc, what):
        self.what[id(node)] = what
        self.where[id(node)] = F.where(node)

    def raised(self, I, F, node, exc, st):
        self.what.setdefault(id(node), "raise")
        self.where[id(node)] = F.where(node)


def owner(project, F, node):
    """The function definition a node is in."""
    best = None
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(x is node for x in ast.walk(n)):
                if best is None or any(x is n for x in ast.walk(best)):
                    best = n
    return best


def tests(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            yield n.test
        elif isinstance(n, ast.comprehension):
            yield from n.ifs
        elif isinstance(n, ast.BoolOp):
            yield from n.values[:-1]
        elif isinstance(n, ast.Match):
            yield n.subject


def is_len(n, base):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and ast.unparse(n.args[0]) == base


def guarded(fn, node):
    """Whether a subscript is protected by a test in its function."""
    if fn is None or not isinstance(node, ast.Subscript):
        return True
    base, idx = ast.unparse(node.value), ast.unparse(node.slice)
    exact = []
    for t in tests(fn):
        for n in ast.walk(t):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, op, b = n.left, n.ops[0], n.comparators[0]
                if is_len(b, base) and ast.unparse(a) == idx:
                    exact.append(isinstance(op, (ast.Lt, ast.GtE, ast.Eq, ast.NotEq)))
                elif is_len(a, base) and ast.unparse(b) == idx:
                    exact.append(isinstance(op, (ast.Gt, ast.LtE, ast.Eq, ast.NotEq)))
    if exact:
        return any(exact)
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("range", "enumerate") for x in ast.walk(n.iter)):
            return True
    return any(says(t, base, idx) for t in tests(fn))


def says(t, base, idx):
    """Whether a condition is about what is subscripted, or its index."""
    if isinstance(t, ast.BoolOp):
        return any(says(x, base, idx) for x in t.values)
    if isinstance(t, ast.UnaryOp):
        return says(t.operand, base, idx)
    if isinstance(t, ast.NamedExpr):
        return says(t.target, base, idx) or says(t.value, base, idx)
    if isinstance(t, ast.Compare):
        return any(says(x, base, idx) or ast.unparse(x) == idx or is_len(x, base) for x in (t.left, *t.comparators))
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ("startswith", "endswith", "isdigit"):
        return ast.unparse(t.func.value) == base
    return ast.unparse(t) == base or is_len(t, base)


def known_key(fn, node):
    """Whether the function tests for the key, or goes through the keys."""
    if fn is None or not isinstance(node, ast.Subscript):
        return True
    base = ast.unparse(node.value)
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) and ast.unparse(c) == base for o, c in zip(n.ops, n.comparators)):
            return True
        if isinstance(n, (ast.For, ast.comprehension)) and any(ast.unparse(x) == base for x in ast.walk(n.iter)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and ast.unparse(n.func.value) == base:
            return True
    return False


def parser(project, rep):
    I = Interp(project).load_all()
    I.strict = I.track_implicit = True
    h = I.hooks = Sites()
    fv = find_func(I, PARSE)
    r = call(I, fv, [STR], {}, I.base.copy())
    if not r.completes:
        rep.notes.append("mf2_parse_message(): no result")
    escaping = {}
    for ids, _, node, F in r.raises:
        escaping.setdefault(id(node), (node, F, set()))[2].update(ids)
    rep.saw("operations of the parser that may raise", *(f"{h.where[k]}: {w}" for k, w in h.what.items()))
    for k, what in h.what.items():
        if k not in escaping:
            rep.ok(f"parser:{h.where[k]}: {what}")
    for k, (node, F, ids) in escaping.items():
        what = h.what.get(k, "raise")
        bad = []
        for cid in sorted(ids):
            mro = [x.rpartition(":")[2] for x in I.exc_mro(cid)]
            if "MF2ParseError" in mro or "MF2ValidationError" in mro or cid == "builtins.AssertionError" or cid == "?":
                continue
            if what == "raise":
                bad.append(cid)
            elif any(x in what for x in SKIP):
                continue
            elif what.startswith(NONE_OF):
                b = node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else getattr(node, "value", None)
                if isinstance(b, (ast.Name, ast.Call, ast.NamedExpr)):
                    bad.append(cid)
            elif what == "dict key":
                if not known_key(owner(project, F, node), node):
                    bad.append(cid)
            elif what in INDEX:
                if not guarded(owner(project, F, node), node):
                    bad.append(cid)
            else:
                bad.append(cid)
        where = F.where(node)
        fn = where.partition("(")[2].rstrip(")")
        src = ast.unparse(node)
        names = ", ".join(c.rpartition(".")[2].rpartition(":")[2] for c in bad)
        rep.decide(f"parser:{where}: {what}" if not bad else f"parser:{fn}:{names}", not bad, f"{where}: {names} of `{src[:80]}` escapes mf2_parse_message()")


class Errors:
    """A report that only takes what is about exceptions."""

    def __init__(self, rep):
        self.rep, self.notes = rep, rep.notes

    def saw(self, *a):
        self.rep.saw(*a)

    def decide(self, key, ok, msg):
        if ":error" in key:
            self.rep.decide(key, ok, msg)

    def ok(self, key):
        self.decide(key, True, "")

    def bad(self, key, msg):
        self.decide(key, False, msg)


def reader(rep, I, name, sh, schemas):
    to, _, _ = CODECS["mf2"]
    fto = find_func(I, to)
    for run in Runs(1):
        h = Names(run)
        I.hooks = h
        st = I.base.copy()
        try:
            x = Make(h, Build(I, st)).message(sh)
            r = call(I, fto, [x], {}, st)
            if r.completes:
                malformed(Errors(rep), I, "mf2", name, h, read(r.value, st), None, schemas, (0, 1))
        except (Unsupported, TooLarge, Undecided) as e:
            rep.notes.append(f"mf2_from_json: {name}: undecided: {e}")


def validator(rep, I, fv, name, sh):
    for what, t in mutants(skeleton(I, sh)):
        for h, orig, r, after in outcomes(I, fv, 5, maker(I, sh, t)):
            if h is None:
                rep.notes.append(f"mf2_validate_message: {name}: undecided: {', '.join(sorted(orig))[:100]}")
                continue
            verdict(rep, I, r, "/".join("*" if has_token(str(k)) else str(k) for k in what[0]), what[1])


def verdict(rep, I, r, path, v):
    p = f"/{path} " + (v if v in ("removed", "doubled") else "replaced by " + (v.cls if isinstance(v, Inst) else repr(v)))
    rep.saw("malformed messages validated", p)
    bad = sorted({c.rpartition(".")[2].rpartition(":")[2] for x in r.raises for c in x[0] if "MF2ValidationError" not in [m.rpartition(":")[2] for m in I.exc_mro(c)]})
    rep.decide(f"validate:{p}" if not bad else f"validate:{path}:{', '.join(bad)}", not bad, f"mf2_validate_message(): {p}: {', '.join(bad)} escapes")


def check(project, rep, tier):
    I = Interp(project).load_all()
    I.strict = I.explicit_only = True
    I.generations = 40
    fv = find_func(I, FN)
    schemas = Schemas(project.repo)
    every = shapes("mf2")

    def one(r, part):
        if part == 16:
            parser(project, r)
            for v in OTHER:
                st = I.base.copy()
                I.hooks = Names(Runs(1))
                verdict(r, I, call(I, fv, [build(Build(I, st), v)], {}, st), "", v)
            return
        for i, (name, sh) in enumerate(every):
            if i % 16 == part:
                validator(r, I, fv, name, sh)
                reader(r, I, name, sh, schemas)

    parallel(rep, one, [16, *range(16)])
    rep.need("operations of the parser that may raise", 20)
    rep.need("malformed messages validated", 100)
    rep.need("malformed values read", 300)
