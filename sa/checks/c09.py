"""Abstract interpretation of the JSON writers and readers on every shape of expression, markup, pattern, message and entry (up to
two of each repeated part), whose strings are placeholders for unknown strings, with every answer to a question about them
followed.  The JSON value that is written is read off the analysis and matched against the published JSON schema as a closed
grammar (no undeclared members, exactly one alternative); it is then given to the reader, whose result has to have the same
structure and the same strings as the original.  Each node of the written JSON is also removed and replaced by values of other
types: where the MessageFormat 2 schema then does not allow it, the reader must not complete, and no reader may let an exception
other than the documented one escape."""
from __future__ import annotations

import copy
import itertools

from ..chains import Chains, Runs, Undecided
from ..domain import *
from ..evalmod import Interp
from ..inputs import Build
from ..jsonshape import Inst, Schemas, read, short, write
from ..par import parallel
from ..project import AnalysisBroken
from ..rxnfa import NFA
from ..run import call, find_func
from ..xduce import TooLarge, Unsupported, differs

RULE = "schemas/*.json as closed grammars; reader(writer(x)) == x; documented exceptions only"
ASSUMPTIONS = [
    "names of variables, functions, options, attributes, markup, declarations and metadata are not empty; attribute values are strings or True",
    "shapes have at most two options, attributes, declarations, selectors, keys, variants and properties, and three metadata; identifiers have up to two parts of up to two characters; the parts of a pattern are independent",
    "different names and keys of a message are written as different placeholders, that is, they are not equal",
    "the value of a catch-all key is not compared as empty and missing ones are equal in the data model",
]

NAME = NFA("(?:.|\n)+")
M = "moz.l10n.message."
F = "moz.l10n.formats.mf2."
CODECS = {
    "message": (M + "to_json:message_to_json", M + "from_json:message_from_json", "message.json"),
    "mf2": (F + "to_json:mf2_to_json", F + "from_json:mf2_from_json", "mf2-message.json"),
    "entry": (M + "to_json:entry_to_json", M + "from_json:entry_from_json", "entry.json"),
}


class Names(Chains):
    def token_eq(self, a, b):
        r = super().token_eq(a, b)
        return False if r is None and has_token(a) and has_token(b) else r

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        if dotted == "builtins.sorted" and len(args) == 1:
            elem, must, _ = I.iter_elems(args[0], st, F, node)
            if elem is None and len(must) == 2 and must[0] != must[1]:
                return I.new_list(st, F, node, must[::-1], tag="so")
        return super().call_ext(I, F, node, dotted, args, kwargs, st)


class Make:
    """Data model objects with placeholders for their strings."""

    def __init__(self, h, b):
        self.h, self.b = h, b

    def text(self):
        return self.h.token()

    def name(self):
        return self.h.token([NAME])

    def var(self):
        return self.b.inst("VariableRef", name=self.name())

    def options(self, o):
        items = {}
        for x in o:
            (a,) = self.name().atoms
            items[a[2]] = self.text() if x == "l" else self.var()
        return self.b.dct(items=items)

    def attributes(self, o):
        items = {}
        for x in o:
            (a,) = self.name().atoms
            items[a[2]] = self.text() if x == "l" else TRUE
        return self.b.dct(items=items)

    def expr(self, arg="l", fn="", opt="", attr=""):
        a = {"": lambda: NONE, "l": self.text, "v": self.var}[arg]()
        return self.b.inst("Expression", arg=a, function=self.name() if fn else NONE, options=self.options(opt), attributes=self.attributes(attr))

    def markup(self, kind="open", opt="", attr=""):
        return self.b.inst("Markup", kind=const(kind), name=self.name(), options=self.options(opt), attributes=self.attributes(attr))

    def pattern(self, *parts):
        return self.b.lst([self.part(p) for p in parts])

    def part(self, p):
        if p == "t":
            return self.text()
        if p == "":
            return const("")
        return (self.expr if p[0] == "e" else self.markup)(*p[1:])

    def decls(self, *ds):
        """i: input declaration, l: local one of a literal, v: local one of another variable, f: local one of a function"""
        items = {}
        for d in ds:
            (a,) = self.name().atoms
            if d == "i":
                e = self.b.inst("Expression", arg=self.b.inst("VariableRef", name=const(a[2])), function=self.name(), options=self.options(""), attributes=self.attributes(""))
            else:
                e = self.expr(*{"l": ("l",), "v": ("v",), "f": ("", "f", "l")}[d])
            items[a[2]] = e
        return self.b.dct(items=items)

    def key(self, k):
        if k == "k":
            return self.text()
        return self.b.inst("CatchallKey", value=NONE if k == "*" else self.text())

    def message(self, shape):
        kind, ds, *rest = shape
        if kind == "p":
            return self.b.inst("PatternMessage", pattern=self.pattern(*rest), declarations=self.decls(*ds))
        sels, variants = rest
        d = self.decls(*(list(ds) + ["i"] * sels))
        names = [k for k in self.b.st.heap[next(iter(d.atoms))[1]].items][len(ds):]
        must = [(mk(("t", tuple(self.key(k) for k in ks))), self.pattern(*ps)) for ks, ps in variants]
        return self.b.inst("SelectMessage", declarations=d,
                           selectors=mk(("t", tuple(self.b.inst("VariableRef", name=const(n)) for n in names))),
                           variants=self.b.dct(must=must))

    def entry(self, shape):
        ids, meta, comment, value, props = shape
        keys = {}
        items = {}
        for p in props:
            (a,) = self.name().atoms
            items[a[2]] = self.message(p)
        return self.b.inst("Entry", id=mk(("t", tuple(const(i) for i in ids))), value=self.message(value),
                           meta=self.b.lst([self.b.metadata(keys.setdefault(k, self.name()), self.text()) for k in meta]),
                           comment=self.text() if comment else const(""), properties=self.b.dct(items=items), linepos=NONE)


def shapes(kind):
    """(name, shape)"""
    sides = ["", "l", "v", "lv"]
    attrs = ["", "t", "l", "tl"]
    out = []
    if kind == "entry":
        p0, p1, s1 = ("p", ""), ("p", "", "t"), ("s", "", 1, (("k", ("t",)), ("*", ("t",))))
        for ids in (("a",), ("a", "b")):
            for meta in ("", "a", "ab", "aa", "aba"):
                for c in (0, 1):
                    out.append((f"{len(ids)} id parts, metadata {meta or '-'}, {'a' if c else 'no'} comment", (ids, meta, c, p1, ())))
        words = ["".join(w) for n in range(3) for w in itertools.product("a.\\", repeat=n)]
        for ids in [(w,) for w in words] + list(itertools.product(words, repeat=2)):
            out.append((f"the identifier {ids!r}", (ids, "", 0, p1, ())))
        for n, v in (("an empty value", p0), ("a value", p1), ("an empty string", ("p", "", "")), ("a declaration only", ("p", "l")), ("a selection", s1)):
            for m, ps in (("no properties", ()), ("a property", (p1,)), ("an empty property", (p0,)), ("two properties", (s1, p1))):
                out.append((f"{n} and {m}", (("a",), "", 0, v, ps)))
        return out
    exprs = [("e", a, f, o, t) for a in ("", "l", "v") for f in ("", "f") if a or f for o in (sides if f else [""]) for t in attrs]
    marks = [("m", k, o, t) for k in ("open", "standalone", "close") for o in sides for t in attrs]
    for x in exprs:
        out.append(("expression " + "/".join(q or "-" for q in x[1:]), ("p", "", x)))
    for x in marks:
        out.append(("markup " + "/".join(q or "-" for q in x[1:]), ("p", "", x)))
    e, m = ("e", "v", "f", "l", "l"), ("m", "open", "l", "t")
    for n, ps in (("no parts", ()), ("an empty string", ("",)), ("a string", ("t",)), ("strings", ("t", "t")), ("a string, expression and string", ("t", e, "t")),
                  ("markup around a string", (m, "t", ("m", "close"))), ("two expressions", (e, ("e", "l"))), ("many parts", ("t", m, "t", e, e, ("m", "close"), ""))):
        out.append((n, ("p", "", *ps)))
    for ds in ("i", "l", "v", "f", "il", "li", "iv", "ff"):
        for n, ps in (("no parts", ()), ("a string", ("t",))):
            out.append((f"declarations {ds} and {n}", ("p", ds, *ps)))
    pk = [("t",), (e,), (), ("t", m)]
    for i, a in enumerate(pk):
        out.append((f"a selection, {i}", ("s", "", 1, (("k", a), ("*", pk[(i + 1) % 4])))))
        out.append((f"a selection with a named default, {i}", ("s", "", 1, (("+", a),))))
    out.append(("a selection with a local declaration", ("s", "l", 1, (("k", ("t",)), ("k", ("t",)), ("*", ("t",))))))
    out.append(("two selectors", ("s", "", 2, (("kk", ("t",)), ("k*", (e,)), ("*k", ("t",)), ("*+", ("t",))))))
    return out


def compare(h, x, y, path=""):
    """How two trees of the data model differ, or None."""
    if isinstance(x, Inst) and isinstance(y, Inst):
        if x.cls != y.cls:
            return f"{path}: {y.cls} instead of {x.cls}"
        if x.cls == "CatchallKey":
            a, b = x.attrs.get("value"), y.attrs.get("value")
            if a is None and b == "" or a == "" and b is None or empty(h, a) and b is None:
                return None
        for k in x.attrs:
            if k == "linepos":
                continue
            if k not in y.attrs:
                return f"{path}.{k} is missing"
            r = compare(h, x.attrs[k], y.attrs[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(x, (list, tuple)) and type(x) is type(y):
        if len(x) != len(y):
            return f"{path}: {len(y)} items instead of {len(x)}"
        for i, (p, q) in enumerate(zip(x, y)):
            r = compare(h, p, q, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(x, dict) and isinstance(y, dict):
        if len(x) != len(y):
            return f"{path}: {len(y)} members instead of {len(x)}"
        keep = path.rpartition(".")[2] in ("declarations", "variants", "properties")
        for (p, v), (q, w) in zip(x.items(), y.items()) if keep else [((k, x[k]), (k, y[k]) if k in y else (None, None)) for k in x]:
            r = compare(h, p, q, f"{path} key") or compare(h, v, w, f"{path}[]")
            if r:
                return r
        return None
    if isinstance(x, str) and isinstance(y, str):
        if x == y:
            return None
        a, b = h.parts(x), h.parts(y)
        if len(a) == len(b) == 1 and not isinstance(a[0], str) and not isinstance(b[0], str) and a[0].base is b[0].base and not a[0].ops:
            w = differs(h.stages(b[0]), [])
            return f"{path}: {w[0]!r} becomes {w[1][0]!r}" if w else None
        if (x == "" or empty(h, x)) and (y == "" or empty(h, y)):
            return None
        return f"{path}: another string"
    if type(x) is type(y) and x == y:
        return None
    names = {str: "a string", type(None): "None", bool: str(y)}
    return f"{path}: {names.get(type(y), type(y).__name__)} instead of {names.get(type(x), type(x).__name__) if not isinstance(x, bool) else x}"


def empty(h, s):
    if not isinstance(s, str) or not has_token(s):
        return s == ""
    return all(not isinstance(p, str) and h.answers.get((p.base, p.ops, "(?:.|\n)+", 0, "full", "", "")) is False for p in h.parts(s))


def exceptions(r):
    return sorted({i.rpartition(".")[2].rpartition(":")[2] for x in r.raises for i in x[0]})


def shape(rep, I, kind, name, sh, limit, schemas, trees):
    to, back, doc = CODECS[kind]
    fto, fback = find_func(I, to), find_func(I, back)
    key = f"{kind}: {name}"
    why, fail, seen = set(), None, 0
    for run in Runs(limit):
        h = Names(run)
        I.hooks = h
        st = I.base.copy()
        b = Build(I, st)
        mk_ = Make(h, b)
        x = mk_.entry(sh) if kind == "entry" else mk_.message(sh)
        try:
            orig = read(x, st)
            r = call(I, fto, [x], {}, st)
            if not r.completes:
                fail = ("written", f"is not written ({', '.join(exceptions(r))})")
                break
            j, args = r.value, []
            if kind == "entry":
                (a,) = j.atoms
                if a[0] != "t" or len(a[1]) != 2:
                    raise Undecided("not a pair")
                args, j = [a[1][0]], a[1][1]
            tree = read(j, st)
            trees.append((h, tree, read(args[0], st) if args else None))
            w = schemas.check(tree, doc)
            if w:
                fail = ("schema", f"is written as JSON that {doc} does not allow: {clean(w)}")
                break
            r = call(I, fback, [*args, j], {}, st)
            if not r.completes:
                fail = ("read", f"is written as JSON that is not read ({', '.join(exceptions(r))})")
                break
            w = compare(h, orig, read(r.value, st))
            if w:
                fail = ("lossless", f"is not the same after writing and reading it: {clean(w)}")
                break
            seen += 1
        except (Unsupported, TooLarge, Undecided) as e:
            why.add(str(e))
    rep.saw("shapes written and read", *([key] if seen or fail else []))
    rep.saw("outcomes compared", *(f"{key}#{i}" for i in range(seen)))
    if why:
        rep.notes.append(f"{key}: undecided: {', '.join(sorted(why))[:200]}")
    if fail:
        rep.bad(f"{kind}:{fail[0]}", f"{to.rpartition(':')[2]}(): a message with {name} {fail[1]}")
    elif seen:
        rep.ok(key)


def clean(s):
    return "".join("…" if has_token(c) else c for c in s)


OTHER = [5, None, True, [], ["x"], {}, {"x": "x"}, "x", ""]


def mutants(t, path=()):
    """(what, tree) with one node removed or replaced"""
    for v in OTHER:
        if not (type(v) is type(t) and v == t):
            yield (path, v), v
    if isinstance(t, dict):
        for k in t:
            yield (path + (k,), "removed"), {a: b for a, b in t.items() if a != k}
            for w, x in mutants(t[k], path + (k,)):
                yield w, {**t, k: x}
    elif isinstance(t, list):
        for i, y in enumerate(t):
            for w, x in mutants(y, path + (i,)):
                yield w, t[:i] + [x] + t[i + 1:]


def doubled(t, other):
    """The same with a variant or declaration written twice, or an input declaration of another variable."""
    for k in ("variants", "declarations"):
        if isinstance(t, dict) and t.get(k):
            yield ((k,), "doubled"), {**t, k: t[k] + [copy.deepcopy(t[k][0])]}
    for i, d in enumerate(t["declarations"]):
        if d["type"] == "input":
            yield (("declarations", i, "name"), "changed"), {**t, "declarations": [{**x, "name": other} if i == k else x for k, x in enumerate(t["declarations"])]}


def malformed(rep, I, kind, name, h, tree, arg, schemas, part):
    to, back, doc = CODECS[kind]
    fback = find_func(I, back)
    fn = back.rpartition(":")[2]
    I.hooks = h
    schemas.closed = False
    try:
        for n, ((path, v), t) in enumerate([*mutants(tree), *(doubled(tree, next(iter(h.token([NAME]).atoms))[2]) if kind == "mf2" else ())]):
            if n % part[1] != part[0]:
                continue
            p = "/".join("*" if isinstance(k, int) or has_token(k) else k for k in path)
            st = I.base.copy()
            try:
                b = Build(I, st)
                j = write(b, t)
                r = call(I, fback, [const(arg), j] if arg is not None else [j], {}, st)
            except (Unsupported, TooLarge, Undecided):
                continue
            rep.saw("malformed values read", f"{kind} {p} {v!r}")
            bad = [x for x in exceptions(r) if x != "MF2ValidationError"]
            what = f"{fn}(): /{p} {v if v in ('removed', 'doubled', 'changed') else 'replaced by ' + repr(v)}"
            rep.decide(f"{kind}:error:{p}:{v!r}" if not bad else f"{kind}:error", not bad, f"{what}: {', '.join(bad)} escapes")
            if kind == "mf2":
                w = schemas.check(t, doc) if v not in ("doubled", "changed") else "it would be lost"
                ok = w is None or not r.completes
                rep.decide(f"{kind}:accepted:{p}:{v!r}" if ok else f"{kind}:accepted:{p}", ok, f"{what} is read although {doc} does not allow it ({clean(w or '')})")
    finally:
        schemas.closed = True


def check(project, rep, tier):
    I = Interp(project).load_all()
    I.strict = I.explicit_only = True
    I.generations = 12
    schemas = Schemas(project.repo)
    limit = 80 if tier == "quick" else 2000

    def one(r, item):
        kind, k, n = item
        every = shapes(kind)
        for i, (name, sh) in enumerate(every):
            if i % n != k:
                continue
            trees = []
            shape(r, I, kind, name, sh, limit, schemas, trees)
            if trees and not name.startswith("the identifier"):
                h, tree, arg = trees[0]
                malformed(r, I, kind, name, h, tree, arg, schemas, (0, 1))

    parallel(rep, one, [(k, i, 8) for k in CODECS for i in range(8)])
    rep.need("shapes written and read", 150)
    rep.need("outcomes compared", 150)
    rep.need("malformed values read", 300)
