"""Equality of resources: l10n_equal() is followed on resources with placeholders for their strings; it must accept every reordering, in both directions, and no difference of anything relevant."""
from __future__ import annotations

import itertools

from ..chains import Chains, Runs, Undecided
from ..domain import *
from ..domain import V
from ..evalmod import Interp
from ..inputs import Build
from ..interp import Budget, Hooks
from ..project import AnalysisBroken
from ..run import call, find_func
from ..xduce import TooLarge, Unsupported

RULE = (
    "Abstract interpretation of l10n_equal() with placeholders for the comments, values and metadata of both resources (any strings; different placeholders may be different strings). "
    "A resource is equal to itself with its sections, entries, metadata, declarations, properties, options, attributes and variants in any other order, with comments and sections without entries added, and at other line positions: the only outcome is True, for "
    "each order of up to three sections of all kinds (without and with identifier, comment and metadata, two of them alike). Where one of the two differs in the format, or in an identifier, comment, metadata key or value, "
    "message value or property at any place, or has an entry or section more, an outcome is False, whichever of the two is first."
)
ASSUMPTIONS = ["the identifiers of entries are unique in a section, and sections do not have the same identifier, comment, metadata and entry identifiers"]

# kinds of sections: identifier, comment, metadata
KINDS = {
    "anonymous": ((), "", ()), "other anonymous": ((), "", ()), "commented": ((), "C", ()), "other commented": ((), "D", ()), "annotated": ((), "", (("k", "v"),)), "other annotated": ((), "", (("k", "w"),)),
    "named": (("s",), "", ()), "named, commented": (("s",), "C", ()), "named, annotated": (("s",), "", (("k", "v"),)), "other named": (("t",), "", ()),
}


class Spec:
    """A resource as nested data, built anew for each side."""

    def __init__(self, sections, format="ini", comment="R", meta=(("m", "1"), ("m", "2"), ("n", "3"))):
        self.sections, self.format, self.comment, self.meta = sections, format, comment, meta

    def but(self, **k):
        x = Spec(self.sections, self.format, self.comment, self.meta)
        for a, v in k.items():
            setattr(x, a, v)
        return x


def S(kind, *entries, **k):
    id, comment, meta = KINDS[kind]
    return {"id": id, "comment": comment, "meta": meta, "entries": entries, **k}


def E(id, value="V", comment="c", meta=(("a", "1"),), properties=(("p", "P"),), **k):
    return {"id": (id,), "value": value, "comment": comment, "meta": meta, "properties": properties, **k}


def select(*keys, **k):
    return {"keys": keys, "decl": ("n", "m"), **k}


class Maker:
    """Strings marked $ are placeholders, the same for the same name."""

    def __init__(self, h, b, plain=False):
        self.h, self.b, self.tok, self.plain = h, b, {}, plain

    def s(self, x, placeholder=True):
        if not x.startswith("$"):
            return const(x)
        if self.plain or not placeholder:  # of what sections may be ordered by
            return const(x[1:])
        if x not in self.tok:
            self.tok[x] = self.h.token()
        return self.tok[x]

    def meta(self, m):
        return self.b.meta(must=tuple(self.b.metadata(const(k), self.s(v, False)) for k, v in m))

    def message(self, v):
        b = self.b
        if isinstance(v, str):
            return b.inst("PatternMessage", pattern=b.lst((self.s(v),)), declarations=b.dct())
        if isinstance(v, tuple):
            kind, opts, attrs = v
            d = lambda xs: b.dct(items={k: self.s(x) for k, x in xs})  # noqa: E731
            part = b.inst("Expression", arg=const("x"), function=const(kind), options=d(opts), attributes=d(attrs)) if kind != "m" else \
                b.inst("Markup", kind=const("open"), name=const(kind), options=d(opts), attributes=d(attrs))
            return b.inst("PatternMessage", pattern=b.lst((const("a"), part)), declarations=b.dct())
        e = lambda n: b.inst("Expression", arg=b.inst("VariableRef", name=const(n)), function=const(v.get("function", "number")), options=b.dct(), attributes=b.dct())  # noqa: E731
        return b.inst("SelectMessage", declarations=b.dct(items={n: e(n) for n in v["decl"]}), selectors=mk(("t", (b.inst("VariableRef", name=const(v.get("sel", "n"))),))),
                      variants=b.dct(items={next(iter(mk(("t", (const(k),))).atoms)): b.lst((self.s(v.get(k, "$" + k)),)) for k in v["keys"]}))

    def entry(self, e):
        b = self.b
        if "note" in e:
            return b.inst("Comment", comment=self.s(e["note"]), linepos=NONE)
        x = b.entry(id=mk(("t", tuple(const(p) for p in e["id"]))), value=self.message(e["value"]), comment=self.s(e["comment"]), meta=self.meta(e["meta"]),
                    properties=b.dct(items={k: self.message(v) for k, v in e["properties"]}))
        if "pos" in e:
            self.put(x, linepos=b.inst("LinePos") if False else const(e["pos"]))
        return x

    def put(self, x, **attrs):
        (a,) = x.atoms
        o = self.b.st.heap[a[1]]
        self.b.st.heap[a[1]] = o.w(attrs={**o.attrs, **attrs})

    def resource(self, r):
        b = self.b
        secs = [b.section(id=mk(("t", tuple(const(p) for p in s["id"]))), must=[self.entry(e) for e in s["entries"]], comment=self.s(s["comment"], False), meta=self.meta(s["meta"])) for s in r.sections]
        return b.inst("Resource", format=b.fmt(r.format), sections=b.lst(secs), comment=self.s(r.comment), meta=self.meta(r.meta))


class Tests(Chains):
    """Notes tests that are not decided."""

    def __init__(self, run):
        super().__init__(run)
        self.open = []

    def truth_test(self, I, F, node, v, st):
        if len(I.truth(v, st)) > 1:
            self.open.append(F.where(node))


def answers(I, fv, x, y, limit=80, plain=False):
    """All outcomes of comparing them: True, False, "raises", None (not known).  plain: with one example of strings in the place of placeholders"""
    out = set()
    runs = Runs(limit)
    for run in runs:
        h = Tests(run)
        I.hooks = h
        st = I.base.copy()
        b = Build(I, st)
        m = Maker(h, b, plain)
        try:
            r = call(I, fv, [m.resource(x), m.resource(y)], {}, st)
        except (Unsupported, TooLarge, Undecided, Budget):
            out.add(None)
            continue
        if h.open:
            out.add(None)
            continue
        if not r.completes:
            out.add("raises")
            continue
        a = next(iter(r.value.atoms))
        out.add(a[2] if len(r.value.atoms) == 1 and a[0] == "c" and isinstance(a[2], bool) else None)
    if not runs.complete:
        out.add(None)
    return out


def sections(kinds):
    """Sections of these kinds, with two entries each of its own."""
    return [S(k, E(f"{k}1", "$v" + k, "$c" + k), E(f"{k}2", "$w" + k)) for k in kinds]


def base():
    return Spec([
        S("anonymous", E("a", "$a"), E("b", "$b", "$bc", (("a", "$m1"), ("a", "$m2"), ("b", "$m3")), (("p", "$p"), ("q", "$q")))),
        S("other anonymous", E("c", select("one", "two", "other"))),
        S("named, commented", E("d", ("number", (("o", "$o"), ("p", "$o2")), (("t", "$t"), ("u", "$u")))), E("e", ("m", (("o", "$mo"), ("p", "$mp")), (("t", "$mt"),))), comment="$sc", meta=(("x", "$x"), ("y", "$y"))),
    ], comment="$rc", meta=(("m", "$r1"), ("m", "$r2"), ("n", "$r3")))


def with_section(r, i, **k):
    s = list(r.sections)
    s[i] = {**s[i], **k}
    return r.but(sections=s)


def with_entry(r, i, j, **k):
    es = list(r.sections[i]["entries"])
    es[j] = {**es[j], **k}
    return with_section(r, i, entries=tuple(es))


def same():
    """(what, two resources that are equal)"""
    r = base()
    yield "itself", r, r
    yield "entries in another order", r, with_section(with_section(r, 0, entries=r.sections[0]["entries"][::-1]), 2, entries=r.sections[2]["entries"][::-1])
    yield "entry metadata in another order", r, with_entry(r, 0, 1, meta=(("b", "$m3"), ("a", "$m2"), ("a", "$m1")))
    yield "section metadata in another order", r, with_section(r, 2, meta=(("y", "$y"), ("x", "$x")))
    yield "resource metadata in another order", r, r.but(meta=(("n", "$r3"), ("m", "$r2"), ("m", "$r1")))
    yield "properties in another order", r, with_entry(r, 0, 1, properties=(("q", "$q"), ("p", "$p")))
    yield "variants and declarations in another order", r, with_entry(r, 1, 0, value={**select("other", "two", "one"), "decl": ("m", "n")})
    yield "options and attributes in another order", r, with_entry(r, 2, 0, value=("number", (("p", "$o2"), ("o", "$o")), (("u", "$u"), ("t", "$t"))))
    note = {"note": "$note"}
    yield "a comment among the entries", r, with_section(r, 0, entries=(note, *r.sections[0]["entries"]))
    yield "a section without entries", r, r.but(sections=[S("annotated"), *r.sections])
    yield "a section with only a comment", r, r.but(sections=[*r.sections, S("named", note)])
    yield "an anonymous section without entries", r, r.but(sections=[r.sections[0], S("anonymous", note), *r.sections[1:]])
    yield "anonymous sections merged", r, r.but(sections=[{**r.sections[0], "entries": (*r.sections[0]["entries"], *r.sections[1]["entries"])}, r.sections[2]])
    r3 = r.but(sections=[{**r.sections[0], "entries": (E("b", "$1"), E("g", "$2"))}, {**r.sections[0], "entries": (E("a", "$3"), E("d", "$4"), E("h", "$5"))}, {**r.sections[0], "entries": (E("c", "$6"), E("f", "$7"))}, r.sections[2]])
    yield "anonymous sections, one interleaved with another, merged", r3, r3.but(sections=[{**r.sections[0], "entries": tuple(e for s in (1, 0, 2) for e in r3.sections[s]["entries"])}, r.sections[2]])
    yield "anonymous sections, split otherwise", r3, r3.but(sections=[r.sections[2], *({**r.sections[0], "entries": (e,)} for s in (2, 0, 1) for e in r3.sections[s]["entries"])])
    yield "entries at other lines", r, with_entry(r, 0, 0, pos=7)
    yield "no sections", Spec([]), Spec([])
    yield "only sections without entries", Spec([]), Spec([S("named"), S("anonymous")])


def other():
    """(what, two resources that are not)"""
    r = base()
    yield "the format", r, r.but(format="properties")
    yield "the comment of the resource", r, r.but(comment="$other")
    yield "the metadata of the resource", r, r.but(meta=(("m", "$r1"), ("m", "$r2"), ("n", "$other")))
    yield "a metadata key of the resource", r, r.but(meta=(("m", "$r1"), ("m", "$r2"), ("o", "$r3")))
    yield "a metadata value of the resource, one of two", r, r.but(meta=(("m", "$r1"), ("n", "$r3")))
    yield "the identifier of a section", r, with_section(r, 2, id=("t",))
    yield "one part of the identifier of a section", with_section(r, 2, id=("s", "x")), with_section(r, 2, id=("s", "y"))
    yield "the comment of a section", r, with_section(r, 2, comment="$other")
    yield "the comment of an anonymous section", r, with_section(r, 0, comment="C")
    for i in (0, 1):
        yield f"the presence of metadata of an anonymous section ({i})", r, with_section(r, i, meta=(("k", "v"),))
        yield f"the presence of a comment of an anonymous section ({i})", r, with_section(r, i, comment="C")
        yield f"the presence of an identifier of a section ({i})", r, with_section(r, i, id=("x",))
    yield "the metadata of a section", r, with_section(r, 2, meta=(("x", "$x"), ("y", "$other")))
    yield "a metadata key of a section", r, with_section(r, 2, meta=(("x", "$x"), ("z", "$y")))
    for i, j, what in ((0, 0, "first anonymous"), (0, 1, "second"), (1, 0, "other anonymous"), (2, 0, "named"), (2, 1, "last")):
        e = r.sections[i]["entries"][j]
        yield f"the identifier of an entry ({what})", r, with_entry(r, i, j, id=("zz",))
        yield f"the comment of an entry ({what})", r, with_entry(r, i, j, comment="$other")
        yield f"the metadata of an entry ({what})", r, with_entry(r, i, j, meta=e["meta"][:-1] + ((e["meta"][-1][0], "$other"),))
        yield f"a metadata key of an entry ({what})", r, with_entry(r, i, j, meta=e["meta"][:-1] + (("zz", e["meta"][-1][1]),))
        yield f"the presence of metadata of an entry ({what})", r, with_entry(r, i, j, meta=e["meta"][:-1])
        yield f"the value of an entry ({what})", r, with_entry(r, i, j, value="$other")
        yield f"the value of a property ({what})", r, with_entry(r, i, j, properties=e["properties"][:-1] + ((e["properties"][-1][0], "$other"),))
        yield f"the name of a property ({what})", r, with_entry(r, i, j, properties=e["properties"][:-1] + (("zz", e["properties"][-1][1]),))
        yield f"the presence of a property ({what})", r, with_entry(r, i, j, properties=e["properties"][:-1])
        yield f"the presence of an entry ({what})", r, with_section(r, i, entries=tuple(x for x in r.sections[i]["entries"] if x is not e))
        yield f"the presence of one more entry ({what})", r, with_section(r, i, entries=(*r.sections[i]["entries"], E(f"zz{i}{j}")))
    yield "a variant", r, with_entry(r, 1, 0, value={**select("one", "two", "other"), "two": "$other"})
    yield "the key of a variant", r, with_entry(r, 1, 0, value={**select("one", "few", "other"), "few": "$two"})
    yield "the presence of a variant", r, with_entry(r, 1, 0, value=select("one", "other"))
    yield "the selector", r, with_entry(r, 1, 0, value={**select("one", "two", "other"), "sel": "m"})
    yield "the function of a declaration", r, with_entry(r, 1, 0, value={**select("one", "two", "other"), "function": "integer"})
    yield "the presence of a declaration", r, with_entry(r, 1, 0, value={**select("one", "two", "other"), "decl": ("n",)})
    yield "the function", r, with_entry(r, 2, 0, value=("integer", (("o", "$o"), ("p", "$o2")), (("t", "$t"), ("u", "$u"))))
    yield "an option", r, with_entry(r, 2, 0, value=("number", (("o", "$o"), ("p", "$other")), (("t", "$t"), ("u", "$u"))))
    yield "an attribute", r, with_entry(r, 2, 0, value=("number", (("o", "$o"), ("p", "$o2")), (("t", "$other"), ("u", "$u"))))
    yield "an option of markup", r, with_entry(r, 2, 1, value=("m", (("o", "$mo"), ("p", "$other")), (("t", "$mt"),)))
    yield "the presence of a section", r, r.but(sections=r.sections[:2])
    yield "the presence of an anonymous section", r, r.but(sections=r.sections[1:])
    yield "the presence of one more section", r, r.but(sections=[*r.sections, S("other named", E("zz"))])
    yield "the section of an entry", r, r.but(sections=[r.sections[0], {**r.sections[1], "entries": ()}, {**r.sections[2], "entries": (*r.sections[2]["entries"], *r.sections[1]["entries"])}])


def check(project, rep, tier):
    I = Interp(project, Hooks())
    I.strict = True
    I.explicit_only = True
    I.generations = 24
    I.load_all()
    fv = find_func(I, "moz.l10n.resource.l10n_equal:l10n_equal")
    known = 0

    def decide(key, x, y, want, text):
        nonlocal known
        for way, p, q in (("", x, y), (" (exchanged)", y, x)):
            got = answers(I, fv, p, q)
            if None in got:
                got = answers(I, fv, p, q, plain=True)
            rep.saw("comparisons", key + way)
            if None in got:
                rep.notes.append(f"{key}{way}: not decided: {got}")
                continue
            known += 1
            if want:
                rep.decide(key, got == {True}, f"l10n_equal(){way}: {text}")
            else:
                rep.decide(key, got != {True}, f"l10n_equal(){way}: {text}")

    for what, x, y in same():
        decide(f"same:{what}", x, y, True, f"a resource is not equal to one that differs in no more than: {what}")
    for what, x, y in other():
        decide(f"other:{what}", x, y, False, f"resources that differ in {what} are equal")
    n = 3 if tier != "thorough" else 4
    for kinds in itertools.combinations(KINDS, n):
        x = Spec(sections(kinds))
        for order in itertools.permutations(kinds):
            if order != kinds:
                decide(f"order:{', '.join(kinds)}", x, Spec(sections(order)), True, f"the order of the sections matters: {kinds} and {order}")
    rep.coverage = {"comparisons decided": known}
    if not known:
        raise AnalysisBroken(f"only {known} comparisons could be decided")
