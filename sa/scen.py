"""Designated-item scenarios: one labelled item of the data model among arbitrary neighbours, given to a serializer."""
from __future__ import annotations

from .domain import *
from .inputs import Build
from .run import call, find_func

FORMATS = ("android", "dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "xliff")
STRFMT = ("dtd", "inc", "ini", "plain_json", "properties")
SER = "moz.l10n.resource.serialize_resource:serialize_resource"


class Ctx:
    """Builds one scenario for one format."""

    def __init__(self, I, fmt, neighbours=True):
        self.I, self.fmt = I, fmt
        self.b = Build(I)
        self.neighbours = neighbours
        self.trim = False

    def simple(self, v):
        """A message value holding just the string v, in the shape(s) the format accepts."""
        b = self.b
        m = b.inst("PatternMessage", pattern=b.lst(must=[v]), declarations=b.dct())
        return m

    def neighbour(self, comments=True):
        b = self.b
        val = self.simple(STR)
        if self.fmt in STRFMT:
            val = join(val, STR)
        cm = STR if comments and self.fmt not in ("plain_json",) else const("")
        return b.entry(id=b.idv(1), value=val, comment=cm)

    def nb(self, comments=True):
        if not self.neighbours:
            return None
        g = self.neighbour(comments)
        if comments and self.fmt not in ("plain_json", "webext"):
            g = join(g, self.b.comment(kind="?"))
        return g

    def secid(self, label=None):
        b = self.b
        if self.fmt in ("xliff", "ini"):
            return b.idv(1, label=label)
        return mk(("t", ()))

    def resource(self, item=None, secid=None, seccomment=None, secmeta=None, rescomment=None, resmeta=None, first=False):
        b = self.b
        nb = self.nb()
        s = b.section(id=secid if secid is not None else self.secid(), must=[item] if item is not None else [], elem=nb,
                      comment=seccomment, meta=secmeta)
        other = None
        if self.neighbours:
            other = b.section(id=self.secid(), elem=nb)
        sections = b.lst(must=[s], elem=other if not first else None)
        return b.inst("Resource", format=NONE, sections=sections,
                      comment=rescomment if rescomment is not None else const(""),
                      meta=resmeta if resmeta is not None else b.lst())

    def run(self, res, trim=FALSE, **kw):
        args = {"trim_comments": trim}
        args.update(kw)
        return call(self.I, find_func(self.I, SER), [res, self.b.fmt(self.fmt)], args, self.b.st, consume=True)


def W(l):
    return strv("W", frozenset([l]), frozenset([l]))


def N(l):
    return strv("N", frozenset([l]), frozenset([l]))



def E(b, **k):
    return b.inst("Expression", **{"function": NONE, "options": b.dct(), "attributes": b.dct(), **k})


def M(b, kind, **k):
    return b.inst("Markup", kind=const(kind), **{"options": b.dct(), "attributes": b.dct(), **k})


# Each scenario: ctx -> (resource, labels that have to be written), or None where it does not apply.
SCEN = []


def scenario(props, skip=(), only=None, alone=(), **kw):
    """alone: formats for which the scenario is decided without arbitrary neighbours."""
    def deco(f):
        SCEN.append(Scenario(f.__name__, props, f, skip, only, alone, kw))
        return f
    return deco


class Scenario:
    def __init__(self, name, props, f, skip, only, alone, kw):
        self.name, self.props, self.f, self.skip, self.only, self.alone, self.kw = name, props.split(), f, skip, only, alone, kw

    def applies(self, fmt):
        return fmt not in self.skip and (self.only is None or fmt in self.only)

    def run(self, I, fmt, neighbours, trim=False):
        c = Ctx(I, fmt, neighbours and fmt not in self.alone)
        c.trim = trim
        res, labels = self.f(c)
        kw = {"xliff_source_entries": TRUE} if fmt == "xliff" else {}
        kw.update(self.kw)
        if trim:
            kw["trim"] = TRUE
        return c.run(res, **kw), labels


def entry(c, **k):
    if c.trim and c.fmt == "gettext":
        # obsolete entries are comments, which trimming leaves out
        k = {"meta": c.b.lst(), **k}
    return c.b.entry(**{"id": c.b.idv(1, "id", "W"), "value": c.simple(W("value")), **k})


def later(c, items):
    b = c.b
    s = b.section(id=c.secid(), must=items, elem=c.nb())
    return b.inst("Resource", format=NONE, sections=b.lst(must=[s]), comment=const(""), meta=b.lst())


@scenario("C03")
def message(c):
    return c.resource(entry(c)), {"id", "value"}


@scenario("C03")
def string_message(c):
    return c.resource(entry(c, value=W("value"))), {"id", "value"}


@scenario("C03")
def empty_message(c):
    return c.resource(entry(c, value=c.simple(STR))), {"id"}


@scenario("C03")
def message_without_parts(c):
    return c.resource(entry(c, value=c.b.inst("PatternMessage", pattern=c.b.lst(), declarations=c.b.dct()))), {"id"}


@scenario("C03", skip=("gettext",))
def plural_message(c):
    b = c.b
    sel = N("sel")
    m = b.inst("SelectMessage", declarations=b.dct(must=[(sel, b.inst("Expression", arg=b.inst("VariableRef", name=sel), function=const("number"), options=b.dct(), attributes=b.dct()))]),
               selectors=mk(("t", (b.inst("VariableRef", name=sel),))),
               variants=b.dct(must=[(mk(("t", (const("one"),))), b.lst(must=[W("v1")])), (mk(("t", (b.inst("CatchallKey", value=const("other")),))), b.lst(must=[W("v2")]))]))
    return c.resource(entry(c, value=m)), {"v1", "v2", "id"}


@scenario("C03 C05")
def entry_properties(c):
    return c.resource(entry(c, properties=c.b.dct(must=[(N("pname"), c.simple(W("pval")))]))), {"pname", "pval", "id"}


@scenario("C02")
def entry_comment(c):
    return c.resource(entry(c, comment=W("comment"))), {"id", "value", "comment"}


@scenario("C02")
def later_entry_comment(c):
    """The comment of an entry that follows another one with a comment."""
    b = c.b
    return later(c, [entry(c, id=b.idv(1), value=c.simple(STR), comment=STR), entry(c, comment=W("comment"))]), {"id", "value", "comment"}


@scenario("C02", only=("android",))
def array_item_comment(c):
    return later(c, [entry(c, id=mk(("t", (const("a"), const(str(i))))), comment=W("comment") if i else const("")) for i in range(2)]), {"comment"}


@scenario("C02")
def standalone_comment(c):
    return c.resource(c.b.inst("Comment", comment=W("comment"), linepos=NONE)), {"comment"}


@scenario("C02")
def section_comment(c):
    return c.resource(entry(c), seccomment=W("seccomment")), {"seccomment", "id"}


@scenario("C02")
def first_section_comment(c):
    return c.resource(entry(c), seccomment=W("seccomment"), first=True), {"seccomment", "id"}


@scenario("C02")
def empty_section_comment(c):
    return c.resource(None, seccomment=W("seccomment")), {"seccomment"}


@scenario("C02")
def resource_comment(c):
    return c.resource(entry(c), rescomment=W("rescomment")), {"rescomment", "id"}


@scenario("C02")
def empty_resource_comment(c):
    return c.b.inst("Resource", format=NONE, sections=c.b.lst(), comment=W("rescomment"), meta=c.b.lst()), {"rescomment"}


@scenario("C05", alone=("xliff",))
def section_identifier(c):
    return c.resource(entry(c), secid=c.b.idv(1, "secid", "N")), {"secid", "id"}


@scenario("C05", alone=("xliff",))
def long_section_identifier(c):
    return c.resource(entry(c), secid=mk(("t", (STR_T, N("secid"))))), {"secid", "id"}


@scenario("C05")
def two_part_identifier(c):
    # the parts of an Android identifier name an array and the position of one of its items
    labels = {"id1", "value"} if c.fmt == "android" else {"id1", "id2", "value"}
    return c.resource(entry(c, id=mk(("t", (W("id1"), W("id2")))))), labels


@scenario("C05")
def three_part_identifier(c):
    return c.resource(entry(c, id=mk(("t", (W("id1"), W("id2"), W("id3")))))), {"id1", "id2", "id3", "value"}


def metakey(c, kind):
    # XLIFF metadata keys are paths of elements and @attributes
    return const("@foo") if c.fmt == "xliff" and kind != "res" else N("mkey")


@scenario("C05")
def entry_metadata(c):
    return c.resource(entry(c, meta=c.b.lst(must=[c.b.metadata(metakey(c, "entry"), W("mval"))]))), {"mval", "id", "value"}


@scenario("C05", alone=("xliff",))
def section_metadata(c):
    return c.resource(entry(c), secmeta=c.b.lst(must=[c.b.metadata(metakey(c, "section"), W("mval"))])), {"mval", "id"}


@scenario("C05")
def resource_metadata(c):
    return c.resource(entry(c), resmeta=c.b.lst(must=[c.b.metadata(metakey(c, "res"), W("mval"))])), {"mval", "id"}


@scenario("C05", skip=("android", "gettext", "xliff"))
def select_message(c):
    """Any select message, with one literal key and a catch-all, on any one selector."""
    b = c.b
    sel = N("sel")
    m = b.inst("SelectMessage", declarations=b.dct(must=[(sel, b.expression())]),
               selectors=mk(("t", (b.inst("VariableRef", name=sel),))),
               variants=b.dct(must=[(mk(("t", (STR,))), b.lst(must=[W("v1")])), (mk(("t", (b.catchall(),))), b.lst(must=[W("v2")]))]))
    return c.resource(entry(c, value=m)), {"v1", "v2", "id"}


def part(name, f, labels, **kw):
    def s(c):
        b = c.b
        ps = f(b)
        m = b.inst("PatternMessage", pattern=b.lst(must=ps if isinstance(ps, list) else [ps], elem=STR if c.neighbours else None), declarations=b.dct())
        ls = labels(c.fmt) if callable(labels) else labels
        return c.resource(entry(c, value=m)), set(ls) | {"id"}
    s.__name__ = name
    scenario("C04", **kw)(s)

    def after(c):
        b = c.b
        ps = f(b)
        ps = [W("before"), *(ps if isinstance(ps, list) else [ps]), W("behind")]
        if c.fmt in ("android", "xliff"):
            ps.insert(0, M(b, "standalone", name=const("x")))
        m = b.inst("PatternMessage", pattern=b.lst(must=ps), declarations=b.dct())
        ls = labels(c.fmt) if callable(labels) else labels
        return c.resource(entry(c, value=m)), {*ls, "id", "before", "behind"}
    after.__name__ = name + "_among_text"
    scenario("C04", **kw)(after)


def by_source(src, other):
    """Formats that keep the source of a placeholder write it; the others write its parts."""
    return lambda fmt: [other] if fmt == "fluent" else [src]


def expr_labels(*ls):
    """Android writes variables and literals, and leaves out their functions by design (they only say how it was parsed)."""
    return lambda fmt: [x for x in ls if x in ("var", "lit")] if fmt == "android" else ls


part("variable", lambda b: E(b, arg=b.inst("VariableRef", name=W("var"))), ["var"])
part("literal", lambda b: E(b, arg=W("lit")), ["lit"])
part("variable_function", lambda b: E(b, arg=b.inst("VariableRef", name=W("var")), function=N("fn")), expr_labels("var", "fn"))
part("literal_function", lambda b: E(b, arg=W("lit"), function=N("fn")), expr_labels("lit", "fn"))
part("function", lambda b: E(b, arg=NONE, function=N("fn")), ["fn"])
part("variable_with_source", lambda b: E(b, arg=b.inst("VariableRef", name=W("var")), function=NONE, attributes=b.dct(items={"source": W("src")})), by_source("src", "var"))
part("function_with_source", lambda b: E(b, arg=b.inst("VariableRef", name=W("var")), function=NOVEL, attributes=b.dct(items={"source": W("src")})), ["src"], skip=("fluent",))
part("literal_with_source", lambda b: E(b, arg=W("lit"), attributes=b.dct(items={"source": W("src")})), by_source("src", "lit"))
part("options", lambda b: E(b, arg=b.inst("VariableRef", name=W("var")), function=N("fn"), options=b.dct(must=[(N("oname"), W("oval"))])), expr_labels("var", "fn", "oname", "oval"))
part("attributes", lambda b: E(b, arg=b.inst("VariableRef", name=W("var")), function=N("fn"), attributes=b.dct(must=[(N("aname"), W("aval"))])), expr_labels("var", "fn"))
part("open_markup", lambda b: M(b, "open", name=N("mk")), ["mk"])
part("close_markup", lambda b: [M(b, "open", name=const("x")), W("text"), M(b, "close", name=const("x"))], ["text"])
part("unmatched_close_markup", lambda b: M(b, "close", name=N("mk")), ["mk"], skip=("xliff",))
part("standalone_markup", lambda b: M(b, "standalone", name=N("mk")), ["mk"])
part("open_markup_options", lambda b: M(b, "open", name=N("mk"), options=b.dct(must=[(N("oname"), W("oval"))])), ["mk", "oname", "oval"])
part("standalone_markup_options", lambda b: M(b, "standalone", name=N("mk"), options=b.dct(must=[(N("oname"), W("oval"))])), ["mk", "oname", "oval"])
part("open_markup_with_source", lambda b: M(b, "open", name=N("mk"), attributes=b.dct(items={"source": W("src")})), lambda fmt: ["mk"] if fmt in ("android", "xliff", "fluent") else ["src"])
part("text_and_variable", lambda b: [W("t1"), E(b, arg=b.inst("VariableRef", name=W("var")), attributes=b.dct(items={"source": W("src")})), W("t2")], lambda fmt: ["t1", "t2", "var" if fmt == "fluent" else "src"])
part("two_variables", lambda b: [E(b, arg=b.inst("VariableRef", name=W("var"))), E(b, arg=b.inst("VariableRef", name=W("var2")))], ["var", "var2"])
part("texts", lambda b: [W("t1"), W("t2")], ["t1", "t2"], alone=("fluent",))


def plural(c, parts, file=None, **k):
    """A number-selected message of two variants, the first of which holds the parts; `file` is the XLIFF file it is in."""
    b = c.b
    if c.fmt == "gettext":
        # the one plural form that every language has
        number = b.inst("Expression", arg=b.inst("VariableRef", name=N("sel")), function=const("number"), options=b.dct(), attributes=b.dct())
        m = b.inst("SelectMessage", declarations=b.dct(must=[(N("sel"), number)]), selectors=mk(("t", (b.inst("VariableRef", name=N("sel")),))),
                   variants=b.dct(must=[(mk(("t", (b.inst("CatchallKey", value=NONE),))), b.lst(must=parts))]))
        return c.resource(entry(c, value=m, **k))
    sel = const("n") if file else N("sel")
    v = b.inst("VariableRef", name=sel)
    m = b.inst("SelectMessage", declarations=b.dct(must=[(sel, b.inst("Expression", arg=v, function=const("number"), options=b.dct(), attributes=b.dct()))]),
               selectors=mk(("t", (b.inst("VariableRef", name=sel),))),
               variants=b.dct(must=[(mk(("t", (const("one"),))), b.lst(must=parts)), (mk(("t", (b.inst("CatchallKey", value=const("other")),))), b.lst(must=[W("v2")]))]))
    e = entry(c, value=m, **k)
    if file is None:
        return c.resource(e)
    s = b.section(id=mk(("t", (const("a." + file),))), must=[e])
    return b.inst("Resource", format=NONE, sections=b.lst(must=[s]), comment=const(""), meta=b.lst())


def variant(name, f, labels):
    for file in (None, "stringsdict", "xcstrings"):
        def s(c, file=file):
            ps = f(c.b)
            ps = ps if isinstance(ps, list) else [ps]
            ls = labels(c.fmt) if callable(labels) else labels
            ls = {*ls, "id", "v1", "v2", "v3"} - ({"v2"} if c.fmt == "gettext" else {"var"} if c.fmt == "fluent" else set())
            return plural(c, [W("v1"), *ps, W("v3")], file), ls
        s.__name__ = name + "_in_plural" + (f"_of_{file}" if file else "")
        scenario("C04", only=("xliff",) if file else None, skip=() if file else ("xliff",))(s)


variant("text", lambda b: [], [])
variant("variable", lambda b: E(b, arg=b.inst("VariableRef", name=W("var"))), ["var"])
variant("literal", lambda b: E(b, arg=W("lit")), ["lit"])
variant("function", lambda b: E(b, arg=NONE, function=N("fn")), ["fn"])
variant("literal_function", lambda b: E(b, arg=W("lit"), function=N("fn")), expr_labels("lit", "fn"))
variant("options", lambda b: E(b, arg=b.inst("VariableRef", name=W("var")), function=N("fn"), options=b.dct(must=[(N("oname"), W("oval"))])), expr_labels("var", "fn", "oname", "oval"))
variant("variable_with_source", lambda b: E(b, arg=b.inst("VariableRef", name=W("var")), function=NONE, attributes=b.dct(items={"source": W("src")})), by_source("src", "var"))
variant("standalone_markup", lambda b: M(b, "standalone", name=N("mk")), ["mk"])
variant("standalone_markup_options", lambda b: M(b, "standalone", name=N("mk"), options=b.dct(must=[(N("oname"), W("oval"))])), ["mk", "oname", "oval"])
variant("open_markup", lambda b: [M(b, "open", name=N("mk")), W("inner"), M(b, "close", name=N("mk"))], ["mk", "inner"])
variant("markup_with_source", lambda b: M(b, "standalone", name=N("mk"), attributes=b.dct(items={"source": W("src")})), lambda fmt: ["mk"] if fmt in ("android", "fluent") else [])


for _file in ("stringsdict", "xcstrings"):
    def _comment(c, file=_file):
        return plural(c, [W("v1")], file, comment=W("comment")), {"comment"}
    _comment.__name__ = "select_comment_of_" + _file
    scenario("C02", only=("xliff",))(_comment)

    def _plural(c, file=_file):
        return plural(c, [W("v1")], file), {"id", "v1", "v2"}
    _plural.__name__ = "plural_message_of_" + _file
    scenario("C03", only=("xliff",))(_plural)
