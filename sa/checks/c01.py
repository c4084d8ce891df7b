"""Trimmed output carries no comments: may-flow of labelled resource, section, standalone and entry comments to the output of every serializer with comment trimming requested, and must-pass of the trimming request in the build commands."""
from ..domain import *
from ..evalmod import Interp
from ..project import AnalysisBroken
from . import buildcalls
from ..scen import FORMATS, Ctx, W, entry

RULE = (
    "Abstract interpretation of every serializer from serialize_resource with trim_comments=True: each comment carries a label; "
    "the label may be in nothing that is yielded or put into the output tree. In the build commands, every call that reaches "
    "serialize_resource has to pass trim_comments=True."
)
ASSUMPTIONS = ["comments are words (processing directives of .inc files are comments starting with #)"]

LABELS = {"comment", "sec", "res"}


def cm(l):
    return strv("T", frozenset([l]), frozenset([l]))


def scenarios(c):
    b = c.b
    cm_ = W if c.fmt == "inc" else cm
    yield "entry_comment", lambda: c.resource(entry(c, comment=cm_("comment")))
    yield "standalone_comment", lambda: c.resource(b.inst("Comment", comment=cm_("comment"), linepos=NONE))
    yield "section_comment", lambda: c.resource(entry(c), seccomment=cm_("sec"))
    yield "empty_section_comment", lambda: c.resource(None, seccomment=cm_("sec"))
    yield "resource_comment", lambda: c.resource(entry(c), rescomment=cm_("res"))
    yield "string_entry_comment", lambda: c.resource(entry(c, value=W("value"), comment=cm_("comment")))
    if c.fmt in ("android", "xliff", "gettext", "fluent"):
        yield "plural_comment", lambda: c.resource(entry(c, value=b.select_message(), comment=cm_("comment")))
    if c.fmt == "android":
        yield "array_comment", lambda: c.resource(entry(c, id=mk(("t", (W("id"), W("id2")))), comment=cm_("comment")))
        yield "entity_comment", lambda: c.resource(entry(c, comment=cm_("comment")), secid=const(("!ENTITY",)))
    if c.fmt == "gettext":
        yield "translator_comment", lambda: c.resource(entry(c, meta=b.lst(must=[b.metadata(const("translator-comments"), cm_("comment"))])))
        yield "reference_comment", lambda: c.resource(entry(c, meta=b.lst(must=[b.metadata(const("reference"), cm_("comment"))])))
    if c.fmt == "xliff":
        yield "note", lambda: c.resource(entry(c, meta=b.lst(must=[b.metadata(const("note"), cm_("comment"))])))


def check(project, rep, tier):
    I = Interp(project).load_all()
    for fmt in FORMATS:
        some = False
        names = [n for n, _ in scenarios(Ctx(I, fmt, True))]
        for i, name in enumerate(names):
            for strict in (False, True):
                c = Ctx(I, fmt, True)
                f = list(scenarios(c))[i][1]
                kw = {"xliff_source_entries": TRUE if strict else BOOL} if fmt == "xliff" else {}
                o = c.run(f(), trim=TRUE, **kw)
                some = some or o.completes
                key = f"{fmt}:{name}"
                rep.saw("format x scenario", key)
                leak = sorted((o.may | o.emitted) & LABELS) if o.completes else []
                rep.decide(key, not leak, f"the {name.replace('_', ' ')} can reach the {fmt} output although comments are trimmed")
                if fmt != "xliff":
                    break
        if not some:
            raise AnalysisBroken(f"no completing path with trimmed comments found for {fmt}")
    rep.need("format x scenario", 60)
    buildcalls.trimmed(project, rep)
