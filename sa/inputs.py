"""Abstract inputs: resources, entries, messages of the data model, with labelled items.

A *generic* item stands for any number of arbitrary items; a *designated* item is definitely present and carries a label.
"""
from __future__ import annotations

from .domain import *
from .domain import V, Obj

MODEL = "moz.l10n.model:"
FORMAT = "moz.l10n.formats:Format"


class Build:
    def __init__(self, I, st=None):
        self.I = I
        self.st = st if st is not None else I.base.copy()
        self.n = 0
        for c in ("Resource", "Section", "Entry", "Comment", "Metadata", "PatternMessage", "SelectMessage", "Expression",
                  "Markup", "VariableRef", "CatchallKey"):
            if MODEL + c not in I.classes:
                from .project import AnalysisBroken
                raise AnalysisBroken(f"model class {c} not found")

    def alloc(self, obj):
        self.n += 1
        oid = f"in{self.n}"
        self.st.heap[oid] = obj
        return mk(("o", oid))

    def inst(self, cls, **attrs):
        ci = self.I.classes[MODEL + cls]
        names = [f[0] for f in ci.fields]
        for k in attrs:
            if k not in names:
                from .project import AnalysisBroken
                raise AnalysisBroken(f"{cls}.{k} is not a field of the data model")
        for n, ann, dflt in ci.fields:
            if n not in attrs:
                attrs[n] = TOP
        return self.alloc(Obj("inst", ci.full, attrs, owner="input"))

    def lst(self, must=(), elem=None):
        return self.alloc(Obj("list", elem=elem, must=tuple(must), owner="input"))

    def dct(self, must=(), ekey=None, elem=None, items=None):
        return self.alloc(Obj("dict", elem=elem, ekey=ekey, must=tuple(must), items=items or {}, owner="input"))

    def fmt(self, name):
        ci = self.I.classes.get(FORMAT)
        if ci is None or name not in ci.members:
            from .project import AnalysisBroken
            raise AnalysisBroken(f"Format.{name} not found")
        return ci.members[name]

    # ---- strings
    @staticmethod
    def s(kind="S", label=None):
        l = frozenset([label]) if label else EMPTY
        return strv(kind, l, l)

    # ---- data model
    def varref(self, label=None, kind="S"):
        return self.inst("VariableRef", name=self.s(kind, label))

    def options(self, label=None, must=()):
        g = join(STR if not label else self.s("?", None), self.varref())
        return self.dct(must=must, ekey=STR_T, elem=g)

    def attributes(self, must=(), items=None):
        return self.dct(must=must, ekey=STR_T, elem=join(STR, TRUE), items=items)

    def expression(self, arg=None, function=None, options=None, attributes=None):
        if arg is None:
            arg = join(join(STR, NONE), self.varref())
        if function is None:
            function = join(STR_T, NONE)
        return self.inst("Expression", arg=arg, function=function,
                         options=options if options is not None else self.options(),
                         attributes=attributes if attributes is not None else self.attributes())

    def markup(self, kind=None, name=None, options=None, attributes=None):
        if kind is None:
            kind = V(frozenset(const(x).atoms.__iter__().__next__() for x in ("open", "standalone", "close")))
        return self.inst("Markup", kind=kind, name=name if name is not None else STR_T,
                         options=options if options is not None else self.options(),
                         attributes=attributes if attributes is not None else self.attributes())

    def part(self):
        return join(join(STR, self.expression()), self.markup())

    def pattern(self, must=(), generic=True):
        return self.lst(must=must, elem=self.part() if generic else None)

    def declarations(self, must=(), generic=True):
        return self.dct(must=must, ekey=STR_T if generic else None, elem=self.expression() if generic else None)

    def pattern_message(self, must=(), generic=True, decl_must=(), pattern=None):
        return self.inst("PatternMessage", pattern=pattern if pattern is not None else self.pattern(must, generic),
                         declarations=self.declarations(must=decl_must, generic=generic))

    def catchall(self, value=None):
        return self.inst("CatchallKey", value=value if value is not None else join(STR, NONE))

    def variants(self, must=(), generic=True):
        return self.dct(must=must, ekey=mk(("tn", join(STR, self.catchall()), True)) if generic else None,
                        elem=self.pattern() if generic else None)

    def select_message(self, must=(), generic=True, decl_must=(), selectors=None):
        return self.inst("SelectMessage", declarations=self.declarations(must=decl_must, generic=generic),
                         selectors=selectors if selectors is not None else mk(("tn", self.varref(), True)),
                         variants=self.variants(must, generic))

    def message(self):
        return join(self.pattern_message(), self.select_message())

    def metadata(self, key=None, value=None):
        return self.inst("Metadata", key=key if key is not None else STR_T, value=value if value is not None else STR)

    def meta(self, must=(), generic=False):
        return self.lst(must=must, elem=self.metadata() if generic else None)

    def idv(self, n=None, label=None, kind="S"):
        """A tuple of id parts; n=None for any number >= 1."""
        l = frozenset([label]) if label else EMPTY
        x = strv(kind, l, l)
        if n is None:
            return mk(("tn", x, True))
        return mk(("t", tuple(x for _ in range(n))))

    def entry(self, id=None, value=None, comment=None, meta=None, properties=None, strval=False):
        if value is None:
            value = STR if strval else self.message()
        return self.inst("Entry", id=id if id is not None else self.idv(), value=value,
                         comment=comment if comment is not None else const(""),
                         meta=meta if meta is not None else self.meta(),
                         properties=properties if properties is not None else self.dct(),
                         linepos=NONE)

    def comment(self, label=None, kind="S"):
        return self.inst("Comment", comment=self.s(kind, label), linepos=NONE)

    def section(self, id=None, must=(), elem=None, comment=None, meta=None):
        return self.inst("Section", id=id if id is not None else mk(("t", ())), entries=self.lst(must, elem),
                         comment=comment if comment is not None else const(""),
                         meta=meta if meta is not None else self.meta(), linepos=NONE)

    def resource(self, must=(), elem=None, comment=None, meta=None, format=None):
        return self.inst("Resource", format=format if format is not None else NONE, sections=self.lst(must, elem),
                         comment=comment if comment is not None else const(""),
                         meta=meta if meta is not None else self.meta())
