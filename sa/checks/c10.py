"""Empty is not absent: what each serializer does for an empty operand, option, attribute or variant key is compared, exactly, with what it does where there is none."""
from __future__ import annotations

import ast

from ..domain import *
from ..domain import V
from ..evalmod import Interp
from ..inputs import Build
from ..chains import Chains, Runs
from ..interp import Dead, Hooks
from ..project import AnalysisBroken
from ..run import call, find_func

RULE = (
    "For each serializer (of each format, and of both JSON representations) and each place of a message that holds a string, the abstract interpreter follows the message with an empty string there, with nothing there (for attributes also: True), "
    "and with another string. Where all tests on the way are decided, the result and the calls made to libraries are known exactly. A violation: the place is written (another string there gives another result than nothing does), but the empty "
    "string completes with exactly the result of nothing, or of some other string constant that it was replaced with. The same of message_from_json() on JSON with and without empty strings, and of the dataclass equality of the model: "
    "no field is left out of the comparison."
)
ASSUMPTIONS = ["library calls with equal arguments in the same order have equal results", "where a test on the way is not decided (or the place raises), nothing is claimed"]
FMT = "moz.l10n.formats."
TEXT = "7x"
FUNCTIONS = (None, "number", "datetime", "string", "entity", "message", "html", "reference", "source", "x")


class Trace(Chains):
    def __init__(self):
        super().__init__(next(iter(Runs(1))))
        self.events, self.ids, self.why = [], {}, set()
        self.inside = False

    def of_library(self, I, F, node, st):
        """Whether what an undecided test asks is what a library returned (the same, after the same calls)."""
        if not isinstance(node, ast.AST):
            return False
        vs = []
        for n in ast.walk(node):
            if isinstance(n, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                return False
            if isinstance(n, ast.Name):
                try:
                    vs.append(I.eval(n, st.copy(), F))
                except Dead:
                    return False
        return any("library" in v.may or (self.dump(v, st) or [0])[0] == "ext" for v in vs) and all("library" in v.may or self.dump(v, st) is not None for v in vs)

    def truth_test(self, I, F, node, v, st):
        if len(I.truth(v, st)) > 1 and not self.of_library(I, F, node, st):
            self.why.add(f"{F.where(node)}: {ast.unparse(node)[:50] if isinstance(node, ast.AST) and hasattr(node, 'lineno') else '?'}")

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        if not dotted.startswith(("builtins.", "str.", "re.", "typing.", "dataclasses.", "collections.", "logging.", "bytes.", "dict.", "list.", "functools.", "copy.")):
            self.events.append((dotted, tuple(self.dump(a, st) for a in args), tuple((k, self.dump(a, st)) for k, a in sorted(kwargs.items(), key=lambda x: str(x[0])) if k != "nsmap")))
            if not self.inside:
                self.inside = True
                try:
                    r = I.call_ext1(dotted, args, kwargs, st, F, node) if dotted.startswith(("lxml.etree.tostring",)) else None
                finally:
                    self.inside = False
                return r if r is None else r.labelled({"library"})
        return super().call_ext(I, F, node, dotted, args, kwargs, st)

    def set_ext(self, I, F, node, oid, obj, attr, v, st):
        self.events.append(("set", self.dump(mk(("o", oid)), st), attr, self.dump(v, st)))

    def dump(self, v, st, seen=()):
        """A value as nested tuples; None if anything in it is unknown."""
        if v is None or len(v.atoms) != 1:
            return None
        (a,) = v.atoms
        if a[0] == "c":
            return ("c", a[1], a[2])
        if a[0] == "t":
            return self.seq("t", a[1], st, seen)
        if a[0] in ("k", "f", "m", "x", "e", "re"):
            return a
        if a[0] != "o":
            return None
        oid = a[1]
        if oid in seen:
            return ("again", len(seen) - seen.index(oid))
        o = st.heap[oid]
        seen = seen + (oid,)
        if o.summary or o.cmay and o.kind != "ext":
            return None
        if o.kind == "list":
            return None if o.elem is not None or o.flags & {"unordered", "split", "keys"} else self.seq("list", o.must, st, seen)
        if o.kind == "dict":
            if o.elem is not None or o.ekey is not None or "__factory__" in o.attrs:
                return None
            out = [(k, self.dump(x, st, seen)) for k, x in o.items.items()] + [(self.dump(k, st, seen), self.dump(x, st, seen)) for k, x in o.must]
            return None if any(None in x for x in out) else ("dict", *sorted(out, key=repr))
        if o.kind == "inst":
            out = [(k, self.dump(x, st, seen)) for k, x in sorted(o.attrs.items())]
            return None if any(None in x for x in out) else (o.cls, *out)
        if o.kind == "ext":
            if oid not in self.ids:
                self.ids[oid] = len(self.ids)
            return ("ext", o.cls, self.ids[oid])
        return None

    def seq(self, what, xs, st, seen):
        out = [self.dump(x, st, seen) for x in xs]
        return None if None in out else (what, *out)


def known(x):
    return x is not None and (not isinstance(x, tuple) or all(known(y) for y in x if isinstance(y, tuple) or y is None))


def expr(b, **k):
    return b.inst("Expression", **{"arg": NONE, "function": NONE, "options": b.dct(), "attributes": b.dct(), **k})


def markup(b, **k):
    return b.inst("Markup", **{"kind": const("standalone"), "name": const("m"), "options": b.dct(), "attributes": b.dct(), **k})


def pattern(b, around, *parts):
    return b.inst("PatternMessage", pattern=b.lst((const("a "), *parts, const(" b")) if around else parts), declarations=b.dct())


def some(b, key, v, **more):
    return b.dct(items={**more, **({} if v is None else {key: const(v)})})


def places():
    """(place, values that are not ""; builder of a message with one of them or an empty string there)"""
    for f in FUNCTIONS:
        fn = lambda f=f: NONE if f is None else const(f)  # noqa: E731
        w = f" of {f}" if f else ""
        for around in (False, True):
            z = w + (" within text" if around else "")
            if f is not None:
                yield f"operand{z}", (None,), lambda b, v, fn=fn, around=around: pattern(b, around, expr(b, arg=NONE if v is None else const(v), function=fn()))
            if f is not None or around:
                yield f"attribute{z}", (None, True), lambda b, v, fn=fn, around=around: pattern(b, around, expr(b, arg=const("x"), function=fn(), attributes=some(b, "t", v)))
                yield f"source{z}", (True,), lambda b, v, fn=fn, around=around: pattern(b, around, expr(b, arg=b.inst("VariableRef", name=const("v")), function=fn(), attributes=some(b, "source", v)))
            if f is not None:
                yield f"option{z}", (None,), lambda b, v, fn=fn, around=around: pattern(b, around, expr(b, arg=const("x"), function=fn(), options=some(b, "o", v)))
                yield f"option of a variable{z}", (None,), lambda b, v, fn=fn, around=around: pattern(b, around, expr(b, arg=b.inst("VariableRef", name=const("v")), function=fn(), options=some(b, "o", v)))
    yield "option of a translate=no span", (None,), lambda b, v: pattern(b, True, expr(
        b, arg=const("x"), function=const("xliff:g"), options=some(b, "id", v), attributes=b.dct(items={"translate": const("no")})))
    for kind in ("open", "standalone"):
        more = (lambda b: (const(" c"), markup(b, kind=const("close")))) if kind == "open" else (lambda b: ())
        yield f"{kind} markup option", (None,), lambda b, v, kind=kind, more=more: pattern(b, True, markup(b, kind=const(kind), options=some(b, "o", v)), *more(b))
        yield f"{kind} markup attribute", (None, True), lambda b, v, kind=kind, more=more: pattern(b, True, markup(b, kind=const(kind), attributes=some(b, "t", v)), *more(b))

    def select(b, v, catch=None):
        return b.inst("SelectMessage", declarations=b.dct(items={"d": expr(b, arg=b.inst("VariableRef", name=const("d")), function=const("number"))}), selectors=mk(("t", (b.inst("VariableRef", name=const("d")),))),
                      variants=b.dct(must=((mk(("t", (b.inst("CatchallKey", value=NONE) if v is None else const(v),))), b.lst((const("A"),))),
                                           (mk(("t", (b.inst("CatchallKey", value=NONE if catch is None else const(catch)),))), b.lst((const("B"),))))))
    yield "variant key", ("other", "default", None), select

    def declared(b, v, what):
        e = expr(b, arg=const("x") if what != "operand" else NONE if v is None else const(v), function=const("number"), options=some(b, "o", v) if what == "option" else b.dct(),
                 attributes=some(b, "t", v) if what == "attribute" else b.dct())
        return b.inst("PatternMessage", declarations=b.dct(items={"d": e}), pattern=b.lst((expr(b, arg=b.inst("VariableRef", name=const("d"))),)))
    yield "option of a Fluent function", (None,), lambda b, v: pattern(b, False, expr(
        b, arg=const("x"), function=const("fn"), options=some(b, "o", v), attributes=b.dct(items={"fluent-fn": const("FN")})))
    for what, non in (("operand", (None,)), ("option", (None,)), ("attribute", (None, True))):
        yield f"declared {what}", non, lambda b, v, what=what: declared(b, v, what)
    yield "text", (), lambda b, v: pattern(b, False, *(() if v is None else (const(v),)))


def writers(I):
    """(name, call of it with a message)"""
    ser = find_func(I, "moz.l10n.message.serialize:serialize_message")
    formats = [m for m in ("android", "fluent", "mf2", "webext", "xliff", "plain_json", "properties")]
    for f in formats:
        yield f"serialize_message({f})", lambda b, m, st, f=f: call(I, ser, [b.fmt(f), m], {}, st)
    ast_ = find_func(I, FMT + "fluent.serialize:fluent_astify_message")
    yield "fluent_astify_message", lambda b, m, st: call(I, ast_, [m], {}, st)
    for n in ("moz.l10n.message.to_json:message_to_json", FMT + "mf2.to_json:mf2_to_json"):
        fv = find_func(I, n)
        yield n.partition(":")[2], lambda b, m, st, fv=fv: call(I, fv, [m], {}, st)
    for f in ("android", "gettext", "xliff", "webext"):
        fv = find_func(I, f"{FMT}{f}.serialize:{f}_serialize")

        def res(b, m, st, fv=fv):
            e = b.entry(id=mk(("t", (const("k"),))), value=m, comment=const(""), meta=b.meta(), properties=b.dct())
            sec = b.section(id=mk(("t", ())), must=[e], comment=const(""), meta=b.meta())
            return call(I, fv, [b.inst("Resource", format=NONE, sections=b.lst((sec,)), comment=const(""), meta=b.meta())], {}, st, consume=True)
        yield f"{f}_serialize", res


def spaceless(x):
    """Text of MF2: what is between its tokens does not matter."""
    if isinstance(x, tuple):
        return tuple(a.replace(" ", "") if isinstance(a, str) and x[:2] == ("c", "str") and i == 2 else spaceless(a) for i, a in enumerate(x))
    return x


def outcome(I, run, make, v):
    h = Trace()
    I.hooks = h
    st = I.base.copy()
    b = Build(I, st)
    try:
        m = make(b, v)
        r = run(b, m, st)
    except AnalysisBroken:
        raise
    if not r.completes:
        return "raises", h.why
    if isinstance(r.value, tuple):
        elem, must = r.value
        val = None if elem is not None else h.seq("gen", must, r.state, ())
    else:
        val = h.dump(r.value, r.state)
        live = I.exact_list(r.value, r.state)
        if val is None and live is not None:
            val = h.seq("gen", live, r.state, ())
    return (val, tuple(h.events)), h.why


def exact(o, why):
    """Known exactly; text that comes from a library is given by the calls."""
    if o == "raises" or why:
        return False
    val, events = o
    return all(known(e) for e in events) and (val is not None or len(events) > 0)


def read_back(I):
    to, back = find_func(I, "moz.l10n.message.to_json:message_to_json"), find_func(I, "moz.l10n.message.from_json:message_from_json")

    def run(b, m, st):
        r = call(I, to, [m], {}, st)
        return call(I, back, [r.value], {}, r.state) if r.completes else r
    return run


def as_resource(b, m):
    e = b.entry(id=mk(("t", (const("k"),))), value=m, comment=const(""), meta=b.meta(), properties=b.dct())
    sec = b.section(id=mk(("t", ())), must=[e], comment=const(""), meta=b.meta())
    return b.inst("Resource", format=NONE, sections=b.lst((sec,)), comment=const(""), meta=b.meta())


def compared(I, rep, ps):
    eq = find_func(I, "moz.l10n.resource.l10n_equal:l10n_equal")
    for place, non, make in ps:
        for v in non:
            what = "nothing" if v is None else repr(v)
            I.hooks = h = Trace()
            st = I.base.copy()
            b = Build(I, st)
            x, y = make(b, ""), make(b, v)
            key = f"==:{place}:{what}"
            same = I.eq_vals(x, y, st)
            if same is None:
                rep.notes.append(f"{key}: not known")
            else:
                rep.decide(key, same is False, f"a message with an empty string as {place} is equal to one with {what} there")
            r = call(I, eq, [as_resource(b, x), as_resource(b, y)], {}, st)
            key = f"l10n_equal:{place}:{what}"
            if not r.completes or h.why or len(r.value.atoms) != 1:
                rep.notes.append(f"{key}: not known {sorted(h.why)[:2]}")
                continue
            rep.saw("comparisons", key)
            rep.decide(key, r.value == FALSE or r.value.atoms == FALSE.atoms, f"l10n_equal: a message with an empty string as {place} is equal to one with {what} there")


def check(project, rep, tier):
    I = Interp(project, Hooks())
    I.strict = True
    I.explicit_only = True
    I.generations = 8
    I.load_all()
    n = 0
    ps = list(places())
    for name, run in [*writers(I), ("message_from_json", read_back(I))]:
        rep.saw("serializers", name)
        for place, non, make in ps:
            oe, we = outcome(I, run, make, "")
            key = f"{name}:{place}"
            rep.saw("places", key)
            if oe == "raises":
                rep.ok(key + ":rejected")
                continue
            on, wn = outcome(I, run, make, TEXT)
            for v in (*non, *replaced(oe, on)):
                oa, wa = outcome(I, run, make, v)
                what = "nothing" if v is None else repr(v)
                k = f"{key}:{what}"
                if oa == "raises":
                    continue
                if not exact(oe, we) or not exact(oa, wa):
                    rep.notes.append(f"{k}: not decided: {sorted(we | wa)[:2] or 'not exact'}")
                    continue
                n += 1
                if "mf2)" in name:
                    oe, on, oa = map(spaceless, (oe, on, oa))
                rep.decide(k, oe != oa or on == oa, f"{name}: an empty string as {place} is written as if it were {what}")
    compared(I, rep, ps)
    rep.coverage = {"exact comparisons": n}
    if n < 300:
        raise AnalysisBroken(f"only {n} comparisons were exact")


def replaced(oe, on):
    """The strings in the result for an empty one that are not in that for another: it may have been replaced with one of them."""
    def strings(x, out):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "c" and isinstance(x[2], str):
                out.add(x[2])
            for y in x:
                strings(y, out)
        return out
    return sorted(strings(oe, set()) - strings(on, set()) - {""})[:3] if on != "raises" else []
