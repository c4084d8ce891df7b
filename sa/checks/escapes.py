"""Escaping, for the formats that are not written as plain text: what reaches each place of the tree given to the serializer of the format."""
from __future__ import annotations

from .. import xduce
from ..chains import Chains, Runs, Undecided
from ..domain import *
from ..inputs import Build
from ..run import call, find_func
from ..rxnfa import NFA, Sim
from ..xduce import RegexSub, TooLarge, Unsupported, differs, search

FMT = "moz.l10n.formats."
ALL = r"(?:.|\n)*"

# ---- Android: text of elements, all in one line, where spaces are collapsed and those at the ends dropped
UNIT = r"""(?:\\u[0-9a-fA-F]{4}|\\[nt'"\\@?]|[^\x00-\x20\x7f-\x9f\\'"\s])"""
FIRST = r"""(?:\\u[0-9a-fA-F]{4}|\\[nt'"\\@?]|[^\x00-\x20\x7f-\x9f\\'"\s@?])"""
AVALUE = rf"(?:{FIRST}(?: ?{UNIT})*)?"
AINNER = rf" ?(?:{UNIT} ?)*"
ALAST = rf"(?: ?{UNIT})*"
AHEAD = rf"(?:{FIRST}(?: ?{UNIT})* ?)?"
CDATA = (NFA(r"<!\[CDATA\[(?:.|\n)*\]\]>"), NFA(r"(?:.|\n)*\]\]>(?:.|\n)+"))
ENTITY = r"""\s*<!ENTITY k "(?:[^&%"]|&[a-z]+;|&#[0-9]+;)*">\s*"""


def unescape_android(m):
    return chr(int(m[1], 16)) if m[1] else {"n": "\n", "t": "\t"}.get(m[2], m[2])


# ---- Fluent: text elements and string literals
FTEXT = "(?:\n *[^*.\\[{}\r\v\f\x1c-\x1e\x85\u2028\u2029 ]|[^{}\r\v\f\x1c-\x1e\x85\u2028\u2029\n])*\n? *"
FSTR = '(?:[^\\\\"\x00-\x1f\x7f-\x9f\u2028\u2029]|\\\\["\\\\]|\\\\u[0-9A-Fa-f]{4}|\\\\U[0-9A-Fa-f]{6})*'
FLUENT = {
    "TextElement.value": (NFA("(?:[^{}\r\v\f\x1c-\x1e\x85\u2028\u2029])*"), NFA(ALL + r"\n *[*.[]" + ALL)),
    "StringLiteral.value": (NFA(FSTR), None),
    "NumberLiteral.value": (NFA(r"-?[0-9]+(?:\.[0-9]+)?"), None),
    "Identifier.name": (NFA("[a-zA-Z][a-zA-Z0-9_-]*"), None),
}


def unescape_fluent(m):
    return chr(int(m[1] or m[2], 16)) if m[1] or m[2] else m[3]


WTEXT = r"(?:[^$]|\$\$+)*"


class Sinks(Chains):
    """Notes the strings that reach the places of an XML or Fluent tree when it is written."""

    def __init__(self, run, fmt):
        super().__init__(run)
        self.fmt, self.found, self.source = fmt, [], None

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        name = dotted.rpartition(".")[2]
        if self.fmt == "android" and name == "tostring" and args:
            self.collect(I, args[0], st, ("text", "tail"))
            return const("")
        if self.fmt == "fluent" and dotted.startswith("fluent.syntax.") and (name.startswith("serialize")):
            for v in args:
                self.collect(I, v, st, ("value", "name", "content"))
            return const("")
        if self.source is not None and name == "fromstring" and dotted.startswith("lxml."):
            v = I.lxml_func("Element", [const("string")], {}, st, F, node)
            I.set_attr(v, "text", const(self.source), st, F, node)
            return v
        return super().call_ext(I, F, node, dotted, args, kwargs, st)

    def collect(self, I, v, st, attrs):
        seen, todo = set(), [v]
        while todo:
            v = todo.pop()
            for a in v.atoms:
                if a[0] in ("t", "tn"):
                    todo += list(a[1]) if a[0] == "t" else [a[1]]
                if a[0] != "o" or a[1] in seen:
                    continue
                seen.add(a[1])
                o = st.heap[a[1]]
                for k, x in o.attrs.items():
                    todo.append(x)
                    if k in attrs and o.kind == "ext":
                        tag = o.attrs.get("__tag__", BOTTOM)
                        tag = next((t[2] for t in tag.atoms if t[0] == "c"), "")
                        for y in x.atoms:
                            if y[0] == "c" and isinstance(y[2], str) and has_token(y[2]):
                                self.found.append((o.cls.rpartition(".")[2], tag, k, y[2]))
                            if y[0] == "o" and (st.heap[y[1]].cls or "").endswith("CDATA"):
                                for t in st.heap[y[1]].attrs.values():
                                    self.found += [("CDATA", tag, k, z[2]) for z in t.atoms if z[0] == "c" and isinstance(z[2], str) and has_token(z[2])]
                todo += [x for x in (o.elem, *[y for y in o.must if not isinstance(y, tuple)]) if x is not None]


def android_message(b, place, c):
    k, v = const("x"), const("y")
    E = lambda arg, **kw: b.inst("Expression", arg=arg, function=NONE, options=b.dct(), attributes=b.dct(items=kw))  # noqa: E731
    M = lambda kind: b.inst("Markup", kind=const(kind), name=const("b"), options=b.dct(), attributes=b.dct())  # noqa: E731
    pat = {
        "part": (k, c, v),
        "after markup": (M("open"), k, M("close"), c),
        "in markup": (M("open"), c, M("close"), v),
        "before markup": (c, M("open"), k, M("close")),
        "expression": (E(c),),
        "untranslated": (k, E(c, translate=const("no")), v),
    }.get(place, (c,))
    if place == "string":
        return c
    if place == "plural item":
        n = b.inst("Expression", arg=b.inst("VariableRef", name=const("n")), function=const("number"), options=b.dct(), attributes=b.dct())
        return b.inst("SelectMessage", declarations=b.dct(items={"n": n}), selectors=mk(("t", (b.inst("VariableRef", name=const("n")),))),
                      variants=b.dct(must=[(mk(("t", (const("other"),))), b.lst(pat))]))
    return b.inst("PatternMessage", pattern=b.lst(pat), declarations=b.dct())


ANDROID = {
    "value": (AVALUE, "text"), "string": (AVALUE, "text"), "part": (AVALUE, "text"), "array item": (AVALUE, "text"), "plural item": (AVALUE, "text"),
    "after markup": (ALAST, "tail"), "in markup": (AINNER, "text"), "before markup": (AHEAD, "text"), "expression": (AVALUE, "text"), "untranslated": (AINNER, "text"),
    "entity": (ENTITY, None),
}


def android_place(h, I, st, place):
    from .c26 import Not
    b = Build(I, st)
    c = h.token()
    ids = (const("k"), const("0")) if place == "array item" else (const("k"),)
    if place == "entity":
        e = b.entry(id=mk(("t", ids)), value=b.inst("PatternMessage", pattern=b.lst((c,)), declarations=b.dct()), meta=b.meta())
        sec = b.section(id=mk(("t", (const("!ENTITY"),))), must=[e])
    else:
        e = b.entry(id=mk(("t", ids)), value=android_message(b, place, c), meta=b.meta())
        sec = b.section(id=mk(("t", ())), must=[e])
    r = call(I, find_func(I, FMT + "android.serialize:android_serialize"), [b.inst("Resource", format=NONE, sections=b.lst((sec,)), comment=const(""), meta=b.meta())], {}, st, consume=True)
    if not r.completes:
        return False
    lang, where = ANDROID[place]
    if place == "entity":
        elem, must = r.value
        for x in must:
            for a in x.atoms:
                if a[0] == "c" and isinstance(a[2], str) and has_token(a[2]):
                    yield place, a[2], Sim(NFA(lang)), None
        return True
    dec = [RegexSub(r"\\u([0-9a-fA-F]{4})|\\((?:.|\n))", 0, unescape_android)]
    dec[0].spread = True
    for cls, tag, k, s in dict.fromkeys(h.found):
        if cls == "CDATA":
            yield f"CDATA of <{tag}>", s, Not(Sim(CDATA[0]), Sim(CDATA[1])), None
        elif k == where:
            yield f"{k} of <{tag}>", s, Sim(NFA(lang)), dec
        else:
            yield f"{k} of <{tag}>", s, Sim(NFA("(?!)")), None
    return True


FPLACES = ("value", "part", "attribute", "select variant", "expression", "option")


def fluent_place(h, I, st, place):
    from .c26 import Not
    b = Build(I, st)
    c, v = h.token(), const("v")
    E = lambda arg, fn=None, opts={}, **kw: b.inst("Expression", arg=arg, function=NONE if fn is None else const(fn), options=b.dct(items=opts), attributes=b.dct(items=kw))  # noqa: E731
    P = lambda *xs: b.inst("PatternMessage", pattern=b.lst(xs), declarations=b.dct())  # noqa: E731
    props = {}
    val = P(v)
    if place == "attribute":
        props = {"a": P(c)}
    elif place == "select variant":
        n = b.inst("VariableRef", name=const("n"))
        sel = E(n, "number")
        val = b.inst("SelectMessage", declarations=b.dct(items={"n": sel}), selectors=mk(("t", (n,))),
                     variants=b.dct(must=[(mk(("t", (b.inst("CatchallKey", value=const("other")),))), b.lst((c,)))]))
    elif place == "expression":
        val = P(v, E(c))
    elif place == "option":
        val = P(E(b.inst("VariableRef", name=const("n")), "number", {"style": c}))
    else:
        val = P(*{"value": (c,), "part": (const("x"), c, const("y"))}[place])
    e = b.entry(id=mk(("t", (const("k"),))), value=val, meta=b.meta(), properties=b.dct(items=props))
    sec = b.section(id=mk(("t", ())), must=[e])
    r = call(I, find_func(I, FMT + "fluent.serialize:fluent_serialize"), [b.inst("Resource", format=NONE, sections=b.lst((sec,)), comment=const(""), meta=b.meta())], {}, st, consume=True)
    if not r.completes:
        return False
    dec = [RegexSub(r'\\u([0-9A-Fa-f]{4})|\\U([0-9A-Fa-f]{6})|\\((?:.|\n))', 0, unescape_fluent)]
    dec[0].spread = True
    for cls, tag, k, s in dict.fromkeys(h.found):
        what = f"{cls}.{k}"
        if what in FLUENT:
            lang, bad = FLUENT[what]
            good = Sim(lang)
            if bad is not None:
                good = Not(good, Sim(bad))
            yield what, s, good, dec if what == "StringLiteral.value" else None
            if what == "TextElement.value" and place in ("value", "attribute", "select variant"):
                ps = h.parts(s)
                if len(ps) == 1 and not any(o[0] == "factor" for o in ps[0].ops):
                    yield "a whole pattern", s, Sim(NFA("(?:[^ \n](?:(?:.|\n)*[^ \n])?)")), None
    return True


def webext_place(h, I, st, place):
    b = Build(I, st)
    c = h.token()
    pat = {"value": (c,), "part": (const("x"), c, const("y"))}[place]
    r = call(I, find_func(I, FMT + "webext.serialize:webext_serialize_message"), [b.inst("PatternMessage", pattern=b.lst(pat), declarations=b.dct())], {}, st)
    if not r.completes:
        return False
    dec = [RegexSub(r"\$(\$+)", 0, lambda m: m[1])]
    for a in r.value.atoms:
        for x in a[1][0].atoms if a[0] == "t" else ():
            if x[0] == "c" and isinstance(x[2], str) and has_token(x[2]):
                yield "the message", x[2], Sim(NFA(WTEXT)), dec
    return True


PLACES = {"android": (tuple(ANDROID), android_place), "fluent": (FPLACES, fluent_place), "webext": (("value", "part"), webext_place)}


def place(rep, I, fmt, where, limit):
    key = f"{fmt}:{where}"
    runs = Runs(limit)
    xduce.reset(full=True)
    seen = rejected = 0
    fail, why = None, set()
    for run in runs:
        h = Sinks(run, fmt)
        I.hooks = h
        xduce.reset()
        st = I.base.copy()
        try:
            any_ = 0
            for what, s, good, dec in PLACES[fmt][1](h, I, st, where):
                any_ += 1
                ps = h.parts(s)
                w = search([p if isinstance(p, str) else h.stages(p) for p in ps], good)
                if w:
                    if any(o[0] == "factor" and o[3:] for p in ps if not isinstance(p, str) for o in p.ops):
                        why.add("a part from somewhere in the string")
                        continue
                    fail = f"{w[0].replace('|', '')!r} is written as {w[1]!r} ({what})"
                    break
                ts = [i for i, p in enumerate(ps) if not isinstance(p, str)]
                if dec and len(ts) == 1:
                    a, z = "".join(ps[:ts[0]]), "".join(ps[ts[0] + 1:])
                    w = differs(h.stages(ps[ts[0]]), dec, pre=a, post=z, before=decoded(dec, a), after=decoded(dec, z)) if not cut(ps[ts[0]]) else None
                    if w:
                        fail = f"{w[0]!r} is written so that {w[1][0]!r} is read where {w[1][1]!r} should be ({what})"
                        break
            if fail:
                break
            if any_:
                seen += 1
            else:
                rejected += 1
        except (Unsupported, TooLarge, Undecided) as e:
            why.add(str(e))
    rep.saw("outcomes followed", *(f"{key}#{i}" for i in range(seen + rejected)))
    if seen:
        rep.saw("places", key)
    if why or not runs.complete:
        rep.notes.append(f"{key}: {'' if runs.complete else 'not all outcomes explored; '}undecided: {', '.join(sorted(why))[:200]}")
    if fail:
        rep.bad(key, f"{fmt} serializer: in the {where}, {fail}")
    elif seen or rejected:
        rep.ok(key)


def cut(tok):
    """Whether a part of the string was taken: what is around it is then a part of it as well."""
    return any(o[0] in ("slice", "strip", "factor") for o in tok.ops)


def decoded(dec, s):
    out = ""
    q = xduce.pstart(dec)
    for c in s:
        ((q, o),) = xduce.pstep(dec, q, c)
        out += o
    (o,) = xduce.pend(dec, q)
    return out + o


# ---- how the parsers read escapes
READ = {
    "android": ("android.parse:android_parse_message", {
        r"a\nb": "a\nb", r"a\tb": "a\tb", r"a\'b": "a'b", r"a\"b": 'a"b', r"a\\b": "a\\b", r"\u0040a": "@a", r"\@a": "@a", r"\?a": "?a", r"\u003fa": "?a", r"\u0020": " ",
        r"a\u00a0b": "a\xa0b", r"a\u2028b": "a\u2028b", r"a\u000bb": "a\vb", r"a\u009Fb": "a\x9fb", r"a\\nb": "a\\nb", r"a\\\'b": "a\\'b", r"a\\\"b": 'a\\"b', r"a\\u0020": "a\\u0020",
        r"a \u0020b": "a  b", r"a\u0020": "a ", r"a b": "a b",
    }),
    "webext": ("webext.parse:webext_parse_message", {"$$": "$", "$$$": "$$", "a$$b": "a$b", "$$1": "$1", "$$$1": "$$1", "$$a$$": "$a$", "a": "a", "a$$b$$$c": "a$b$$c", "$$$$": "$$$"}),
}


def read(rep, I, fmt):
    name, table = READ[fmt]
    fv = find_func(I, FMT + name)
    for src, want in table.items():
        key = f"{fmt} reads {src!r}"
        got = None
        for run in Runs(1):
            h = Sinks(run, None)
            h.source = src
            I.hooks = h
            st = I.base.copy()
            try:
                r = call(I, fv, [const(src)] + ([NONE] if fmt == "webext" else []), {}, st)
            except (Unsupported, Undecided):
                continue
            if not r.completes:
                got = "an error"
                continue
            got = text_of(I, r)
        if got is None:
            rep.notes.append(f"{key}: not followed")
            continue
        rep.saw("escapes read", key)
        if got != want:
            rep.bad(key, f"{fv and name}(): {src!r} is read as {got!r}, not {want!r}")
        else:
            rep.ok(key)


def text_of(I, r):
    out = []
    for a in r.value.atoms:
        if a[0] != "o":
            return None
        for l in r.state.heap[a[1]].attrs.get("pattern", BOTTOM).atoms:
            if l[0] != "o":
                return None
            o = r.state.heap[l[1]]
            if o.elem is not None:
                return None
            t = ""
            for x in o.must:
                (y,) = x.atoms if len(x.atoms) == 1 else (("?",),)
                if y[0] != "c" or not isinstance(y[2], str):
                    return None
                t += y[2]
            out.append(t)
    return out[0] if len(out) == 1 else None
