"""Comment text stays in comments: the text each serializer writes for an unknown comment is followed as a chain of string transducers and compared with the language of comment lines."""
from __future__ import annotations

import re

from ..chains import LINES, Chains, Runs, Undecided
from ..domain import *
from ..evalmod import Interp
from ..extsigs import canon
from ..inputs import Build
from ..par import parallel
from ..project import AnalysisBroken
from ..run import call, find_func
from ..rxnfa import NFA, Sim
from ..scen import SER
from ..xduce import TooLarge, Unsupported, search

RULE = (
    "Abstract interpretation of serialize_resource() on a resource holding one comment of unknown text (of the resource, a section, an entry, standalone, or in metadata written as a comment), once for each combination of answers "
    "to what the code asks about the text; operations on the text become transducers. Properties, ini, inc, DTD: the output, as an automaton, is included in the language of the same messages with comments and blank lines between "
    "them; raw text of XML formats in that of one XML comment. Elsewhere, the text may only reach library constructs that write comments: lxml Comment() or the text of <note>, comment fields of polib entries, without the line boundaries "
    "its parser has and its serializer does not prefix, comment classes of fluent.syntax, the description of a WebExtensions message."
)
ASSUMPTIONS = [
    "comments of up to three lines stand for all: each line is treated alike",
    "lxml rejects comments that are not well-formed, polib and fluent.syntax prefix each line after \\n, json.dumps() escapes strings",
]

FORMATS = ("properties", "ini", "inc", "dtd", "android", "xliff", "gettext", "fluent", "webext", "plain_json")
PLACES = ("resource", "section", "later section", "entry", "standalone", "last")
NL = "[" + re.escape(LINES) + "]"
XMLC = r"<!--(?:-?[^-])*-->"
LANG = {
    "properties": ("(?:[#!][^\n\r]*[\n\r]|[ \t\f]*[\n\r])*", r"{k}[ \t]*[=:][ \t]*{v}\n"),
    "ini": ("(?:[#;][^\n]*\n|\\s*\n)*", r"{k}[ \t]*[=:][ \t]*{v}\n"),
    "dtd": (r"(?:\s|" + XMLC + ")*", r"<!ENTITY\s+{k}\s+[\"']{v}[\"']\s*>\n"),
}
SECTION = {"ini": r"\[{s}\]\n"}


class Not(Sim):
    """What a does and b does not accept."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.n = type("", (), {"classes": list(a.n.classes) + list(b.n.classes), "pattern": f"{a.n.pattern} - {b.n.pattern}"})()

    def start(self):
        return (self.a.start(), self.b.start())

    def step(self, s, c):
        return (self.a.step(s[0], c), self.b.step(s[1], c))

    def accepts(self, s):
        return self.a.accepts(s[0]) and not self.b.accepts(s[1])

    def cuts(self, s):
        return self.a.cuts(s[0]) + self.b.cuts(s[1])


class CommentChains(Chains):
    def __init__(self, runs, fmt, rep):
        super().__init__(runs)
        self.fmt, self.found, self.sinks = fmt, [], set()
        self.tags = {}

    def tokens_of(self, v):
        return [a[2] for a in v.atoms if a[0] == "c" and isinstance(a[2], str) and has_token(a[2])]

    def holds(self, I, v, st, seen=None):
        """Strings with the comment in a value or what it refers to."""
        out = list(self.tokens_of(v))
        seen = seen if seen is not None else set()
        for a in v.atoms:
            if a[0] == "t":
                for x in a[1]:
                    out += self.holds(I, x, st, seen)
            elif a[0] == "o" and a[1] not in seen:
                seen.add(a[1])
                o = st.heap[a[1]]
                if o.kind == "ext":
                    continue
                for x in [o.elem, *o.must] + list((o.items or {}).values()) + list(o.attrs.values()):
                    if isinstance(x, tuple):
                        for y in x:
                            out += self.holds(I, y, st, seen)
                    elif x is not None:
                        out += self.holds(I, x, st, seen)
        return out

    def sink(self, where, ok, key, text):
        self.sinks.add(key)
        if not ok:
            self.found.append((key, where, text))

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        name = dotted.rpartition(".")[2]
        w = F.where(node)
        if dotted.startswith("lxml.etree."):
            if name in ("SubElement", "Element"):
                t = args[1] if name == "SubElement" and len(args) > 1 else args[0] if args else kwargs.get("_tag")
                tag = next(iter(t.atoms))[2] if t is not None and len(t.atoms) == 1 and next(iter(t.atoms))[0] == "c" else None
                self.tags[I.site(F, node)] = tag
            if name in ("XML", "fromstring"):
                for v in args[:1]:
                    if self.tokens_of(v):
                        self.sink(w, False, f"{name}()", "is parsed as markup")
        elif dotted.startswith("fluent.syntax."):
            c = canon(dotted).rpartition(".")[2]
            for v in list(args) + list(kwargs.values()):
                for s in self.tokens_of(v):
                    self.sink(w, c.endswith("Comment"), c, f"becomes the content of {c}()")
        elif dotted in ("json.dumps", "json.dump") and args:
            self.json(I, args[0], st, w, None)
        return super().call_ext(I, F, node, dotted, args, kwargs, st)

    def json(self, I, v, st, w, key, seen=frozenset()):
        for s in self.tokens_of(v):
            self.sink(w, key == "description", f"JSON {key}", f"becomes the value of {key!r}")
        for a in v.atoms:
            if a[0] == "o" and a[1] not in seen:
                o = st.heap[a[1]]
                for k, x in (o.items or {}).items():
                    if isinstance(k, str) and has_token(k):
                        self.sink(w, False, "JSON key", "becomes a key")
                    self.json(I, x, st, w, k, seen | {a[1]})
                if o.ekey is not None and self.tokens_of(o.ekey):
                    self.sink(w, False, "JSON key", "becomes a key")
                if o.elem is not None and o.ekey is not None and all(k[0] == "c" for k in o.ekey.atoms):
                    for k in sorted(o.ekey.atoms, key=str):
                        self.json(I, o.elem, st, w, k[2], seen | {a[1]})
                for x in o.must:
                    if isinstance(x, tuple):
                        if self.tokens_of(x[0]):
                            self.sink(w, False, "JSON key", "becomes a key")
                        k = next(iter(x[0].atoms)) if len(x[0].atoms) == 1 else ("?",)
                        self.json(I, x[1], st, w, k[2] if k[0] == "c" else "unknown key", seen | {a[1]})
                    else:
                        self.json(I, x, st, w, key, seen | {a[1]})

    def set_ext(self, I, F, node, oid, obj, attr, v, st):
        ts = self.tokens_of(v)
        if not ts or not obj.cls:
            return
        w = F.where(node)
        if obj.cls.startswith("lxml"):
            if attr in ("text", "tail"):
                tag = next((t for k, t in self.tags.items() if oid.startswith(k)), None)
                what = obj.cls.rpartition(".")[2]
                ok = attr == "text" and (what == "Comment" or tag is None and what != "Element" and what != "SubElement"
                                         or isinstance(tag, str) and tag.rpartition("}")[2] == "note" or tag is None)
                self.sink(w, ok, f"{tag or what}.{attr}", f"becomes the {attr} of {'<' + tag + '>' if tag else what + '()'}")
        elif obj.cls.startswith("polib"):
            if attr in ("comment", "tcomment", "header"):
                for s in ts:
                    self.polib(s, attr, w)
            else:
                self.sink(w, False, f"polib {attr}", f"becomes the {attr} of {obj.cls}")
        elif obj.cls.startswith("fluent."):
            self.sink(w, obj.cls.endswith("Comment"), f"{obj.cls.rpartition('.')[2]}.{attr}", f"becomes the {attr} of {obj.cls}")

    def polib(self, s, attr, w):
        try:
            x = search(self.segments(s), Sim(NFA(f"(?:\n|[^{re.escape(LINES)}])*")))
        except (Unsupported, TooLarge):
            return
        self.sink(w, x is None, f"polib {attr}",
                  x and f"{x[0]!r} is given to polib as {x[1]!r} for its {attr}, and only lines after \\n are prefixed as comments, while others are parsed as lines of their own")

    def segments(self, s):
        return [p if isinstance(p, str) else self.stages(p) for p in self.parts(s)]


def make(b, h, fmt, place):
    c = h.token()
    no = const("")

    def E(n, comment=no, meta=None):
        ids = (const(f"k{n}"),)
        return b.entry(id=mk(("t", ids)), value=const(f"v{n}") if place == "string entry" else b.inst("PatternMessage", pattern=b.lst((const(f"v{n}"),)), declarations=b.dct()),
                       comment=comment, meta=meta if meta is not None else b.meta(), properties=b.dct())

    def S(n, items, comment=no):
        sid = mk(("t", (const(f"s{n}"),))) if fmt in ("xliff", "ini") else mk(("t", ()))
        return b.section(id=sid, must=items, comment=comment)

    items = [E(0)]
    if place == "standalone":
        items.append(b.inst("Comment", comment=c, linepos=NONE))
    if place.startswith("metadata"):
        items.append(E(1, meta=b.meta(must=[b.metadata(const(place[9:]), c)])))
    else:
        items.append(E(1, c if place == "entry" else no))
    if place == "last":
        items.append(b.inst("Comment", comment=c, linepos=NONE))
    secs = [S(0, items, c if place == "section" else no)]
    secs.append(S(1, [E(2, c if place in ("last entry", "string entry") else no)], c if place == "later section" else no))
    meta = b.meta()
    if place.startswith("resource metadata"):
        meta = b.meta(must=[b.metadata(const(place[18:]), c)])
    return b.inst("Resource", format=NONE, sections=b.lst(secs), comment=c if place == "resource" else no, meta=meta)


def language(fmt):
    if fmt not in LANG:
        return None
    gap, item = LANG[fmt]
    e = [item.replace("{k}", f"k{i}").replace("{v}", f"v{i}") for i in range(3)]
    s = [SECTION[fmt].replace("{s}", f"s{i}") for i in range(2)] if fmt in SECTION else ["", ""]
    return Sim(NFA(gap + s[0] + gap + e[0] + gap + e[1] + gap + s[1] + gap + e[2] + gap))


def judge(h, fmt, chunks):
    """(None, or what is wrong), or raises Undecided"""
    text = "".join(chunks)
    if fmt in LANG:
        w = search(h.segments(text), language(fmt))
        return w and f"the comment {w[0]!r} is written as {w[1]!r}"
    if fmt == "inc":
        for i in range(3):
            d = f"#define k{i} v{i}\n"
            if text.count(d) != 1:
                raise Undecided("a message is not written as expected")
            text = text.replace(d, "\n")
        lines = Sim(NFA(f"(?:#[^{LINES}]*{NL}|[ \t]*{NL})*"))
        define = Sim(NFA(f"(?:(?:.|\n)*{NL})?#define[ \t]+\\w+(?:[ \t][^{LINES}]*)?{NL}(?:.|\n)*"))
        w = search(h.segments(text), Not(lines, define))
        return w and f"the comment {w[0]!r} is written as {w[1]!r}"
    if fmt in ("android", "xliff"):
        for c in chunks:
            if has_token(c):
                w = search(h.segments(c), Sim(NFA(r"\s*" + XMLC + r"\s*")))
                if w:
                    return f"the comment {w[0]!r} is written as {w[1]!r}"
        return None
    return "unescaped text of a comment is written: " + repr(text) if has_token(text) and fmt in ("gettext", "fluent", "webext", "plain_json") else None


def examine(rep, I, fmt, place, limit):
    fv = find_func(I, SER)
    runs = Runs(limit)
    key = f"{fmt}:{place}"
    decided = undecided = rejected = 0
    sinks = set()
    bad = None
    why = set()
    for run in runs:
        h = CommentChains(run, fmt, rep)
        I.hooks = h
        st = I.base.copy()
        b = Build(I, st)
        try:
            res = make(b, h, fmt, place)
            kw = {"trim_comments": FALSE}
            if fmt == "xliff":
                kw["xliff_source_entries"] = TRUE
            r = call(I, fv, [res, b.fmt(fmt)], kw, st, consume=True)
            sinks |= h.sinks
            if h.found:
                k, w, t = h.found[0]
                bad = f"{w}: the text of a comment ({place}) {t}"
                break
            if not r.completes:
                rejected += 1
                continue
            elem, must = r.value
            chunks = []
            for x in ([elem] if elem is not None else []) + list(must):
                a = next(iter(x.atoms)) if len(x.atoms) == 1 else ("?",)
                if a[0] == "c" and isinstance(a[2], str):
                    chunks.append(a[2])
                elif fmt in LANG or fmt == "inc":
                    raise Undecided("text that is not followed")
                else:
                    for s in h.tokens_of(x):
                        chunks.append(s)
            if elem is not None and (fmt in LANG or fmt == "inc"):
                raise Undecided("an unknown number of chunks")
            w = judge(h, fmt, chunks)
            if w:
                bad = f"serialize_resource({fmt}), {place}: {w}"
                break
            decided += 1
        except (Unsupported, TooLarge, Undecided) as e:
            undecided += 1
            why.add(str(e))
    rep.saw("outcomes followed", *(f"{key}#{i}" for i in range(decided + rejected)))
    if decided:
        rep.saw("places", key)
    for s in sinks:
        rep.saw("constructs given comment text", f"{fmt}: {s}")
    if undecided or not runs.complete:
        rep.notes.append(f"{key}: {undecided} outcomes undecided{'' if runs.complete else ', not all explored'} ({', '.join(sorted(why))[:100]})")
    if bad:
        rep.bad(key, bad)
    elif decided or rejected:
        rep.ok(key)


def jobs(tier):
    for fmt in FORMATS:
        for place in PLACES:
            yield fmt, place
        yield fmt, "last entry"
        yield fmt, "string entry"
    yield "gettext", "metadata translator-comments"
    yield "fluent", "resource metadata info"
    yield "xliff", "metadata note"
    yield "xliff", "metadata comment()"


def check(project, rep, tier):
    I = Interp(project).load_all()
    limit = 400 if tier == "quick" else 3000
    parallel(rep, lambda r, j: examine(r, I, j[0], j[1], limit), list(jobs(tier)))
    rep.need("outcomes followed", 40)
    rep.need("places", 15)
