"""Escaping: what each serializer writes for an unknown string, as a transducer, stays in the language of that place of the format, and the transducer of the parser gets the same string back."""
from __future__ import annotations

import re

from ..chains import Chains, Runs, Undecided
from ..domain import *
from ..evalmod import Interp
from ..inputs import Build
from ..par import parallel
from ..run import call, find_func
from ..rxnfa import NFA, Sim
from .. import xduce
from ..xduce import Filter, Side, Stage, TooLarge, Unsupported, differs, nonempty, search
from . import escapes
from .c26 import Not

RULE = ("Each unknown string given to a serializer is followed as a transducer over character classes, once for each way its tests of the string can come out; "
        "what is written must be in the lexical language of that place of the format, and what the parser does to text (its unescaping, followed in the same way) must give the same string back.")
ASSUMPTIONS = [
    "One unknown string per output; the other strings of the resource are plain constants.",
    "A match of unbounded width of a pattern replaced with re.sub() is followed for up to 5 characters.",
    "The lexical languages of the formats are those of the tables of the check, written from the formats' documentation and parsers.",
]
FMT = "moz.l10n.formats."

# ---- formats written as text
QN = r"(?:\\[^\n\r]|[^\\\n\r\t\f =:])"
PKEY = rf"(?:(?:\\[^\n\r]|[^\\\n\r\t\f =:#!]){QN}*)?"
PVAL = r"(?:\\[^\n\r]|[^\\\n\r])*"
PSEP = r"[ \t\f]*[=:][ \t\f]*"
from_dtd = ":A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd"
DNAME = f"[{from_dtd}][{from_dtd}" + r"\-.0-9" + "\xb7\u0300-\u036f\u203f-\u2040]*"
DQ = """(?:"[^"]*"|'[^']*')"""
IID = r"(?:[^\s#;:=\n\[\]\\](?:[^\n:=\[\]]*[^\s:=\[\]])?|\\(?:[^\n:=\[\]]*[^\s:=\[\]])?)"
IVAL = r"(?:[^;\n]*|;[^\n]*|[^;\n]*[^;\s];[^\n]*)\n(?:[ \t][^\n]*\n|\n)*"
IREM = r"\[s\]\n[rR][eE][mM]\s(?:.|\n)*"
ICOMMENT = r"\[s\]\nk=[^;\n]*\s;(?:.|\n)*"
COMMENT = r"(?:.|\n)*<!\s*--(?:.|\n)*"
LINE = "[^\n\r\v\f\x1c-\x1e\x85\u2028\u2029]*"

# format -> place -> (language of the output, what it must not be, text before, text after, before in the string, after, how it is read)
TEXT = {
    "properties": {
        "key": (PKEY + PSEP + "v\n", None, "", PSEP + "v\n", "", "", "id"),
        "key part": (PKEY + PSEP + "v\n", None, "", PSEP + "v\n", "k.", ".k", "id"),
        "section": (PKEY + PSEP + "v\n", None, "", PSEP + "v\n", "", ".k", "id"),
        "value": ("k" + PSEP + PVAL + "\n", None, "k" + PSEP, "\n", "", "", "value"),
        "value part": ("k" + PSEP + PVAL + "\n", None, "k" + PSEP, "\n", "x", "y", "value"),
    },
    "dtd": {
        "key": (rf"<!ENTITY\s+{DNAME}\s+(?:\"v\"|'v')\s*>\n", None, r"<!ENTITY\s+", r"\s+[\"'](?:.|\n)*", "", "", "same"),
        "key part": (rf"<!ENTITY\s+{DNAME}\s+(?:\"v\"|'v')\s*>\n", None, r"<!ENTITY\s+", r"\s+[\"'](?:.|\n)*", "k.", ".k", "same"),
        "section": (rf"<!ENTITY\s+{DNAME}\s+(?:\"v\"|'v')\s*>\n", None, r"<!ENTITY\s+", r"\s+[\"'](?:.|\n)*", "", ".k", "same"),
        "value": (rf"<!ENTITY\s+k\s+{DQ}\s*>\n", COMMENT, None, None, "", "", None),
        "value part": (rf"<!ENTITY\s+k\s+{DQ}\s*>\n", COMMENT, None, None, "", "", None),
        "include name": (rf"<!ENTITY\s+%\s+{DNAME}\s+SYSTEM\s+(?:\"v\"|'v')\s*>\s*%{DNAME};\s*<!ENTITY(?:.|\n)*", None, None, None, "", "", None),
        "include value": (rf"<!ENTITY\s+%\s+k\s+SYSTEM\s+{DQ}\s*>\s*%k;\s*<!ENTITY(?:.|\n)*", COMMENT, None, None, "", "", None),
    },
    "ini": {
        "key": (rf"\[s\]\n{IID}[ \t]*[=:][ \t]*v\n", IREM, r"\[s\]\n", r"[ \t]*[=:][ \t]*v\n", "", "", "same"),
        "key part": (rf"\[s\]\n{IID}[ \t]*[=:][ \t]*v\n", IREM, r"\[s\]\n", r"[ \t]*[=:][ \t]*v\n", "k.", ".k", "same"),
        "section": (r"\[[^\]\n]+\]\nk[ \t]*[=:][ \t]*v\n", None, r"\[", r"\]\n(?:.|\n)*", "", "", "same"),
        "value": (r"\[s\]\nk[ \t]*[=:][ \t]*" + IVAL, ICOMMENT, None, None, "", "", None),
        "value part": (r"\[s\]\nk[ \t]*[=:][ \t]*" + IVAL, ICOMMENT, None, None, "", "", None),
    },
    "inc": {
        "key": (r"#define[ \t]+\w+[ \t]v\n\n*", None, r"#define[ \t]+", r"[ \t](?:.|\n)*", "", "", "same"),
        "value": (r"#define[ \t]+k[ \t]" + LINE + r"\n\n*", None, None, None, "", "", None),
        "value part": (r"#define[ \t]+k[ \t]" + LINE + r"\n\n*", None, None, None, "", "", None),
    },
}


class Drop(Stage):
    def step(self, q, c):
        return [(q, "")]


class Pieces(Chains):
    """Also follows the parts of strings joined from an unknown number of them."""

    def joined(self, I, F, node, sep, elem, must):
        if sep[0] == "c" and sep[2] == "" and elem is not None:
            return frozenset(("piece", t) for t in tokens_of(elem))
        return EMPTY


def tokens_of(v):
    return [a[2] for a in v.atoms if a[0] == "c" and isinstance(a[2], str) and has_token(a[2])]


def make(b, fmt, place, c):
    j = lambda *xs: mk(("t", tuple(xs)))  # noqa: E731
    k, v = const("k"), const("v")
    ids = {"key": j(c), "key part": j(k, c, k)}.get(place, j(k))
    pat = {"value": (c,), "value part": (const("x"), c, const("y"))}.get(place, (v,))
    e = b.entry(id=ids, value=b.inst("PatternMessage", pattern=b.lst(pat), declarations=b.dct()), meta=b.meta())
    sid = j(c) if place == "section" else j(const("s")) if fmt == "ini" else j()
    meta = b.meta()
    if place.startswith("include"):
        meta = b.meta(must=[b.metadata(c if place.endswith("name") else k, c if place.endswith("value") else v)])
    return b.inst("Resource", format=NONE, sections=b.lst((b.section(id=sid, must=[e]),)), comment=const(""), meta=meta)


def written(h, r):
    elem, must = r.value
    if elem is not None:
        raise Undecided("an unknown number of chunks")
    out = []
    for x in must:
        a = next(iter(x.atoms)) if len(x.atoms) == 1 else ("?",)
        if a[0] != "c" or not isinstance(a[2], str):
            raise Undecided("text that is not followed")
        out.append(a[2])
    return "".join(out)


def decoders(I, fmt):
    """What the parser does to the text of identifiers and values: {"id": [chain], "value": [chain]}"""
    out = {"id": [], "value": []}
    if fmt != "properties":
        return out
    fv = find_func(I, f"{FMT}{fmt}.parse:{fmt}_parse")
    for run in Runs(60):
        h = Pieces(run)
        I.hooks = h
        xduce.reset()
        st = I.base.copy()
        r = call(I, fv, [h.token()], {}, st)
        if not r.completes:
            continue
        for oid, o in r.state.heap.items():
            if o.kind != "inst" or not o.cls:
                continue
            if o.cls.endswith(":Entry"):
                for a in o.attrs.get("id", BOTTOM).atoms:
                    xs = list(a[1]) if a[0] == "t" else [a[1]] if a[0] == "tn" else []
                    for x in xs:
                        collect(h, out["id"], x)
            elif o.cls.endswith(":PatternMessage"):
                for l in o.attrs.get("pattern", BOTTOM).atoms:
                    if l[0] == "o":
                        p = r.state.heap[l[1]]
                        for x in [p.elem, *p.must]:
                            if x is not None:
                                collect(h, out["value"], x)
    # what is done to both is done to the one it is known of alone
    for a, b in (("id", "value"), ("value", "id")):
        own = [x for x in out[a] if all(x[0] != y[0] for y in out[b])]
        out[a] = own or out[a]
    return out


def collect(h, out, v):
    ts = [t for t in tokens_of(v) if len(t) == 1] + [l[1] for l in v.may if isinstance(l, tuple) and l[0] == "piece" and len(l[1]) == 1]
    for t in ts:
        ops = h.toks[t].ops
        k = max([i for i, o in enumerate(ops) if o[0] in ("factor", "slice", "filter")], default=-1)
        try:
            chain = [h.stage(o) for o in ops[k + 1:]]
        except (Unsupported, ValueError):
            continue
        key = tuple(repr(o[:3]) for o in ops[k + 1:])
        if all(key != x for x, _ in out):
            out.append((key, chain))


def text_place(rep, I, fmt, place, decs, kw, limit):
    lang, bad, pre, post, before, after, how = TEXT[fmt][place]
    fv = find_func(I, f"{FMT}{fmt}.serialize:{fmt}_serialize")
    key = f"{fmt}:{place}" + "".join(f":{v}" for v in kw.values())
    good = Sim(NFA(lang))
    if bad:
        good = Not(good, Sim(NFA(bad)))
    if kw.get("encoding") == "iso-8859-1":
        good = Not(good, Sim(NFA("(?:.|\n)*[^\x00-\x7f](?:.|\n)*")))
    runs = Runs(limit)
    seen = rejected = 0
    why, fail = set(), None
    for run in runs:
        h = Chains(run)
        I.hooks = h
        xduce.reset()
        st = I.base.copy()
        b = Build(I, st)
        c = h.token()
        try:
            r = call(I, fv, [make(b, fmt, place, c)], {k: const(v) for k, v in kw.items()}, st, consume=True)
            if not r.completes:
                rejected += 1
                continue
            text = written(h, r)
            ps = h.parts(text)
            w = search([p if isinstance(p, str) else h.stages(p) for p in ps], good)
            if w:
                fail = f"the {place} {w[0].replace('|', '')!r} is written as {w[1]!r}"
                break
            if how:
                w = compare(h, ps, next(iter(c.atoms))[2], pre, post, before, after, [("", [])] if how == "same" else decs[how])
                if w:
                    fail = f"the {place} {before + w[0] + after!r} is written so that {w[1][0]!r} is read where {w[1][1]!r} should be"
                    break
            seen += 1
        except (Unsupported, TooLarge, Undecided) as e:
            why.add(str(e))
    rep.saw("outcomes followed", *(f"{key}#{i}" for i in range(seen + rejected)))
    if seen:
        rep.saw("places", key)
    if why or not runs.complete:
        rep.notes.append(f"{key}: {'' if runs.complete else 'not all outcomes explored; '}undecided: {', '.join(sorted(why))[:200]}")
    if fail:
        rep.bad(key, f"{fmt}_serialize(): {fail}")
    elif seen or rejected:
        rep.ok(key)


def compare(h, ps, tok, pre, post, before, after, decs):
    ts = [i for i, p in enumerate(ps) if not isinstance(p, str)]
    if len(ts) > 1:
        raise Undecided("a string written in several parts")
    if not decs:
        raise Undecided("what the parser does to the text is not followed")
    if ts:
        a, b = "".join(ps[:ts[0]]), "".join(ps[ts[0] + 1:])
        enc = h.stages(ps[ts[0]])
    else:
        a, b = "".join(ps), ""
        enc = h.stages(h.toks[tok]) + [Side(h.stages(t)) for t in list(h.toks.values()) if t.ops and h.known.get((t.base, t.ops))] + [Drop()]
    m = re.match(pre, a)
    if m is None:
        raise Undecided("text before")
    a = a[m.end():]
    m = re.search("(?:" + post + r")\Z", b if ts else a)
    if m is None:
        raise Undecided("text after")
    if ts:
        b = b[:m.start()]
    else:
        a = a[:m.start()]
    first = None
    for _, dec in decs:
        w = differs(enc, dec, pre=a, post=b, before=before, after=after)
        if not w:
            return None
        first = first or w
    return first


# ---- identifiers of entries in JSON
JPART = r"(?:[^.\\]|\\[.\\])*"


def json_ids(rep, I, limit):
    to = find_func(I, "moz.l10n.message.to_json:entry_to_json")
    back = find_func(I, "moz.l10n.message.from_json:entry_from_json")
    encs, why = [], set()
    for place in ("only", "last", "first"):
        key = f"JSON entry id:{place} part"
        fail = None
        n = 0
        for run in Runs(limit):
            h = Chains(run)
            I.hooks = h
            st = I.base.copy()
            b = Build(I, st)
            c, k = h.token(), const("k")
            e = b.entry(id=mk(("t", {"only": (c,), "last": (k, c), "first": (c, k)}[place])),
                        value=b.inst("PatternMessage", pattern=b.lst((const("v"),)), declarations=b.dct()), meta=b.meta())
            try:
                r = call(I, to, [e], {}, st)
                if not r.completes:
                    continue
                t = [a[1][0] for a in r.value.atoms if a[0] == "t" and a[1]]
                ids = [a for v in t for a in v.atoms]
                if len(ids) != 1 or ids[0][0] != "c":
                    raise Undecided("an identifier that is not followed")
                ps = h.parts(ids[0][2])
                ts = [p for p in ps if not isinstance(p, str)]
                lang = {"only": JPART, "last": r"k\." + JPART, "first": JPART + r"\.k"}[place]
                w = search([p if isinstance(p, str) else h.stages(p) for p in ps], Sim(NFA(lang)))
                if w:
                    fail = f"the part {w[0].replace('|', '')!r} of an identifier is written as {w[1]!r}, in which its dots and backslashes are not told from others"
                    break
                if place == "only" and len(ts) == len(ps) == 1:
                    encs.append(h.stages(ts[0]))
                n += 1
            except (Unsupported, TooLarge, Undecided) as x:
                why.add(str(x))
        rep.saw("outcomes followed", *(f"{key}#{i}" for i in range(n)))
        if n:
            rep.saw("places", key)
        if fail:
            rep.bad(key, f"entry_to_json(): {fail}")
        elif n:
            rep.ok(key)
    fail = None
    n = 0
    for run in Runs(limit):
        h = Chains(run)
        I.hooks = h
        xduce.reset()
        st = I.base.copy()
        b = Build(I, st)
        c = h.token()
        try:
            r = call(I, back, [c, b.dct(items={"=": b.lst((const("v"),))})], {}, st)
            if not r.completes:
                continue
            parts = []
            for a in r.value.atoms:
                if a[0] == "o":
                    for t in r.state.heap[a[1]].attrs.get("id", BOTTOM).atoms:
                        for x in t[1] if t[0] == "t" else [t[1]] if t[0] == "tn" else []:
                            parts += [h.toks[s] for s in tokens_of(x) if s in h.toks]
            base = h.toks[next(iter(c.atoms))[2]]
            known = h.known.get((base, ()), [])
            if not parts:
                continue
            for t in parts:
                k = max([i for i, o in enumerate(t.ops) if o[0] == "factor"], default=None)
                if k is None:
                    raise Undecided("a part of an identifier that is not followed")
                asked = [f for i in range(k + 1, len(t.ops) + 1) if all(o[0] == "filter" for o in t.ops[k + 1:i]) for f in h.known.get((base, t.ops[:i]), [])]
                dec = [h.stage(o) for o in t.ops[k + 1:] if o[0] != "filter"]
                for enc in encs:
                    if not nonempty([*enc, *known, *asked]):
                        continue
                    n += 1
                    w = differs([*enc, *known, *asked], dec)
                    if w:
                        fail = f"the identifier {w[0]!r} is written so that {w[1][0]!r} is read where {w[1][1]!r} should be"
            cut = [k for k in h.answers if len(k) == 4 and k[0] is base and k[1] == () and k[2] in ("split", "findall")]
            if len(cut) != 1:
                raise Undecided("an identifier that is not split in one step")
            n += 1
            w = miscut(cut[0][2], cut[0][3], known)
            if w:
                fail = f"the identifier {w[0]!r} is split into {w[1]!r}, not {w[2]!r}"
        except (Unsupported, TooLarge, Undecided) as x:
            why.add(str(x))
    key = "JSON entry id:read"
    if n:
        rep.saw("decoders", key)
    if why:
        rep.notes.append(f"JSON entry ids: undecided: {', '.join(sorted(why))[:200]}")
    if fail:
        rep.bad(key, f"entry_from_json(): {fail}")
    elif n:
        rep.ok(key)


def miscut(how, pattern, known, size=7):
    """A written identifier that is not split where its parts meet: all of up to so many characters, by kind of character."""
    rx = re.compile(pattern)
    todo = [("", [""])]
    while todo:
        new = []
        for w, parts in todo:
            if all(nonempty([Filter(Sim(NFA(re.escape(w))), True), f]) for f in known):
                got = rx.findall(w) if how == "findall" else rx.split(w)
                if got != parts:
                    return w, got, parts
            for x in ("a", "\n", r"\.", "\\\\"):
                new.append((w + x, [*parts[:-1], parts[-1] + x]))
            new.append((w + ".", [*parts, ""]))
        todo = [x for x in new if len(x[0]) <= size]
    return None


def jobs(tier):
    yield "json", "ids", {}
    for fmt, (places, _) in escapes.PLACES.items():
        for place in places:
            yield fmt, place, {}
    for fmt in escapes.READ:
        yield fmt, "read", {}
    for fmt, places in TEXT.items():
        for place in places:
            for kw in [{"encoding": "utf-8"}, {"encoding": "iso-8859-1"}] if fmt == "properties" else [{}]:
                yield fmt, place, kw


def check(project, rep, tier):
    I = Interp(project).load_all()
    limit = 400 if tier == "quick" else 3000
    decs = decoders(I, "properties")
    for what, ds in decs.items():
        for k, _ in ds:
            rep.saw("decoders", f"properties {what}: {k}")

    def one(r, j):
        xduce.reset(full=True)
        if j[0] == "json":
            json_ids(r, I, limit)
        elif j[1] == "read":
            escapes.read(r, I, j[0])
        elif j[0] in escapes.PLACES:
            escapes.place(r, I, j[0], j[1], limit)
        else:
            text_place(r, I, j[0], j[1], decs, j[2], limit)

    parallel(rep, one, list(jobs(tier)))
    rep.need("outcomes followed", 30)
    rep.need("places", 15)
