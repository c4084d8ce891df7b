"""Names, identifiers, numbers and literals of MessageFormat 2: the languages its parser, serializer and validator test for are compared with the grammar, as automata."""
from __future__ import annotations

import ast

from ..charloop import END, FAIL, NEXT, explore
from ..domain import *
from ..domain import V, Obj
from ..evalmod import Interp
from ..inputs import Build
from ..interp import NONE_A, Dead
from ..project import AnalysisBroken
from ..run import call, find_func
from ..rxnfa import NFA, Sim, difference, sc, witness
from ..tokens import Tokens

RULE = (
    "Abstract interpretation with placeholders for unknown strings inside or outside of a language of the MF2 grammar (name, identifier, number, literal), where every regular expression test is decided by inclusion or disjointness "
    "of automata: the serializer writes an unquoted literal only on paths where it is a name or number, escapes exactly backslash and the delimiter (text: backslash and braces) and otherwise only escapable characters, writes an empty literal as ||, "
    "and quotes a pattern whose text would start a complex message; the validator accepts every name and identifier of the grammar and raises on every other string, at each place; every name, identifier "
    "and unquoted literal the parser puts into a message is the whole match of a pattern whose language is that of the grammar; its loops over the characters of text and quoted literals, "
    "taken as automata (the body interpreted for each character class from each state), end, fail and collect as the grammar says; the sets of white space and bidi marks it tests for are those of the grammar."
)
ASSUMPTIONS = ["the grammar is that of LDML 46.1, with name-start and name-char of its ABNF", "the quantifiers of the parser's patterns are greedy, so that a match is the longest one"]

START = "a-zA-Z_\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u061b\u061d-\u1fff\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffc\U00010000-\U000effff"
CHAR = START + "0-9.\xb7\u0300-\u036f\u203f-\u2040\\-"
NAME_P = f"[{START}][{CHAR}]*"
IDENT_P = f"{NAME_P}(?::{NAME_P})?"
NUMBER_P = r"-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?"
NAME, IDENT, NUMBER, LITERAL = NFA(NAME_P), NFA(IDENT_P), NFA(NUMBER_P), NFA(f"(?:{NAME_P}|{NUMBER_P})")
DOT = NFA("[\t\n\r \u3000\u061c\u200e\u200f\u2066-\u2069]*\\.[a-z]*")
DOT0 = NFA("\\.[a-z]*")
EMPTYSTR = NFA("")
PKG = "moz.l10n.formats.mf2."
ESCAPABLE = "\\{|}"


def outputs(I, r):
    """The exact strings a call may return or yield, or None."""
    v = r.value
    if len(v.atoms) == 1 and next(iter(v.atoms))[0] == "o":
        live = I.exact_list(v, r.state)
        if live is None:
            return None
        outs = [""]
        for x in live:
            if not all(a[0] == "c" and isinstance(a[2], str) for a in x.atoms):
                return None
            outs = [p + a[2] for p in outs for a in x.atoms]
        return outs
    if v.atoms and all(a[0] == "c" and isinstance(a[2], str) for a in v.atoms):
        return sorted(a[2] for a in v.atoms)
    return None


def places(b):
    """(where, builder of a message with a literal there)"""
    nm = lambda x: const(x)  # noqa: E731
    E = lambda **k: b.inst("Expression", **{"arg": NONE, "function": NONE, "options": b.dct(), "attributes": b.dct(), **k})  # noqa: E731
    pm = lambda *parts: b.inst("PatternMessage", pattern=b.lst(parts), declarations=b.dct())  # noqa: E731
    M = lambda **k: b.inst("Markup", **{"kind": const("open"), "name": nm("m"), "options": b.dct(), "attributes": b.dct(), **k})  # noqa: E731
    yield "operand", lambda v: pm(E(arg=v))
    yield "operand of a function", lambda v: pm(E(arg=v, function=nm("f")))
    yield "option value", lambda v: pm(E(function=nm("f"), options=b.dct(items={"o": v})))
    yield "attribute value", lambda v: pm(E(arg=const("x"), attributes=b.dct(items={"a": v})))
    yield "markup option value", lambda v: pm(M(options=b.dct(items={"o": v})))
    yield "markup attribute value", lambda v: pm(M(attributes=b.dct(items={"a": v})))
    yield "declared operand", lambda v: b.inst("PatternMessage", pattern=b.lst((const("x"),)), declarations=b.dct(items={"d": E(arg=v)}))
    yield "variant key", lambda v: b.inst(
        "SelectMessage", declarations=b.dct(items={"d": E(arg=const("x"), function=nm("f"))}), selectors=mk(("t", (b.inst("VariableRef", name=nm("d")),))),
        variants=b.dct(must=((mk(("t", (v,))), b.lst((const("x"),))), (mk(("t", (b.inst("CatchallKey", value=NONE),))), b.lst((const("x"),))))))


def name_places(b):
    """(where, language, builder of a message with a name or identifier there)"""
    E = lambda **k: b.inst("Expression", **{"arg": NONE, "function": NONE, "options": b.dct(), "attributes": b.dct(), **k})  # noqa: E731
    pm = lambda *parts: b.inst("PatternMessage", pattern=b.lst(parts), declarations=b.dct())  # noqa: E731
    M = lambda **k: b.inst("Markup", **{"kind": const("open"), "name": const("m"), "options": b.dct(), "attributes": b.dct(), **k})  # noqa: E731
    R = lambda v: b.inst("VariableRef", name=v)  # noqa: E731
    key = lambda v: next(iter(v.atoms))[2]  # noqa: E731
    yield "variable", NAME, lambda v: pm(E(arg=R(v)))
    yield "variable option value", NAME, lambda v: pm(E(function=const("f"), options=b.dct(items={"o": R(v)})))
    yield "markup variable option value", NAME, lambda v: pm(M(options=b.dct(items={"o": R(v)})))
    yield "local declaration", NAME, lambda v: b.inst("PatternMessage", pattern=b.lst((const("x"),)), declarations=b.dct(items={key(v): E(arg=const("x"))}))
    yield "function", IDENT, lambda v: pm(E(function=v))
    yield "function of an operand", IDENT, lambda v: pm(E(arg=const("x"), function=v))
    yield "option", IDENT, lambda v: pm(E(function=const("f"), options=b.dct(items={key(v): const("x")})))
    yield "attribute", IDENT, lambda v: pm(E(arg=const("x"), attributes=b.dct(items={key(v): TRUE})))
    yield "markup", IDENT, lambda v: pm(M(name=v))
    yield "standalone markup", IDENT, lambda v: pm(M(name=v, kind=const("standalone")))
    yield "closing markup", IDENT, lambda v: pm(M(name=v, kind=const("close")))
    yield "markup option", IDENT, lambda v: pm(M(options=b.dct(items={key(v): const("x")})))
    yield "markup attribute", IDENT, lambda v: pm(M(attributes=b.dct(items={key(v): const("x")})))


def serializer(I, rep):
    fv = find_func(I, PKG + "serialize:mf2_serialize_message")

    def run(h, v, make):
        I.hooks = h
        st = I.base.copy()
        b = Build(I, st)
        msg = dict(places(b))[make](v) if isinstance(make, str) else make(b, v)
        r = call(I, fv, [msg], {}, st)
        if not r.completes:
            return None, r
        return outputs(I, r), r

    for where in [w for w, _ in places(Build(I, I.base.copy()))]:
        rep.saw("literal places", where)
        base = None
        for what, lang, inside in (("name", [NAME], True), ("number", [NUMBER], True), ("other", [NAME, NUMBER, EMPTYSTR], False)):
            h = Tokens()
            v = h.token(lang, inside)
            outs, r = run(h, v, where)
            key = f"literal:{where}:{what}"
            if outs is None:
                raise AnalysisBroken(f"the serialization of a literal {where} is not known exactly")
            for out in outs:
                found = list(h.find(out))
                if not rep.decide(key, bool(found), f"mf2_serialize_message: a literal {where} that is {what if what != 'other' else 'neither a name nor a number'} is not written"):
                    continue
                for t, pre, post in found:
                    if pre.endswith("|") and post.startswith("|"):
                        bad = [c for c in "\\|" if h.image(t.ch, c) != "\\" + c]
                        rep.decide(key, not bad, f"mf2_serialize_message: {bad} is not escaped in a quoted literal {where}")
                        extra = escapes(h, t, "\\|")
                        rep.decide(key, not extra, f"mf2_serialize_message: {extra} is changed in a quoted literal {where}")
                    else:
                        rep.decide(key, what != "other" and not t.ops, f"mf2_serialize_message: a literal {where} may be written without quotes though it is neither a name nor a number" if what == "other" else
                                   f"mf2_serialize_message: a literal {where} is escaped but not quoted")
                if what == "other":
                    base = out.replace(found[0][0].ch, "") if len(outs) == 1 else None
        h = Tokens()
        outs, r = run(h, const(""), where)
        if outs is None:
            raise AnalysisBroken(f"the serialization of an empty literal {where} is not known exactly")
        rep.decide(f"literal:{where}:empty", base is None or outs == [base], f"mf2_serialize_message: an empty literal {where} is not written as a quoted literal: {outs[0]!r}")
    # text
    T = {
        "text": (lambda b, v: b.inst("PatternMessage", pattern=b.lst((v,)), declarations=b.dct()), None),
        "text of a variant": (lambda b, v: b.inst(
            "SelectMessage", declarations=b.dct(items={"d": b.inst("Expression", arg=const("x"), function=const("f"), options=b.dct(), attributes=b.dct())}),
            selectors=mk(("t", (b.inst("VariableRef", name=const("d")),))), variants=b.dct(must=((mk(("t", (b.inst("CatchallKey", value=NONE),))), b.lst((v,))),))), None),
        "text that starts with a period": (lambda b, v: b.inst("PatternMessage", pattern=b.lst((v,)), declarations=b.dct()), DOT),
        "text that starts with a period, after an empty part": (lambda b, v: b.inst("PatternMessage", pattern=b.lst((const(""), v)), declarations=b.dct()), DOT),
    }
    for what, (make, lang) in T.items():
        h = Tokens()
        v = h.token([lang] if lang else None)
        outs, r = run(h, v, make)
        key = f"{what}"
        rep.saw("text places", what)
        if outs is None:
            raise AnalysisBroken(f"the serialization of {what} is not known exactly")
        for out in outs:
            found = list(h.find(out))
            if not rep.decide(key, bool(found), f"mf2_serialize_message: {what} is not written"):
                continue
            for t, pre, post in found:
                bad = [c for c in "\\{}" if h.image(t.ch, c) != "\\" + c]
                rep.decide(key, not bad, f"mf2_serialize_message: {bad} is not escaped in {what}")
                extra = escapes(h, t, "\\{}")
                rep.decide(key, not extra, f"mf2_serialize_message: {extra} is changed in {what}")
                if lang:
                    rep.decide(key + ":quoted", pre.endswith("{{") and post.startswith("}}"), f"mf2_serialize_message: {what}, possibly following white space and bidi marks, is written as a simple message, which is read as a complex one")
    rep.need("literal places", 8)


def escapes(h, t, must):
    """Characters other than the given ones that are changed otherwise than by a backslash before an escapable character."""
    out = []
    for lo, hi in h.changed(t):
        for c in (chr(lo), chr(hi), *(chr(x) for x in range(lo, min(hi, lo + 300)))):
            if c not in must and h.image(t.ch, c) != c and not (c in ESCAPABLE and h.image(t.ch, c) == "\\" + c):
                out.append(c)
    return sorted(set(out))[:5]


def validator(I, rep):
    fv = find_func(I, PKG + "validate:mf2_validate_message")
    for where, lang in [(w, l) for w, l, _ in name_places(Build(I, I.base.copy()))]:
        rep.saw("name places", where)
        for valid in (True, False):
            h = Tokens()
            v = h.token([lang], valid)
            I.hooks = h
            st = I.base.copy()
            b = Build(I, st)
            msg = next(m for w, _, m in name_places(b) if w == where)(v)
            r = call(I, fv, [msg], {}, st)
            exc = set().union(*[set(x[0]) for x in r.raises]) if r.raises else set()
            what = "name" if lang is NAME else "identifier"
            if valid:
                rep.decide(f"validate:{where}:valid", r.completes and not exc, f"mf2_validate_message: a {what} the grammar allows is rejected as {where}")
            else:
                rep.decide(f"validate:{where}:invalid", not r.completes, f"mf2_validate_message: a string that is no {what} of the grammar is accepted as {where}")
                rep.decide(f"validate:{where}:error", exc <= {PKG + "validate:MF2ValidationError"}, f"mf2_validate_message: an invalid {where} raises {sorted(exc)} instead of MF2ValidationError")
    rep.need("name places", 13)


LANGS = {"N": NAME, "I": IDENT, "U": NUMBER, "L": LITERAL}


CHARS = "a\\{|}\0n*:= \n\"'\x7f\xa0\ud800\U0001f600\u3000"
# how a scanner of characters ends, and which characters can be escaped in it
ENDS = {"quoted literal": "|", "text": "{}"}


def wanted(word, ends):
    """(kind, text) of a scanner after the word: its last character is the first one that ends it or fails."""
    out, esc = "", False
    for c in word:
        if esc:
            if c not in "\\{|}":
                return FAIL, None
            out, esc = out + c, False
        elif c == "\0":
            return FAIL, None
        elif c == "\\":
            esc = True
        elif c in ends:
            return END, out
        else:
            out += c
    return NEXT, out


class ParserHooks(Tokens):
    def __init__(self):
        super().__init__()
        self.scanners = {}
        self.undecided = set()
        self.langs = {}
        self.tok = {k: self.token([l], True) for k, l in LANGS.items()}
        self.tok["?"] = self.token()
        self.pats = {}

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        if dotted.startswith("re.Pattern.") and dotted[11:] in ("match", "fullmatch", "search"):
            (p,) = args[0].atoms
            if p[0] == "re" and p[1] is not None:
                k = self.kind(p[1], p[2] or 0)
                self.pats.setdefault((p[1], p[2] or 0), F.where(node))
                l = frozenset([f"rx:{k}"])
                return V(frozenset([NONE_A, ("xi", "re.Match", "T")]), l, l)
        return None

    def for_loop(self, I, F, node, it, st):
        if F.fi is None or any(a[0] != "s" for a in it.atoms) or not it.atoms:
            return
        key = F.fi.qual
        if key in self.scanners:
            return
        self.scanners[key] = None
        try:
            self.scanners[key] = F.where(node), list(explore(I, F, node, st, CHARS))
        except (KeyError, Dead) as e:
            self.undecided.add(f"{F.where(node)}: {e}")

    def kind(self, pat, fl):
        if (pat, fl) not in self.langs:
            try:
                n = NFA(pat, fl)
                self.langs[pat, fl] = next((k for k, l in LANGS.items() if n.exact and not lazy(n.tree) and difference(n, l) is None), "?")
            except ValueError:
                self.langs[pat, fl] = "?"
        return self.langs[pat, fl]

    def match_group(self, match, idx):
        ls = [x[3:] for x in match.may if x.startswith("rx:")]
        if idx == 0 and ls:
            l = frozenset(f"rx:{x}" for x in ls)
            return join_all([self.tok[x] for x in ls]).labelled(l, l)
        return None


def lazy(tree):
    """Whether a pattern has a non-greedy quantifier."""
    todo = list(tree)
    while todo:
        op, av = todo.pop()
        if op is sc.MIN_REPEAT:
            return True
        if op is sc.BRANCH:
            for x in av[1]:
                todo += list(x)
        elif op is sc.SUBPATTERN:
            todo += list(av[3])
        elif op is sc.MAX_REPEAT:
            todo += list(av[2])
    return False


def parser(I, rep):
    fv = find_func(I, PKG + "message_parser:mf2_parse_message")
    h = ParserHooks()
    I.hooks = h
    st = I.base.copy()
    r = call(I, fv, [STR], {}, st)
    if not r.completes:
        raise AnalysisBroken("mf2_parse_message() never completes")
    tk = {k: next(iter(v.atoms))[2] for k, v in h.tok.items()}
    name_ok = {tk["N"]}
    ident_ok = {tk["N"], tk["I"], f"{tk['N']}:{tk['N']}"}
    lit_ok = {tk["N"], tk["U"], tk["L"]}
    used = set()
    seen = {"VariableRef": 0, "Expression": 0, "Markup": 0}

    def decide(where, v, ok, generic=False, what="name"):
        rep.saw("parsed fields", where)
        if what == "literal":
            used.update(tk[x[3:]] for x in v.may if x.startswith("rx:"))
        for a in v.atoms:
            if a == NONE_A or a[0] == "o" or a == ("c", "bool", True):
                continue
            if a[0] == "c" and a[2] in ok or generic and a[0] in ("s", "c") and not (a[0] == "c" and has_token(a[2])):
                rep.ok(f"parse:{where}")
                if what == "literal" and a[0] == "c":
                    used.add(a[2])
                continue
            rep.bad(f"parse:{where}", f"mf2_parse_message: {where} may be text that is not the match of the grammar's pattern for a {what}" + (f": {show(h, a[2])}" if a[0] == "c" else ""))

    for oid in sorted(I.reach(r.value, r.state)):
        o = r.state.heap[oid]
        cls = (o.cls or "").rpartition(":")[2]
        if o.kind != "inst" or cls not in ("VariableRef", "Expression", "Markup", "PatternMessage", "SelectMessage"):
            continue
        seen[cls] = seen.get(cls, 0) + 1

        def keys(v):
            out = []
            for q in I.objs(v):
                d = r.state.heap[q]
                out += [const(k) for k in d.items] + [k for k, _ in d.must] + ([d.ekey] if d.ekey is not None else [])
            return out

        def vals(v):
            out = []
            for q in I.objs(v):
                d = r.state.heap[q]
                out += list(d.items.values()) + [x for _, x in d.must] + ([d.elem] if d.elem is not None else [])
            return out

        if cls == "VariableRef":
            decide("VariableRef.name", o.attrs["name"], name_ok)
        elif cls == "Expression":
            decide("Expression.arg", o.attrs["arg"], lit_ok, True, "literal")
            decide("Expression.function", o.attrs["function"], ident_ok, what="identifier")
        elif cls == "Markup":
            decide("Markup.name", o.attrs["name"], ident_ok, what="identifier")
        else:
            for k in keys(o.attrs["declarations"]):
                decide(f"{cls}.declarations", k, name_ok)
            if cls == "SelectMessage":
                for k in keys(o.attrs["variants"]):
                    for a in k.atoms:
                        for x in (a[1] if a[0] == "t" else [a[1]] if a[0] == "tn" else []):
                            decide("variant key", x, lit_ok, True, "literal")
        if cls in ("Expression", "Markup"):
            for k in keys(o.attrs["options"]):
                decide(f"{cls}.options", k, ident_ok, what="identifier")
            for x in vals(o.attrs["options"]):
                decide(f"{cls}.options value", x, lit_ok, True, "literal")
            for k in keys(o.attrs["attributes"]):
                decide(f"{cls}.attributes", k, ident_ok, what="identifier")
            for x in vals(o.attrs["attributes"]):
                decide(f"{cls}.attributes value", x, lit_ok, True, "literal")
    for q, x in sorted(h.scanners.items()):
        if x is not None:
            scanner(rep, q, *x)
    rep.notes += sorted(h.undecided)
    got = {k for k in tk if tk[k] in used}
    rep.decide("parse:literals", "L" in got or {"N", "U"} <= got, f"mf2_parse_message: not every {'number' if 'N' in got else 'name'} of the grammar is read as an unquoted literal")
    for c in ("VariableRef", "Expression", "Markup"):
        if not seen[c]:
            raise AnalysisBroken(f"mf2_parse_message() makes no {c}")
    for (p, fl), where in sorted(h.pats.items()):
        rep.saw("patterns of the parser", p[:60])
        k = h.kind(p, fl)
        if k == "?":
            for n, l in (("name", NAME), ("number", NUMBER)):
                try:
                    w = difference(NFA(p, fl), l)
                except ValueError:
                    continue
                rep.notes.append(f"{where}: differs from {n} in {w!r}")
    rep.need("parsed fields", 8)


SPACE = set("\t\n\r \u3000")
BIDI = set("\u061c\u200e\u200f\u2066\u2067\u2068\u2069")


def charset(m, e):
    """The characters of a set that a module writes out."""
    if isinstance(e, ast.Name):
        defs = [n.value for n in m.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                and any(isinstance(t, ast.Name) and t.id == e.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        return charset(m, defs[0]) if len(defs) == 1 else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.Add)):
        a, b = charset(m, e.left), charset(m, e.right)
        return None if a is None or b is None else a | b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset", "tuple", "list") and len(e.args) == 1:
        return charset(m, e.args[0])
    try:
        v = ast.literal_eval(e)
    except (ValueError, TypeError):
        return None
    return set(v) if isinstance(v, (str, set, tuple, list)) and all(isinstance(c, str) and len(c) == 1 for c in v) else None


def spaces(project, rep):
    """The sets of white space and bidi characters that the parser skips or asks for."""
    m = project.modules[PKG + "message_parser"]
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            cs = charset(m, n.comparators[0])
            if cs is None or len(cs & (SPACE | BIDI)) < 2:
                continue
            rep.saw("sets of spaces", "".join(sorted(f"{ord(c):x} " for c in cs)))
            ok = cs in (SPACE, BIDI, SPACE | BIDI)
            near = min((SPACE, BIDI, SPACE | BIDI), key=lambda x: len(x ^ cs))
            odd = "".join(sorted(near ^ cs))
            rep.decide("parse:spaces", ok, f"{m.rel}:{n.lineno}: the characters tested for differ in {odd!r} from the grammar's {'white space' if near == SPACE else 'bidi marks' if near == BIDI else 'optional space'}")


def scanner(rep, qual, where, steps):
    """A loop over characters against the grammar of what it ends at."""
    plain = {w: (k, col) for w, k, col, _ in steps}
    names = {v for v, t in plain.get("a", ("", {}))[1].items() if t == "a"}
    if not names:
        return  # collects nothing
    ending = {c for c in CHARS if plain.get(c, ("",))[0] == END}
    what = max(ENDS, key=lambda k: len(ending & set(ENDS[k])) * 10 - len(ending ^ set(ENDS[k])))
    if not ending:
        return
    rep.saw("scanners", f"{what}: {qual}")
    for w, kind, col, ret in steps:
        k, t = wanted(w, ENDS[what])
        key = f"scan:{what}:{w!r}"
        rep.saw("steps of scanners", key)
        saw = {FAIL: "is rejected", END: "ends it", NEXT: "is part of it"}
        if k != kind:
            rep.bad(f"scan:{what}", f"{where}: after {w[:-1]!r} in a {what}, {w[-1]!r} {saw[kind]}, where the grammar says that it {saw[k]}")
        elif t is not None and not any(col.get(v) == t for v in names) and ret != t:
            rep.bad(f"scan:{what}", f"{where}: {w!r} in a {what} is read as {sorted({col.get(v, '') for v in names})[0]!r}")
        else:
            rep.ok(key)


def show(h, s):
    return "".join({"": ""}.get(c, c) if c not in h.toks else "<token>" for c in s)


def check(project, rep, tier):
    I = Interp(project).load_all()
    I.explicit_only = True
    serializer(I, rep)
    validator(I, rep)
    parser(I, rep)
    spaces(project, rep)
