"""Tokens whose operations are known as transducers, one run of the analysis for each combination of answers about them.

Every question the program asks about an unknown string (is it empty, does it start with this, does that pattern match) is
answered once in each way that what is known about the string allows; the answer becomes a part of what is known.
"""
from __future__ import annotations

import re

from .domain import *
from .domain import V
from .interp import NONE_A
from .rxnfa import NFA, Sim, automaton, bare, sc
from .tokens import BASE, Token, Tokens
from .xduce import Any, Case, Factor, Filter, Map, RegexSub, Side, Strip, Take, TooLarge, Unsupported, nonempty

LINES = "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"
LINESEP = "(?:\r\n|[" + LINES + "])"


class Undecided(Exception):
    """The strings written cannot be followed."""


class Runs:
    """Depth-first enumeration of the answers."""

    def __init__(self, limit=300):
        self.limit, self.path, self.count, self.complete = limit, [], 0, True

    def __iter__(self):
        while True:
            self.at = 0
            self.count += 1
            yield self
            while self.path and self.path[-1][1] + 1 >= self.path[-1][2]:
                self.path.pop()
            if not self.path:
                return
            if self.count >= self.limit:
                self.complete = False
                return
            k, i, n = self.path[-1]
            self.path[-1] = (k, i + 1, n)

    def choose(self, key, n):
        if self.at < len(self.path):
            if self.path[self.at][0] != key:
                raise Undecided("answers out of step")
        else:
            self.path.append((key, 0, n))
        self.at += 1
        return self.path[self.at - 1][1]


class Found:
    """A match in an unknown string: what its groups hold."""

    def __init__(self, groups):
        self.groups_ = groups

    def __getitem__(self, i):
        return self.groups_[i]

    def group(self, *ix):
        return self.groups_[ix[0] if ix else 0] if len(ix) < 2 else tuple(self.groups_[i] for i in ix)

    def groups(self):
        return tuple(v for k, v in sorted(self.groups_.items()) if k)


class Chains(Tokens):
    def __init__(self, runs, langs=None, pieces=3):
        super().__init__()
        self.runs, self.pieces = runs, pieces
        self.known = {}     # (base placeholder, operations) -> [filters]
        self.answers = {}
        self.unknown = []   # what could not be followed
        self.matches = {}
        self.fn = {}
        self.between = {}

    # ---- chains of stages
    def stage(self, op):
        k = op[0]
        if k == "replace":
            return Map({ord(op[1]): op[2]}) if len(op[1]) == 1 else RegexSub(re.escape(op[1]), 0, lambda m, r=op[2]: r)
        if k == "translate":
            return Map(dict(op[1]))
        if k == "sub":
            return RegexSub(op[1], op[2], lambda m, r=op[3]: m.expand(r))
        if k == "subf":
            s = RegexSub(op[1], op[2], self.fn[op])
            s.spread = True
            return s
        if k == "strip":
            return Strip(op[1], op[2])
        if k == "case":
            return Case(op[1])
        if k == "slice":
            return Take(op[1], op[2])
        if k == "factor":
            return Factor(op[1], op[2])
        if k == "filter":
            return Filter(op[1], op[2], op[3], op[4])
        raise Unsupported(k)

    def stages(self, tok):
        k = (tok.base, tok.ops, len(self.answers))
        if k not in self.cache:
            out = []
            if tok.base.lang and tok.base.inside and len(tok.base.lang) == 1:
                out.append(Filter(Sim(tok.base.lang[0]), True))
            elif tok.base.lang and not tok.base.inside:
                out += [Filter(Sim(x), False) for x in tok.base.lang]
            for i in range(len(tok.ops) + 1):
                if i:
                    out.append(self.stage(tok.ops[i - 1]))
                out += self.known.get((tok.base, tok.ops[:i]), [])
            self.cache[k] = out
        return self.cache[k]

    def op(self, tok, *ops):
        (x,) = self.token(base=tok.base, ops=tok.ops + ops).atoms
        return x[2]

    # ---- questions
    def ask(self, tok, pattern, flags=0, mode="full", pre="", post=""):
        """Whether pre + tok + post is in a language: answered each way in turn."""
        if tok.base is tok and tok.lang:
            m = self.member(tok, pattern, flags, mode) if not pre and not post else None
            if m is not None:
                return m
        key = (tok.base, tok.ops, str(pattern), flags, mode, pre, post)
        if key in self.answers:
            return self.answers[key]
        try:
            sim = automaton(pattern, flags, mode)
        except (ValueError, RecursionError, re.error) as e:
            raise Unsupported(str(e))
        base = self.stages(tok)
        poss = []
        for truth in (True, False):
            try:
                if nonempty(base + [Filter(sim, truth, pre, post)]):
                    poss.append(truth)
            except (Unsupported, TooLarge):
                poss.append(truth)
        if not poss:
            poss = [True, False]
        r = poss[self.runs.choose(("q", len(tok.ops), str(pattern), mode, pre, post), len(poss))] if len(poss) > 1 else poss[0]
        self.answers[key] = r
        f = Filter(sim, r, pre, post)
        k = len(tok.ops)
        while k and tok.ops[k - 1][0] not in ("factor", "filter"):
            k -= 1
        k = next((i for i in range(k, len(tok.ops)) if tok.ops[i][0] in ("slice", "strip")), len(tok.ops))
        if k < len(tok.ops):
            # what is known of a part is known of the whole
            side = []
            for i in range(k, len(tok.ops)):
                side += (self.known.get((tok.base, tok.ops[:i]), []) if i > k else []) + [self.stage(tok.ops[i])]
            f = Side(side + [f])
        self.known.setdefault((tok.base, tok.ops[:k]), []).append(f)
        return r

    def parts(self, s):
        """Constant strings and placeholders."""
        return [self.toks[p] if p in self.toks else p for p in re.split("([\U0010F000-\U0010FFFF])", s) if p]

    def nonempty_part(self, tok):
        return self.ask(tok, "(?:.|\n)+")

    def test(self, s, pattern, flags=0, mode="full"):
        """The same of a string with placeholders: True, False or None."""
        ps = self.parts(s)
        ts = [p for p in ps if not isinstance(p, str)]
        if len(ts) > 1:
            # those that are empty say nothing
            live = [p for p in ps if isinstance(p, str) or self.nonempty_part(p)]
            if len([p for p in live if not isinstance(p, str)]) > 1:
                return None
            ps = live
            ts = [p for p in ps if not isinstance(p, str)]
        if not ts:
            c = "".join(ps)
            f = {"full": "fullmatch", "prefix": "match", "search": "search"}[mode]
            return getattr(re.compile(pattern, flags), f)(c) is not None
        i = ps.index(ts[0])
        try:
            return self.ask(ts[0], pattern, flags, mode, "".join(ps[:i]), "".join(ps[i + 1:]))
        except Unsupported:
            return None

    def token_truth(self, s):
        if any(isinstance(p, str) for p in self.parts(s)):
            return True
        for p in self.parts(s):
            try:
                if self.nonempty_part(p):
                    return True
            except Unsupported:
                return None
        return False

    def token_eq(self, a, b):
        if has_token(a) and has_token(b):
            if a == b:
                return True
            for x, y in ((a, b), (b, a)):
                px, py = self.parts(x), self.parts(y)
                if len(px) == len(py) == 1 and not isinstance(px[0], str) and not isinstance(py[0], str) and px[0].base == py[0].base:
                    n = len(px[0].ops)
                    more = py[0].ops[n:]
                    if more and py[0].ops[:n] == px[0].ops and all(o[0] == "strip" and o[1] in "lr" for o in more):
                        # the same when there is nothing to strip
                        ok = True
                        for _, side, chars in more:
                            c = "\\s" if chars is None else "".join(re.escape(c) for c in chars)
                            if c and ok:
                                ok = self.test(x, f"(?:[^{c}](?:.|\n)*)?" if side == "l" else f"(?:(?:.|\n)*[^{c}])?")
                        return ok
            return None
        x, y = (a, b) if has_token(a) else (b, a)
        if y == "" and len(self.parts(x)) > 1:
            # empty when every part of it is
            for p in self.parts(x):
                r = False if isinstance(p, str) else self.ask(p, "")
                if not r:
                    return r
            return True
        return self.test(x, re.escape(y))

    def token_in(self, a, b):
        if has_token(a):
            if has_token(b) or len(b) > 16:
                return None
            subs = {b[i:j] for i in range(len(b) + 1) for j in range(i, len(b) + 1)}
            return self.test(a, "|".join(re.escape(x) for x in sorted(subs, key=lambda x: (-len(x), x))))
        return self.test(b, re.escape(a), 0, "search")

    def token_slice(self, s, i, j):
        ps = self.parts(s)
        r = self.cut(ps, i, j)
        if r is None:
            if len(ps) == 1:
                f = self.between.get((ps[0].base, ps[0].ops))
                return self.op(ps[0], ("factor", i in (None, 0), j is None, "somewhere"), *([f] if f else []))
            return None
        return r

    def cut(self, ps, i, j):
        if any(x == "?" for x in (i, j)):
            return None
        i = i or 0
        if j is None and i == 0:
            return self.text(ps)
        # from a constant beginning or end
        if i > 0 and (j is None or j < 0) and ps and isinstance(ps[0], str):
            n = min(i, len(ps[0]))
            return self.cut(([ps[0][n:]] if ps[0][n:] else []) + ps[1:], i - n, j)
        if i == 0 and j is not None and j < 0 and ps and isinstance(ps[-1], str):
            n = min(-j, len(ps[-1]))
            return self.cut(ps[:-1] + ([ps[-1][:-n]] if ps[-1][:-n] else []), 0, j + n if j + n else None)
        if i == 0 and j is not None and j > 0 and ps and isinstance(ps[0], str):
            n = min(j, len(ps[0]))
            rest = self.cut(ps[1:], 0, j - n) if j - n else ""
            return None if rest is None else ps[0][:n] + rest
        if i == -1 and j is None and ps and isinstance(ps[-1], str):
            return ps[-1][-1:]
        if not ps or i == 0 and j == 0:
            return ""
        if len(ps) == 1:
            try:
                Take(i, j)
            except Unsupported:
                return None
            return self.op(ps[0], ("slice", i, j))
        try:
            if i > 0 and (j is None or j == -1) and not self.nonempty_part(ps[0]):
                return self.cut(ps[1:], i, j)
            if i == 1 and j is None:
                return self.op(ps[0], ("slice", 1, None)) + self.text(ps[1:])
            if i == 0 and j == -1:
                if not self.nonempty_part(ps[-1]):
                    return self.cut(ps[:-1], i, j)
                return self.text(ps[:-1]) + self.op(ps[-1], ("slice", 0, -1))
            if i == 0 and j == 1:
                if not self.nonempty_part(ps[0]):
                    return self.cut(ps[1:], i, j)
                return self.op(ps[0], ("slice", 0, 1))
        except Unsupported:
            pass
        return None

    def text(self, ps):
        return "".join(p if isinstance(p, str) else p.ch for p in ps)

    def token_item(self, s, idx):
        """A character of a string: "" if it has none."""
        if not isinstance(idx, int):
            return None
        ps = self.parts(s)
        try:
            while ps and idx in (0, -1) and not isinstance(ps[idx], str) and not self.nonempty_part(ps[idx]):
                ps.pop(idx)
            if not ps:
                return ""
            p = ps[0 if idx >= 0 else -1]
            if isinstance(p, str):
                if idx in (0, -1) or len(ps) == 1:
                    return p[idx] if -len(p) <= idx < len(p) else ""
                return None
            if idx == 0:
                return self.op(p, ("slice", 0, 1))
            if idx == -1:
                return self.op(p, ("slice", -1, None))
        except Unsupported:
            pass
        return None

    # ---- strings
    def str_on(self, I, name, s, args, kwargs, sv, st):
        ca = I.const_args(args, kwargs)
        lab = lambda x: const(x).labelled(sv.may, sv.must) if x is not None else None  # noqa: E731
        if name in ("strip", "lstrip", "rstrip") and ca is not None and len(ca) <= 1 and not (ca and ca[0] is not None and has_token(ca[0])):
            return lab(self.strip(self.parts(s), {"strip": "b", "lstrip": "l", "rstrip": "r"}[name], ca[0] if ca else None))
        if name in ("split", "splitlines"):
            sep = LINESEP if name == "splitlines" else re.escape(ca[0]) if ca and isinstance(ca[0], str) and len(ca) == 1 and not has_token(ca[0]) else None
            keep = name == "splitlines" and bool(ca or kwargs)
            if sep and not keep:
                r = self.split(I, s, sep, name == "splitlines", st)
                if r is not None:
                    return r
            return None
        if name in ("isspace", "isdigit", "isdecimal"):
            m = self.test(s, r"\s+" if name == "isspace" else r"\d+")
            return BOOL if m is None else TRUE if m else FALSE
        if name == "isascii":
            m = self.test(s, "[\x00-\x7f]*")
            return BOOL if m is None else TRUE if m else FALSE
        if name in ("lower", "upper", "casefold", "title"):
            if len(self.parts(s)) == 1:
                return lab(self.op(self.toks[s], ("case", name)))
            return STR_T.labelled(sv.may, sv.must)
        if name in ("startswith", "endswith") and ca is not None and len(ca) == 1:
            what = ca[0] if isinstance(ca[0], tuple) else (ca[0],)
            if all(isinstance(w, str) and not has_token(w) for w in what):
                alt = "(?:" + "|".join(map(re.escape, what)) + ")" if what else "(?!)"
                m = self.test(s, alt + "(?:.|\n)*" if name == "startswith" else "(?:.|\n)*" + alt)
                return BOOL if m is None else TRUE if m else FALSE
            return BOOL
        if name in ("removeprefix", "removesuffix") and ca is not None and len(ca) == 1 and isinstance(ca[0], str) and not has_token(ca[0]) and ca[0]:
            w = ca[0]
            pre = name == "removeprefix"
            m = self.test(s, re.escape(w) + "(?:.|\n)*" if pre else "(?:.|\n)*" + re.escape(w))
            if m is None:
                return STR.labelled(sv.may, sv.must)
            r = s if not m else self.token_slice(s, len(w), None) if pre else self.token_slice(s, 0, -len(w))
            return lab(r) if r is not None else STR.labelled(sv.may, sv.must)
        if name == "replace" and ca is not None and len(ca) == 2 and not kwargs and all(isinstance(x, str) for x in ca) and ca[0] and not any(map(has_token, ca)):
            return lab(self.each(s, ("replace", *ca)))
        if name == "translate" and len(args) == 1:
            tab = self.table(I, args[0], st)
            return lab(self.each(s, ("translate", tab))) if tab is not None else STR.labelled(sv.may, sv.must)
        if name == "__str__":
            return lab(s)
        if name in ("encode", "find", "index", "count", "rfind", "__len__"):
            return None
        return None

    def each(self, s, op):
        out = []
        for p in self.parts(s):
            if isinstance(p, str):
                if op[0] == "replace":
                    out.append(p.replace(op[1], op[2]))
                elif op[0] == "translate":
                    out.append(p.translate(dict(op[1])))
                elif op[0] == "sub":
                    out.append(re.sub(op[1], op[3], p, flags=op[2]))
                else:
                    out.append(re.sub(op[1], self.fn[op], p, flags=op[2]))
            else:
                out.append(self.op(p, op))
        return "".join(out)

    def strip(self, ps, side, chars):
        ps = list(ps)
        if side in ("l", "b"):
            ps = self.strip1(ps, "l", chars)
        if ps is not None and side in ("r", "b"):
            ps = self.strip1(ps, "r", chars)
        return None if ps is None else self.text(ps)

    def strip1(self, ps, side, chars):
        f = (lambda c: c.lstrip(chars)) if side == "l" else (lambda c: c.rstrip(chars))
        k = 0 if side == "l" else -1
        cls = r"\s" if chars is None else "[" + re.escape(chars) + "]"
        while ps:
            p = ps[k]
            if isinstance(p, str):
                if f(p):
                    ps[k] = f(p)
                    return ps
                ps.pop(k)
                continue
            if len(ps) > 1:
                try:
                    if not self.ask(p, f"(?:.|\n)*[^{cls[1:-1] if chars is not None else cls}](?:.|\n)*"):
                        ps.pop(k)
                        continue
                except Unsupported:
                    return None
            ps[k] = self.toks[self.op(p, ("strip", side, chars))]
            return ps
        return ps

    def split(self, I, s, sep, lines, st):
        ps = self.parts(s)
        if len(ps) != 1:
            return None
        (p,) = ps
        try:
            if lines and not self.nonempty_part(p):
                return self.new_list(I, st, [])
        except Unsupported:
            return None
        key = (p.base, p.ops, "split", sep)
        if key not in self.answers:
            self.answers[key] = self.runs.choose(("s", len(p.ops), sep), self.pieces)
        k = self.answers[key] + 1
        try:
            none = Sim(NFA(sep), "search")
        except (ValueError, re.error):
            return None
        out = []
        for i in range(k):
            if k == 1:
                # splitlines() drops a line break at the end
                ops = (("factor", True, not lines), ("filter", none, False, "", ""))
            else:
                ops = (("factor", i == 0, i == k - 1 and not lines), ("filter", none, False, "", ""))
            out.append(const(self.op_nth(p, ops, i, k)))
        return self.new_list(I, st, out)

    def findall(self, I, s, pat, flags, st):
        """Up to so many parts of the string, each in the language of the pattern, or of its only group."""
        ps = self.parts(s)
        if len(ps) != 1 or isinstance(ps[0], str):
            return None
        try:
            n = NFA(pat, flags)
            if n.tree.state.groups > 2:
                return None
            if n.tree.state.groups == 2:
                g = [av[3] for op, av in n.tree if op is sc.SUBPATTERN and av[0] == 1]
                if len(g) != 1:
                    return None
                n = NFA(pat, flags, seq=g[0])
            sim = Sim(n)
        except (ValueError, re.error, RecursionError):
            return None
        try:
            none = Filter(automaton(pat, flags, "search"), False)
        except ValueError:
            none = None
        (p,) = ps
        key = (p.base, p.ops, "findall", pat)
        if key not in self.answers:
            self.answers[key] = self.runs.choose(("f", len(p.ops), pat), self.pieces)
        k = self.answers[key]
        if k == 0 and none is not None:
            self.known.setdefault((p.base, p.ops), []).append(none)
        out = [const(self.op_nth(p, (("factor", False, False), ("filter", sim, True, "", "")), i, k)) for i in range(k)]
        return self.new_list(I, st, out)

    def finditer(self, I, s, pat, flags, st):
        """No match, or one: of some alternative of the pattern, with what is in its groups."""
        try:
            found = self.test(s, pat, flags, "search")
        except Unsupported:
            return None
        if found is False:
            return self.new_list(I, st, [])
        ps = self.parts(s)
        if len(ps) != 1 or isinstance(ps[0], str) or not found:
            return None
        (p,) = ps
        try:
            n = NFA(pat, flags)
            alts = list(n.tree)
            alts = alts[0][1][1] if len(alts) == 1 and alts[0][0] is sc.BRANCH else [alts]
            self.between[p.base, p.ops] = ("filter", automaton(pat, flags, "search"), False, "", "")
            out = []
            for i in range(1):
                x = alts[self.runs.choose(("a", i, pat), len(alts))]
                groups = {av[0]: av[3] for op, av in x if op is sc.SUBPATTERN and av[0]}
                m = {0: self.op(p, ("factor", False, False), ("filter", Sim(NFA(pat, flags, seq=bare(x))), True, "", ""))}
                for g, y in groups.items():
                    m[g] = self.op(p, ("factor", False, False), ("filter", Sim(NFA(pat, flags, seq=y)), True, "", ""))
                for g in range(1, n.tree.state.groups):
                    m.setdefault(g, None)
                key = ("match", s, pat, flags, i)
                self.matches[key] = Found(m)
                out.append(V(frozenset([("xi", "re.Match", "T")]), frozenset([key]), frozenset([key])))
        except (ValueError, re.error, RecursionError):
            return None
        return self.new_list(I, st, out)

    def op_nth(self, p, ops, i, k):
        # the same operations for each piece, but a placeholder of its own
        key = (p.base, p.ops, ops[1][1].n.pattern, i, k)
        self.nth = getattr(self, "nth", {})
        if key not in self.nth:
            self.nth[key] = self.op(p, ops[0], ops[1], ("filter", Sim(NFA("(?:.|\n)*")), True, "", ""))
        return self.nth[key]

    def new_list(self, I, st, items):
        self.lists = getattr(self, "lists", 0) + 1
        return I.alloc(st, f"pieces{self.lists}", Obj("list", must=tuple(items)))

    # ---- regular expressions
    def regex_on(self, I, F, node, p, name, a, b, s, st):
        pat, flags = p[1], p[2] or 0
        if a[0] != "c" or pat is None:
            return STR if name == "sub" else V(frozenset([NONE_A, ("xi", "re.Match", "T")]), s.may, s.must)
        if name in ("match", "fullmatch", "search"):
            self.asked.append((F.where(node), pat, name, a[2]))
            if not has_token(a[2]) and set(b) <= {"string"}:
                return self.match_value(getattr(re.compile(pat, flags), name)(a[2]))
            r = None
            if set(b) <= {"string"}:
                r = self.test(a[2], pat, flags, {"match": "prefix", "fullmatch": "full", "search": "search"}[name])
            atoms = {True: [("xi", "re.Match", "T")], False: [NONE_A], None: [("xi", "re.Match", "T"), NONE_A]}[r]
            return V(frozenset(atoms), s.may, s.must)
        if name == "sub" and "count" not in b:
            rv = b.get("repl")
            if rv is not None and len(rv.atoms) == 1:
                (x,) = rv.atoms
                op = None
                if x[0] == "c" and isinstance(x[2], str) and not has_token(x[2]):
                    op = ("sub", pat, flags, x[2])
                elif x[0] in ("f", "bm", "bx"):
                    op = ("subf", pat, flags, x)
                    if op not in self.fn:
                        self.fn[op] = self.function(I, F, node, rv, st)
                if op is not None:
                    try:
                        self.stage(op)
                        return const(self.each(a[2], op)).labelled(s.may, s.must)
                    except (Unsupported, ValueError, re.error) as e:
                        self.unknown.append(f"{F.where(node)}: {e}")
            return STR.labelled(s.may, s.must)
        return STR if name == "sub" else None

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        if dotted == "re.Pattern.findall" and len(args) == 2 and not kwargs and len(args[1].atoms) == 1:
            (p,), (a,) = args[0].atoms, args[1].atoms
            if a[0] == "c" and has_token(a[2]) and p[1] is not None:
                r = self.findall(I, a[2], p[1], p[2] or 0, st)
                if r is not None:
                    return r
        if dotted == "re.Pattern.finditer" and len(args) == 2 and not kwargs and len(args[1].atoms) == 1:
            (p,), (a,) = args[0].atoms, args[1].atoms
            if a[0] == "c" and isinstance(a[2], str) and p[1] is not None:
                if not has_token(a[2]):
                    return self.new_list(I, st, [self.match_value(m) for m in re.compile(p[1], p[2] or 0).finditer(a[2])])
                r = self.finditer(I, a[2], p[1], p[2] or 0, st)
                if r is not None:
                    return r
        if dotted == "re.Pattern.split":
            (p,) = args[0].atoms
            b = dict(zip(["string", "maxsplit"], args[1:]))
            b.update(kwargs)
            s = b.get("string")
            if s is not None and len(s.atoms) == 1 and set(b) == {"string"} and p[1] is not None:
                (a,) = s.atoms
                if a[0] == "c" and has_token(a[2]) and not re.compile(p[1], p[2] or 0).groups:
                    fl = p[2] or 0
                    r = self.split(I, a[2], p[1], False, st) if not fl & ~re.UNICODE else None
                    if r is not None:
                        return r
        if dotted == "str.translate" and len(args) == 2 and len(args[0].atoms) == 1:
            (a,) = args[0].atoms
            tab = self.table(I, args[1], st) if a[0] == "c" and not has_token(a[2]) else None
            if tab is not None:
                return const(a[2].translate(dict(tab))).labelled(args[0].may, args[0].must)
        if dotted.startswith("re.Match."):
            m = self.match_of(args[0])
            if m is not None:
                ca = I.const_args(args[1:], kwargs)
                name = dotted[9:]
                if ca is not None and name in ("start", "end", "span", "group", "groups"):
                    try:
                        return self.to_value(getattr(m, name)(*ca))
                    except (IndexError, TypeError, KeyError, AttributeError):
                        return None
        return super().call_ext(I, F, node, dotted, args, kwargs, st)

    def to_value(self, x):
        if isinstance(x, tuple):
            return mk(("t", tuple(self.to_value(y) for y in x)))
        return NONE if x is None else const(x)

    def match_value(self, m):
        if m is None:
            return NONE
        k = ("match", m.re.pattern, m.re.flags, m.string, m.span())
        self.matches[k] = m
        return V(frozenset([("xi", "re.Match", "T")]), frozenset([k]), frozenset([k]))

    def match_of(self, v):
        ks = [l for l in v.must if isinstance(l, tuple) and l and l[0] == "match"]
        return self.matches.get(ks[0]) if len(ks) == 1 and len(v.atoms) == 1 else None

    def match_group(self, v, idx):
        m = self.match_of(v)
        if m is None:
            return None
        try:
            return self.to_value(m[idx])
        except (IndexError, TypeError, KeyError):
            return None

    def function(self, I, F, node, fv, st):
        """The function given to sub(), as a function on matches of known strings."""
        cache = {}
        st = st.copy()

        def f(m):
            k = (m.re.pattern, m.group(), m.groups())
            if k not in cache:
                v = self.match_value(re.compile(m.re.pattern, m.re.flags).fullmatch(m.group()) or m)
                s2 = st.copy()
                hooks, I.hooks = I.hooks, self
                steps, I.steps = I.steps, 0
                try:
                    r = I.call_value(fv, [v], {}, s2, F, node)
                finally:
                    I.hooks, I.steps = hooks, steps
                if not (len(r.atoms) == 1 and next(iter(r.atoms))[0] == "c" and isinstance(next(iter(r.atoms))[2], str)):
                    raise Unsupported("the result of a replacement function is not known exactly")
                cache[k] = next(iter(r.atoms))[2]
            return cache[k]
        return f
