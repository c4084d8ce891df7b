"""Placeholders for unknown strings inside constant strings.

A placeholder is one character of a private plane; the program's concatenations keep it as it is, so that what surrounds it in
the output is known exactly.  Character-wise replacements are recorded as a chain of operations, whose effect on any one
character can be read off; everything else about the string stays unknown, except membership in languages given for it.
"""
from __future__ import annotations

import re

from .domain import *
from .domain import V
from .interp import NONE_A, Hooks
from .rxnfa import ANY, NFA, Sim, automaton, inter, norm, witness

BASE = 0x10F000


class Token:
    __slots__ = ("ch", "base", "ops", "lang", "inside")

    def __init__(self, ch, base=None, ops=(), lang=None, inside=None):
        self.ch, self.base, self.ops, self.lang, self.inside = ch, base or self, ops, lang, inside


class Tokens(Hooks):
    """lang: a list of automata; inside: whether the string is in the union of their languages or outside of it."""

    def __init__(self):
        self.toks = {}
        self.cache = {}
        self.asked = []

    def token(self, lang=None, inside=True, base=None, ops=()):
        for t in self.toks.values():
            if base is not None and t.base is base and t.ops == ops:
                return const(t.ch)
        ch = chr(BASE + len(self.toks))
        self.toks[ch] = Token(ch, base, ops, lang if base is None else base.lang, inside if base is None else base.inside)
        return const(ch)

    # ---- languages
    def member(self, tok, pattern, flags, mode):
        """True, False or None: whether the pattern matches the string tok stands for."""
        if tok.lang is None or tok.ops and not self.unchanged(tok):
            return None
        if tok.ops:
            tok = tok.base
        k = (id(tok), pattern, flags, mode)
        if k not in self.cache:
            try:
                sims = [automaton(pattern, flags, mode)] + [Sim(x) for x in tok.lang]
                if tok.inside:
                    yes = witness(sims, lambda r, *l: any(l) and not r) is None
                    no = witness(sims, lambda r, *l: any(l) and r) is None
                else:
                    yes = witness(sims, lambda r, *l: not any(l) and not r) is None
                    no = witness(sims, lambda r, *l: not any(l) and r) is None
                self.cache[k] = True if yes else False if no else None
            except (ValueError, RecursionError, re.error):
                self.cache[k] = None
        return self.cache[k]

    def unchanged(self, tok):
        """Whether no character of the language of a placeholder is changed by what was done to it."""
        if not tok.base.inside or tok.base.lang is None:
            return False
        ch = self.changed(tok)
        return not any(inter(ch, c) for n in tok.base.lang for c in n.classes)

    def changed(self, tok):
        """The characters that the operations on a placeholder may change."""
        iv = []
        for op in tok.ops:
            if op[0] == "replace":
                iv.append((ord(op[1]), ord(op[1])))
            elif op[0] == "translate":
                iv += [(k, k) for k, _ in op[1]]
            else:
                try:
                    n = NFA(op[1], op[2])
                    for c in n.classes:
                        iv += c
                except (ValueError, re.error):
                    return ANY
        return norm(iv)

    def token_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            t = self.toks.get(x)
            if t is not None and not has_token(y):
                m = self.member(t, re.escape(y), 0, "full")
                if m is False:
                    return False
        return None

    # ---- operations
    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        if dotted.startswith("re.Pattern."):
            name = dotted[11:]
            rest = args[1:]
            names = ["repl", "string", "count"] if name in ("sub", "subn") else ["string", "pos", "endpos"]
            b = dict(zip(names, rest))
            b.update(kwargs)
            s = b.get("string")
            if s is None or not s.atoms or not all(a[0] == "c" and isinstance(a[2], str) for a in s.atoms) or name not in ("match", "fullmatch", "search", "sub"):
                return None
            (p,) = args[0].atoms
            if p[0] == "xi":  # not known which pattern
                return None
            outs = []
            for a in s.atoms:
                outs.append(self.regex_on(I, F, node, p, name, a, b, s, st))
            return join_all(outs)
        if dotted.startswith("str."):
            s = args[0]
            if len(s.atoms) == 1:
                (a,) = s.atoms
                if a[0] == "c" and has_token(a[2]):
                    return self.str_on(I, dotted[4:], a[2], args[1:], kwargs, s, st)
        return None

    def regex_on(self, I, F, node, p, name, a, b, s, st):
        pat, flags = p[1], p[2] or 0
        if a[0] != "c":
            return STR if name == "sub" else V(frozenset([NONE_A, ("xi", "re.Match", "T")]), s.may, s.must)
        t = self.toks.get(a[2])
        if name in ("match", "fullmatch", "search"):
            self.asked.append((F.where(node), pat, name, a[2]))
            r = None
            if pat is not None and len(b) == 1:
                mode = {"match": "prefix", "fullmatch": "full", "search": "search"}[name]
                if t is not None:
                    r = self.member(t, pat, flags, mode)
                elif not has_token(a[2]):
                    r = getattr(re.compile(pat, flags), name)(a[2]) is not None
            atoms = {True: [("xi", "re.Match", "T")], False: [NONE_A], None: [("xi", "re.Match", "T"), NONE_A]}[r]
            return V(frozenset(atoms), s.may, s.must)
        if name == "sub" and pat is not None and "count" not in b:
            rv = b.get("repl")
            if rv is not None and len(rv.atoms) == 1:
                (x,) = rv.atoms
                if x[0] == "c" and isinstance(x[2], str) and not has_token(x[2]):
                    return const(self.each(a[2], ("sub", pat, flags, x[2])))
                if x[0] in ("f", "bm"):
                    self.keep_fn = getattr(self, "keep_fn", {})
                    self.keep_fn[x] = (rv, st.copy())
                    return const(self.each(a[2], ("subf", pat, flags, x)))
        return STR if name == "sub" else None

    def each(self, s, op):
        """Apply a replacement to a string of placeholders and other characters, each for itself."""
        out = []
        for part in re.split("([\U0010F000-\U0010FFFF])", s):
            if part in self.toks:
                t = self.toks[part]
                (x,) = self.token(base=t.base, ops=t.ops + (op,)).atoms
                out.append(x[2])
            elif op[0] == "replace":
                out.append(part.replace(op[1], op[2]))
            elif op[0] == "sub":
                out.append(re.sub(op[1], op[3], part, flags=op[2]))
            elif op[0] == "translate":
                out.append(part.translate(dict(op[1])))
            else:
                out.append(part if op[0] != "subf" else "".join(self.image_fn(op, c) for c in part))
        return "".join(out)

    def str_on(self, I, name, s, args, kwargs, sv, st):
        ca = I.const_args(args, kwargs)
        if name == "replace" and ca is not None and len(ca) == 2 and not kwargs and all(isinstance(x, str) for x in ca) and len(ca[0]) == 1 \
                and not any(map(has_token, ca)):
            return const(self.each(s, ("replace", *ca)))
        if name == "translate" and len(args) == 1:
            tab = self.table(I, args[0], st)
            if tab is not None:
                return const(self.each(s, ("translate", tab)))
            return STR_T.labelled(sv.may, sv.must)
        if name in ("startswith", "endswith") and ca is not None and len(ca) == 1:
            return self.edge(name, s, ca[0])
        if name == "__str__":
            return const(s)
        return None

    def edge(self, name, s, what):
        what = what if isinstance(what, tuple) else (what,)
        res = set()
        for w in what:
            if not isinstance(w, str) or has_token(w):
                return BOOL
            end = s[:len(w)] if name == "startswith" else s[-len(w):] if w else ""
            if end == w:
                return TRUE
            t = self.toks.get(s[0] if name == "startswith" else s[-1])
            if not has_token(end):
                res.add(False)
            elif t is not None and not t.ops and t.lang is not None and len(w) <= 1:
                m = self.member(t, (re.escape(w) + "(?:.|\n)*") if name == "startswith" else ("(?:.|\n)*" + re.escape(w)), 0, "full")
                res |= {True, False} if m is None else {m}
            else:
                res |= {True, False}
        if True in res:
            return BOOL
        return FALSE

    def table(self, I, v, st):
        if len(v.atoms) != 1:
            return None
        (a,) = v.atoms
        if a[0] != "o" or st.heap[a[1]].kind != "dict":
            return None
        o = st.heap[a[1]]
        if o.elem is not None or o.must:
            return None
        out = []
        for k, x in sorted(o.items.items(), key=repr):
            c = I.const_args([x], {})
            if c is None:
                return None
            out.append((ord(k) if isinstance(k, str) and len(k) == 1 else k, c[0]))
        return tuple(out)

    def image_fn(self, op, c):
        raise ValueError("a replacement function is not followed here")

    # ---- reading off
    def image(self, ch, c):
        """What a character c of the original string has become in the placeholder ch."""
        t = self.toks[ch]
        for op in t.ops:
            if op[0] == "replace":
                c = c.replace(op[1], op[2])
            elif op[0] == "sub":
                c = re.sub(op[1], op[3], c, flags=op[2])
            elif op[0] == "translate":
                c = c.translate(dict(op[1]))
            elif op[0] == "subf":
                c = "".join(self.image_fn(op, x) if re.fullmatch(op[1], x, op[2]) else x for x in c)
        return c

    def find(self, s):
        """(placeholder, text before, text after) of each placeholder in a constant string."""
        for i, c in enumerate(s):
            if c in self.toks:
                yield self.toks[c], s[:i], s[i + 1:]
