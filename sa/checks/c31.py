"""Abstract interpretation of mf2_validate_message() on every shape of message of the JSON data model check and on each of them with
one node removed, doubled or replaced, as well as on every graph of up to three declarations, in every order of their names; texts
are placeholders for unknown strings, with every answer to a question about them followed.  It has to complete just where the
rules of the MessageFormat 2 data model, written down independently of the code in sa/mf2rules.py, allow the message, and to
leave the declarations in an order in which each comes after those that it depends on, and everything else as it was."""
from __future__ import annotations

import itertools

from ..chains import Runs, Undecided
from ..domain import *
from ..evalmod import Interp
from ..inputs import Build
from ..jsonshape import Inst, read
from ..mf2rules import MF2Make, Names, Rules, build, graphs, mutants, refs
from ..par import parallel
from ..run import call, find_func
from ..xduce import TooLarge, Unsupported
from .c09 import exceptions, shapes

RULE = "mf2_validate_message(m) completes if and only if m keeps the MF2 data model rules; declarations end up after their dependencies"
ASSUMPTIONS = [
    "messages have up to two of each repeated part, and up to three declarations; the validation of each part is independent of the others",
    "different names of a message are written as different placeholders, that is, they are not equal",
    "a pattern that is some other iterable than a list may be rejected or not",
]
FN = "moz.l10n.formats.mf2.validate:mf2_validate_message"


DOCUMENTED = "MF2ValidationError"


class Distinct(Names):
    """Unknown names are not equal to any constant either."""

    def token_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if has_token(x) and not has_token(y) and all(not isinstance(p, str) and p.lang is not None for p in self.parts(x)):
                return False
        return super().token_eq(a, b)


def outcomes(I, fv, limit, make):
    """(hooks, tree before, outcome, tree after or None) for each way of answering what is asked, and why others are undecided."""
    why = set()
    for run in Runs(limit):
        h = Distinct(run)
        I.hooks = h
        st = I.base.copy()
        try:
            x, orig = make(h, st)
            r = call(I, fv, [x], {}, st)
            yield h, orig, r, read(x, r.state) if r.completes else None
        except (Unsupported, TooLarge, Undecided) as e:
            why.add(str(e))
    if why:
        yield None, why, None, None


def skeleton(I, sh):
    """The tree of a shape; its placeholders are the same in each run."""
    h = Distinct(Runs(1))
    I.hooks = h
    st = I.base.copy()
    return read(MF2Make(h, Build(I, st)).message(sh), st)


def maker(I, sh, tree=None):
    def make(h, st):
        if tree is None:
            x = MF2Make(h, Build(I, st)).message(sh)
            return x, read(x, st)
        MF2Make(h, Build(I, I.base.copy())).message(sh)
        return build(Build(I, st), tree), tree

    return make


def names_of(h):
    return {c for c, t in h.toks.items() if t.lang is not None}


def ordered(before, after):
    """Whether after is before with its declarations in an order that respects their dependencies."""
    a, b = before.attrs, after.attrs
    d, e = a["declarations"], b["declarations"]
    if before.cls != after.cls or any(a[k] != b[k] for k in a if k != "declarations") or d != e:
        return False
    seen = set()
    for n, x in e.items():
        if any(y in e and y not in seen for y in refs(n, x)):
            return False
        seen.add(n)
    return True


def shape(rep, I, fv, name, sh, limit):
    tree = skeleton(I, sh)
    for what, t in [(None, None), *mutants(tree)]:
        key = name if what is None else f"{name}: /{'/'.join(map(word, what[0]))} {what[1] if what[1] in ('removed', 'doubled') else 'replaced by ' + (what[1].cls if isinstance(what[1], Inst) else repr(what[1]))}"
        judge(rep, I, fv, key, outcomes(I, fv, limit, maker(I, sh, t)), "changed messages" if what else "valid messages", what)


def word(x):
    return "*" if isinstance(x, str) and has_token(x) else str(x)


def judge(rep, I, fv, key, outs, kind, what=None):
    fail, seen = None, 0
    for h, orig, r, after in outs:
        if h is None:
            rep.notes.append(f"{key}: undecided: {', '.join(sorted(orig))[:200]}")
            continue
        ok = Rules(names_of(h)).message(orig)
        if ok is None:
            continue
        seen += 1
        if ok and not r.completes:
            fail = "valid", f"is rejected although it keeps the rules ({', '.join(exceptions(r))})"
        elif not ok and r.completes:
            fail = "invalid", "is accepted although it breaks the rules"
        elif not ok and not exceptions(r):
            fail = "stuck", "is neither accepted nor rejected: the validation does not end"
        elif ok and not ordered(orig, after):
            fail = "order", f"is left with its declarations in the order {', '.join(after.attrs['declarations'])}" if not any(map(has_token, after.attrs["declarations"])) else "is changed, or the order of its declarations breaks dependencies"
        if fail:
            break
    if seen:
        rep.saw(kind, key)
    if fail:
        rep.bad(f"mf2_validate_message:{fail[0]}" + (":" + "/".join(map(word, what[0])) if what else ""), f"mf2_validate_message(): a message with {key} {fail[1]}")
    elif seen:
        rep.ok(key)


def graph(rep, I, fv, k, es, inputs, names, limit):
    def make(h, st):
        b = Build(I, st)
        decls = {}
        for i in range(k):
            to = [names[j] for q, j in es if q == i]
            arg = Inst("VariableRef", {"name": names[i]}) if inputs[i] else Inst("VariableRef", {"name": to.pop(0)}) if to else next(iter(h.token().atoms))[2]
            decls[names[i]] = Inst("Expression", {"arg": arg, "function": "f", "options": {f"o{j}": Inst("VariableRef", {"name": n}) for j, n in enumerate(to)}, "attributes": {}})
        t = Inst("PatternMessage", {"pattern": [], "declarations": decls})
        return build(b, t), t

    key = "declarations " + ", ".join(f"{n}{' (input)' if inputs[i] else ''}{' of ' + ' and '.join(names[j] for q, j in es if q == i) if any(q == i for q, _ in es) else ''}" for i, n in enumerate(names[:k]))
    judge(rep, I, fv, key, outcomes(I, fv, limit, make), "graphs of declarations", (("declarations",), None))


def ways(names, depth=0):
    """Declarations for the first of the names, and whether a selector of it is annotated."""
    n = names[0]
    for fn in (None, "f"):
        yield {n: expression(Inst("VariableRef", {"name": n}), fn)}
        yield {n: expression("x", fn)}
        yield {n: expression(Inst("VariableRef", {"name": "z"}), fn)}
    yield {n: expression(None, "f")}
    yield {}
    if depth < 2:
        for w in ways(names[1:], depth + 1):
            yield {n: expression(Inst("VariableRef", {"name": names[1]}), None), **w}


def expression(arg, fn):
    return Inst("Expression", {"arg": arg, "function": fn, "options": {}, "attributes": {}})


def selectors(rep, I, fv, every, limit):
    """Every way in which up to two selectors may be annotated."""
    star = Inst("CatchallKey", {"value": None})
    for ws in every:
        decls = {k: v for w in ws for k, v in w.items()}
        sels = tuple(Inst("VariableRef", {"name": n}) for n in "ad"[:len(ws)])
        t = Inst("SelectMessage", {"declarations": decls, "selectors": sels, "variants": {(star,) * len(ws): ["x"]}})
        key = "selectors of " + "; ".join(", ".join(f"{n} = {say(e)}" for n, e in w.items()) or "nothing" for w in ws)
        judge(rep, I, fv, key, outcomes(I, fv, limit, lambda h, st: (build(Build(I, st), t), t)), "selector annotations", (("selectors",), None))


def say(e):
    a, f = e.attrs["arg"], e.attrs["function"]
    return "{" + ("" if a is None else "x" if isinstance(a, str) else "$" + a.attrs["name"]) + (" :f" if f else "") + "}"


def check(project, rep, tier):
    I = Interp(project).load_all()
    I.strict = I.explicit_only = True
    I.generations = 40
    fv = find_func(I, FN)
    limit = 40 if tier == "quick" else 1000
    every = shapes("mf2")

    def one(r, part):
        for i, (name, sh) in enumerate(every):
            if i % 16 == part:
                shape(r, I, fv, name, sh, limit)
        one_, two = list(ways("abc")), list(ways("def", 2))
        sel = [(w,) for w in one_] + [(v, w) for v in one_ for w in two]
        selectors(r, I, fv, sel[part::16], limit)
        n = 0
        for k in range(1, 4):
            for es, inputs in graphs(k):
                for names in itertools.permutations("abc"[:k]):
                    n += 1
                    if n % 16 == part:
                        graph(r, I, fv, k, es, inputs, names, limit)

    parallel(rep, one, range(16))
    rep.need("valid messages", 100)
    rep.need("changed messages", 1000)
    rep.need("selector annotations", 100)
    rep.need("graphs of declarations", 300)
