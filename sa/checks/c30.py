"""Abstract interpretation of normalize() on every message pattern of up to four parts (unknown texts, empty texts, expressions, markup)
and on every dependency graph of up to three declarations with every subset of them used, the strings being placeholders
for unknown strings with every answer to a question about them followed.  What normalize() returns is compared with the definition: the same parts, with adjacent
texts joined and empty ones dropped; the declarations that what is used refers to, transitively, in their order; and the same once more when
it is normalized again."""
from __future__ import annotations

import itertools

from ..chains import Runs, Undecided
from ..domain import *
from ..evalmod import Interp
from ..inputs import Build
from ..jsonshape import Inst, read
from ..par import parallel
from ..interp import Frame
from ..run import _Node, call
from ..xduce import TooLarge, Unsupported
from .c09 import Make, exceptions
from .c31 import Distinct

RULE = "normalize(x) is x with adjacent texts joined, empty texts and unused declarations dropped; normalize(normalize(x)) == normalize(x)"
ASSUMPTIONS = [
    "patterns of up to four parts, up to three declarations, two selectors, two variants; the loops treat longer ones alike",
    "different names of a message are written as different placeholders, that is, they are not equal",
]

PARTS = {"t": "a text", "": "an empty text", "e": "an expression", "m": "markup"}


def patterns(n):
    for k in range(n + 1):
        yield from itertools.product(PARTS, repeat=k)


def graphs(n):
    """Declarations 0…n-1: each refers to a set of others, or to itself (an .input); acyclic and cyclic."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for r in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, r):
            yield es


def expected(h, parts):
    """The parts with adjacent texts joined and empty ones dropped."""
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == "" or empty(h, p):
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def empty(h, s):
    """Whether an unknown string is empty; asked as the code asks it, and so answered alike."""
    return h.token_eq(s, "") is True


def same(h, a, b):
    """Whether two trees are the same; placeholders are unknown strings and only equal to themselves."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b or canon(h, a) == canon(h, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Inst):
        return a.cls == b.cls and a.attrs.keys() == b.attrs.keys() and all(same(h, a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(h, x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(h, k, j) and same(h, x, y) for (k, x), (j, y) in zip(a.items(), b.items()))
    return a == b


def canon(h, s):
    return "".join(c for c in s if not has_token(c) or not empty(h, c))


def show(t):
    if isinstance(t, Inst):
        return t.cls
    if isinstance(t, str):
        return repr("".join("…" if has_token(c) else c for c in t))
    if isinstance(t, list):
        return "[" + ", ".join(map(show, t)) + "]"
    return str(t)


def case(rep, I, key, name, make, want, limit):
    """Run normalize on the message of make and compare with what want says of the original."""
    why, fail, seen = set(), None, 0
    for run in Runs(limit):
        h = Distinct(run)
        I.hooks = h
        st = I.base.copy()
        b = Build(I, st)
        x = make(Make(h, b))
        try:
            orig = read(x, st)
            r = call(I, bound(I, x, st), [], {}, st)
            if not r.completes:
                fail = f"raises {', '.join(exceptions(r))}"
                break
            once, st2 = read(r.value, st), r.state
            w = want(h, orig)
            if not same(h, w, once) or not same(h, once, read(x, st2)):
                fail = f"becomes {diff(w, once)}"
                break
            r = call(I, bound(I, x, st2), [], {}, st2)
            twice = read(r.value, st2) if r.completes else None
            if twice is None or not same(h, once, twice):
                fail = f"becomes something else when it is normalized once more: {diff(once, twice)}"
                break
            seen += 1
        except (Unsupported, TooLarge, Undecided) as e:
            why.add(str(e))
    rep.saw("messages normalized", *([f"{key}: {name}"] if seen or fail else []))
    rep.saw("outcomes compared", *(f"{key}: {name}#{i}" for i in range(seen)))
    if why:
        rep.notes.append(f"{key}: {name}: undecided: {', '.join(sorted(why))[:200]}")
    if fail:
        rep.bad(key, f"{name} {fail}")
    elif seen:
        rep.ok(f"{key}: {name}")


def diff(w, got):
    if isinstance(w, Inst) and isinstance(got, Inst) and w.cls == got.cls:
        for k in w.attrs:
            if k not in got.attrs or repr(w.attrs[k]) != repr(got.attrs[k]):
                a, b = w.attrs[k], got.attrs.get(k)
                if isinstance(a, dict) and isinstance(b, dict):
                    if a.keys() == b.keys() and k == "declarations":
                        return "a message with other declarations or an other order of them"
                    return f"a message with {len(b)} instead of {len(a)} {k}, or others" if k == "declarations" else f"a message with {k} {[show(x) for x in b.values()]} instead of {[show(x) for x in a.values()]}"
                return f"a message with the {k} {show(b)} instead of {show(a)}"
    return show(got)


def bound(I, x, st):
    """x.normalize"""
    F = Frame(None, I.p.modules["moz.l10n.model"], "M:moz.l10n.model", [], 0)
    return I.get_attr(x, "normalize", st, F, _Node())


def check(project, rep, tier):
    I = Interp(project).load_all()
    I.strict = I.explicit_only = True
    I.generations = 40
    limit = 80 if tier == "quick" else 2000
    work = []
    for ps in patterns(4 if tier == "quick" else 5):
        work.append(("pattern", ps))
    for n in range(4):
        for es in graphs(n):
            for inputs in itertools.product((0, 1), repeat=n):
                for used in itertools.product((0, 1), repeat=n):
                    work.append(("declarations", (n, es, inputs, used)))
    for n in (4, 5):
        chain = tuple((i, i + 1) for i in range(n - 1))
        for es in (chain, tuple((j, i) for i, j in chain), ((0, 1), (0, 2), (1, 3), (2, 3)), ((3, 1), (3, 2), (1, 0), (2, 0))):
            for u in range(n):
                work.append(("declarations", (n, es, (0,) * n, tuple(int(i == u) for i in range(n)))))
    for i, _ in enumerate(uses(None, None, None)):
        for kind in ("pattern", "first", "last"):
            work.append(("used", (i, kind)))
    for a in patterns(2):
        for b in (("t", "t"), ("e", "", "m"), ()):
            work.append(("variants", (a, b)))

    def one(r, part):
        for i, (kind, x) in enumerate(work):
            if i % 32 == part:
                globals()[kind](r, I, x, limit)

    parallel(rep, one, range(32))
    rep.need("messages normalized", 300)


def pattern(rep, I, ps, limit):
    def make(m):
        return m.message(("p", "", *[{"e": ("e", "v"), "m": ("m", "open")}.get(p, p) for p in ps]))

    def want(h, o):
        return Inst(o.cls, {**o.attrs, "pattern": expected(h, o.attrs["pattern"])})

    case(rep, I, "PatternMessage.normalize:pattern", "a pattern of " + (", ".join(PARTS[p] for p in ps) or "nothing"), make, want, limit)


def variants(rep, I, x, limit):
    def make(m):
        return m.message(("s", "", 1, (("k", [{"e": ("e", "v"), "m": ("m", "open")}.get(p, p) for p in x[0]]), ("*", [{"e": ("e", "v"), "m": ("m", "open")}.get(p, p) for p in x[1]]))))

    def want(h, o):
        return Inst(o.cls, {**o.attrs, "variants": {k: expected(h, v) for k, v in o.attrs["variants"].items()}})

    case(rep, I, "SelectMessage.normalize:pattern", "variants of " + " and ".join(", ".join(PARTS[p] for p in ps) or "nothing" for ps in x), make, want, limit)


def uses(b, m, n):
    """(where, message) with the variable n used in one place, and in none"""
    def var(k=n):
        return b.inst("VariableRef", name=const(k))

    def expr(arg=NONE, fn=NONE, **opts):
        return b.inst("Expression", arg=arg, function=fn, options=b.dct(items=opts), attributes=b.dct())

    def markup(kind, **opts):
        return b.inst("Markup", kind=const(kind), name=m.name(), options=b.dct(items=opts), attributes=b.dct())

    yield "nowhere", lambda: [m.text()]
    yield "by other variables only", lambda: [expr(var("z"), m.name(), o=var("y"))]
    yield "as an operand", lambda: [expr(var())]
    yield "as an operand with a function", lambda: [m.text(), expr(var(), m.name())]
    yield "in an option of a function", lambda: [expr(NONE, m.name(), o=var())]
    yield "in an option of a literal", lambda: [expr(m.text(), m.name(), o=var())]
    yield "in an option of another variable", lambda: [expr(var("z"), m.name(), o=var())]
    yield "in a second option", lambda: [expr(m.text(), m.name(), o=m.text(), p=var())]
    yield "in an option after another one", lambda: [expr(m.text(), m.name(), o=var("z"), p=var())]
    for k in ("open", "standalone", "close"):
        yield f"in an option of {k} markup", lambda k=k: [m.text(), markup(k, o=var()), m.text()]
        yield f"in a second option of {k} markup", lambda k=k: [markup(k, o=m.text(), p=var())]
    yield "in the last part", lambda: [m.text(), expr(var("z")), markup("open"), expr(var())]


def used(rep, I, i, limit):
    """One declaration that is used in a single place."""
    i, kind = i

    def make(m):
        b = m.b
        n = next(iter(m.name().atoms))[2]
        _, parts = list(uses(b, m, n))[i]
        d = {n: b.inst("Expression", arg=m.text(), function=m.name(), options=b.dct(), attributes=b.dct())}
        if kind == "pattern":
            return b.inst("PatternMessage", pattern=b.lst(parts()), declarations=b.dct(items=d))
        s = next(iter(m.name().atoms))[2]
        d[s] = b.inst("Expression", arg=b.inst("VariableRef", name=const(s)), function=m.name(), options=b.dct(), attributes=b.dct())
        key = mk(("t", (m.key("k"),))), b.lst(parts() if kind == "first" else [m.text()])
        last = mk(("t", (m.key("*"),))), b.lst(parts() if kind == "last" else [m.text()])
        return b.inst("SelectMessage", declarations=b.dct(items=d), selectors=mk(("t", (b.inst("VariableRef", name=const(s)),))), variants=b.dct(must=[key, last]))

    def want(h, o):
        d = o.attrs["declarations"]
        gone = i < 2
        return Inst(o.cls, {**o.attrs, "declarations": {k: v for j, (k, v) in enumerate(d.items()) if j or not gone},
                            **({"pattern": expected(h, o.attrs["pattern"])} if "pattern" in o.attrs else {"variants": {k: expected(h, v) for k, v in o.attrs["variants"].items()}})})

    where = [w for w, _ in uses(None, None, None)][i]
    case(rep, I, "normalize:used", f"a declaration used {where}" + ("" if kind == "pattern" else f" of the {kind} variant"), make, want, limit)


def declarations(rep, I, x, limit):
    n, es, inputs, used = x

    def make(m):
        b = m.b
        names = [next(iter(m.name().atoms))[2] for _ in range(n)]
        decls = {}
        for i in range(n):
            refs = [names[j] for a, j in es if a == i]
            if inputs[i]:
                arg = b.inst("VariableRef", name=const(names[i]))
            elif refs:
                arg = b.inst("VariableRef", name=const(refs.pop(0)))
            else:
                arg = m.text()
            decls[names[i]] = b.inst("Expression", arg=arg, function=m.name(), options=b.dct(items={f"o{k}": b.inst("VariableRef", name=const(q)) for k, q in enumerate(refs)}), attributes=b.dct())
        ps = []
        for i in range(n):
            if used[i]:
                v = b.inst("VariableRef", name=const(names[i]))
                # as the operand, as an option, as an option of markup
                if i == 0:
                    ps.append(b.inst("Expression", arg=v, function=NONE, options=b.dct(), attributes=b.dct()))
                elif i == 1:
                    ps.append(b.inst("Expression", arg=m.text(), function=m.name(), options=b.dct(items={"o": v}), attributes=b.dct()))
                else:
                    ps.append(b.inst("Markup", kind=const("open"), name=m.name(), options=b.dct(items={"o": v}), attributes=b.dct()))
        return b.inst("PatternMessage", pattern=b.lst(ps), declarations=b.dct(items=decls))

    def want(h, o):
        names = list(o.attrs["declarations"])
        keep = {i for i in range(n) if used[i]}
        while True:
            more = {j for i, j in es if i in keep} - keep
            if not more:
                break
            keep |= more
        return Inst(o.cls, {**o.attrs, "declarations": {k: v for i, (k, v) in enumerate(o.attrs["declarations"].items()) if i in keep}})

    name = f"{n} declarations" + "".join(f", {i + 1} of {j + 1}" for i, j in es) + "".join(f", input {i + 1}" for i in range(n) if inputs[i]) + ", used: " + (" ".join(str(i + 1) for i in range(n) if used[i]) or "none")
    case(rep, I, "normalize:declarations", name, make, want, limit)
