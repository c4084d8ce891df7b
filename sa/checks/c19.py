"""Every regular expression of the package, with all constant pieces put together, is turned into an automaton and its loops are searched for words that can be matched in two ways (exponential backtracking)."""
from __future__ import annotations

import ast

from ..evalmod import Interp
from ..names import Names
from ..rxnfa import NFA

RULE = (
    "For every call of a function of re with a pattern that is constant (through names, concatenation, f-strings and .pattern of other expressions, resolved over the syntax trees or by abstract interpretation of the module): "
    "the position automaton of the pattern has no state with two different paths to itself over the same word (exponential ambiguity, decided by strongly connected components of its self-product), "
    "unless every state of that loop may end the match.  Look-around is decided separately, and otherwise taken as always true.  Patterns put together at run time are checked piece by piece."
)
ASSUMPTIONS = ["matching by backtracking takes exponential time only where the automaton is exponentially ambiguous", "patterns made from the paths of a configuration are not applied to file or message content"]
FUNCS = ("compile", "match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer", "template")


def fragments(e, names):
    """Constant strings an expression is put together from."""
    out = set()
    for x in ast.walk(e):
        if isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)):
            out.add(x.value)
        elif isinstance(x, ast.Name):
            for b in names.bindings(x.id, x) or ():
                if b[0] == "assign":
                    for y in ast.walk(b[1]):
                        if isinstance(y, ast.Constant) and isinstance(y.value, str):
                            out.add(y.value)
    return out


def decide(rep, key, where, pattern, flags, full):
    try:
        n = NFA(pattern, flags)
        todo, bad = [n], None
        while todo and bad is None:
            x = todo.pop()
            bad = x.eda(full)
            for a in x.asserted:
                todo.append(NFA_of(a, x))
            full = False
    except RecursionError:
        rep.notes.append(f"{where}: the pattern is too large")
        return
    except Exception as e:  # not a pattern on its own
        rep.notes.append(f"{where}: not decided: {e}")
        return
    text = pattern if len(pattern) < 80 else pattern[:77] + "..." if isinstance(pattern, str) else repr(pattern[:77])
    rep.decide(key, bad is None, f"{where}: matching {text!r} can take exponential time: a loop of it matches the same text in two ways, through {', '.join(x.describe(i) for i in dict.fromkeys(bad or ()))}")


class NFA_of(NFA):
    """The automaton of a look-around."""

    def __init__(self, tree, parent):
        self.ascii, self.icase, self.dotall, self.cap = parent.ascii, parent.icase, parent.dotall, parent.cap
        self.is_bytes = parent.is_bytes
        self.classes, self.asserted, self.exact = [], [], True
        self.eps, self.sym, self.guards = [], [], set()
        self.tail = self.head = None
        self.s, self.e = self.build(tree)
        self._positions()


def re_flags(names, call, pos, prefix):
    import re
    fl = 0
    e = call.args[pos] if len(call.args) > pos else next((k.value for k in call.keywords if k.arg == "flags"), None)
    if e is not None:
        for x in ast.walk(e):
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            if nm and nm.isupper() and nm != "DEBUG":
                fl |= int(getattr(re, nm, 0))
    return fl


def check(project, rep, tier):
    I = Interp(project).load_all()
    names = Names(project)
    fullnames = {c.func.value.attr if isinstance(c.func.value, ast.Attribute) else getattr(c.func.value, "id", None)
                 for _, c in names.calls if isinstance(c.func, ast.Attribute) and c.func.attr == "fullmatch"}
    done = {}
    for m, c in names.calls:
        fn = next((d[3:] for d in names.dotted(c.func) if d.startswith("re.") and d[3:] in FUNCS), None)
        if fn is None:
            continue
        e = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == "pattern"), None)
        if e is None:
            continue
        where = names.where(c)
        rep.saw("calls of re", where)
        pats = names.consts(e)
        full = fn == "fullmatch" or any(isinstance(a, ast.Assign) and a.value is c and any(getattr(t, "id", None) in fullnames for t in a.targets) for a in ast.walk(m.tree))
        fl = re_flags(names, c, {"compile": 1, "sub": 4, "subn": 4, "split": 3}.get(fn, 2), fn)
        if pats is None or not pats:
            for f in sorted(fragments(e, names), key=repr):
                rep.saw("pieces of patterns", repr(f)[:60])
                decide(rep, f"piece:{m.name}:{f!r}"[:120], where, f, fl, False)
            rep.saw("patterns put together at run time", where)
            continue
        for p in pats:
            if isinstance(p, (str, bytes)):
                done[p] = True
                rep.saw("patterns", repr(p)[:80])
                decide(rep, f"pattern:{m.name}:{p!r}"[:160], where, p, fl, full)
    # what abstract interpretation found compiled at module level, and inside functions' constants
    for fid, fr in I.base.frames.items():
        for nm, v in fr.items():
            for a in v.atoms:
                if a[0] == "re" and isinstance(a[1], (str, bytes)) and a[1] not in done:
                    done[a[1]] = True
                    rep.saw("patterns", repr(a[1])[:80])
                    decide(rep, f"pattern:{fid[2:]}:{a[1]!r}"[:160], f"{fid[2:]}.{nm}", a[1], a[2] or 0, nm in fullnames)
    rep.need("patterns", 30)
