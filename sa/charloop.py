"""Loops over the characters of an unknown string, as automata.

The body of the loop is interpreted for one character of each class, from each state of the local variables that it can leave
behind; states which differ only in what has been collected are not told apart.  What comes out is a finite automaton with output."""
from __future__ import annotations

import ast

from .domain import *
from .interp import Dead

NEXT, END, FAIL, UNKNOWN = "next", "end", "fail", "unknown"


def text_of(I, v, st):
    """The string that a variable stands for: a known string, or a list of known strings."""
    if len(v.atoms) != 1:
        return None
    (a,) = v.atoms
    if a[0] == "c" and isinstance(a[2], str):
        return a[2]
    if a[0] == "o" and a[1] in st.heap:
        o = st.heap[a[1]]
        if o.kind == "list" and o.elem is None and not o.summary and not o.cmay:
            xs = [next(iter(x.atoms)) if len(x.atoms) == 1 else ("?",) for x in o.must]
            if all(x[0] == "c" and isinstance(x[2], str) for x in xs):
                return "".join(x[2] for x in xs)
    return None


def local_vars(F, st):
    return st.frames.get(F.fid, {})


def step(I, F, node, st, c):
    """(kind, [(state, returned value or None)]) of one turn of the loop."""
    st = st.copy()
    n = len(F.returns)
    F.loops.append(([], []))
    try:
        I.assign(node.target, const(c), st, F)
        out = I.exec_block(node.body, st, F)
    except Dead:
        out = None
    br, co = F.loops.pop()
    rets = F.returns[n:]
    del F.returns[n:]
    more = [x for x in [out, *co] if x is not None]
    ends = [(x, None) for x in br] + [(x, v) for v, x, _ in rets]
    if more and ends or len(more) > 1 or len(ends) > 1:
        return UNKNOWN, []
    if more:
        return NEXT, [(more[0], None)]
    if ends:
        return END, ends
    return FAIL, []


def explore(I, F, node, st, chars, limit=400):
    """Yields (word, kind, {variable: collected text}, returned text or None); raises KeyError where it cannot be followed."""
    names = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}

    def collected(s):
        out = {}
        for k, v in local_vars(F, s).items():
            if k not in names:
                t = text_of(I, v, s)
                if t is not None:
                    out[k] = t
        return out

    def signature(s):
        col = collected(s)
        return tuple(sorted((k, min(len(col[k]), 2) if k in col else repr(v)) for k, v in local_vars(F, s).items() if k not in names))
    todo, seen = [("", st)], {signature(st)}
    while todo:
        w, s = todo.pop(0)
        for c in chars:
            limit -= 1
            if limit < 0:
                raise KeyError("too many states")
            kind, res = step(I, F, node, s, c)
            if kind == UNKNOWN:
                raise KeyError(f"not decided for {w + c!r}")
            if kind == FAIL:
                yield w + c, FAIL, {}, None
                continue
            t, v = res[0]
            yield w + c, kind, collected(t), (text_of(I, v, t) if v is not None else None)
            if kind == NEXT:
                g = signature(t)
                if g not in seen:
                    seen.add(g)
                    todo.append((w + c, t))
