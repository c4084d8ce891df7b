"""Running abstract calls and reading off their outcome."""
from __future__ import annotations

from .domain import *
from .domain import V
from .evalmod import Interp
from .interp import Dead, Frame
from .project import AnalysisBroken, FuncInfo


class Outcome:
    __slots__ = ("completes", "may", "must", "emitted", "value", "state", "raises")

    def __init__(self):
        self.completes = False
        self.may = self.must = self.emitted = frozenset()
        self.value = self.state = None
        self.raises = []

    @property
    def out(self):
        return self.must | self.emitted


def find_func(I, full):
    mod, _, q = full.partition(":")
    fr = I.base.frames.get("M:" + mod)
    if fr is None or q.split(".")[0] not in fr:
        raise AnalysisBroken(f"anchor {full} not found")
    v = fr[q.split(".")[0]]
    v = V(frozenset(a for a in v.atoms if a[0] in ("f", "k")))
    if not v.atoms:
        raise AnalysisBroken(f"anchor {full} is not a function")
    return v


def call(I, fv, args, kwargs, st, consume=False):
    """Call abstractly; consume=True iterates the result (generators run lazily)."""
    F = Frame(None, I.p.modules["moz.l10n.model"], "M:moz.l10n.model", [], 0)
    node = _Node()
    r = Outcome()
    I.handlers = [[]]
    I.active = []
    I.steps = 0
    try:
        v = I.call_value(fv, args, kwargs, st, F, node)
        if consume:
            elem, must, _ = I.iter_elems(v, st, F, node)
            may, mst = set(), set()
            for x in must:
                m, n = I.labels(x, st)
                may |= m
                mst |= n
            if elem is not None:
                may |= I.labels(elem, st)[0]
            r.may, r.must = frozenset(may), frozenset(mst)
            r.value = (elem, must)
        else:
            r.may, r.must = I.labels(v, st)
            r.value = v
        r.emitted = st.emitted
        r.completes = True
        r.state = st
    except Dead:
        pass
    r.raises = I.handlers[0]
    return r


class _Node:
    lineno = 0
    col_offset = 0
