"""The build commands, interpreted with a symbolic source and translation."""
from __future__ import annotations

from ..domain import *
from ..evalmod import Interp
from ..inputs import Build
from ..interp import Hooks
from ..project import AnalysisBroken
from ..run import call, find_func


class Capture(Hooks):
    """Stands in for the project's parsing and serializing; records what is serialized and how."""

    def __init__(self, make):
        self.make, self.calls, self.parsed = make, [], 0

    def call_func(self, I, F, node, fi, args, kwargs, st):
        if fi.name == "parse_resource":
            self.parsed += 1
            return self.make(I, st)
        if fi.name == "serialize_resource":
            names = [a.arg for a in fi.node.args.args]
            kw = dict(zip(names, args))
            kw.update(kwargs)
            res = args[0] if args else kwargs.get("resource")
            self.calls.append((F.where(node), kw, I.snap(res, st) if res is not None else None, st.copy()))
            return STR
        return None


def runs(project, make):
    """(entry point, captured serialize calls) for the two build commands."""
    for full in ("moz.l10n.bin.build:write_target_file", "moz.l10n.bin.build_file:cli"):
        cap = Capture(make)
        I = Interp(project, cap).load_all()
        fv = find_func(I, full)
        b = Build(I)
        if full.endswith("write_target_file"):
            src = make(I, b.st)
            args, kwargs = [STR_T, src, STR_T, STR_T], {}
        else:
            args, kwargs = [], {"verbose": INT, "source": STR_T, "target": STR_T, "l10n": join(NONE, STR_T), "coverage_base": join(NONE, STR_T)}
        o = call(I, fv, args, kwargs, b.st)
        if not o.completes:
            raise AnalysisBroken(f"{full} has no completing path")
        yield full, cap, I, o


def trimmed(project, rep):
    def make(I, st):
        return Build(I, st).resource(elem=Build(I, st).section(elem=Build(I, st).entry()))
    n = 0
    for full, cap, I, o in runs(project, make):
        for where, kw, _, _ in cap.calls:
            t = kw.get("trim_comments", FALSE)
            n += 1
            rep.saw("build serialize calls", where)
            rep.decide(f"{full}:trim_comments", t.atoms == TRUE.atoms, f"{where}: serialized without trim_comments=True")
    rep.need("build serialize calls", 2)
