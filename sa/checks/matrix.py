"""Designated-item analysis of the ten serializers, shared by C02-C05."""
from __future__ import annotations

from ..evalmod import Interp
from ..project import AnalysisBroken
from ..scen import FORMATS, SCEN

WHAT = (
    "Abstract interpretation of every serializer's source from the generic entry point serialize_resource: one item of the "
    "data model carries a label, among arbitrary other entries, sections and text; on every path that completes normally, the "
    "label must be in what was yielded or put into the output tree, else the item was dropped. Paths that raise count as rejecting."
)


def run(project, rep, prop, tier="quick", formats=FORMATS):
    I = Interp(project).load_all()
    I.strict, I.generations = True, 24
    for s in SCEN:
        if prop not in s.props:
            continue
        for fmt in formats:
            if not s.applies(fmt):
                continue
            # what is written must not depend on trimming, other than comments and metadata
            trims = (False,) if prop == "C02" or s.name.endswith("metadata") else (False, True)
            for trim in trims:
                decide(I, rep, s, fmt, trim)
    for f in sorted(I.visited_funcs if hasattr(I, "visited_funcs") else ()):
        rep.saw("functions interpreted", f)
    return I


def baseline(project, rep, formats=FORMATS):
    """The plain message has to serialize in every format, or nothing was analysed."""
    I = Interp(project).load_all()
    for s in SCEN:
        if s.name != "message":
            continue
        for fmt in formats:
            o, labels = s.run(I, fmt, True)
            if not o.completes:
                raise AnalysisBroken(f"no completing path found for a plain message in {fmt}")


def decide(I, rep, s, fmt, trim):
    o, labels = s.run(I, fmt, True, trim)
    key = f"{fmt}:{s.name}" + (":trimmed" if trim else "")
    rep.saw("format x scenario", key)
    if not o.completes:
        rep.ok(key, "rejected")
        return
    lost = sorted(labels - o.out)
    if not lost:
        rep.ok(key, "written")
        return
    gone = sorted(set(lost) - o.may)
    rep.bad(key, f"serializing {s.name.replace('_', ' ')} as {fmt}{' without comments' if trim else ''} can complete without writing {', '.join(lost)}"
            + (" (on no path is it written)" if gone == lost else " (on some path)"))
