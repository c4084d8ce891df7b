"""Format dispatch is complete and options reach the format: for every member of Format, the generic parse/serialize functions are interpreted with uniquely labelled options; the implementation package entered and the values bound to its parameters are compared."""
import os
import time
T0 = time.time()

from ..domain import *
from ..domain import V
from ..evalmod import Interp
from ..inputs import Build
from ..interp import Hooks
from ..project import AnalysisBroken
from ..run import call, find_func

RULE = (
    "For each generic function and each Format member: (a) some path completes; (b) every formats.* package entered directly from the generic "
    "function is that format's own; (c) each option of the generic function, given a uniquely labelled value, is bound unchanged to the "
    "implementation's parameter of the same name (less the format prefix), and (d) further calls of that package's functions with a parameter of that "
    "name get that same value; (e) detect_format maps each registered extension to its format, whatever the source."
)
ASSUMPTIONS = ["options are recognised by their parameter names"]

RES = ("android", "dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "xliff")
MSG = ("android", "fluent", "mf2", "properties", "webext", "xliff")
EXT = {".dtd": "dtd", ".ftl": "fluent", ".po": "gettext", ".pot": "gettext", ".inc": "inc", ".ini": "ini",
       ".properties": "properties", ".xlf": "xliff", ".xliff": "xliff"}
P = "moz.l10n.formats."


def package(fi):
    n = fi.module.name
    return n[len(P):].split(".")[0] if n.startswith(P) else None


def params(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs]


class Watch(Hooks):
    @staticmethod
    def opt(v):
        return any(l.startswith("opt:") for l in v.may)

    def __init__(self):
        self.direct, self.calls, self.shallow = [], [], False

    def call_func(self, I, F, node, fi, args, kwargs, st):
        pk = package(fi)
        if pk is not None:
            pos, kwo = params(fi)
            bound = dict(zip(pos, args))
            bound.update(kwargs)
            outer = F.module.name if F.fi is not None else ""
            rec = (pk, fi, bound, F.where(node), pos + kwo)
            if not outer.startswith(P) and fi.cls is None:
                self.direct.append(rec)
                if not any(self.opt(v) for v in bound.values()):
                    return TOP  # no option to follow any further
            else:
                self.calls.append((outer[len(P):].split(".")[0],) + rec)
                if self.shallow and "." not in fi.qual and not any(
                    l.startswith("opt:") for v in bound.values() for l in I.labels(v, st)[0]
                ):
                    return TOP
        return None


def members(I):
    ci = I.classes.get("moz.l10n.formats:Format")
    if ci is None or not ci.members:
        raise AnalysisBroken("Format enum not found")
    return list(ci.members)


def option_label(name):
    return strv("N", frozenset(["opt:" + name]), frozenset(["opt:" + name]))


def same(v, name):
    return v is not None and "opt:" + name in v.must and all(a == ("s", "N") for a in v.atoms)


def generic(I, full, fmt, lead, rep, required, also=()):
    """Interpret one generic function for one format; lead(b) gives the leading arguments."""
    w = Watch()
    I.hooks = w
    w.shallow = "parse" in full
    fv = find_func(I, full)
    fi = I.funcs[[a for a in fv.atoms if a[0] == "f"][0][1]]
    pos, kwo = params(fi)
    b = Build(I)
    args = lead(b)
    opts = [p for p in pos[len(args):] + kwo]
    o = call(I, fv, args, {p: option_label(p) for p in opts}, b.st, consume="serialize_resource" in full)
    fn = full.split(":")[1]
    if os.environ.get("DBG"):
        print(fn, fmt, I.steps, round(time.time() - T0, 1))
    rep.saw("generic function x format", f"{fn}:{fmt}")
    if required:
        rep.decide(f"{fn}:{fmt}:supported", o.completes, f"{fn} has no completing path for Format.{fmt}")
        own = [d for d in w.direct if d[0] == fmt]
        rep.decide(f"{fn}:{fmt}:own", bool(own), f"{fn} does not call an implementation in formats.{fmt} for Format.{fmt}")
    for pk, f2, bound, where, names in w.direct:
        rep.decide(f"{fn}:{fmt}:only", pk == fmt, f"{where}: {fn} calls {f2.qual} of formats.{pk} for Format.{fmt}")
    if not required:
        return o
    for p in opts:
        short = p[len(fmt) + 1:] if p.startswith(fmt + "_") else p
        for pk, f2, bound, where, names in w.direct:
            if pk != fmt:
                continue
            hit = [q for q in (short, p) if q in names]
            if not hit:
                if p.startswith(fmt + "_") and not any(short in d[4] for d in w.direct if d[0] == fmt):
                    rep.bad(f"{fn}:{fmt}:{p}", f"{where}: no parameter of {f2.qual} takes the option {p}")
                continue
            rep.saw("options bound", f"{fn}:{fmt}:{p}->{f2.qual}.{hit[0]}")
            rep.decide(f"{fn}:{fmt}:{p}", same(bound.get(hit[0]), p),
                       f"{where}: option {p} of {fn} does not reach {f2.qual} parameter {hit[0]} unchanged")
        for outer, pk, f2, bound, where, names in w.calls:
            if pk != fmt or outer != fmt or short not in names or f2.name.startswith("__") or len(short) < 5:
                continue
            rep.saw("options threaded", f"{fn}:{fmt}:{p}->{f2.qual}")
            v = bound.get(short)
            key = f"{fn}:{fmt}:{p}->{f2.qual}"
            rep.decide(key, v is not None and "opt:" + p in v.may, f"{where}: {f2.qual} is called without the {p} given to {fn}")
    return o


def check(project, rep, tier):
    I = Interp(project).load_all()
    fmts = members(I)
    R = "moz.l10n.resource."
    for fmt in fmts:
        req = fmt != "mf2"
        generic(I, R + "parse_resource:parse_resource", fmt, lambda b: [b.fmt(fmt), STR], rep, req)
        for how in ("arg", "own", "override"):
            def lead(b):
                other = "dtd" if fmt != "dtd" else "ini"
                val = b.message() if how == "own" else b.pattern_message()
                rid = b.idv(1) if fmt in ("xliff", "ini") else mk(("t", ()))
                e = b.entry(id=b.idv(1), value=val)
                res = b.resource(elem=b.section(id=rid, elem=e), format=NONE if how == "arg" else b.fmt(fmt if how == "own" else other))
                return [res, NONE if how == "own" else b.fmt(fmt)]
            generic(I, R + "serialize_resource:serialize_resource", fmt, lead, rep, req)
        req = fmt in MSG
        generic(I, "moz.l10n.message.parse:parse_message", fmt, lambda b: [b.fmt(fmt), STR], rep, req)
        generic(I, "moz.l10n.message.serialize:serialize_message", fmt,
                lambda b: [b.fmt(fmt), b.inst("PatternMessage", pattern=b.lst(must=[SOLID]), declarations=b.dct())], rep, req)
    # (e)
    I.hooks = Hooks()
    det = find_func(I, "moz.l10n.formats:detect_format")
    for ext, fmt in EXT.items():
        for name, src in (("file" + ext, NONE), ("file" + ext, STR), ("dir.xml/file" + ext, NONE)):
            b = Build(I)
            o = call(I, det, [const(name), src], {}, b.st)
            want = b.fmt(fmt)
            rep.saw("extensions", ext)
            rep.decide(f"detect_format:{ext}", o.completes and o.value.atoms == want.atoms, f"detect_format({name!r}) is not always Format.{fmt}")
    for ext, ok in ((".json", {"webext", "plain_json"}), (".xml", {"android", "xliff"})):
        b = Build(I)
        o = call(I, det, [const("file" + ext), STR], {}, b.st)
        allowed = set().union(*(b.fmt(f).atoms for f in ok)) | NONE.atoms
        rep.decide(f"detect_format:{ext}", o.completes and all(b.fmt(f).atoms <= o.value.atoms for f in ok) and o.value.atoms <= allowed | (b.fmt("android").atoms | b.fmt("xliff").atoms),
                   f"detect_format for {ext} does not give {sorted(ok)} or None")
    rep.need("generic function x format", 40)
    rep.need("options bound", 20)
    rep.need("extensions", 9)
