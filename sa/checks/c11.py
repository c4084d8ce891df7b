"""Library functions do not modify their inputs: every function of the public API is interpreted with symbolic arguments owned by the caller; no reachable store, deletion or mutating method call may apply to a caller-owned object."""
import os
import time

from ..domain import *
from ..evalmod import Interp
from ..inputs import Build
from ..interp import Hooks
from ..project import AnalysisBroken
from ..par import parallel
from ..run import call, find_func
from ..scen import FORMATS

RULE = (
    "Ownership (alias) analysis by abstract interpretation: objects reachable from the arguments carry the owner 'input'; attribute and item stores, "
    "deletions and mutating methods of list/dict/set/lxml/fluent/polib objects are obligations whose receiver may not be owned by the caller "
    "(for add_entries: by the source resource)."
)
ASSUMPTIONS = ["library calls (lxml, polib, fluent.syntax, json) do not modify their arguments other than the receiver"]


T0 = time.time()


class Mutations(Hooks):
    def __init__(self):
        self.found = []
        self.sites = 0
        self.seen = set()

    def mutate(self, I, F, node, oid, obj, how):
        w = F.where(node)
        self.seen.add((w, how))
        if obj.owner == "input":
            self.found.append((F.fi.full if F.fi else F.module.name, w, how, obj.cls or obj.kind))


def entries(I, fmt):
    """(name, full function, args(b), kwargs(b), consume)"""
    R, M = "moz.l10n.resource.", "moz.l10n.message."

    def res(b, f=fmt):
        rid = b.idv(1) if f in ("xliff",) else mk(("t", ())) if f not in ("ini", "dtd", "properties", "plain_json") else mk(("tn", STR_T, False))
        val = b.message()
        if f in ("dtd", "inc", "ini", "plain_json", "properties"):
            val = join(b.pattern_message(), STR)
        item = join(b.entry(value=val, comment=STR, meta=b.meta(generic=True), properties=b.dct(ekey=STR_T, elem=b.pattern_message())), b.comment(kind="?"))
        return b.resource(elem=b.section(id=rid, elem=item, comment=STR), comment=STR, meta=b.meta(generic=True), format=b.fmt(f))
    yield f"serialize_resource:{fmt}", R + "serialize_resource:serialize_resource", lambda b: [res(b)], {"trim_comments": BOOL}, True


def entries2(I):
    R, M, MF = "moz.l10n.resource.", "moz.l10n.message.", "moz.l10n.formats.mf2."

    def entry(b):
        return b.entry(comment=STR, meta=b.meta(generic=True), properties=b.dct(ekey=STR_T, elem=b.message()))

    def res(b):
        return b.resource(elem=b.section(id=mk(("tn", STR_T, False)), elem=join(entry(b), b.comment(kind="?")), comment=STR, meta=b.meta(generic=True)),
                          comment=STR, meta=b.meta(generic=True))

    def simple(b):
        e = b.entry(value=b.pattern_message(), comment=STR, meta=b.meta(generic=True), properties=b.dct(ekey=STR_T, elem=b.pattern_message()))
        return b.resource(elem=b.section(id=mk(("tn", STR_T, False)), elem=join(e, b.comment(kind="?")), comment=STR, meta=b.meta(generic=True)),
                          comment=STR, meta=b.meta(generic=True))

    def jsn(b, depth=4):
        """Any JSON value owned by the caller."""
        v = V_JSON
        for _ in range(depth):
            v = join(join(b.lst(elem=v), b.dct(ekey=STR, elem=v)), V_JSON)
        return v
    for f in ("android", "fluent", "mf2", "properties", "webext", "xliff", "dtd"):
        yield f"serialize_message:{f}", M + "serialize:serialize_message", lambda b, f=f: [b.fmt(f), join(b.message(), b.pattern())], {}, False
    yield "message_to_json", M + "to_json:message_to_json", lambda b: [b.message()], {}, False
    yield "entry_to_json", M + "to_json:entry_to_json", lambda b: [entry(b)], {}, False
    yield "message_from_json", M + "from_json:message_from_json", lambda b: [jsn(b)], {}, False
    yield "entry_from_json", M + "from_json:entry_from_json", lambda b: [STR, jsn(b)], {}, False
    yield "mf2_to_json", MF + "to_json:mf2_to_json", lambda b: [b.message()], {}, False
    yield "mf2_from_json", MF + "from_json:mf2_from_json", lambda b: [jsn(b)], {}, False
    yield "mf2_validate_message", MF + "validate:mf2_validate_message", lambda b: [reorderable(b, b.message())], {}, False
    yield "mf2_serialize_pattern", MF + "serialize:mf2_serialize_pattern", lambda b: [b.pattern()], {}, True
    yield "webext_parse_message", "moz.l10n.formats.webext.parse:webext_parse_message", lambda b: [STR, b.dct(ekey=STR, elem=b.dct(ekey=STR, elem=STR))], {}, False
    yield "parse_message:webext", M + "parse:parse_message", lambda b: [b.fmt("webext"), STR], lambda b: {"webext_placeholders": b.dct(ekey=STR, elem=b.dct(ekey=STR, elem=STR))}, False
    yield "l10n_equal:resource", R + "l10n_equal:l10n_equal", lambda b: [res(b), res(b)], {}, False
    yield "fluent_serialize_entry", "moz.l10n.formats.fluent.serialize:fluent_serialize_entry", lambda b: [entry(b)], {}, False
    yield "fluent_astify", "moz.l10n.formats.fluent.serialize:fluent_astify", lambda b: [simple(b)], {}, False


def reorderable(b, v):
    """mf2_validate_message is documented to reorder the declarations, and only them."""
    for a in v.atoms:
        for d in b.st.heap[a[1]].attrs["declarations"].atoms:
            b.st.heap[d[1]].owner = "fresh"
    return v


V_JSON = mk(("s", "?"), ("i",), ("c", "NoneType", None), ("c", "bool", True), ("c", "bool", False))


def decide(I, h, rep, name, full, args, kwargs, consume):
    h.found.clear()
    h.seen.clear()
    b = Build(I)
    kw = kwargs(b) if callable(kwargs) else kwargs
    o = call(I, find_func(I, full), args(b), kw, b.st, consume)
    if not o.completes:
        raise AnalysisBroken(f"{name} has no completing path")
    if os.environ.get("DBG"):
        print(name, I.steps, round(time.time() - T0, 1))
    rep.saw("entry points", name)
    rep.saw("mutation sites", *(f"{w} {how}" for w, how in h.seen))
    if not h.found:
        rep.ok(name)
    for fn, w, how, what in sorted(set(h.found)):
        rep.bad(f"{name}:{fn}:{how}", f"{w}: {fn} applies {how} to a {what} that belongs to the caller of {name.split(':')[0]}")


def check(project, rep, tier):
    h = Mutations()
    I = Interp(project, h).load_all()
    todo = [x for fmt in FORMATS for x in entries(I, fmt)] + list(entries2(I))
    parallel(rep, lambda r, i: decide(I, h, r, *todo[i]), range(len(todo)))
    rep.need("entry points", 30)
    rep.need("mutation sites", 60)
