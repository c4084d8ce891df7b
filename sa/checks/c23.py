"""Migrations never change or lose existing translations: Migrate.apply and the migration utilities interpreted with an existing target resource under ownership tracking, and with unreadable targets."""
from ..domain import *
from ..domain import V, Obj
from ..evalmod import Interp
from ..inputs import Build, MODEL
from ..interp import Hooks
from ..project import AnalysisBroken
from ..run import call, find_func
from .migr import Migration, method

RULE = (
    "Abstract interpretation of Migrate.apply and of the migration helpers: (a) with a target that exists but cannot be parsed (whatever the exception) no file is opened "
    "for writing; (b) with a parsed target, its entries, messages, comments and sections are owned by the target: no store to them, and its entry lists are only "
    "changed by insert/append; (c) when the target holds an entry with the identifier, nothing is inserted; (d) the path written is the path parsed; "
    "(e) the returned changes are the same for dry runs; (f) copy() and entry() change nothing in the resources they read."
)
ASSUMPTIONS = ["migration functions given by the user do not modify the resource they are passed", "inserting into a list keeps the order of its other items"]

EXC = ("builtins.PermissionError", "builtins.ValueError", "builtins.UnicodeDecodeError", "moz.l10n.formats:UnsupportedFormat", "builtins.KeyError", "?")
ADD = {"append()", "insert()"}


class Owned(Migration):
    """The target resource is owned ('input'); changes to it are recorded."""

    def __init__(self, scenario="parsed", callback=None):
        super().__init__(None, scenario, callback, self.make)
        self.found, self.adds = {}, []
        self.sites = set()

    lists = frozenset()

    def make(self, I, st):
        if "tg:res" not in st.heap:
            self.build(I, st)
        return mk(("o", "tg:res"))

    def build(self, I, st, ids=None):
        """A target with any sections and any entries (and, with ids=(section id, entry id), a definite entry with it)."""
        b = Named(I, st)
        e = b.entry(comment=STR, meta=b.meta(generic=True), properties=b.dct(ekey=STR_T, elem=b.message()))
        c = b.comment()
        must = []
        if ids:
            must = [b.entry(id=const(ids[1]), comment=STR)]
        s = b.section(id=mk(("tn", STR_T, False)), elem=join(e, c), comment=STR, meta=b.meta(generic=True))
        secs = []
        if ids:
            secs = [b.section(id=const(ids[0]), must=must, elem=join(e, c), comment=STR)]
        r = b.resource(must=secs, elem=s, comment=STR, meta=b.meta(generic=True))
        (a,) = r.atoms
        st.heap["tg:res"] = st.heap.pop(a[1])
        self.lists = frozenset(
            x for oid, o in st.heap.items() if o.cls == MODEL + "Section" and o.owner == "input" for x in I.objs(o.attrs["entries"]))
        return mk(("o", "tg:res"))

    def mutate(self, I, F, node, oid, obj, how):
        w = F.where(node)
        self.sites.add(f"{w} {how}")
        if obj.owner != "input" or not oid.startswith("tg"):
            return
        what = obj.cls.split(":")[1] if obj.cls else obj.kind
        if oid.rstrip("~") in self.lists and how in ADD:
            self.adds.append(w)
            return
        self.found.setdefault((F.fi.full if F.fi else "?", how, what), f"{w}: {how} changes a {what} of an existing resource (call chain {F.chain()})")

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        return super().call_ext(I, F, node, dotted, args, kwargs, st)


class Named(Build):
    def alloc(self, obj):
        self.n += 1
        oid = f"tg{self.n}"
        self.st.heap[oid] = obj
        return mk(("o", oid))


def any_result(I, st, F, node):
    """What a migration function may return: messages, entries (also the target's own), tuples with ids, None."""
    b = Build(I, st)
    out = NONE
    for oid, o in st.heap.items():
        if o.owner == "input" and oid.startswith("tg") and o.cls in (MODEL + "Entry", MODEL + "PatternMessage", MODEL + "SelectMessage"):
            out = join(out, mk(("o", oid)))
    ids = I.new_list(st, F, node, elem=join(STR_T, mk(("tn", STR_T, True))), kind="set", tag="ids")
    return join(out, mk(("t", (out, ids))))


def structure(v, st, depth=0):
    """An abstract value as a nested structure without object names."""
    if v is None or depth > 6:
        return None
    out = set()
    for a in v.atoms:
        if a[0] == "o":
            o = st.heap.get(a[1])
            if o is None:
                out.add("?")
                continue
            out.add((o.kind, o.cls, structure(o.elem, st, depth + 1), structure(o.ekey, st, depth + 1),
                     tuple(tuple(structure(y, st, depth + 1) for y in x) if isinstance(x, tuple) else structure(x, st, depth + 1) for x in o.must),
                     tuple((k, structure(x, st, depth + 1)) for k, x in sorted(o.items.items(), key=repr)),
                     tuple((k, structure(x, st, depth + 1)) for k, x in sorted(o.attrs.items()))))
        else:
            out.add(a)
    return frozenset(out), v.may, v.must


def check(project, rep, tier):
    I = Interp(project, Hooks()).load_all()

    # (a) unreadable targets
    some = False
    for exc in EXC:
        m = Migration(None, exc)
        o = m.apply(I, dry_run=FALSE)
        tg = [w for w, p in m.parsed if "tgt" in p.must]
        if not tg:
            raise AnalysisBroken("Migrate.apply never parses a target file")
        rep.saw("scenarios", f"target parse raises {exc}")
        rep.decide(f"unparsable:{exc}", not m.opened,
                   f"a target file whose parsing raises {exc} is overwritten at {m.opened[0][0] if m.opened else ''}")
    m = Migration(None, "missing")
    m.apply(I, dry_run=FALSE)
    if not m.opened:
        raise AnalysisBroken("no file is created for a missing target")
    rep.saw("scenarios", "target missing")

    # (b) existing targets
    for i, ids in enumerate([None, ((), ("a",)), (("s",), ("a",))]):
        h = Owned(callback=any_result)
        if ids:
            h.make = lambda I, st, h=h, ids=ids: mk(("o", "tg:res")) if "tg:res" in st.heap else h.build(I, st, ids)
            h.target_res = h.make
        o = h.apply(I, dry_run=FALSE)
        if not h.parsed or not o.completes:
            raise AnalysisBroken("Migrate.apply has no completing path with an existing target")
        name = "any target" if not ids else f"target with {ids[0]}+{ids[1]}"
        rep.saw("scenarios", name)
        rep.saw("mutation sites", *h.sites)
        if not h.adds:
            raise AnalysisBroken("Migrate.apply adds nothing to an existing target")
        if not h.found:
            rep.ok(f"apply:{name}")
        for k, msg in sorted(h.found.items()):
            rep.bad(f"apply:{':'.join(k)}", msg)
        # (d)
        read = {frozenset(l for l in p.may if l.startswith("at:")) for _, p in h.parsed if "tgt" in p.must}
        for w, fn, p in h.opened:
            rep.decide(f"same-path:{fn}", p is not None and "tgt" in p.must and {frozenset(l for l in p.may if l.startswith("at:"))} == read,
                       f"{w}: the file written is not known to be the file that was parsed")
        for w, r in h.serialized:
            rep.decide("serialized:resource", r is not None and all(a[0] == "o" for a in r.atoms), f"{w}: what is written is not the migrated resource")
        if not h.opened:
            raise AnalysisBroken("no file is written")

    # (c) existing identifiers
    for ids in (((), ("a",)), (("s",), ("a",)), ((), ("a", "b")), (("s", "t"), ("a",))):
        h = Owned(callback=any_result)
        h.make = lambda I, st, h=h, ids=ids: mk(("o", "tg:res")) if "tg:res" in st.heap else h.build(I, st, ids)
        h.target_res = h.make
        h.ids = const(ids[0] + ids[1])
        o = h.apply(I, dry_run=FALSE)
        rep.saw("scenarios", f"{ids[0]}+{ids[1]} is present")
        if not o.completes:
            raise AnalysisBroken("Migrate.apply has no completing path when all identifiers exist")
        rep.decide(f"exists:{len(ids[0])}+{len(ids[1])}", not h.adds and not h.opened,
                   f"an entry is added although the target holds {ids[1]} in section {ids[0]}: {(h.adds + [x[0] for x in h.opened] + [''])[0]}")

    # (e) dry runs
    outs = []
    for dry in (TRUE, FALSE):
        h = Owned(callback=any_result)
        o = h.apply(I, dry_run=dry)
        outs.append(structure(o.value, o.state) if o.completes else None)
        rep.saw("scenarios", f"dry_run={dry}")
    rep.decide("dry_run:same-changes", outs[0] is not None and outs[0] == outs[1], "a dry run does not return the same changes as a real run")

    # (f) migration functions of the library
    for name, make in (("copy", lambda I, b: [join(NONE, STR_T), mk(("tn", STR_T, True))]), ("entry", lambda I, b: [])):
        h = Owned(callback=any_result)
        I.hooks = h
        b = Build(I)
        res = h.build(I, b.st)
        kw = {"property": join(NONE, STR_T), "replace": TOP, "value_only": BOOL, "variant": join(NONE, mk(("tn", STR_T, True)))} if name == "copy" else \
            {"value": TOP, "properties": b.dct(ekey=STR_T, elem=TOP), "allow_partial": BOOL, "comment": join(NONE, STR), "meta": NONE}
        o = call(I, find_func(I, "moz.l10n.migrate:" + name), make(I, b), kw, b.st)
        if not o.completes:
            raise AnalysisBroken(f"migrate.{name} has no completing path")
        ctx = b.alloc(Obj("inst", "moz.l10n.migrate.utils:MigrationContext",
                          {"paths": TOP, "ref_path": STR_T, "locale": STR_T, "parse_options": b.dct(), "target_id": mk(("tn", STR_T, True)),
                           "_prev_ids": b.lst(), "_resources": b.dct(ekey=STR_T, elem=join(res, NONE))}))
        o = call(I, o.value, [res, ctx], {}, o.state)
        if not o.completes:
            raise AnalysisBroken(f"migrate.{name}() has no completing path")
        rep.saw("scenarios", f"migration function {name}")
        rep.saw("mutation sites", *h.sites)
        if not h.found:
            rep.ok(f"function:{name}")
        for k, msg in sorted(h.found.items()):
            rep.bad(f"function:{name}:{':'.join(k)}", msg)
    rep.need("scenarios", 15)
    rep.need("mutation sites", 3)
