"""Adding entries keeps all target entries and builds contain only source messages: add_entries and the build commands interpreted with labelled entries under ownership tracking."""
from ..domain import *
from ..domain import V, Obj
from ..evalmod import Interp
from ..inputs import Build, MODEL
from ..interp import Hooks
from ..project import AnalysisBroken
from ..run import call, find_func
from .migr import open_mode

RULE = (
    "Abstract interpretation: (a) add_entries without use_source_entries makes no store to an entry, section, comment or metadata of the target and changes its lists only by "
    "insert/append, never changes the source, adds each entry the target lacks and none it has; (b) in the build commands, the resource that is serialized holds, "
    "of labelled entries, the translation's value for identifiers of the source, the source's value for untranslated ones (nothing for Fluent), and nothing of identifiers (or Fluent attributes) the source lacks; "
    "the file written is the target, the files parsed are the source and the localization."
)
ASSUMPTIONS = ["identifiers are compared by equality"]


def tuples(*x):
    return const(tuple(x))


class Add(Hooks):
    def __init__(self):
        self.found, self.adds, self.sites, self.lists = {}, [], set(), set()

    def mutate(self, I, F, node, oid, obj, how):
        w = F.where(node)
        self.sites.add(f"{w} {how}")
        if obj.owner not in ("input", "source"):
            return
        what = obj.cls.split(":")[1] if obj.cls else obj.kind
        if obj.owner == "input" and oid.rstrip("~") in self.lists and how in ("append()", "insert()"):
            self.adds.append(w)
            return
        side = "target" if obj.owner == "input" else "source"
        self.found.setdefault((F.fi.full if F.fi else "?", how, what, side), f"{w}: {how} changes a {what} of the {side} resource")


def own(st, before, owner):
    for oid in set(st.heap) - before:
        st.heap[oid] = st.heap[oid].w(owner=owner)


def add_entries(I, rep):
    full = "moz.l10n.resource.add_entries:add_entries"
    l = lambda x: frozenset([x])

    def run(name, tgt, src, use=FALSE, owned=True):
        h = Add()
        I.hooks = h
        b = Build(I)
        n0 = set(b.st.heap)
        t = tgt(b)
        for oid in set(b.st.heap) - n0:
            o = b.st.heap[oid]
            if o.cls == MODEL + "Section":
                h.lists |= set(I.objs(o.attrs["entries"]))
            if o.cls == MODEL + "Resource":
                h.lists |= set(I.objs(o.attrs["sections"]))
        n1 = set(b.st.heap)
        s = src(b)
        own(b.st, n1, "source")
        o = call(I, find_func(I, full), [t, s], {"use_source_entries": use}, b.st)
        if not o.completes:
            raise AnalysisBroken(f"add_entries has no completing path ({name})")
        rep.saw("scenarios", name)
        rep.saw("mutation sites", *h.sites)
        return h, o, t

    def generic(b):
        it = join(b.entry(comment=STR, meta=b.meta(generic=True), properties=b.dct(ekey=STR_T, elem=b.message())), b.comment())
        return b.resource(elem=b.section(id=mk(("tn", STR_T, False)), elem=it, comment=STR, meta=b.meta(generic=True)), comment=STR, meta=b.meta(generic=True))
    h, o, _ = run("any target, any source", generic, generic)
    if not h.adds:
        raise AnalysisBroken("add_entries adds nothing")
    if not h.found:
        rep.ok("add:ownership")
    for k, m in sorted(h.found.items()):
        rep.bad("add:" + ":".join(k), m)
    h, o, _ = run("any target, any source, use_source_entries", generic, generic, TRUE)
    src = {k: m for k, m in h.found.items() if k[3] == "source"}
    if not src:
        rep.ok("override:source")
    for k, m in sorted(src.items()):
        rep.bad("override:" + ":".join(k), m)

    def one(sid, eid, label=None, others=True):
        def f(b):
            e = b.entry(id=tuples(*eid), value=b.pattern_message(must=[strv("S", l(label), l(label))] if label else []))
            oth = b.entry(id=mk(("tn", strv("N"), True))) if others else None
            return b.resource(must=[b.section(id=tuples(*sid), must=[e], elem=oth)])
        return f
    for sid in ((), ("s",), ("s", "t")):
        for eid in (("a",), ("a", "b")):
            key = f"{len(sid)}+{len(eid)}"
            h, o, t = run(f"present {key}", one(sid, eid, others=False), one(sid, eid, "new", others=False))
            rep.decide(f"add:present:{key}", not h.adds and "new" not in I.labels(t, o.state)[0],
                       f"an entry present in the target is added again or replaced by add_entries ({(h.adds + [''])[0]})")
            for tn, tgt in (("empty", lambda b: b.resource()), ("other section", one(("z",), eid, others=False)), ("other id", one(sid, ("z",), others=False))):
                h, o, t = run(f"absent {key} {tn}", tgt, one(sid, eid, "new", others=False))
                rep.decide(f"add:absent:{key}:{tn}", "new" in I.labels(t, o.state)[1],
                           f"an entry that the target lacks may not be added (target with {tn})")
            h, o, t = run(f"override {key}", one(sid, eid, others=False), one(sid, eid, "new", others=False), TRUE)
            rep.decide(f"add:override:{key}", "new" in I.labels(t, o.state)[0], "use_source_entries does not replace an entry that differs")
    rep.need("mutation sites", 3)


class Cap(Hooks):
    def __init__(self, src, l10n):
        self.src, self.l10n = src, l10n
        self.calls, self.parsed, self.opened, self.copied = [], [], [], []

    def call_func(self, I, F, node, fi, args, kwargs, st):
        if fi.module.name.startswith("moz.l10n.paths.") and fi.cls is not None:
            if fi.name == "all":
                k = mk(("t", (strv("S", frozenset(["src"]), frozenset(["src"])), strv("S"))))
                return I.alloc(st, "paths:all", Obj("dict", ekey=k, elem=join(NONE, I.new_list(st, F, node, elem=STR_T, tag="pl"))))
            if fi.name == "format_target_path":
                return strv("S", frozenset(["l10n"]), frozenset(["l10n"]))
            return STR_T if fi.name != "__init__" else NONE
        if fi.name == "parse_resource":
            p = args[0] if args else kwargs.get("input", TOP)
            self.parsed.append((F.where(node), p))
            make = self.l10n if "l10n" in p.must else self.src
            r = make(I, st)
            return r
        if fi.name == "serialize_resource":
            r = args[0] if args else kwargs.get("resource")
            self.calls.append((F.where(node), r, st.copy()))
            return STR
        return None

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        om = open_mode(dotted, args, kwargs)
        if om is not None:
            if om[0] is None or any(set(m) & set("wax+") for m in om[0]):
                self.opened.append((F.where(node), om[1]))
            return I.new_ext(st, F, node, "file", [])
        if dotted in ("os.path.exists", "os.path.isfile"):
            return TRUE if args and "l10n" in args[0].must else BOOL
        if dotted == "shutil.copyfile":
            self.copied.append((F.where(node), args[0], args[1]))
        return None


def build(I, rep):
    l = lambda x: frozenset([x])

    def lab(x):
        return strv("S", l(x), l(x))

    def resources(fmt, sid, sp, tp):
        """source with a, c; translation with b, a (b is obsolete, c untranslated)"""

        def res(b, entries, n):
            more = []
            if n == "L":
                more = [b.section(id=tuples(*(() if sid else ("q",))), must=[
                    b.entry(id=tuples("a"), value=b.pattern_message(must=[lab("tz")], generic=False), properties=b.dct(), comment=lab("Lc"))])]
            es = [b.entry(id=tuples(i), value=b.pattern_message(must=[lab(v)], generic=False), comment=lab(n + "c"),
                          properties=b.dct(items={k: b.pattern_message(must=[lab(q)], generic=False) for k, q in p.items()})) for i, v, p in entries]
            return b.resource(must=more + [b.section(id=tuples(*sid), must=es, elem=b.comment(label=n + "c"))], format=b.fmt(fmt))

        def make(prefix, entries):
            def f(I, st):
                b = Build(I, st)
                b.alloc = lambda obj, b=b, c=[0]: (c.__setitem__(0, c[0] + 1), I.alloc(st, f"{prefix}{c[0]}", obj.w(owner="fresh")))[1]
                return res(b, entries, prefix)
            return f
        return make("S", [("a", "sa", sp), ("c", "sc", sp)]), make("L", [("b", "tb", tp), ("a", "ta", tp)])
    for fmt in ("fluent", "properties", "gettext", "ini", "webext"):
        # the attributes of the source and translated messages
        attrs = [({"x": "sx"}, {"x": "tx", "y": "ty"}), ({}, {"y": "ty"}), ({"x": "sx"}, {"x": "tx"})] if fmt == "fluent" else [({"x": "sx"}, {"x": "tx"})]
        for sid, (sp, tp) in [(x, y) for x in ((), ("s",)) for y in attrs]:
            src, tr = resources(fmt, sid, sp, tp)
            with_x = "x" in sp
            path = lambda x: strv("S", l(x), l(x))
            for full, args, kwargs in (
                ("moz.l10n.bin.build:write_target_file", lambda I, st: [STR_T, src(I, st), path("l10n"), path("target")], {}),
                ("moz.l10n.bin.build_file:cli", lambda I, st: [], {"verbose": INT, "source": path("src"), "target": path("target"), "l10n": path("l10n"), "coverage_base": NONE}),
                ("moz.l10n.bin.build:cli", lambda I, st: [], {"verbose": INT, "config": STR_T, "base": STR_T, "target": path("target"),
                                                             "locales": None, "coverage": FALSE}),
            ):
                h = Cap(src, tr)
                I.hooks = h
                b = Build(I)
                kw = dict(kwargs)
                if "locales" in kw:
                    kw["locales"] = b.alloc(Obj("set", elem=STR_T, owner="input"))
                o = call(I, find_func(I, full), args(I, b.st), kw, b.st)
                name = f"{full.split('bin.')[1]}:{fmt}:{len(sid)}:{len(sp)}/{len(tp)}"
                rep.saw("build scenarios", name)
                if not o.completes or not h.calls:
                    raise AnalysisBroken(f"{full} serializes nothing")
                for w, r, st in h.calls:
                    may, must = I.live_labels(r, st)
                    rep.decide(f"{name}:translated", "ta" in must and "sa" not in may, f"{w}: the translation of a message is not what is built ({fmt})")
                    rep.decide(f"{name}:obsolete", not {"tb", "tz"} & may, f"{w}: a message the source lacks is built ({fmt})")
                    if fmt == "fluent":
                        rep.decide(f"{name}:untranslated", "sc" not in may, f"{w}: an untranslated Fluent message is built")
                        rep.decide(f"{name}:attributes", "ty" not in may and (not with_x or "tx" in must), f"{w}: Fluent attributes built are not those of the source")
                    else:
                        rep.decide(f"{name}:untranslated", "sc" in must, f"{w}: an untranslated message is not built from the source ({fmt})")
                        rep.decide(f"{name}:attributes", "tx" in must, f"{w}: properties of a translated message are not built ({fmt})")
                for w, p in h.opened:
                    if p is not None:
                        rep.decide(f"{name}:target", "target" in p.must, f"{w}: the file written is not the build target")
                for w, a, c in h.copied:
                    rep.decide(f"{name}:copy", "target" in c.must and "target" not in a.may, f"{w}: the copy does not go to the build target")
                if not h.opened:
                    raise AnalysisBroken(f"{full} writes nothing")
    rep.need("build scenarios", 30)


def check(project, rep, tier):
    I = Interp(project, Hooks()).load_all()
    add_entries(I, rep)
    build(I, rep)
